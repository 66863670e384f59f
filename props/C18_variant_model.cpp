// PARTS 4 3
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <variant>
#include "vecops.hpp"

static const pbt::RegHook packed{[] { life::aligned = false; }, nullptr}; // variants are packed
using T0 = life::Elem<0>;
using T1 = life::Elem<1>;
template<typename T> struct V {
	static T make(int v) { return vecops::Of<T>::make(v); }
	static int get(const T & t) { return vecops::Of<T>::get(t); }
};
template<> struct V<ptl::vector<int>> {
	static ptl::vector<int> make(int v) { return ptl::vector<int>(static_cast<std::size_t>(v % 30), v); }
	static int get(const ptl::vector<int> & v) { for(auto x : v) PBT_CHECK(x == v[0] && static_cast<std::size_t>(x % 30) == v.size()); return v.empty() ? -1 : v[0]; }
};
template<> struct V<char> { static char make(int v) { return static_cast<char>(v); } static int get(char c) { return c; } };

#if IN_PART(0) || IN_PART(1)
template<typename Var, typename Ref, typename... T>
struct Rich {
	static constexpr std::size_t count = sizeof...(T);
	template<std::size_t I> using At = std::tuple_element_t<I, std::tuple<T...>>;

	static void same(const Var & v, const Ref & m, const char * where) {
		const auto k = m.index();
		std::size_t held = 0;
		const auto one = [&](auto t, std::size_t i) {
			using X = typename decltype(t)::type;
			PBT_CHECK(v.template holds<X>() == (i == k), "%s: holds<alternative %zu>() is %d while alternative %zu was stored last", where, i, v.template holds<X>(), k);
			held += v.template holds<X>();
			const X * p = v.template get_if<X>();
			PBT_CHECK((p != nullptr) == (i == k), "%s: get_if", where);
			if(p) PBT_CHECK(V<X>::get(*p) == V<X>::get(std::get<X>(m)), "%s: alternative %zu holds %d, expected %d", where, i, V<X>::get(*p), V<X>::get(std::get<X>(m)));
		};
		std::size_t i = 0;
		(one(ptl::internal_variant::type_identity<T>{}, i++), ...);
		PBT_CHECK(held == 1, "%s: %zu alternatives are held", where, held);
		v.visit([&](const auto & t) { using X = std::decay_t<decltype(t)>; PBT_CHECK(std::holds_alternative<X>(m), "%s: visiting reaches another alternative", where); });
	}
	static void settle(Var & v, Ref & m) { // values moved from: owning types get a known value
		if constexpr((std::is_same_v<T, ptl::string> || ...)) if(auto p = std::get_if<ptl::string>(&m)) { *p = V<ptl::string>::make(1); PBT_CHECK(v.template holds<ptl::string>(), "a moved-from variant changed its alternative"); v.template get<ptl::string>() = *p; }
		if constexpr((std::is_same_v<T, ptl::vector<int>> || ...)) if(auto p = std::get_if<ptl::vector<int>>(&m)) { *p = V<ptl::vector<int>>::make(1); PBT_CHECK(v.template holds<ptl::vector<int>>(), "a moved-from variant changed its alternative"); v.template get<ptl::vector<int>>() = *p; }
	}
	template<std::size_t I>
	static void store(pbt::Src & s, Var & v, Ref & m, int x) {
		using X = At<I>;
		const auto how = s.raw(11);
		TRACE("  store alternative %zu value %d, how %d", I, x, static_cast<int>(how));
		m.template emplace<I>(V<X>::make(x));
		switch(how) {
			case 0: PBT_CHECK(&(v = V<X>::make(x)) == &v); break;
			case 1: { const X c = V<X>::make(x); PBT_CHECK(&(v = c) == &v); break; }
			case 2: { X c = V<X>::make(x); v = c; PBT_CHECK(V<X>::get(c) == V<X>::get(std::get<I>(m)), "assignment changed its argument"); break; }
			case 3: { X & r = v.template emplace<X>(V<X>::make(x)); PBT_CHECK(std::addressof(r) == v.template get_if<X>()); break; }
			case 4: { X & r = v.template emplace<I>(V<X>::make(x)); PBT_CHECK(std::addressof(r) == v.template get_if<X>()); break; }
			case 5: { const X c = V<X>::make(x); v.template emplace<X>(c); break; }
			case 6: { Var w{V<X>::make(x)}; v = std::move(w); break; }
			case 7: { const X c = V<X>::make(x); const Var w{c}; v = w; break; }
			case 8: { Var w{std::in_place_type<X>, V<X>::make(x)}; v.swap(w); break; }
			case 9: { const Var w{std::in_place_index<I>, V<X>::make(x)}; Var u{w}; swap(u, v); break; }
			default: v.template emplace<X>(); m.template emplace<I>(); break;
		}
	}
	template<std::size_t... I>
	static void store_any(pbt::Src & s, Var & v, Ref & m, int x, std::index_sequence<I...>) {
		static void (* const f[])(pbt::Src &, Var &, Ref &, int){store<I>...};
		s.pick(f)(s, v, m, x);
	}
	static void history(pbt::Src & s) {
		alloc::Lib lib;
		Var v[3];
		Ref m[3];
		std::size_t n = 0, changes = 0;
		do {
			const auto i = s.raw(3), j = s.raw(3);
			const int x = static_cast<int>(s.raw(500));
			const auto op = s.raw(16);
			TRACE("op %d on %zu with %zu", static_cast<int>(op), static_cast<std::size_t>(i), static_cast<std::size_t>(j));
			auto & a = v[i]; auto & b = v[j];
			auto & p = m[i]; auto & q = m[j];
			const auto before = p.index();
			switch(op) {
				default: store_any(s, a, p, x, std::make_index_sequence<count>{}); break;
				case 1: PBT_CHECK(&(a = static_cast<const Var &>(b)) == &a); p = static_cast<const Ref &>(q); break;
				case 2: if(i != j) { a = std::move(b); Ref t{std::move(q)}; p = std::move(t); settle(b, q); } else a = std::move(b); break;
				case 3: a.swap(b); p.swap(q); break;
				case 4: swap(a, b); p.swap(q); break;
				case 5: std::swap(a, b); p.swap(q); break;
				case 6: { const Var t{static_cast<const Var &>(b)}; same(t, q, "copy"); a = t; p = Ref{q}; break; }
				case 7: if(i != j) { Var t{std::move(b)}; p = std::move(q); same(t, p, "moved"); a = std::move(t); settle(b, q); } break;
				case 8: a = static_cast<const Var &>(a); break;
				case 9: a = Var{}; p = Ref{}; break;
			}
			if(before != p.index()) ++changes;
			for(int k = 0; k < 3; ++k) same(v[k], m[k], "after an operation");
			std::size_t alive = 0;
			for(auto & r : m) alive += std::visit([](auto & t) { return vecops::is_elem<std::decay_t<decltype(t)>> ? std::size_t{1} : 0; }, r);
			PBT_CHECK(life::live == 2 * alive, "%zu values are alive, expected %zu", life::live - alive, alive);
		} while(s.more(n, 8, 20));
		if(changes > 1) s.nontrivial();
	}
};
#endif
#if IN_PART(0)
PBT_TEST(rich, 60000, "the alternative changed at least twice") { Rich<ptl::variant<int, T0, ptl::string, life::Big, T1, ptl::vector<int>, char>, std::variant<int, T0, ptl::string, life::Big, T1, ptl::vector<int>, char>, int, T0, ptl::string, life::Big, T1, ptl::vector<int>, char>::history(s); }
#endif
#if IN_PART(1)
PBT_TEST(tracked, 60000, "the alternative changed at least twice") { Rich<ptl::variant<T0, T1>, std::variant<T0, T1>, T0, T1>::history(s); }
PBT_TEST(single, 15000, "always") { s.nontrivial(); Rich<ptl::variant<ptl::string>, std::variant<ptl::string>, ptl::string>::history(s); }
PBT_TEST(lists, 20000, "the alternative changed at least twice") { Rich<ptl::variant<int, odd::List>, std::variant<int, odd::List>, int, odd::List>::history(s); }
PBT_TEST(last, 30000, "the alternative changed at least twice") { Rich<ptl::variant<char, int, T1>, std::variant<char, int, T1>, char, int, T1>::history(s); }
#endif

#if IN_PART(2) || IN_PART(3)
// alternatives of different sizes: a value that is copied or swapped as another alternative is damaged
template<int I> struct N {
	static constexpr int tail = I * 7 % 23;
	unsigned char b[3 + tail];
	static N make(int x) { N n; n.b[0] = static_cast<unsigned char>(x); n.b[1] = static_cast<unsigned char>(x >> 8); for(int i = 0; i <= tail; ++i) n.b[2 + i] = static_cast<unsigned char>(x * 5 + I + i); return n; }
	int get() const { const int x = b[0] | b[1] << 8; for(int i = 0; i <= tail; ++i) if(b[2 + i] != static_cast<unsigned char>(x * 5 + I + i)) return -1; return x; }
};
template<typename Seq> struct VarOf;
template<int... I> struct VarOf<std::integer_sequence<int, I...>> { using type = ptl::variant<N<I>...>; };
struct Which { std::size_t k; int x; };
struct Visitor { template<int K> Which operator()(const N<K> & n) const { return {K, n.get()}; } };
template<typename Var, int K> static void store(std::size_t how, Var & v, int x) {
	if(how == 0) v = N<K>::make(x);
	else if(how == 1) v.template emplace<N<K>>(N<K>::make(x));
	else { const auto c = N<K>::make(x); v = c; }
}
template<typename Var, int K> static bool holds(const Var & v) {
	const auto p = v.template get_if<N<K>>();
	PBT_CHECK((p != nullptr) == v.template holds<N<K>>());
	return p;
}
// only some alternatives are stored directly (instantiating all for all is quadratic); copying, moving and visiting are built for all of them
template<int Count, int... K>
static void many(pbt::Src & s, std::integer_sequence<int, K...>) {
	using Var = typename VarOf<std::make_integer_sequence<int, Count>>::type;
	static void (* const stores[])(std::size_t, Var &, int){store<Var, K>...};
	static bool (* const queries[])(const Var &){holds<Var, K>...};
	static const std::size_t index[]{static_cast<std::size_t>(K)...};
	Var v[2]{N<0>::make(0), N<0>::make(0)};
	std::size_t k[2]{0, 0}, n = 0;
	int x[2]{0, 0};
	do {
		const auto i = s.raw(2);
		auto & a = v[i]; auto & b = v[1 - i];
		switch(s.raw(8)) {
			default: {
				const auto c = s.raw(sizeof...(K));
				const int y = static_cast<int>(s.raw(1000));
				const auto how = s.raw(3);
				TRACE("store alternative %zu of %d value %d, how %zu in %zu", index[c], Count, y, static_cast<std::size_t>(how), static_cast<std::size_t>(i));
				stores[c](how, a, y);
				k[i] = index[c]; x[i] = y;
				break;
			}
			case 1: TRACE("copy to %zu", static_cast<std::size_t>(i)); a = static_cast<const Var &>(b); k[i] = k[1 - i]; x[i] = x[1 - i]; break;
			case 2: TRACE("move to %zu", static_cast<std::size_t>(i)); a = std::move(b); k[i] = k[1 - i]; x[i] = x[1 - i]; break;
			case 3: TRACE("swap"); a.swap(b); std::swap(k[0], k[1]); std::swap(x[0], x[1]); break;
			case 4: TRACE("construct from %zu", static_cast<std::size_t>(i)); { const Var w{static_cast<const Var &>(a)}; Var u{w}; a = std::move(u); } break;
		}
		for(int q = 0; q < 2; ++q) {
			const auto w = v[q].visit(Visitor{});
			PBT_CHECK(w.k == k[q] && w.x == x[q], "variant %d of %d alternatives: visiting finds alternative %zu with %d, expected %zu with %d", q, Count, w.k, w.x, k[q], x[q]);
			for(std::size_t c = 0; c < sizeof...(K); ++c) PBT_CHECK(queries[c](v[q]) == (index[c] == k[q]), "holds alternative %zu is wrong while %zu is stored", index[c], k[q]);
			if(k[q] > 126 || Count < 127) s.nontrivial();
		}
	} while(s.more(n, 6, 12));
}
#endif
#if IN_PART(2)
PBT_TEST(twelve, 40000, "always") { many<12>(s, std::make_integer_sequence<int, 12>{}); }
PBT_TEST(forty, 40000, "always") { many<40>(s, std::integer_sequence<int, 0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 38, 39>{}); }
#endif
#if IN_PART(3)
#if defined(PBT_THOROUGH) && defined(__clang__) && __cplusplus == 201703L
PBT_TEST(maximum, 40000, "an alternative beyond the 127th was stored") { many<254>(s, std::integer_sequence<int, 0, 1, 63, 64, 126, 127, 128, 129, 200, 252, 253>{}); }
#elif defined(__clang__)
PBT_TEST(maximum, 40000, "an alternative beyond the 127th was stored") { many<130>(s, std::integer_sequence<int, 0, 1, 63, 64, 126, 127, 128, 129>{}); }
#endif
#endif
