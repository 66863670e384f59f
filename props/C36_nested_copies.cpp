// PARTS 4
#include <ptl/array.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
#include "vecops.hpp"
#include <array>
#include <optional>
#include <tuple>
#include <variant>

// Nested values of library types next to a tree of standard types.
// N<T>: M the model; draw a model; build a T from it; compare; mutate both alike, somewhere in the tree
static const pbt::RegHook packed{[] { life::aligned = false; }, nullptr};
using X = life::Elem<0>;
template<typename T, typename = void> struct N;
template<typename T>
struct N<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
	using M = T;
	static M draw(pbt::Src & s, int) { return static_cast<T>(s.raw(20)); }
	static T build(const M & m) { return m; }
	static bool same(const T & t, const M & m) { return t == m; }
	static void mutate(pbt::Src & s, T & t, M & m) { m = draw(s, 0); t = m; TRACE("  := %d", static_cast<int>(m)); }
	static std::size_t weight(const M &) { return 0; }
};
template<> struct N<X> {
	using M = int;
	static M draw(pbt::Src & s, int) { return static_cast<int>(s.raw(20)); }
	static X build(const M & m) { return X(m); }
	static bool same(const X & t, const M & m) { return t.get() == m; }
	static void mutate(pbt::Src & s, X & t, M & m) { m = draw(s, 0); t.v = m; TRACE("  element := %d", m); }
	static std::size_t weight(const M &) { return 1; }
};
template<> struct N<odd::List> {
	using M = int;
	static M draw(pbt::Src & s, int) { return static_cast<int>(s.raw(20)); }
	static odd::List build(const M & m) { return odd::List(m); }
	static bool same(const odd::List & t, const M & m) { return t.v == m; }
	static void mutate(pbt::Src & s, odd::List & t, M & m) { m = draw(s, 0); t = odd::List(m); TRACE("  element := %d", m); }
	static std::size_t weight(const M &) { return 1; }
};
template<> struct N<ptl::bitset<20>> {
	using M = unsigned;
	static M draw(pbt::Src & s, int) { return static_cast<unsigned>(s.raw(1u << 20)); }
	static ptl::bitset<20> build(const M & m) { ptl::bitset<20> b; for(std::size_t i = 0; i < 20; ++i) b.set(i, m >> i & 1); return b; }
	static bool same(const ptl::bitset<20> & t, const M & m) { for(std::size_t i = 0; i < 20; ++i) if(t[i] != (m >> i & 1)) return false; return true; }
	static void mutate(pbt::Src & s, ptl::bitset<20> & t, M & m) { const auto i = s.raw(20); t.flip(i); m ^= 1u << i; TRACE("  flip %d", static_cast<int>(i)); }
	static std::size_t weight(const M &) { return 0; }
};
template<> struct N<ptl::string> {
	using M = std::string;
	static M draw(pbt::Src & s, int) { static const std::size_t lens[]{0, 1, 3, 21, 22, 23, 40, 60}; static const std::size_t large[]{100, 255, 256, 1000, 4095, 4096, 5000, 65535, 65536, 70000}; std::string r(s.chance(1, 40) ? s.pick(large) : s.pick(lens), 'a'); for(std::size_t i = 0; i < r.size(); ++i) r[i] = static_cast<char>((i == r.size() / 2 ? s.raw(256) : 'a' + i % 7)); return r; }
	static ptl::string build(const M & m) { return LIB(ptl::string{std::string_view{m}}); }
	static bool same(const ptl::string & t, const M & m) { return t.size() == m.size() && std::memcmp(t.data(), m.data(), m.size()) == 0 && t.c_str()[m.size()] == 0; }
	static void mutate(pbt::Src & s, ptl::string & t, M & m) {
		const auto k = s.raw(7);
		TRACE("  string op %d", static_cast<int>(k));
		switch(k) {
			case 0: LIB(t.push_back('#')); m.push_back('#'); break;
			case 1: if(!m.empty()) { const auto i = s.raw(m.size()); t[i] = '~'; m[i] = '~'; } break;
			case 2: LIB(t.clear()); m.clear(); break;
			case 3: { const auto n = draw(s, 0); LIB(t.append(std::string_view{n})); m += n; break; }
			case 4: if(!m.empty()) { LIB(t.erase(t.cbegin())); m.erase(0, 1); } break;
			case 5: { const auto n = draw(s, 0); LIB(t = std::string_view{n}); m = n; break; }
			default: LIB(t.shrink_to_fit()); break;
		}
	}
	static std::size_t weight(const M & m) { return m.size() > 22; }
};
template<typename T> struct N<ptl::vector<T>> {
	using C = N<T>;
	using M = std::vector<typename C::M>;
	static M draw(pbt::Src & s, int d) { M r; auto n = s.raw(d > 1 ? 4 : 7); if(std::is_trivially_copyable_v<T> && s.chance(1, 60)) n = 200 + s.raw(2000); for(; n; --n) r.push_back(C::draw(s, d + 1)); return r; }
	static ptl::vector<T> build(const M & m) { ptl::vector<T> r; for(const auto & e : m) { T t(C::build(e)); LIB(r.push_back(std::move(t))); } return r; }
	static bool same(const ptl::vector<T> & t, const M & m) {
		if(t.size() != m.size()) return false;
		for(std::size_t i = 0; i < m.size(); ++i) if(!C::same(t[i], m[i])) return false;
		return true;
	}
	static void mutate(pbt::Src & s, ptl::vector<T> & t, M & m) {
		const auto k = m.empty() ? s.raw(3) : s.raw(9);
		TRACE("  vector of %zu op %d", m.size(), static_cast<int>(k));
		switch(k) {
			case 0: { auto e = C::draw(s, 2); T x(C::build(e)); LIB(t.push_back(std::move(x))); m.push_back(std::move(e)); break; }
			case 1: LIB(t.reserve(m.size() + s.raw(20))); break;
			case 2: { auto v = draw(s, 1); ptl::vector<T> x{build(v)}; const auto & cx = x; LIB(t = cx); m = v; break; }
			case 3: { const auto i = s.raw(m.size()); LIB(t.erase(t.cbegin() + static_cast<std::ptrdiff_t>(i))); m.erase(m.begin() + static_cast<std::ptrdiff_t>(i)); break; }
			case 4: { const auto i = s.raw(m.size() + 1), j = s.raw(m.size()); // a copy of an own element
				const T & e = t[j]; typename C::M x = m[j];
				LIB(t.insert(t.cbegin() + static_cast<std::ptrdiff_t>(i), e)); m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), x); break; }
			case 5: { const auto i = s.raw(m.size()), j = s.raw(m.size()); const T & e = t[j]; typename C::M x = m[j]; LIB(t[i] = e); m[i] = x; break; } // siblings, or self
			default: { const auto i = s.raw(m.size()); C::mutate(s, t[i], m[i]); break; }
		}
	}
	static std::size_t weight(const M & m) { std::size_t w = !m.empty(); for(const auto & e : m) w += C::weight(e); return w; }
};
template<typename T> struct N<ptl::optional<T>> {
	using C = N<T>;
	using M = std::optional<typename C::M>;
	static M draw(pbt::Src & s, int d) { if(s.chance(1, 3)) return M{}; return M{std::in_place, C::draw(s, d + 1)}; }
	static ptl::optional<T> build(const M & m) { ptl::optional<T> r; if(m) { T t(C::build(*m)); LIB(r.emplace(std::move(t))); } return r; }
	static bool same(const ptl::optional<T> & t, const M & m) { return t.has_value() == m.has_value() && (!m || C::same(*t, *m)); }
	static void mutate(pbt::Src & s, ptl::optional<T> & t, M & m) {
		const auto k = s.raw(m ? 6 : 3);
		TRACE("  %s optional op %d", m ? "engaged" : "empty", static_cast<int>(k));
		switch(k) {
			case 0: { auto e = C::draw(s, 2); T x(C::build(e)); LIB(t.emplace(std::move(x))); m.emplace(std::move(e)); break; }
			case 1: { auto v = draw(s, 1); ptl::optional<T> x{build(v)}; const auto & cx = x; LIB(t = cx); m = std::move(v); break; }
			case 2: { auto v = draw(s, 1); ptl::optional<T> x{build(v)}; LIB(t.swap(x)); m = std::move(v); break; }
			case 3: LIB(t.reset()); m.reset(); break;
			default: C::mutate(s, *t, *m); break;
		}
	}
	static std::size_t weight(const M & m) { return m ? C::weight(*m) : 0; }
};
template<typename T, std::size_t K> struct N<ptl::array<T, K>> {
	using C = N<T>;
	using M = std::array<typename C::M, K>;
	static M draw(pbt::Src & s, int d) { M r; for(auto & e : r) e = C::draw(s, d + 1); return r; }
	static ptl::array<T, K> build(const M & m) { ptl::array<T, K> r{}; for(std::size_t i = 0; i < K; ++i) { T t(C::build(m[i])); LIB(r[i] = std::move(t)); } return r; }
	static bool same(const ptl::array<T, K> & t, const M & m) { for(std::size_t i = 0; i < K; ++i) if(!C::same(t[i], m[i])) return false; return true; }
	static void mutate(pbt::Src & s, ptl::array<T, K> & t, M & m) {
		const auto k = s.raw(6);
		TRACE("  array op %d", static_cast<int>(k));
		switch(k) {
			case 0: { auto v = draw(s, 1); ptl::array<T, K> x{build(v)}; const auto & cx = x; LIB(t = cx); m = std::move(v); break; }
			case 1: { auto e = C::draw(s, 2); T x(C::build(e)); LIB(t.fill(x)); m.fill(e); break; }
			case 2: { const auto i = s.raw(K), j = s.raw(K); const T & e = t[j]; typename C::M x = m[j]; LIB(t[i] = e); m[i] = x; break; }
			default: { const auto i = s.raw(K); C::mutate(s, t[i], m[i]); break; }
		}
	}
	static std::size_t weight(const M & m) { std::size_t w = 0; for(const auto & e : m) w += C::weight(e); return w; }
};
template<typename... T> struct N<ptl::variant<T...>> {
	using V = ptl::variant<T...>;
	using M = std::variant<typename N<T>::M...>; // addressed by index: models of different alternatives may coincide
	static constexpr std::size_t K = sizeof...(T);
	template<std::size_t I> using At = std::tuple_element_t<I, std::tuple<T...>>;
	template<typename F> static void with(std::size_t i, F f) { with(i, f, std::make_index_sequence<K>{}); }
	template<typename F, std::size_t... I> static void with(std::size_t i, F & f, std::index_sequence<I...>) { (void)((i == I && (f(std::integral_constant<std::size_t, I>{}), true)) || ...); }
	static M draw(pbt::Src & s, int d) { M r; with(s.raw(K), [&](auto i) { r.template emplace<i>(N<At<i>>::draw(s, d + 1)); }); return r; }
	static void store(V & r, const M & m) { with(m.index(), [&](auto i) { At<i> t(N<At<i>>::build(std::get<i>(m))); LIB(r.template emplace<At<i>>(std::move(t))); }); }
	static V build(const M & m) { V r; store(r, m); return r; }
	static bool same(const V & t, const M & m) {
		bool ok = false;
		with(m.index(), [&](auto i) { const auto p = t.template get_if<At<i>>(); ok = p && N<At<i>>::same(*p, std::get<i>(m)); });
		return ok;
	}
	static void mutate(pbt::Src & s, V & t, M & m) {
		const auto k = s.raw(6);
		TRACE("  variant holding %zu op %d", m.index(), static_cast<int>(k));
		switch(k) {
			case 0: { auto v = draw(s, 1); V x{build(v)}; const auto & cx = x; LIB(t = cx); m = std::move(v); break; }
			case 1: { auto v = draw(s, 1); store(t, v); m = std::move(v); break; }
			case 2: { auto v = draw(s, 1); V x{build(v)}; LIB(t.swap(x)); m = std::move(v); break; }
			default: with(m.index(), [&](auto i) { N<At<i>>::mutate(s, t.template get<At<i>>(), std::get<i>(m)); }); break;
		}
	}
	static std::size_t weight(const M & m) { std::size_t w = 0; with(m.index(), [&](auto i) { w = N<At<i>>::weight(std::get<i>(m)); }); return w; }
};
template<typename... T> struct N<ptl::tuple<T...>> {
	using U = ptl::tuple<T...>;
	using M = std::tuple<typename N<T>::M...>;
	static constexpr std::size_t K = sizeof...(T);
	using V = N<ptl::variant<T...>>; // for its helpers
	template<std::size_t I> using At = std::tuple_element_t<I, std::tuple<T...>>;
	static M draw(pbt::Src & s, int d) { return M{N<T>::draw(s, d + 1)...}; }
	template<std::size_t... I> static U build(const M & m, std::index_sequence<I...>) { return U{N<At<I>>::build(std::get<I>(m))...}; }
	static U build(const M & m) { return build(m, std::make_index_sequence<K>{}); }
	template<std::size_t... I> static bool same(const U & t, const M & m, std::index_sequence<I...>) { return (N<At<I>>::same(t.template get<I>(), std::get<I>(m)) && ...); }
	static bool same(const U & t, const M & m) { return same(t, m, std::make_index_sequence<K>{}); }
	static void mutate(pbt::Src & s, U & t, M & m) {
		const auto k = s.raw(4);
		TRACE("  tuple op %d", static_cast<int>(k));
		if(k == 0) { auto v = draw(s, 1); U x{build(v)}; const auto & cx = x; LIB(t = cx); m = std::move(v); }
		else V::with(s.raw(K), [&](auto i) { N<At<i>>::mutate(s, t.template get<i>(), std::get<i>(m)); });
	}
	template<std::size_t... I> static std::size_t weight(const M & m, std::index_sequence<I...>) { return (N<At<I>>::weight(std::get<I>(m)) + ... + 0); }
	static std::size_t weight(const M & m) { return weight(m, std::make_index_sequence<K>{}); }
};

constexpr std::size_t pool = 3;
template<typename T>
static void history(pbt::Src & s) {
	using C = N<T>;
	typename C::M m[pool]{C::draw(s, 0), C::draw(s, 0), C::draw(s, 0)};
	alignas(64) unsigned char raw[pool][sizeof(T)];
	struct Guard { unsigned char (&raw)[pool][sizeof(T)]; bool live[pool]{}; ~Guard() { for(std::size_t i = 0; i < pool; ++i) if(live[i]) LIB(reinterpret_cast<T *>(raw[i])->~T()); } } g{raw};
	const auto at = [&](std::size_t i) -> T & { return *std::launder(reinterpret_cast<T *>(raw[i])); };
	for(std::size_t i = 0; i < pool; ++i) { new(raw[i]) T(C::build(m[i])); g.live[i] = true; }
	bool copied = false, used = false;
	std::size_t n = 0;
	do {
		const auto i = s.raw(pool), j = s.raw(pool);
		const auto op = s.raw(10);
		TRACE("op %d on %zu, %zu", static_cast<int>(op), i, j);
		switch(op) {
			case 0: case 1: { const T & c = at(j); auto & r = LIB(at(i) = c); PBT_CHECK(&r == &at(i)); m[i] = m[j]; if(i != j && C::weight(m[i])) copied = true; break; }
			case 2: // copy construction over an object that was destroyed before
				if(i == j) break;
				LIB(at(i).~T());
				g.live[i] = false;
				{ const T & c = at(j); LIB(new(raw[i]) T(c)); }
				g.live[i] = true;
				m[i] = m[j];
				if(C::weight(m[i])) copied = true;
				break;
			case 3: { const T & c = at(j); T t(LIB(T(c))); PBT_CHECK(C::same(t, m[j]), "a temporary copy differs"); auto mt = m[j]; C::mutate(s, t, mt); PBT_CHECK(C::same(t, mt), "a modified copy differs"); LIB(at(i) = std::move(t)); m[i] = std::move(mt); break; }
			case 4: { // a copy which fails for lack of memory
				const T & c = at(j);
				alloc::fail_at = 1 + s.raw(6);
				bool failed = false;
				alignas(64) unsigned char b[sizeof(T)];
				try { LIB(new(b) T(c)); } catch(const std::bad_alloc &) { failed = true; }
				alloc::fail_at = 0;
				if(!failed) { PBT_CHECK(C::same(*std::launder(reinterpret_cast<T *>(b)), m[j]), "a copy differs"); LIB(std::launder(reinterpret_cast<T *>(b))->~T()); }
				else s.label("copy failed");
				break;
			}
			case 5: { T t(C::build(m[i])); PBT_CHECK(t == at(i) && !(t != at(i)), "equal values compare unequal"); LIB(at(i) = std::move(t)); break; }
			default: if(copied) used = true; C::mutate(s, at(i), m[i]); break;
		}
		for(std::size_t k = 0; k < pool; ++k) PBT_CHECK(C::same(at(k), m[k]), "object %zu does not have its expected value", k);
		if(s.chance(1, 3)) {
			const auto & a = at(i); const auto & b = at(j);
			PBT_CHECK((a == b) == (m[i] == m[j]) && (a != b) == (m[i] != m[j]), "equality");
			PBT_CHECK((a < b) == (m[i] < m[j]) && (a > b) == (m[i] > m[j]) && (a <= b) == (m[i] <= m[j]) && (a >= b) == (m[i] >= m[j]), "order");
		}
	} while(s.more(n, 14, 50));
	if(used) s.nontrivial();
}
#define RULE "a value owning storage or elements was copied and one of the objects was modified afterwards"
template<typename T> using V = ptl::vector<T>;
template<typename T> using O = ptl::optional<T>;
template<typename... T> using R = ptl::variant<T...>;
template<typename... T> using U = ptl::tuple<T...>;
using S = ptl::string;
#if IN_PART(0)
PBT_TEST(vectors, 20000, RULE) { static void (* const f[])(pbt::Src &){history<V<O<R<S, int>>>>, history<V<V<S>>>, history<V<R<S, V<int>>>>}; s.pick(f)(s); }
#endif
#if IN_PART(1)
PBT_TEST(optionals, 20000, RULE) { static void (* const f[])(pbt::Src &){history<O<O<S>>>, history<O<V<O<X>>>>, history<O<ptl::array<V<S>, 2>>>}; s.pick(f)(s); }
#endif
#if IN_PART(2)
PBT_TEST(variants, 20000, RULE) { static void (* const f[])(pbt::Src &){history<R<S, V<V<S>>, int>>, history<R<ptl::array<S, 2>, V<S>>>, history<R<V<X>, X, V<R<int, S>>>>}; s.pick(f)(s); }
#endif
#if IN_PART(3)
PBT_TEST(arrays, 12000, RULE) { static void (* const f[])(pbt::Src &){history<ptl::array<O<S>, 3>>, history<ptl::array<ptl::array<V<X>, 2>, 2>>}; s.pick(f)(s); }
PBT_TEST(lists, 12000, RULE) { using L = odd::List; static void (* const f[])(pbt::Src &){history<V<O<L>>>, history<R<int, V<L>, L>>, history<U<L, O<L>>>}; s.pick(f)(s); }
PBT_TEST(tuples, 12000, RULE) { static void (* const f[])(pbt::Src &){history<U<S, V<O<S>>>>, history<U<int, O<V<S>>, R<S, int>>>}; s.pick(f)(s); }
#endif
#if IN_PART(0)
// plain elements, sizes around powers of two: any original, any state of the target
template<typename E>
static void flat(pbt::Src & s) {
	using B = vecops::Of<E>;
	constexpr int values = std::is_same_v<E, char> ? 100 : 1000;
	const auto length = [&] {
		if(!s.chance(2, 3)) return static_cast<std::size_t>(s.raw(70));
		const auto v = std::size_t{1} << s.range(0, s.chance(1, 20) ? 17 : 11);
		return s.flip() ? v : v - 1 + s.raw(3);
	};
	const auto make = [&](std::vector<int> & m) {
		m.resize(length());
		int x = static_cast<int>(s.raw(values));
		const int step = static_cast<int>(s.raw(3));
		for(auto & e : m) e = x, x = (x + step) % values;
		ptl::vector<E> r;
		if(s.flip()) LIB(r.reserve(m.size()));
		for(const int e : m) { E tmp = B::make(e); LIB(r.push_back(std::move(tmp))); }
		if(s.chance(1, 3)) LIB(r.reserve(m.size() + s.raw(3000)));
		return r;
	};
	std::vector<int> m, mo;
	auto a = make(m);
	auto b = make(mo);
	const bool assigned = s.flip();
	TRACE("%zu elements, copied %s", m.size(), assigned ? "over others" : "into a new object");
	const ptl::vector<E> & c = a;
	if(assigned) LIB(b = c); else { LIB(std::destroy_at(std::addressof(b))); LIB(new(std::addressof(b)) ptl::vector<E>(c)); }
	mo = m;
	vecops::same(b, m, "copy");
	PBT_CHECK(a == b && !(a != b) && !(a < b));
	if(m.empty()) return;
	for(int k = 0; k < 3; ++k) {
		auto & v = k & 1 ? a : b;
		auto & n = k & 1 ? m : mo;
		const auto i = s.flip() ? n.size() - 1 : s.raw(n.size());
		n[i] = static_cast<int>(s.raw(values));
		v[i] = B::make(n[i]);
	}
	vecops::same(a, m, "original");
	vecops::same(b, mo, "modified copy");
	if(m.size() > 1) s.nontrivial();
}
PBT_TEST(flat_vectors, 20000, "more than one element was copied and then modified") { static void (* const f[])(pbt::Src &){flat<char>, flat<int>, flat<life::Pod3>, flat<life::Big>, flat<life::Elem<7>>}; s.pick(f)(s); }
PBT_TEST(flat_strings, 20000, "more than one character was copied and then modified") {
	const auto make = [&](std::string & m) {
		const auto v = std::size_t{1} << s.range(0, 12);
		m = gen::text(s, 4);
		m.resize(s.flip() ? v : v - 1 + s.raw(3), s.byte());
		for(auto k = s.raw(4); k && !m.empty(); --k) m[s.raw(m.size())] = s.byte();
		ptl::string r{std::string_view{m}};
		if(s.chance(1, 3)) r.reserve(m.size() + s.raw(3000));
		return r;
	};
	std::string m, mo;
	auto a = make(m);
	auto b = make(mo);
	const ptl::string & c = a;
	if(s.flip()) b = c; else { std::destroy_at(std::addressof(b)); new(std::addressof(b)) ptl::string(c); }
	mo = m;
	const auto same = [](const ptl::string & v, const std::string & m) { PBT_CHECK(v.size() == m.size() && std::memcmp(v.data(), m.data(), m.size()) == 0 && v.c_str()[m.size()] == 0, "a string differs"); };
	same(b, m);
	PBT_CHECK(a == b);
	if(m.empty()) return;
	for(int k = 0; k < 3; ++k) {
		auto & v = k & 1 ? a : b;
		auto & n = k & 1 ? m : mo;
		const auto i = s.flip() ? n.size() - 1 : s.raw(n.size());
		n[i] = s.byte();
		v[i] = n[i];
	}
	same(a, m);
	same(b, mo);
	if(m.size() > 1) s.nontrivial();
}
#endif
