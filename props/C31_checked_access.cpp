// PARTS 3
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <bitset>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
#include "common.hpp"

// an index: inside, just beyond, inside the reserved space, huge, or one which wraps around to an element when multiplied or truncated
static std::size_t index(pbt::Src & s, std::size_t size, std::size_t reserved, std::size_t element) {
	switch(s.raw(9)) {
		case 0: case 1: case 2: return size ? s.raw(size) : 0;
		case 3: return size;
		case 4: return size + 1 + s.raw(8);
		case 5: return size + s.raw(reserved > size ? reserved - size : 1);
		case 6: return ~std::size_t{0} - s.raw(size + 3);
		case 7: { static const int bits[]{63, 62, 61, 60, 32, 31, 16, 15, 8, 7}; return (std::size_t{1} << s.pick(bits)) + (size ? s.raw(size) : 0); }
		default: return (~std::size_t{0} / element + 1) * (1 + s.raw(element)) + (size ? s.raw(size) : 0);
	}
}
template<typename F>
static bool access(pbt::Src & s, std::size_t k, std::size_t size, const char * what, F f) { // f performs the access and checks its result
	bool thrown = false;
	try { f(); }
	catch(const std::out_of_range &) { thrown = true; }
	catch(const std::exception & e) { PBT_CHECK(false, "%s: at(%zu) of %zu throws something else: %s", what, k, size, e.what()); }
	PBT_CHECK(thrown == (k >= size), "%s: at(%zu) of %zu %s", what, k, size, thrown ? "throws" : "does not throw");
	if(thrown) s.nontrivial();
	return thrown;
}
template<typename C, typename E>
static void sequence(pbt::Src & s, C & c, E * base, std::size_t size, std::size_t reserved, const char * what) {
	const C & k = c;
	static_assert(std::is_same_v<decltype(c.at(0)), decltype(c[0])> && std::is_same_v<decltype(k.at(0)), decltype(k[0])>);
	std::vector<std::remove_const_t<E>> before(base, base + size);
	for(int i = 0; i < 4; ++i) {
		const auto x = index(s, size, reserved, sizeof(E));
		TRACE("%s: index %zu of %zu", what, x, size);
		const auto want = [&](auto & e) { PBT_CHECK(x < size && std::addressof(e) == base + x, "%s: at(%zu) of %zu yields another element", what, x, size); };
		access(s, x, size, what, [&] { want(c.at(x)); });
		access(s, x, size, what, [&] { want(k.at(x)); });
		if(x < size) { PBT_CHECK(std::addressof(c[x]) == base + x && std::addressof(k[x]) == base + x); }
		else if constexpr(std::is_assignable_v<decltype(c.at(0)), E>) access(s, x, size, what, [&] { c.at(x) = E{}; });
		PBT_CHECK(c.size() == size && (size == 0 || std::addressof(c[0]) == base));
		for(std::size_t z = 0; z < size; ++z) PBT_CHECK(base[z] == before[z], "%s: a checked access changed element %zu", what, z);
		if(size) PBT_CHECK(std::addressof(c.front()) == base && std::addressof(k.back()) == base + size - 1);
	}
}
template<std::size_t N>
static void bits(pbt::Src & s) {
	ptl::bitset<N> v;
	std::bitset<N> m;
	for(auto n = N ? s.raw(N + 1) : 0; n; --n) { const auto i = s.raw(N); v.set(i); m.set(i); }
	const auto & c = v;
	for(int i = 0; i < 4; ++i) {
		const auto x = index(s, N, (N + 7) / 8 * 8, 8);
		TRACE("bitset<%zu>: index %zu", N, x);
		const auto want = [&](bool b) { PBT_CHECK(x < N && b == m[x % (N ? N : 1)], "bit %zu of %zu", x, N); };
		access(s, x, N, "bitset", [&] { want(c.at(x)); });
		access(s, x, N, "bitset", [&] { want(static_cast<bool>(v.at(x))); });
		access(s, x, N, "bitset", [&] { want(c.test(x)); });
		if(x >= N) {
			access(s, x, N, "bitset", [&] { v.set(x); });
			access(s, x, N, "bitset", [&] { v.set(x, s.flip()); });
			access(s, x, N, "bitset", [&] { v.reset(x); });
			access(s, x, N, "bitset", [&] { v.flip(x); });
			access(s, x, N, "bitset", [&] { v.at(x) = true; });
		}
		PBT_CHECK(v.count() == m.count());
		for(std::size_t z = 0; z < N; ++z) PBT_CHECK(c[z] == m[z], "a checked access changed bit %zu of %zu", z, N);
	}
}
template<typename E, std::size_t N>
static void arrays(pbt::Src & s) {
	ptl::array<E, N> a;
	for(std::size_t i = 0; i < N; ++i) a[i] = static_cast<E>(i + 1);
	sequence(s, a, a.data(), N, N, "array");
	ptl::array_ref<E> r{a};
	ptl::array_ref<const E> cr{a};
	sequence(s, r, a.data(), N, N, "array_ref");
	sequence(s, cr, const_cast<const E *>(a.data()), N, N, "array_ref to constants");
	if constexpr(N > 2) { const auto k = s.raw(N); auto w = r.subrange(k, s.raw(N - k + 1)); sequence(s, w, a.data() + k, w.size(), N - k, "window"); }
}
template<typename E>
static void vectors(pbt::Src & s) {
	const auto n = s.len(60);
	ptl::vector<E> v;
	if(s.flip()) v.reserve(n + s.raw(20));
	for(std::size_t i = 0; i < n; ++i) v.push_back(static_cast<E>(i + 1));
	if(n && s.flip()) v.resize(s.raw(n + 1));
	if(s.chance(1, 8)) v.clear();
	sequence(s, v, v.data(), v.size(), v.capacity(), "vector");
	ptl::array_ref<E> r{v};
	sequence(s, r, v.data(), v.size(), v.capacity(), "array_ref");
}
static const char rule[] = "an index beyond the size";
#if IN_PART(0)
PBT_TEST(strings, 30000, rule) {
	const auto t = gen::text(s, 80);
	ptl::string c{t.begin(), t.end()};
	if(s.flip()) c.reserve(c.size() + s.raw(60));
	if(s.flip()) c.resize(s.raw(c.size() + 1));
	if(s.chance(1, 8)) c.clear();
	if(s.chance(1, 8)) { ptl::string d{std::move(c)}; c = d; }
	sequence(s, c, c.data(), c.size(), c.capacity() + 1, "string");
	ptl::string_ref r{c.data(), c.size()};
	sequence(s, r, static_cast<const char *>(c.data()), c.size(), c.capacity(), "string_ref");
	const auto k = s.raw(c.size() + 1);
	auto w = r.substr(k, s.raw(c.size() - k + 1));
	sequence(s, w, static_cast<const char *>(c.data()) + k, w.size(), c.size() - k + 1, "string_ref");
}
PBT_TEST(vectors, 12000, rule) { static void (* const f[])(pbt::Src &){vectors<int>, vectors<char>, vectors<double>, vectors<unsigned short>}; s.pick(f)(s); }
#endif
#if IN_PART(1)
PBT_TEST(arrays, 12000, rule) { static void (* const f[])(pbt::Src &){arrays<int, 0>, arrays<char, 1>, arrays<int, 3>, arrays<double, 8>, arrays<short, 21>}; s.pick(f)(s); }
PBT_TEST(bitsets, 15000, rule) { static void (* const f[])(pbt::Src &){bits<0>, bits<1>, bits<7>, bits<8>, bits<9>, bits<13>, bits<32>, bits<63>, bits<64>, bits<65>, bits<100>}; s.pick(f)(s); }
#endif
#if IN_PART(2)
template<typename X, typename F>
static void throws_unless(bool present, const char * what, F f) {
	bool thrown = false;
	try { f(); }
	catch(const X &) { thrown = true; }
	catch(const std::exception & e) { PBT_CHECK(false, "%s throws something else: %s", what, e.what()); }
	PBT_CHECK(thrown == !present, "%s %s although a value is %s", what, thrown ? "throws" : "does not throw", present ? "there" : "missing");
}
template<typename E>
static void optionals(pbt::Src & s) {
	using O = ptl::optional<E>;
	const auto make = [&] { if constexpr(std::is_same_v<E, std::string>) return gen::text(s, 40); else return static_cast<E>(s.raw(100)); };
	O o[2];
	std::optional<E> m[2];
	std::size_t n = 0;
	do {
		const auto i = s.raw(2);
		O & x = o[i]; auto & p = m[i];
		const O & c = x;
		const auto op = s.raw(9);
		TRACE("optional %d (%s): op %d", static_cast<int>(i), p ? "engaged" : "empty", static_cast<int>(op));
		switch(op) {
			case 0: x.reset(); p.reset(); break;
			case 1: { const E e = make(); x = e; p = e; break; }
			case 2: { const E e = make(); x.emplace(e); p = e; break; }
			case 3: x = std::nullopt; p = std::nullopt; break;
			case 4: x = o[1 - i]; p = m[1 - i]; break;
			case 5: x.swap(o[1 - i]); std::swap(m[0], m[1]); break;
			case 6: { O t{x}; const O u{std::move(t)}; throws_unless<std::bad_optional_access>(p.has_value(), "value() of a moved optional", [&] { const E & e = u.value(); PBT_CHECK(e == *p); }); break; }
			case 7: { O t{std::nullopt}; throws_unless<std::bad_optional_access>(false, "value() of a fresh optional", [&] { (void)t.value(); }); break; }
			default: { O t{make()}; x = std::move(t); p = x.value(); break; }
		}
		for(int z = 0; z < 2; ++z) {
			O & y = o[z]; const O & k = y; const bool there = m[z].has_value();
			const auto same = [&](const E & e) { PBT_CHECK(&e == &*k && e == *m[z], "value() yields another object"); };
			throws_unless<std::bad_optional_access>(there, "value() &", [&] { same(y.value()); });
			throws_unless<std::bad_optional_access>(there, "value() const &", [&] { same(k.value()); });
			throws_unless<std::bad_optional_access>(there, "value() &&", [&] { E && e = std::move(y).value(); same(e); });
			throws_unless<std::bad_optional_access>(there, "value() const &&", [&] { const E && e = std::move(k).value(); same(e); });
			PBT_CHECK(y.has_value() == there && static_cast<bool>(k) == there && (!there || *k == *m[z]), "a checked access changed the optional");
			ptl::optional_ref<E> r{y}; ptl::optional_ref<const E> cr{k};
			throws_unless<std::bad_optional_access>(there, "optional_ref", [&] { same(r.value()); });
			throws_unless<std::bad_optional_access>(there, "optional_ref to a constant", [&] { same(cr.value()); });
			if(!there) s.nontrivial();
		}
		(void)c;
	} while(s.more(n, 6, 20));
}
PBT_TEST(optionals, 8000, "an access to an empty optional") { static void (* const f[])(pbt::Src &){optionals<int>, optionals<char>, optionals<std::string>}; s.pick(f)(s); }
template<typename T, typename V, typename M>
static void alternative(V & v, const M & m) {
	const V & c = v;
	const bool there = std::holds_alternative<T>(m);
	const auto same = [&](const T & e) { PBT_CHECK(&e == c.template get_if<T>() && e == *std::get_if<T>(&m), "get yields another object"); };
	PBT_CHECK(v.template holds<T>() == there && (v.template get_if<T>() != nullptr) == there && static_cast<const T *>(v.template get_if<T>()) == c.template get_if<T>(), "holds or get_if");
	throws_unless<std::bad_variant_access>(there, "get &", [&] { same(v.template get<T>()); });
	throws_unless<std::bad_variant_access>(there, "get const &", [&] { same(c.template get<T>()); });
	throws_unless<std::bad_variant_access>(there, "get &&", [&] { T && e = std::move(v).template get<T>(); same(e); });
	throws_unless<std::bad_variant_access>(there, "get const &&", [&] { const T && e = std::move(c).template get<T>(); same(e); });
}
template<typename... T>
static void variants(pbt::Src & s) {
	using V = ptl::variant<T...>; using M = std::variant<T...>;
	const auto make = [&](auto * tag) { using E = std::remove_pointer_t<decltype(tag)>; if constexpr(std::is_same_v<E, std::string>) return gen::text(s, 40); else return static_cast<E>(s.raw(100)); };
	V v[2]; M m[2];
	std::size_t n = 0;
	do {
		const auto i = s.raw(2), k = s.raw(sizeof...(T));
		const auto op = s.raw(6);
		TRACE("variant %d: op %d, alternative %d", static_cast<int>(i), static_cast<int>(op), static_cast<int>(k));
		std::size_t z = 0;
		switch(op) {
			case 0: case 1: ((z++ == k ? (void)[&] { const T e = make(static_cast<T *>(nullptr)); v[i] = e; m[i] = e; }() : (void)0), ...); break;
			case 2: ((z++ == k ? (void)[&] { const T e = make(static_cast<T *>(nullptr)); v[i].template emplace<T>(e); m[i].template emplace<T>(e); }() : (void)0), ...); break;
			case 3: v[i] = v[1 - i]; m[i] = m[1 - i]; break;
			case 4: v[i].swap(v[1 - i]); std::swap(m[0], m[1]); break;
			default: { V t{v[1 - i]}; v[i] = std::move(t); m[i] = m[1 - i]; }
		}
		for(int x = 0; x < 2; ++x) {
			(alternative<T>(v[x], m[x]), ...);
			(alternative<T>(v[x], m[x]), ...);
			// the same through a reference to whatever is held
			v[x].visit([&](auto & e) {
				using E = std::remove_reference_t<decltype(e)>;
				const ptl::variant_ref<T...> r{e};
				const ptl::variant_ref<const T...> cr{std::as_const(e)};
				const auto ref = [&](auto * tag) {
					using U = std::remove_pointer_t<decltype(tag)>;
					constexpr bool there = std::is_same_v<E, U>;
					PBT_CHECK(r.template holds<U>() == there && cr.template holds<const U>() == there);
					throws_unless<std::bad_variant_access>(there, "variant_ref", [&] { const void * p = &r.template get<U>(); PBT_CHECK(p == &e); });
					throws_unless<std::bad_variant_access>(there, "variant_ref to constants", [&] { const void * p = &cr.template get<const U>(); PBT_CHECK(p == &e); });
				};
				(ref(static_cast<T *>(nullptr)), ...);
			});
		}
		s.nontrivial();
	} while(s.more(n, 5, 16));
}
PBT_TEST(variants, 12000, "every case") { static void (* const f[])(pbt::Src &){variants<int, std::string>, variants<char, short, long>, variants<std::string, double, int, char, long>}; s.pick(f)(s); }
#endif
