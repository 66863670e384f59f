// PARTS 5
#include <ptl/array.hpp>
#include <array>
#include <any>
#include <string>
#include "common.hpp"
#include "../engine/tracked.hpp"
#include "odd.hpp"
#include <cmath>
#define AT(...) std::addressof(__VA_ARGS__)

using life::Elem; using life::Pod3; using life::Big;
template<typename E> struct Of { static E make(int v) { return E(v); } static int get(const E & e) { return static_cast<int>(e); } };
template<int T, std::size_t A> struct Of<Elem<T, A>> { static auto make(int v) { return Elem<T, A>(v); } static int get(const Elem<T, A> & e) { return e.get(); } };
template<> struct Of<Pod3> {
	static auto make(int v) { return Pod3{static_cast<unsigned char>(v >> 16), static_cast<unsigned char>(v >> 8), static_cast<unsigned char>(v)}; }
	static int get(const Pod3 & e) { return e.c | e.b << 8 | e.a << 16; }
};
template<> struct Of<std::string> {
	static auto make(int v) { return v ? std::string(static_cast<std::size_t>(v % 40) + 1, static_cast<char>('a' + v / 40)) : std::string{}; }
	static int get(const std::string & e) { return e.empty() ? 0 : static_cast<int>(e.size()) - 1 + 40 * (e[0] - 'a'); }
};
template<> struct Of<ptl::array<int, 3>> {
	static auto make(int v) { return ptl::array<int, 3>{v / 16, v % 16, v}; }
	static int get(const ptl::array<int, 3> & e) { PBT_CHECK(e[2] == e[0] * 16 + e[1], "a nested array is torn: %d %d %d", e[0], e[1], e[2]); return e[2]; }
};
template<> struct Of<std::any> {
	static auto make(int v) { return v ? std::any{v} : std::any{}; }
	static int get(const std::any & e) { const auto p = std::any_cast<int>(&e); PBT_CHECK(p || !e.has_value(), "the element holds another type"); return p ? *p : 0; }
};
template<> struct Of<signed char> { static auto make(int v) { return static_cast<signed char>(v); } static int get(signed char e) { return e & 255; } }; // negative from 128 on
template<> struct Of<char> { static auto make(int v) { return static_cast<char>(v); } static int get(char e) { return e & 255; } };
template<> struct Of<short> { static auto make(int v) { return static_cast<short>(v % 2 ? -v * 100 : v * 100); } static int get(short e) { return e < 0 ? e / -100 : e / 100; } };
template<> struct Of<double> { // with both zeros and a value that is not equal to itself
	static double make(int v) { return v == 1 ? -0.0 : v == 2 ? std::nan("") : v ? v - 100.5 : 0.0; }
	static int get(double e) { return std::isnan(e) ? 2 : e == 0 ? std::signbit(e) : static_cast<int>(e + 100.5); }
};
template<> struct Of<odd::Keyed> { static auto make(int v) { return odd::Keyed{v}; } static int get(const odd::Keyed & e) { return e.v; } };
template<> struct Of<odd::List> { static auto make(int v) { return odd::List(v); } static int get(const odd::List & e) { return e.v; } };
template<> struct Of<odd::Ranked> { static auto make(int v) { return odd::Ranked{v}; } static int get(const odd::Ranked & e) { return e.v; } };
template<typename T> constexpr bool tracked = false;
template<int T, std::size_t A> constexpr bool tracked<Elem<T, A>> = true;
template<typename T, std::size_t N> using Model = std::array<int, N>;

template<typename T, std::size_t N>
static void same(const ptl::array<T, N> & a, const Model<T, N> & m, const char * where) {
	PBT_CHECK(a.size() == N && a.max_size() == N && a.empty() == (N == 0));
	std::size_t n = 0;
	for(const auto & e : a) {
		PBT_CHECK(n < N && Of<T>::get(e) == m[n], "%s: element %zu of %zu is %d, expected %d", where, n, N, Of<T>::get(e), n < N ? m[n] : 0);
		++n;
	}
	PBT_CHECK(n == N, "%s: %zu elements enumerated of %zu", where, n, N);
	if constexpr(N != 0) {
		PBT_CHECK(a.data() == AT(a[0]) && AT(a.front()) == AT(a[0]) && AT(a.back()) == AT(a[N - 1]) && AT(*a.begin()) == a.data());
		const void * p = &a;
		PBT_CHECK(p == a.data(), "the elements do not start where the object does");
	}
}
// creates an array in dirty memory, checks it and destroys it
template<typename T, std::size_t N, typename F>
static void fresh(const Model<T, N> & m, const char * what, F construct) {
	using A = ptl::array<T, N>;
	alignas(A) unsigned char raw[sizeof(A)];
	std::memset(raw, 0xA5, sizeof raw);
	const auto a = construct(static_cast<void *>(raw));
	struct Guard { A * a; ~Guard() { a->~A(); } } guard{a};
	same(*a, m, what);
}
// every list of K values, 0 <= K <= N, in four mixes of value categories
template<typename T, std::size_t N, std::size_t... I>
static void init(pbt::Src & s, std::index_sequence<I...>) {
	using A = ptl::array<T, N>;
	using O = Of<T>;
	constexpr auto K = sizeof...(I);
	Model<T, N> m{};
	std::array<int, K ? K : 1> v{};
	for(std::size_t i = 0; i < K; ++i) v[i] = m[i] = static_cast<int>(s.raw(250));
	const auto mode = s.raw(5);
	TRACE("initialise %zu elements from %zu values in mode %d", N, K, static_cast<int>(mode));
	std::array<T, K ? K : 1> src{};
	for(std::size_t i = 0; i < K; ++i) src[i] = O::make(v[i]);
	const auto & csrc = src;
	const auto copies = life::copies, moves = life::moves;
	switch(mode) {
		case 0: fresh<T, N>(m, "from named objects", [&](void * p) { auto a = ::new(p) A{src[I]...}; if(tracked<T>) PBT_CHECK(life::copies - copies == K && life::moves == moves, "%zu copies and %zu moves for %zu named objects", life::copies - copies, life::moves - moves, K); return a; }); break;
		case 1: fresh<T, N>(m, "from constants", [&](void * p) { auto a = ::new(p) A{csrc[I]...}; if(tracked<T>) PBT_CHECK(life::copies - copies == K && life::moves == moves); return a; }); break;
		case 2: fresh<T, N>(m, "from temporaries", [&](void * p) { return ::new(p) A{O::make(v[I])...}; }); if(tracked<T>) PBT_CHECK(life::copies == copies, "temporaries were copied"); break;
		case 3:
			fresh<T, N>(m, "from moved objects", [&](void * p) { auto a = ::new(p) A{std::move(src[I])...}; if(tracked<T>) PBT_CHECK(life::copies == copies && life::moves - moves == K, "%zu copies and %zu moves for %zu moved objects", life::copies - copies, life::moves - moves, K); return a; });
			return; // src is moved from
		default: { // every other one a constant
			const auto pick = [&](auto i) -> decltype(auto) { constexpr auto n = decltype(i)::value; if constexpr(n % 2) return (csrc[n]); else return O::make(v[n]); };
			fresh<T, N>(m, "from a mix", [&](void * p) { return ::new(p) A{pick(std::integral_constant<std::size_t, I>{})...}; });
		}
	}
	for(std::size_t i = 0; i < K; ++i) PBT_CHECK(O::get(src[i]) == v[i], "initialisation changed its source");
	if constexpr(K != 0 && K == N) {
		const ptl::array<T, N> d{src[I]...};
		if constexpr(!std::is_same_v<T, std::any> && !std::is_same_v<T, ptl::array<int, 3>>) { const ptl::array c{src[I]...}; static_assert(std::is_same_v<decltype(c), const A>); if constexpr(!std::is_same_v<T, double>) PBT_CHECK(c == d); same(c, m, "deduced"); }
		same(d, m, "full list");
	}
}
template<typename T, std::size_t N, std::size_t... K>
static void any_init(pbt::Src & s, std::index_sequence<K...>) {
	static void (* const f[])(pbt::Src &){[](pbt::Src & q) { init<T, N>(q, std::make_index_sequence<K>{}); }...};
	s.pick(f)(s);
	Model<T, N> zero{};
	fresh<T, N>(zero, "default", [](void * p) { return ::new(p) ptl::array<T, N>; });
	fresh<T, N>(zero, "value", [](void * p) { return ::new(p) ptl::array<T, N>(); });
	fresh<T, N>(zero, "list", [](void * p) { return ::new(p) ptl::array<T, N>{}; });
}
template<typename T, std::size_t N, std::size_t... I>
static void accessors(pbt::Src & s, ptl::array<T, N> & a, Model<T, N> & m, std::index_sequence<I...>) {
	using A = ptl::array<T, N>;
	using std::get;
	const auto & c = a;
	static_assert(std::tuple_size_v<A> == N && (std::is_same_v<std::tuple_element_t<I, A>, T> && ...));
	static_assert((std::is_same_v<decltype(get<I>(a)), T &> && ...) && (std::is_same_v<decltype(get<I>(c)), const T &> && ...));
	static_assert((std::is_same_v<decltype(get<I>(std::move(a))), T &&> && ...) && (std::is_same_v<decltype(get<I>(std::move(c))), const T &&> && ...));
	PBT_CHECK(((AT(get<I>(a)) == a.data() + I && AT(get<I>(c)) == a.data() + I && AT(a[I]) == a.data() + I && AT(c[I]) == a.data() + I && AT(a.at(I)) == a.data() + I && AT(c.at(I)) == a.data() + I) && ...), "an accessor designates another element");
	{ auto && r0 = get<0>(std::move(a)); PBT_CHECK(AT(r0) == a.data()); auto && r1 = get<N - 1>(std::move(c)); PBT_CHECK(AT(r1) == a.data() + N - 1); }
	const auto k = s.raw(N);
	if(s.flip()) { // move one element out through the tuple interface: the others keep their values
		const int old = m[k];
		int seen = -1;
		(void)((I == k ? (seen = Of<T>::get(T(get<I>(std::move(c)))), true) : false) || ...);
		PBT_CHECK(seen == old);
		same(a, m, "reading through a constant rvalue");
		(void)((I == k ? (seen = Of<T>::get(T(get<I>(std::move(a)))), true) : false) || ...);
		PBT_CHECK(seen == old, "moving an element out yields %d instead of %d", seen, old);
		if constexpr(tracked<T>) { PBT_CHECK(a[k].get() == -1, "get of an rvalue array does not hand out an rvalue"); }
		a[k] = Of<T>::make(m[k]);
		same(a, m, "moving one element out");
	}
	m[k] = static_cast<int>(s.raw(250));
	(void)((I == k ? (get<I>(a) = Of<T>::make(m[k]), true) : false) || ...);
#define SAME(...) const T * const r[]{__VA_ARGS__}; for(std::size_t i = 0; i < N; ++i) PBT_CHECK(r[i] == a.data() + i, "binding %zu designates another element", i)
	if constexpr(N == 1) { auto & [x] = a; SAME(AT(x)); }
	else if constexpr(N == 2) { auto & [x, y] = a; SAME(AT(x), AT(y)); }
	else if constexpr(N == 3) { const auto & [x, y, z] = a; SAME(AT(x), AT(y), AT(z)); auto [p, q, t] = a; PBT_CHECK(Of<T>::get(p) == m[0] && Of<T>::get(q) == m[1] && Of<T>::get(t) == m[2] && AT(p) != AT(x)); auto && [f, g, h] = std::move(a); static_assert(std::is_same_v<decltype(f), T>); PBT_CHECK(AT(f) == AT(x) && AT(g) == AT(y) && AT(h) == AT(z)); }
	else if constexpr(N == 5) { auto & [v, w, x, y, z] = a; SAME(AT(v), AT(w), AT(x), AT(y), AT(z)); }
}
template<typename T, std::size_t N>
static void history(pbt::Src & s) {
	using A = ptl::array<T, N>;
	using O = Of<T>;
	if constexpr(N <= 20) any_init<T, N>(s, std::make_index_sequence<N + 1>{});
	else any_init<T, N>(s, std::index_sequence<0, 1, 2, 7>{});
	A a[2];
	Model<T, N> m[2]{};
	const int domain = s.flip() ? 250 : 3; // a small domain to get equal prefixes
	std::size_t n = 0;
	do {
		const auto i = s.raw(2);
		auto & x = a[i]; auto & y = a[1 - i];
		auto & p = m[i]; auto & q = m[1 - i];
		const auto k = N ? s.raw(N) : 0;
		const int v = static_cast<int>(s.raw(static_cast<std::uint64_t>(domain)));
		const auto op = s.raw(16);
		TRACE("array<%zu> %d: op %d at %d with %d", N, static_cast<int>(i), static_cast<int>(op), static_cast<int>(k), v);
		switch(op) {
			case 0: { const T e = O::make(v); x.fill(e); p.fill(v); PBT_CHECK(O::get(e) == v); break; }
			case 1: if constexpr(N != 0) { x.fill(x[k]); p.fill(+p[k]); } break;
			case 2: if constexpr(N != 0) { x[k] = O::make(v); p[k] = v; } break;
			case 3: if constexpr(N != 0) { x.at(k) = O::make(v); p[k] = v; } break;
			case 4: if constexpr(N != 0) { x.front() = O::make(v); p[0] = v; x.back() = O::make(v); p[N - 1] = v; } break;
			case 5: if constexpr(N != 0) { x.data()[k] = O::make(v); p[k] = v; } break;
			case 6: { A c{x}; same(c, p, "a copy"); if constexpr(N != 0) { c[k] = O::make(v); same(x, p, "the original of a modified copy"); } break; }
			case 7: x = y; p = q; break;
			case 8: { const auto & self = x; x = self; break; }
			case 9: { A c{std::move(x)}; same(c, p, "a moved array"); x = std::move(c); break; }
			case 10: { A c{y}; const auto old = life::copies; x = std::move(c); p = q; if(tracked<T>) PBT_CHECK(life::copies == old, "move assignment copies"); break; }
			case 11: x.swap(y); std::swap(p, q); break;
			case 12: swap(x, y); std::swap(p, q); break;
			case 13: std::swap(x, y); std::swap(p, q); break;
			case 14: x.swap(x); swap(x, x); break;
			default: if constexpr(N != 0) { std::size_t j = 0; for(auto & e : x) { p[j] = (v + static_cast<int>(j)) % domain; e = O::make(p[j]); ++j; } } break;
		}
		same(x, p, "after an operation");
		same(y, q, "the other array");
		if constexpr(N > 20) for(std::size_t j = 0; j < N; ++j) PBT_CHECK(AT(x[j]) == x.data() + j && AT(x.at(j)) == x.data() + j, "element %zu", j);
		else if constexpr(N != 0) { accessors(s, x, p, std::make_index_sequence<N>{}); same(x, p, "element access"); same(y, q, "the other array"); }
		const auto big = N + (s.flip() ? s.raw(4) : s.raw(0) % (~std::size_t{0} - N));
		try { (void)x.at(big); PBT_CHECK(false, "at(%zu) of %zu does not throw", big, N); } catch(const std::out_of_range &) { }
		if constexpr(!std::is_same_v<T, std::any>) {
			if constexpr(std::is_same_v<T, int> || std::is_same_v<T, unsigned char>) PBT_CHECK((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q), "comparison");
			if constexpr(N <= 1000) { // the elements' own operators decide
				std::array<T, N> f{}, g{};
				for(std::size_t j = 0; j < N; ++j) { f[j] = O::make(p[j]); g[j] = O::make(q[j]); }
				bool ordered = true; // with values that compare to nothing, only equality is settled
				if constexpr(std::is_same_v<T, double>) for(std::size_t j = 0; j < N; ++j) ordered = ordered && p[j] != 2 && q[j] != 2;
				PBT_CHECK((x == y) == (f == g) && (x != y) == (f != g) && (x == x) == (f == f) && (x != x) == (f != f), "equality");
				if(ordered) PBT_CHECK((x < y) == (f < g) && (x > y) == (f > g) && (x <= y) == (f <= g) && (x >= y) == (f >= g) && x == x && !(x != x) && !(x < x) && !(x > x) && x <= x && x >= x, "order");
			}
		}
		if(N > 1) s.nontrivial();
	} while(s.more(n, 5, 20));
}
template<typename T, std::size_t... N>
static void any_of(pbt::Src & s, std::index_sequence<N...>) {
	static void (* const f[])(pbt::Src &){history<T, N>...};
	s.pick(f)(s);
}
using lengths = std::index_sequence<0, 1, 2, 3, 5, 8>;
static const char rule[] = "an operation on an array of several elements";
#if IN_PART(0)
PBT_TEST(ints, 40000, rule) { if(s.flip()) any_of<int>(s, std::index_sequence<0, 1, 2, 3, 4, 5, 8, 13>{}); else any_of<unsigned char>(s, std::index_sequence<0, 1, 3, 17>{}); }
#endif
#if IN_PART(1)
PBT_TEST(large, 300, rule) { if(s.flip()) any_of<int>(s, std::index_sequence<255, 256, 257, 1000, 65536, 65537>{}); else any_of<unsigned char>(s, std::index_sequence<300, 70001>{}); }
PBT_TEST(tracked_elements, 20000, rule) { if(s.flip()) any_of<Elem<0>>(s, lengths{}); else any_of<Elem<1, 32>>(s, std::index_sequence<0, 2, 5>{}); }
#endif
#if IN_PART(2)
PBT_TEST(strings, 10000, rule) { any_of<std::string>(s, lengths{}); }
#endif
#if IN_PART(3)
PBT_TEST(odd_sizes, 20000, rule) { if(s.flip()) any_of<Pod3>(s, lengths{}); else any_of<double>(s, lengths{}); }
PBT_TEST(signed_bytes, 20000, rule) { switch(s.raw(3)) { case 0: return any_of<signed char>(s, std::index_sequence<1, 2, 7, 9, 16, 33>{}); case 1: return any_of<char>(s, std::index_sequence<1, 8, 9, 17>{}); default: return any_of<short>(s, std::index_sequence<2, 5, 9>{}); } }
#endif
#if IN_PART(4)
PBT_TEST(distinguishable, 20000, rule) { switch(s.raw(3)) { case 0: return any_of<odd::Keyed>(s, std::index_sequence<1, 2, 3, 5>{}); case 1: return any_of<odd::List>(s, std::index_sequence<1, 3>{}); default: return any_of<odd::Ranked>(s, std::index_sequence<1, 2, 4>{}); } }
PBT_TEST(nested, 10000, rule) { if(s.flip()) any_of<ptl::array<int, 3>>(s, std::index_sequence<0, 1, 2, 3>{}); else any_of<std::any>(s, std::index_sequence<1, 2, 3>{}); }
#endif
