// PARTS 5
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <ptl/tuple.hpp>
#include <any>
#include <array>
#include <string>
#include <tuple>
#include "common.hpp"
#include "../engine/tracked.hpp"
#include "odd.hpp"

using life::Elem; using life::Pod3;
static const pbt::RegHook packed{[] { life::aligned = false; }, nullptr};
struct Empty { friend bool operator==(Empty, Empty) { return true; } friend bool operator<(Empty, Empty) { return false; } };
using Inner = ptl::tuple<int>; // longer ones are not of standard layout
template<typename T> struct Of { static T make(int v) { return static_cast<T>(v - 2); } };
template<int N> struct Of<Elem<N>> { static Elem<N> make(int v) { return Elem<N>(v); } };
template<> struct Of<std::string> { static std::string make(int v) { return v < 5 ? std::string(static_cast<std::size_t>(v), 'x') : "a long enough text to be on the heap " + std::to_string(v); } };
template<> struct Of<Pod3> { static Pod3 make(int v) { return Pod3{static_cast<unsigned char>(v & 1), static_cast<unsigned char>(v >> 1), static_cast<unsigned char>(v * 7)}; } };
template<> struct Of<double> { static double make(int v) { return v == 1 ? -0.0 : v - 2; } }; // 2: the other zero
template<> struct Of<odd::Keyed> { static odd::Keyed make(int v) { return {v}; } };
template<> struct Of<odd::Ranked> { static odd::Ranked make(int v) { return {v}; } };
template<> struct Of<odd::List> { static odd::List make(int v) { return odd::List(v); } };
template<> struct Of<Empty> { static Empty make(int) { return {}; } };
template<> struct Of<Inner> { static Inner make(int v) { return Inner{v}; } };
template<> struct Of<int *> { static int * make(int v) { static int pool[1000]; return pool + v; } };
template<typename T> static auto make(int v) { return Of<std::remove_const_t<T>>::make(v); }
template<typename T> constexpr bool tracked = false;
template<int N> constexpr bool tracked<Elem<N>> = true;

template<typename... T>
struct Check {
	using U = ptl::tuple<T...>;
	using S = std::tuple<T...>;
	using Codes = std::array<int, sizeof...(T) + 1>;
	using Indices = std::index_sequence_for<T...>;
	static constexpr auto N = sizeof...(T);
	static constexpr bool constant = (std::is_const_v<T> || ...);
	static constexpr std::size_t elems = (0 + ... + (tracked<T> ? 1 : 0));

	static Codes draw(pbt::Src & s) {
		Codes c{};
		const auto domain = s.flip() ? 8 : 2;
		for(std::size_t i = 0; i < N; ++i) c[i] = static_cast<int>(s.raw(static_cast<std::uint64_t>(domain)));
		return c;
	}
	template<std::size_t... I> static S model(const Codes & c, std::index_sequence<I...>) { return S(make<T>(c[I])...); }
	static S model(const Codes & c) { return model(c, Indices{}); }
	template<std::size_t... I> static U build(const Codes & c, std::index_sequence<I...>) { if constexpr(N == 0) return U{}; else return U{make<T>(c[I])...}; }
	static U build(const Codes & c) { return build(c, Indices{}); }
	template<std::size_t... I> static void same(const U & u, const Codes & c, const char * where, std::index_sequence<I...>) {
		[[maybe_unused]] const auto one = [&](auto i, auto e) {
			PBT_CHECK(odd::exact(u.template get<decltype(i)::value>(), e), "%s: element %zu of %zu does not have value number %d", where, decltype(i)::value, N, c[decltype(i)::value]);
		};
		(one(std::integral_constant<std::size_t, I>{}, make<T>(c[I])), ...);
	}
	static void same(const U & u, const Codes & c, const char * where) { same(u, c, where, Indices{}); }

	template<std::size_t... I> static void constructors(const Codes & c, std::index_sequence<I...>) {
		if constexpr(N != 0) {
			S src = model(c);
			const auto & csrc = src;
			{
				const auto copies = life::copies, moves = life::moves;
				U u{std::get<I>(src)...};
				PBT_CHECK(life::copies - copies == elems && life::moves == moves, "%zu copies and %zu moves of %zu named objects", life::copies - copies, life::moves - moves, elems);
				same(u, c, "from named objects");
				U w{std::get<I>(csrc)...};
				same(w, c, "from constants");
				U x(std::get<I>(src)...);
				same(x, c, "from named objects");
			}
			{
				U u{make<T>(c[I])...};
				same(u, c, "from temporaries");
			}
			{
				const auto pick = [&](auto i) -> decltype(auto) { constexpr auto n = decltype(i)::value; if constexpr(n % 2) return std::get<n>(csrc); else return make<std::tuple_element_t<n, S>>(c[n]); };
				U u{pick(std::integral_constant<std::size_t, I>{})...};
				same(u, c, "from a mix");
			}
			PBT_CHECK(src == csrc);
			{ const S again = model(c); PBT_CHECK(again == src, "construction changed its source"); }
			if constexpr(!constant) {
				const auto copies = life::copies, moves = life::moves;
				U u{std::move(std::get<I>(src))...};
				PBT_CHECK(life::copies == copies && life::moves - moves == elems, "%zu copies and %zu moves of %zu moved objects", life::copies - copies, life::moves - moves, elems);
				same(u, c, "from moved objects");
			}
			if constexpr(N > 1 && !constant) {
				const ptl::tuple d{make<T>(c[I])...};
				static_assert(std::is_same_v<decltype(d), const U>);
				same(d, c, "deduced");
			}
		}
	}
	template<std::size_t... I> static void accessors(pbt::Src & s, U & u, Codes & c, std::index_sequence<I...>) {
		const auto & k = u;
		static_assert(std::tuple_size_v<U> == N && (std::is_same_v<std::tuple_element_t<I, U>, T> && ...));
		static_assert((std::is_same_v<decltype(u.template get<I>()), T &> && ...) && (std::is_same_v<decltype(k.template get<I>()), const T &> && ...));
		static_assert((std::is_same_v<decltype(std::move(u).template get<I>()), T &&> && ...) && (std::is_same_v<decltype(std::move(k).template get<I>()), const T &&> && ...));
		const auto at = [](auto & x) { return reinterpret_cast<const volatile char *>(std::addressof(x)); };
		const auto inside = [&](const volatile char * p, std::size_t size) { return p >= at(u) && p + size <= at(u) + sizeof u; };
		PBT_CHECK((inside(at(u.template get<I>()), sizeof(T)) && ...), "an element lies outside the tuple");
		PBT_CHECK(((at(u.template get<I>()) == at(k.template get<I>())) && ...), "constness changes the designated element");
		{ [[maybe_unused]] const auto cat = [&](auto && a, auto & b) { return at(a) == at(b); }; PBT_CHECK((cat(std::move(u).template get<I>(), u.template get<I>()) && ...) && (cat(std::move(k).template get<I>(), u.template get<I>()) && ...), "the value category changes the designated element"); }
		if constexpr(!constant) {
			const auto which = s.raw(N);
			const auto one = [&](auto i) {
				using E = std::tuple_element_t<decltype(i)::value, U>;
				constexpr auto n = decltype(i)::value;
				switch(s.raw(3)) {
					case 0: { // take the value out and put another one in
						const E e = std::move(u).template get<n>();
						PBT_CHECK(odd::exact(e, make<E>(c[n])), "moving element %zu out yields another value", n);
						if constexpr(tracked<E>) PBT_CHECK(u.template get<n>().get() == -1, "get of an rvalue tuple does not hand out an rvalue");
						u.template get<n>() = make<E>(c[n]);
						break;
					}
					case 1: { const E e = std::move(k).template get<n>(); PBT_CHECK(e == make<E>(c[n])); break; }
					default: c[n] = static_cast<int>(s.raw(8)); u.template get<n>() = make<E>(c[n]);
				}
				return true;
			};
			(void)((I == which && one(std::integral_constant<std::size_t, I>{})) || ...);
			same(u, c, "after writing one element");
		}
#define SAME(...) do { const volatile char * const r[]{__VA_ARGS__}, * const e[]{at(u.template get<I>())...}; for(std::size_t i = 0; i < N; ++i) PBT_CHECK(r[i] == e[i], "binding %zu designates another element", i); } while(0)
		if constexpr(N == 1) { auto & [a] = u; SAME(at(a)); }
		else if constexpr(N == 2) { auto & [a, b] = u; SAME(at(a), at(b)); const auto [p, q] = u; PBT_CHECK(p == a && q == b && at(p) != at(a)); }
		else if constexpr(N == 3) { const auto & [a, b, d] = u; SAME(at(a), at(b), at(d)); auto && [p, q, r_] = std::move(u); SAME(at(p), at(q), at(r_)); }
		else if constexpr(N == 4) { auto & [a, b, d, e_] = u; SAME(at(a), at(b), at(d), at(e_)); }
		else if constexpr(N == 5) { auto & [a, b, d, e_, f] = u; SAME(at(a), at(b), at(d), at(e_), at(f)); }
		else if constexpr(N == 8) { auto & [a, b, d, e_, f, g, h, j] = u; SAME(at(a), at(b), at(d), at(e_), at(f), at(g), at(h), at(j)); }
	}
	static void run(pbt::Src & s) {
		Codes c[2]{draw(s), draw(s)};
		TRACE("tuple of %zu", N);
		constructors(c[0], Indices{});
		U u[2]{build(c[0]), build(c[1])};
		std::size_t n = 0;
		do {
			const auto i = s.raw(2);
			U & x = u[i], & y = u[1 - i];
			auto & p = c[i], & q = c[1 - i];
			const auto op = s.raw(10);
			TRACE("tuple<%zu> op %d", N, static_cast<int>(op));
			{ // copies and moves of any source category
				U a(x); same(a, p, "a copy");
				const U & cx = x; const U b{cx}; same(b, p, "a copy of a constant");
				U d{std::move(a)}; same(d, p, "a moved tuple");
				U e{std::move(b)}; same(e, p, "a copy of a constant rvalue");
			}
			if constexpr(!constant) switch(op) {
				case 0: { auto & back = x = y; p = q; PBT_CHECK(&back == &x); break; }
				case 1: { const U & cy = y; x = cy; p = q; break; }
				case 2: { U t{y}; const auto old = life::copies; x = std::move(t); p = q; PBT_CHECK(life::copies == old, "move assignment copies"); break; }
				case 3: x.swap(y); std::swap(p, q); break;
				case 4: swap(x, y); std::swap(p, q); break;
				case 5: { const U & self = x; x = self; break; }
				case 6: x.swap(x); swap(x, x); break;
				case 7: { p = draw(s); x = build(p); break; }
				case 8: { U a(x); x = build(draw(s)); same(a, p, "a copy whose original was reassigned"); x = a; break; }
				default: std::swap(x, y); std::swap(p, q); break;
			}
			same(x, p, "after an operation");
			same(y, q, "the other tuple");
			if constexpr(N != 0) { accessors(s, x, p, Indices{}); same(x, p, "element access"); same(y, q, "the other tuple"); }
			const S f = model(p), g = model(q);
			PBT_CHECK((x == y) == (f == g), "== differs from the standard tuple");
			PBT_CHECK((x != y) == (f != g), "!= differs from the standard tuple");
			PBT_CHECK((x < y) == (f < g), "< differs from the standard tuple");
			PBT_CHECK((x <= y) == (f <= g), "<= differs from the standard tuple");
			PBT_CHECK((x > y) == (f > g), "> differs from the standard tuple");
			PBT_CHECK((x >= y) == (f >= g), ">= differs from the standard tuple");
			PBT_CHECK(x == x && !(x < x) && x <= x && x >= x && !(x > x) && !(x != x));
			if(N > 1) s.nontrivial();
		} while(s.more(n, 4, 12));
	}
};
template<typename... C>
static void any_of(pbt::Src & s) {
	static void (* const f[])(pbt::Src &){C::run...};
	s.pick(f)(s);
}
using E0 = Elem<0>; using E1 = Elem<1>;
using Str = std::string;
static const char rule[] = "an operation on tuples of several elements";
#if IN_PART(0)
PBT_TEST(few, 40000, rule) { any_of<Check<>, Check<int>, Check<Str>, Check<E0>, Check<char, int>, Check<const int>, Check<double, const char>, Check<Empty, int>, Check<Empty, Empty>, Check<Inner>, Check<odd::Ranked>, Check<odd::Keyed>>(s); }
// values which are not equal to themselves
PBT_TEST(unordered, 20000, "a value that is not equal to itself") {
	const double a = odd::partial(s), b = s.flip() ? a : odd::partial(s), c = odd::partial(s);
	const int i = static_cast<int>(s.raw(2)), j = static_cast<int>(s.raw(2));
	const auto check = [&](const auto & x, const auto & y, bool eq, bool self) {
		PBT_CHECK((x == y) == eq && (y == x) == eq && (x != y) == !eq, "equality");
		PBT_CHECK((x == x) == self && (x != x) == !self, "equality with itself");
		const auto z(x);
		PBT_CHECK((x == z) == self && (x != z) == !self, "equality with a copy");
	};
	check(ptl::tuple<int, double>{i, a}, ptl::tuple<int, double>{j, b}, i == j && a == b, a == a);
	check(ptl::tuple<double, int>{a, i}, ptl::tuple<double, int>{b, j}, i == j && a == b, a == a);
	check(ptl::tuple<double>{a}, ptl::tuple<double>{b}, a == b, a == a);
	check(ptl::tuple<char, double, Str, double>{'x', c, "text", a}, ptl::tuple<char, double, Str, double>{'x', c, "text", b}, c == c && a == b, c == c && a == a);
	if(a != a) s.nontrivial();
}
PBT_TEST(conversions, 10000, "a converting construction") {
	const auto t = gen::text(s, 60);
	const int i = static_cast<int>(s.raw(1000)) - 500;
	const Str c = t.c_str();
	const ptl::tuple<Str, long, double> u{c.c_str(), i, static_cast<float>(i)};
	PBT_CHECK(u.get<0>() == c && u.get<1>() == i && u.get<2>() == i);
	ptl::tuple<std::any> a{i}, b{a}, d = b, e{std::move(d)};
	const auto & ca = a; ptl::tuple<std::any> f{ca};
	a = b; b = std::move(f);
	for(const auto x : {&a, &b, &e}) PBT_CHECK(std::any_cast<int>(&x->get<0>()) && std::any_cast<int>(x->get<0>()) == i, "a tuple of any changed its content");
	ptl::tuple<std::any, Str> g{t, t}, h{g};
	PBT_CHECK(std::any_cast<Str>(h.get<0>()) == t && h.get<1>() == t);
	ptl::tuple<std::any, int> k{h, i};
	PBT_CHECK(std::any_cast<Str>(std::any_cast<ptl::tuple<std::any, Str>>(k.get<0>()).get<0>()) == t && k.get<1>() == i);
	s.nontrivial();
}
#endif
#if IN_PART(1)
PBT_TEST(pairs, 30000, rule) { any_of<Check<Str, Str>, Check<E0, char>, Check<char, E0>, Check<E0, E1>, Check<Pod3, double>, Check<Inner, Str>, Check<int, int *>, Check<odd::Ranked, int>, Check<odd::List, odd::List>, Check<odd::Ranked, odd::Ranked>, Check<odd::Keyed, odd::Keyed>, Check<double, char>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(triples, 30000, rule) { any_of<Check<int, Str, double>, Check<E0, E1, E0>, Check<char, char, char>, Check<Str, Inner, Pod3>, Check<char, const long, short>, Check<char, odd::Ranked, Str>, Check<odd::Keyed, char, odd::Keyed>, Check<double, double, double>>(s); }
#endif
#if IN_PART(3)
PBT_TEST(more, 20000, rule) { any_of<Check<int, char, Str, Pod3>, Check<E0, char, E1, short>, Check<char, short, int, long, Str>, Check<Inner, E0, Empty, double, int *>>(s); }
#endif
#if IN_PART(4)
PBT_TEST(many, 10000, rule) { any_of<Check<char, int, Str, double, E0, Pod3>, Check<int, int, int, int, int, int, int>, Check<Str, char, E0, short, E1, long, Inner, unsigned char>>(s); }
#endif
