// PARTS 2 1
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
#include "odd.hpp"

template<typename T> T draw(pbt::Src & s);
template<> inline int draw<int>(pbt::Src & s) { static const int v[]{0, 1, -1, 2, 127, 128, 255, 256, -128, 65536, 2147483647, -2147483647 - 1}; return s.pick(v); }
template<> inline double draw<double>(pbt::Src & s) { return odd::partial(s); }
template<> inline odd::Odd draw<odd::Odd>(pbt::Src & s) { return {static_cast<int>(s.raw(6))}; }
template<> inline unsigned char draw<unsigned char>(pbt::Src & s) { return static_cast<unsigned char>(s.byte()); }
template<> inline ptl::string draw<ptl::string>(pbt::Src & s) { static const char * const v[]{"", "a", "b", "ab", "\xff", "a text long enough to be on the heap", "a text long enough to be on the heap!"}; return ptl::string{std::string_view{s.pick(v)}}; }
template<int I> struct Other { int v; // a few more alternatives with plain orders
	friend bool operator==(const Other & a, const Other & b) { return a.v == b.v; }
	friend bool operator!=(const Other & a, const Other & b) { return a.v != b.v; }
	friend bool operator< (const Other & a, const Other & b) { return a.v < b.v; }
	friend bool operator<=(const Other & a, const Other & b) { return a.v <= b.v; }
	friend bool operator> (const Other & a, const Other & b) { return a.v > b.v; }
	friend bool operator>=(const Other & a, const Other & b) { return a.v >= b.v; }
};
// what the variant should hold, remembered next to it
template<typename... T> struct Pair {
	using Var = ptl::variant<T...>;
	std::size_t k;
	std::tuple<T...> x;
	Var v;
};
template<typename P, std::size_t I, typename... T>
static void put(pbt::Src & s, P & p) {
	using X = std::tuple_element_t<I, std::tuple<T...>>;
	p.k = I;
	std::get<I>(p.x) = draw<X>(s);
	if(s.flip()) p.v = std::get<I>(p.x);
	else { typename P::Var w{std::in_place_index<I>, std::get<I>(p.x)}; p.v.swap(w); }
}
template<typename... T, std::size_t... I>
static void compare(pbt::Src & s, std::index_sequence<I...>) {
	using P = Pair<T...>;
	static void (* const puts[])(pbt::Src &, P &){put<P, I, T...>...};
	const auto ka = s.raw(sizeof...(T)), kb = s.chance(1, 2) ? s.raw(sizeof...(T)) : ka;
	P a{}, b{};
	if(s.flip()) puts[kb](s, a); // history: another alternative was there before
	puts[ka](s, a);
	puts[kb](s, b);
	TRACE("alternatives %zu and %zu", static_cast<std::size_t>(ka), static_cast<std::size_t>(kb));
	if(ka == kb) s.nontrivial();
	for(int op = 0; op < 6; ++op) {
		bool want = odd::by_rank(op, static_cast<long>(ka), static_cast<long>(kb)), self = want;
		static_cast<void>(((ka == I && (self = odd::apply(op, std::get<I>(a.x), std::get<I>(a.x)), true)) || ...));
		if(ka == kb) static_cast<void>(((ka == I && (want = odd::apply(op, std::get<I>(a.x), std::get<I>(b.x)), true)) || ...));
		const auto & x = a.v; const auto & y = b.v;
		PBT_CHECK(odd::apply(op, x, y) == want, "variants %s: alternatives %zu and %zu", odd::op_name(op), static_cast<std::size_t>(ka), static_cast<std::size_t>(kb));
		PBT_CHECK(odd::apply(op, x, x) == self, "variant %s itself: alternative %zu", odd::op_name(op), static_cast<std::size_t>(ka));
	}
	s.evaluations(12);
}
#if IN_PART(0)
#define CMP(...) compare<__VA_ARGS__>(s, std::index_sequence_for<__VA_ARGS__>{})
template<> inline Other<0> draw<Other<0>>(pbt::Src & s) { return {static_cast<int>(s.raw(4))}; }
template<> inline Other<1> draw<Other<1>>(pbt::Src & s) { return {static_cast<int>(s.raw(4))}; }
template<> inline Other<2> draw<Other<2>>(pbt::Src & s) { return {static_cast<int>(s.raw(4))}; }
template<> inline Other<3> draw<Other<3>>(pbt::Src & s) { return {static_cast<int>(s.raw(4))}; }
PBT_TEST(two, 100000, "both hold the same alternative") { CMP(int, double); }
PBT_TEST(one, 60000, "both hold the same alternative") { CMP(odd::Odd); }
PBT_TEST(mixed, 100000, "both hold the same alternative") { alloc::Lib lib; CMP(ptl::string, unsigned char, odd::Odd, double, int); }
PBT_TEST(many, 100000, "both hold the same alternative") { CMP(Other<0>, odd::Odd, Other<1>, int, double, Other<2>, unsigned char, Other<3>); }
#endif
#if IN_PART(1)
// many alternatives, far apart from each other
#ifdef PBT_THOROUGH
constexpr std::size_t FAR = 200;
#else
constexpr std::size_t FAR = 140;
#endif
template<int I> struct Far { int v;
	friend bool operator==(const Far & a, const Far & b) { return a.v == b.v; }
	friend bool operator!=(const Far & a, const Far & b) { return a.v != b.v; }
	friend bool operator< (const Far & a, const Far & b) { return a.v < b.v; }
	friend bool operator<=(const Far & a, const Far & b) { return a.v <= b.v; }
	friend bool operator> (const Far & a, const Far & b) { return a.v > b.v; }
	friend bool operator>=(const Far & a, const Far & b) { return a.v >= b.v; }
};
template<std::size_t... I, std::size_t... K>
static void far_apart(pbt::Src & s, std::index_sequence<I...>, std::index_sequence<K...>) {
	using V = ptl::variant<Far<I>...>;
	static void (* const put[])(V &, int){[](V & v, int x) { v = Far<K>{x}; }...};
	static const std::size_t number[]{K...};
	const auto i = s.raw(sizeof...(K)), j = s.chance(1, 3) ? i : s.raw(sizeof...(K));
	const int a = static_cast<int>(s.raw(3)), b = static_cast<int>(s.raw(3));
	V x, y;
	put[i](x, a);
	put[j](y, b);
	TRACE("alternative %zu with %d and %zu with %d", number[i], a, number[j], b);
	for(int op = 0; op < 6; ++op) {
		const bool want = i == j ? odd::apply(op, a, b) : odd::by_rank(op, static_cast<long>(number[i]), static_cast<long>(number[j]));
		PBT_CHECK(odd::apply(op, x, y) == want, "variants %s: alternatives %zu and %zu", odd::op_name(op), number[i], number[j]);
	}
	s.evaluations(6);
	if(number[i] > 127 || number[j] > 127) s.nontrivial();
}
PBT_TEST(far_apart, 60000, "an alternative beyond the 127th takes part") { far_apart(s, std::make_index_sequence<FAR>{}, std::index_sequence<0, 1, 2, 63, 64, 71, 126, 127, 128, 129, FAR - 2, FAR - 1>{}); }
#endif
