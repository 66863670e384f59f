#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include "odd.hpp"

template<typename T> T draw(pbt::Src & s);
template<> int draw<int>(pbt::Src & s) { static const int v[]{0, 1, -1, 2, 127, 128, 255, 256, -128, 65536, 2147483647, -2147483647 - 1}; return s.pick(v); }
template<> double draw<double>(pbt::Src & s) { return odd::partial(s); }
template<> odd::Odd draw<odd::Odd>(pbt::Src & s) { return {static_cast<int>(s.raw(6))}; }
template<> unsigned char draw<unsigned char>(pbt::Src & s) { return static_cast<unsigned char>(s.byte()); }
template<> ptl::string draw<ptl::string>(pbt::Src & s) { static const char * const v[]{"", "a", "b", "ab", "\xff", "a text long enough to be on the heap", "a text long enough to be on the heap!"}; return ptl::string{std::string_view{s.pick(v)}}; }
template<> ptl::optional<int> draw<ptl::optional<int>>(pbt::Src & s) { if(s.flip()) return draw<int>(s); return std::nullopt; }

template<typename T>
static ptl::optional<T> make(pbt::Src & s, bool & has, T & x) { // several ways to reach a state
	x = draw<T>(s);
	ptl::optional<T> r;
	const auto how = s.raw(5);
	TRACE("operand %d", static_cast<int>(how));
	has = how >= 2;
	if(how == 1) { r = x; r.reset(); }                  // a stale value behind the flag
	else if(how == 2) r = x;
	else if(how == 3) r.emplace(x);
	else if(how == 4) { ptl::optional<T> t{x}; r.swap(t); }
	return r;
}
// bytes of flags other than what the library itself wrote must not matter: covered by layout property
template<typename T>
static void compare(pbt::Src & s) {
	bool ha, hb;
	T a{}, b{};
	const auto x = make<T>(s, ha, a), y = make<T>(s, hb, b);
	if(ha && hb) s.nontrivial();
	for(int op = 0; op < 6; ++op) {
		const bool want = ha && hb ? odd::apply(op, a, b) : odd::by_rank(op, ha, hb);
		PBT_CHECK(odd::apply(op, x, y) == want, "optional %s optional, %s and %s", odd::op_name(op), ha ? "engaged" : "empty", hb ? "engaged" : "empty");
		const bool self = ha ? odd::apply(op, a, a) : odd::by_rank(op, 0, 0);
		PBT_CHECK(odd::apply(op, x, x) == self, "optional %s itself", odd::op_name(op));
		PBT_CHECK(odd::apply(op, x, b) == (ha ? odd::apply(op, a, b) : odd::by_rank(op, 0, 1)), "optional %s value, %s", odd::op_name(op), ha ? "engaged" : "empty");
		PBT_CHECK(odd::apply(op, a, y) == (hb ? odd::apply(op, a, b) : odd::by_rank(op, 1, 0)), "value %s optional, %s", odd::op_name(op), hb ? "engaged" : "empty");
		PBT_CHECK(odd::apply(op, x, std::nullopt) == odd::by_rank(op, ha, 0), "optional %s nullopt, %s", odd::op_name(op), ha ? "engaged" : "empty");
		PBT_CHECK(odd::apply(op, std::nullopt, y) == odd::by_rank(op, 0, hb), "nullopt %s optional, %s", odd::op_name(op), hb ? "engaged" : "empty");
	}
	s.evaluations(36);
}
PBT_TEST(totally_ordered, 100000, "both optionals are engaged") { if(s.flip()) compare<int>(s); else compare<unsigned char>(s); }
PBT_TEST(partially_ordered, 100000, "both optionals are engaged") { compare<double>(s); }
PBT_TEST(unrelated_operators, 100000, "both optionals are engaged") { compare<odd::Odd>(s); }
PBT_TEST(strings, 60000, "both optionals are engaged") { alloc::Lib lib; compare<ptl::string>(s); }
PBT_TEST(nested, 60000, "both optionals are engaged") { // comparing with a bare value of a nested optional would be ambiguous with nullopt: optionals only
	bool ha, hb;
	ptl::optional<int> a, b;
	const auto x = make<ptl::optional<int>>(s, ha, a), y = make<ptl::optional<int>>(s, hb, b);
	if(ha && hb) s.nontrivial();
	const auto rank = [](bool h, const ptl::optional<int> & v) { return !h ? -4294967296l : !v ? -4294967295l : long{*v}; };
	for(int op = 0; op < 6; ++op) PBT_CHECK(odd::apply(op, x, y) == odd::by_rank(op, rank(ha, a), rank(hb, b)), "nested optionals: %s", odd::op_name(op));
}
