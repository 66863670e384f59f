// PARTS 2
#include <ptl/bitset.hpp>
#include <bitset>
#include <cctype>
#include <iomanip>
#include <sstream>
#include "common.hpp"

template<std::size_t N> static std::bitset<N> draw(pbt::Src & s) {
	std::bitset<N> m;
	if constexpr(N > 500) { auto h = s.raw(0); for(std::size_t i = 0; i < N; ++i) m[i] = (h = h * 6364136223846793005ull + 1442695040888963407ull) >> 63; }
	else for(std::size_t i = 0; i < N; ++i) m[i] = s.flip();
	return m;
}
template<std::size_t N> static ptl::bitset<N> of(const std::bitset<N> & m) {
	ptl::bitset<N> r;
	for(std::size_t i = 0; i < N; ++i) r.set(i, m[i]);
	return r;
}
template<std::size_t N> static bool equal(const ptl::bitset<N> & v, const std::bitset<N> & m) {
	for(std::size_t i = 0; i < N; ++i) if(v[i] != m[i]) return false;
	return true;
}
// a text of digits, white space and others
static std::string digits(pbt::Src & s, std::size_t n) {
	std::string t;
	static const char others[]{' ', '\t', '\n', '2', 'x', '\0', '-', '/', ':', '\xb0', '\xff', '1', '0', '+'};
	const auto groups = s.raw(4) + 1;
	for(std::size_t g = 0; g < groups; ++g) {
		for(auto k = s.raw(4); k > 0; --k) t += s.flip() ? ' ' : s.pick(others);
		auto k = s.raw(3) == 0 ? n : s.raw(n + 4);
		if(n > 500) { auto h = s.raw(0); for(; k > 0; --k) t += (h = h * 6364136223846793005ull + 1442695040888963407ull) >> 63 ? '1' : '0'; }
		else for(; k > 0; --k) t += s.flip() ? '1' : '0';
	}
	return t;
}
template<std::size_t N>
static void read(pbt::Src & s) {
	const auto t = digits(s, N);
	const auto m0 = draw<N>(s);
	const bool skip = !s.chance(1, 4), eof_only = s.chance(1, 16);
	TRACE("bitset<%zu> reading from %s%s", N, pbt::show(t.data(), t.size()).c_str(), skip ? "" : " without skipping white space");
	std::istringstream a{t}, b{t};
	if(!skip) { a >> std::noskipws; b >> std::noskipws; }
	if(eof_only) { a.setstate(std::ios::failbit); b.setstate(std::ios::failbit); } // an already failed stream
	const auto w = s.chance(1, 4) ? s.raw(6) : 0;
	a.width(static_cast<std::streamsize>(w));
	b.width(static_cast<std::streamsize>(w));
	auto v = of(m0);
	auto m = m0;
	bool good = true;
	for(int round = 0; round < 4 && good; ++round) { // read on from where the previous one stopped
		auto & r = a >> v;
		PBT_CHECK(&r == &a, "the stream is not returned");
		const auto before = m;
		b >> m;
		if(!b) m = before; // a value which could not be read stays
		PBT_CHECK(a.rdstate() == b.rdstate(), "read %d: stream state %d, expected %d", round, static_cast<int>(a.rdstate()), static_cast<int>(b.rdstate()));
		PBT_CHECK(equal(v, m), "read %d: value differs; expected %s", round, m.to_string().c_str());
		good = static_cast<bool>(b);
		const auto sa = a.rdstate(), sb = b.rdstate();
		a.clear(); b.clear();
		PBT_CHECK(a.tellg() == b.tellg(), "read %d: stream position %ld, expected %ld", round, static_cast<long>(a.tellg()), static_cast<long>(b.tellg()));
		a.clear(sa); b.clear(sb);
		if(good && N) s.nontrivial();
	}
	a.clear(); b.clear();
	const std::string ra{std::istreambuf_iterator<char>{a}, {}}, rb{std::istreambuf_iterator<char>{b}, {}};
	PBT_CHECK(ra == rb, "what is left in the stream differs: %s and %s", pbt::show(ra.data(), ra.size()).c_str(), pbt::show(rb.data(), rb.size()).c_str());
}
template<std::size_t N>
static void write(pbt::Src & s) {
	const auto m = draw<N>(s);
	const auto v = of(m);
	std::ostringstream a, b;
	const auto w = static_cast<int>(s.flip() ? 0 : s.raw(N + 6));
	const char fill = s.flip() ? ' ' : s.byte();
	const auto adjust = s.raw(4);
	const auto count = s.raw(3) + 1;
	TRACE("bitset<%zu> %s written with width %d, fill %d, adjustment %d", N, m.to_string().c_str(), w, fill, static_cast<int>(adjust));
	for(auto os : {&a, &b}) {
		os->fill(fill);
		if(adjust == 1) *os << std::left;
		else if(adjust == 2) *os << std::right;
		else if(adjust == 3) *os << std::internal;
		if(s.nontrivial_flag()) {}
	}
	for(std::size_t k = 0; k < count; ++k) {
		if(k == 0 || s.flip()) { a << std::setw(w); b << std::setw(w); }
		auto & r = a << v;
		PBT_CHECK(&r == &a);
		b << m;
		PBT_CHECK(a.width() == b.width(), "the width is %ld, expected %ld", static_cast<long>(a.width()), static_cast<long>(b.width()));
	}
	PBT_CHECK(a.str() == b.str() && a.rdstate() == b.rdstate(), "wrote %s, expected %s", pbt::show(a.str().data(), a.str().size()).c_str(), pbt::show(b.str().data(), b.str().size()).c_str());
	if(N && w) s.nontrivial();
	// what was written is read back
	std::stringstream io;
	auto back = of(draw<N>(s));
	const std::string before = s.flip() ? " \n" : "", after = s.flip() ? " 01" : s.flip() ? "x" : "";
	io << before << v << after;
	io >> back;
	if(N) PBT_CHECK(!io.fail() && equal(back, m), "%s was not read back", m.to_string().c_str());
}
template<std::size_t... N> static void reads(pbt::Src & s, std::index_sequence<N...>) { static void (* const f[])(pbt::Src &){read<N>...}; s.pick(f)(s); }
template<std::size_t... N> static void writes(pbt::Src & s, std::index_sequence<N...>) { static void (* const f[])(pbt::Src &){write<N>...}; s.pick(f)(s); }
using Sizes = std::index_sequence<0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100>;
using Large = std::index_sequence<511, 1000, 2500>;
#if IN_PART(0)
PBT_TEST(large_input, 400, "a value was read") { reads(s, Large{}); }
PBT_TEST(beyond_16_bits, 6, "a value was read") { read<65537>(s); }
PBT_TEST(input, 200000, "a value was read") { reads(s, Sizes{}); }
#endif
#if IN_PART(1)
PBT_TEST(large_output, 300, "a width was set and there are bits") { writes(s, Large{}); }
PBT_TEST(output, 100000, "a width was set and there are bits") { writes(s, Sizes{}); }
// a stream which fails in the middle
struct Source : std::streambuf {
	std::string t;
	explicit Source(std::string x) : t{std::move(x)} { setg(&t[0], &t[0], &t[0] + t.size()); }
};
struct OneByOne : std::streambuf { // unbuffered: every character is fetched separately
	std::string t;
	std::size_t pos{0};
	explicit OneByOne(std::string x) : t{std::move(x)} {}
	int_type underflow() override { return pos < t.size() ? traits_type::to_int_type(t[pos]) : traits_type::eof(); }
	int_type uflow() override { return pos < t.size() ? traits_type::to_int_type(t[pos++]) : traits_type::eof(); }
	int_type pbackfail(int_type c) override { if(pos == 0 || (c != traits_type::eof() && traits_type::to_char_type(c) != t[pos - 1])) return traits_type::eof(); --pos; return traits_type::to_int_type(t[pos]); }
};
PBT_TEST(unbuffered, 60000, "a value was read") {
	const auto t = digits(s, 9);
	TRACE("reading from an unbuffered source %s", pbt::show(t.data(), t.size()).c_str());
	OneByOne x{t}, y{t};
	std::istream a{&x}, b{&y};
	ptl::bitset<9> v;
	std::bitset<9> m;
	for(int round = 0; round < 3; ++round) {
		a >> v;
		const auto before = m;
		b >> m;
		if(!b) m = before; else s.nontrivial();
		PBT_CHECK(a.rdstate() == b.rdstate() && equal(v, m) && x.pos == y.pos, "read %d: state %d, position %zu; expected %d, %zu and %s", round, static_cast<int>(a.rdstate()), x.pos, static_cast<int>(b.rdstate()), y.pos, m.to_string().c_str());
	}
}
#endif
