#include <ptl/string.hpp>
#include "strops.hpp"
#include <functional>
#include <iomanip>
#include <sstream>

static int order(const std::string & a, const std::string & b) { // lexicographic on unsigned bytes, written out independently
	for(std::size_t i = 0; i < a.size() && i < b.size(); ++i) {
		const auto x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
		if(x != y) return x < y ? -1 : 1;
	}
	return a.size() < b.size() ? -1 : a.size() > b.size();
}
template<typename A, typename B>
static void six(const A & a, const B & b, int o, const char * what) {
	PBT_CHECK((a == b) == (o == 0), "%s", what);
	PBT_CHECK((a != b) == (o != 0), "%s", what);
	PBT_CHECK((a <  b) == (o <  0), "%s", what);
	PBT_CHECK((a <= b) == (o <= 0), "%s", what);
	PBT_CHECK((a >  b) == (o >  0), "%s", what);
	PBT_CHECK((a >= b) == (o >= 0), "%s", what);
}
// brings v to content t through some history
static void bring(pbt::Src & s, ptl::string & v, const std::string & t) {
	switch(s.raw(7)) {
		case 0: v = std::string_view{t}; break;
		case 1: v.clear(); for(const char c : t) v.push_back(c); break;
		case 2: { const auto cut = s.raw(t.size() + 1); v.assign(std::string_view{t}.substr(cut)); v.insert(v.cbegin(), std::string_view{t}.substr(0, cut)); break; }
		case 3: v.assign(s.raw(200), s.byte()); v.append(std::string_view{t}); v.erase(v.cbegin(), v.cend() - static_cast<std::ptrdiff_t>(t.size())); break;
		case 4: { ptl::string o; o.reserve(s.raw(500)); o.append(std::string_view{t}); v = std::move(o); break; }
		case 5: { ptl::string o; o.append(std::string_view{t}); o.append(s.raw(100), 'z'); o.resize(t.size()); o.shrink_to_fit(); v.swap(o); break; }
		default: v.replace(v.cbegin(), v.cend(), t.begin(), t.end()); v.shrink_to_fit(); break;
	}
}

PBT_TEST(pairs, 120000, "the two contents share a non-empty prefix, or are equal although built by different histories") {
	std::string m[2];
	auto a = strops::build(s, m[0], 80), b = strops::build(s, m[1], 80);
	switch(s.raw(7)) { // relation between the contents
		case 0: case 1: m[1] = m[0]; break;
		case 2: m[1] = m[0] + gen::text(s, 3); break;
		case 3: m[1] = m[0].substr(0, s.raw(m[0].size() + 1)); break;
		case 4: case 5: m[1] = m[0]; if(!m[1].empty()) m[1][s.raw(m[1].size())] = s.byte(); break; // differs in one byte
		default: break;
	}
	bring(s, a, m[0]);
	bring(s, b, m[1]);
	TRACE("a = %s (capacity %zu)", pbt::show(m[0].data(), m[0].size()).c_str(), a.capacity());
	TRACE("b = %s (capacity %zu)", pbt::show(m[1].data(), m[1].size()).c_str(), b.capacity());
	const int o = order(m[0], m[1]);
	if(o == 0) s.label("equal");
	else if(!m[0].empty() && !m[1].empty() && m[0][0] == m[1][0]) s.label("common prefix");
	if(o == 0 ? !m[0].empty() : (!m[0].empty() && !m[1].empty() && m[0][0] == m[1][0])) s.nontrivial();
	six(a, b, o, "string, string");
	six(b, a, -o, "string, string");
	six(a, std::string_view{m[1]}, o, "string, view");
	six(std::string_view{m[0]}, b, o, "view, string");
	six(a, a, 0, "self");
	const std::string z0{m[0].c_str()}, z1{m[1].c_str()};
	six(a, m[1].c_str(), order(m[0], z1), "string, C string");
	six(m[0].c_str(), b, order(z0, m[1]), "C string, string");
	const std::hash<ptl::string> h{};
	if(o == 0) PBT_CHECK(h(a) == h(b), "equal strings with different hashes");
	PBT_CHECK(h(a) == h(ptl::string{std::string_view{m[0]}}), "hash depends on history");
	const std::string_view va = a;
	PBT_CHECK(va.size() == m[0].size() && std::string{va} == m[0]);
	if(!va.empty()) PBT_CHECK(va.data() == a.data());
	strops::same(a, m[0], "unchanged");
	strops::same(b, m[1], "unchanged");
}

// long contents: equal, different in one byte anywhere, or one a prefix of the other
PBT_TEST(late, 2400, "a difference behind the first 256 characters, or equal contents of more than 256") {
	const auto n = s.chance(1, 30) ? gen::position(s, 1200000) : s.flip() ? gen::position(s, 200000) : 200 + s.raw(3000);
	std::string p = gen::text(s, 40);
	if(p.empty()) p = std::string("\0 \x80", 3);
	std::string m[2];
	while(m[0].size() < n) m[0] += p;
	m[0].resize(n);
	m[1] = m[0];
	std::size_t at = n;
	const auto how = s.raw(5);
	if(n && how < 3) {
		at = how == 0 ? n - 1 - s.raw(std::min<std::size_t>(n, 20)) : s.raw(n);
		m[1][at] = static_cast<char>(m[1][at] ^ (s.flip() ? 0x80 : 1 << s.raw(8)));
	} else if(how == 3) m[1].resize(at = s.flip() ? n + 1 + s.raw(300) : s.raw(n + 1), '\0');
	if(s.flip()) m[0].swap(m[1]);
	TRACE("%zu and %zu characters, difference at %zu", m[0].size(), m[1].size(), at);
	if(at > 256) s.nontrivial();
	const ptl::string a(m[0].begin(), m[0].end());
	ptl::string b(m[1].begin(), m[1].end());
	const int o = order(m[0], m[1]);
	six(a, b, o, "string, string");
	six(a, std::string_view{m[1]}, o, "string, view");
	six(std::string_view{m[0]}, b, o, "view, string");
	const std::string z{m[1].c_str()};
	six(a, m[1].c_str(), order(m[0], z), "string, C string");
	six(z.c_str(), a, -order(m[0], z), "C string, string");
	const std::hash<ptl::string> h{};
	if(o == 0) PBT_CHECK(h(a) == h(b), "equal strings with different hashes");
	const std::string_view v = a;
	PBT_CHECK(v.size() == m[0].size() && v == m[0] && (v.empty() || v.data() == a.data()));
	std::ostringstream x, y;
	const auto w = static_cast<int>(s.raw(2 * n + 1));
	x << std::setw(w) << a << '|' << b;
	y << std::setw(w) << m[0] << '|' << m[1];
	PBT_CHECK(x.str() == y.str(), "output of %zu characters", m[0].size());
}
PBT_TEST(output, 60000, "field width larger than the content, or content with a zero byte") {
	std::string m;
	const auto a = strops::build(s, m, 40);
	std::ostringstream x, y;
	const auto w = s.raw(50);
	const char fill = s.chance(1, 2) ? s.byte() : ' ';
	const auto adj = s.raw(4);
	const auto how = s.raw(4);
	TRACE("<< %s, width %zu, fill %d, adjust %d, stream %d", pbt::show(m.data(), m.size()).c_str(), w, fill, static_cast<int>(adj), static_cast<int>(how));
	auto setup = [&](std::ostream & os) {
		os << std::setfill(fill) << std::setw(static_cast<int>(w));
		if(adj == 1) os << std::left;
		if(adj == 2) os << std::right;
		if(adj == 3) os << std::internal;
		if(how == 1) os.setstate(std::ios::badbit);
		if(how == 2) os.setstate(std::ios::eofbit);
		if(how == 3) os << std::hex << std::showbase << std::uppercase;
	};
	setup(x);
	setup(y);
	std::ostream & r = x << a;
	PBT_CHECK(&r == &x);
	y << std::string_view{m};
	PBT_CHECK(x.str() == y.str(), "wrote %s, expected %s", pbt::show(x.str().data(), x.str().size()).c_str(), pbt::show(y.str().data(), y.str().size()).c_str());
	PBT_CHECK(x.rdstate() == y.rdstate() && x.width() == y.width());
	if(w > m.size() || m.find('\0') != m.npos) s.nontrivial();
}

#define LIT(X) { [] { using namespace ptl::literals; return X##_s; }, std::string{X, sizeof(X) - 1} }
PBT_TEST(literals, 3000, "the literal holds a zero byte or exceeds the inline capacity") {
	static const struct { ptl::string (*make)(); std::string expected; } table[]{
		LIT(""), LIT("a"), LIT("hello"), LIT("\0"), LIT("a\0b"), LIT("\0\0\0"), LIT("end\0"), LIT("\0start"), LIT("1234567890123456789012"), LIT("12345678901234567890123"),
		LIT("1234567890123456789012\0"), LIT("12345678901\0234567890\0abcdefghijklmnopqrstuvwxyz\0ABCDEFGHIJKLMNOPQRSTUVWXYZ"), LIT("\xff\x80\x7f"), LIT("a somewhat longer literal that certainly does not fit inline storage"),
	};
	const auto & e = table[s.raw(sizeof table / sizeof *table)];
	const auto v = e.make();
	TRACE("literal %s", pbt::show(e.expected.data(), e.expected.size()).c_str());
	strops::same(v, e.expected, "literal");
	if(e.expected.find('\0') != std::string::npos || e.expected.size() > 22) s.nontrivial();
}
PBT_TEST(vast, 20000, "compared with 2^31 characters or more") { // lengths differ by more than an int can hold
	const auto n = gen::position(s, gen::vast_bytes), z = s.raw(60);
	if(!gen::vast()) return;
	const std::string_view v{gen::vast(), n};
	const ptl::string a(static_cast<std::size_t>(z), s.chance(4, 5) ? '\0' : 'x');
	TRACE("%zu characters and %zu zeros", static_cast<std::size_t>(z), n);
	const int o = !a.empty() && n && a.front() ? 1 : z < n ? -1 : z > n;
	six(a, v, o, "string, view");
	six(v, a, -o, "view, string");
	if(n >> 31) s.nontrivial();
}
