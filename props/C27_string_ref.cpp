#include <ptl/string_ref.hpp>
#include <ptl/string.hpp>
#include <iomanip>
#include <sstream>
#include <string_view>
#include <vector>
#include "common.hpp"
#include "odd.hpp"

using namespace ptl::literals;
using SV = std::string_view;
static void same(const ptl::string_ref & r, SV m, const char * where) {
	PBT_CHECK(r.data() == m.data(), "%s: starts %td characters off", where, r.data() - m.data());
	PBT_CHECK(r.size() == m.size() && r.empty() == m.empty(), "%s: size %zu, expected %zu", where, r.size(), m.size());
	const SV v = r;
	PBT_CHECK(v.data() == m.data() && v.size() == m.size(), "%s: converts to another view", where);
	PBT_CHECK(static_cast<std::size_t>(r.end() - r.begin()) == m.size() && r.cbegin() == r.begin() && r.cend() == r.end());
	std::size_t i = 0;
	for(const char & c : r) { PBT_CHECK(i < m.size() && &c == m.data() + i, "%s: enumeration", where); ++i; }
	PBT_CHECK(i == m.size());
	for(auto it = r.rbegin(); it != r.rend(); ++it) { --i; PBT_CHECK(&*it == m.data() + i, "%s: reverse enumeration", where); }
	PBT_CHECK(i == 0 && r.crbegin() == r.rbegin() && r.crend() == r.rend());
	if(!m.empty()) {
		PBT_CHECK(&r.front() == m.data() && &r.back() == m.data() + m.size() - 1, "%s: front or back", where);
		const auto k = m.size() / 2;
		PBT_CHECK(&r[k] == m.data() + k && &r.at(k) == m.data() + k && &r.at(m.size() - 1) == &m.back());
	}
	for(const auto k : {m.size(), m.size() + 1, ~std::size_t{0}, ~std::size_t{0} - m.size(), std::size_t{1} << 63}) if(k >= m.size()) try { (void)r.at(k); PBT_CHECK(false, "%s: at(%zu) of %zu does not throw", where, k, m.size()); } catch(const std::out_of_range &) { }
	PBT_CHECK(std::hash<ptl::string_ref>{}(r) == std::hash<SV>{}(m), "%s: the hash differs from that of the view", where);
}
static void compare(const ptl::string_ref & a, const ptl::string_ref & b, SV p, SV q) {
	for(int op = 0; op < 6; ++op) {
		const bool e = odd::apply(op, p.compare(q), 0);
		PBT_CHECK(odd::apply(op, a, b) == e, "%s %s %s", pbt::show(p.data(), p.size()).c_str(), odd::op_name(op), pbt::show(q.data(), q.size()).c_str());
		if(q.find('\0') == q.npos) { // a C string on either side
			const std::string c{q};
			PBT_CHECK(odd::apply(op, a, c.c_str()) == e && odd::apply(op, c.c_str(), a) == odd::apply(op, q.compare(p), 0), "comparison with a C string: %s", odd::op_name(op));
		}
	}
	if(a == b) PBT_CHECK(std::hash<ptl::string_ref>{}(a) == std::hash<ptl::string_ref>{}(b), "equal references hash differently");
}
PBT_TEST(windows, 10000, "a proper, non-empty window was formed") {
	std::string text = gen::text(s, 200);
	const auto size = text.size();
	struct Win { ptl::string_ref r; SV m; };
	std::vector<Win> pool;
	switch(s.raw(5)) {
		case 0: pool.push_back(Win{ptl::string_ref{text.data(), size}, SV{text}}); break;
		case 1: pool.push_back(Win{ptl::string_ref{SV{text}}, SV{text}}); break;
		case 2: pool.push_back(Win{text.c_str(), SV{text.c_str()}}); break; // up to the first zero
		case 3: { ptl::string_ref r; same(r, SV{}, "default"); r = SV{text}; pool.push_back(Win{r, SV{text}}); break; }
		default: { const ptl::string_ref r = SV{text}; pool.push_back(Win{r, SV{text}}); break; }
	}
	same(pool[0].r, pool[0].m, "the whole");
	{ const ptl::string p{text.begin(), text.end()}; const ptl::string_ref r{p}; if(size) same(r, SV{p.data(), size}, "of an owning string"); else PBT_CHECK(r.empty()); }
	same(ptl::string_ref{nullptr, std::size_t{0}}, SV{}, "nothing");
	std::size_t n = 0;
	do {
		const auto z = s.raw(pool.size());
		Win t = pool[z];
		const auto k = s.raw(t.m.size() + 1), j = s.raw(t.m.size() - k + 1);
		const auto op = s.raw(7);
		TRACE("window of %zu: op %d with %zu, %zu", t.m.size(), static_cast<int>(op), static_cast<std::size_t>(k), static_cast<std::size_t>(j));
		switch(op) {
			case 0: t.r.remove_prefix(k); t.m.remove_prefix(k); break;
			case 1: t.r.remove_suffix(k); t.m.remove_suffix(k); break;
			case 2: t.r = t.r.substr(k); t.m = t.m.substr(k); break;
			case 3: case 4: t.r = t.r.substr(k, j); t.m = t.m.substr(k, j); break;
			case 5: { ptl::string_ref c{t.r}; c.remove_prefix(k); same(c, t.m.substr(k), "a modified copy"); break; }
			default: { ptl::string_ref a{t.r}, b; b = a; a.remove_suffix(k); same(b, t.m, "an assigned copy"); t.r = std::move(b); break; }
		}
		same(t.r, t.m, "a window");
		same(pool[z].r, pool[z].m, "the window it was made from");
		const auto & o = pool[s.raw(pool.size())];
		compare(t.r, o.r, t.m, o.m);
		if(!t.m.empty() && t.m.size() < size) s.nontrivial();
		pool.push_back(t);
	} while(s.more(n, 8, 25));
}
PBT_TEST(comparisons, 30000, "different texts with a common prefix, or equal texts at different addresses") {
	std::string a = gen::text(s, 60), b = a;
	switch(s.raw(6)) {
		case 0: b = gen::text(s, 60); break;
		case 1: if(!b.empty()) { const auto k = s.raw(b.size()); b[k] = static_cast<char>(b[k] ^ (s.flip() ? 0x80 : 1 << s.raw(8))); } break;
		case 2: b.resize(s.raw(b.size() + 1)); break;
		case 3: b += std::string(s.raw(3) + 1, s.byte()); break;
		case 4: b = std::string(s.raw(3), s.byte()) + b; break;
		default: break;
	}
	TRACE("%s and %s", pbt::show(a.data(), a.size()).c_str(), pbt::show(b.data(), b.size()).c_str());
	const auto offset = s.raw(3); // equal characters at other addresses and alignments
	std::string pad(offset, '~');
	pad += b;
	const ptl::string_ref x{a.data(), a.size()}, y{pad.data() + offset, b.size()};
	compare(x, y, a, b);
	compare(y, x, b, a);
	compare(x, x, a, a);
	const ptl::string p{a.begin(), a.end()}, q{b.begin(), b.end()}; // agreement with owning strings
	PBT_CHECK((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q), "references and owning strings compare differently");
	PBT_CHECK(std::hash<ptl::string>{}(p) == std::hash<ptl::string_ref>{}(x), "references and owning strings hash differently");
	if(a == b || (!a.empty() && !b.empty() && a[0] == b[0])) s.nontrivial();
}
PBT_TEST(late, 2400, "a difference behind the first 256 characters, or equal contents of more than 256") {
	const auto n = s.chance(1, 30) ? gen::position(s, 1200000) : s.flip() ? gen::position(s, 200000) : 200 + s.raw(3000);
	std::string p = gen::text(s, 40), a, b;
	if(p.empty()) p = std::string("\0 \x80", 3);
	while(a.size() < n) a += p;
	a.resize(n);
	b = a;
	std::size_t at = n;
	const auto how = s.raw(5);
	if(n && how < 3) {
		at = how == 0 ? n - 1 - s.raw(std::min<std::size_t>(n, 20)) : s.raw(n);
		b[at] = static_cast<char>(b[at] ^ (s.flip() ? 0x80 : 1 << s.raw(8)));
	} else if(how == 3) b.resize(at = s.flip() ? n + 1 + s.raw(300) : s.raw(n + 1), '\0');
	if(s.flip()) a.swap(b);
	TRACE("%zu and %zu characters, difference at %zu", a.size(), b.size(), at);
	if(at > 256) s.nontrivial();
	const ptl::string_ref x{a.data(), a.size()}, y{b.data(), b.size()};
	compare(x, y, a, b);
	compare(y, x, b, a);
	const std::hash<ptl::string_ref> h{};
	PBT_CHECK(h(x) == std::hash<SV>{}(a) && h(y) == std::hash<SV>{}(b));
	std::ostringstream f, g;
	const auto w = static_cast<int>(s.raw(2 * n + 1));
	f << std::setw(w) << x << '|' << y;
	g << std::setw(w) << a << '|' << b;
	PBT_CHECK(f.str() == g.str(), "output of %zu characters", a.size());
}
PBT_TEST(output, 12000, "padding is needed or the text holds a zero") {
	const auto text = gen::text(s, 60);
	const ptl::string_ref r{text.data(), text.size()};
	const SV v{text};
	std::ostringstream f, g;
	const auto width = static_cast<int>(s.raw(80));
	const char fill = s.byte();
	const auto side = s.raw(4);
	const auto format = [&](std::ostream & os) {
		os << std::setw(width) << std::setfill(fill);
		if(side == 1) os << std::left; else if(side == 2) os << std::right; else if(side == 3) os << std::internal;
	};
	TRACE("%s in a field of %d", pbt::show(text.data(), text.size()).c_str(), width);
	format(f); format(g);
	if(s.chance(1, 20)) { f.setstate(std::ios::failbit); g.setstate(std::ios::failbit); }
	auto & back = f << r;
	PBT_CHECK(&back == &f);
	f << '|' << r;
	g << v << '|' << v;
	PBT_CHECK(f.str() == g.str(), "%s instead of %s", pbt::show(f.str().data(), f.str().size()).c_str(), pbt::show(g.str().data(), g.str().size()).c_str());
	PBT_CHECK(f.width() == g.width() && f.rdstate() == g.rdstate());
	if(static_cast<std::size_t>(width) > text.size() || text.find('\0') != text.npos) s.nontrivial();
}
#define LITERAL(X) {X##_sr, std::string(X, sizeof(X) - 1)}
PBT_TEST(literals, 2000, "the literal holds a zero or a byte above 127") {
	static const struct { ptl::string_ref r; std::string m; } all[]{
		LITERAL(""), LITERAL("a"), LITERAL("\0"), LITERAL("abc"), LITERAL("a\0b"), LITERAL("\0\0x"), LITERAL("trailing\0"), LITERAL("\xff\x80\x7f"), LITERAL("\xc3\xa4\0\n\t\"\\"),
		LITERAL("a longer literal with \0 two \0 zeros and more than thirty characters")};
	const auto i = s.raw(sizeof all / sizeof *all), j = s.raw(sizeof all / sizeof *all);
	PBT_CHECK(all[i].r.size() == all[i].m.size() && SV{all[i].r} == all[i].m, "literal %d", static_cast<int>(i));
	compare(all[i].r, all[j].r, all[i].m, all[j].m);
	static_assert(std::is_same_v<decltype("x"_sr), ptl::string_ref> && "a\0b"_sr.size() == 3 && ptl::string_ref::max_size() == ~std::size_t{0} >> 1);
	for(const char c : all[i].m) if(c <= 0) s.nontrivial();
}
PBT_TEST(vast, 20000, "a window of 2^31 characters or more") {
	const char * const base = gen::vast();
	if(!base) return;
	std::size_t off = gen::position(s, gen::vast_bytes), n = gen::position(s, gen::vast_bytes - off);
	ptl::string_ref r{base + off, n};
	std::size_t k = 0;
	do {
		const auto a = gen::position(s, n), c = gen::position(s, n - a);
		const auto op = s.raw(5);
		TRACE("window %zu+%zu: op %d with %zu, %zu", off, n, static_cast<int>(op), a, c);
		switch(op) {
			case 0: r.remove_prefix(a); off += a; n -= a; break;
			case 1: r.remove_suffix(a); n -= a; break;
			case 2: r = r.substr(a); off += a; n -= a; break;
			case 3: r = r.substr(a, c); off += a; n = c; break;
			default: n = a; r = SV{base + off, n}; break;
		}
		const char * const p = base + off;
		const SV v = r;
		PBT_CHECK(r.data() == p && r.size() == n && r.empty() == (n == 0) && v.data() == p && v.size() == n, "starts %td characters off, size %zu, expected %zu", r.data() - p, r.size(), n);
		PBT_CHECK(static_cast<std::size_t>(r.end() - r.begin()) == n && static_cast<std::size_t>(r.rend() - r.rbegin()) == n);
		if(n) {
			const auto i = gen::position(s, n - 1);
			const auto d = static_cast<std::ptrdiff_t>(i);
			PBT_CHECK(&r[i] == p + i && &r.at(i) == p + i && &r.front() == p && &r.back() == p + n - 1 && &r.begin()[d] == p + i && &*(r.end() - (static_cast<std::ptrdiff_t>(n) - d)) == p + i && &*(r.rbegin() + d) == p + (n - 1 - i), "character %zu of %zu", i, n);
		}
		const std::size_t beyond[]{n, n + 1, n + (std::size_t{1} << 32), n | std::size_t{1} << 63};
		for(const auto i : beyond) try { (void)r.at(i); PBT_CHECK(false, "at(%zu) of %zu does not throw", i, n); } catch(const std::out_of_range &) { }
		// against a beginning of it: only the lengths differ, by more than an int can hold
		const auto z = s.raw(n < 5 ? n + 1 : 5);
		const ptl::string_ref shorter{p, z};
		for(int o = 0; o < 6; ++o) PBT_CHECK(odd::apply(o, shorter, r) == odd::by_rank(o, 0, z < n) && odd::apply(o, r, shorter) == odd::by_rank(o, z < n, 0), "%zu and %zu characters with a common beginning: %s", static_cast<std::size_t>(z), n, odd::op_name(o));
		const char other[2]{s.flip() ? 'x' : '\0', 'x'};
		const ptl::string_ref greater{other, 2};
		const SV g{other, 2};
		for(int o = 0; o < 6; ++o) PBT_CHECK(odd::apply(o, r, greater) == odd::apply(o, v.compare(g), 0) && odd::apply(o, greater, r) == odd::apply(o, 0, v.compare(g)), "%zu zeros and another text: %s", n, odd::op_name(o));
		if(n >> 31) s.nontrivial();
	} while(n && s.more(k, 3, 10));
}
