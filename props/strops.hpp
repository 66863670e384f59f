// One random string operation applied to a ptl::string and to a std::string model; returned positions are compared.
#pragma once
#include "common.hpp"
#include <deque>
#include <iterator>
#include <sstream>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <string_view>
#include <vector>

namespace strops {
	inline void same(const ptl::string & s, const std::string & m, const char * where) {
		PBT_CHECK(s.size() == m.size(), "%s: size %zu, expected %zu", where, s.size(), m.size());
		PBT_CHECK(std::memcmp(s.data(), m.data(), m.size()) == 0, "%s: content %s, expected %s", where, pbt::show(s.data(), s.size()).c_str(), pbt::show(m.data(), m.size()).c_str());
		PBT_CHECK(s.c_str()[m.size()] == 0, "%s: no terminator", where);
		PBT_CHECK(s.c_str() == s.data(), "%s", where);
		PBT_CHECK(s.empty() == m.empty(), "%s", where);
		PBT_CHECK(s.capacity() >= s.size(), "%s", where);
		PBT_CHECK(static_cast<std::size_t>(s.end() - s.begin()) == m.size(), "%s", where);
	}
	// calls f with an initializer_list holding the first (up to 30) characters of t, which is cut accordingly
	template<typename F>
	auto with_ilist(pbt::Src & s, std::string & t, F f) {
		static const std::size_t lens[]{0, 1, 2, 5, 21, 22, 23, 30};
		const auto n = s.pick(lens);
		t.resize(n, 'q');
		const char * p = t.data();
		switch(n) {
			case 0: return f(std::initializer_list<char>{});
			case 1: return f({p[0]});
			case 2: return f({p[0], p[1]});
			case 5: return f({p[0], p[1], p[2], p[3], p[4]});
			case 21: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20]});
			case 22: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21]});
			case 23: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22]});
			default: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26], p[27], p[28], p[29]});
		}
	}
	// calls f(first, last) with t supplied through one of many iterator types
	constexpr std::size_t range_kinds = 13;
	inline const char * range_name(std::size_t k) {
		static const char * const n[]{"pointers", "single-pass iterators", "forward iterators", "list iterators", "forward_list iterators", "deque iterators", "ptl::string iterators", "reverse iterators", "move iterators", "mutable ptl::string iterators", "ints", "unsigned characters", "stream buffer iterators"};
		return n[k];
	}
	template<typename F>
	auto with_range(std::size_t kind, const std::string & t, F f) {
		if(t.size() > 2000 && (kind == 3 || kind == 4)) kind = 5; // no thousands of list nodes
		switch(kind) {
			case 0: return f(t.data(), t.data() + t.size());
			case 1: { gen::StreamState st{t.data(), 0, t.size()}; return f(gen::SinglePass{st}, gen::SinglePass{}); }
			case 2: return f(gen::Forward{t.data()}, gen::Forward{t.data() + t.size()});
			case 3: { std::list<char> l(t.begin(), t.end()); return f(l.begin(), l.end()); }
			case 4: { std::forward_list<char> l(t.begin(), t.end()); return f(l.cbegin(), l.cend()); }
			case 5: { std::deque<char> l(t.begin(), t.end()); return f(l.begin(), l.end()); }
			case 6: { const ptl::string o(t.data(), t.data() + t.size()); return f(o.begin(), o.end()); }
			case 7: { const std::string r(t.rbegin(), t.rend()); return f(r.rbegin(), r.rend()); }
			case 8: { std::string r{t}; return f(std::make_move_iterator(r.begin()), std::make_move_iterator(r.end())); }
			case 9: { ptl::string o(t.data(), t.data() + t.size()); return f(o.begin(), o.end()); }
			case 10: { const std::vector<int> r(t.begin(), t.end()); return f(r.begin(), r.end()); }
			case 11: { const std::vector<unsigned char> r(t.begin(), t.end()); return f(r.data(), r.data() + r.size()); }
			default: { std::istringstream is{t}; return f(std::istreambuf_iterator<char>{is}, std::istreambuf_iterator<char>{}); }
		}
	}
	// build a ptl::string in one of many ways; m receives the expected content
	inline auto build(pbt::Src & s, std::string & m, std::size_t max = 300) -> ptl::string {
		m = gen::text(s, max);
		switch(const auto k = s.raw(9)) {
			case 0: TRACE("  string{view %zu: %s}", m.size(), pbt::show(m.data(), m.size()).c_str()); return ptl::string{std::string_view{m}};
			case 1: {
				const auto r = s.raw(range_kinds);
				TRACE("  string(%s, %zu: %s)", range_name(r), m.size(), pbt::show(m.data(), m.size()).c_str());
				return with_range(r, m, [](auto f, auto l) { return ptl::string(f, l); });
			}
			case 2: { const char c = s.byte(); m.assign(m.size(), c); TRACE("  string(%zu, '\\x%02x')", m.size(), static_cast<unsigned char>(c)); return ptl::string(m.size(), c); }
			case 3: { auto r = with_ilist(s, m, [](std::initializer_list<char> il) { return ptl::string(il); }); TRACE("  string(ilist %zu)", m.size()); return r; }
			case 4: {
				TRACE("  copy of string{view %zu: %s}", m.size(), pbt::show(m.data(), m.size()).c_str());
				const ptl::string tmp{std::string_view{m}};
				return ptl::string{tmp};
			}
			case 5: {
				TRACE("  move of string{view %zu: %s}", m.size(), pbt::show(m.data(), m.size()).c_str());
				ptl::string tmp{std::string_view{m}};
				return ptl::string{std::move(tmp)};
			}
			case 6: { // concatenations
				const auto cut = s.raw(m.size() + 1);
				const auto a = m.substr(0, cut), b = m.substr(cut);
				const auto how = s.raw(5);
				TRACE("  concatenation %d of %zu + %zu: %s", static_cast<int>(how), a.size(), b.size(), pbt::show(m.data(), m.size()).c_str());
				if(how == 0) return ptl::string{std::string_view{a}} + ptl::string{std::string_view{b}};
				if(how == 1) return std::string_view{a} + ptl::string{std::string_view{b}};
				if(how == 2) return ptl::string{std::string_view{a}} + std::string_view{b};
				const char c = s.byte();
				if(how == 3) { m = c + m; return c + ptl::string{std::string_view{m}.substr(1)}; }
				m += c;
				return ptl::string{std::string_view{m}.substr(0, m.size() - 1)} + c;
			}
			case 7: { // spare capacity
				const auto cap = s.len(600);
				TRACE("  string with %zu reserved: %s", cap, pbt::show(m.data(), m.size()).c_str());
				ptl::string r;
				r.reserve(cap);
				r.append(std::string_view{m});
				return r;
			}
			default: { // heap block kept although short, or grown char by char
				TRACE("  string grown and cut (%d): %s", static_cast<int>(k), pbt::show(m.data(), m.size()).c_str());
				ptl::string r{std::string_view{m}};
				const auto extra = s.raw(100);
				for(std::size_t i = 0; i < extra; ++i) r.push_back('!');
				for(std::size_t i = 0; i < extra; ++i) r.pop_back();
				return r;
			}
		}
	}

	// one operation on v[i]; o is another string usable as an argument
	inline void op(pbt::Src & s, ptl::string & v, std::string & m, ptl::string & o, std::string & om) {
		const auto show = [](const std::string & t) { return pbt::show(t.data(), t.size()); };
		const auto n = m.size();
		const auto p = s.raw(n + 1);                       // a position
		const auto q = p + s.raw(n - p + 1);               // and one behind it
		const auto pos = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
		const auto at = [](std::size_t i) { return static_cast<std::ptrdiff_t>(i); };
		std::string t;
		// arguments which resemble what is there: the same length, the same first and last characters, few differences
		const auto here = [&]() -> char { return s.flip() ? m[p < n ? p : n - 1] : s.flip() ? m[q ? q - 1 : 0] : m[s.raw(n)]; };
		const auto byte = [&]() -> char { return n && s.chance(1, 4) ? here() : s.byte(); };
		const auto amount = [&](std::size_t old) { return s.chance(1, 4) ? old + (s.chance(1, 4) ? s.raw(3) : 0) - (old && s.chance(1, 8)) : s.len(200); };
		const auto text = [&](std::size_t from, std::size_t count) {
			if(!n || count > 2000 || !s.chance(1, 4)) return gen::text(s);
			auto r = m.substr(from, count);
			for(auto k = s.raw(3); k && !r.empty(); --k) r[s.raw(r.size())] = s.flip() ? here() : s.byte();
			if(s.chance(1, 4)) { if(s.flip()) r += here(); else if(!r.empty()) r.pop_back(); }
			return r;
		};
		const auto list = [&](std::size_t from, std::size_t count) { if(n && s.chance(1, 3)) { t = m.substr(from, count); if(!t.empty() && s.flip()) t[s.raw(t.size())] = s.byte(); } };
		switch(s.raw(44)) {
			case 0: { const char c = byte(); TRACE("push_back(%d)", c); auto & r = v.push_back(c); m.push_back(c); PBT_CHECK(&r == v.data() + n && r == c); s.label("push_back"); break; }
			case 1: if(n) { TRACE("pop_back()"); v.pop_back(); m.pop_back(); } s.label("pop_back"); break;
			case 2: { const auto k = s.chance(1, 3) ? v.capacity() + s.raw(40) : s.len(600); TRACE("reserve(%zu)", static_cast<std::size_t>(k)); v.reserve(k); PBT_CHECK(v.capacity() >= k); s.label("reserve"); break; }
			case 3: { const auto k = s.chance(1, 6) ? n : s.len(400); TRACE("resize(%zu)", k); v.resize(k); m.resize(k); s.label("resize"); break; }
			case 4: { const auto k = s.chance(1, 6) ? n : s.len(400); const char c = byte(); TRACE("resize(%zu, %d)", k, c); v.resize(k, c); m.resize(k, c); s.label("resize"); break; }
			case 5: TRACE("shrink_to_fit()"); v.shrink_to_fit(); s.label("shrink_to_fit"); break;
			case 6: TRACE("clear()"); v.clear(); m.clear(); s.label("clear"); break;
			case 7: t = text(p, q - p); TRACE("append(view %zu: %s)", t.size(), show(t).c_str()); v.append(std::string_view{t}); m += t; s.label("append"); break;
			case 8: case 9: { t = text(p, q - p); const auto k = s.raw(range_kinds); TRACE("append(%s %zu: %s)", range_name(k), t.size(), show(t).c_str()); with_range(k, t, [&](auto f, auto l) { v.append(f, l); }); m += t; s.label("append range"); break; }
			case 10: list(p, q - p), with_ilist(s, t, [&](std::initializer_list<char> il) { v.append(il); }); TRACE("append(ilist %zu)", t.size()); m += t; s.label("append"); break;
			case 11: { const auto k = amount(q - p); const char c = byte(); TRACE("append(%zu, %d)", k, c); v.append(k, c); m.append(k, c); s.label("append"); break; }
			case 12: t = text(p, q - p); TRACE("+= view %s", show(t).c_str()); PBT_CHECK(&(v += std::string_view{t}) == &v); m += t; s.label("+="); break;
			case 13: list(p, q - p), with_ilist(s, t, [&](std::initializer_list<char> il) { PBT_CHECK(&(v += il) == &v); }); TRACE("+= ilist %zu", t.size()); m += t; s.label("+="); break;
			case 14: { const char c = byte(); TRACE("+= char %d", c); PBT_CHECK(&(v += c) == &v); m += c; s.label("+="); break; }
			case 15: TRACE("+= other %s", show(om).c_str()); PBT_CHECK(&(v += o) == &v); m += om; s.label("+="); break;
			case 16: t = text(0, n); TRACE("assign(view %s)", show(t).c_str()); v.assign(std::string_view{t}); m = t; s.label("assign"); break;
			case 17: case 18: { t = text(0, n); const auto k = s.raw(range_kinds); TRACE("assign(%s %s)", range_name(k), show(t).c_str()); with_range(k, t, [&](auto f, auto l) { v.assign(f, l); }); m = t; s.label("assign range"); break; }
			case 19: list(0, n), with_ilist(s, t, [&](std::initializer_list<char> il) { v.assign(il); }); TRACE("assign(ilist %zu)", t.size()); m = t; s.label("assign"); break;
			case 20: { const auto k = amount(n); const char c = byte(); TRACE("assign(%zu, %d)", k, c); v.assign(k, c); m.assign(k, c); s.label("assign"); break; }
			case 21: t = text(0, n); TRACE("= view %s", show(t).c_str()); PBT_CHECK(&(v = std::string_view{t}) == &v); m = t; s.label("="); break;
			case 22: list(0, n), with_ilist(s, t, [&](std::initializer_list<char> il) { PBT_CHECK(&(v = il) == &v); }); TRACE("= ilist %zu", t.size()); m = t; s.label("="); break;
			case 23: TRACE("= other %s", show(om).c_str()); PBT_CHECK(&(v = static_cast<const ptl::string &>(o)) == &v); m = om; s.label("="); break;
			case 24: TRACE("= move(other %s)", show(om).c_str()); PBT_CHECK(&(v = std::move(o)) == &v); m = om; o.clear(); om.clear(); s.label("= move"); break;
			case 25: TRACE("swap(other %s)", show(om).c_str()); if(s.flip()) v.swap(o); else swap(v, o); m.swap(om); s.label("swap"); break;
			case 26: if(p < n) { TRACE("erase(%zu)", p); const auto it = v.erase(pos(p)); m.erase(p, 1); PBT_CHECK(it - v.begin() == at(p)); } s.label("erase"); break;
			case 27: case 28: { TRACE("erase(%zu, %zu)", p, q); const auto it = v.erase(pos(p), pos(q)); m.erase(p, q - p); PBT_CHECK(it - v.begin() == at(p)); s.label("erase range"); break; }
			case 29: { t = text(p, q - p); TRACE("insert(%zu, view %s)", p, show(t).c_str()); const auto it = v.insert(pos(p), std::string_view{t}); m.insert(p, t); PBT_CHECK(it - v.begin() == at(p)); s.label("insert"); break; }
			case 30: case 31: { t = text(p, q - p); const auto k = s.raw(range_kinds); TRACE("insert(%zu, %s %s)", p, range_name(k), show(t).c_str()); const auto it = with_range(k, t, [&](auto f, auto l) { return v.insert(pos(p), f, l); }); m.insert(p, t); PBT_CHECK(it - v.begin() == at(p)); s.label("insert range"); break; }
			case 32: { list(p, q - p); const auto it = with_ilist(s, t, [&](std::initializer_list<char> il) { return v.insert(pos(p), il); }); TRACE("insert(%zu, ilist %zu)", p, t.size()); m.insert(p, t); PBT_CHECK(it - v.begin() == at(p)); s.label("insert"); break; }
			case 33: { const char c = byte(); TRACE("insert(%zu, %d)", p, c); const auto it = v.insert(pos(p), c); m.insert(p, 1, c); PBT_CHECK(it - v.begin() == at(p)); s.label("insert"); break; }
			case 34: { const auto k = amount(q - p); const char c = byte(); TRACE("insert(%zu, %zu, %d)", p, k, c); const auto it = v.insert(pos(p), k, c); m.insert(p, k, c); PBT_CHECK(it - v.begin() == at(p)); s.label("insert"); break; }
			case 35: t = text(p, q - p); TRACE("replace(%zu, %zu, view %s)", p, q, show(t).c_str()); PBT_CHECK(&v.replace(pos(p), pos(q), std::string_view{t}) == &v); m.replace(p, q - p, t); s.label("replace"); break;
			case 36: case 37: { t = text(p, q - p); const auto k = s.raw(range_kinds); TRACE("replace(%zu, %zu, %s %s)", p, q, range_name(k), show(t).c_str()); with_range(k, t, [&](auto f, auto l) { PBT_CHECK(&v.replace(pos(p), pos(q), f, l) == &v); }); m.replace(p, q - p, t); s.label("replace range"); break; }
			case 38: list(p, q - p), with_ilist(s, t, [&](std::initializer_list<char> il) { PBT_CHECK(&v.replace(pos(p), pos(q), il) == &v); }); TRACE("replace(%zu, %zu, ilist %zu)", p, q, t.size()); m.replace(p, q - p, t); s.label("replace"); break;
			case 39: { const auto k = amount(q - p); const char c = byte(); TRACE("replace(%zu, %zu, %zu, %d)", p, q, k, c); PBT_CHECK(&v.replace(pos(p), pos(q), k, c) == &v); m.replace(p, q - p, k, c); s.label("replace"); break; }
			case 40: {
				const auto how = s.raw(4);
				TRACE("substr %d (%zu, %zu)", static_cast<int>(how), p, q - p);
				if(how == 0) { const ptl::string & c = v; const auto r = c.substr(p); same(r, m.substr(p), "substr"); same(v, m, "source of substr"); }
				else if(how == 1) { const ptl::string & c = v; const auto r = c.substr(p, q - p); same(r, m.substr(p, q - p), "substr"); same(v, m, "source of substr"); }
				else if(how == 2) { auto r = std::move(v).substr(p); m = m.substr(p); same(r, m, "substr &&"); v = std::move(r); }
				else { auto r = std::move(v).substr(p, q - p); m = m.substr(p, q - p); same(r, m, "substr &&"); v = std::move(r); }
				s.label("substr");
				break;
			}
			case 41: if(p < n) { // writes through accessors
				const char c = byte();
				const auto how = s.raw(6);
				TRACE("write %d at %zu through accessor %d", c, p, static_cast<int>(how));
				if(how == 0) { v[p] = c; m[p] = c; }
				else if(how == 1) { v.at(p) = c; m[p] = c; }
				else if(how == 2) { v.front() = c; m.front() = c; }
				else if(how == 3) { v.back() = c; m.back() = c; }
				else if(how == 4) { v.data()[p] = c; m[p] = c; }
				else { *(v.begin() + at(p)) = c; m[p] = c; }
				s.label("write");
				break;
			} break;
			case 42: TRACE("rebuilt:"); v = build(s, m); s.label("construct"); break;
			default: { TRACE("copies:"); ptl::string c{v}; same(c, m, "copy"); ptl::string d{std::move(c)}; same(d, m, "moved copy"); s.label("copy"); break; }
		}
	}
}
