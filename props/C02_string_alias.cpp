#include <ptl/string.hpp>
#include "strops.hpp"

// one operation whose argument [a, b) lives inside v itself
static void alias_op(pbt::Src & s, ptl::string & v, std::string & m) {
	const auto n = m.size();
	const auto a = s.raw(n + 1), b = a + s.raw(n - a + 1);
	const auto p = s.raw(n + 1), q = p + s.raw(n - p + 1);
	const auto d = [](std::size_t i) { return static_cast<std::ptrdiff_t>(i); };
	const auto pos = [&](std::size_t i) { return v.cbegin() + d(i); };
	const std::string arg = m.substr(a, b - a), rev(arg.rbegin(), arg.rend());
	const std::string_view view{v.data() + a, b - a};
	const bool fits = m.size() + arg.size() <= v.capacity();
	TRACE("size %zu, capacity %zu, argument [%zu, %zu), position [%zu, %zu)", n, v.capacity(), a, b, p, q);
	s.label(fits ? "argument fits the spare capacity" : "reallocation needed");
	if(!arg.empty()) s.nontrivial();
	const auto kind = s.raw(7);
	// supply the aliased range as a view or one of several iterator pairs
	auto with = [&](auto f) {
		switch(kind) {
			case 0: return f(v.cbegin() + d(a), v.cbegin() + d(b));
			case 1: return f(v.begin() + d(a), v.begin() + d(b));
			case 2: return f(static_cast<const char *>(v.data()) + a, static_cast<const char *>(v.data()) + b);
			case 3: return f(v.data() + a, v.data() + b);
			case 4: { gen::StreamState st{v.data() + a, 0, b - a}; return f(gen::SinglePass{st}, gen::SinglePass{}); }
			case 5: return f(gen::Forward{v.data() + a}, gen::Forward{v.data() + b});
			default: return f(std::make_reverse_iterator(v.cbegin() + d(b)), std::make_reverse_iterator(v.cbegin() + d(a)));
		}
	};
	const std::string & got = kind == 6 ? rev : arg;
	const auto self = std::string{m};
	switch(s.raw(24)) {
		case 0: TRACE("= view"); PBT_CHECK(&(v = view) == &v); m = arg; s.label("assign"); break;
		case 1: TRACE("assign(view)"); v.assign(view); m = arg; s.label("assign"); break;
		case 2: TRACE("assign(iterators %d)", static_cast<int>(kind)); with([&](auto f, auto l) { v.assign(f, l); }); m = got; s.label("assign"); break;
		case 3: TRACE("append(view)"); v.append(view); m += arg; s.label("append"); break;
		case 4: TRACE("append(iterators %d)", static_cast<int>(kind)); with([&](auto f, auto l) { v.append(f, l); }); m += got; s.label("append"); break;
		case 5: TRACE("+= view"); v += view; m += arg; s.label("append"); break;
		case 6: TRACE("+= self"); v += v; m += self; s.label("append"); break;
		case 7: TRACE("append(self)"); v.append(v); m += self; s.label("append"); break;
		case 8: case 9: { TRACE("insert(view)"); const auto it = v.insert(pos(p), view); m.insert(p, arg); PBT_CHECK(it - v.begin() == d(p)); s.label("insert"); break; }
		case 10: case 11: { TRACE("insert(iterators %d)", static_cast<int>(kind)); const auto it = with([&](auto f, auto l) { return v.insert(pos(p), f, l); }); m.insert(p, got); PBT_CHECK(it - v.begin() == d(p)); s.label("insert"); break; }
		case 12: { TRACE("insert(self)"); const auto it = v.insert(pos(p), v); m.insert(p, self); PBT_CHECK(it - v.begin() == d(p)); s.label("insert"); break; }
		case 13: case 14: TRACE("replace(view)"); PBT_CHECK(&v.replace(pos(p), pos(q), view) == &v); m.replace(p, q - p, arg); s.label("replace"); break;
		case 15: case 16: TRACE("replace(iterators %d)", static_cast<int>(kind)); with([&](auto f, auto l) { v.replace(pos(p), pos(q), f, l); }); m.replace(p, q - p, got); s.label("replace"); break;
		case 17: TRACE("replace(self)"); v.replace(pos(p), pos(q), v); m.replace(p, q - p, self); s.label("replace"); break;
		case 18: if(n) { // one of its own characters
			const auto k = s.raw(n);
			const char c = m[k];
			const auto how = s.raw(7);
			const auto count = s.len(60);
			TRACE("own character %zu, how %d, count %zu", k, static_cast<int>(how), count);
			if(how == 0) { v.push_back(v[k]); m.push_back(c); }
			else if(how == 1) { v += v[k]; m += c; }
			else if(how == 2) { v.insert(pos(p), v[k]); m.insert(p, 1, c); }
			else if(how == 3) { v.insert(pos(p), count, v[k]); m.insert(p, count, c); }
			else if(how == 4) { v.resize(n + count, v[k]); m.resize(n + count, c); }
			else if(how == 5) { v.assign(count, v[k]); m.assign(count, c); }
			else { v.replace(pos(p), pos(q), count, v[k]); m.replace(p, q - p, count, c); }
			s.label("own character");
			break;
		} break;
		case 19: TRACE("= self"); v = static_cast<const ptl::string &>(v); s.label("self assignment"); break;
		case 20: TRACE("= v + v / view"); if(s.flip()) { v = v + v; m += self; } else { v = v + view; m += arg; } s.label("concatenation"); break;
		case 21: TRACE("= view + v"); v = view + v; m = arg + m; s.label("concatenation"); break;
		case 22: TRACE("= v.substr"); v = static_cast<const ptl::string &>(v).substr(a, b - a); m = arg; s.label("substr"); break;
		default: TRACE("= char + v + char"); if(n) { const auto k = s.raw(n); v = v[k] + v; m = self[k] + m; } s.label("concatenation"); break;
	}
}

PBT_TEST(alias, 800000, "the argument is a non-empty piece of the modified string") {
	std::string m;
	auto v = strops::build(s, m, 120);
	std::size_t n = 0;
	do {
		alias_op(s, v, m);
		strops::same(v, m, "after aliased operation");
	} while(m.size() < 3000 && s.more(n, 1, 4));
}

PBT_TEST(large, 6000, "the argument is a non-empty piece of the modified string") {
	s.large = true;
	std::string m;
	auto v = strops::build(s, m, 120);
	std::size_t n = 0;
	do {
		alias_op(s, v, m);
		strops::same(v, m, "after aliased operation");
		if(m.size() > 65535) s.label("strings of more than 65535 characters");
	} while(m.size() < 300000 && s.more(n, 1, 4));
}
