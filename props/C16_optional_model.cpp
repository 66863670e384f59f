#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <optional>
#include "vecops.hpp"

static const pbt::RegHook packed{[] { life::aligned = false; }, nullptr}; // optionals are packed
using Tracked = life::Elem<0>;
template<typename T> struct V {
	static T make(int v) { return vecops::Of<T>::make(v); }
	static int get(const T & t) { return vecops::Of<T>::get(t); }
};
template<> struct V<ptl::vector<int>> {
	static ptl::vector<int> make(int v) { return ptl::vector<int>(static_cast<std::size_t>(v % 30), v); }
	static int get(const ptl::vector<int> & v) { for(auto x : v) PBT_CHECK(x == v[0] && static_cast<std::size_t>(x % 30) == v.size()); return v.empty() ? -1 : v[0]; }
};
template<> struct V<ptl::optional<short>> {
	static ptl::optional<short> make(int v) { ptl::optional<short> r; if(v % 3) r = static_cast<short>(v); return r; }
	static int get(const ptl::optional<short> & v) { return v ? *v : -70000; }
};
template<typename T>
static void same(const ptl::optional<T> & v, const std::optional<T> & m, const char * where) {
	PBT_CHECK(v.has_value() == m.has_value() && static_cast<bool>(v) == m.has_value(), "%s: %s, expected %s", where, v.has_value() ? "engaged" : "empty", m.has_value() ? "engaged" : "empty");
	if(m) PBT_CHECK(V<T>::get(*v) == V<T>::get(*m), "%s: holds %d, expected %d", where, V<T>::get(*v), V<T>::get(*m));
}
// what an owning value holds after having been moved from depends on how it stored its content: give it a known value
template<typename T>
static void settle(ptl::optional<T> & v, std::optional<T> & m) {
	PBT_CHECK(v.has_value() == m.has_value(), "moving from the value changed the state of the optional");
	if constexpr(std::is_same_v<T, ptl::string> || std::is_same_v<T, ptl::vector<int>>) if(m) { *v = V<T>::make(1); *m = V<T>::make(1); }
}
template<typename T>
static void access(pbt::Src & s, ptl::optional<T> & v, std::optional<T> & m) {
	const auto & c = v;
	const auto how = s.raw(16);
	TRACE("  access %d", static_cast<int>(how));
	static_assert(std::is_same_v<decltype(*v), T &> && std::is_same_v<decltype(*c), const T &> && std::is_same_v<decltype(*std::move(v)), T &&> && std::is_same_v<decltype(*std::move(c)), const T &&>);
	static_assert(std::is_same_v<decltype(v.value()), T &> && std::is_same_v<decltype(c.value()), const T &> && std::is_same_v<decltype(std::move(v).value()), T &&> && std::is_same_v<decltype(std::move(c).value()), const T &&>);
	static_assert(std::is_same_v<decltype(v.operator->()), T *> && std::is_same_v<decltype(c.operator->()), const T *>);
	const auto object = static_cast<const void *>(std::addressof(v));
	const auto is = [&](const T & t) { PBT_CHECK(static_cast<const void *>(std::addressof(t)) == object, "access yields another object"); PBT_CHECK(V<T>::get(t) == V<T>::get(*m), "access yields %d, expected %d", V<T>::get(t), V<T>::get(*m)); };
	const auto checked = [&](auto f) {
		bool thrown = false;
		try { f(); } catch(const std::bad_optional_access &) { thrown = true; }
		PBT_CHECK(thrown == !m, "checked access %s", thrown ? "threw although engaged" : "did not throw although empty");
	};
	const int d = static_cast<int>(s.raw(500));
	switch(how) {
		case 0: if(m) is(*v); break;
		case 1: if(m) is(*c); break;
		case 2: if(m) is(*std::move(v)); break;
		case 3: if(m) is(*std::move(c)); break;
		case 4: checked([&] { is(v.value()); }); break;
		case 5: checked([&] { is(c.value()); }); break;
		case 6: checked([&] { is(std::move(v).value()); }); break;
		case 7: checked([&] { is(std::move(c).value()); }); break;
		case 8: if(m) is(*v.operator->()); break;
		case 9: if(m) is(*c.operator->()); break;
		case 10: { const T r = v.value_or(V<T>::make(d)), e = m.value_or(V<T>::make(d)); PBT_CHECK(V<T>::get(r) == V<T>::get(e), "value_or");
			if constexpr(std::is_same_v<T, Tracked>) { const T f = v.value_or(d), g = static_cast<ptl::optional<T> &&>(ptl::optional<T>{c}).value_or(d); PBT_CHECK(f.get() == e.get() && g.get() == e.get(), "value_or of a convertible value"); }
			break; }
		case 11: { const T x = V<T>::make(d); const T r = c.value_or(x), e = m.value_or(x); PBT_CHECK(V<T>::get(r) == V<T>::get(e), "value_or const"); break; }
		case 12: { const T r = std::move(v).value_or(V<T>::make(d)), e = std::move(m).value_or(V<T>::make(d)); PBT_CHECK(V<T>::get(r) == V<T>::get(e), "value_or &&"); settle(v, m); break; } // both lose their value the same way
		case 13: if(m) { *v = V<T>::make(d); *m = V<T>::make(d); } break;
		case 14: if(m) { v.value() = V<T>::make(d); *m = V<T>::make(d); } break;
		default: if(m) { T a = *std::move(v), b = *std::move(m); PBT_CHECK(V<T>::get(a) == V<T>::get(b)); settle(v, m); } break;
	}
}
template<typename T>
static void history(pbt::Src & s) {
	alloc::Lib lib;
	ptl::optional<T> v[3];
	std::optional<T> m[3];
	std::size_t n = 0, transitions = 0;
	constexpr bool tracked = std::is_same_v<T, Tracked>;
	do {
		const auto i = s.raw(3), j = s.raw(3);
		const int x = static_cast<int>(s.raw(500));
		const auto op = s.raw(28);
		TRACE("op %d on %zu with %zu value %d", static_cast<int>(op), static_cast<std::size_t>(i), static_cast<std::size_t>(j), x);
		auto & a = v[i]; auto & b = v[j];
		auto & p = m[i]; auto & q = m[j];
		const bool before = p.has_value();
		const auto back = [&](const ptl::optional<T> & r) { PBT_CHECK(&r == &a, "assignment does not return the object"); };
		switch(op) {
			case 0: { const T t = V<T>::make(x); back(a = t); p = t; break; }
			case 1: back(a = V<T>::make(x)); p = V<T>::make(x); break;
			case 2: back(a = std::nullopt); p = std::nullopt; break;
			case 3: a.reset(); p.reset(); break;
			case 4: back(a = static_cast<const ptl::optional<T> &>(b)); p = static_cast<const std::optional<T> &>(q); break;
			case 5: if(i != j) { back(a = std::move(b)); p = std::move(q); settle(b, q); } else { back(a = std::move(b)); } break; // self move assignment keeps the value
			case 6: a.swap(b); p.swap(q); break;
			case 7: swap(a, b); p.swap(q); break;
			case 8: std::swap(a, b); if(i != j) std::swap(p, q); break;
			case 9: { T & r = a.emplace(V<T>::make(x)); p.emplace(V<T>::make(x)); PBT_CHECK(std::addressof(r) == std::addressof(*a), "emplace returns another object"); break; }
			case 10: { const T t = V<T>::make(x); a.emplace(t); p.emplace(t); break; }
			case 11: { T & r = a.emplace(); p.emplace(); PBT_CHECK(std::addressof(r) == std::addressof(*a)); break; }
			case 12: if constexpr(tracked) { a.emplace(x, 5); p.emplace(x, 5); } else if constexpr(std::is_same_v<T, ptl::string>) { a.emplace(std::size_t{30}, 'c'); a = V<T>::make(x); p = V<T>::make(x); } break;
			case 13: if(p) { back(a = *a); } break;                                // aliasing
			case 14: if(q) { back(a = *b); p = *q; } break;
			case 15: if(p) { a.emplace(*a); T t(*p); p = std::move(t); } break;
			case 16: if(q && i != j) { back(a = std::move(*b)); p = std::move(*q); settle(b, q); } break;
			case 17: { ptl::optional<T> t{static_cast<const ptl::optional<T> &>(b)}; std::optional<T> u{static_cast<const std::optional<T> &>(q)}; same(t, u, "copy"); back(a = t); p = u; break; }
			case 18: if(i != j) { ptl::optional<T> t{std::move(b)}; std::optional<T> u{std::move(q)}; same(t, u, "moved"); back(a = std::move(t)); p = std::move(u); settle(b, q); } break;
			case 19: { const T t = V<T>::make(x); ptl::optional<T> c{t}, d{V<T>::make(x)}, e{std::in_place, t}, f = t; std::optional<T> u{t}; same(c, u, "constructed"); same(d, u, "constructed"); same(e, u, "constructed in place"); same(f, u, "converted"); back(a = std::move(e)); p = u; break; }
			case 20: { const ptl::optional<T> c{std::in_place}, d{std::nullopt}, e{}; PBT_CHECK(c && !d && !e && V<T>::get(*c) == V<T>::get(T{})); break; }
			case 21: if(p) { back(a = std::move(*a)); PBT_CHECK(a.has_value(), "assigning an optional its own value emptied it"); if constexpr(std::is_trivially_copyable_v<T>) PBT_CHECK(V<T>::get(*a) == V<T>::get(*p), "assigning an optional its own value"); else { if constexpr(tracked) (void)a->get(); *a = V<T>::make(x); p = V<T>::make(x); } } break; // the own value as rvalue: still there afterwards
			case 22: if(p) { const T t(*p); T & r = a.emplace(static_cast<const T &>(t)); PBT_CHECK(std::addressof(r) == std::addressof(*a)); } break;
			case 23: if(q) { T t(*q); p.emplace(std::move(t)); if(i != j) a.emplace(std::move(*b)); else { T u(*b); a.emplace(std::move(u)); } if(i != j) { PBT_CHECK(b.has_value()); *b = V<T>::make(x); *q = V<T>::make(x); } } break;
			case 24: if(q) { back(a = ptl::optional<T>{static_cast<const T &>(*b)}); p = std::optional<T>{*q}; } break;
			default: access(s, a, p); break;
		}
		if(before != p.has_value()) ++transitions;
		std::size_t engaged = 0;
		for(int k = 0; k < 3; ++k) { same(v[k], m[k], "after an operation"); engaged += v[k].has_value(); }
		if(tracked) PBT_CHECK(life::live == 2 * engaged, "%zu values are alive, expected %zu", life::live - engaged, engaged);
	} while(s.more(n, 10, 24));
	if(transitions > 1) s.nontrivial();
}
PBT_TEST(trivial, 60000, "an optional changed between empty and engaged at least twice") { switch(s.raw(4)) { case 0: return history<int>(s); case 1: return history<life::Pod3>(s); case 2: return history<life::Big>(s); default: return history<double>(s); } }
PBT_TEST(lists, 30000, "an optional changed between empty and engaged at least twice") { history<odd::List>(s); }
PBT_TEST(tracked, 60000, "an optional changed between empty and engaged at least twice") { history<Tracked>(s); }
PBT_TEST(owning, 60000, "an optional changed between empty and engaged at least twice") { if(s.flip()) history<ptl::string>(s); else history<ptl::vector<int>>(s); }
PBT_TEST(nested, 30000, "an optional changed between empty and engaged at least twice") { history<ptl::optional<short>>(s); }
