#include <ptl/array.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
#include "common.hpp"

enum Cat : int { lref, clref, rref, crref };
inline const char * cat_name(int c) { static const char * const n[]{"&", "const &", "&&", "const &&"}; return n[c]; }
template<typename T> constexpr Cat cat() { return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? clref : lref) : (std::is_const_v<T> ? crref : rref); }

struct Arg { int v; };
struct Note { const Arg * p; Cat c; int v; };
// remembers what it was made from
template<int I> struct E {
	static inline int made, copies, moves, copy_assigned, move_assigned, alive;
	int n; Note got[3]; int state; // state: 0 value, 1 moved from
	static void zero() { made = copies = moves = copy_assigned = move_assigned = 0; }
	E() : n{0}, got{}, state{0} { ++made; ++alive; }
	template<typename... A, typename = std::enable_if_t<sizeof...(A) != 0 && (std::is_same_v<std::decay_t<A>, Arg> && ...)>>
	E(A &&... a) : n{sizeof...(A)}, got{Note{std::addressof(a), cat<A>(), a.v}...}, state{0} { ++made; ++alive; }
	E(const E & o) : n{o.n}, got{o.got[0], o.got[1], o.got[2]}, state{o.state} { ++copies; ++alive; }
	E(E && o) noexcept : n{o.n}, got{o.got[0], o.got[1], o.got[2]}, state{o.state} { ++moves; ++alive; o.state = 1; }
	E & operator=(const E & o) { n = o.n; for(int i = 0; i < 3; ++i) got[i] = o.got[i]; state = o.state; ++copy_assigned; return *this; }
	E & operator=(E && o) noexcept { n = o.n; for(int i = 0; i < 3; ++i) got[i] = o.got[i]; state = o.state; if(this != std::addressof(o)) o.state = 1; ++move_assigned; return *this; }
	~E() noexcept { --alive; }
	friend void swap(E & a, E & b) noexcept { E t{std::move(a)}; a = std::move(b); b = std::move(t); }
	static int copied() { return copies + copy_assigned; }
};
template<int I> struct O { int v; }; // other alternatives

template<typename F> static void as(int c, Arg & a, F && f) {
	switch(c) {
		case 0: f(a); break;
		case 1: f(std::as_const(a)); break;
		case 2: f(std::move(a)); break;
		default: f(std::move(std::as_const(a))); break;
	}
}
struct Call { int n; int c[3]; Arg a[3]; };
template<int Max, typename F> static void call(Call & k, F && f) {
	if constexpr(Max >= 1) if(k.n == 1) as(k.c[0], k.a[0], [&](auto && x) { f(std::forward<decltype(x)>(x)); });
	if constexpr(Max >= 2) if(k.n == 2) as(k.c[0], k.a[0], [&](auto && x) { as(k.c[1], k.a[1], [&](auto && y) { f(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
	if constexpr(Max >= 3) if(k.n == 3) as(k.c[0], k.a[0], [&](auto && x) { as(k.c[2], k.a[2], [&](auto && z) { f(std::forward<decltype(x)>(x), k.a[1], std::forward<decltype(z)>(z)); }); });
	if(k.n == 0) f();
}
template<typename T> static void arrived(const Call & k, const T & e, const char * what) {
	PBT_CHECK(e.state == 0 && e.n == k.n, "%s: made from %d arguments, given %d", what, e.n, k.n);
	for(int i = 0; i < k.n; ++i) {
		PBT_CHECK(e.got[i].p == &k.a[i], "%s: argument %d is another object", what, i);
		PBT_CHECK(e.got[i].c == k.c[i], "%s: argument %d arrived as %s, given as %s", what, i, cat_name(e.got[i].c), cat_name(k.c[i]));
		PBT_CHECK(e.got[i].v == k.a[i].v, "%s: argument %d had another value", what, i);
	}
}
static Call draw(pbt::Src & s, int most) {
	Call k{static_cast<int>(s.raw(most + 1)), {}, {{1}, {2}, {3}}};
	for(int i = 0; i < 3; ++i) { k.c[i] = static_cast<int>(s.raw(4)); k.a[i].v = static_cast<int>(s.raw(1000)); }
	if(k.n == 3) k.c[1] = lref;
	for(int i = 0; i < k.n; ++i) if(k.c[i] != lref && k.c[i] != clref) s.nontrivial();
	TRACE("%d arguments%s%s%s%s%s%s", k.n, k.n > 0 ? " " : "", k.n > 0 ? cat_name(k.c[0]) : "", k.n > 1 ? ", " : "", k.n > 1 ? cat_name(k.c[1]) : "", k.n > 2 ? ", " : "", k.n > 2 ? cat_name(k.c[2]) : "");
	return k;
}

PBT_TEST(emplaced_in_vector, 200000, "an argument is an rvalue") {
	using T = E<0>;
	const int before = T::alive;
	{
		ptl::vector<T> v;
		const auto size = s.raw(6);
		Arg old[6]{{10}, {11}, {12}, {13}, {14}, {15}};
		for(std::size_t i = 0; i < size; ++i) v.emplace_back(old[i]);
		if(s.flip()) v.reserve(size + s.raw(4)); else v.shrink_to_fit();
		auto k = draw(s, 3);
		const bool back = s.flip();
		const auto pos = back ? size : s.raw(size + 1);
		const bool fits = v.capacity() > v.size();
		TRACE("emplace at %zu of %zu, %s", static_cast<std::size_t>(pos), static_cast<std::size_t>(size), fits ? "fits" : "full");
		T::zero();
		call<3>(k, [&](auto &&... args) {
			if(back) { T & r = v.emplace_back(std::forward<decltype(args)>(args)...); PBT_CHECK(&r == &v.back()); }
			else { const auto it = v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(pos), std::forward<decltype(args)>(args)...); PBT_CHECK(it == v.begin() + static_cast<std::ptrdiff_t>(pos)); }
		});
		PBT_CHECK(T::made == 1, "%d objects were made", T::made);
		PBT_CHECK(T::copied() == 0, "%d objects were copied", T::copied());
		if(back && fits) PBT_CHECK(T::moves + T::move_assigned == 0, "an append that fits moved %d objects", T::moves + T::move_assigned);
		PBT_CHECK(v.size() == size + 1);
		for(std::size_t i = 0; i < v.size(); ++i) {
			if(i == pos) arrived(k, v[i], "new element");
			else PBT_CHECK(v[i].state == 0 && v[i].n == 1 && v[i].got[0].p == &old[i - (i > pos)], "another element changed");
		}
		// pushing a value: copied from a name, moved from a temporary
		T one{k.a[0]};
		const int c = static_cast<int>(s.raw(4));
		const auto where = s.raw(v.size() + 1);
		const bool push = s.flip();
		v.reserve(v.size() + s.raw(2));
		T::zero();
		const auto at = v.cbegin() + static_cast<std::ptrdiff_t>(where);
		if(push) switch(c) { case 0: v.push_back(one); break; case 1: v.push_back(std::as_const(one)); break; case 2: v.push_back(std::move(one)); break; default: v.push_back(std::move(std::as_const(one))); break; }
		else switch(c) { case 0: v.insert(at, one); break; case 1: v.insert(at, std::as_const(one)); break; case 2: v.insert(at, std::move(one)); break; default: v.insert(at, std::move(std::as_const(one))); break; }
		PBT_CHECK(T::made == 0);
		if(c == rref) PBT_CHECK(T::copied() == 0 && one.state == 1, "a temporary was copied");
		else PBT_CHECK(T::copied() == 1 && one.state == 0, "%d copies of a named object", T::copied());
		const T & put = push ? v.back() : v[where];
		PBT_CHECK(put.state == 0 && put.n == 1 && put.got[0].p == &k.a[0]);
	}
	PBT_CHECK(T::alive == before, "%d objects too many", T::alive - before);
}

PBT_TEST(emplaced_in_optional, 200000, "an argument is an rvalue") {
	using T = E<1>;
	using Opt = ptl::optional<T>;
	const int before = T::alive;
	{
		auto k = draw(s, 3);
		const auto how = s.raw(2);
		bool replaces = false;
		if(how == 0) {
			T::zero();
			call<3>(k, [&](auto &&... args) { const Opt o{std::in_place, std::forward<decltype(args)>(args)...}; PBT_CHECK(o.has_value()); arrived(k, *o, "in_place"); });
		} else {
			Opt o;
			Arg x{5};
			replaces = s.flip();
			if(replaces) o.emplace(x);
			T::zero();
			call<3>(k, [&](auto &&... args) { T & r = o.emplace(std::forward<decltype(args)>(args)...); PBT_CHECK(&r == &*o); });
			arrived(k, *o, "emplace");
		}
		PBT_CHECK(T::made == 1 && T::copied() == 0 && (replaces || T::moves + T::move_assigned == 0), "made %d, copied %d, moved %d", T::made, T::copied(), T::moves + T::move_assigned);
		// value_or: converts what it is given only if it is needed
		const bool full = s.flip(), temporary = s.flip();
		Arg x{7};
		Opt o;
		if(full) o.emplace(x);
		k.n = 1;
		T::zero();
		as(k.c[0], k.a[0], [&](auto && d) {
			using D = decltype(d);
			const T got = temporary ? std::move(o).value_or(std::forward<D>(d)) : std::as_const(o).value_or(std::forward<D>(d));
			if(!full) { arrived(k, got, "value_or"); PBT_CHECK(T::made == 1 && T::copied() == 0); }
			else PBT_CHECK(got.n == 1 && got.got[0].p == &x && T::made == 0 && T::copied() == !temporary && (*o).state == temporary, "value_or: made %d, copied %d", T::made, T::copied());
		});
		T held{x};
		const ptl::optional_ref<T> ref = full ? ptl::optional_ref<T>{held} : ptl::optional_ref<T>{};
		T::zero();
		as(k.c[1], k.a[0], [&](auto && d) {
			const T got = ref.value_or(std::forward<decltype(d)>(d));
			if(!full) { std::swap(k.c[0], k.c[1]); arrived(k, got, "value_or of a reference"); PBT_CHECK(T::made == 1 && T::copied() == 0); }
			else PBT_CHECK(got.n == 1 && got.got[0].p == &x && T::made == 0 && T::copied() == 1 && held.state == 0);
		});
		// a value: copied from a name, moved from a temporary; on construction and on assignment to an empty and a full optional
		const int c = static_cast<int>(s.raw(4));
		T one{k.a[2]};
		const auto verify = [&](const Opt & p) {
			PBT_CHECK(p.has_value() && p->state == 0 && p->n == 1 && p->got[0].p == &k.a[2] && T::made == 0);
			if(c == rref) PBT_CHECK(T::copied() == 0 && one.state == 1, "a temporary was copied");
			else PBT_CHECK(T::copied() == 1 && one.state == 0, "%d copies of a named object", T::copied());
		};
		T::zero();
		switch(s.raw(2)) {
			case 0: switch(c) { case 0: verify(Opt(one)); break; case 1: verify(Opt(std::as_const(one))); break; case 2: verify(Opt(std::move(one))); break; default: verify(Opt(std::move(std::as_const(one)))); break; } break;
			default: switch(c) { case 0: o = one; break; case 1: o = std::as_const(one); break; case 2: o = std::move(one); break; default: o = std::move(std::as_const(one)); break; } verify(o); break;
		}
	}
	PBT_CHECK(T::alive == before, "%d objects too many", T::alive - before);
}

PBT_TEST(emplaced_in_variant, 200000, "an argument is an rvalue") {
	using T = E<2>;
	using Var = ptl::variant<O<0>, T, O<1>>;
	const int before = T::alive;
	{
		auto k = draw(s, 3);
		const auto how = s.raw(4);
		TRACE("how %d", static_cast<int>(how));
		if(how < 2) {
			T::zero();
			call<3>(k, [&](auto &&... args) {
				const auto verify = [&](const Var & v) { PBT_CHECK(v.holds<T>()); arrived(k, v.get<T>(), "in_place"); };
				if(how == 0) verify(Var(std::in_place_type<T>, std::forward<decltype(args)>(args)...)); else verify(Var(std::in_place_index<1>, std::forward<decltype(args)>(args)...));
			});
			PBT_CHECK(T::moves + T::move_assigned == 0, "moved %d", T::moves);
		} else {
			Var v{O<1>{3}};
			Arg x{5};
			if(s.flip()) v.emplace<T>(x);
			T::zero();
			call<3>(k, [&](auto &&... args) { T & r = [&]() -> T & { if(how == 2) return v.emplace<T>(std::forward<decltype(args)>(args)...); else return v.emplace<1>(std::forward<decltype(args)>(args)...); }(); PBT_CHECK(&r == v.get_if<T>(), "emplace returned another object"); });
			arrived(k, v.get<T>(), "emplace");
		}
		PBT_CHECK(T::made == 1 && T::copied() == 0, "made %d, copied %d", T::made, T::copied());
		// a value
		const int c = static_cast<int>(s.raw(4));
		T one{k.a[2]};
		const auto verify = [&](const Var & p) {
			PBT_CHECK(p.holds<T>() && p.get<T>().state == 0 && p.get<T>().n == 1 && p.get<T>().got[0].p == &k.a[2] && T::made == 0);
			if(c == rref) PBT_CHECK(T::copied() == 0 && one.state == 1, "a temporary was copied");
			else PBT_CHECK(T::copied() == 1 && one.state == 0, "%d copies of a named object", T::copied());
		};
		Var v{O<1>{3}};
		Arg x{5};
		if(s.flip()) v.emplace<T>(x);
		T::zero();
		if(s.flip()) switch(c) { case 0: verify(Var(one)); break; case 1: verify(Var(std::as_const(one))); break; case 2: verify(Var(std::move(one))); break; default: verify(Var(std::move(std::as_const(one)))); break; }
		else { switch(c) { case 0: v = one; break; case 1: v = std::as_const(one); break; case 2: v = std::move(one); break; default: v = std::move(std::as_const(one)); break; } verify(v); }
	}
	PBT_CHECK(T::alive == before, "%d objects too many", T::alive - before);
}

PBT_TEST(put_into_tuple_and_array, 200000, "an argument is an rvalue") {
	using T = E<3>;
	const int before = T::alive;
	{
		auto k = draw(s, 2);
		k.n = 1 + static_cast<int>(s.raw(3));
		if(k.n == 3) k.c[1] = lref;
		T::zero();
		const auto single = [&](const T & e, int i) { PBT_CHECK(e.n == 1 && e.state == 0 && e.got[0].p == &k.a[i] && e.got[0].c == k.c[i] && e.got[0].v == k.a[i].v, "element %d was made from something else (as %s, given as %s)", i, cat_name(e.got[0].c), cat_name(k.c[i])); };
		const bool tuple = s.flip();
		call<3>(k, [&](auto &&... args) {
			constexpr std::size_t n = sizeof...(args);
			if constexpr(n == 1) { if(tuple) { const ptl::tuple<T> t{std::forward<decltype(args)>(args)...}; single(t.template get<0>(), 0); } else { const ptl::array<T, 1> a{std::forward<decltype(args)>(args)...}; single(a[0], 0); } }
			if constexpr(n == 2) { if(tuple) { const ptl::tuple<T, T> t{std::forward<decltype(args)>(args)...}; single(t.template get<0>(), 0); single(t.template get<1>(), 1); } else { const ptl::array<T, 2> a{std::forward<decltype(args)>(args)...}; single(a[0], 0); single(a[1], 1); } }
			if constexpr(n == 3) { if(tuple) { const ptl::tuple<T, T, T> t{std::forward<decltype(args)>(args)...}; single(t.template get<0>(), 0); single(t.template get<1>(), 1); single(t.template get<2>(), 2); } else { const ptl::array<T, 3> a{std::forward<decltype(args)>(args)...}; single(a[0], 0); single(a[1], 1); single(a[2], 2); } }
		});
		PBT_CHECK(T::made == k.n && T::copied() == 0 && T::moves + T::move_assigned == 0, "made %d, copied %d, moved %d", T::made, T::copied(), T::moves + T::move_assigned);
		// values of the element type
		T one{k.a[0]}, two{k.a[1]};
		const int c = static_cast<int>(s.raw(4));
		const auto verify = [&](const T & p, const T & q) {
			PBT_CHECK(p.state == 0 && q.state == 0 && p.got[0].p == &k.a[0] && q.got[0].p == &k.a[1] && T::made == 0);
			PBT_CHECK(one.state == (c & 1) && two.state == (c >> 1), "an object was moved from although it was named, or the other way round");
			PBT_CHECK(T::copied() == (c & 1 ? 0 : 1) + (c >> 1 ? 0 : 1) , "%d copies", T::copied());
		};
		const auto both = [&](auto && a, auto && b) {
			if(tuple) { const ptl::tuple<T, T> t{std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)}; verify(t.template get<0>(), t.template get<1>()); }
			else { const ptl::array<T, 2> t{std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)}; verify(t[0], t[1]); }
		};
		T::zero();
		switch(c) { case 0: both(one, two); break; case 1: both(std::move(one), two); break; case 2: both(one, std::move(two)); break; default: both(std::move(one), std::move(two)); break; }
	}
	PBT_CHECK(T::alive == before, "%d objects too many", T::alive - before);
}
