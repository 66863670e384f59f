// PARTS 3
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/string.hpp>
#include "common.hpp"
#include "../engine/tracked.hpp"
#include <memory>

template<int I> struct A { int v; friend bool operator==(const A & x, const A & y) { return x.v == y.v; } };
template<int I> constexpr std::size_t number(const A<I> &) { return I; }
// value category and constness as seen by a visitor
enum Cat : int { lref, clref, rref, crref };
inline const char * cat_name(int c) { static const char * const n[]{"&", "const &", "&&", "const &&"}; return n[c]; }
template<typename T> constexpr Cat cat() { // T of a forwarding reference T &&
	return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? clref : lref) : (std::is_const_v<T> ? crref : rref);
}
struct Seen { const void * object; std::size_t k; Cat c; int calls; int x; };
inline Seen seen;
struct Look { // one visitor for everything
	int tag{0};
	template<typename T> int operator()(T && t) { seen = {std::addressof(t), number(t), cat<T>(), seen.calls + 1, t.v}; return tag + 1; }
	template<typename T> int operator()(T && t) const { seen = {std::addressof(t), number(t), cat<T>(), seen.calls + 1, t.v}; return tag + 2; }
};

#if IN_PART(0)
template<typename T> static Seen note(T && t) { return Seen{std::addressof(t), number(t), cat<T>(), seen.calls + 1, t.v}; }
template<int... I>
static void variants(pbt::Src & s, std::integer_sequence<int, I...>) {
	using Var = ptl::variant<A<I>...>;
	constexpr std::size_t count = sizeof...(I);
	const auto k = s.raw(count);
	const int x = static_cast<int>(s.raw(10000));
	Var v{A<0>{-1}};
	static_cast<void>(((k == I && (s.flip() ? static_cast<void>(v = A<I>{x}) : static_cast<void>(v.template emplace<I>(A<I>{x})), true)) || ...));
	const Var & c = v;
	if(k) s.nontrivial();
	const auto how = s.raw(4);
	const auto visitor = s.raw(6);
	TRACE("alternative %zu of %zu value %d, visited as %s with visitor %d", static_cast<std::size_t>(k), count, x, cat_name(static_cast<int>(how)), static_cast<int>(visitor));
	seen = Seen{nullptr, 99, lref, 0, 0};
	int got = 0, want = 0;
	const auto go = [&](auto && vis) {
		using Vis = decltype(vis);
		switch(how) {
			case 0: got = v.visit(std::forward<Vis>(vis)); break;
			case 1: got = c.visit(std::forward<Vis>(vis)); break;
			case 2: got = std::move(v).visit(std::forward<Vis>(vis)); break;
			default: got = std::move(c).visit(std::forward<Vis>(vis)); break;
		}
	};
	switch(visitor) {
		case 0: { Look l{10}; go(l); want = 11; break; }                  // the visitor itself is called, as a non-const object
		case 1: { const Look l{20}; go(l); want = 22; break; }
		case 2: go(Look{30}); want = 31; break;
		case 3: { int calls = 0; go([&](auto && t) { ++calls; seen = note(std::forward<decltype(t)>(t)); return 41; }); PBT_CHECK(calls == 1); want = 41; break; }
		case 4: { // two visitors: overload resolution
			switch(how) {
				case 0: got = v.visit([](A<0> & t) { seen = note(t); return 50; }, [](auto & t) { seen = note(t); return 51; }); break;
				case 1: got = c.visit([](const A<0> & t) { seen = note(t); return 50; }, [](const auto & t) { seen = note(t); return 51; }); break;
				case 2: got = std::move(v).visit([](A<0> && t) { seen = note(std::move(t)); return 50; }, [](auto && t) { seen = note(std::move(t)); return 51; }); break;
				default: got = std::move(c).visit([](const A<0> && t) { seen = note(std::move(t)); return 50; }, [](auto && t) { seen = note(std::move(t)); return 51; }); break;
			}
			want = k == 0 ? 50 : 51;
			break;
		}
		default: { // three visitors which accept several alternatives each
			struct A01 { int operator()(const A<0> & t) const { seen = Seen{&t, 0, static_cast<Cat>(-1), seen.calls + 1, t.v}; return 60; } };
			const auto one = [](const A<1 % count> & t) { seen = Seen{&t, 1 % count, static_cast<Cat>(-1), seen.calls + 1, t.v}; return 61; };
			const auto rest = [](auto && t) { seen = Seen{&t, number(t), static_cast<Cat>(-1), seen.calls + 1, t.v}; return 62; };
			// const lvalue: exact matches win over the generic one; otherwise the generic one, which binds exactly, wins
			if constexpr(count > 1) {
				switch(how) {
					case 0: got = v.visit(A01{}, decltype(one){one}, decltype(rest){rest}); want = 62; break;
					case 1: got = c.visit(A01{}, decltype(one){one}, decltype(rest){rest}); want = k == 0 ? 60 : k == 1 ? 61 : 62; break;
					case 2: got = std::move(v).visit(A01{}, decltype(one){one}, decltype(rest){rest}); want = 62; break;
					default: got = std::move(c).visit(A01{}, decltype(one){one}, decltype(rest){rest}); want = 62; break;
				}
			} else { go(Look{0}); want = 1; }
			break;
		}
	}
	PBT_CHECK(seen.calls == 1, "the visitor was called %d times", seen.calls);
	PBT_CHECK(seen.k == k && seen.x == x, "the visitor received alternative %zu with %d, expected %zu with %d", seen.k, seen.x, static_cast<std::size_t>(k), x);
	PBT_CHECK(seen.object == static_cast<const void *>(&v), "the visitor received a copy");
	if(static_cast<int>(seen.c) != -1) PBT_CHECK(seen.c == static_cast<Cat>(how), "the visitor received %s, expected %s", cat_name(seen.c), cat_name(static_cast<int>(how)));
	PBT_CHECK(got == want, "visit returned %d, expected %d", got, want);
	// access agrees
	const auto access = [&](auto index) {
		constexpr std::size_t i = decltype(index)::value;
		using T = A<static_cast<int>(i)>;
		const bool held = i == k;
		static_assert(std::is_same_v<decltype(v.template get<T>()), T &> && std::is_same_v<decltype(c.template get<T>()), const T &> && std::is_same_v<decltype(std::move(v).template get<T>()), T &&> && std::is_same_v<decltype(std::move(c).template get<T>()), const T &&>);
		PBT_CHECK(v.template holds<T>() == held && (v.template get_if<T>() == reinterpret_cast<T *>(&v)) == held && (c.template get_if<T>() == reinterpret_cast<const T *>(&v)) == held, "holds/get_if of alternative %zu", i);
		PBT_CHECK((v.template get_if<T>() == nullptr) == !held && (c.template get_if<T>() == nullptr) == !held);
		for(int q = 0; q < 4; ++q) {
			bool thrown = false;
			const void * p = nullptr;
			try {
				if(q == 0) p = &v.template get<T>();
				else if(q == 1) p = &c.template get<T>();
				else if(q == 2) { T && r = std::move(v).template get<T>(); p = &r; }
				else { const T && r = std::move(c).template get<T>(); p = &r; }
			} catch(const std::bad_variant_access &) { thrown = true; }
			PBT_CHECK(thrown == !held && p == (held ? static_cast<const void *>(&v) : nullptr), "get %s of alternative %zu while %zu is held", cat_name(q), i, static_cast<std::size_t>(k));
		}
	};
	(access(std::integral_constant<std::size_t, I>{}), ...);
	// results: references, move-only values, nothing
	int & ref = v.visit([](auto & t) -> int & { return t.v; });
	PBT_CHECK(static_cast<void *>(&ref) == static_cast<void *>(&v), "a returned reference refers to another object");
	const int & cref = c.visit([](const auto & t) -> const int & { return t.v; });
	PBT_CHECK(&cref == &ref);
	const std::unique_ptr<int> u = v.visit([](auto & t) { return std::make_unique<int>(t.v); });
	PBT_CHECK(u && *u == x);
	const auto nothing = [](auto &) {};
	static_assert(std::is_void_v<decltype(v.visit(nothing))>);
	int side = 0;
	v.visit([&](auto & t) { side = t.v; t.v = x + 1; });
	PBT_CHECK(side == x && ref == x + 1, "a visitor's write is lost");
	{ // visitors which can only be moved, and which carry state
		auto token = std::make_unique<int>(x);
		int other = 0;
		const int r1 = v.visit([&, p = std::move(token)](A<0> & t) { return *p + t.v; }, [&, q = std::make_unique<int>(1)](auto & t) { other = *q; return t.v; });
		PBT_CHECK(r1 == (k == 0 ? 2 * x : x) + (k == 0 ? 1 : 1) && other == (k != 0), "a visitor which was moved in gave %d", r1);
		const int r2 = v.visit([n = 5](auto & t) mutable { return n++ + t.v; });
		PBT_CHECK(r2 == x + 6);
	}
	struct Stop { };
	bool stopped = false;
	try { v.visit([](auto &) { throw Stop{}; }); } catch(const Stop &) { stopped = true; }
	PBT_CHECK(stopped, "an exception of the visitor is lost");
}
PBT_TEST(variant, 200000, "an alternative other than the first is held") {
	static void (* const f[])(pbt::Src &){
		[](pbt::Src & s) { variants(s, std::make_integer_sequence<int, 1>{}); },
		[](pbt::Src & s) { variants(s, std::make_integer_sequence<int, 2>{}); },
		[](pbt::Src & s) { variants(s, std::make_integer_sequence<int, 3>{}); },
		[](pbt::Src & s) { variants(s, std::make_integer_sequence<int, 9>{}); }};
	s.pick(f)(s);
}
// overload resolution among visitors with conversions, against calling the overload set directly
template<typename... F> struct Overload : F... { using F::operator()...; };
template<typename... F> Overload(F...) -> Overload<F...>;
PBT_TEST(conversions, 100000, "an alternative other than the first is held") {
	using Var = ptl::variant<int, char, double, ptl::string, long>;
	const auto k = s.raw(5);
	const int x = static_cast<int>(s.raw(100));
	Var v{x};
	switch(k) { case 0: break; case 1: v = static_cast<char>(x); break; case 2: v = x + 0.5; break; case 3: v = ptl::string(static_cast<std::size_t>(x), 'x'); break; default: v = static_cast<long>(x); break; }
	TRACE("alternative %zu value %d", static_cast<std::size_t>(k), x);
	if(k) s.nontrivial();
	const auto run = [&](auto... f) {
		const Overload o{f...};
		const auto & c = v;
		const int got = c.visit(decltype(f){f}...), got2 = v.visit(decltype(f){f}...);
		int want = -1, want2 = -1;
		switch(k) {
			case 0: want = o(c.get<int>()); want2 = o(v.get<int>()); break;
			case 1: want = o(c.get<char>()); want2 = o(v.get<char>()); break;
			case 2: want = o(c.get<double>()); want2 = o(v.get<double>()); break;
			case 3: want = o(c.get<ptl::string>()); want2 = o(v.get<ptl::string>()); break;
			default: want = o(c.get<long>()); want2 = o(v.get<long>()); break;
		}
		PBT_CHECK(got == want && got2 == want2, "visiting chose %d and %d, overload resolution chooses %d and %d", got, got2, want, want2);
	};
	switch(s.raw(4)) {
		case 0: run([](int) { return 1; }, [](double) { return 2; }, [](const ptl::string &) { return 3; }, [](long) { return 4; }); break;
		case 1: run([](std::string_view) { return 1; }, [](const auto &) { return 2; }); break;
		case 2: run([](double) { return 1; }, [](std::string_view t) { return static_cast<int>(t.size()); }); break;
		default: run([](int &) { return 1; }, [](const int &) { return 2; }, [](ptl::string &) { return 3; }, [](const ptl::string &) { return 4; }, [](double) { return 5; }, [](const long &) { return 6; }); break;
	}
}
#endif

#if IN_PART(1)
// variant_ref: bound to any of several objects, mutable or const
using R = ptl::variant_ref<A<0>, const A<0>, A<1>, A<2>, const A<3>, A<4>, const A<4>>;
PBT_TEST(variant_ref, 200000, "bound to something other than the first type") {
	A<0> a{static_cast<int>(s.raw(1000))};
	A<1> b{static_cast<int>(s.raw(1000))};
	A<2> c{static_cast<int>(s.raw(1000))};
	A<3> d{static_cast<int>(s.raw(1000))};
	A<4> e{static_cast<int>(s.raw(1000))};
	const auto k = s.raw(7);
	const auto make = [&](std::size_t k) -> R {
		switch(k) {
			case 0: return a;
			case 1: return static_cast<const A<0> &>(a);
			case 2: return b;
			case 3: return c;
			case 4: return d;      // only const A<3> is admissible
			case 5: return e;
			default: return static_cast<const A<4> &>(e);
		}
	};
	const void * const objects[]{&a, &a, &b, &c, &d, &e, &e};
	const std::size_t numbers[]{0, 0, 1, 2, 3, 4, 4};
	const bool constant[]{false, true, false, false, true, false, true};
	R r = make(k);
	if(s.flip()) { r = make(s.raw(7)); r = make(k); }
	if(k) s.nontrivial();
	const auto visitor = s.raw(5);
	TRACE("bound to type %zu, visitor %d", static_cast<std::size_t>(k), static_cast<int>(visitor));
	seen = Seen{nullptr, 99, lref, 0, 0};
	int got = 0, want = 0;
	const R & cr = r;
	switch(visitor) {
		case 0: { Look l{10}; got = r.visit(l); want = 11; break; }
		case 1: { const Look l{20}; got = cr.visit(l); want = 22; break; }
		case 2: got = cr.visit(Look{30}); want = 31; break;
		case 3: got = R{r}.visit(Look{30}); want = 31; break;
		default: got = r.visit([](A<0> & t) { seen = Seen{&t, 0, lref, seen.calls + 1, t.v}; return 40; }, [](const A<0> & t) { seen = Seen{&t, 0, clref, seen.calls + 1, t.v}; return 41; },
		                       [](auto & t) { using T = std::remove_reference_t<decltype(t)>; seen = Seen{&t, number(t), std::is_const_v<T> ? clref : lref, seen.calls + 1, t.v}; return 42; }); want = k == 0 ? 40 : k == 1 ? 41 : 42; break;
	}
	PBT_CHECK(seen.calls == 1, "the visitor was called %d times", seen.calls);
	PBT_CHECK(seen.object == objects[k] && seen.k == numbers[k], "the visitor received another object (type %zu, expected %zu)", seen.k, numbers[k]);
	PBT_CHECK(seen.c == (constant[k] ? clref : lref), "the visitor received %s", cat_name(seen.c));
	PBT_CHECK(got == want, "visit returned %d, expected %d", got, want);
	const auto access = [&](auto t, std::size_t i) {
		using T = std::remove_pointer_t<decltype(t)>;
		static_assert(std::is_same_v<decltype(cr.get<T>()), T &> && std::is_same_v<decltype(cr.get_if<T>()), T *>);
		const bool held = i == k;
		PBT_CHECK(cr.holds<T>() == held, "holds of type %zu while bound to %zu", i, static_cast<std::size_t>(k));
		PBT_CHECK(static_cast<const void *>(cr.get_if<T>()) == (held ? objects[k] : nullptr), "get_if of type %zu while bound to %zu", i, static_cast<std::size_t>(k));
		bool thrown = false;
		const void * p = nullptr;
		try { p = &cr.get<T>(); } catch(const std::bad_variant_access &) { thrown = true; }
		PBT_CHECK(thrown == !held && p == (held ? objects[k] : nullptr), "get of type %zu while bound to %zu", i, static_cast<std::size_t>(k));
	};
	access(static_cast<A<0> *>(nullptr), 0);
	access(static_cast<const A<0> *>(nullptr), 1);
	access(static_cast<A<1> *>(nullptr), 2);
	access(static_cast<A<2> *>(nullptr), 3);
	access(static_cast<const A<3> *>(nullptr), 4);
	access(static_cast<A<4> *>(nullptr), 5);
	access(static_cast<const A<4> *>(nullptr), 6);
	const int & ref = r.visit([](auto & t) -> const int & { return t.v; });
	PBT_CHECK(static_cast<const void *>(&ref) == objects[k], "a returned reference refers to another object");
	const auto u = r.visit([](auto & t) { return std::make_unique<int>(t.v); });
	PBT_CHECK(*u == ref);
	struct Stop { };
	bool stopped = false;
	const int r1 = r.visit([p = std::make_unique<int>(1)](const A<0> &) { return *p; }, [p = std::make_unique<int>(2)](auto &) { return *p; });
	PBT_CHECK(r1 == (k == 1 ? 1 : 2), "a visitor which was moved in gave %d", r1);
	try { r.visit([](auto &) { throw Stop{}; }); } catch(const Stop &) { stopped = true; }
	PBT_CHECK(stopped, "an exception of the visitor is lost");
}
#endif

#if IN_PART(2)
// many alternatives: the one held is the one visited, wherever it stands
template<int... I, int... Held>
static void many(pbt::Src & s, std::integer_sequence<int, I...>, std::integer_sequence<int, Held...>) {
	using Var = ptl::variant<A<I>...>;
	using Ref = ptl::variant_ref<A<I>...>;
	constexpr int count = sizeof...(I);
	static constexpr int places[]{Held...};
	const int k = s.pick(places), x = static_cast<int>(s.raw(10000));
	TRACE("alternative %d of %d", k, count);
	if(k > 63) s.nontrivial();
	Var v{A<0>{-1}};
	static_cast<void>(((k == Held && (v.template emplace<A<Held>>(A<Held>{x}), true)) || ...));
	Var copy{v}, w{A<count - 1>{-2}};
	if(s.flip()) w = v; else w = std::move(copy);
	int calls = 0;
	std::size_t where = v.visit([&](auto & t) { ++calls; seen.x = t.v; return number(t); });
	PBT_CHECK(calls == 1 && where == static_cast<std::size_t>(k) && seen.x == x, "visited alternative %zu with %d, held %d with %d", where, seen.x, k, x);
	where = std::as_const(w).visit([&](const A<0> & t) { seen.x = t.v; return std::size_t{0}; }, [&](const A<count - 1> & t) { seen.x = t.v; return std::size_t{count - 1}; }, [&](const auto & t) { seen.x = t.v; return number(t); });
	PBT_CHECK(where == static_cast<std::size_t>(k) && seen.x == x, "visited alternative %zu of the copy with %d, held %d with %d", where, seen.x, k, x);
	int held = 0, offered = 0;
	static_cast<void>(((held += v.template holds<A<Held>>() ? Held + 1 : 0, offered += v.template get_if<A<Held>>() ? Held + 1 : 0), ...));
	PBT_CHECK(held == k + 1 && offered == k + 1, "holds %d, get_if %d, expected %d", held - 1, offered - 1, k);
	// a reference to whatever the variant holds
	A<0> first{-7};
	Ref r{first};
	v.visit([&](auto & t) { r = Ref{t}; });
	where = r.visit([&](auto & t) { seen.x = t.v; return number(t); });
	PBT_CHECK(where == static_cast<std::size_t>(k) && seen.x == x, "the reference visits type %zu with %d, bound to %d with %d", where, seen.x, k, x);
	held = offered = 0;
	static_cast<void>(((held += r.template holds<A<Held>>() ? Held + 1 : 0, offered += r.template get_if<A<Held>>() ? Held + 1 : 0), ...));
	PBT_CHECK(held == k + 1 && offered == k + 1, "reference: holds %d, get_if %d, expected %d", held - 1, offered - 1, k);
}
#ifdef PBT_THOROUGH
constexpr int FAR = 140;
using Places = std::integer_sequence<int, 0, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, FAR - 2, FAR - 1>;
#else
constexpr int FAR = 70;
using Places = std::integer_sequence<int, 0, 1, 2, 31, 32, 62, 63, 64, 65, FAR - 2, FAR - 1>;
#endif
PBT_TEST(many_alternatives, 20000, "an alternative behind the 63rd is held") { many(s, std::make_integer_sequence<int, FAR>{}, Places{}); }
#endif
