// PARTS 3
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/optional.hpp>
#include <array>
#include <memory>
#include <optional>
#include <string>
#include "common.hpp"

struct Evil { // hides its address
	int v;
	void operator&() const =delete;
	friend bool operator==(const Evil & a, const Evil & b) { return a.v == b.v; }
};
struct Base { int v; virtual ~Base() =default; friend bool operator==(const Base & a, const Base & b) { return a.v == b.v; } };
struct Left : Base { long l{}; };
template<typename T> struct Of { static T make(int v) { return static_cast<T>(v); } };
template<> struct Of<Evil> { static Evil make(int v) { return Evil{v}; } };
template<> struct Of<Base> { static Base make(int v) { Base r; r.v = v; return r; } };
template<> struct Of<Left> { static Left make(int v) { Left r; r.v = v; return r; } };
template<> struct Of<std::string> { static std::string make(int v) { return v % 2 ? std::string(40, 'x') + std::to_string(v) : std::to_string(v); } };
template<> struct Of<int *> { static int * make(int v) { static int pool[1000]; return pool + v; } };
template<> struct Of<ptl::optional<int>> { static ptl::optional<int> make(int v) { if(v % 3) return ptl::optional<int>{v}; return {}; } };
// copying is not needed to be referred to
struct Fixed { int v; Fixed(int v) : v{v} {} Fixed(const Fixed &) =delete; auto operator=(const Fixed & o) -> Fixed & { v = o.v; return *this; } friend bool operator==(const Fixed & a, const Fixed & b) { return a.v == b.v; } };
template<> struct Of<Fixed> { static Fixed make(int v) { return Fixed(v); } };


template<typename E> constexpr bool full = !std::is_same_v<E, Fixed> && !std::is_same_v<E, Base> && !std::is_same_v<E, Left>;
template<typename E> struct Boxes { std::optional<E> so, none; ptl::optional<E> po, nothing; };
struct NoBoxes { };
template<typename E, bool C>
static void optional_refs(pbt::Src & s) {
	using T = std::conditional_t<C, const E, E>;
	using R = ptl::optional_ref<T>;
	using O = Of<E>;
	static_assert(sizeof(R) == sizeof(void *) && std::is_nothrow_default_constructible_v<R> && std::is_nothrow_copy_constructible_v<R> && std::is_nothrow_copy_assignable_v<R>);
	static_assert(std::is_same_v<decltype(*std::declval<const R &>()), T &> && std::is_same_v<decltype(std::declval<const R &>().value()), T &> && std::is_same_v<decltype(std::declval<const R &>().operator->()), T *>);
	constexpr std::size_t N = 6;
	int codes[N];
	for(auto & c : codes) c = static_cast<int>(s.raw(200));
	E plain[2]{O::make(codes[0]), O::make(codes[1])};
	std::unique_ptr<E> up{new E(O::make(codes[2]))};
	std::shared_ptr<E> sp{new E(O::make(codes[3]))};
	std::conditional_t<full<E>, Boxes<E>, NoBoxes> b;
	E * object[N]{std::addressof(plain[0]), std::addressof(plain[1]), up.get(), sp.get(), nullptr, nullptr};
	if constexpr(full<E>) {
		b.so = O::make(codes[4]);
		b.po = O::make(codes[5]);
		object[4] = std::addressof(*b.so);
		object[5] = std::addressof(*b.po);
	}
	const auto count = full<E> ? N : 4;
	R refs[3];
	int target[3]{-1, -1, -1};
	const auto check = [&](const R & r, int t, const char * where) {
		PBT_CHECK(static_cast<bool>(r) == (t >= 0) && r.has_value() == (t >= 0), "%s: a reference claims to be %s", where, t < 0 ? "bound" : "empty");
		if(t < 0) {
			try { (void)r.value(); PBT_CHECK(false, "%s: value() of nothing does not throw", where); } catch(const std::bad_optional_access &) { }
		} else PBT_CHECK(std::addressof(*r) == object[t] && r.operator->() == object[t] && std::addressof(r.value()) == object[t], "%s: a reference designates another object than %d", where, t);
		if constexpr(std::is_copy_constructible_v<E>) {
			const int v = static_cast<int>(s.raw(200));
			const E e = O::make(v);
			const E got = r.value_or(e);
			PBT_CHECK(got == O::make(t < 0 ? v : codes[t]), "%s: value_or", where);
			const E moved = r.value_or(O::make(v));
			PBT_CHECK(moved == got && e == O::make(v), "%s: value_or of a temporary", where);
		}
	};
	const auto all = [&](const char * where) {
		for(std::size_t i = 0; i < count; ++i) PBT_CHECK(*object[i] == O::make(codes[i]), "%s: object %zu changed", where, i);
		for(int i = 0; i < 3; ++i) check(refs[i], target[i], where);
	};
	all("at first");
	std::size_t n = 0;
	do {
		const auto i = s.raw(3), j = s.raw(3);
		R & r = refs[i];
		const auto op = s.raw(6);
		TRACE("op %d: references %d and %d (at %d and %d)", static_cast<int>(op), static_cast<int>(i), static_cast<int>(j), target[i], target[j]);
		const auto bind = [&](const R & made, int t) { check(made, t, "a new reference"); r = made; target[i] = t; if(t >= 0) s.nontrivial(); };
		switch(op) {
			case 0: case 1: {
				const auto kind = s.raw(full<E> ? 26 : 16);
				const auto k = s.raw(count);
				TRACE("  bind to %d with kind %d", static_cast<int>(k), static_cast<int>(kind));
				E * p = object[k], * const cp = p, * null = nullptr;
				const E * pc = p;
				switch(kind) {
					case 0: bind(R{*p}, static_cast<int>(k)); break;
					case 1: { R t = *p; bind(t, static_cast<int>(k)); break; }
					case 2: r = *p; target[i] = static_cast<int>(k); break;
					case 3: bind(R{p}, static_cast<int>(k)); break;
					case 4: bind(R{cp}, static_cast<int>(k)); break;
					case 5: bind(R{null}, -1); break;
					case 6: r = p; target[i] = static_cast<int>(k); break;
					case 7: bind(R{up}, 2); break;
					case 8: { const auto & c = sp; bind(R{c}, 3); break; }
					case 9: { const std::unique_ptr<E> none; bind(R{none}, -1); break; }
					case 10: bind(R{}, -1); break;
					case 11: bind(R{std::nullopt}, -1); break;
					case 12: r = std::nullopt; target[i] = -1; break;
					case 13: { ptl::optional_ref<E> q{*p}; bind(R{q}, static_cast<int>(k)); const ptl::optional_ref<E> none; bind(R{none}, -1); break; }
					case 14: if constexpr(C) { bind(R{*pc}, static_cast<int>(k)); bind(R{pc}, static_cast<int>(k)); static_assert(std::is_same_v<decltype(ptl::optional_ref{pc}), R>); } else static_assert(!std::is_constructible_v<R, const E &> && !std::is_constructible_v<R, const E * &>); break;
					case 15: { ptl::optional_ref q{p}; static_assert(std::is_same_v<decltype(q), ptl::optional_ref<E>>); bind(R{q}, static_cast<int>(k)); break; }
					default: if constexpr(full<E>) switch(kind) {
						case 16: bind(R{b.so}, 4); break;
						case 17: bind(R{b.none}, -1); break;
						case 18: bind(R{b.po}, 5); break;
						case 19: bind(R{b.nothing}, -1); break;
						case 20: r = b.so; target[i] = 4; break;
						case 21: r = b.po; target[i] = 5; break;
						case 22: r = b.none; target[i] = -1; break;
						case 23: if constexpr(C) { bind(R{std::as_const(b.so)}, 4); bind(R{std::as_const(b.none)}, -1); } else static_assert(!std::is_constructible_v<R, const std::optional<E> &>); break;
						case 24: if constexpr(C) { bind(R{std::as_const(b.po)}, 5); bind(R{std::as_const(b.nothing)}, -1); } else static_assert(!std::is_constructible_v<R, const ptl::optional<E> &>); break;
						default: { ptl::optional_ref q{b.po}; static_assert(std::is_same_v<decltype(q), ptl::optional_ref<E>>); bind(R{q}, 5); break; }
					}
				}
				break;
			}
			case 2: { auto & back = r = refs[j]; PBT_CHECK(&back == &r); target[i] = target[j]; break; }
			case 3: { R t{refs[j]}; check(t, target[j], "a copied reference"); const R u{std::as_const(t)}; t = R{}; check(u, target[j], "a copied reference"); r = std::move(u); target[i] = target[j]; break; }
			case 4: { const auto k = s.raw(count); codes[k] = static_cast<int>(s.raw(200)); *object[k] = O::make(codes[k]); break; }
			default: if constexpr(!C) if(target[i] >= 0) {
				const auto t = target[i];
				codes[t] = static_cast<int>(s.raw(200));
				switch(s.raw(3)) { case 0: *r = O::make(codes[t]); break; case 1: r.value() = O::make(codes[t]); break; default: *r.operator->() = O::make(codes[t]); }
			}
		}
		all("after an operation");
	} while(s.more(n, 10, 30));
}

// ------------------------------------------------------------------------------------------------ variant references
template<typename T, typename... U> constexpr std::ptrdiff_t position() { std::ptrdiff_t r = -1, n = 0; ((std::is_same_v<T, U> && r < 0 ? void(r = n) : void(), ++n), ...); return r; }
template<typename... A>
struct Variants {
	using V = ptl::variant_ref<A...>;
	static_assert(sizeof(V) == 2 * sizeof(void *) && std::is_copy_constructible_v<V> && std::is_copy_assignable_v<V> && !std::is_default_constructible_v<V>);
	template<typename E> struct Pool { E e[2]{Of<E>::make(0), Of<E>::make(1)}; int codes[2]{}; };
	struct World : Pool<std::remove_const_t<A>>... { };
	struct Model { const void * p; std::ptrdiff_t index; };
	template<typename T> struct Types { };

	static void check(const V & v, const Model & m, const char * where) {
		const auto one = [&](auto tag) {
			using T = typename decltype(tag)::type;
			constexpr auto i = position<T, A...>();
			PBT_CHECK(v.template holds<T>() == (m.index == i), "%s: bound as number %td, but holds() of number %td is %d", where, m.index, i, v.template holds<T>());
			static_assert(std::is_same_v<decltype(v.template get_if<T>()), T *> && std::is_same_v<decltype(v.template get<T>()), T &>);
			const void * p = v.template get_if<T>();
			PBT_CHECK(p == (m.index == i ? m.p : nullptr), "%s: get_if of number %td yields another object", where, i);
			try { const void * q = std::addressof(v.template get<T>()); PBT_CHECK(m.index == i && q == m.p, "%s: get of number %td yields another object or does not throw", where, i); }
			catch(const std::bad_variant_access &) { PBT_CHECK(m.index != i, "%s: get of the bound alternative %td throws", where, i); }
		};
		(one(Tag<A>{}), ...);
		std::ptrdiff_t index = -1; const void * p = nullptr; int calls = 0;
		v.visit([&](auto & x) { ++calls; index = position<std::remove_reference_t<decltype(x)>, A...>(); p = std::addressof(x); });
		PBT_CHECK(calls == 1 && index == m.index && p == m.p, "%s: visit reaches another alternative or object", where);
		calls = 0; index = -1; p = nullptr;
		v.visit([&](A & x) { ++calls; index = position<A, A...>(); p = std::addressof(x); }...);
		PBT_CHECK(calls == 1 && index == m.index && p == m.p, "%s: visit with one visitor per alternative reaches another one", where);
	}
	template<typename T> struct Tag { using type = T; };
	template<typename E>
	static void step(pbt::Src & s, World & w, V & v, Model & m) { // bind to an object of type E
		Pool<E> & pool = w;
		const auto k = s.raw(2);
		E & e = pool.e[k];
		const E & c = e;
		constexpr auto mut = position<E, A...>(), con = position<const E, A...>();
		static_assert(std::is_constructible_v<V, E &> && std::is_constructible_v<V, const E &> == (con != -1) && std::is_constructible_v<V, E> == (con != -1) && std::is_constructible_v<V, const E> == (con != -1));
		static_assert(std::is_nothrow_constructible_v<V, E &>);
		const Model direct{std::addressof(e), mut != -1 ? mut : con}, constant{std::addressof(e), con};
		switch(s.raw(4)) {
			case 0: { V t{e}; check(t, direct, "a new reference"); v = t; m = direct; break; }
			case 1: v = e; m = direct; break;
			case 2: if constexpr(con != -1) { const V t{c}; check(t, constant, "a new reference to a constant"); v = t; m = constant; } break;
			default: if constexpr(con != -1 && std::is_copy_constructible_v<E>) {
				// a temporary can be bound for the duration of the call only
				const auto callee = [&](V t, const E & same) { check(t, Model{std::addressof(same), con}, "a reference to a temporary"); };
				E tmp = e;
				callee(std::move(tmp), tmp);
			}
		}
	}
	static void run(pbt::Src & s) {
		World w;
		void (* const steps[])(pbt::Src &, World &, V &, Model &){step<std::remove_const_t<A>>...};
		using First = std::remove_const_t<std::tuple_element_t<0, std::tuple<A...>>>;
		Pool<First> & first = w;
		constexpr auto mut = position<First, A...>();
		const Model init{std::addressof(first.e[0]), mut != -1 ? mut : position<const First, A...>()};
		V v[3]{first.e[0], first.e[0], first.e[0]};
		Model m[3]{init, init, init};
		const auto fill = [&](auto tag) { using E = typename decltype(tag)::type; Pool<E> & p = w; for(int i = 0; i < 2; ++i) { p.codes[i] = static_cast<int>(s.raw(200)); p.e[i] = Of<E>::make(p.codes[i]); } return 0; };
		(void)(fill(Tag<std::remove_const_t<A>>{}) + ...);
		std::size_t n = 0;
		do {
			const auto i = s.raw(3), j = s.raw(3);
			const auto op = s.raw(7);
			TRACE("op %d: references %d and %d", static_cast<int>(op), static_cast<int>(i), static_cast<int>(j));
			switch(op) {
				case 0: case 1: case 2: s.pick(steps)(s, w, v[i], m[i]); s.nontrivial(); break;
				case 3: { auto & back = v[i] = v[j]; PBT_CHECK(&back == &v[i]); m[i] = m[j]; break; }
				case 4: { V t{v[j]}; check(t, m[j], "a copied reference"); V u{std::as_const(v[j])}; check(u, m[j], "a copied reference"); v[i] = std::move(t); m[i] = m[j]; check(u, m[j], "a copied reference"); break; }
				case 5: { // write through
					const int code = static_cast<int>(s.raw(200));
					const auto write = [&](auto & x) {
						using E = std::remove_reference_t<decltype(x)>;
						if constexpr(!std::is_const_v<E>) { Pool<E> & p = w; x = Of<E>::make(code); for(int z = 0; z < 2; ++z) if(std::addressof(x) == std::addressof(p.e[z])) p.codes[z] = code; }
					};
					v[i].visit(write);
					break;
				}
				default: { const auto set = [&](auto tag) { using E = typename decltype(tag)::type; Pool<E> & p = w; p.codes[1] = 7; p.e[1] = Of<E>::make(7); return 0; }; (void)(set(Tag<std::remove_const_t<A>>{}) + ...); }
			}
			for(int z = 0; z < 3; ++z) check(v[z], m[z], "after an operation");
			const auto values = [&](auto tag) { using E = typename decltype(tag)::type; Pool<E> & p = w; for(int z = 0; z < 2; ++z) PBT_CHECK(p.e[z] == Of<E>::make(p.codes[z]), "an object changed"); return 0; };
			(void)(values(Tag<std::remove_const_t<A>>{}) + ...);
		} while(s.more(n, 8, 25));
	}
};
template<typename... C>
static void any_of(pbt::Src & s) {
	static void (* const f[])(pbt::Src &){C::run...};
	s.pick(f)(s);
}
#if IN_PART(0)
template<typename E> static void both(pbt::Src & s) { if(s.flip()) optional_refs<E, true>(s); else optional_refs<E, false>(s); }
PBT_TEST(optional_ref, 12000, "a reference is bound to an object") {
	static void (* const f[])(pbt::Src &){both<int>, both<std::string>, both<Evil>, both<Base>, both<Fixed>, both<char>};
	s.pick(f)(s);
}
#endif
#if IN_PART(1)
PBT_TEST(variant_ref, 8000, "a reference is bound to an object") { any_of<Variants<int>, Variants<const int>, Variants<int, long>, Variants<const std::string, char>, Variants<std::string, Evil, const double>, Variants<Base, Left>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(many, 4000, "a reference is bound to an object") { any_of<Variants<Left, Base, const Evil>, Variants<Fixed, const char, int *>, Variants<char, short, int, long, float, double, std::string, unsigned>, Variants<const char, const short, int, const long, float, const double, std::string, const Evil, unsigned char, const unsigned short, unsigned, unsigned long>>(s); }
// the same type as mutable and as constant: lvalues are bound with the constness they have
template<typename V>
static void mutable_and_constant_in(pbt::Src & s) {
	std::string a = gen::text(s, 40), b = gen::text(s, 40);
	const std::string & c = b;
	V v{a}, w{c};
	PBT_CHECK(v.template holds<std::string>() && !v.template holds<const std::string>() && v.template get_if<std::string>() == &a && !v.template get_if<const std::string>());
	PBT_CHECK(!w.template holds<std::string>() && w.template holds<const std::string>() && w.template get_if<const std::string>() == &b && !w.template get_if<std::string>());
	const auto temporary = [](V t, const std::string & e) { return t.template holds<const std::string>() && t.template get_if<const std::string>() == &e && !t.template holds<std::string>(); };
	std::string tmp = a;
	PBT_CHECK(temporary(std::move(tmp), tmp), "a temporary is bound as mutable");
	const auto kind = [](V t) { return t.visit([](std::string &) { return 1; }, [](const std::string &) { return 2; }, [](int &) { return 3; }, [](const auto &) { return 4; }); };
	int i = 0;
	PBT_CHECK(kind(a) == 1 && kind(c) == 2 && kind(std::string{a}) == 2 && kind(std::as_const(a)) == 2 && kind(i) == 3);
	v = w;
	PBT_CHECK(v.template holds<const std::string>() && a != b ? v.template get<const std::string>() == b : true);
	w = a;
	PBT_CHECK(w.template get_if<std::string>() == &a);
	w.template get<std::string>() += 'x';
	PBT_CHECK(v.template get<const std::string>() == b && &v.template get<const std::string>() == &b && a.back() == 'x');
	s.nontrivial();
}
PBT_TEST(mutable_and_constant, 10000, "every case") {
	using S = std::string; using C = const std::string;
	static void (* const f[])(pbt::Src &){mutable_and_constant_in<ptl::variant_ref<S, C, int>>, mutable_and_constant_in<ptl::variant_ref<C, S, int>>, mutable_and_constant_in<ptl::variant_ref<int, S, C>>, mutable_and_constant_in<ptl::variant_ref<int, C, S>>, mutable_and_constant_in<ptl::variant_ref<C, int, S>>, mutable_and_constant_in<ptl::variant_ref<char, S, const int, int, C, long>>, mutable_and_constant_in<ptl::variant_ref<char, int, C, const int, double, S>>};
	s.pick(f)(s);
}
#endif
