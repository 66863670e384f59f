// PARTS 4
#include <ptl/function_ref.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "common.hpp"
#include "../engine/tracked.hpp"

using Elem = life::Elem<0>;
struct Tok { // move-only
	int v;
	explicit Tok(int v) noexcept : v{v} {}
	Tok(Tok && o) noexcept : v{o.v} { o.v = -1; }
	auto operator=(Tok &&) -> Tok & =delete;
};
struct Boom { int id; };
struct Log { int calls, id, state; bool as_const; const void * a, * b, * e; std::string btext, etext; int c, d; };
static Log log_;
static int fail_id = -1;     // the target which is to throw
static int pool[64];
struct Expect { int id, state; bool as_const; };

static int answer(int id, int state, int a, int c, int d) { return id * 100003 + state * 1009 + a * 101 + c * 7 + d; }
#define PARAMS int & a, const std::string & b, Tok c, Elem d, std::string && e
#define TYPES int &, const std::string &, Tok, Elem, std::string &&
#define PASS a, b, std::move(c), std::move(d), std::move(e)
template<typename R>
static R body(int id, int state, bool as_const, PARAMS) noexcept(false) {
	++log_.calls;
	log_.id = id; log_.state = state; log_.as_const = as_const;
	log_.a = &a; log_.b = &b; log_.e = &e;
	log_.btext = b; log_.etext = e; log_.c = c.v; log_.d = d.get();
	if(fail_id == id) throw Boom{id};
	const int r = answer(id, state, a, c.v, d.get());
	++a;
	e += '!';
	if constexpr(std::is_same_v<R, int> || std::is_same_v<R, long>) return r;
	else if constexpr(std::is_same_v<R, int &> || std::is_same_v<R, const int &>) return pool[id];
	else if constexpr(std::is_same_v<R, int &&>) return std::move(pool[id]);
	else if constexpr(std::is_same_v<R, Tok>) return Tok{r};
	else if constexpr(std::is_same_v<R, std::string>) return std::to_string(r);
	else if constexpr(std::is_same_v<R, Elem>) return Elem{r};
}
template<typename R, int Id, bool NE> static R function(PARAMS) noexcept(NE) { return body<R>(Id, 0, false, PASS); }
template<typename R, bool NE> struct Functor { // with state, not copyable, with overloads by constness
	int id, state;
	Functor(int id, int state) : id{id}, state{state} {}
	Functor(const Functor &) =delete;
	R operator()(PARAMS)       noexcept(NE) { const int old = state++; return body<R>(id, old, false, PASS); }
	R operator()(PARAMS) const noexcept(NE) { return body<R>(id, state, true, PASS); }
	void operator&() const =delete;
};
template<typename R, bool NE> struct Qualified { // invoked as an lvalue
	int id, state;
	R operator()(PARAMS) & noexcept(NE) { return body<R>(id, state, false, PASS); }
	R operator()(PARAMS) const & noexcept(NE) { return body<R>(id, state, true, PASS); }
	R operator()(PARAMS) && noexcept(NE) { return body<R>(-5, state, false, PASS); }
	R operator()(PARAMS) const && noexcept(NE) { return body<R>(-6, state, true, PASS); }
};
template<typename R, bool C, bool NE> struct Sig;
template<typename R> struct Sig<R, false, false> { using type = R(TYPES); using other = R(TYPES) const; };
template<typename R> struct Sig<R, true, false> { using type = R(TYPES) const; using other = R(TYPES); };
template<typename R> struct Sig<R, false, true> { using type = R(TYPES) noexcept; using other = R(TYPES) const noexcept; };
template<typename R> struct Sig<R, true, true> { using type = R(TYPES) const noexcept; using other = R(TYPES) noexcept; };

template<typename R, bool C, bool NE>
static void history(pbt::Src & s) {
	using F = ptl::function_ref<typename Sig<R, C, NE>::type>;
	using G = ptl::function_ref<typename Sig<R, !C, NE>::type>;
	static_assert(sizeof(F) == 2 * sizeof(void *) && std::is_nothrow_copy_constructible_v<F> && std::is_nothrow_copy_assignable_v<F> && !std::is_default_constructible_v<F>);
	static_assert(std::is_same_v<std::invoke_result_t<const F &, TYPES>, R> && std::is_nothrow_invocable_v<const F &, int &, const std::string &, Tok &&, Elem &&, std::string &&> == NE);
	fail_id = -1;
	int st = static_cast<int>(s.raw(50));
	Functor<R, NE> f2{2, st}, f3{3, st + 7};
	const Functor<R, NE> f4{4, st + 1};
	Qualified<R, NE> f5{5, st + 2};
	auto f6 = [state = st + 3](PARAMS) noexcept(NE) -> R { return body<R>(6, state, false, PASS); };
	int captured = st + 4;
	auto f7 = [&captured](PARAMS) mutable noexcept(NE) -> R { return body<R>(7, captured, false, PASS); };
	auto f8 = [&](auto && a, auto && b, Tok c, auto && d, auto && e) noexcept(NE) -> R { return body<R>(8, captured, false, a, b, std::move(c), std::forward<decltype(d)>(d), std::move(e)); };
	using P = R (*)(TYPES) noexcept(NE);
	const P p9 = function<R, 9, NE>;
	std::function<R(TYPES)> f10 = [](PARAMS) -> R { return body<R>(10, 0, false, PASS); };
	G f11{f2}; // a reference to another function reference
	const auto expect = [&](int id) -> Expect {
		switch(id) {
			case 2: return {2, f2.state, C};
			case 3: return {3, f3.state, C};
			case 4: return {4, f4.state, true};
			case 5: return {5, f5.state, C};
			case 6: return {6, st + 3, false};
			case 7: return {7, C ? 0 : captured, false};
			case 8: return {8, captured, false};
			case 11: return {2, f2.state, !C};
			default: return {id, 0, false};
		}
	};
	const auto call = [&](const F & f, int id, const char * where) {
		const Expect x = expect(id);
		int a = static_cast<int>(s.raw(100)), a0 = a;
		const std::string b = gen::text(s, 30), e0 = gen::text(s, 30);
		std::string e = e0;
		const int c = static_cast<int>(s.raw(100)), d = static_cast<int>(s.raw(100));
		const int r = answer(x.id, x.state, a, c, d);
		const bool boom = !NE && s.chance(1, 6);
		fail_id = boom ? x.id : -1;
		log_ = Log{};
		TRACE("call of target %d%s", id, boom ? ", which throws" : "");
		Elem el{d};
		const auto copies = life::copies;
		const bool lend = s.flip();
		const auto made = [&]() -> decltype(auto) { if(lend) return f(a, b, Tok{c}, el, std::move(e)); else return f(a, b, Tok{c}, std::move(el), std::move(e)); };
		bool thrown = false;
		try {
			if constexpr(std::is_void_v<R>) made();
			else {
				decltype(auto) got = made();
				static_assert(std::is_same_v<decltype(got), R>);
				if constexpr(std::is_reference_v<R>) PBT_CHECK(&got == &pool[x.id], "%s: the returned reference denotes another object", where);
				else if constexpr(std::is_same_v<R, Tok>) PBT_CHECK(got.v == r, "%s: result", where);
				else if constexpr(std::is_same_v<R, std::string>) PBT_CHECK(got == std::to_string(r), "%s: result", where);
				else if constexpr(std::is_same_v<R, Elem>) PBT_CHECK(got.get() == r, "%s: result", where);
				else PBT_CHECK(got == r, "%s: result %ld instead of %d", where, static_cast<long>(got), r);
			}
		} catch(const Boom & t) { thrown = true; PBT_CHECK(t.id == x.id, "%s: another exception", where); }
		fail_id = -1;
		PBT_CHECK(thrown == boom, "%s: the exception was lost", where);
		PBT_CHECK(log_.calls == 1, "%s: the target was called %d times", where, log_.calls);
		PBT_CHECK(log_.id == x.id && log_.state == x.state, "%s: target %d (state %d) was called instead of %d (state %d)", where, log_.id, log_.state, x.id, x.state);
		PBT_CHECK(log_.as_const == x.as_const, "%s: called as %s", where, log_.as_const ? "constant" : "mutable");
		PBT_CHECK(log_.a == &a && log_.b == &b && log_.e == &e, "%s: a reference parameter denotes another object", where);
		PBT_CHECK(log_.btext == b && log_.etext == e0 && log_.c == c && log_.d == d, "%s: an argument changed on the way", where);
		PBT_CHECK(life::copies - copies == (lend ? 1u : 0u), "%s: %zu copies of a by-value argument", where, life::copies - copies);
		if(lend) PBT_CHECK(el.get() == d);
		PBT_CHECK(a == a0 + !boom && e == e0 + (boom ? "" : "!"), "%s: an effect of the target is missing", where);
	};
	const auto bind = [&](auto go) { // go(reference, target)
		const auto id = static_cast<int>(s.raw(12));
		TRACE("bind to target %d", id);
		switch(id) {
			case 0: go(F{function<R, 0, NE>}, id); break;
			case 1: go(F{&function<R, 1, NE>}, id); break;
			case 2: go(F{f2}, id); break;
			case 3: { F t = f3; go(t, id); break; }
			case 4: if constexpr(C) { go(F{f4}, id); } else { F t{f4}; go(t, id); } break; // a constant functor
			case 5: if(s.flip()) go(F{f5}, id); else go(F{std::move(f5)}, id); break; // a reference does not consume
			case 6: if(s.flip()) go(F{f6}, id); else go(F{std::as_const(f6)}, id); break;
			case 7: if constexpr(!C) go(F{f7}, id); else go(F{function<R, 7, NE>}, id); break; // cannot be called as a constant
			case 8: go(F{f8}, id); break;
			case 9: { P p = p9; F t{p}; p = function<R, 0, NE>; go(t, id); go(F{p9}, id); go(F{*p9}, id); break; } // of a function pointer, the function is the target
			case 10: if constexpr(!NE) go(F{f10}, id); break;
			default: go(F{f11}, id); break;
		}
	};
	struct Ref { F f; int id; };
	std::vector<Ref> refs;
	bind([&](const F & f, int id) { if(refs.empty()) refs.push_back({f, id}); });
	if(refs.empty()) refs.push_back({F{f2}, 2});
	while(refs.size() < 3) refs.push_back(refs[0]);
	std::size_t n = 0;
	do {
		const auto i = s.raw(3), j = s.raw(3);
		const auto op = s.raw(8);
		TRACE("op %d: references %d and %d (to %d and %d)", static_cast<int>(op), static_cast<int>(i), static_cast<int>(j), refs[i].id, refs[j].id);
		switch(op) {
			case 0: case 1: bind([&](const F & f, int id) { call(f, id, "a new reference"); refs[i] = {f, id}; }); break;
			case 2: { auto & back = refs[i].f = refs[j].f; PBT_CHECK(&back == &refs[i].f); refs[i].id = refs[j].id; break; }
			case 3: { F t{refs[j].f}; refs[j].f = F{f3}; call(t, refs[j].id, "a copy of a reference assigned to"); refs[i] = {t, refs[j].id}; if(i != j) refs[j].id = 3; break; }
			case 4: captured += 5; ++f2.state; ++f3.state; f5.state += 2; s.nontrivial(); break; // references see the current state
			case 5: refs[i].f = function<R, 1, NE>; refs[i].id = 1; break;
			case 6: { const F t{std::move(refs[i].f)}; call(t, refs[i].id, "a moved reference"); break; }
			default: { const F & t = refs[i].f; call(t, refs[i].id, "a constant reference"); } break;
		}
		call(refs[i].f, refs[i].id, "after an operation");
		call(refs[j].f, refs[j].id, "the other reference");
		if(refs[i].id != refs[j].id) s.nontrivial();
	} while(s.more(n, 6, 20));
}
template<typename... R>
static void any_of(pbt::Src & s) {
	static void (* const f[])(pbt::Src &){history<R, false, false>..., history<R, true, false>..., history<R, false, true>..., history<R, true, true>...};
	s.pick(f)(s);
}
static const char rule[] = "references to several targets, or a target changed its state";
#if IN_PART(0)
PBT_TEST(values, 8000, rule) { any_of<int, void>(s); }
#endif
#if IN_PART(1)
PBT_TEST(references, 8000, rule) { any_of<int &, const int &, int &&>(s); }
#endif
#if IN_PART(2)
PBT_TEST(classes, 8000, rule) { any_of<Tok, std::string, Elem>(s); }
#endif
#if IN_PART(3)
// results and arguments are converted as a direct call would
static short narrow(long v) noexcept { return static_cast<short>(v % 1000); }
static int & same_object(int & v) { return v; }
static std::string text_of(const char * p) { return std::string{p} + "?"; }
static const std::string & longest(const std::string & a, const std::string & b) noexcept { return a.size() < b.size() ? b : a; }
static std::string && through(std::string && t) { return std::move(t); }
// signatures of one to nine parameters, with classes passed by value and by reference at every place
// (some signatures have a parameter of each kind, some have no rvalue reference, some have only values)
enum kind { by_value, by_const, by_rvalue, by_reference, by_int };
constexpr kind kind_of(std::size_t place, std::size_t shift) {
	if(shift == 8) return by_value;
	constexpr kind all[]{by_value, by_const, by_rvalue, by_int}, no_rvalue[]{by_value, by_const, by_reference, by_int};
	return (shift < 4 ? all : no_rvalue)[(place + shift) % 4];
}
template<kind> struct Param_ { using type = Elem; };
template<> struct Param_<by_const> { using type = const Elem &; };
template<> struct Param_<by_rvalue> { using type = Elem &&; };
template<> struct Param_<by_reference> { using type = Elem &; };
template<> struct Param_<by_int> { using type = int; };
template<std::size_t Place, std::size_t Shift> using Param = Param_<kind_of(Place, Shift)>;
template<typename P> static decltype(auto) lent(Elem & e) { if constexpr(std::is_same_v<P, int>) return e.get(); else if constexpr(std::is_same_v<P, Elem>) return (e); else return static_cast<P>(e); }
template<typename P> static decltype(auto) given_up(Elem & e) { if constexpr(std::is_same_v<P, int>) return e.get(); else if constexpr(std::is_same_v<P, Elem>) return std::move(e); else return static_cast<P>(e); }
template<std::size_t Shift, std::size_t... I>
static void arity(pbt::Src & s, std::index_sequence<I...>) {
	constexpr auto N = sizeof...(I);
	constexpr std::size_t values = (0 + ... + (kind_of(I, Shift) == by_value));
	Elem given[N]{(static_cast<void>(I), Elem{static_cast<int>(s.raw(1000))})...};
	int expected[N];
	for(std::size_t k = 0; k < N; ++k) expected[k] = given[k].get();
	int calls = 0;
	const auto target = [&](typename Param<I, Shift>::type... args) {
		++calls;
		const auto one = [&](std::size_t k, auto && x) {
			if constexpr(std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype(x)>>, int>) PBT_CHECK(x == expected[k], "parameter %zu of %zu", k, N);
			else {
				PBT_CHECK(x.get() == expected[k], "parameter %zu of %zu", k, N);
				if(kind_of(k, Shift) != by_value) PBT_CHECK(std::addressof(x) == std::addressof(given[k]), "parameter %zu of %zu is another object", k, N);
			}
		};
		(one(I, args), ...);
		return static_cast<long>(N);
	};
	const ptl::function_ref<long(typename Param<I, Shift>::type...)> f{target};
	const bool lend = s.flip();
	TRACE("%zu parameters, shift %zu%s", N, Shift, lend ? ", lent" : "");
	const auto copies = life::copies;
	long r;
	if(lend) r = f(lent<typename Param<I, Shift>::type>(given[I])...);
	else r = f(given_up<typename Param<I, Shift>::type>(given[I])...);
	PBT_CHECK(r == static_cast<long>(N) && calls == 1);
	PBT_CHECK(life::copies - copies == (lend ? values : 0u), "%zu copies of %zu values passed to %zu parameters", life::copies - copies, values, N);
}
template<std::size_t N>
static void arities(pbt::Src & s) {
	constexpr std::make_index_sequence<N> seq{};
	switch(s.raw(9)) {
		case 0: return arity<0>(s, seq);
		case 1: return arity<1>(s, seq);
		case 2: return arity<2>(s, seq);
		case 3: return arity<3>(s, seq);
		case 4: return arity<4>(s, seq);
		case 5: return arity<5>(s, seq);
		case 6: return arity<6>(s, seq);
		case 7: return arity<7>(s, seq);
		default: return arity<8>(s, seq);
	}
}
PBT_TEST(arities, 20000, "more than three parameters") {
	static void (* const f[])(pbt::Src &){arities<1>, arities<2>, arities<3>, arities<4>, arities<5>, arities<6>, arities<7>, arities<8>, arities<9>};
	const auto n = s.raw(9);
	if(n >= 3) s.nontrivial();
	f[n](s);
}
PBT_TEST(conversions, 15000, "every case") {
	const int v = static_cast<int>(s.raw(3000)) - 1500;
	ptl::function_ref<long(int)> f{narrow};
	PBT_CHECK(f(v) == v % 1000);
	ptl::function_ref<double(short) const noexcept> g{narrow};
	PBT_CHECK(g(static_cast<short>(v)) == v % 1000);
	int calls = 0;
	const auto counting = [&](auto...) { return ++calls; };
	ptl::function_ref<void(int, int, int)> h{counting};
	h(1, 2, 3);
	PBT_CHECK(calls == 1, "a discarded result: %d calls", calls);
	ptl::function_ref<void()> h0{counting};
	h0(); h0();
	PBT_CHECK(calls == 3);
	int obj = v;
	ptl::function_ref<const int &(int &)> r{same_object};
	PBT_CHECK(&r(obj) == &obj);
	ptl::function_ref<int(int &)> rv{same_object};
	PBT_CHECK(rv(obj) == v);
	auto t = gen::text(s, 50), u = gen::text(s, 50);
	ptl::function_ref<const std::string &(const std::string &, const std::string &) noexcept> l{longest};
	PBT_CHECK(&l(t, u) == (t.size() < u.size() ? &u : &t));
	ptl::function_ref<std::string(const char *)> c{text_of};
	PBT_CHECK(c(t.c_str()) == std::string{t.c_str()} + "?");
	ptl::function_ref<std::string &&(std::string &&)> m{through};
	PBT_CHECK(&static_cast<const std::string &>(m(std::move(t))) == &t);
	// deduction
	static_assert(std::is_same_v<decltype(ptl::function_ref{narrow}), ptl::function_ref<short(long) noexcept>>);
	static_assert(std::is_same_v<decltype(ptl::function_ref{&same_object}), ptl::function_ref<int &(int &)>>);
	ptl::function_ref d{longest};
	PBT_CHECK(&d(t, u) == &l(t, u));
	// a chain of references, rebinding the innermost
	ptl::function_ref<int()> z = counting;
	ptl::function_ref<long()> y{z};
	ptl::function_ref<void()> x{y};
	x();
	PBT_CHECK(calls == 4);
	const auto other = [&] { return calls = 100; };
	z = ptl::function_ref<int()>{other};
	x();
	PBT_CHECK(calls == 100, "a reference to a rebound reference calls the old target");
	// recursion through the reference
	struct Fact { ptl::function_ref<long(long)> * self; long operator()(long n) { return n < 2 ? 1 : n * (*self)(n - 1); } };
	Fact fact{nullptr};
	ptl::function_ref<long(long)> rec{fact};
	fact.self = &rec;
	long expected = 1;
	const auto k = static_cast<long>(s.raw(15));
	for(long i = 2; i <= k; ++i) expected *= i;
	PBT_CHECK(rec(k) == expected);
	// many parameters keep their order
	ptl::function_ref<std::string(char, int, const char *, double, long, unsigned char, std::string)> many = [](char a, int b, const char * c, double d, long e, unsigned char g_, std::string h_) {
		return std::string(1, a) + std::to_string(b) + c + std::to_string(d) + std::to_string(e) + std::to_string(g_) + h_;
	};
	(void)many; // its functor was a temporary: not called
	auto keep = [](char a, int b, const char * p, double e, long i, unsigned char j, std::string q) { return std::string(1, a) + std::to_string(b) + p + std::to_string(e) + std::to_string(i) + std::to_string(j) + q; };
	ptl::function_ref<std::string(char, int, const char *, double, long, unsigned char, std::string)> order{keep};
	PBT_CHECK(order('q', v, "mid", v * 0.5, v * 3l, 9, u) == keep('q', v, "mid", v * 0.5, v * 3l, 9, u));
	s.nontrivial();
}
#endif
