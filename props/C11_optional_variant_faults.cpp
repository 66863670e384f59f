// PARTS 2
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "vecops.hpp"

// Every operation is run once without a fault, counting its fallible steps (element constructions/copies, allocations), and then once per step with that step failing.
static const pbt::RegHook packed{[] { life::aligned = false; }, nullptr};
using X = life::Elem<0, alignof(int), true>;
using Y = life::Elem<1, alignof(int), true>;
using Safe = life::Elem<2>;
struct Conv { int v; operator int() const { life::step(); return v; } }; // the conversion of an argument may fail as well
template<typename T> struct V {
	static T make(int v) { return vecops::Of<T>::make(v); }
	static int get(const T & t) { return vecops::Of<T>::get(t); }
};
template<> struct V<ptl::vector<X>> {
	static ptl::vector<X> make(int v) { return ptl::vector<X>(static_cast<std::size_t>(v % 5 + 1), X(v)); }
	static int get(const ptl::vector<X> & v) { if(v.empty()) return -1; for(auto & x : v) PBT_CHECK(x.get() == v[0].get()); PBT_CHECK(v.size() == static_cast<std::size_t>(v[0].get() % 5 + 1), "a vector value is torn"); return v[0].get(); }
};
template<> struct V<std::monostate> { static std::monostate make(int) { return {}; } static int get(std::monostate) { return 0; } };

// runs f (which performs the operation on fresh objects and returns what to check afterwards) with each step failing in turn
struct Run { std::size_t fail; bool failed; };
template<typename F>
static void enumerate(pbt::Src & s, F f) {
	std::size_t steps = 0, failures = 0;
	for(std::size_t fail = 0; fail <= steps && fail < 40; ++fail) {
		Run r{fail, false};
		const auto taken = f(r);
		if(fail == 0) steps = taken;
		else failures += r.failed;
		s.evaluations(1);
	}
	if(failures) s.nontrivial();
	s.label("faults injected", failures);
}
// performs op with the r.fail-th fallible step failing; returns the number of steps
template<typename F>
static std::size_t attempt(Run & r, F op) {
	life::steps = 0;
	life::blown = false;
	alloc::requests = 0;
	// steps are shared: elements first, then (beyond them) allocations
	static std::size_t element_steps;
	if(r.fail == 0) element_steps = static_cast<std::size_t>(-1);
	life::fuse = r.fail && r.fail <= element_steps ? r.fail : 0;
	alloc::fail_at = r.fail && r.fail > element_steps ? r.fail - element_steps : 0;
	alloc::failed = false;
	try {
		alloc::Lib lib;
		op();
	} catch(const life::Boom &) { r.failed = true; PBT_CHECK(life::blown, "an unexpected exception"); }
	catch(const std::bad_alloc &) { r.failed = true; PBT_CHECK(alloc::failed, "an unexpected memory failure"); }
	life::fuse = 0;
	alloc::fail_at = 0;
	if(r.fail == 0) { PBT_CHECK(!r.failed); element_steps = life::steps; return life::steps + alloc::requests; }
	PBT_CHECK(r.failed == (life::blown || alloc::failed), "the failure of a step was swallowed");
	return 0;
}

#if IN_PART(0)
template<typename T>
static void optionals(pbt::Src & s) {
	const bool has = s.flip(), ohas = s.flip();
	const int a = static_cast<int>(s.raw(500)), b = static_cast<int>(s.raw(500)), c = static_cast<int>(s.raw(500));
	const auto op = s.raw(13);
	TRACE("optional: %s %d, other %s %d, operation %d with %d", has ? "engaged" : "empty", a, ohas ? "engaged" : "empty", b, static_cast<int>(op), c);
	enumerate(s, [&](Run & r) -> std::size_t {
		const auto live = life::live;
		const auto blocks = alloc::live_blocks;
		std::size_t steps = 0;
		{
			ptl::optional<T> v, o;
			T value = V<T>::make(c);
			{ alloc::Lib lib; if(has) v.emplace(V<T>::make(a)); if(ohas) o.emplace(V<T>::make(b)); }
			const auto mid = life::live;
			const int fresh = V<T>::get(T{});
			bool want = true, changes = true;
			int x = c;
			steps = attempt(r, [&] {
				switch(op) {
					case 0: v = static_cast<const T &>(value); break;
					case 1: v = static_cast<const ptl::optional<T> &>(o); want = ohas; x = b; break;
					case 2: v.emplace(static_cast<const T &>(value)); break;
					case 3: v.emplace(); x = fresh; break;
					case 4: if constexpr(vecops::is_elem<T>) v.emplace(c / 31, c % 31); else v.emplace(static_cast<const T &>(value)); break;
					case 12: if constexpr(vecops::is_elem<T>) v.emplace(Conv{c}); else v.emplace(static_cast<const T &>(value)); break;
					case 5: v = std::move(value); break;
					case 6: v = std::move(o); want = ohas; x = b; break;
					case 7: { const ptl::optional<T> t{static_cast<const ptl::optional<T> &>(o)}; PBT_CHECK(t.has_value() == ohas); if(t) PBT_CHECK(V<T>::get(*t) == b); changes = false; break; }
					case 8: { const ptl::optional<T> t{static_cast<const T &>(value)}; PBT_CHECK(t && V<T>::get(*t) == c); changes = false; break; }
					case 9: { const ptl::optional<T> t{std::in_place, static_cast<const T &>(value)}; PBT_CHECK(t && V<T>::get(*t) == c); changes = false; break; }
					case 10: v.swap(o); want = ohas; x = b; break;
					default: { const T t = static_cast<const ptl::optional<T> &>(v).value_or(static_cast<const T &>(value)); PBT_CHECK(V<T>::get(t) == (has ? a : c)); changes = false; break; }
				}
			});
			if(r.failed || !changes) { want = has; x = a; }
			if(r.failed) PBT_CHECK(op != 5 && op != 6 && op != 10, "an operation which cannot fail failed");
			PBT_CHECK(v.has_value() == want, "after %s: %s, expected %s", r.failed ? "a failure" : "success", v ? "engaged" : "empty", want ? "engaged" : "empty");
			if(v) PBT_CHECK(V<T>::get(*v) == x, "after %s: holds %d, expected %d", r.failed ? "a failure" : "success", V<T>::get(*v), x);
			if(r.failed) PBT_CHECK(life::live == mid, "%zu values are alive after a failure, expected %zu", life::live, mid);
			if(r.failed || (op != 6 && op != 10)) { PBT_CHECK(o.has_value() == ohas); if(o) PBT_CHECK(V<T>::get(*o) == b, "the source changed"); }
			if(op != 5) PBT_CHECK(V<T>::get(value) == c, "the source changed");
			v.reset();  // and it is still usable
			PBT_CHECK(!v);
			{ alloc::Lib lib; v = static_cast<const T &>(op == 5 ? (value = V<T>::make(c)) : value); }
			PBT_CHECK(v && V<T>::get(*v) == c);
		}
		PBT_CHECK(life::live == live, "%zu values leaked", life::live - live);
		PBT_CHECK(alloc::live_blocks == blocks, "%zu blocks leaked", alloc::live_blocks - blocks);
		return steps;
	});
}
PBT_TEST(optional, 120000, "at least one fault was injected") {
	switch(s.raw(4)) {
		case 0: case 1: return optionals<X>(s);
		case 2: return optionals<ptl::string>(s);
		default: return optionals<ptl::vector<X>>(s);
	}
}
#endif

#if IN_PART(1)
template<typename Var>
static void put(Var & v, std::size_t k, int x) { // store alternative k
	switch(k) {
		case 0: v = V<X>::make(x); break;
		case 1: v = V<ptl::string>::make(x); break;
		case 2: v = V<Y>::make(x); break;
		case 3: v = V<Safe>::make(x); break;
		case 4: v = V<ptl::vector<X>>::make(x); break;
		default: v = x; break;
	}
}
template<typename Var>
static void is(const Var & v, std::size_t k, int x, const char * where) {
	std::size_t calls = 0, which = 9;
	int got = 0;
	v.visit([&](const auto & t) {
		using T = std::decay_t<decltype(t)>;
		++calls;
		if constexpr(std::is_same_v<T, int>) { which = 5; got = t; }
		else {
			got = V<T>::get(t);
			which = std::is_same_v<T, X> ? 0 : std::is_same_v<T, ptl::string> ? 1 : std::is_same_v<T, Y> ? 2 : std::is_same_v<T, Safe> ? 3 : 4;
		}
	});
	PBT_CHECK(calls == 1 && which == k, "%s: holds alternative %zu, expected %zu", where, which, k);
	PBT_CHECK(got == x, "%s: holds %d, expected %d", where, got, x);
}
using Var = ptl::variant<X, ptl::string, Y, Safe, ptl::vector<X>, int>;
template<typename T>
static void variants(pbt::Src & s, std::size_t k) { // k: number of T among the alternatives
	const auto ka = s.raw(6), kb = s.raw(6);
	const int a = static_cast<int>(s.raw(500)), b = static_cast<int>(s.raw(500)), c = static_cast<int>(s.raw(500));
	const auto op = s.raw(12);
	TRACE("variant: alternative %zu value %d, other %zu value %d, operation %d with alternative %zu value %d", static_cast<std::size_t>(ka), a, static_cast<std::size_t>(kb), b, static_cast<int>(op), k, c);
	enumerate(s, [&](Run & r) -> std::size_t {
		const auto live = life::live;
		const auto blocks = alloc::live_blocks;
		std::size_t steps = 0;
		{
			T value = V<T>::make(c);
			Var v{1}, o{1};
			{ alloc::Lib lib; put(v, ka, a); put(o, kb, b); }
			const auto mid = life::live;
			const int fresh = V<T>::get(T{});
			bool changes = true;
			std::size_t wk = k;
			int x = c;
			steps = attempt(r, [&] {
				switch(op) {
					case 0: v = static_cast<const T &>(value); break;
					case 1: v = static_cast<const Var &>(o); wk = kb; x = b; break;
					case 2: { T & t = v.template emplace<T>(static_cast<const T &>(value)); PBT_CHECK(static_cast<void *>(std::addressof(t)) == static_cast<void *>(&v)); break; }
					case 3: v.template emplace<T>(); x = fresh; break;
					case 4: if constexpr(vecops::is_elem<T>) v.template emplace<T>(c / 31, c % 31); else v = value; break;
					case 5: v = std::move(value); break;
					case 6: v = std::move(o); wk = kb; x = b; break;
					case 7: { const Var t{static_cast<const Var &>(o)}; is(t, kb, b, "copy"); changes = false; break; }
					case 8: { const Var t{static_cast<const T &>(value)}; is(t, k, c, "constructed"); changes = false; break; }
					case 9: { const Var t{std::in_place_type<T>, static_cast<const T &>(value)}; is(t, k, c, "constructed in place"); changes = false; break; }
					case 10: v.swap(o); wk = kb; x = b; break;
					default: { if constexpr(vecops::is_elem<T>) v.template emplace<T>(Conv{c}); else { Var t{static_cast<const T &>(value)}; v = t; } break; }
				}
			});
			if(r.failed || !changes) { wk = ka; x = a; }
			if(r.failed) PBT_CHECK(op != 5 && op != 6 && op != 10, "an operation which cannot fail failed");
			is(v, wk, x, r.failed ? "after a failure" : "after success");
			if(r.failed) PBT_CHECK(life::live == mid, "%zu values are alive after a failure, expected %zu", life::live, mid);
			if(r.failed || (op != 6 && op != 10)) is(o, kb, b, "the source");
			if(op != 5) PBT_CHECK(V<T>::get(value) == c, "the source changed");
			{ alloc::Lib lib; put(v, kb, c); } // and it is still usable
			is(v, kb, c, "afterwards");
		}
		PBT_CHECK(life::live == live, "%zu values leaked", life::live - live);
		PBT_CHECK(alloc::live_blocks == blocks, "%zu blocks leaked", alloc::live_blocks - blocks);
		return steps;
	});
}
PBT_TEST(variant, 120000, "at least one fault was injected") {
	switch(s.raw(7)) {
		case 0: case 1: return variants<X>(s, 0);
		case 2: return variants<ptl::string>(s, 1);
		case 3: case 4: return variants<Y>(s, 2);
		case 5: return variants<Safe>(s, 3);
		default: return variants<ptl::vector<X>>(s, 4);
	}
}
#endif
