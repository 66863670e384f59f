// PARTS 4
#include <ptl/vector.hpp>
#include "vecops.hpp"

enum Fault { allocation, element, iterator, kinds };
static const char * const fault_names[]{"allocation", "copy/construction of an element", "step of an iterator"};

template<typename E>
struct State {
	ptl::vector<E> v, o;
	static void fill(ptl::vector<E> & v, const std::vector<int> & m, std::size_t cap) {
		alloc::Lib l;
		if(cap) v.reserve(cap);
		for(const int x : m) { E e = vecops::Of<E>::make(x); v.push_back(std::move(e)); }
	}
	State(const std::vector<int> & m, std::size_t cap, const std::vector<int> & om, std::size_t ocap) {
		fill(v, m, cap);
		fill(o, om, ocap);
	}
};
static bool armed() { return alloc::depth > 0; }

template<typename E>
static void faults(pbt::Src & s) {
	const auto m = vecops::values(s, 30), om = vecops::values(s, 20);
	const auto cap = s.flip() ? 0 : m.size() + s.raw(20), ocap = s.flip() ? 0 : om.size() + s.raw(10);
	life::gate = nullptr;
	vecops::Plan p;
	auto wm = m, wom = om;
	std::size_t count[kinds]{};
	bool noexcept_op = false;
	{
		State<E> st(m, cap, om, ocap);
		static const int favoured[]{vecops::assign_range, vecops::insert_range, vecops::insert_count, vecops::assign_count, vecops::resize_val, vecops::insert_copy, vecops::push_copy, vecops::set_other};
		p = vecops::draw(s, m.size(), st.v.capacity(), s.flip() ? s.pick(favoured) : -1, 25);
		if(p.op == vecops::assign_range || p.op == vecops::insert_range || p.op == vecops::construct_range) p.kind = s.raw(4); // pointers, single-pass, forward, list
		if(!vecops::applicable(p, m.size()) || p.op == vecops::write) return;
		TRACE("%s elements, capacity %zu: %s; other: capacity %zu %s", vecops::Name<E>::get(), st.v.capacity(), vecops::show(m).c_str(), st.o.capacity(), vecops::show(om).c_str());
		vecops::trace(p);
		switch(p.op) {
			case vecops::pop: case vecops::clear: case vecops::shrink: case vecops::erase_one: case vecops::erase_range: case vecops::move_other: case vecops::swap_other: case vecops::construct_move: noexcept_op = true; break;
			case vecops::self_assign: noexcept_op = p.how == 1 || p.how == 2; break;
			default: break;
		}
		// how many fallible steps are there?
		life::gate = armed;
		alloc::requests = 0;
		life::steps = 0;
		vecops::faults = gen::Faults{};
		vecops::apply(p, st.v, st.o);
		count[allocation] = alloc::requests;
		count[element] = life::steps;
		count[iterator] = vecops::faults.steps;
		vecops::model(p, wm, wom);
		vecops::same(st.v, wm, "without a fault");
		vecops::same(st.o, wom, "without a fault");
	}
	std::size_t injected = 0;
	for(int kind = 0; kind < kinds; ++kind) for(std::size_t k = 1; k <= count[kind]; k = gen::next_fault(s, k, count[kind])) {
		life::gate = nullptr;
		State<E> st(m, cap, om, ocap);
		const auto blocks = alloc::live_blocks, elements = life::live;
		life::gate = armed;
		if(kind == allocation) { alloc::fail_at = k; alloc::failed = false; }
		else if(kind == element) { life::fuse = k; life::blown = false; }
		else { vecops::faults = gen::Faults{}; vecops::faults.fuse = k; }
		int caught = kinds;
		bool other_exception = false;
		try { vecops::apply(p, st.v, st.o); }
		catch(const std::bad_alloc &) { caught = allocation; }
		catch(const life::Boom &) { caught = element; }
		catch(const gen::IterBoom &) { caught = iterator; }
		catch(...) { other_exception = true; }
		const bool fired = kind == allocation ? alloc::failed : kind == element ? life::blown : vecops::faults.blown;
		alloc::fail_at = 0, life::fuse = 0, vecops::faults = gen::Faults{};
		PBT_CHECK(!other_exception, "%s: an unexpected exception", vecops::op_name(p.op));
		if(!fired) { // fewer steps than in the dry run: fine, the operation has to have worked
			PBT_CHECK(caught == kinds, "%s threw although nothing failed", vecops::op_name(p.op));
			vecops::same(st.v, wm, "no fault reached");
			continue;
		}
		++injected;
		char what[120];
		std::snprintf(what, sizeof what, "%s, failure of %s %zu of %zu", vecops::op_name(p.op), fault_names[kind], k, count[kind]);
		if(noexcept_op) {
			PBT_CHECK(caught == kinds, "%s: an operation declared unable to fail threw", what);
			vecops::same(st.v, wm, what);
			vecops::same(st.o, wom, what);
			continue;
		}
		PBT_CHECK(caught == kind, "%s: the exception did not reach the caller (%d)", what, caught);
		vecops::same(st.v, m, what);
		vecops::same(st.o, om, what);
		PBT_CHECK(alloc::live_blocks == blocks, "%s: %zu blocks are alive, before %zu", what, alloc::live_blocks, blocks);
		PBT_CHECK(life::live == elements, "%s: %zu elements are alive, before %zu", what, life::live, elements);
		// the vector is still usable: the same operation works now
		if(k % 4 == 1) {
			vecops::apply(p, st.v, st.o);
			vecops::same(st.v, wm, "repeated after the failure");
			vecops::same(st.o, wom, "repeated after the failure");
		}
	}
	s.evaluations(injected);
	s.label(vecops::op_name(p.op), injected);
	// under exhausted memory nothing but what needs memory fails
	{
		life::gate = nullptr;
		State<E> st(m, cap, om, ocap);
		alloc::failing_forever = true;
		bool threw = false;
		try { vecops::apply(p, st.v, st.o); } catch(const std::bad_alloc &) { threw = true; }
		alloc::failing_forever = false;
		PBT_CHECK(!threw || (count[allocation] > 0 && !noexcept_op), "%s threw for lack of memory it does not need", vecops::op_name(p.op));
		vecops::same(st.v, threw ? m : wm, "memory exhausted");
		vecops::same(st.o, threw ? om : wom, "memory exhausted");
	}
	if(injected) s.nontrivial();
	life::gate = nullptr;
}
#define RULE "at least one failure was injected; every allocation, every element copy/construction and every iterator step of the operation fails once"
#if IN_PART(0)
PBT_TEST(throwing, 40000, RULE) { faults<life::Elem<0, alignof(int), true>>(s); }
#endif
#define LARGE "at least one failure was injected; every allocation, and the first, the last and some other element copies and iterator steps fail once"
#if IN_PART(1)
PBT_TEST(large, 1500, LARGE) { s.large = true; faults<int>(s); }
PBT_TEST(ints, 40000, RULE) { faults<int>(s); }
#endif
#if IN_PART(2)
PBT_TEST(large_throwing, 150, LARGE) { s.large = true; faults<life::Elem<0, alignof(int), true>>(s); }
PBT_TEST(over_aligned, 15000, RULE) { faults<life::Elem<1, 64, true>>(s); }
#endif
#if IN_PART(3)
PBT_TEST(strings, 20000, RULE) { faults<ptl::string>(s); }
// constructors: nothing is left behind
PBT_TEST(constructors, 20000, RULE) {
	using E = life::Elem<2, alignof(int), true>;
	const auto t = vecops::values(s, 25);
	const auto kind = s.raw(6), range = s.raw(4);
	const int value = static_cast<int>(s.raw(100));
	TRACE("constructor %zu, range %zu, %s", static_cast<std::size_t>(kind), static_cast<std::size_t>(range), vecops::show(t).c_str());
	auto make = [&] {
		const E e(value);
		switch(kind) {
			case 0: { alloc::Lib l; ptl::vector<E> v(t.size()); break; }
			case 1: { alloc::Lib l; ptl::vector<E> v(t.size(), e); break; }
			case 2: vecops::with_range<E>(range, t, [&](auto f, auto l) { alloc::Lib lib; ptl::vector<E> v(f, l); PBT_CHECK(v.size() == t.size()); }); break;
			case 3: vecops::with_ilist<E>(std::vector<int>(5, value), [&](std::initializer_list<E> il) { alloc::Lib lib; ptl::vector<E> v(il); }); break;
			case 4: { ptl::vector<E> v; for(int x : t) v.push_back(E(x)); alloc::Lib l; ptl::vector<E> w(static_cast<const ptl::vector<E> &>(v)); break; }
			default: { ptl::vector<E> v; for(int x : t) v.push_back(E(x)); alloc::Lib l; ptl::vector<E> w(std::move(v)); break; }
		}
	};
	life::gate = armed;
	alloc::requests = 0, life::steps = 0, vecops::faults = gen::Faults{};
	make();
	const std::size_t count[]{alloc::requests, life::steps, vecops::faults.steps};
	std::size_t injected = 0;
	for(int f = 0; f < kinds; ++f) for(std::size_t k = 1; k <= count[f]; ++k) {
		if(f == allocation) { alloc::fail_at = k; alloc::failed = false; }
		else if(f == element) { life::fuse = k; life::blown = false; }
		else { vecops::faults = gen::Faults{}; vecops::faults.fuse = k; }
		int caught = kinds;
		try { make(); }
		catch(const std::bad_alloc &) { caught = allocation; }
		catch(const life::Boom &) { caught = element; }
		catch(const gen::IterBoom &) { caught = iterator; }
		const bool fired = f == allocation ? alloc::failed : f == element ? life::blown : vecops::faults.blown;
		alloc::fail_at = 0, life::fuse = 0, vecops::faults = gen::Faults{};
		PBT_CHECK(caught == (fired ? f : kinds), "constructor %d, %s %zu: the exception did not reach the caller", static_cast<int>(kind), fault_names[f], k);
		PBT_CHECK(alloc::live_blocks == 0 && life::live == 0, "constructor %d, %s %zu: %zu blocks and %zu elements left behind", static_cast<int>(kind), fault_names[f], k, alloc::live_blocks, life::live);
		++injected;
	}
	s.evaluations(injected);
	if(injected) s.nontrivial();
	life::gate = nullptr;
}
#endif
