#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "vecops.hpp"
#include <sstream>

enum Fault { allocation, iterator, kinds };
static const char * const fault_names[]{"allocation", "step of an iterator"};

enum Op { push, append_view, append_range, append_ilist, append_count, plus_view, plus_other, plus_char, assign_view, assign_range, assign_ilist, assign_count, set_view, set_other, set_ilist,
	insert_view, insert_range, insert_ilist, insert_char, insert_count, replace_view, replace_range, replace_ilist, replace_count, reserve, resize, construct_range, construct_count, construct_copy, concat, substr, literal,
	first_noexcept, pop = first_noexcept, shrink, clear, erase_one, erase_range, move_other, move_construct, swap_other, substr_move, compare, iterate, op_count };
static const char * const op_names[]{"push_back", "append(view)", "append(range)", "append(ilist)", "append(n, c)", "+= view", "+= string", "+= char", "assign(view)", "assign(range)", "assign(ilist)", "assign(n, c)", "= view", "= string", "= ilist",
	"insert(view)", "insert(range)", "insert(ilist)", "insert(c)", "insert(n, c)", "replace(view)", "replace(range)", "replace(ilist)", "replace(n, c)", "reserve", "resize", "string(range)", "string(n, c)", "string(string)", "concatenation", "substr const &", "_s",
	"pop_back", "shrink_to_fit", "clear", "erase", "erase(range)", "= string &&", "string(string &&)", "swap", "substr &&", "comparison, hash", "iteration"};

struct Plan { int op; std::size_t p, q, count, kind, how; char c; std::string t; };

template<typename F>
static void with(const Plan & p, F f) {
	switch(p.kind) {
		case 0: f(p.t.data(), p.t.data() + p.t.size()); return;
		case 1: { vecops::Stream<char> st{p.t.data(), 0, p.t.size()}; f(vecops::SinglePass<char>{st}, vecops::SinglePass<char>{}); return; }
		case 2: f(vecops::Forward<char>{p.t.data(), p.t.data() + p.t.size()}, vecops::Forward<char>{p.t.data() + p.t.size(), p.t.data() + p.t.size()}); return;
		default: f(p.t.begin(), p.t.end()); return;
	}
}
static void apply(const Plan & p, ptl::string & v, ptl::string & o) {
	using namespace ptl::literals;
	const auto at = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
	const std::string_view t = p.t;
	const std::initializer_list<char> il{'i', 'n', 'i', 't', 'i', 'a', 'l', 'i', 'z', 'e', 'r', ' ', 'l', 'i', 's', 't', ' ', 'w', 'i', 't', 'h', ' ', '2', '8', ' ', 'c', 'h', 'r'};
	switch(p.op) {
		case push: LIB(v.push_back(p.c)); break;
		case append_view: LIB(v.append(t)); break;
		case append_range: with(p, [&](auto f, auto l) { LIB(v.append(f, l)); }); break;
		case append_ilist: if(p.how & 1) LIB(v.append(il)); else LIB(v += il); break;
		case append_count: LIB(v.append(p.count, p.c)); break;
		case plus_view: LIB(v += t); break;
		case plus_other: LIB(v += static_cast<const ptl::string &>(o)); break;
		case plus_char: LIB(v += p.c); break;
		case assign_view: LIB(v.assign(t)); break;
		case assign_range: with(p, [&](auto f, auto l) { LIB(v.assign(f, l)); }); break;
		case assign_ilist: LIB(v.assign(il)); break;
		case assign_count: LIB(v.assign(p.count, p.c)); break;
		case set_view: LIB(v = t); break;
		case set_other: LIB(v = static_cast<const ptl::string &>(o)); break;
		case set_ilist: LIB(v = il); break;
		case insert_view: LIB(v.insert(at(p.p), t)); break;
		case insert_range: with(p, [&](auto f, auto l) { LIB(v.insert(at(p.p), f, l)); }); break;
		case insert_ilist: LIB(v.insert(at(p.p), il)); break;
		case insert_char: LIB(v.insert(at(p.p), p.c)); break;
		case insert_count: LIB(v.insert(at(p.p), p.count, p.c)); break;
		case replace_view: LIB(v.replace(at(p.p), at(p.q), t)); break;
		case replace_range: with(p, [&](auto f, auto l) { LIB(v.replace(at(p.p), at(p.q), f, l)); }); break;
		case replace_ilist: LIB(v.replace(at(p.p), at(p.q), il)); break;
		case replace_count: LIB(v.replace(at(p.p), at(p.q), p.count, p.c)); break;
		case reserve: LIB(v.reserve(p.count)); break;
		case resize: if(p.how & 1) LIB(v.resize(p.count, p.c)); else LIB(v.resize(p.count)); break;
		case construct_range: with(p, [&](auto f, auto l) { alloc::Lib lib; v = ptl::string(f, l); }); break;
		case construct_count: { alloc::Lib lib; v = ptl::string(p.count, p.c); break; }
		case construct_copy: { alloc::Lib lib; v = ptl::string{static_cast<const ptl::string &>(o)}; break; }
		case concat: {
			alloc::Lib lib;
			if(p.how == 0) v = v + o;
			else if(p.how == 1) v = v + t;
			else if(p.how == 2) v = t + v;
			else if(p.how == 3) v = v + p.c;
			else v = p.c + v;
			break;
		}
		case substr: { alloc::Lib lib; const ptl::string & c = v; v = p.how & 1 ? c.substr(p.p) : c.substr(p.p, p.q - p.p); break; }
		case literal: { alloc::Lib lib; v = "a literal which does not fit the object itself"_s; break; }
		case pop: LIB(v.pop_back()); break;
		case shrink: LIB(v.shrink_to_fit()); break;
		case clear: LIB(v.clear()); break;
		case erase_one: LIB(v.erase(at(p.p))); break;
		case erase_range: LIB(v.erase(at(p.p), at(p.q))); break;
		case move_other: { alloc::Lib lib; v = std::move(o); o = ptl::string{}; break; }
		case move_construct: { alloc::Lib lib; ptl::string t{std::move(v)}; v = std::move(t); break; }
		case swap_other: LIB(v.swap(o)); break;
		case substr_move: { alloc::Lib lib; v = p.how & 1 ? std::move(v).substr(p.p) : std::move(v).substr(p.p, p.q - p.p); break; }
		case compare: { alloc::Lib lib; PBT_CHECK(v == v && !(v < v) && std::hash<ptl::string>{}(v) == std::hash<ptl::string>{}(v)); [[maybe_unused]] volatile bool b = v < o || v == t || t < v || v != o || v >= o; break; }
		default: { alloc::Lib lib; std::size_t n = 0; for(const char c : v) n += c == p.c; for(auto it = v.crbegin(); it != v.crend(); ++it) n -= *it == p.c; PBT_CHECK(n == 0); break; }
	}
}
static void same(const ptl::string & s, const std::string & m, const char * where) {
	PBT_CHECK(s.size() == m.size(), "%s: size %zu, expected %zu", where, s.size(), m.size());
	PBT_CHECK(std::memcmp(s.data(), m.data(), m.size()) == 0, "%s: content %s, expected %s", where, pbt::show(s.data(), s.size()).c_str(), pbt::show(m.data(), m.size()).c_str());
	PBT_CHECK(s.data()[m.size()] == 0, "%s: the terminating zero is gone", where);
	PBT_CHECK(s.capacity() >= s.size());
}
static std::string content(const ptl::string & s) { return {s.data(), s.size()}; }

struct State {
	ptl::string v, o;
	static void fill(ptl::string & v, const std::string & m, std::size_t cap) {
		alloc::Lib l;
		v.reserve(cap);
		v.append(std::string_view{m});
	}
	State(const std::string & m, std::size_t cap, const std::string & om, std::size_t ocap) { fill(v, m, cap); fill(o, om, ocap); }
};

static void faults(pbt::Src & s) {
	const auto m = gen::text(s, 120), om = gen::text(s, 80);
	const auto cap = s.flip() ? 0 : m.size() + s.raw(60), ocap = s.flip() ? 0 : om.size() + s.raw(30);
	Plan p{};
	static const int favoured[]{append_range, assign_range, insert_range, replace_range, construct_range};
	p.op = s.chance(1, 3) ? s.pick(favoured) : static_cast<int>(s.raw(op_count));
	p.p = s.raw(m.size() + 1);
	p.q = p.p + s.raw(m.size() - p.p + 1);
	p.count = s.len(200);
	p.kind = s.raw(4);
	p.how = s.raw(5);
	p.c = s.byte();
	p.t = gen::text(s, 100);
	if((p.op == pop && m.empty()) || (p.op == erase_one && p.p == m.size())) return;
	const bool noexcept_op = p.op >= first_noexcept;
	TRACE("string with %zu reserved: %s; other with %zu reserved: %s", cap, pbt::show(m.data(), m.size()).c_str(), ocap, pbt::show(om.data(), om.size()).c_str());
	TRACE("%s [%zu, %zu) count %zu range kind %zu how %zu char %d text %s", op_names[p.op], p.p, p.q, p.count, p.kind, p.how, p.c, pbt::show(p.t.data(), p.t.size()).c_str());
	std::string wm, wom;
	std::size_t count[kinds]{};
	{
		State st(m, cap, om, ocap);
		alloc::requests = 0;
		vecops::faults = gen::Faults{};
		apply(p, st.v, st.o);
		count[allocation] = alloc::requests;
		count[iterator] = vecops::faults.steps;
		wm = content(st.v), wom = content(st.o);
		same(st.v, wm, "without a fault");
	}
	std::size_t injected = 0;
	for(int kind = 0; kind < kinds; ++kind) for(std::size_t k = 1; k <= count[kind]; k = gen::next_fault(s, k, count[kind])) {
		State st(m, cap, om, ocap);
		const auto blocks = alloc::live_blocks;
		if(kind == allocation) { alloc::fail_at = k; alloc::failed = false; }
		else { vecops::faults = gen::Faults{}; vecops::faults.fuse = k; }
		int caught = kinds;
		bool other_exception = false;
		try { apply(p, st.v, st.o); }
		catch(const std::bad_alloc &) { caught = allocation; }
		catch(const gen::IterBoom &) { caught = iterator; }
		catch(...) { other_exception = true; }
		const bool fired = kind == allocation ? alloc::failed : vecops::faults.blown;
		alloc::fail_at = 0, vecops::faults = gen::Faults{};
		PBT_CHECK(!other_exception, "%s: an unexpected exception", op_names[p.op]);
		if(!fired) {
			PBT_CHECK(caught == kinds, "%s threw although nothing failed", op_names[p.op]);
			same(st.v, wm, "no fault reached");
			continue;
		}
		++injected;
		char what[120];
		std::snprintf(what, sizeof what, "%s, failure of %s %zu of %zu", op_names[p.op], fault_names[kind], k, count[kind]);
		if(noexcept_op) {
			PBT_CHECK(caught == kinds, "%s: an operation declared unable to fail threw", what);
			same(st.v, wm, what);
			same(st.o, wom, what);
			continue;
		}
		PBT_CHECK(caught == kind, "%s: the exception did not reach the caller (%d)", what, caught);
		same(st.v, m, what);
		same(st.o, om, what);
		PBT_CHECK(alloc::live_blocks == blocks, "%s: %zu blocks are alive, before %zu", what, alloc::live_blocks, blocks);
		if(k % 4 == 1) {
			apply(p, st.v, st.o);
			same(st.v, wm, "repeated after the failure");
			same(st.o, wom, "repeated after the failure");
		}
	}
	s.evaluations(injected);
	s.label(op_names[p.op], injected);
	{ // memory exhausted: operations which need none work
		State st(m, cap, om, ocap);
		alloc::failing_forever = true;
		bool threw = false;
		try { apply(p, st.v, st.o); } catch(const std::bad_alloc &) { threw = true; }
		alloc::failing_forever = false;
		PBT_CHECK(!threw || (count[allocation] > 0 && !noexcept_op), "%s threw for lack of memory it does not need", op_names[p.op]);
		same(st.v, threw ? m : wm, "memory exhausted");
		same(st.o, threw ? om : wom, "memory exhausted");
		if(noexcept_op) { s.nontrivial(); s.label("noexcept operation with memory exhausted"); }
	}
	if(injected) s.nontrivial();
}
PBT_TEST(faults, 110000, "at least one failure was injected; every allocation and every iterator step of the operation fails once") { faults(s); }
PBT_TEST(large, 3000, "at least one failure was injected; every allocation and the first, the last and some other iterator steps of the operation fail once") { s.large = true; faults(s); }
