// Random vector operations as data: drawn once (Plan), applied to a ptl::vector of any element type (apply) and to a std::vector<int> model (model).
#pragma once
#include "common.hpp"
#include "../engine/tracked.hpp"
#include "odd.hpp"
#include <deque>
#include <iterator>
#include <sstream>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <vector>
#if __has_include(<ptl/string.hpp>)
#include <ptl/string.hpp>
#endif

namespace vecops {
	// element types: built from and read back as an int in [0, 2^20); value-initialised elements read as 0
	template<typename E> struct Of { static E make(int v) { return E(v); } static int get(const E & e) { return static_cast<int>(e); } };
	template<int T, std::size_t A, bool B> struct Of<life::Elem<T, A, B>> {
		static auto make(int v) { return life::Elem<T, A, B>(v); }
		static int get(const life::Elem<T, A, B> & e) { return e.get(); }
	};
	template<> struct Of<life::Pod3> {
		static auto make(int v) { return life::Pod3{static_cast<unsigned char>(v), static_cast<unsigned char>(v >> 8), static_cast<unsigned char>(v >> 16)}; }
		static int get(const life::Pod3 & e) { return e.a | e.b << 8 | e.c << 16; }
	};
	template<> struct Of<odd::List> { static auto make(int v) { return odd::List(v); } static int get(const odd::List & e) { return e.v; } };
	template<> struct Of<life::Big> {
		static auto make(int v) { return life::Big{{v, v * 2l, v * 3l, v * 5l, v * 7l}}; }
		static int get(const life::Big & e) {
			PBT_CHECK(e.v[1] == e.v[0] * 2 && e.v[2] == e.v[0] * 3 && e.v[3] == e.v[0] * 5 && e.v[4] == e.v[0] * 7, "an element is torn: %ld %ld %ld %ld %ld", e.v[0], e.v[1], e.v[2], e.v[3], e.v[4]);
			return static_cast<int>(e.v[0]);
		}
	};
	template<> struct Of<ptl::string> { // 0: empty; odd: long text
		static auto make(int v) {
			if(v == 0) return ptl::string{};
			char b[64];
			const int n = std::snprintf(b, sizeof b, v & 1 ? "a text long enough to be on the heap %d" : "%d", v);
			return ptl::string{b, b + n};
		}
		static int get(const ptl::string & e) {
			if(e.empty()) return 0;
			const char * p = e.c_str(), * d = std::strrchr(p, ' ');
			const int v = std::atoi(d ? d + 1 : p);
			PBT_CHECK(e == make(v), "a string element holds %s", pbt::show(e.data(), e.size()).c_str());
			return v;
		}
	};
	template<typename E> constexpr bool is_elem = false;
	template<int T, std::size_t A, bool B> constexpr bool is_elem<life::Elem<T, A, B>> = true;
	template<typename E> struct Name { static const char * get() { return "arithmetic"; } };
	template<int T, std::size_t A, bool B> struct Name<life::Elem<T, A, B>> { static const char * get() { return A > 16 ? "over-aligned tracked" : B ? "throwing tracked" : "tracked"; } };
	template<> struct Name<life::Pod3> { static const char * get() { return "3-byte trivial"; } };
	template<> struct Name<odd::List> { static const char * get() { return "constructible from lists of themselves"; } };
	template<> struct Name<life::Big> { static const char * get() { return "40-byte trivial"; } };
	template<> struct Name<ptl::string> { static const char * get() { return "string"; } };

	inline std::string show(const std::vector<int> & m) {
		std::string r = "[";
		for(std::size_t i = 0; i < m.size() && i < 60; ++i) r += (i ? " " : "") + std::to_string(m[i]);
		return r + (m.size() > 60 ? "...]" : "]");
	}
	template<typename E>
	std::vector<int> read(const ptl::vector<E> & v) {
		std::vector<int> r;
		for(std::size_t i = 0; i < v.size(); ++i) r.push_back(Of<E>::get(v.data()[i]));
		return r;
	}
	template<typename E>
	void same(const ptl::vector<E> & v, const std::vector<int> & m, const char * where) {
		PBT_CHECK(v.size() == m.size(), "%s: size %zu, expected %zu", where, v.size(), m.size());
		for(std::size_t i = 0; i < m.size(); ++i) {
			const int x = Of<E>::get(v.data()[i]);
			if(x != m[i]) pbt::fail("%s: element %zu is %d, expected %d; got %s expected %s", where, i, x, m[i], show(read(v)).c_str(), show(m).c_str());
		}
		PBT_CHECK(v.empty() == m.empty() && v.capacity() >= v.size(), "%s", where);
		PBT_CHECK(static_cast<std::size_t>(v.end() - v.begin()) == m.size() && (m.empty() || std::addressof(*v.begin()) == v.data()), "%s", where);
	}

	// iterators over a buffer of elements; every read (and single-pass step) may throw
#ifdef PBT_THREADS
	inline thread_local gen::Faults faults;
#else
	inline gen::Faults faults;
#endif
	inline const pbt::RegHook fault_hook{[] { faults = gen::Faults{}; }, nullptr};
	template<typename E> struct Stream { const E * data; std::size_t pos, size; };
	template<typename E>
	class SinglePass {
		Stream<E> * st{nullptr};
	public:
		using iterator_category = std::input_iterator_tag;
		using value_type = E;
		using difference_type = std::ptrdiff_t;
		using pointer = const E *;
		using reference = const E &;
		struct Proxy { const E * e; const E & operator*() const { return *e; } };

		SinglePass() =default;
		explicit SinglePass(Stream<E> & s) : st{&s} {}
		auto operator*() const -> const E & {
			if(st->pos >= st->size) pbt::fail("a single-pass iterator was read past its end");
			faults.step();
			return st->data[st->pos];
		}
		auto operator++() -> SinglePass & {
			if(st->pos >= st->size) pbt::fail("a single-pass iterator was advanced past its end");
			faults.step();
			++st->pos;
			return *this;
		}
		auto operator++(int) -> Proxy { Proxy p{&**this}; ++*this; return p; }
		bool at_end() const { return !st || st->pos >= st->size; }
		friend bool operator==(const SinglePass & a, const SinglePass & b) { return a.at_end() == b.at_end(); }
		friend bool operator!=(const SinglePass & a, const SinglePass & b) { return !(a == b); }
	};
	template<typename E>
	class Forward {
		const E * p{nullptr}, * last{nullptr};
	public:
		using iterator_category = std::forward_iterator_tag;
		using value_type = E;
		using difference_type = std::ptrdiff_t;
		using pointer = const E *;
		using reference = const E &;

		Forward() =default;
		Forward(const E * p, const E * last) : p{p}, last{last} {}
		auto operator*() const -> const E & {
			if(p == last) pbt::fail("a forward iterator was read past its end");
			faults.step();
			return *p;
		}
		auto operator++() -> Forward & {
			if(p == last) pbt::fail("a forward iterator was advanced past its end"); // does not throw: std::uninitialized_copy of libstdc++ leaks an element if it does
			++p;
			return *this;
		}
		auto operator++(int) -> Forward { auto t = *this; ++*this; return t; }
		friend bool operator==(const Forward & a, const Forward & b) { return a.p == b.p; }
		friend bool operator!=(const Forward & a, const Forward & b) { return a.p != b.p; }
	};
	constexpr std::size_t range_kinds = 12;
	inline const char * range_name(std::size_t k) {
		static const char * const n[]{"pointers", "single-pass iterators", "forward iterators", "list iterators", "forward_list iterators", "deque iterators", "ptl::vector iterators", "reverse iterators", "move iterators", "const ptl::vector iterators", "values of another type", "stream iterators"};
		return n[k];
	}
	template<typename E>
	std::vector<E> elements(const std::vector<int> & t) {
		std::vector<E> r;
		r.reserve(t.size());
		for(const int v : t) r.push_back(Of<E>::make(v));
		return r;
	}
	template<typename E, typename F>
	auto with_range(std::size_t kind, const std::vector<int> & t, F f) {
		auto src = elements<E>(t);
		switch(kind) {
			case 0: return f(src.data(), src.data() + src.size());
			case 1: { Stream<E> st{src.data(), 0, src.size()}; return f(SinglePass<E>{st}, SinglePass<E>{}); }
			case 2: return f(Forward<E>{src.data(), src.data() + src.size()}, Forward<E>{src.data() + src.size(), src.data() + src.size()});
			case 3: { std::list<E> l(src.begin(), src.end()); return f(l.begin(), l.end()); }
			case 4: { std::forward_list<E> l(src.begin(), src.end()); return f(l.cbegin(), l.cend()); }
			case 5: { std::deque<E> l(src.begin(), src.end()); return f(l.begin(), l.end()); }
			case 6: { ptl::vector<E> l(src.data(), src.data() + src.size()); return f(l.begin(), l.end()); }
			case 7: { std::vector<E> l(src.rbegin(), src.rend()); return f(l.rbegin(), l.rend()); }
			case 8: return f(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
			case 10: if constexpr(std::is_arithmetic_v<E>) { const std::vector<std::conditional_t<std::is_same_v<E, long>, int, long>> l(src.begin(), src.end()); return f(l.begin(), l.end()); } // converted on the way
			[[fallthrough]];
			case 11: if constexpr(std::is_arithmetic_v<E>) {
				std::ostringstream os;
				for(const E e : src) os << +e << ' ';
				std::istringstream is{os.str()};
				using Read = std::conditional_t<(sizeof(E) == 1), int, E>;
				return f(std::istream_iterator<Read>{is}, std::istream_iterator<Read>{});
			}
			[[fallthrough]];
			default: { const ptl::vector<E> l(src.data(), src.data() + src.size()); return f(l.begin(), l.end()); }
		}
	}
	constexpr std::size_t ilist_lens[]{0, 1, 2, 5, 10, 11, 12};
	template<typename E, typename F>
	auto with_ilist(const std::vector<int> & t, F f) {
		const auto e = elements<E>(t);
		const E * p = e.data();
		switch(t.size()) {
			case 0: return f(std::initializer_list<E>{});
			case 1: return f({p[0]});
			case 2: return f({p[0], p[1]});
			case 5: return f({p[0], p[1], p[2], p[3], p[4]});
			case 10: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]});
			case 11: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10]});
			default: return f({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]});
		}
	}

	enum Op { push_copy, push_move, emplace_back0, emplace_back1, pop, reserve, resize, resize_val, shrink, clear, assign_range, assign_ilist, assign_count, set_ilist, set_other, move_other, swap_other,
		erase_one, erase_range, insert_range, insert_ilist, insert_copy, insert_move, insert_count, emplace0, emplace1, construct_count, construct_count_val, construct_range, construct_ilist, construct_copy, construct_move,
		write, self_assign, op_count };
	inline const char * op_name(int o) {
		static const char * const n[]{"push_back(const &)", "push_back(&&)", "emplace_back()", "emplace_back(args)", "pop_back", "reserve", "resize(n)", "resize(n, value)", "shrink_to_fit", "clear", "assign(range)", "assign(ilist)", "assign(n, value)", "= ilist", "= other", "= move(other)", "swap(other)",
			"erase(pos)", "erase(range)", "insert(range)", "insert(ilist)", "insert(const &)", "insert(&&)", "insert(n, value)", "emplace()", "emplace(args)", "= vector(n)", "= vector(n, value)", "= vector(range)", "= vector(ilist)", "copy construct", "move construct",
			"write", "self assignment"};
		return n[o];
	}
	struct Plan {
		int op{0};
		std::size_t p{0}, q{0}, count{0}, kind{0}, how{0};
		int value{0};
		std::vector<int> t;
	};
	inline std::vector<int> values(pbt::Src & s, std::size_t max) {
		std::vector<int> r(s.len(max));
		if(r.size() > 2000 || s.chance(3, 4)) {
			int v = static_cast<int>(s.raw(1000));
			for(auto & x : r) x = v++;
		} else for(auto & x : r) x = static_cast<int>(s.raw(1000));
		return r;
	}
	// size: of the vector, spare: capacity - size
	inline Plan draw(pbt::Src & s, std::size_t size, std::size_t capacity, int op = -1, std::size_t max = 60) {
		Plan r;
		r.op = op >= 0 ? op : static_cast<int>(s.raw(op_count));
		r.p = s.raw(size + 1);
		r.q = r.p + s.raw(size - r.p + 1);
		r.how = s.raw(8);
		r.kind = s.raw(range_kinds);
		r.value = static_cast<int>(s.raw(1000));
		const auto spare = capacity - size;
		const auto amount = [&] { // fits exactly, just does not fit, or anything
			const auto k = s.raw(6);
			return k == 0 && spare <= max ? spare : k == 1 && spare < max ? spare + 1 : s.len(max);
		};
		switch(r.op) {
			case reserve: r.count = s.chance(1, 3) ? capacity + s.raw(3) : s.len(200); break;
			case resize: case resize_val: r.count = s.chance(1, 2) ? s.len(120) : s.flip() ? capacity + s.raw(2) : size + s.raw(5); break;
			case assign_count: case insert_count: case construct_count: case construct_count_val: r.count = amount(); break;
			case assign_ilist: case insert_ilist: case set_ilist: case construct_ilist: r.t.resize(s.pick(ilist_lens)); for(auto & x : r.t) x = static_cast<int>(s.raw(1000)); break;
			case assign_range: case insert_range: case construct_range: r.t = values(s, max); if(s.chance(1, 3)) { const auto n = amount(); r.t.resize(n, 7); } break;
			default: break;
		}
		return r;
	}
	// arguments which resemble what the vector holds: the same length, the same first and last values, few differences
	inline Plan resemble(pbt::Src & s, Plan r, const std::vector<int> & m) {
		if(m.empty() || m.size() > 5000 || !s.chance(1, 3)) return r;
		const auto n = m.size();
		const auto value = [&] { switch(s.raw(4)) { case 0: return m.front(); case 1: return m.back(); case 2: return m[std::min(r.p, n - 1)]; default: return m[s.raw(n)]; } };
		const auto alike = [&](std::size_t from, std::size_t count) {
			r.t.assign(m.begin() + static_cast<std::ptrdiff_t>(from), m.begin() + static_cast<std::ptrdiff_t>(from + count));
			for(auto k = s.raw(3); k && !r.t.empty(); --k) r.t[s.raw(r.t.size())] = s.flip() ? value() : static_cast<int>(s.raw(1000));
			if(s.chance(1, 4)) { if(s.flip()) r.t.push_back(value()); else if(!r.t.empty()) r.t.pop_back(); }
		};
		if(s.chance(3, 4)) r.value = value();
		switch(r.op) {
			case assign_count: case insert_count: case construct_count: case construct_count_val: case resize_val: if(s.chance(3, 4)) r.count = s.chance(3, 4) ? n : n + s.raw(3) - (n > 1); break;
			case assign_range: case construct_range: alike(0, n); break;
			case insert_range: { const auto from = s.raw(n); alike(from, s.raw(n - from) + 1); break; }
			case assign_ilist: case insert_ilist: case set_ilist: case construct_ilist: for(std::size_t i = 0; i < r.t.size(); ++i) if(s.chance(7, 8)) r.t[i] = m[i % n]; break;
			default: break;
		}
		return r;
	}
	inline void trace(const Plan & p) {
		TRACE("  %s pos %zu..%zu count %zu value %d how %zu %s %s", op_name(p.op), p.p, p.q, p.count, p.value, p.how, range_name(p.kind), show(p.t).c_str());
	}
	// can the operation be applied to a vector of that size?
	inline bool applicable(const Plan & p, std::size_t size) {
		switch(p.op) {
			case pop: return size > 0;
			case erase_one: case write: return p.p < size;
			default: return true;
		}
	}
	constexpr std::ptrdiff_t none = -1;
	// applies the operation; library code (only) runs inside alloc::Lib; returns the returned position, or none
	template<typename E>
	std::ptrdiff_t apply(const Plan & p, ptl::vector<E> & v, ptl::vector<E> & o) {
		using O = Of<E>;
		const auto at = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
		const auto off = [&](auto it) { return it - v.begin(); };
		const auto ref = [&](E & r) { return static_cast<std::ptrdiff_t>(std::addressof(r) - v.data()); };
		switch(p.op) {
			case push_copy: { const E e = O::make(p.value); return ref(LIB(v.push_back(e))); }
			case push_move: { E e = O::make(p.value); return ref(LIB(v.push_back(std::move(e)))); }
			case emplace_back0: return ref(LIB(v.emplace_back()));
			case emplace_back1: {
				if constexpr(std::is_arithmetic_v<E>) return ref(LIB(v.emplace_back(static_cast<E>(p.value))));
				else if constexpr(is_elem<E>) { if(p.how & 1) return ref(LIB(v.emplace_back(p.value / 31, p.value % 31))); else return ref(LIB(v.emplace_back(p.value))); }
				else { E & r = LIB(v.emplace_back(O::make(p.value))); return ref(r); }
			}
			case pop: LIB(v.pop_back()); return none;
			case reserve: LIB(v.reserve(p.count)); PBT_CHECK(v.capacity() >= p.count); return none;
			case resize: LIB(v.resize(p.count)); return none;
			case resize_val: { const E e = O::make(p.value); LIB(v.resize(p.count, e)); return none; }
			case shrink: LIB(v.shrink_to_fit()); return none;
			case clear: LIB(v.clear()); return none;
			case assign_range: with_range<E>(p.kind, p.t, [&](auto f, auto l) { LIB(v.assign(f, l)); }); return none;
			case assign_ilist: with_ilist<E>(p.t, [&](std::initializer_list<E> il) { LIB(v.assign(il)); }); return none;
			case assign_count: { const E e = O::make(p.value); LIB(v.assign(p.count, e)); return none; }
			case set_ilist: with_ilist<E>(p.t, [&](std::initializer_list<E> il) { auto & r = LIB(v = il); PBT_CHECK(&r == &v); }); return none;
			case set_other: { const auto & c = o; auto & r = LIB(v = c); PBT_CHECK(&r == &v); return none; }
			case move_other: { auto & r = LIB(v = std::move(o)); PBT_CHECK(&r == &v); return none; }
			case swap_other: if(p.how & 1) LIB(v.swap(o)); else LIB(swap(v, o)); return none;
			case erase_one: return off(LIB(v.erase(at(p.p))));
			case erase_range: return off(LIB(v.erase(at(p.p), at(p.q))));
			case insert_range: return with_range<E>(p.kind, p.t, [&](auto f, auto l) { return off(LIB(v.insert(at(p.p), f, l))); });
			case insert_ilist: return with_ilist<E>(p.t, [&](std::initializer_list<E> il) { return off(LIB(v.insert(at(p.p), il))); });
			case insert_copy: { const E e = O::make(p.value); return off(LIB(v.insert(at(p.p), e))); }
			case insert_move: { E e = O::make(p.value); return off(LIB(v.insert(at(p.p), std::move(e)))); }
			case insert_count: { const E e = O::make(p.value); return off(LIB(v.insert(at(p.p), p.count, e))); }
			case emplace0: return off(LIB(v.emplace(at(p.p))));
			case emplace1: {
				if constexpr(std::is_arithmetic_v<E>) return off(LIB(v.emplace(at(p.p), static_cast<E>(p.value))));
				else if constexpr(is_elem<E>) { if(p.how & 1) return off(LIB(v.emplace(at(p.p), p.value / 31, p.value % 31))); else return off(LIB(v.emplace(at(p.p), p.value))); }
				else return off(LIB(v.emplace(at(p.p), O::make(p.value))));
			}
			case construct_count: LIB(v = ptl::vector<E>(p.count)); return none;
			case construct_count_val: { const E e = O::make(p.value); LIB(v = ptl::vector<E>(p.count, e)); return none; }
			case construct_range: with_range<E>(p.kind, p.t, [&](auto f, auto l) { LIB(v = ptl::vector<E>(f, l)); }); return none;
			case construct_ilist: with_ilist<E>(p.t, [&](std::initializer_list<E> il) { LIB(v = ptl::vector<E>(il)); }); return none;
			case construct_copy: { alloc::Lib l; ptl::vector<E> c{static_cast<const ptl::vector<E> &>(o)}; v = std::move(c); return none; }
			case construct_move: { alloc::Lib l; ptl::vector<E> c{std::move(v)}; v = std::move(c); return none; }
			case write: {
				E e = O::make(p.value);
				if(p.how == 0) v[p.p] = e;
				else if(p.how == 1) v.at(p.p) = std::move(e);
				else if(p.how == 2) v.front() = e;
				else if(p.how == 3) v.back() = e;
				else if(p.how == 4) v.data()[p.p] = e;
				else if(p.how == 5) *(v.begin() + static_cast<std::ptrdiff_t>(p.p)) = std::move(e);
				else if(p.how == 6) v.begin()[static_cast<std::ptrdiff_t>(p.p)] = e;
				else v.rbegin()[static_cast<std::ptrdiff_t>(v.size() - 1 - p.p)] = e;
				return none;
			}
			default: {
				alloc::Lib l;
				auto & r = v;
				if(p.how == 0) v = static_cast<const ptl::vector<E> &>(r);
				else if(p.how == 1) v = std::move(r);
				else if(p.how == 2) v.swap(r);
				else { const auto & c = v; ptl::vector<E> d{c}; v.swap(d); }
				return none;
			}
		}
	}
	inline std::ptrdiff_t model(const Plan & p, std::vector<int> & m, std::vector<int> & om) {
		const auto at = [&](std::size_t i) { return m.begin() + static_cast<std::ptrdiff_t>(i); };
		const auto pos = static_cast<std::ptrdiff_t>(p.p), end = static_cast<std::ptrdiff_t>(m.size());
		switch(p.op) {
			case push_copy: case push_move: case emplace_back1: m.push_back(p.value); return end;
			case emplace_back0: m.push_back(0); return end;
			case pop: m.pop_back(); return none;
			case reserve: case shrink: return none;
			case resize: m.resize(p.count); return none;
			case resize_val: m.resize(p.count, p.value); return none;
			case clear: m.clear(); return none;
			case assign_range: case assign_ilist: case set_ilist: case construct_range: case construct_ilist: m = p.t; return none;
			case assign_count: case construct_count_val: m.assign(p.count, p.value); return none;
			case construct_count: m.assign(p.count, 0); return none;
			case set_other: case construct_copy: m = om; return none;
			case move_other: m = om; om.clear(); return none;
			case swap_other: m.swap(om); return none;
			case erase_one: m.erase(at(p.p)); return pos;
			case erase_range: m.erase(at(p.p), at(p.q)); return pos;
			case insert_range: case insert_ilist: m.insert(at(p.p), p.t.begin(), p.t.end()); return pos;
			case insert_copy: case insert_move: case emplace1: m.insert(at(p.p), p.value); return pos;
			case insert_count: m.insert(at(p.p), p.count, p.value); return pos;
			case emplace0: m.insert(at(p.p), 0); return pos;
			case write: m[p.how == 2 ? 0 : p.how == 3 ? m.size() - 1 : p.p] = p.value; return none;
			default: return none;
		}
	}
	// how many elements the operation is given to copy
	inline std::size_t supplied(const Plan & p, std::size_t size, std::size_t osize) {
		switch(p.op) {
			case push_copy: case insert_copy: return 1;
			case resize_val: return p.count > size ? p.count - size : 0;
			case assign_range: case insert_range: case construct_range: return p.kind == 8 ? 0 : p.t.size();
			case assign_ilist: case insert_ilist: case set_ilist: case construct_ilist: return p.t.size();
			case assign_count: case insert_count: case construct_count_val: return p.count;
			case set_other: case construct_copy: return osize;
			case write: return 1;
			case self_assign: return size;
			default: return 0;
		}
	}
	template<typename E>
	auto build(pbt::Src & s, std::vector<int> & m, std::size_t max = 60) -> ptl::vector<E> {
		alloc::Lib lib;
		m = values(s, max);
		const auto e = elements<E>(m);
		const auto cap = s.flip() ? 0 : m.size() + s.raw(30);
		TRACE("  vector of %s elements, reserve %zu: %s", Name<E>::get(), cap, show(m).c_str());
		ptl::vector<E> v;
		v.reserve(cap);
		for(auto & x : e) v.push_back(x);
		return v;
	}
}
