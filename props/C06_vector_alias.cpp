// PARTS 4
#include <ptl/vector.hpp>
#include "vecops.hpp"

// one operation whose argument is an element or a range of v itself
template<typename E>
static void alias_op(pbt::Src & s, ptl::vector<E> & v, std::vector<int> & m) {
	using O = vecops::Of<E>;
	const auto n = m.size();
	const auto a = s.raw(n + 1), b = a + s.raw(n - a + 1);
	const auto p = s.raw(n + 1);
	const auto d = [](std::size_t i) { return static_cast<std::ptrdiff_t>(i); };
	const auto pos = [&](std::size_t i) { return v.cbegin() + d(i); };
	const std::vector<int> arg(m.begin() + d(a), m.begin() + d(b)), rev(arg.rbegin(), arg.rend());
	const auto kind = s.raw(7);
	const auto & got = kind == 6 ? rev : arg;
	const bool fits = n + arg.size() <= v.capacity();
	TRACE("size %zu, capacity %zu, range [%zu, %zu) kind %zu, position %zu", n, v.capacity(), a, b, static_cast<std::size_t>(kind), p);
	auto with = [&](auto f) {
		switch(kind) {
			case 0: return f(v.cbegin() + d(a), v.cbegin() + d(b));
			case 1: return f(v.begin() + d(a), v.begin() + d(b));
			case 2: return f(static_cast<const E *>(v.data()) + a, static_cast<const E *>(v.data()) + b);
			case 3: return f(v.data() + a, v.data() + b);
			case 4: { vecops::Stream<E> st{v.data() + a, 0, b - a}; return f(vecops::SinglePass<E>{st}, vecops::SinglePass<E>{}); }
			case 5: return f(vecops::Forward<E>{v.data() + a, v.data() + b}, vecops::Forward<E>{v.data() + b, v.data() + b});
			default: return f(std::make_reverse_iterator(v.cbegin() + d(b)), std::make_reverse_iterator(v.cbegin() + d(a)));
		}
	};
	// the k-th element (before the operation) has been moved from: give it a known value again
	const auto restore = [&](std::size_t where) { v[where] = O::make(77); m[where] = 77; };
	switch(const auto op = s.raw(9)) {
		case 0: case 1: {
			TRACE("insert(range)");
			const auto it = with([&](auto f, auto l) { return LIB(v.insert(pos(p), f, l)); });
			m.insert(m.begin() + d(p), got.begin(), got.end());
			PBT_CHECK(it - v.begin() == d(p));
			if(!got.empty()) { s.nontrivial(); s.label(fits ? "insert range, in place" : "insert range, reallocating"); }
			break;
		}
		case 2: {
			TRACE("assign(range)");
			with([&](auto f, auto l) { LIB(v.assign(f, l)); });
			m = got;
			if(!got.empty()) { s.nontrivial(); s.label(fits ? "assign range, in place" : "assign range, reallocating"); }
			break;
		}
		case 3: {
			TRACE("= self / append self");
			if(s.flip()) v = static_cast<const ptl::vector<E> &>(v);
			else { const auto t = m; LIB(v.insert(v.end(), v.cbegin(), v.cend())); m.insert(m.end(), t.begin(), t.end()); if(n) s.nontrivial(); }
			break;
		}
		default: {
			if(!n) break;
			const auto k = s.raw(n);
			const int x = m[k];
			const auto how = s.raw(12);
			const auto spare = v.capacity() - n;
			const auto count = s.chance(1, 3) && spare < 60 ? spare + s.raw(2) : s.len(40);
			TRACE("own element %zu (value %d), how %zu, count %zu", static_cast<std::size_t>(k), x, static_cast<std::size_t>(how), count);
			(void)op;
			s.nontrivial();
			static const char * const names[]{"push_back(own)", "push_back(move own)", "emplace_back(own)", "emplace_back(move own)", "insert(own)", "insert(move own)", "insert(n, own)", "emplace(own)", "emplace(move own)", "resize(n, own)", "assign(n, own)", "insert(n, own)"};
			s.label(names[how]);
			s.label(spare ? "own element, spare capacity" : "own element, full");
			const auto after = [&](std::size_t at) { return k + (k >= at ? 1 : 0); };
			switch(how) {
				case 0: { auto & r = LIB(v.push_back(v[k])); m.push_back(x); PBT_CHECK(std::addressof(r) == v.data() + n); break; }
				case 1: { auto & r = LIB(v.push_back(std::move(v[k]))); m.push_back(x); PBT_CHECK(std::addressof(r) == v.data() + n); restore(k); break; }
				case 2: LIB(v.emplace_back(static_cast<const E &>(v[k]))); m.push_back(x); break;
				case 3: LIB(v.emplace_back(std::move(v[k]))); m.push_back(x); restore(k); break;
				case 4: { const auto it = LIB(v.insert(pos(p), static_cast<const E &>(v[k]))); m.insert(m.begin() + d(p), x); PBT_CHECK(it - v.begin() == d(p)); break; }
				case 5: { const auto it = LIB(v.insert(pos(p), std::move(v[k]))); m.insert(m.begin() + d(p), x); PBT_CHECK(it - v.begin() == d(p)); restore(after(p)); break; }
				case 7: { const auto it = LIB(v.emplace(pos(p), static_cast<const E &>(v[k]))); m.insert(m.begin() + d(p), x); PBT_CHECK(it - v.begin() == d(p)); break; }
				case 8: { const auto it = LIB(v.emplace(pos(p), std::move(v[k]))); m.insert(m.begin() + d(p), x); PBT_CHECK(it - v.begin() == d(p)); restore(after(p)); break; }
				case 9: LIB(v.resize(n + count, v[k])); m.resize(n + count, x); break;
				case 10: LIB(v.assign(count, v[k])); m.assign(count, x); break;
				default: { const auto it = LIB(v.insert(pos(p), count, v[k])); m.insert(m.begin() + d(p), count, x); PBT_CHECK(it - v.begin() == d(p)); break; }
			}
		}
	}
}
template<typename E>
static void alias(pbt::Src & s) {
	std::vector<int> m;
	auto v = vecops::build<E>(s, m, 40);
	std::size_t n = 0;
	do {
		alias_op(s, v, m);
		vecops::same(v, m, "after aliased operation");
	} while(m.size() < (s.large ? 200000 : 400) && s.more(n, 2, 6));
}
#define RULE "the argument is an element or a non-empty range of the modified vector"
#if IN_PART(0)
PBT_TEST(large_ints, 2500, RULE) { s.large = true; alias<int>(s); }
PBT_TEST(ints, 250000, RULE) { alias<int>(s); }
#endif
#if IN_PART(1)
PBT_TEST(large_tracked, 600, RULE) { s.large = true; alias<life::Elem<0>>(s); }
PBT_TEST(tracked, 250000, RULE) { alias<life::Elem<0>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(big, 150000, RULE) { alias<life::Big>(s); }
PBT_TEST(over_aligned, 80000, RULE) { alias<life::Elem<1, 64>>(s); }
#endif
#if IN_PART(3)
PBT_TEST(strings, 150000, RULE) { alias<ptl::string>(s); }
#endif
