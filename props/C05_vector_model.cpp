// PARTS 4
#include <ptl/vector.hpp>
#include "vecops.hpp"
#include "odd.hpp"

template<typename E>
static void compare_all(const ptl::vector<E> & a, const ptl::vector<E> & b, const std::vector<int> & ma, const std::vector<int> & mb) {
	const bool eq = ma == mb, lt = std::lexicographical_compare(ma.begin(), ma.end(), mb.begin(), mb.end());
	PBT_CHECK((a == b) == eq && (a != b) == !eq, "equality of %s and %s", vecops::show(ma).c_str(), vecops::show(mb).c_str());
	if constexpr(!std::is_same_v<E, life::Pod3> && !std::is_same_v<E, ptl::string>) // types whose order is that of the model values
		PBT_CHECK((a < b) == lt && (a >= b) == !lt && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq), "order of %s and %s", vecops::show(ma).c_str(), vecops::show(mb).c_str());
}
template<typename E>
static void read_all(const ptl::vector<E> & c, const std::vector<int> & m) {
	using O = vecops::Of<E>;
	std::size_t i = 0;
	for(const E & e : c) PBT_CHECK(O::get(e) == m[i++]);
	PBT_CHECK(i == m.size());
	for(auto it = c.rbegin(); it != c.rend(); ++it) PBT_CHECK(O::get(*it) == m[--i]);
	for(std::size_t k = 0; k < m.size(); ++k) PBT_CHECK(std::addressof(c[k]) == c.data() + k && std::addressof(c.at(k)) == c.data() + k);
	if(!m.empty()) PBT_CHECK(std::addressof(c.front()) == c.data() && std::addressof(c.back()) == c.data() + m.size() - 1);
}

template<typename E>
static void history(pbt::Src & s) {
	TRACE("elements: %s", vecops::Name<E>::get());
	bool grew = false, cut = false, big = false;
	{
		ptl::vector<E> v[2];
		std::vector<int> m[2];
		for(int i = 0; i < 2; ++i) PBT_CHECK(v[i].empty() && v[i].size() == 0 && v[i].begin() == v[i].end());
		std::size_t n = 0;
		while(s.more(n, 14, 50)) {
			const auto i = s.raw(2), j = 1 - i;
			const auto size = v[i].size(), cap = v[i].capacity();
			const auto p = vecops::resemble(s, vecops::draw(s, size, cap), m[i]);
			if(!vecops::applicable(p, size)) continue;
			TRACE("#%zu on %zu (size %zu, capacity %zu)", n, static_cast<std::size_t>(i), size, cap);
			vecops::trace(p);
			const auto got = vecops::apply(p, v[i], v[j]);
			const auto want = vecops::model(p, m[i], m[j]);
			PBT_CHECK(got == want, "%s returned position %td, expected %td", vecops::op_name(p.op), got, want);
			vecops::same(v[i], m[i], vecops::op_name(p.op));
			vecops::same(v[j], m[j], "the other vector");
			grew = grew || (cap && v[i].capacity() > cap);
			cut = cut || m[i].size() < size;
			big = big || m[i].size() > 65535;
			if(m[i].size() > 300000) { LIB(v[i].clear()); m[i].clear(); }
			s.label(vecops::op_name(p.op));
			if(s.chance(1, 8)) compare_all(v[0], v[1], m[0], m[1]);
		}
		for(int i = 0; i < 2; ++i) read_all(v[i], m[i]);
		compare_all(v[0], v[1], m[0], m[1]);
		compare_all(v[0], v[0], m[0], m[0]);
		// one side edited from a copy of the other: equal prefixes
		v[1] = v[0];
		m[1] = m[0];
		const auto p = vecops::resemble(s, vecops::draw(s, m[1].size(), v[1].capacity()), m[1]);
		if(vecops::applicable(p, m[1].size())) {
			vecops::apply(p, v[1], v[0]);
			vecops::model(p, m[1], m[0]);
			compare_all(v[0], v[1], m[0], m[1]);
		}
	}
	if(s.large ? big : grew && cut) s.nontrivial();
}
// few operations on a vector which is large from the start
template<typename E>
static void large_start(pbt::Src & s, std::size_t base, std::size_t spread) {
	ptl::vector<E> v[2];
	std::vector<int> m[2];
	for(int i = 0; i < 2; ++i) {
		const std::size_t n = i && s.flip() ? s.raw(40) : base - 3 + s.raw(spread);
		const std::size_t x = s.raw(50), step = 1 + s.raw(90), reserved = n + s.raw(spread);
		m[i].resize(n);
		for(std::size_t k = 0; k < n; ++k) m[i][k] = static_cast<int>((x + k * step) % 101);
		if(s.flip()) LIB(v[i].reserve(reserved));
		{ alloc::Lib l; for(auto e : m[i]) v[i].push_back(vecops::Of<E>::make(e)); }
	}
	std::size_t n = 0;
	do {
		const auto size = v[0].size(), cap = v[0].capacity();
		const auto p = vecops::resemble(s, vecops::draw(s, size, cap), m[0]);
		if(!vecops::applicable(p, size)) continue;
		TRACE("#%zu on size %zu, capacity %zu; other %zu", n, size, cap, v[1].size());
		vecops::trace(p);
		if(size >= base) s.nontrivial();
		const auto got = vecops::apply(p, v[0], v[1]);
		const auto want = vecops::model(p, m[0], m[1]);
		PBT_CHECK(got == want, "%s returned position %td, expected %td", vecops::op_name(p.op), got, want);
		vecops::same(v[0], m[0], vecops::op_name(p.op));
		vecops::same(v[1], m[1], "the other vector");
		s.label(vecops::op_name(p.op));
	} while(s.more(n, 1, 4));
}
#define RULE "a history in which a vector was moved to a larger block and lost elements"
#define LARGE "some vector held more than 65535 elements"
#if IN_PART(0)
PBT_TEST(large_ints, 4000, LARGE) { s.large = true; history<int>(s); }
PBT_TEST(large_bytes, 3000, LARGE) { s.large = true; history<life::Pod3>(s); }
PBT_TEST(ints_large_start, 1500, "an operation on a vector of more than 65535 elements") { if(s.chance(1, 10)) large_start<int>(s, std::size_t{1} << 20, 50000); else large_start<int>(s, 65536, 60000); }
PBT_TEST(ints, 80000, RULE) { history<int>(s); }
PBT_TEST(longs, 25000, RULE) { history<long long>(s); }
#endif
#if IN_PART(1)
PBT_TEST(large_tracked, 1000, LARGE) { s.large = true; history<life::Elem<0>>(s); }
PBT_TEST(tracked_large_start, 400, "an operation on a vector of more than 5000 elements") { if(s.chance(1, 20)) large_start<life::Elem<0>>(s, 65536, 4000); else large_start<life::Elem<0>>(s, 5000, 5000); }
PBT_TEST(tracked, 80000, RULE) { history<life::Elem<0>>(s); }
PBT_TEST(over_aligned, 25000, RULE) { history<life::Elem<1, 64>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(pod3, 40000, RULE) { history<life::Pod3>(s); }
PBT_TEST(big, 40000, RULE) { history<life::Big>(s); }
PBT_TEST(lists, 20000, RULE) { history<odd::List>(s); }
#endif
#if IN_PART(3)
PBT_TEST(strings, 40000, RULE) { history<ptl::string>(s); }
// elements whose equality is not that of their bytes, or which are not equal to themselves
template<typename E, typename D>
static void comparisons(pbt::Src & s, D draw) {
	static_assert(std::is_trivially_copyable_v<E>);
	std::vector<E> m[2];
	ptl::vector<E> v[2];
	const auto n = s.len(40);
	const bool alike = s.flip();
	bool ordered = true;
	for(int i = 0; i < 2; ++i) {
		const auto k = s.chance(1, 3) ? s.len(40) : n;
		if(s.flip()) v[i].reserve(s.len(80));
		for(std::size_t j = 0; j < k; ++j) {
			const E e = i && alike && j < m[0].size() && s.chance(7, 8) ? m[0][j] : draw(s);
			ordered = ordered && e == e;
			m[i].push_back(e);
			v[i].push_back(e);
		}
	}
	const auto & a = v[0]; const auto & b = v[1];
	const auto compare = [&](const ptl::vector<E> & x, const ptl::vector<E> & y, const std::vector<E> & p, const std::vector<E> & q, const char * what) {
		const bool eq = std::equal(p.begin(), p.end(), q.begin(), q.end());
		PBT_CHECK((x == y) == eq && (x != y) == !eq, "equality of %s of %zu and %zu", what, p.size(), q.size());
		if(!ordered) return;
		const bool lt = std::lexicographical_compare(p.begin(), p.end(), q.begin(), q.end()), gt = std::lexicographical_compare(q.begin(), q.end(), p.begin(), p.end());
		PBT_CHECK((x < y) == lt && (x > y) == gt && (x >= y) == !lt && (x <= y) == !gt, "order of %s of %zu and %zu", what, p.size(), q.size());
	};
	compare(a, b, m[0], m[1], "vectors");
	compare(b, a, m[1], m[0], "vectors");
	compare(a, a, m[0], m[0], "a vector and itself,");
	const auto c = b;
	compare(b, c, m[1], m[1], "a vector and its copy,");
	if(m[0].size() == m[1].size() && !m[0].empty()) s.nontrivial();
}
PBT_TEST(comparisons, 40000, "vectors of the same length") {
	switch(s.raw(5)) {
		case 0: return comparisons<double>(s, [](pbt::Src & r) { return r.chance(1, 3) ? odd::partial(r) : static_cast<double>(r.raw(2)); });
		case 1: return comparisons<double>(s, [](pbt::Src & r) { return r.flip() ? 0.0 : -0.0; });
		case 2: return comparisons<odd::Keyed>(s, [](pbt::Src & r) { return odd::Keyed{static_cast<int>(r.raw(4))}; });
		case 3: return comparisons<odd::Ranked>(s, [](pbt::Src & r) { return odd::Ranked{static_cast<int>(r.raw(4))}; });
		default: return comparisons<signed char>(s, [](pbt::Src & r) { return static_cast<signed char>(r.byte()); });
	}
}
#endif
