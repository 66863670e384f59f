// PARTS 3
#include <ptl/vector.hpp>
#include "vecops.hpp"

template<typename E>
static void history(pbt::Src & s) {
	bool kept = false, handed = false;
	{
		ptl::vector<E> v[3];
		std::vector<int> m[3];
		PBT_CHECK(alloc::requests == 0 && alloc::live_blocks == 0, "default construction allocated");
		const auto owners = [&] { std::size_t r = 0; for(auto & x : v) r += x.capacity() != 0; return r; };
		std::size_t n = 0;
		while(m[0].size() + m[1].size() + m[2].size() < 300000 && s.more(n, 16, 60)) {
			const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
			auto & x = v[i], & y = v[j];
			const auto size = x.size(), cap = x.capacity(), osize = y.size(), ocap = y.capacity();
			const auto spare = cap - size;
			const E * const data = x.data(), * const odata = y.data();
			const auto requests = alloc::requests, copies = life::copies, moves = life::moves;
			const auto k = s.raw(8);
			TRACE("#%zu kind %zu on %zu (size %zu, capacity %zu), other %zu (size %zu, capacity %zu)", n, static_cast<std::size_t>(k), static_cast<std::size_t>(i), size, cap, static_cast<std::size_t>(j), osize, ocap);
			const auto handed_over = [&](const char * what) {
				PBT_CHECK(alloc::requests == requests, "%s allocated", what);
				PBT_CHECK(life::copies == copies && life::moves == moves, "%s copied or moved elements", what);
				if(size || osize) handed = true;
				s.label(what);
			};
			if(k == 0) { // move construction
				alloc::Lib l;
				ptl::vector<E> t{std::move(x)};
				handed_over("move construction");
				PBT_CHECK(t.data() == data && t.size() == size && t.capacity() == cap, "move construction did not hand over the block");
				PBT_CHECK(x.empty() && x.capacity() == 0, "a moved-from vector still claims memory");
				if(s.flip()) { x = std::move(t); PBT_CHECK(x.data() == data); PBT_CHECK(t.capacity() == 0); }
				else m[i].clear();
			} else if(k == 1) {
				LIB(x = std::move(y));
				handed_over("move assignment");
				PBT_CHECK(x.data() == odata && x.size() == osize && x.capacity() == ocap, "move assignment did not hand over the block");
				PBT_CHECK(y.empty() && y.capacity() == 0, "a moved-from vector still claims memory");
				m[i] = m[j];
				m[j].clear();
			} else if(k == 2) {
				if(s.flip()) LIB(x.swap(y)); else LIB(swap(x, y));
				handed_over("swap");
				PBT_CHECK(x.data() == odata && x.capacity() == ocap && y.data() == data && y.capacity() == cap, "swap did not exchange the blocks");
				m[i].swap(m[j]);
			} else if(k == 3) { // reserved space is usable
				const auto want = size + (s.large ? s.len(40) : s.raw(40));
				LIB(x.reserve(want));
				PBT_CHECK(x.capacity() >= want && x.capacity() >= cap, "reserve(%zu) left capacity %zu", want, x.capacity());
				vecops::same(x, m[i], "reserve");
				const E * const d = x.data();
				const auto c = x.capacity();
				while(m[i].size() < want) {
					const int value = static_cast<int>(want > 2000 ? m[i].size() : s.raw(100));
					const auto how = want > 2000 ? m[i].size() % 4 : s.raw(4);
					const E e = vecops::Of<E>::make(value);
					if(how == 0) LIB(x.push_back(e));
					else if(how == 1) LIB(x.insert(x.cend(), std::size_t{1}, e));
					else if(how == 2) { E t = e; LIB(x.emplace_back(std::move(t))); }
					else LIB(x.insert(x.cend(), std::addressof(e), std::addressof(e) + 1));
					m[i].push_back(value);
					PBT_CHECK(x.data() == d && x.capacity() == c, "filling reserved space reallocated");
				}
				s.label("reserve and fill");
				kept = true;
			} else {
				const auto p = vecops::draw(s, size, cap);
				if(!vecops::applicable(p, size)) continue;
				vecops::trace(p);
				vecops::apply(p, x, y);
				vecops::model(p, m[i], m[j]);
				std::size_t front = 0; // elements in front of the affected position
				bool fits = false;
				switch(p.op) {
					case vecops::push_copy: case vecops::push_move: case vecops::emplace_back0: case vecops::emplace_back1: fits = spare >= 1; front = size; break;
					case vecops::insert_copy: case vecops::insert_move: case vecops::emplace0: case vecops::emplace1: fits = spare >= 1; front = p.p; break;
					case vecops::insert_range: case vecops::insert_ilist: fits = p.t.size() <= spare; front = p.p; break;
					case vecops::insert_count: fits = p.count <= spare; front = p.p; break;
					case vecops::pop: fits = true; front = size - 1; break;
					case vecops::clear: fits = true; break;
					case vecops::erase_one: case vecops::erase_range: fits = true; front = p.p; break;
					default: break;
				}
				if(fits) {
					PBT_CHECK(x.data() == data && x.capacity() == cap, "%s moved the block although the result fits the capacity", vecops::op_name(p.op));
					PBT_CHECK(front == 0 || x.size() >= front);
					for(std::size_t e = 0; e < front; ++e) PBT_CHECK(vecops::Of<E>::get(data[e]) == m[i][e], "element %zu in front of the affected position changed", e);
					if(cap) { kept = true; s.label("modification within the capacity"); }
				}
			}
			for(int e = 0; e < 3; ++e) {
				vecops::same(v[e], m[e], "after operation");
				PBT_CHECK(v[e].capacity() >= v[e].size());
			}
			if constexpr(!std::is_same_v<E, ptl::string>) PBT_CHECK(alloc::live_blocks == owners(), "%zu blocks are alive, %zu vectors claim memory", alloc::live_blocks, owners());
		}
	}
	if(kept && handed) s.nontrivial();
}
// growing one by one: the number of reallocations grows with the logarithm of the size
template<typename E>
static void appending(pbt::Src & s, std::size_t most) {
	const auto first = s.raw(20);
	ptl::vector<E> v;
	std::vector<int> m;
	if(s.flip()) LIB(v.reserve(first));
	for(std::size_t i = 0; i < first; ++i) { const E e = vecops::Of<E>::make(static_cast<int>(i)); LIB(v.push_back(e)); m.push_back(static_cast<int>(i)); }
	const auto requests = alloc::requests, moves = life::moves;
	const auto appended = s.raw(most), how = s.raw(5);
	TRACE("%zu appended to %zu, how %d", static_cast<std::size_t>(appended), static_cast<std::size_t>(first), static_cast<int>(how));
	std::size_t most_held = first, total = 0;
	for(std::size_t i = 0; i < appended; ++i) {
		const int value = static_cast<int>(i % 1000);
		const E e = vecops::Of<E>::make(value);
		switch(how == 4 ? i % 4 : how) {
			case 0: LIB(v.push_back(e)); break;
			case 1: LIB(v.emplace_back(e)); break;
			case 2: LIB(v.insert(v.cend(), e)); break;
			default: LIB(v.emplace(v.cend(), e)); break;
		}
		m.push_back(value);
		++total;
		most_held = std::max(most_held, m.size());
		if(i % 7 == 3 && how == 4) { LIB(v.pop_back()); m.pop_back(); }
		if(i == appended / 2 && how == 3) { LIB(v.clear()); m.clear(); }
	}
	vecops::same(v, m, "after appending");
	std::size_t bits = 0;
	while(most_held >> bits) ++bits;
	if(bits > 6) s.nontrivial();
	PBT_CHECK(alloc::requests - requests <= 2 * bits + 2, "%zu appends reallocated %zu times", total, alloc::requests - requests);
	if constexpr(vecops::is_elem<E>) PBT_CHECK(life::moves - moves <= 4 * (most_held + total) + 8, "%zu appends moved %zu elements", total, static_cast<std::size_t>(life::moves - moves));
}
// the same from a large vector on: half as many elements again need a few reallocations only, whatever the size
template<typename E>
static void appending_far(pbt::Src & s) {
	std::size_t n = std::size_t{1} << s.range(6, s.chance(1, 8) ? 21 : 17);
	n += s.raw(n);
	const auto how = s.raw(3);
	TRACE("%zu elements, appending to them, how %d", n, static_cast<int>(how));
	auto v = LIB(ptl::vector<E>(n));
	if(s.flip()) LIB(v.shrink_to_fit());
	const auto requests = alloc::requests;
	const E e = vecops::Of<E>::make(7);
	for(std::size_t i = 0; i < n / 2; ++i) switch(how) {
		case 0: LIB(v.push_back(e)); break;
		case 1: LIB(v.emplace_back(e)); break;
		default: LIB(v.insert(v.cend(), e)); break;
	}
	PBT_CHECK(v.size() == n + n / 2 && vecops::Of<E>::get(v[n - 1]) == vecops::Of<E>::get(E{}) && vecops::Of<E>::get(v[n]) == 7 && vecops::Of<E>::get(v.back()) == 7);
	PBT_CHECK(alloc::requests - requests <= 8, "%zu appends to %zu elements reallocated %zu times", n / 2, n, alloc::requests - requests);
	if(n > 1000) s.nontrivial();
}
#define RULE "at least one modification within the capacity of a block and one hand-over of elements by move or swap were monitored"
#if IN_PART(0)
PBT_TEST(tracked, 150000, RULE) { history<life::Elem<0>>(s); }
#endif
#if IN_PART(0)
PBT_TEST(appending_tracked, 15000, "more than 63 elements were held") { appending<life::Elem<0>>(s, 400); }
#endif
#if IN_PART(1)
PBT_TEST(appending_ints, 3000, "more than 63 elements were held") { appending<int>(s, s.raw(20) == 0 ? 50000 : 500); }
PBT_TEST(appending_far, 150, "more than 1000 elements") { if(s.flip()) appending_far<int>(s); else appending_far<char>(s); }
PBT_TEST(large_ints, 2500, RULE) { s.large = true; history<int>(s); }
PBT_TEST(ints, 120000, RULE) { history<int>(s); }
PBT_TEST(over_aligned, 40000, RULE) { history<life::Elem<1, 64>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(big, 100000, RULE) { history<life::Big>(s); }
#endif
