// PARTS 3
#include <ptl/vector.hpp>
#include "vecops.hpp"

// the registry in tracked.hpp reports construction on top of an element, use or destruction of a non-element and misalignment as they
// happen, and leaked elements after the case; alloc.hpp reports leaked, doubly released and mismatched blocks
template<typename E>
static void history(pbt::Src & s) {
	bool relocated = false, erased = false, big = false;
	{
		ptl::vector<E> v[3];
		std::vector<int> m[3];
		std::size_t n = 0;
		while(s.more(n, 16, 60)) {
			const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
			const auto size = v[i].size(), osize = v[j].size(), cap = v[i].capacity();
			const auto p = vecops::draw(s, size, cap);
			if(!vecops::applicable(p, size)) continue;
			TRACE("#%zu on %zu (size %zu, capacity %zu; other %zu of size %zu)", n, static_cast<std::size_t>(i), size, cap, static_cast<std::size_t>(j), osize);
			vecops::trace(p);
			const auto live_before = life::live;
			PBT_CHECK(live_before == m[0].size() + m[1].size() + m[2].size());
			std::size_t range_copies = 0; // copies made while preparing the arguments
			switch(p.op) {
				case vecops::assign_range: case vecops::insert_range: case vecops::construct_range:
					range_copies = p.kind >= 3 && p.kind != 8 ? p.t.size() : 0;
					break;
				case vecops::assign_ilist: case vecops::insert_ilist: case vecops::set_ilist: case vecops::construct_ilist: range_copies = p.t.size(); break;
				default: break;
			}
			const auto supplied = vecops::supplied(p, size, osize);
			const auto c0 = life::copies;
			vecops::apply(p, v[i], v[j]);
			vecops::model(p, m[i], m[j]);
			const auto made = life::copies - c0;
			PBT_CHECK(made <= 2 * (supplied + range_copies) + 2, "%s copied %zu elements although only %zu new ones were supplied (%zu by the caller): elements must be relocated by moving", vecops::op_name(p.op), made - range_copies, supplied, range_copies);
			// exactly the elements of the three vectors are alive
			std::size_t alive = 0;
			for(auto & x : v) {
				alive += x.size();
				for(std::size_t k = 0; k < x.size(); ++k) life::check(x.data() + k, "the vector hands out");
				if constexpr(alignof(E) > 1) PBT_CHECK(reinterpret_cast<std::uintptr_t>(x.data()) % alignof(E) == 0, "misaligned block");
			}
			PBT_CHECK(life::live == alive, "after %s %zu elements are alive, the vectors hold %zu", vecops::op_name(p.op), life::live, alive);
			vecops::same(v[i], m[i], vecops::op_name(p.op));
			vecops::same(v[j], m[j], "the other vector");
			relocated = relocated || (size && v[i].capacity() > cap && p.op != vecops::move_other && p.op != vecops::swap_other);
			big = big || m[i].size() > 65535;
			if(m[i].size() > 300000) { v[i].clear(); m[i].clear(); }
			erased = erased || p.op == vecops::erase_one || p.op == vecops::erase_range;
			s.label(vecops::op_name(p.op));
		}
	}
	PBT_CHECK(life::live == 0, "%zu elements outlive their vectors", life::live);
	PBT_CHECK(alloc::live_blocks == 0, "%zu blocks outlive their vectors", alloc::live_blocks);
	PBT_CHECK(life::constructions == life::destructions);
	if(s.large ? big : relocated && erased) s.nontrivial();
}
#define RULE "the history relocated elements to another block and erased some"
#if IN_PART(0)
PBT_TEST(tracked, 150000, RULE) { history<life::Elem<0>>(s); }
#endif
#if IN_PART(1)
PBT_TEST(large, 800, "some vector held more than 65535 elements") { s.large = true; history<life::Elem<0>>(s); }
PBT_TEST(aligned_32, 60000, RULE) { history<life::Elem<1, 32>>(s); }
PBT_TEST(aligned_128, 40000, RULE) { history<life::Elem<2, 128>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(aligned_16, 80000, RULE) { history<life::Elem<3, 16>>(s); }
// element blocks nested in a block: strings are released exactly once (alloc.hpp and AddressSanitizer watch)
PBT_TEST(strings, 60000, "at least six operations") {
	alloc::Lib lib; // everything is gone at the end of the case
	{
		ptl::vector<ptl::string> v[2];
		std::vector<int> m[2];
		std::size_t n = 0;
		while(s.more(n, 12, 40)) {
			const auto i = s.raw(2), j = 1 - i;
			const auto p = vecops::draw(s, v[i].size(), v[i].capacity());
			if(!vecops::applicable(p, v[i].size())) continue;
			vecops::trace(p);
			vecops::apply(p, v[i], v[j]);
			vecops::model(p, m[i], m[j]);
			vecops::same(v[i], m[i], vecops::op_name(p.op));
			vecops::same(v[j], m[j], "the other vector");
		}
		if(n >= 6) s.nontrivial();
	}
}
#endif
