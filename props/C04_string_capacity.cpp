#include <ptl/string.hpp>
#include "strops.hpp"

static constexpr std::size_t inline_capacity = 3 * sizeof(void *) - 2;

// any history on strings that never exceed the inline capacity allocates nothing
PBT_TEST(inline_never_allocates, 300000, "at least five operations reached a size of 15 or more") {
	alloc::Lib lib;
	const auto req = [] { return alloc::requests; };
	{
		ptl::string v, w;
		std::string m, wm;
		m.reserve(64), wm.reserve(64);
		std::size_t n = 0, big = 0;
		char buf[32];
		while(s.more(n, 14, 40)) {
			const auto size = m.size(), room = inline_capacity - size;
			const auto p = s.raw(size + 1), q = p + s.raw(size - p + 1);
			const auto k = s.chance(1, 3) ? room : s.raw(room + 1);
			const auto k2 = s.raw(inline_capacity - (size - (q - p)) + 1); // for replace
			const char c = s.byte();
			for(std::size_t i = 0; i < inline_capacity; ++i) buf[i] = static_cast<char>(c + static_cast<char>(i));
			const std::string_view t{buf, k}, t2{buf, k2};
			const auto pos = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
			const auto before = req();
			const char * const data = v.data();
			const auto op = s.raw(24);
			TRACE("op %d, size %zu, k %zu, k2 %zu, [%zu, %zu)", static_cast<int>(op), size, k, k2, p, q);
			switch(op) {
				case 0: if(room) { v.push_back(c); m.push_back(c); } break;
				case 1: v.append(t); m.append(t); break;
				case 2: v.append(k, c); m.append(k, c); break;
				case 3: v.insert(pos(p), t); m.insert(p, t); break;
				case 4: v.insert(pos(p), k, c); m.insert(p, k, c); break;
				case 5: { gen::StreamState st{buf, 0, k}; v.append(gen::SinglePass{st}, gen::SinglePass{}); m.append(t); break; }
				case 6: v.assign(t); m.assign(t); break;
				case 7: v.assign(k, c); m.assign(k, c); break;
				case 8: v.erase(pos(p), pos(q)); m.erase(p, q - p); break;
				case 9: if(size) { v.pop_back(); m.pop_back(); } break;
				case 10: v.clear(); m.clear(); break;
				case 11: v.resize(k, c); m.resize(k, c); break;
				case 12: v.replace(pos(p), pos(q), t2); m.replace(p, q - p, t2); break;
				case 13: v.replace(pos(p), pos(q), k2, c); m.replace(p, q - p, k2, c); break;
				case 14: v.reserve(s.raw(inline_capacity + 1)); break;
				case 15: v.shrink_to_fit(); break;
				case 16: { ptl::string o{v}; w = o; wm = m; break; }
				case 17: v.swap(w); m.swap(wm); break;
				case 18: { ptl::string o{std::move(v)}; v = std::move(o); break; }
				case 19: { gen::StreamState st{buf, 0, k2}; v.replace(pos(p), pos(q), gen::SinglePass{st}, gen::SinglePass{}); m.replace(p, q - p, t2); break; }
				case 20: { ptl::string o(k, c), o2(t.begin(), t.end()), o3{t}; w = o2 + std::string_view{}; wm.assign(t); break; }
				case 21: { const ptl::string & cv = v; w = cv.substr(p, q - p); wm.assign(m, p, q - p); break; }
				case 22: { v = ptl::string{v.cbegin(), pos(p)} + ptl::string{pos(p), v.cend()}; break; }
				default: v = w; m = wm; break;
			}
			PBT_CHECK(req() == before, "operation %d on short strings allocated", static_cast<int>(op));
			PBT_CHECK(v.capacity() == inline_capacity && v.data() == data, "a short string left inline storage");
			PBT_CHECK(v.data() >= reinterpret_cast<const char *>(&v) && v.data() + v.size() < reinterpret_cast<const char *>(&v + 1), "characters are not stored inside the object");
			strops::same(v, m, "v");
			strops::same(w, wm, "w");
			if(m.size() >= 15) ++big;
		}
		if(big >= 5) s.nontrivial();
	}
}

// reserved space is honoured; shrinking returns to inline storage and releases the block
static void reserved_space(pbt::Src & s) {
	std::size_t monitored = 0;
	alloc::Lib lib; // blocks of the model and of temporaries are recorded too: they are gone at the end of the case
	{
		std::string m;
		auto v = strops::build(s, m, 120);
		std::size_t n = 0;
		while(m.size() < 400000 && s.more(n, 14, 40)) {
			const auto size = m.size(), cap = v.capacity(), room = cap - size;
			PBT_CHECK(cap >= inline_capacity && cap >= size);
			const auto p = s.raw(size + 1), q = p + s.raw(size - p + 1);
			const auto k = s.chance(1, 3) ? room : s.chance(1, 3) ? room + 1 : s.large && s.flip() ? s.len(100) : s.raw(room + 1);
			const char c = s.byte();
			const std::string t(k, c);
			const bool fits = k <= room;
			const char * const data = v.data();
			const auto before = alloc::requests;
			bool stable = fits;
			const auto pos = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
			const auto op = s.raw(18);
			TRACE("op %d, size %zu, capacity %zu, k %zu, [%zu, %zu)", static_cast<int>(op), size, cap, k, p, q);
			switch(op) {
				case 0: case 1: v.push_back(c); m.push_back(c); stable = room > 0; break;
				case 2: v.append(std::string_view{t}); m.append(t); break;
				case 3: v.append(k, c); m.append(t); break;
				case 4: v.insert(pos(p), std::string_view{t}); m.insert(p, t); break;
				case 5: v.insert(pos(p), k, c); m.insert(p, t); break;
				case 6: v.append(t.begin(), t.end()); m.append(t); break;
				case 7: v.erase(pos(p), pos(q)); m.erase(p, q - p); stable = true; break;
				case 8: if(size) { v.pop_back(); m.pop_back(); } stable = true; break;
				case 9: v.clear(); m.clear(); stable = true; break;
				case 10: { const auto r = s.raw(cap + 1); v.resize(r, c); m.resize(r, c); stable = true; break; }
				case 11: { v += c; m += c; stable = room > 0; break; }
				case 12: { v += std::string_view{t}; m += t; break; }
				case 13: { const auto r = s.raw(3) == 0 ? cap + s.raw(100) : s.large ? s.len(400) : s.raw(400); v.reserve(r); PBT_CHECK(v.capacity() >= r, "reserve(%zu) left capacity %zu", r, v.capacity()); stable = r <= cap; break; }
				case 14: { std::string_view x = v; v.append(x); m += m; stable = size <= room; break; }
				case 15: { // filling reserved space does not reallocate
					const auto want = size + (s.large ? s.len(200) : s.raw(200));
					v.reserve(want);
					PBT_CHECK(v.capacity() >= want);
					const char * const d = v.data();
					const auto cap2 = v.capacity();
					while(m.size() < want) { v.push_back(c); m.push_back(c); PBT_CHECK(v.data() == d && v.capacity() == cap2, "push_back within reserved space moved the buffer"); }
					stable = false;
					break;
				}
				default: {
					const auto frees = alloc::live_blocks;
					const auto old = alloc::requests;
					const bool heap = cap > inline_capacity;
					v.shrink_to_fit();
					PBT_CHECK(alloc::requests == old || size > inline_capacity, "shrinking allocated");
					PBT_CHECK(v.capacity() >= size && v.capacity() <= cap);
					if(size <= inline_capacity) {
						PBT_CHECK(v.capacity() == inline_capacity, "a string of size %zu was not brought back to inline storage", size);
						PBT_CHECK(v.data() >= reinterpret_cast<const char *>(&v) && v.data() < reinterpret_cast<const char *>(&v + 1));
						if(heap) s.label("heap to inline");
						(void)frees;
					}
					stable = false;
					break;
				}
			}
			if(stable) {
				PBT_CHECK(v.data() == data, "operation %d moved the buffer although the result fits the capacity", static_cast<int>(op));
				PBT_CHECK(v.capacity() == cap, "operation %d changed the capacity from %zu to %zu although the result fits", static_cast<int>(op), cap, v.capacity());
				(void)before;
				if(cap > inline_capacity) ++monitored;
			}
			strops::same(v, m, "after operation");
		}
		if(monitored >= (s.large ? 1 : 5)) s.nontrivial();
	}
}
PBT_TEST(reserved_space, 250000, "the string owned heap storage and at least five in-capacity operations were monitored") { reserved_space(s); }
PBT_TEST(large, 3000, "the string owned heap storage and at least one in-capacity operation was monitored") { s.large = true; reserved_space(s); }

// no string of any history leaks its buffer, and the blocks alive are exactly those of strings on the heap
PBT_TEST(no_leaks, 150000, "some string owned heap storage at some time and was reassigned") {
	bool heap = false;
	alloc::Lib lib; // everything, the model included, is gone at the end of the case
	{
		ptl::string v[3];
		std::string m[3];
		std::size_t n = 0;
		while(s.more(n, 10, 40)) {
			const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
			strops::op(s, v[i], m[i], v[j], m[j]);
			for(int k = 0; k < 3; ++k) heap = heap || v[k].capacity() > inline_capacity;
		}
	}
	if(heap) s.nontrivial();
}
