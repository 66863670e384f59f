// PARTS 3
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include "strops.hpp"
#include "vecops.hpp"

// storage supplied by "foreign" modules: blocks inside larger chunks (releasing them any other way crashes), each module with its own ledger
struct Block { char * chunk; void * ptr; std::size_t size; int owner; bool live; };
inline std::vector<Block> & ledger() { static std::vector<Block> v; return v; }
inline void release(void * p, int who) {
	for(auto & b : ledger()) if(b.ptr == p && b.live) {
		if(b.owner != who) pbt::fail("a block of foreign module %d was released by the routine of module %d", b.owner, who);
		for(std::size_t i = 0; i < b.size; ++i) if(life::find(static_cast<char *>(p) + i)) pbt::fail("a block was released while it holds a living element");
		b.live = false;
		std::memset(p, 0xdd, b.size);
		__real_free(b.chunk);
		return;
	}
	pbt::fail("foreign module %d was asked to release %p which is no block of it (or released already)", who, p);
}
template<typename E, int Who> void releaser(E * p) noexcept { release(p, Who); }
template<typename E> using Routine = void (*)(E *) noexcept;
template<typename E> Routine<E> routine(std::size_t who) { static const Routine<E> r[]{releaser<E, 0>, releaser<E, 1>, releaser<E, 2>}; return r[who]; }
inline void * grab(std::size_t bytes, std::size_t who) {
	const auto chunk = static_cast<char *>(__real_malloc(bytes + 192));
	std::memset(chunk, 0x5a, bytes + 192);
	void * p = chunk + 64;
	ledger().push_back({chunk, p, bytes, static_cast<int>(who), true});
	return p;
}
inline std::size_t live_blocks() { std::size_t n = 0; for(auto & b : ledger()) n += b.live; return n; }
static const pbt::RegHook ledger_hook{[] { ledger().clear(); ledger().reserve(64); }, [] { if(IN_PART(0)) if(const auto n = live_blocks()) pbt::fail("%zu foreign block(s) were never released", n); }};

template<typename E> struct Heap { Routine<E> dealloc; E * ptr; std::uint64_t cap, siz; };
template<typename E, typename T> Heap<E> words(const T & v) { Heap<E> h; static_assert(sizeof v == sizeof h); std::memcpy(&h, static_cast<const void *>(&v), sizeof h); return h; }
template<typename E> int owner(Routine<E> r) { for(int i = 0; i < 3; ++i) if(r == routine<E>(static_cast<std::size_t>(i))) return i; return -1; }

// the foreign blocks still live are exactly those the objects refer to
template<typename E, typename... T>
static void account(const char * where, const T &... objects) {
	std::size_t expected = 0;
	const auto one = [&](const auto & v) {
		const auto h = words<E>(v);
		const int who = owner<E>(h.dealloc);
		if(who < 0) return;
		++expected;
		bool found = false;
		for(auto & b : ledger()) if(b.ptr == h.ptr && b.live) { found = true; PBT_CHECK(b.owner == who, "%s: a block of module %d is recorded with the routine of module %d", where, b.owner, who); }
		PBT_CHECK(found, "%s: an object refers to a foreign block which has been released", where);
	};
	(one(objects), ...);
	PBT_CHECK(live_blocks() == expected, "%s: %zu foreign blocks are live but %zu are in use", where, live_blocks(), expected);
}

#if IN_PART(0)
static ptl::string make_string(pbt::Src & s, std::string & m) {
	ptl::string r;
	if(!s.chance(2, 3)) return strops::build(s, m, 100);
	m = gen::text(s, 100);
	const auto cap = m.size() + (s.flip() ? 0 : s.len(100)), who = s.raw(3);
	TRACE("string with %zu characters in a block of module %zu, capacity %zu: %s", m.size(), static_cast<std::size_t>(who), cap, pbt::show(m.data(), m.size()).c_str());
	const auto p = static_cast<char *>(grab(cap + 1, who));
	std::memcpy(p, m.data(), m.size());
	p[m.size()] = 0;
	const Heap<char> h{routine<char>(who), p, cap, m.size()};
	std::memcpy(static_cast<void *>(&r), &h, sizeof h);
	s.nontrivial();
	s.label("foreign string");
	return r;
}
PBT_TEST(string, 60000, "a string in a foreign block took part") {
	alloc::Lib lib;
	std::string m[3];
	ptl::string v[3]{make_string(s, m[0]), make_string(s, m[1]), make_string(s, m[2])};
	ptl::optional<ptl::string> o;
	ptl::variant<int, ptl::string> a{1};
	std::string om, am;
	std::size_t n = 0;
	const auto check = [&](const char * where) {
		for(int i = 0; i < 3; ++i) strops::same(v[i], m[i], where);
		if(o) strops::same(*o, om, where);
		if(a.holds<ptl::string>()) strops::same(a.get<ptl::string>(), am, where);
		const ptl::string none;
		account<char>(where, v[0], v[1], v[2], o ? *o : none, a.holds<ptl::string>() ? a.get<ptl::string>() : none);
	};
	check("at the beginning");
	do {
		const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
		TRACE("on %zu with %zu", static_cast<std::size_t>(i), static_cast<std::size_t>(j));
		switch(s.raw(12)) {
			default: strops::op(s, v[i], m[i], v[j], m[j]); break;
			case 1: TRACE("move construct and back"); { ptl::string t{std::move(v[i])}; v[j] = std::move(t); m[j] = m[i]; m[i].clear(); v[i].clear(); } break;
			case 2: TRACE("std::swap"); std::swap(v[i], v[j]); m[i].swap(m[j]); break;
			case 3: TRACE("into an optional"); o = std::move(v[i]); om = m[i]; m[i].clear(); v[i].clear(); break;
			case 4: TRACE("out of an optional"); if(o) { v[i] = std::move(*o); m[i] = om; o.reset(); } break;
			case 5: TRACE("into a variant"); a = std::move(v[i]); am = m[i]; m[i].clear(); v[i].clear(); break;
			case 6: TRACE("out of a variant"); if(a.holds<ptl::string>()) { v[i] = std::move(a).get<ptl::string>(); m[i] = am; a = 1; } break;
			case 7: TRACE("new"); v[i] = make_string(s, m[i]); break;
			case 8: { // foreign code takes the object apart
				const auto h = words<char>(v[i]);
				TRACE("taken apart");
				if(!h.dealloc) break;
				PBT_CHECK(m[i].compare(0, std::string::npos, h.ptr, h.siz) == 0);
				h.dealloc(h.ptr);
				const ptl::string fresh;
				std::memcpy(static_cast<void *>(&v[i]), static_cast<const void *>(&fresh), sizeof fresh);
				m[i].clear();
				s.label("taken apart");
			}
		}
		check("after an operation");
	} while(s.more(n, 10, 24));
}
#endif

#if IN_PART(1)
template<typename E>
static ptl::vector<E> make_vector(pbt::Src & s, std::vector<int> & m) {
	if(!s.chance(2, 3)) return vecops::build<E>(s, m, 30);
	ptl::vector<E> r;
	m = vecops::values(s, 30);
	const auto cap = m.size() + (s.flip() ? 0 : s.len(30)), who = s.raw(3);
	TRACE("vector in a block of module %zu, capacity %zu: %s", static_cast<std::size_t>(who), cap, vecops::show(m).c_str());
	const auto p = static_cast<E *>(grab((cap ? cap : 1) * sizeof(E), who));
	for(std::size_t i = 0; i < m.size(); ++i) new(p + i) E(vecops::Of<E>::make(m[i]));
	const Heap<E> h{routine<E>(who), p, cap, m.size()};
	std::memcpy(static_cast<void *>(&r), &h, sizeof h);
	s.nontrivial();
	s.label("foreign vector");
	return r;
}
template<typename E>
static void vectors(pbt::Src & s) {
	alloc::Lib lib;
	std::vector<int> m[3];
	ptl::vector<E> v[3]{make_vector<E>(s, m[0]), make_vector<E>(s, m[1]), make_vector<E>(s, m[2])};
	ptl::optional<ptl::vector<E>> o;
	std::vector<int> om;
	std::size_t n = 0;
	const auto check = [&](const char * where) {
		for(int i = 0; i < 3; ++i) vecops::same(v[i], m[i], where);
		if(o) vecops::same(*o, om, where);
		const ptl::vector<E> none;
		account<E>(where, v[0], v[1], v[2], o ? *o : none);
	};
	check("at the beginning");
	do {
		const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
		TRACE("on %zu with %zu", static_cast<std::size_t>(i), static_cast<std::size_t>(j));
		switch(s.raw(11)) {
			default: {
				const auto p = vecops::draw(s, v[i].size(), v[i].capacity());
				if(!vecops::applicable(p, v[i].size())) break;
				vecops::trace(p);
				vecops::apply(p, v[i], v[j]);
				vecops::model(p, m[i], m[j]);
				break;
			}
			case 1: TRACE("move construct and back"); { ptl::vector<E> t{std::move(v[i])}; v[j] = std::move(t); m[j] = m[i]; m[i].clear(); v[i].clear(); } break;
			case 2: TRACE("std::swap"); std::swap(v[i], v[j]); m[i].swap(m[j]); break;
			case 3: TRACE("into an optional"); o = std::move(v[i]); om = m[i]; m[i].clear(); v[i].clear(); break;
			case 4: TRACE("out of an optional"); if(o) { v[i] = std::move(*o); m[i] = om; o.reset(); } break;
			case 5: TRACE("new"); v[i] = make_vector<E>(s, m[i]); break;
			case 6: { // foreign code takes the object apart
				const auto h = words<E>(v[i]);
				TRACE("taken apart");
				if(!h.dealloc) break;
				for(std::size_t k = 0; k < h.siz; ++k) PBT_CHECK(vecops::Of<E>::get(h.ptr[k]) == m[i][k]);
				std::destroy_n(h.ptr, h.siz);
				h.dealloc(h.ptr);
				const ptl::vector<E> fresh;
				std::memcpy(static_cast<void *>(&v[i]), static_cast<const void *>(&fresh), sizeof fresh);
				m[i].clear();
				s.label("taken apart");
			}
		}
		check("after an operation");
	} while(s.more(n, 8, 20));
}
PBT_TEST(vector, 40000, "a vector in a foreign block took part") {
	switch(s.raw(3)) {
		case 0: return vectors<int>(s);
		case 1: return vectors<life::Elem<0>>(s);
		default: return vectors<ptl::string>(s);
	}
}
#endif

#if IN_PART(2)
#include <map>
#include <sys/mman.h>
// blocks of many gigabytes, nearly all of them zero and without memory behind them: sizes and positions which need more than 32 bits
inline int vast_released = 0;
template<typename E> void vast_release(E * p) noexcept { if(reinterpret_cast<char *>(p) != gen::vast()) pbt::fail("a foreign block is released at another address"); ++vast_released; }
template<typename T, typename E>
static void giant(pbt::Src & s) {
	const auto base = reinterpret_cast<E *>(gen::vast());
	if(!base) return;
	const pbt::Slow slow; // walking over all elements is not wrong
	if(!slow) return;
	constexpr bool text = std::is_same_v<T, ptl::string>;
	constexpr std::size_t most = gen::vast_bytes / sizeof(E) - 4096;
	vast_released = 0;
	std::size_t n = gen::position(s, most - 2000), cap = n + s.raw(1000);
	if(n < 2000) n += 2000, cap += 2000;
	std::map<std::size_t, E> m; // what is not zero
	{
		T v;
		const Heap<E> h{vast_release<E>, base, cap, n};
		std::memcpy(static_cast<void *>(&v), &h, sizeof h);
		if(n >> 32) s.nontrivial();
		std::size_t k = 0;
		const auto at = [&](std::size_t i) { const auto it = m.find(i); return it == m.end() ? E{} : it->second; };
		const auto put = [&](std::size_t i, E e) { if(e == E{}) m.erase(i); else m[i] = e; };
		const auto shift = [&](std::size_t from, std::ptrdiff_t by) { // elements from there on move
			std::map<std::size_t, E> r;
			for(auto & [i, e] : m) if(i < from) r[i] = e; else r[static_cast<std::size_t>(static_cast<std::ptrdiff_t>(i) + by)] = e;
			m.swap(r);
		};
		do {
			const E e = static_cast<E>(1 + s.raw(100));
			const auto op = s.raw(13);
			const auto near = n - s.raw(std::min<std::size_t>(n, 300) + 1), i = gen::position(s, n - 1);
			const auto d = static_cast<std::ptrdiff_t>(near);
			TRACE("%zu elements, capacity %zu: op %d near %zu and %zu", n, cap, static_cast<int>(op), near, i);
			const auto spare = cap - n;
			switch(op) {
				case 0: if(spare) { v.push_back(e); put(n++, e); } break;
				case 1: v.pop_back(); put(--n, E{}); break;
				case 2: v[i] = e; put(i, e); break;
				case 3: v.at(i) = e; put(i, e); break;
				case 4: { // insert
					const auto count = s.raw(4);
					if(count > spare) break;
					const auto it = v.insert(v.cbegin() + d, std::size_t{count}, e);
					PBT_CHECK(it - v.begin() == d);
					shift(near, static_cast<std::ptrdiff_t>(count));
					for(std::size_t c = 0; c < count; ++c) put(near + c, e);
					n += count;
					break;
				}
				case 5: { // erase
					const auto count = std::min<std::size_t>(s.raw(300), n - near);
					const auto it = v.erase(v.cbegin() + d, v.cbegin() + d + static_cast<std::ptrdiff_t>(count));
					PBT_CHECK(it - v.begin() == d);
					for(std::size_t c = 0; c < count; ++c) put(near + c, E{});
					shift(near, -static_cast<std::ptrdiff_t>(count));
					n -= count;
					break;
				}
				case 6: v.begin()[static_cast<std::ptrdiff_t>(i)] = e; put(i, e); break;
				case 7: { T t{std::move(v)}; PBT_CHECK(v.empty() && t.size() == n && t.data() == base); v = std::move(t); break; }
				case 8: { T t; t.swap(v); PBT_CHECK(v.empty() && t.size() == n && t.capacity() == cap); swap(t, v); break; }
				case 9: { // an element of itself
					if(!spare) break;
					const E own = at(i);
					v.insert(v.cbegin() + d, v[i]);
					shift(near, 1);
					put(near, own);
					++n;
					break;
				}
				case 10: if constexpr(text) { // a piece of itself
					const auto count = s.raw(20);
					if(count > spare || i + count > n) break;
					std::vector<E> piece;
					for(std::size_t c = 0; c < count; ++c) piece.push_back(at(i + c));
					v.insert(v.cbegin() + d, std::string_view{v}.substr(i, count));
					shift(near, static_cast<std::ptrdiff_t>(count));
					for(std::size_t c = 0; c < count; ++c) put(near + c, piece[c]);
					n += count;
				} break;
				case 11: if constexpr(text) { // the end of it
					const ptl::string t = std::as_const(v).substr(near);
					PBT_CHECK(t.size() == n - near);
					for(std::size_t c = near; c < n; ++c) PBT_CHECK(t[c - near] == at(c));
					const ptl::string u = std::as_const(v).substr(i, std::min<std::size_t>(n - i, 40));
					for(std::size_t c = 0; c < u.size(); ++c) PBT_CHECK(u[c] == at(i + c));
				} break;
				default: if constexpr(text) { // resizing within the capacity
					const auto size = n - near < 100 ? near : std::min(cap, n + 100);
					const auto fill = s.flip() ? static_cast<char>(e) : '\0';
					if(fill) v.resize(size, fill); else v.resize(size);
					for(std::size_t c = size; c < n; ++c) put(c, E{});
					for(std::size_t c = n; c < size; ++c) put(c, fill);
					n = size;
				} break;
			}
			PBT_CHECK(vast_released == 0, "the block was released");
			PBT_CHECK(v.size() == n && !v.empty() && v.capacity() == cap && v.data() == base, "size %zu, expected %zu; capacity %zu, expected %zu", v.size(), n, v.capacity(), cap);
			PBT_CHECK(v.end() - v.begin() == static_cast<std::ptrdiff_t>(n) && v.crend() - v.crbegin() == static_cast<std::ptrdiff_t>(n));
			if constexpr(text) PBT_CHECK(v.c_str()[n] == 0 && std::string_view{v}.size() == n, "no terminator behind the end");
			for(auto & [q, x] : m) PBT_CHECK(v[q] == x && std::as_const(v).at(q) == x && v.cbegin()[static_cast<std::ptrdiff_t>(q)] == x, "element %zu of %zu", q, n);
			for(std::size_t c = n > 40 ? n - 40 : 0; c < n; ++c) PBT_CHECK(v[c] == at(c), "element %zu of %zu", c, n);
			PBT_CHECK(v.front() == at(0) && v.back() == at(n - 1) && &v.back() == base + n - 1 && v[i < n ? i : 0] == at(i < n ? i : 0) && *(v.rbegin()) == at(n - 1));
			const std::size_t beyond[]{n, n + 1, n + (std::size_t{1} << 32), ~std::size_t{0}};
			for(const auto b : beyond) { bool thrown = false; try { (void)v.at(b); } catch(const std::out_of_range &) { thrown = true; } PBT_CHECK(thrown, "at(%zu) of %zu does not throw", b, n); }
		} while(s.more(k, 8, 20));
		switch(s.raw(4)) {
			case 0: break;
			case 1: v = T{}; PBT_CHECK(vast_released == 1 && v.empty()); break;
			case 2: v.clear(); PBT_CHECK(v.empty() && v.capacity() == cap && vast_released == 0); v.shrink_to_fit(); PBT_CHECK(vast_released == 1 && v.empty()); v.push_back(static_cast<E>(7)); PBT_CHECK(v.size() == 1 && v[0] == static_cast<E>(7)); break;
			default: { T t; t.push_back(static_cast<E>(3)); v = std::move(t); PBT_CHECK(vast_released == 1 && v.size() == 1 && v[0] == static_cast<E>(3)); break; }
		}
	}
	PBT_CHECK(vast_released == 1, "the block was released %d times", vast_released);
	madvise(gen::vast(), gen::vast_bytes, MADV_DONTNEED);
}
PBT_TEST(giants, 20000, "more than 2^32 elements") {
	switch(s.raw(3)) {
		case 0: return giant<ptl::string, char>(s);
		case 1: return giant<ptl::vector<char>, char>(s);
		default: return giant<ptl::vector<int>, int>(s);
	}
}
#endif
