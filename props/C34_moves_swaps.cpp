// PARTS 3
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "strops.hpp"
#include "vecops.hpp"

// a pool of objects which are moved, swapped, modified and replaced; a memory request inside a move or swap is an error (and fails)
struct Quiet {
	const std::size_t before = alloc::requests;
	alloc::Lib lib;
	Quiet() { alloc::failing_forever = true; }
	~Quiet() { alloc::failing_forever = false; }
};
template<typename F>
static void quietly(const char * what, F f) {
	const auto before = alloc::requests;
	{ Quiet q; f(); }
	PBT_CHECK(alloc::requests == before, "%s requested memory", what);
}
template<typename T>
static bool owns_heap(const T & t) {
	if constexpr(std::is_same_v<T, ptl::string>) {
		const auto d = reinterpret_cast<const char *>(t.data()), o = reinterpret_cast<const char *>(&t);
		return d < o || d >= o + sizeof t;
	} else return t.capacity() > 0;
}
constexpr std::size_t pool = 4;
// P: how to build, mutate, compare and read back a T whose model is an M
template<typename T, typename M, typename P>
static void history(pbt::Src & s) {
	static_assert(std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_swappable_v<T> && std::is_nothrow_destructible_v<T>);
	alignas(T) unsigned char raw[pool][sizeof(T)];
	M m[pool];
	struct Guard { unsigned char (&raw)[pool][sizeof(T)]; std::size_t n{0}; ~Guard() { while(n) { --n; LIB(reinterpret_cast<T *>(raw[n])->~T()); } } } g{raw};
	const auto at = [&](std::size_t i) -> T & { return *std::launder(reinterpret_cast<T *>(raw[i])); };
	for(; g.n < pool; ++g.n) P::build(s, raw[g.n], m[g.n]);
	for(std::size_t i = 0; i < pool; ++i) P::same(at(i), m[i], "initially");
	bool mixed = false, reused = false, from[pool]{};
	std::size_t n = 0;
	const auto moved_from = [&](std::size_t i, bool heap, const char * what) { // the source of a move: empty if it owned storage, else any valid state
		if(heap) PBT_CHECK(at(i).empty() && at(i).size() == 0 && at(i).begin() == at(i).end(), "%s: the source still holds %zu elements", what, at(i).size());
		P::read(at(i), m[i]);
		from[i] = true;
	};
	do {
		const auto i = s.raw(pool), j = s.raw(pool);
		const bool hi = owns_heap(at(i)), hj = owns_heap(at(j));
		const auto op = s.raw(9);
		TRACE("op %d on %zu (%s, size %zu) and %zu (%s, size %zu)", static_cast<int>(op), i, hi ? "heap" : "no heap", m[i].size(), j, hj ? "heap" : "no heap", m[j].size());
		switch(op) {
			case 0: // move assignment
			case 1:
				quietly("move assignment", [&] { auto & r = at(i) = std::move(at(j)); PBT_CHECK(&r == &at(i)); });
				if(i != j) { m[i] = m[j]; from[i] = false; moved_from(j, hj, "move assignment"); }
				else s.nontrivial();
				break;
			case 2: // move construction in place of another object
				if(i == j) break;
				quietly("move construction", [&] { at(i).~T(); new(raw[i]) T(std::move(at(j))); });
				m[i] = m[j]; from[i] = false;
				moved_from(j, hj, "move construction");
				break;
			case 3:
			case 4: {
				const auto how = s.raw(3);
				quietly("swap", [&] {
					if(how == 0) at(i).swap(at(j));
					else if(how == 1) { using std::swap; swap(at(i), at(j)); }
					else std::swap(at(i), at(j));
				});
				if(how == 2 && i == j) { // moved through a temporary
					PBT_CHECK(P::equal(at(i), m[i]), "std::swap with itself changed the content");
				}
				std::swap(m[i], m[j]);
				std::swap(from[i], from[j]);
				if(i == j) s.nontrivial();
				break;
			}
			case 5: { // a cycle through a temporary
				const auto k = s.raw(pool);
				if(i == j || j == k || i == k) break;
				quietly("moves", [&] { T t{std::move(at(i))}; at(i) = std::move(at(j)); at(j) = std::move(at(k)); at(k) = std::move(t); });
				M t = m[i]; m[i] = m[j]; m[j] = m[k]; m[k] = t;
				from[i] = from[j] = from[k] = false;
				break;
			}
			case 6: { // moved into a function and thrown away
				alignas(T) unsigned char b[sizeof(T)];
				T * t = nullptr;
				quietly("move into a temporary", [&] { t = new(b) T{std::move(at(i))}; });
				const bool eq = P::equal(*t, m[i]);
				LIB(t->~T());
				PBT_CHECK(eq, "a moved string or vector differs");
				moved_from(i, hi, "move into a temporary");
				break;
			}
			default:
				if(from[i]) reused = true;
				from[i] = false;
				if(s.chance(1, 4)) {
					LIB(at(i).~T());
					--g.n; // should building throw, nothing past the last object may be destroyed
					const auto last = g.n;
					if(i != last) { { alloc::Lib l; new(raw[i]) T(std::move(at(last))); at(last).~T(); } m[i] = m[last]; from[i] = from[last]; }
					P::build(s, raw[last], m[last]);
					from[last] = false;
					++g.n;
				} else P::mutate(s, at(i), m[i], at(j == i ? (i + 1) % pool : j), m[j == i ? (i + 1) % pool : j]);
				break;
		}
		if(op < 7 && hi != hj) mixed = true;
		for(std::size_t k = 0; k < pool; ++k) P::same(at(k), m[k], k == i ? "first operand" : k == j ? "second operand" : "a bystander");
		if(s.chance(1, 6)) for(std::size_t k = 0; k < pool; ++k) for(std::size_t l = 0; l < pool; ++l) PBT_CHECK((at(k) == at(l)) == (m[k] == m[l]), "comparison of %zu and %zu", k, l);
	} while(m[0].size() + m[1].size() + m[2].size() + m[3].size() < 400000 && s.more(n, 16, 60));
	if(mixed && reused) s.nontrivial();
}
#define RULE "objects with and without heap storage were combined and a moved-from object was used again, or an object was combined with itself"
struct Str {
	static void build(pbt::Src & s, void * p, std::string & m) {
		const auto k = s.raw(4);
		std::string t;
		if(k == 0) { m.clear(); LIB(new(p) ptl::string{}); return; }
		if(k == 1) { m = gen::text(s, 22); LIB(new(p) ptl::string{std::string_view{m}}); return; }
		ptl::string v{strops::build(s, m, 100)};
		LIB(new(p) ptl::string(std::string_view{m}));
		if(k == 3) { LIB(reinterpret_cast<ptl::string *>(p)->reserve(s.len(200))); }
	}
	static void same(const ptl::string & v, const std::string & m, const char * w) { strops::same(v, m, w); }
	static bool equal(const ptl::string & v, const std::string & m) { return std::string_view{v.data(), v.size()} == m && v.c_str()[m.size()] == 0; }
	static void read(const ptl::string & v, std::string & m) { PBT_CHECK(v.size() <= v.capacity()); m.assign(v.data(), v.size()); }
	static void mutate(pbt::Src & s, ptl::string & v, std::string & m, ptl::string & o, std::string & om) { strops::op(s, v, m, o, om); }
};
template<typename E>
struct Vec {
	static void build(pbt::Src & s, void * p, std::vector<int> & m) {
		m = s.chance(1, 3) ? std::vector<int>{} : vecops::values(s, 40);
		LIB(new(p) ptl::vector<E>);
		auto & v = *reinterpret_cast<ptl::vector<E> *>(p);
		if(s.flip()) LIB(v.reserve(s.len(60)));
		for(auto x : m) { E e = vecops::Of<E>::make(x); LIB(v.push_back(std::move(e))); }
	}
	static void same(const ptl::vector<E> & v, const std::vector<int> & m, const char * w) { vecops::same(v, m, w); }
	static bool equal(const ptl::vector<E> & v, const std::vector<int> & m) {
		if(v.size() != m.size()) return false;
		for(std::size_t i = 0; i < m.size(); ++i) if(vecops::Of<E>::get(v[i]) != m[i]) return false;
		return true;
	}
	static void read(const ptl::vector<E> & v, std::vector<int> & m) {
		PBT_CHECK(v.size() <= v.capacity());
		m.clear();
		for(auto & e : v) m.push_back(vecops::Of<E>::get(e));
	}
	static void mutate(pbt::Src & s, ptl::vector<E> & v, std::vector<int> & m, ptl::vector<E> & o, std::vector<int> & om) {
		const auto p = vecops::draw(s, v.size(), v.capacity());
		if(!vecops::applicable(p, v.size())) return;
		vecops::trace(p);
		const auto got = vecops::apply(p, v, o);
		PBT_CHECK(got == vecops::model(p, m, om), "%s returned a wrong position", vecops::op_name(p.op));
		s.label(vecops::op_name(p.op));
	}
};
#if IN_PART(0)
PBT_TEST(large_strings, 800, RULE) { s.large = true; history<ptl::string, std::string, Str>(s); }
PBT_TEST(strings, 60000, RULE) { history<ptl::string, std::string, Str>(s); }
// every pair of storage states once per operation, lengths at the borders
PBT_TEST(string_pairs, 60000, "operands of different storage or length") {
	static const std::size_t lens[]{0, 1, 2, 10, 21, 22, 23, 24, 47, 48, 49, 70, 200};
	ptl::string v[2]; std::string m[2]; bool heap[2];
	for(int i = 0; i < 2; ++i) {
		m[i].resize(s.pick(lens));
		for(auto & c : m[i]) c = static_cast<char>('a' + 13 * i + s.raw(13));
		if(s.chance(1, 3)) v[i].reserve(s.pick(lens));
		v[i].append(std::string_view{m[i]});
		heap[i] = owns_heap(v[i]);
	}
	const auto op = s.raw(4);
	TRACE("%s %zu, %s %zu: op %d", heap[0] ? "heap" : "inline", m[0].size(), heap[1] ? "heap" : "inline", m[1].size(), static_cast<int>(op));
	const auto left = [&](ptl::string & x) { if(heap[1]) PBT_CHECK(x.empty() && *x.c_str() == 0, "the moved-from string is not empty"); PBT_CHECK(x.c_str()[x.size()] == 0); x = std::string_view{m[1]}; strops::same(x, m[1], "reused"); x.push_back('x'); strops::same(x, m[1] + 'x', "reused"); };
	switch(op) {
		case 0: quietly("move", [&] { v[0] = std::move(v[1]); }); strops::same(v[0], m[1], "moved"); left(v[1]); strops::same(v[0], m[1], "moved"); break;
		case 1: { alignas(ptl::string) char b[sizeof(ptl::string)]; ptl::string * p = nullptr; quietly("move", [&] { p = new(b) ptl::string{std::move(v[1])}; }); strops::same(*p, m[1], "moved"); left(v[1]); strops::same(*p, m[1], "moved"); p->~string(); break; }
		case 2: quietly("swap", [&] { v[0].swap(v[1]); }); strops::same(v[0], m[1], "swapped"); strops::same(v[1], m[0], "swapped"); break;
		default: quietly("swap", [&] { swap(v[0], v[1]); swap(v[0], v[1]); }); strops::same(v[0], m[0], "swapped twice"); strops::same(v[1], m[1], "swapped twice"); break;
	}
	if(heap[0] != heap[1] || m[0].size() != m[1].size()) s.nontrivial();
}
// both operands beyond 16-bit sizes, capacities apart from sizes
PBT_TEST(large_string_pairs, 800, "both operands beyond 65535 characters") {
	ptl::string v[2]; std::string m[2]; std::size_t cap[2];
	for(int i = 0; i < 2; ++i) {
		const std::size_t n = s.chance(1, 4) ? s.raw(70000) : 65530 + s.raw(70000);
		m[i].assign(n, static_cast<char>('a' + s.raw(13) + 13 * i));
		for(std::size_t k = s.raw(5); n && k; --k) m[i][s.raw(n)] = static_cast<char>('A' + s.raw(26));
		if(s.chance(1, 2)) v[i].reserve(n + s.raw(40000));
		v[i].append(std::string_view{m[i]});
		cap[i] = v[i].capacity();
	}
	const auto op = s.raw(5);
	TRACE("%zu of %zu, %zu of %zu: op %d", m[0].size(), cap[0], m[1].size(), cap[1], static_cast<int>(op));
	switch(op) {
		case 0: quietly("swap", [&] { v[0].swap(v[1]); }); break;
		case 1: quietly("swap", [&] { swap(v[0], v[1]); }); break;
		case 2: quietly("swap", [&] { std::swap(v[0], v[1]); }); break;
		case 3: quietly("moves", [&] { ptl::string t{std::move(v[0])}; v[0] = std::move(v[1]); v[1] = std::move(t); }); break;
		default: quietly("move", [&] { v[0] = std::move(v[1]); }); PBT_CHECK(v[1].empty(), "the moved-from string is not empty"); m[0].swap(m[1]); m[1].clear(); break;
	}
	if(op != 4) m[0].swap(m[1]);
	for(int i = 0; i < 2; ++i) {
		strops::same(v[i], m[i], "moved");
		const auto more = std::min<std::size_t>(v[i].capacity() - v[i].size(), 50000) + s.raw(2);
		LIB(v[i].append(more, 'z')); m[i].append(more, 'z'); // fills what the capacity promises
		strops::same(v[i], m[i], "filled up");
	}
	if(m[0].size() > 65535 && m[1].size() > 65535) s.nontrivial();
}
#endif
#if IN_PART(1)
template<typename E>
static void large_pair(pbt::Src & s, std::size_t base, std::size_t spread) {
	ptl::vector<E> v[2]; std::vector<int> m[2]; std::size_t cap[2];
	for(int i = 0; i < 2; ++i) {
		const std::size_t n = s.chance(1, 4) ? s.raw(base) : base + s.raw(spread);
		const auto x = static_cast<int>(s.raw(50));
		if(s.flip()) LIB(v[i].reserve(n + s.raw(spread)));
		m[i].resize(n);
		for(std::size_t k = 0; k < n; ++k) m[i][k] = static_cast<int>((x + k * 7) % 101);
		{ alloc::Lib l; for(auto e : m[i]) v[i].push_back(vecops::Of<E>::make(e)); }
		cap[i] = v[i].capacity();
	}
	const auto op = s.raw(5);
	TRACE("%zu of %zu, %zu of %zu: op %d", m[0].size(), cap[0], m[1].size(), cap[1], static_cast<int>(op));
	switch(op) {
		case 0: quietly("swap", [&] { v[0].swap(v[1]); }); break;
		case 1: quietly("swap", [&] { swap(v[0], v[1]); }); break;
		case 2: quietly("swap", [&] { std::swap(v[0], v[1]); }); break;
		case 3: quietly("moves", [&] { ptl::vector<E> t{std::move(v[0])}; v[0] = std::move(v[1]); v[1] = std::move(t); }); break;
		default: quietly("move", [&] { v[0] = std::move(v[1]); }); PBT_CHECK(v[1].empty(), "the moved-from vector is not empty"); m[0].swap(m[1]); m[1].clear(); break;
	}
	if(op != 4) m[0].swap(m[1]);
	for(int i = 0; i < 2; ++i) {
		vecops::same(v[i], m[i], "moved");
		const auto more = std::min<std::size_t>(v[i].capacity() - v[i].size(), 50000) + s.raw(2);
		{ alloc::Lib l; for(std::size_t k = 0; k < more; ++k) v[i].push_back(vecops::Of<E>::make(7)); }
		m[i].insert(m[i].end(), more, 7);
		vecops::same(v[i], m[i], "filled up");
	}
	if(m[0].size() >= base && m[1].size() >= base) s.nontrivial();
}
PBT_TEST(large_int_pairs, 300, "both operands beyond 65535 elements") { large_pair<int>(s, 65530, 40000); }
PBT_TEST(large_tracked_pairs, 100, "both operands beyond 5000 elements") { large_pair<life::Elem<0>>(s, 5000, 5000); }
PBT_TEST(large_ints, 500, RULE) { s.large = true; history<ptl::vector<int>, std::vector<int>, Vec<int>>(s); }
PBT_TEST(ints, 30000, RULE) { history<ptl::vector<int>, std::vector<int>, Vec<int>>(s); }
PBT_TEST(tracked, 30000, RULE) { history<ptl::vector<life::Elem<0>>, std::vector<int>, Vec<life::Elem<0>>>(s); }
#endif
#if IN_PART(2)
PBT_TEST(over_aligned, 15000, RULE) { history<ptl::vector<life::Elem<1, 64>>, std::vector<int>, Vec<life::Elem<1, 64>>>(s); }
PBT_TEST(vector_of_strings, 15000, RULE) { history<ptl::vector<ptl::string>, std::vector<int>, Vec<ptl::string>>(s); }
#endif
