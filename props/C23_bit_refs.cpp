// PARTS 3
#include <ptl/bitset.hpp>
#include <array>
#include <bitset>
#include <tuple>
#include "common.hpp"

struct Tag;
template<std::size_t N, typename T>
static void same(const ptl::bitset<N, T> & v, const std::bitset<N> & m, const char * where) {
	for(std::size_t i = 0; i < N; ++i) PBT_CHECK(v[i] == m[i], "%s: bit %zu of %zu is %d; expected %s", where, i, N, static_cast<int>(v[i]), m.to_string().c_str());
	PBT_CHECK(v.count() == m.count() && v.none() == m.none(), "%s: count %zu, expected %s", where, v.count(), m.to_string().c_str());
	ptl::bitset<N, T> r; // unused bits of the storage must not have been touched either
	for(std::size_t i = 0; i < N; ++i) if(m[i]) r.set(i);
	PBT_CHECK(v == r, "%s: differs from the same bits built one by one: %s", where, m.to_string().c_str());
}
template<std::size_t N, std::size_t... I, typename T>
static void by_get(const ptl::bitset<N, T> & v, const std::bitset<N> & m, std::index_sequence<I...>) {
	using std::get;
	const std::array<bool, N> r{get<I>(v)...};
	for(std::size_t i = 0; i < N; ++i) PBT_CHECK(r[i] == m[i], "get<%zu> of %s", i, m.to_string().c_str());
	static_assert(std::tuple_size_v<ptl::bitset<N, T>> == N);
	if constexpr(N < 80) static_assert((std::is_same_v<std::tuple_element_t<I, ptl::bitset<N, T>>, bool> && ...));
}
template<std::size_t N, typename T>
static void bindings(ptl::bitset<N, T> & v, const std::bitset<N> & m) {
	by_get(v, m, std::make_index_sequence<N>{});
	const auto & c = v;
#define BOUND(...) const bool r[]{__VA_ARGS__}; for(std::size_t i = 0; i < N; ++i) PBT_CHECK(r[i] == m[i], "binding %zu of %s", i, m.to_string().c_str())
	if constexpr(N == 1) { { const auto [a] = v; BOUND(a); } { const auto & [a] = c; BOUND(a); } }
	else if constexpr(N == 2) { { auto [a, b] = v; BOUND(a, b); } { const auto & [a, b] = c; BOUND(a, b); } { auto && [a, b] = v; BOUND(a, b); } }
	else if constexpr(N == 3) { { auto [a, b, d] = v; BOUND(a, b, d); } { auto && [a, b, d] = ptl::bitset<N, T>{v}; BOUND(a, b, d); } }
	else if constexpr(N == 7) { auto [a, b, d, e, f, g, h] = v; BOUND(a, b, d, e, f, g, h); }
	else if constexpr(N == 8) { const auto [a, b, d, e, f, g, h, i_] = v; BOUND(a, b, d, e, f, g, h, i_); }
	else if constexpr(N == 9) { auto [a, b, d, e, f, g, h, i_, j] = v; BOUND(a, b, d, e, f, g, h, i_, j); }
	else if constexpr(N == 17) { auto [a, b, d, e, f, g, h, i_, j, k, l, n, o, p, q, t, u] = c; BOUND(a, b, d, e, f, g, h, i_, j, k, l, n, o, p, q, t, u); }
}
template<typename F>
static bool throws(F f) {
	try { f(); } catch(const std::out_of_range &) { return true; }
	return false;
}
template<std::size_t N, typename T = void>
static void history(pbt::Src & s) {
	using B = std::conditional_t<std::is_void_v<T>, ptl::bitset<N>, ptl::bitset<N, Tag>>;
	B v[3];
	std::bitset<N> m[3];
	for(int i = 0; i < 3; ++i) for(auto k = N ? s.raw(N < 12 ? N + 1 : 12) : 0; k; --k) { const auto x = s.raw(N); v[i].flip(x); m[i].flip(x); }
	std::size_t n = 0;
	do {
		const auto i = s.raw(3), j = s.raw(3);
		const auto a = N ? s.raw(N) : 0, b = N ? s.raw(N) : 0;
		const auto op = s.raw(24);
		const bool x = s.flip();
		TRACE("bitset<%zu>: op %d on %d[%d], %d[%d], %d", N, static_cast<int>(op), static_cast<int>(i), static_cast<int>(a), static_cast<int>(j), static_cast<int>(b), x);
		const auto & c = v[i];
		if(op >= 21 || N == 0) { // indexes at or beyond the size
			std::size_t k = N;
			switch(s.raw(6)) {
				case 0: k = N; break;
				case 1: k = N + s.raw(16); break;
				case 2: k = (N + 7) / 8 * 8 + s.raw(3); break;
				case 3: k = ~std::size_t{0} - s.raw(9); break;
				case 4: k = std::size_t{1} << (32 + s.raw(32)); if(N) k += s.raw(N); break;
				default: k = s.raw(0); if(k < N) k = ~k; break;
			}
			TRACE("  index %zu", k);
			PBT_CHECK(throws([&] { v[i].set(k); }), "set(%zu) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { v[i].set(k, x); }), "set(%zu, ..) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { v[i].reset(k); }), "reset(%zu) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { v[i].flip(k); }), "flip(%zu) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { (void)c.test(k); }), "test(%zu) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { (void)c.at(k); }), "const at(%zu) of %zu does not throw", k, N);
			PBT_CHECK(throws([&] { v[i].at(k) = x; }), "at(%zu) of %zu does not throw", k, N);
			s.nontrivial();
		} else if constexpr(N != 0) {
			PBT_CHECK(c[a] == m[i][a] && c.at(a) == m[i][a] && c.test(a) == m[i][a] && static_cast<bool>(v[i][a]) == m[i][a] && static_cast<bool>(v[i].at(a)) == m[i][a], "reading bit %d", static_cast<int>(a));
			static_assert(std::is_same_v<decltype(~v[i][a]), bool>);
			PBT_CHECK(~v[i][a] == !m[i][a]);
			if(i != j || a != b) s.nontrivial();
			switch(op) {
				case 0: v[i][a] = x; m[i][a] = x; break;
				case 1: case 2: case 3: v[i][a] = v[j][b]; m[i][a] = static_cast<bool>(m[j][b]); break;
				case 4: { auto r = v[i][a]; const auto q = v[j][b]; auto & back = r = q; PBT_CHECK(&back == &r); m[i][a] = static_cast<bool>(m[j][b]); break; }
				case 5: { auto r = v[i].at(a); auto & back = r.flip(); PBT_CHECK(&back == &r); m[i].flip(a); break; }
				case 6: v[i][a].flip(); m[i].flip(a); break;
				case 7: v[i][a].flip().flip().flip(); m[i].flip(a); break;
				case 8: { auto r = v[i][a]; auto q = v[j][b]; r.swap(q); const bool t = m[i][a]; m[i][a] = static_cast<bool>(m[j][b]); m[j][b] = t; PBT_CHECK(static_cast<bool>(r) == m[i][a] && static_cast<bool>(q) == m[j][b]); break; }
				case 9: { auto r = v[i][a]; auto q = v[j][b]; swap(r, q); const bool t = m[i][a]; m[i][a] = static_cast<bool>(m[j][b]); m[j][b] = t; PBT_CHECK(static_cast<bool>(r) == m[i][a] && static_cast<bool>(q) == m[j][b]); break; }
				case 10: { swap(v[i][a], v[j].at(b)); const bool t = m[i][a]; m[i][a] = static_cast<bool>(m[j][b]); m[j][b] = t; break; }
				case 11: { const auto r = v[i][a]; auto copy{r}; copy = x; m[i][a] = x; PBT_CHECK(static_cast<bool>(r) == x, "a copied reference designates another bit"); break; }
				case 12: { auto r = v[i][a]; auto copy = r; copy = v[j][b]; m[i][a] = static_cast<bool>(m[j][b]); PBT_CHECK(static_cast<bool>(r) == m[i][a]); r = !x; m[i][a] = !x; PBT_CHECK(static_cast<bool>(copy) == !x, "assigning rebound a reference"); break; }
				case 13: PBT_CHECK(&v[i].set(a) == &v[i]); m[i].set(a); break;
				case 14: PBT_CHECK(&v[i].set(a, x) == &v[i]); m[i].set(a, x); break;
				case 15: PBT_CHECK(&v[i].reset(a) == &v[i]); m[i].reset(a); break;
				case 16: PBT_CHECK(&v[i].flip(a) == &v[i]); m[i].flip(a); break;
				case 17: { const auto r = v[i][a]; const bool snapshot = c[a]; v[i].flip(); m[i].flip(); PBT_CHECK(static_cast<bool>(r) == m[i][a] && snapshot != m[i][a]); break; } // references follow the object
				case 18: { auto r = v[i][a]; v[i] = v[j]; m[i] = m[j]; PBT_CHECK(static_cast<bool>(r) == m[i][a]); r = x; m[i][a] = x; break; }
				case 19: (v[i][a] = v[j][b]) = x; m[i][a] = x; break;
				default: v[i].at(a) = ~v[j][b]; m[i][a] = !m[j][b]; break;
			}
		}
		for(int z = 0; z < 3; ++z) same(v[z], m[z], z == static_cast<int>(i) ? "the designated bitset" : "another bitset");
		if constexpr(N < 300) bindings(v[i], m[i]);
	} while(s.more(n, 10, 30));
}
template<std::size_t... N>
static void any_of(pbt::Src & s, std::index_sequence<N...>) {
	static void (* const f[])(pbt::Src &){history<N>...};
	s.pick(f)(s);
}
#if IN_PART(0)
PBT_TEST(small, 50000, "two different bits, or an index beyond the size") { any_of(s, std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>{}); }
#endif
#if IN_PART(1)
PBT_TEST(medium, 30000, "two different bits, or an index beyond the size") { any_of(s, std::index_sequence<10, 15, 16, 17, 23, 24, 25, 31, 32, 33>{}); }
PBT_TEST(tagged, 15000, "two different bits, or an index beyond the size") { if(s.flip()) history<3, int>(s); else history<17, int>(s); }
#endif
#if IN_PART(2)
PBT_TEST(large, 10000, "two different bits, or an index beyond the size") { any_of(s, std::index_sequence<47, 63, 64, 65, 72, 100, 127, 128, 129, 256, 261>{}); }
PBT_TEST(huge, 300, "two different bits, or an index beyond the size") { any_of(s, std::index_sequence<1000, 4097>{}); }
PBT_TEST(beyond_16_bits, 30, "two different bits, or an index beyond the size") { any_of(s, std::index_sequence<65536, 70001>{}); }
#endif
