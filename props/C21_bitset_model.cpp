// PARTS 4
#include <ptl/bitset.hpp>
#include <bitset>
#include <memory>
#include <unordered_set>
#include <utility>
#include "common.hpp"

struct Flag; // a tag with operator bool
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<Flag>{true}; }

template<std::size_t N>
static std::string text(const std::bitset<N> & b) { return b.to_string(); }
template<std::size_t N, typename Tag>
static void same(const ptl::bitset<N, Tag> & v, const std::bitset<N> & m, const char * where) {
	for(std::size_t i = 0; i < N; ++i) PBT_CHECK(v[i] == m[i], "%s: bit %zu of %zu is %d; expected %s", where, i, N, static_cast<int>(v[i]), text(m).c_str());
	PBT_CHECK(v.count() == m.count(), "%s: count %zu, expected %zu in %s", where, v.count(), m.count(), text(m).c_str());
	PBT_CHECK(v.all() == m.all() && v.any() == m.any() && v.none() == m.none(), "%s: all %d any %d none %d for %s", where, v.all(), v.any(), v.none(), text(m).c_str());
	PBT_CHECK(v.size() == N && v.max_size() == N && v.empty() == (N == 0));
}
// fills by single bits: the canonical way to a given value
template<typename B, std::size_t N>
static B rebuilt(const std::bitset<N> & m) {
	B r;
	for(std::size_t i = 0; i < N; ++i) if(m[i]) r.set(i);
	return r;
}
template<std::size_t N, typename Tag = struct default_tag>
static void history(pbt::Src & s) {
	using B = std::conditional_t<std::is_same_v<Tag, Flag>, ptl::bitset<N, Flag>, ptl::bitset<N>>;
	B v[2];
	std::bitset<N> m[2];
	std::size_t n = 0;
	const auto word = [&]() -> std::size_t { switch(s.raw(4)) { case 0: return s.raw(256); case 1: return ~std::size_t{0}; case 2: return ~s.raw(256); default: return s.raw(0); } };
	const auto shift = [&]() -> std::size_t {
		switch(s.raw(6)) {
			case 0: return s.raw(10);
			case 1: return s.raw(N + 2);
			case 2: return 8 * s.raw(N / 8 + 2);
			case 3: return N + s.raw(3) - 1 < N + 3 ? N + s.raw(3) : 0;
			case 4: { static const std::size_t big[]{~std::size_t{0}, ~std::size_t{0} - 1, std::size_t{1} << 63, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, 65536, 256, 512, 4294967295u, (std::size_t{1} << 63) + 8}; return s.pick(big); }
			default: return s.raw(0);
		}
	};
	do {
		const auto i = s.raw(2);
		auto & a = v[i]; auto & p = m[i];
		const auto & b = v[1 - i]; const auto & q = m[1 - i];
		const auto op = s.raw(27);
		const auto k = N ? s.raw(N) : 0;
		TRACE("bitset<%zu> %zu op %d bit %zu, value %s", N, static_cast<std::size_t>(i), static_cast<int>(op), static_cast<std::size_t>(k), text(p).c_str());
		const auto back = [&](const B & r) { PBT_CHECK(&r == &a, "the operation does not return the object"); };
		switch(op) {
			case 0: back(a.set()); p.set(); break;
			case 1: back(a.reset()); p.reset(); break;
			case 2: back(a.flip()); p.flip(); break;
			case 3: if(N) { back(a.set(k)); p.set(k); } break;
			case 4: if(N) { const bool x = s.flip(); back(a.set(k, x)); p.set(k, x); } break;
			case 5: if(N) { back(a.reset(k)); p.reset(k); } break;
			case 6: if(N) { back(a.flip(k)); p.flip(k); } break;
			case 7: back(a &= b); p &= q; break;
			case 8: back(a |= b); p |= q; break;
			case 9: back(a ^= b); p ^= q; break;
			case 10: same(a & b, p & q, "&"); break;
			case 11: same(a | b, p | q, "|"); break;
			case 12: same(a ^ b, p ^ q, "^"); break;
			case 13: same(~a, ~p, "~"); a = ~a; p = ~p; break;
			case 14: case 15: { const auto c = shift(); TRACE("  <<= %zu", c); back(a <<= c); if(c < N) p <<= c; else p.reset(); break; }
			case 16: case 17: { const auto c = shift(); TRACE("  >>= %zu", c); back(a >>= c); if(c < N) p >>= c; else p.reset(); break; }
			case 18: { const auto c = shift(); TRACE("  << >> %zu", c); same(a << c, c < N ? p << c : std::bitset<N>{}, "<<"); same(a >> c, c < N ? p >> c : std::bitset<N>{}, ">>"); break; }
			case 19: case 20: { const auto w = word(); TRACE("  from %zx", w); a = B{w}; p = std::bitset<N>{w}; break; }
			case 21: a.swap(v[1 - i]); std::swap(m[0], m[1]); break;
			case 22: swap(v[0], v[1]); std::swap(m[0], m[1]); break;
			case 23: a = b; p = q; break;
			case 24: back(a &= a); back(a |= a); if(s.flip()) { back(a ^= a); p.reset(); } break;
			case 25: { auto h = s.raw(0); for(std::size_t c = 0; c < N; ++c) { const bool x = (h = h * 6364136223846793005ull + 1442695040888963407ull) >> 63; a.set(c, x); p.set(c, x); } break; }
			default: if(N) for(std::size_t c = 0; c < 20; ++c) { const auto x = s.raw(N); a.flip(x); p.flip(x); } break;
		}
		for(int z = 0; z < 2; ++z) {
			same(v[z], m[z], "after an operation");
			PBT_CHECK(N == 0 || v[z].test(k) == m[z].test(k));
			if constexpr(std::is_same_v<Tag, Flag>) PBT_CHECK(static_cast<bool>(v[z]) == m[z].any());
			const auto r = rebuilt<B>(m[z]);
			PBT_CHECK(v[z] == r && !(v[z] != r), "a bitset differs from one built bit by bit: %s", text(m[z]).c_str());
			PBT_CHECK(std::hash<B>{}(v[z]) == std::hash<B>{}(r), "equal bitsets hash differently: %s", text(m[z]).c_str());
		}
		PBT_CHECK((v[0] == v[1]) == (m[0] == m[1]) && (v[0] != v[1]) == (m[0] != m[1]), "comparison of %s and %s", text(m[0]).c_str(), text(m[1]).c_str());
		if(N > 8 && p.any() && !p.all()) s.nontrivial();
	} while(s.more(n, 8, 20));
}
static_assert(!std::is_constructible_v<bool, ptl::bitset<8>> && std::is_constructible_v<bool, ptl::bitset<8, Flag>>);
template<std::size_t... N>
static void any_of(pbt::Src & s, std::index_sequence<N...>) {
	static void (* const f[])(pbt::Src &){history<N>...};
	s.pick(f)(s);
}
#if IN_PART(0)
PBT_TEST(small, 120000, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>{}); }
#endif
#if IN_PART(1)
PBT_TEST(words, 100000, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33>{}); }
#endif
#if IN_PART(2)
PBT_TEST(medium, 80000, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<40, 47, 55, 56, 61, 62, 63, 64, 65, 66, 71, 72, 73>{}); }
#endif
#if IN_PART(3)
PBT_TEST(large, 30000, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<100, 127, 128, 129, 200, 256, 261, 300>{}); }
PBT_TEST(huge, 1000, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<1000, 2047, 2048, 2056, 4096, 4099>{}); }
PBT_TEST(beyond_16_bits, 40, "a mixed pattern in more than one byte") { any_of(s, std::index_sequence<65536, 65543>{}); }
// single bits around the powers of two of large bitsets
template<std::size_t N>
static void sparse(pbt::Src & s) {
	const auto v = std::make_unique<ptl::bitset<N>>();
	const auto m = std::make_unique<std::bitset<N>>();
	std::size_t n = 0, last = 0;
	bool high = false;
	do {
		std::size_t k;
		do k = s.flip() ? s.raw(N) : (std::size_t{1} << (4 + s.raw(14))) - 4 + s.raw(8); while(k >= N);
		const auto op = s.raw(8);
		TRACE("bitset<%zu> op %d bit %zu", N, static_cast<int>(op), k);
		switch(op) {
			case 0: v->set(k); m->set(k); break;
			case 1: v->reset(k); m->reset(k); break;
			case 2: v->flip(k); m->flip(k); break;
			case 3: (*v)[k] = true; (*m)[k] = true; break;
			case 4: (*v)[k].flip(); (*m)[k].flip(); break;
			case 5: { (*v)[k] = (*v)[last]; const bool b = (*m)[last]; (*m)[k] = b; break; }
			case 6: { swap((*v)[k], (*v)[last]); const bool a = (*m)[k], b = (*m)[last]; (*m)[k] = b; (*m)[last] = a; break; }
			default: { const bool x = s.flip(); v->set(k, x); m->set(k, x); break; }
		}
		PBT_CHECK(std::as_const(*v)[k] == (*m)[k] && v->test(k) == (*m)[k] && (*v)[k] == (*m)[k], "bit %zu", k);
		PBT_CHECK(v->count() == m->count() && v->any() == m->any() && v->none() == m->none(), "count %zu, expected %zu", v->count(), m->count());
		if(k > 65535) high = true;
		last = k;
	} while(s.more(n, 12, 40));
	for(std::size_t k = 0; k < N; ++k) PBT_CHECK(std::as_const(*v)[k] == (*m)[k], "bit %zu at the end", k);
	if(high) s.nontrivial();
}
PBT_TEST(sparse_large, 250, "a bit behind the 65535th was changed") { if(s.flip()) sparse<140003>(s); else sparse<70000>(s); }
PBT_TEST(tagged, 30000, "a mixed pattern in more than one byte") { if(s.flip()) history<13, Flag>(s); else history<64, Flag>(s); }
#endif
