// PARTS 4
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <algorithm>
#include <cstring>
#include <iterator>
#include <memory>
#include <vector>
#include "common.hpp"

struct Rec { int v; int pad[2]; friend bool operator==(const Rec & a, const Rec & b) { return a.v == b.v; } friend bool operator<(const Rec & a, const Rec & b) { return a.v < b.v; } };
static int code(const Rec & r) { return r.v; }
template<typename T> static int code(const T & t) { return static_cast<int>(t); }
template<typename E> static E make(int v) { if constexpr(std::is_same_v<E, Rec>) return Rec{v, {v, v}}; else return static_cast<E>(v); }
using diff = std::ptrdiff_t;

// element i of the enumeration lies at base + i, or for reverse enumerations at base + n - 1 - i
template<typename E>
struct Seq {
	E * base;
	diff n;
	bool reverse;
	E * at(diff i) const { return reverse ? base + (n - 1 - i) : base + i; }
};
template<typename It, typename E>
static void walk(pbt::Src & s, const Seq<E> & q, It first, It last, std::vector<int> & shadow) {
	constexpr bool writes = !std::is_const_v<std::remove_reference_t<typename std::iterator_traits<It>::reference>>;
	using T = std::iterator_traits<It>;
	static_assert(std::is_same_v<typename T::value_type, std::remove_const_t<E>> && std::is_same_v<typename T::difference_type, diff> && std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>);
	static_assert(std::is_same_v<decltype(*first), typename T::reference> && std::is_same_v<decltype(first[0]), typename T::reference> && std::is_same_v<decltype(++first), It &> && std::is_same_v<decltype(first++), It> && std::is_same_v<decltype(first += 1), It &>);
	static_assert(std::is_same_v<decltype(first - last), diff>);
#if __cplusplus >= 202002L
	static_assert(std::random_access_iterator<It> && std::sentinel_for<It, It>);
#endif
	const diff n = q.n;
	PBT_CHECK(last - first == n && first + n == last && n + first == last && last - n == first && std::distance(first, last) == n && (first == last) == (n == 0));
	diff c = 0;
	for(auto it = first; it != last; ++it, ++c) PBT_CHECK(c < n && std::addressof(*it) == q.at(c), "enumeration reaches another element at %td", c);
	PBT_CHECK(c == n, "%td elements enumerated of %td", c, n);
	for(auto it = last; it != first;) { --it; --c; PBT_CHECK(c >= 0 && std::addressof(*it) == q.at(c)); }
	It it[2]{first, last};
	diff p[2]{0, n};
	std::size_t k = 0;
	while(s.more(k, 12, 40)) {
		const auto i = s.raw(2);
		It & x = it[i]; diff & a = p[i];
		const It & y = it[1 - i]; const diff b = p[1 - i];
		const auto target = static_cast<diff>(s.raw(static_cast<std::uint64_t>(n) + 1));
		const diff d = target - a;
		const auto op = s.raw(20);
		TRACE("%s iterator at %td (other at %td) of %td: op %d to %td", q.reverse ? "reverse" : "forward", a, b, n, static_cast<int>(op), target);
		switch(op) {
			case 0: if(a < n) { It & r = ++x; ++a; PBT_CHECK(std::addressof(r) == std::addressof(x)); } break;
			case 1: if(a < n) { const It r = x++; PBT_CHECK(r - first == a, "post-increment yields another position"); ++a; } break;
			case 2: if(a > 0) { It & r = --x; --a; PBT_CHECK(std::addressof(r) == std::addressof(x)); } break;
			case 3: if(a > 0) { const It r = x--; PBT_CHECK(r - first == a, "post-decrement yields another position"); --a; } break;
			case 4: { It & r = x += d; PBT_CHECK(std::addressof(r) == std::addressof(x)); a = target; break; }
			case 5: { It & r = x -= -d; PBT_CHECK(std::addressof(r) == std::addressof(x)); a = target; break; }
			case 6: { const It o = x; x = o + d; PBT_CHECK(o - first == a, "+ modified its operand"); a = target; break; }
			case 7: { const It o = x; x = d + o; a = target; break; }
			case 8: { const It o = x; x = o - -d; PBT_CHECK(o - first == a, "- modified its operand"); a = target; break; }
			case 9: x = y; a = b; break;
			case 10: { It r{y}; x = std::move(r); a = b; break; }
			case 11: { It r = x; std::advance(r, d); PBT_CHECK(r - first == target && std::next(x, d) == r && std::prev(r, d) == x); x = r; a = target; break; }
			case 12: { using std::swap; swap(it[0], it[1]); swap(p[0], p[1]); break; }
			case 13: { It r; r = x; PBT_CHECK(r == x); It v{}, w{}; PBT_CHECK(v == w && !(v < w)); break; }
			case 14: case 15: case 16: if constexpr(writes) if(n) {
				const auto e = static_cast<diff>(s.raw(static_cast<std::uint64_t>(n)));
				const int v = static_cast<int>(s.raw(100));
				if(op == 14) x[e - a] = make<std::remove_const_t<E>>(v);
				else if(op == 15) *(x + (e - a)) = make<std::remove_const_t<E>>(v);
				else *(first + e).operator->() = make<std::remove_const_t<E>>(v);
				shadow[static_cast<std::size_t>(q.at(e) - q.base)] = v;
				s.nontrivial();
			} break;
			case 17: if constexpr(writes) { // algorithms
				const auto lo = a < b ? a : b, hi = a < b ? b : a;
				const auto lit = a < b ? x : y, hit = a < b ? y : x;
				std::vector<int> m;
				for(diff e = lo; e < hi; ++e) m.push_back(shadow[static_cast<std::size_t>(q.at(e) - q.base)]);
				switch(s.raw(3)) { case 0: std::sort(lit, hit); std::sort(m.begin(), m.end()); break; case 1: std::reverse(lit, hit); std::reverse(m.begin(), m.end()); break; default: if(hi > lo) { std::rotate(lit, lit + 1, hit); std::rotate(m.begin(), m.begin() + 1, m.end()); } }
				for(diff e = lo; e < hi; ++e) shadow[static_cast<std::size_t>(q.at(e) - q.base)] = m[static_cast<std::size_t>(e - lo)];
			} break;
			default: for(diff e = 0; e < n; ++e) PBT_CHECK(std::addressof(x[e - a]) == q.at(e), "index %td of position %td reaches another element", e - a, a); break;
		}
		PBT_CHECK(it[0] - first == p[0] && it[1] - first == p[1] && last - x == n - a, "position %td and %td, expected %td and %td", it[0] - first, it[1] - first, p[0], p[1]);
		if(a < n) {
			PBT_CHECK(std::addressof(*x) == q.at(a), "position %td designates another element", a);
			PBT_CHECK(x.operator->() == q.at(a), "-> of position %td designates another element", a);
		}
		const It & cx = x;
		const diff e = p[1 - i];
		PBT_CHECK(cx - y == a - e && y - cx == e - a, "difference %td, expected %td", cx - y, a - e);
		PBT_CHECK((cx == y) == (a == e) && (cx != y) == (a != e) && (cx < y) == (a < e) && (cx <= y) == (a <= e) && (cx > y) == (a > e) && (cx >= y) == (a >= e), "comparison of positions %td and %td", a, e);
		if(n > 2 && a != e) s.nontrivial();
	}
	for(diff e = 0; e < n; ++e) PBT_CHECK(code(q.base[e]) == shadow[static_cast<std::size_t>(e)], "element %td changed", e);
}

template<typename M, typename C, typename E>
static void mixed(pbt::Src & s, M first, C cfirst, const Seq<E> & q) { // mutable and constant iterators together
	static_assert(std::is_convertible_v<M, C> && (std::is_same_v<M, C> || !std::is_convertible_v<C, M>));
	static_assert(std::is_const_v<std::remove_reference_t<decltype(*cfirst)>>);
	const auto a = static_cast<diff>(s.raw(static_cast<std::uint64_t>(q.n) + 1)), b = static_cast<diff>(s.raw(static_cast<std::uint64_t>(q.n) + 1));
	const M m = first + a;
	const C c = cfirst + b;
	C conv = m;
	PBT_CHECK(conv - cfirst == a, "conversion to a constant iterator moves from %td to %td", a, conv - cfirst);
	conv = first;
	PBT_CHECK(conv == cfirst);
	if(a < q.n) PBT_CHECK(std::addressof(*C{m}) == q.at(a));
	PBT_CHECK((m == c) == (a == b) && (c == m) == (a == b) && (m != c) == (a != b) && (m < c) == (a < b) && (c < m) == (b < a) && (m <= c) == (a <= b) && (m > c) == (a > b) && (m >= c) == (a >= b) && (c >= m) == (b >= a), "mixed comparison of %td and %td", a, b);
	PBT_CHECK(m - c == a - b && c - m == b - a, "mixed difference");
}
template<typename Container, typename E>
static void container(pbt::Src & s, Container & c, E * base, std::size_t size) {
	const Container & k = c;
	const Seq<E> f{base, static_cast<diff>(size), false}, r{base, static_cast<diff>(size), true};
	const Seq<const E> cf{base, static_cast<diff>(size), false}, cr{base, static_cast<diff>(size), true};
	std::vector<int> shadow;
	for(std::size_t i = 0; i < size; ++i) shadow.push_back(code(base[i]));
	static_assert(std::is_same_v<decltype(c.begin()), typename Container::iterator> && std::is_same_v<decltype(k.begin()), typename Container::const_iterator> && std::is_same_v<decltype(c.cend()), typename Container::const_iterator>);
	static_assert(std::is_same_v<decltype(c.rbegin()), typename Container::reverse_iterator> && std::is_same_v<decltype(k.rend()), typename Container::const_reverse_iterator> && std::is_same_v<decltype(c.crbegin()), typename Container::const_reverse_iterator>);
	PBT_CHECK(c.cbegin() == k.begin() && c.cend() == k.end() && c.crbegin() == k.rbegin() && c.crend() == k.rend());
	std::size_t n = 0;
	do {
		const auto kind = s.raw(6);
		switch(kind) {
			case 0: walk(s, f, c.begin(), c.end(), shadow); break;
			case 1: walk(s, cf, k.begin(), k.end(), shadow); break;
			case 2: walk(s, r, c.rbegin(), c.rend(), shadow); break;
			case 3: walk(s, cr, k.rbegin(), k.rend(), shadow); break;
			case 4: walk(s, cf, c.cbegin(), c.cend(), shadow); break;
			default: walk(s, cr, c.crbegin(), c.crend(), shadow); break;
		}
		mixed(s, c.begin(), k.begin(), cf);
		PBT_CHECK(c.rbegin().base() == c.end() && c.rend().base() == c.begin() && k.rbegin().base() == k.end() && c.crend().base() == c.cbegin());
		if(size) PBT_CHECK(std::addressof(*c.rbegin()) == base + size - 1 && std::addressof(*(c.rend() - 1)) == base);
	} while(s.more(n, 1, 4));
}
static std::size_t small(pbt::Src & s) { return s.flip() ? s.raw(6) : s.raw(50); }
template<typename E, std::size_t N>
static void arrays(pbt::Src & s) {
	ptl::array<E, N> a;
	for(std::size_t i = 0; i < N; ++i) a[i] = make<E>(static_cast<int>(s.raw(100)));
	E * p = a.data();
	if constexpr(N == 0) p = nullptr;
	container(s, a, p, N);
}
template<typename E>
static void vectors(pbt::Src & s) {
	const auto n = small(s);
	ptl::vector<E> v;
	if(s.flip()) v.reserve(n + s.raw(20));
	for(std::size_t i = 0; i < n; ++i) v.push_back(make<E>(static_cast<int>(s.raw(100))));
	container(s, v, v.data(), n);
}
template<typename E, bool C>
static void refs(pbt::Src & s) {
	const auto n = small(s);
	std::vector<E> v;
	for(std::size_t i = 0; i < n; ++i) v.push_back(make<E>(static_cast<int>(s.raw(100))));
	const auto lo = s.raw(n + 1), len = s.raw(n - lo + 1);
	ptl::array_ref<std::conditional_t<C, const E, E>> r{v.data() + lo, v.data() + lo + len};
	if constexpr(C) { // both kinds of iterators are constant
		const Seq<const E> f{r.data(), static_cast<diff>(len), false}, b{r.data(), static_cast<diff>(len), true};
		std::vector<int> shadow;
		for(std::size_t i = 0; i < len; ++i) shadow.push_back(code(v[lo + i]));
		const auto & k = r;
		switch(s.raw(4)) {
			case 0: walk(s, f, r.begin(), r.end(), shadow); break;
			case 1: walk(s, b, k.rbegin(), k.rend(), shadow); break;
			case 2: walk(s, f, k.begin(), k.end(), shadow); break;
			default: walk(s, b, r.rbegin(), r.rend(), shadow); break;
		}
		mixed(s, r.begin(), r.cbegin(), f);
	} else container(s, r, r.data(), len);
}
static const char rule[] = "two different positions among more than two elements, or a write";
#if IN_PART(0)
PBT_TEST(string, 12000, rule) {
	const auto t = gen::text(s, 60);
	ptl::string c{t.begin(), t.end()};
	if(s.flip()) c.reserve(c.size() + s.raw(40));
	container(s, c, c.data(), t.size());
}
PBT_TEST(string_ref, 8000, rule) {
	const auto t = gen::text(s, 60);
	const ptl::string_ref c{t.data(), t.size()};
	ptl::string_ref d{c};
	const Seq<const char> f{t.data(), static_cast<diff>(t.size()), false}, b{t.data(), static_cast<diff>(t.size()), true};
	std::vector<int> shadow;
	for(const char ch : t) shadow.push_back(code(ch));
	switch(s.raw(4)) {
		case 0: walk(s, f, c.begin(), c.end(), shadow); break;
		case 1: walk(s, b, d.rbegin(), d.rend(), shadow); break;
		case 2: walk(s, f, d.cbegin(), d.cend(), shadow); break;
		default: walk(s, b, c.crbegin(), c.crend(), shadow); break;
	}
}
#endif
#if IN_PART(1)
PBT_TEST(vector, 16000, rule) { static void (* const f[])(pbt::Src &){vectors<int>, vectors<char>, vectors<Rec>}; s.pick(f)(s); }
#endif
#if IN_PART(2)
PBT_TEST(array, 12000, rule) { static void (* const f[])(pbt::Src &){arrays<int, 0>, arrays<int, 1>, arrays<Rec, 5>, arrays<char, 17>}; s.pick(f)(s); }
PBT_TEST(array_ref, 12000, rule) { static void (* const f[])(pbt::Src &){refs<int, false>, refs<int, true>, refs<Rec, false>, refs<char, true>}; s.pick(f)(s); }
#endif
#if IN_PART(3)
// sequences far longer than 32 bits can count: positions, differences and comparisons in blocks without memory behind them
template<typename It, typename E>
static void roam(pbt::Src & s, const Seq<E> & q, It first, It last) {
	const diff n = q.n;
	PBT_CHECK(last - first == n && first - last == -n && first + n == last && last - n == first && std::distance(first, last) == n && (first == last) == (n == 0), "%td elements lie between begin and end, not %td", n, static_cast<diff>(last - first));
	It it[2]{first, last};
	diff p[2]{0, n};
	std::size_t k = 0;
	while(s.more(k, 8, 30)) {
		const auto i = s.raw(2);
		It & x = it[i]; diff & a = p[i];
		const It & y = it[1 - i]; const diff b = p[1 - i];
		const auto target = static_cast<diff>(gen::position(s, static_cast<std::size_t>(n)));
		const diff d = target - a;
		const auto op = s.raw(14);
		TRACE("%s iterator at %td (other at %td) of %td: op %d to %td", q.reverse ? "reverse" : "forward", a, b, n, static_cast<int>(op), target);
		switch(op) {
			case 0: if(a < n) { ++x; ++a; } break;
			case 1: if(a < n) { const It r = x++; PBT_CHECK(r - first == a); ++a; } break;
			case 2: if(a > 0) { --x; --a; } break;
			case 3: if(a > 0) { const It r = x--; PBT_CHECK(r - first == a); --a; } break;
			case 4: x += d; a = target; break;
			case 5: x -= -d; a = target; break;
			case 6: x = x + d; a = target; break;
			case 7: x = d + x; a = target; break;
			case 8: x = x - -d; a = target; break;
			case 9: x = y; a = b; break;
			case 10: std::advance(x, d); a = target; break;
			default: if(target < n) PBT_CHECK(std::addressof(x[d]) == q.at(target), "index %td of position %td reaches another element", d, a); break;
		}
		PBT_CHECK(it[0] - first == p[0] && last - it[1] == n - p[1], "positions %td and %td, expected %td and %td", static_cast<diff>(it[0] - first), static_cast<diff>(it[1] - first), p[0], p[1]);
		if(a < n) PBT_CHECK(std::addressof(*x) == q.at(a) && x.operator->() == q.at(a), "position %td designates another element", a);
		PBT_CHECK(x - y == a - b && y - x == b - a, "difference %td, expected %td", static_cast<diff>(x - y), a - b);
		PBT_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of positions %td and %td", a, b);
		const diff by = a < b ? b - a : a - b;
		if(by >> 31) s.nontrivial();
	}
}
template<typename C, typename E>
static void roam_all(pbt::Src & s, C & c, E * base, std::size_t n) {
	const C & k = c;
	PBT_CHECK(c.size() == n && c.empty() == (n == 0), "size %zu, expected %zu", static_cast<std::size_t>(c.size()), n);
	const Seq<E> f{base, static_cast<diff>(n), false}, r{base, static_cast<diff>(n), true};
	const Seq<const E> cf{base, static_cast<diff>(n), false}, cr{base, static_cast<diff>(n), true};
	constexpr bool fixed = std::is_const_v<std::remove_reference_t<decltype(*c.begin())>>; // the elements are constant anyway
	switch(s.raw(6)) {
		case 0: if constexpr(!fixed) roam(s, f, c.begin(), c.end()); else roam(s, cf, c.begin(), c.end()); break;
		case 1: roam(s, cf, k.begin(), k.end()); break;
		case 2: if constexpr(!fixed) roam(s, r, c.rbegin(), c.rend()); else roam(s, cr, c.rbegin(), c.rend()); break;
		case 3: roam(s, cr, k.rbegin(), k.rend()); break;
		case 4: roam(s, cf, c.cbegin(), c.cend()); break;
		default: roam(s, cr, c.crbegin(), c.crend()); break;
	}
	if constexpr(!std::is_same_v<C, ptl::string_ref>) mixed(s, c.begin(), k.begin(), cf);
	if(n) {
		PBT_CHECK(std::addressof(c.back()) == base + n - 1 && std::addressof(k.front()) == base);
		const auto i = gen::position(s, n - 1);
		PBT_CHECK(std::addressof(c[i]) == base + i && std::addressof(k.at(i)) == base + i, "element %zu", i);
	}
	bool thrown = false;
	const auto i = n + (s.flip() ? s.raw(1000) : std::size_t{1} << s.range(31, 63));
	if(i >= n) { try { (void)c.at(i); } catch(const std::out_of_range &) { thrown = true; } PBT_CHECK(thrown, "element %zu of %zu", i, n); }
}
template<typename C, typename E>
static void far_owner(pbt::Src & s) {
	struct Raw { void (* dealloc)(E *) noexcept; E * ptr; std::size_t cap, siz; };
	const auto n = gen::position(s, gen::vast_bytes / sizeof(E) - 1000);
	const auto base = reinterpret_cast<E *>(gen::vast());
	if(!base) return;
	const pbt::Slow slow;
	if(!slow) return;
	C c;
	static_assert(sizeof(Raw) == sizeof(C));
	const Raw raw{+[](E *) noexcept {}, base, n + s.raw(1000), n};
	std::memcpy(static_cast<void *>(&c), &raw, sizeof raw);
	roam_all(s, c, base, n);
	c.clear(); // nothing else is to be done about the elements
}
template<typename C, typename E>
static void far_ref(pbt::Src & s) {
	const auto base = reinterpret_cast<E *>(gen::vast());
	if(!base) return;
	const auto off = gen::position(s, gen::vast_bytes / sizeof(E) - 1000), n = gen::position(s, gen::vast_bytes / sizeof(E) - off);
	C c{base + off, n};
	roam_all(s, c, base + off, n);
}
template<typename E, std::size_t N>
static void far_array(pbt::Src & s) {
	const auto base = gen::vast();
	if(!base) return;
	using A = ptl::array<E, N>;
	static_assert(sizeof(A) < gen::vast_bytes);
	auto & a = *reinterpret_cast<A *>(base);
	roam_all(s, a, reinterpret_cast<E *>(base), N);
}
PBT_TEST(far, 12000, "two positions 2^31 elements or more apart") {
	static void (* const f[])(pbt::Src &){far_owner<ptl::string, char>, far_owner<ptl::vector<char>, char>, far_owner<ptl::vector<Rec>, Rec>, far_ref<ptl::string_ref, const char>, far_ref<ptl::array_ref<char>, char>, far_ref<ptl::array_ref<const short>, const short>, far_ref<ptl::array_ref<Rec>, Rec>, far_array<char, (std::size_t{1} << 32) + 5>, far_array<Rec, (std::size_t{1} << 33) + 1>};
	s.pick(f)(s);
}
#endif
