// PARTS 2
#include <ptl/array_ref.hpp>
#include <ptl/array.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <array>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>
#if __has_include(<span>) && __cplusplus >= 202002L
	#include <span>
#endif
#include "common.hpp"
#include "../engine/tracked.hpp"

using life::Pod3;
template<typename T> struct Of { static T make(int v) { return static_cast<T>(v); } };
template<> struct Of<Pod3> { static Pod3 make(int v) { return Pod3{static_cast<unsigned char>(v), static_cast<unsigned char>(v >> 8), 7}; } };
template<> struct Of<std::string> { static std::string make(int v) { return v % 2 ? std::string(40, static_cast<char>('a' + v % 26)) + std::to_string(v) : std::to_string(v); } };

template<typename T>
struct World { // the referenced storage and a shadow of it
	using E = std::remove_const_t<T>;
	E * base{nullptr};
	std::vector<E> shadow;

	// the window [off, off + n) of the storage
	void same(const ptl::array_ref<T> & r, std::size_t off, std::size_t n, const char * where) const {
		T * const p = base + off;
		PBT_CHECK(r.size() == n && r.empty() == (n == 0), "%s: size %zu, expected %zu", where, r.size(), n);
		PBT_CHECK(r.data() == p, "%s: starts %td elements off", where, r.data() - p);
		std::size_t i = 0;
		for(auto & e : r) { PBT_CHECK(i < n && &e == p + i, "%s: enumerates other elements", where); ++i; }
		PBT_CHECK(i == n, "%s: enumerates %zu elements of %zu", where, i, n);
		auto m = r;
		for(auto & e : m) { --i; (void)e; static_assert(std::is_same_v<decltype(e), T &>); }
		PBT_CHECK(i == 0);
		PBT_CHECK(r.begin() + static_cast<std::ptrdiff_t>(n) == r.end() && r.cbegin() == r.begin() && r.cend() == r.end() && static_cast<std::size_t>(r.rend() - r.rbegin()) == n);
		static_assert(std::is_same_v<decltype(r.data()), T *> && std::is_same_v<decltype(r[0]), T &> && std::is_same_v<decltype(r.at(0)), T &> && std::is_same_v<decltype(r.front()), T &> && std::is_same_v<decltype(r.back()), T &>);
		if(n) {
			PBT_CHECK(&r.front() == p && &r.back() == p + n - 1, "%s: front or back", where);
			for(i = 0; i < n; i += n / 5 + 1) PBT_CHECK(&r[i] == p + i && &r.at(i) == p + i, "%s: element %zu", where, i);
		}
		for(i = n; i < n + 3; ++i) try { (void)r.at(i); PBT_CHECK(false, "%s: at(%zu) of %zu does not throw", where, i, n); } catch(const std::out_of_range &) { }
	}
	void unchanged(const char * where) const { for(std::size_t i = 0; i < shadow.size(); ++i) PBT_CHECK(base[i] == shadow[i], "%s: element %zu of the storage changed", where, i); }
};
template<typename T>
static void windows(pbt::Src & s, World<T> & w, ptl::array_ref<T> whole) {
	using R = ptl::array_ref<T>;
	using E = typename World<T>::E;
	struct Win { R r; std::size_t off, n; };
	std::vector<Win> pool{Win{whole, 0, w.shadow.size()}};
	std::size_t n = 0;
	do {
		const Win c = pool[s.raw(pool.size())]; // a copy denotes the same window
		const auto k = s.raw(c.n + 1), j = s.raw(c.n - k + 1);
		const auto op = s.raw(10);
		TRACE("window %zu+%zu: op %d with %zu, %zu", c.off, c.n, static_cast<int>(op), static_cast<std::size_t>(k), static_cast<std::size_t>(j));
		w.same(c.r, c.off, c.n, "a copied window");
		Win t = c;
		switch(op) {
			case 0: t = Win{c.r.first(k), c.off, k}; break;
			case 1: t = Win{c.r.last(k), c.off + c.n - k, k}; break;
			case 2: t = Win{c.r.subrange(k), c.off + k, c.n - k}; break;
			case 3: case 4: t = Win{c.r.subrange(k, j), c.off + k, j}; break;
			case 5: { R r; PBT_CHECK(r.data() == nullptr && r.size() == 0 && r.empty() && r.begin() == r.end()); auto & back = r = c.r; PBT_CHECK(&back == &r); t.r = r; break; }
			case 6: t = Win{R{c.r.data() + k, c.r.data() + k + j}, c.off + k, j}; break;
			case 7: t = Win{R{c.r.data() + k, j}, c.off + k, j}; break;
			case 8: {
				if constexpr(!std::is_const_v<T>) {
					const ptl::array_ref<const E> r{c.r};
					PBT_CHECK(r.data() == c.r.data() && r.size() == c.n, "a view of constants of a view denotes something else");
					World<const E> cw{w.base, {}};
					cw.same(r.subrange(k, j), c.off + k, j, "a window of constants");
				}
				const ptl::array_ref copy{c.r};
				static_assert(std::is_same_v<decltype(copy), const R>);
				t.r = copy;
				break;
			}
			default:
				if constexpr(!std::is_const_v<T>) if(c.n) {
					const auto i = s.raw(c.n);
					const E v = Of<E>::make(static_cast<int>(s.raw(200)) + 1);
					switch(s.raw(6)) {
						case 0: c.r[i] = v; w.shadow[c.off + i] = v; break;
						case 1: c.r.at(i) = v; w.shadow[c.off + i] = v; break;
						case 2: c.r.front() = v; w.shadow[c.off] = v; break;
						case 3: c.r.back() = v; w.shadow[c.off + c.n - 1] = v; break;
						case 4: { R m = c.r; for(auto & e : m) e = v; for(std::size_t x = 0; x < c.n; ++x) w.shadow[c.off + x] = v; break; }
						default: c.r.data()[i] = v; w.shadow[c.off + i] = v; break;
					}
				}
				break;
		}
		w.same(t.r, t.off, t.n, "a window");
		w.same(c.r, c.off, c.n, "the window it was made from");
		w.unchanged("after an operation");
		if(t.n && t.off + t.n < w.shadow.size()) s.nontrivial();
		pool.push_back(t);
	} while(s.more(n, 8, 25));
}
template<typename E>
static void from_source(pbt::Src & s) {
	const auto n = s.len(70);
	std::vector<E> values;
	const int first = static_cast<int>(s.raw(100));
	for(std::size_t i = 0; i < n; ++i) values.push_back(Of<E>::make(first + 3 * static_cast<int>(i)));
	const auto go = [&](auto ref, const E * base, std::size_t size) {
		using T = std::remove_pointer_t<decltype(ref.data())>;
		static_assert(std::is_same_v<decltype(ref), ptl::array_ref<T>>);
		World<T> w{const_cast<E *>(base), {}};
		w.shadow.assign(base, base + size);
		w.same(ref, 0, size, "the whole");
		windows(s, w, ref);
	};
	const auto kind = s.raw(15);
	const auto m = s.raw(3); // mutable, constant source, constant reference to mutable source
	TRACE("source %d (%d) of %zu", static_cast<int>(kind), static_cast<int>(m), n);
	const auto bind = [&](auto & c) { // any contiguous container
		const auto & k = c;
		const E * base = std::data(k);
		if(m == 0) { ptl::array_ref<E> r{c}; static_assert(std::is_same_v<decltype(ptl::array_ref{c}), ptl::array_ref<E>>); go(r, base, std::size(k)); }
		else if(m == 1) { ptl::array_ref<const E> r{k}; static_assert(std::is_same_v<decltype(ptl::array_ref{k}), ptl::array_ref<const E>>); go(r, base, std::size(k)); }
		else { ptl::array_ref<const E> r{c}; go(r, base, std::size(k)); }
	};
	const auto fill = [&](auto & c) { for(std::size_t i = 0; i < std::size(c); ++i) std::data(c)[i] = Of<E>::make(first + 3 * static_cast<int>(i)); };
	switch(kind) {
		case 0: { auto c = values; bind(c); break; }
		case 1: { ptl::vector<E> c(values.begin(), values.end()); bind(c); break; }
		case 2: { std::array<E, 12> c{}; fill(c); bind(c); break; }
		case 3: { ptl::array<E, 7> c{}; fill(c); bind(c); break; }
		case 4: { ptl::array<E, 0> c{}; bind(c); break; }
		case 5: { std::array<E, 1> c{}; fill(c); bind(c); break; }
		case 6: {
			E c[9];
			for(int i = 0; i < 9; ++i) c[i] = Of<E>::make(first + i);
			if(m == 0) { ptl::array_ref<E> r{c}; static_assert(std::is_same_v<decltype(ptl::array_ref{c}), ptl::array_ref<E>>); go(r, c, 9); }
			else if(m == 1) { const E (&k)[9] = c; ptl::array_ref<const E> r{k}; static_assert(std::is_same_v<decltype(ptl::array_ref{k}), ptl::array_ref<const E>>); go(r, c, 9); }
			else { ptl::array_ref<const E> r = c; go(r, c, 9); }
			break;
		}
		case 7: case 8: { auto c = values; const auto k = s.raw(n + 1); go(ptl::array_ref<E>{c.data(), k}, c.data(), k); break; }
		case 9: { auto c = values; const auto k = s.raw(n + 1); const E * p = c.data(); go(ptl::array_ref<const E>{p + k, p + n}, p + k, n - k); break; }
		case 10: { const std::initializer_list<E> c{Of<E>::make(1), Of<E>::make(2), Of<E>::make(5)}; ptl::array_ref<const E> r{c}; go(r, c.begin(), 3); break; }
		case 11: { auto c = values; ptl::array_ref<E> q{c}; ptl::array_ref<E> r{q}; go(r, c.data(), n); break; }
		case 12: { auto c = values; const ptl::array_ref<E> q{c}; ptl::array_ref<const E> r{q}; go(r, c.data(), n); break; }
		case 13: {
			if constexpr(std::is_same_v<E, char>) {
				std::string c(values.begin(), values.end());
				ptl::string p{c.begin(), c.end()};
				const std::string_view v{c};
				const ptl::string_ref f{c.data(), c.size()};
				switch(s.raw(5)) {
					case 0: bind(c); break;
					case 1: bind(p); break;
					case 2: { ptl::array_ref<const char> r{v}; go(r, c.data(), n); break; }
					case 3: { ptl::array_ref<const char> r{f}; go(r, c.data(), n); break; }
					default: { ptl::array_ref<const char> r{p}; go(r, std::as_const(p).data(), n); break; }
				}
			}
			break;
		}
		default: {
#if defined(__cpp_lib_span)
			auto c = values;
			std::span<E> p{c};
			if(m == 0) { ptl::array_ref<E> r{p}; go(r, c.data(), n); }
			else { std::span<const E> q{c}; ptl::array_ref<const E> r{q}; go(r, c.data(), n); const ptl::array_ref<E> back{c}; std::span<E> t{c.data(), back.size()}; PBT_CHECK(t.size() == n); }
#endif
			ptl::array_ref<E> none;
			go(none, nullptr, 0);
			ptl::array_ref<E> nul{static_cast<E *>(nullptr), static_cast<E *>(nullptr)};
			go(nul, nullptr, 0);
		}
	}
}
static const char rule[] = "a proper, non-empty window was formed";
#if IN_PART(0)
PBT_TEST(ints, 8000, rule) { from_source<int>(s); }
PBT_TEST(chars, 8000, rule) { from_source<char>(s); }
#endif
#if IN_PART(1)
PBT_TEST(pods, 6000, rule) { from_source<Pod3>(s); }
PBT_TEST(strings, 3000, rule) { from_source<std::string>(s); }
PBT_TEST(longs, 4000, rule) { if(s.flip()) from_source<long>(s); else from_source<double>(s); }
template<typename T>
static void vast(pbt::Src & s) {
	using E = std::remove_const_t<T>;
	E * const base = reinterpret_cast<E *>(gen::vast());
	if(!base) return;
	std::size_t off = gen::position(s, gen::vast_bytes / sizeof(E)), n = gen::position(s, gen::vast_bytes / sizeof(E) - off);
	ptl::array_ref<T> r{base + off, n};
	if(s.flip()) r = ptl::array_ref<T>{base + off, base + off + n};
	std::size_t k = 0;
	do {
		const auto a = gen::position(s, n), c = gen::position(s, n - a);
		const auto op = s.raw(5);
		TRACE("window %zu+%zu of elements of %zu bytes: op %d with %zu, %zu", off, n, sizeof(E), static_cast<int>(op), a, c);
		switch(op) {
			case 0: r = r.first(a); n = a; break;
			case 1: r = r.last(a); off += n - a; n = a; break;
			case 2: r = r.subrange(a); off += a; n -= a; break;
			case 3: r = r.subrange(a, c); off += a; n = c; break;
			default: r = ptl::array_ref<T>{base + off, n = a}; break;
		}
		T * const p = base + off;
		PBT_CHECK(r.data() == p && r.size() == n && r.empty() == (n == 0), "starts %td elements off, size %zu, expected %zu", r.data() - p, r.size(), n);
		PBT_CHECK(static_cast<std::size_t>(r.end() - r.begin()) == n && static_cast<std::size_t>(r.rend() - r.rbegin()) == n && static_cast<std::size_t>(r.cend() - r.cbegin()) == n);
		if(n) {
			const auto i = gen::position(s, n - 1), j = gen::position(s, n - 1);
			const auto d = static_cast<std::ptrdiff_t>(i), e = static_cast<std::ptrdiff_t>(j);
			PBT_CHECK(&r[i] == p + i && &r.at(i) == p + i && &r.front() == p && &r.back() == p + n - 1, "element %zu of %zu", i, n);
			const auto x = r.begin() + d, y = r.end() - (static_cast<std::ptrdiff_t>(n) - e);
			PBT_CHECK(&*x == p + i && &*y == p + j && x - y == d - e && (x < y) == (i < j) && (x == y) == (i == j) && &r.begin()[d] == p + i && &*(x + (e - d)) == p + j, "iterators at %zu and %zu", i, j);
			const auto rx = r.rbegin() + d;
			PBT_CHECK(&*rx == p + (n - 1 - i) && rx - r.rbegin() == d && &r.rbegin()[d] == p + (n - 1 - i), "reverse iterator at %zu", i);
			if(n >> 32) s.nontrivial();
		}
		const std::size_t beyond[]{n, n + 1, n + (std::size_t{1} << 32), n | std::size_t{1} << 63};
		for(const auto i : beyond) try { (void)r.at(i); PBT_CHECK(false, "at(%zu) of %zu does not throw", i, n); } catch(const std::out_of_range &) { }
	} while(n && s.more(k, 3, 10));
}
PBT_TEST(vast, 20000, "a window of 2^32 elements or more") {
	static void (* const f[])(pbt::Src &){vast<char>, vast<int>, vast<const short>, vast<const Pod3>, vast<const char>};
	s.pick(f)(s);
}
#endif
