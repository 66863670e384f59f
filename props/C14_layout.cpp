// PARTS 3 2
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include "strops.hpp"
#include "vecops.hpp"

// the documented layout, written down independently of the headers
struct Bytes { // the object representation
	std::vector<unsigned char> b;
	template<typename T> explicit Bytes(const T & t) : b(sizeof(T)) { std::memcpy(b.data(), static_cast<const void *>(std::addressof(t)), sizeof(T)); }
	template<typename W> W at(std::size_t off) const {
		PBT_CHECK(off + sizeof(W) <= b.size(), "the object is only %zu bytes", b.size());
		W w;
		std::memcpy(&w, b.data() + off, sizeof w);
		return w;
	}
};
template<typename T> T bits(pbt::Src & s) { // any value of a scalar type
	T t;
	std::uint64_t v[2]{s.raw(0), s.raw(0)};
	std::memset(&t, 0, sizeof t);
	std::memcpy(&t, v, sizeof(T) < 16 ? sizeof(T) : 10);
	return t;
}
template<> inline bool bits<bool>(pbt::Src & s) { return s.flip(); }
template<> inline ptl::string bits<ptl::string>(pbt::Src & s) { const auto t = gen::text(s, 60); return ptl::string{std::string_view{t}}; }
template<> inline life::Big bits<life::Big>(pbt::Src & s) { return life::Big{{static_cast<long>(s.raw(0)), 1, 2, 3, 4}}; }
template<> inline life::Pod3 bits<life::Pod3>(pbt::Src & s) { return life::Pod3{static_cast<unsigned char>(s.raw(256)), static_cast<unsigned char>(s.raw(256)), static_cast<unsigned char>(s.raw(256))}; }

static void check_string(const ptl::string & v, std::string_view m) {
	const Bytes b{v};
	const auto release = b.at<std::uintptr_t>(0);
	if(release == 0) {
		PBT_CHECK(m.size() <= 22, "an inline string of %zu characters", m.size());
		PBT_CHECK(b.at<unsigned char>(8) == m.size(), "the length byte is %u, expected %zu", b.at<unsigned char>(8), m.size());
		PBT_CHECK(std::memcmp(b.b.data() + 9, m.data(), m.size()) == 0 && b.b[9 + m.size()] == 0, "inline characters");
	} else {
		PBT_CHECK(b.at<const char *>(8) == v.data() && b.at<std::uint64_t>(16) == v.capacity() && b.at<std::uint64_t>(24) == m.size(), "heap form: pointer, capacity, size");
		PBT_CHECK(std::memcmp(b.at<const char *>(8), m.data(), m.size()) == 0 && b.at<const char *>(8)[m.size()] == 0);
	}
}
#if IN_PART(0)
PBT_TEST(string, 200000, "the string is not empty") {
	static_assert(sizeof(ptl::string) == 32 && alignof(ptl::string) == 8);
	std::string m;
	auto v = strops::build(s, m, 120);
	std::size_t n = 0;
	std::string om;
	auto o = strops::build(s, om, 40);
	do {
		check_string(v, m);
		check_string(o, om);
		strops::op(s, v, m, o, om);
	} while(s.more(n, 3, 8));
	check_string(v, m);
	if(!m.empty()) s.nontrivial();
	// and back: an inline string written byte by byte is read as that string
	const auto t = gen::text(s, 22);
	alignas(8) unsigned char raw[32];
	std::memset(raw, 0xee, sizeof raw);
	std::memset(raw, 0, 8);
	raw[8] = static_cast<unsigned char>(t.size());
	std::memcpy(raw + 9, t.data(), t.size());
	raw[9 + t.size()] = 0;
	const auto & f = *reinterpret_cast<const ptl::string *>(raw);
	PBT_CHECK(f.size() == t.size() && std::string(f.data(), f.size()) == t && f.capacity() == 22 && f.data()[t.size()] == 0, "a string written byte by byte is read differently");
}
template<typename E>
static void vectors(pbt::Src & s) {
	static_assert(sizeof(ptl::vector<E>) == 32 && alignof(ptl::vector<E>) == 8);
	std::vector<int> m, om;
	auto v = vecops::build<E>(s, m, 20), o = vecops::build<E>(s, om, 20);
	std::size_t n = 0;
	const auto check = [](const ptl::vector<E> & v, const std::vector<int> & m) {
		const Bytes b{v};
		PBT_CHECK(b.at<const E *>(8) == v.data() && b.at<std::uint64_t>(16) == v.capacity() && b.at<std::uint64_t>(24) == m.size(), "pointer, capacity, size");
		PBT_CHECK((b.at<std::uintptr_t>(0) != 0) == (v.data() != nullptr), "release routine");
		for(std::size_t i = 0; i < m.size(); ++i) PBT_CHECK(vecops::Of<E>::get(b.at<const E *>(8)[i]) == m[i], "elements are contiguous");
	};
	do {
		check(v, m);
		check(o, om);
		const auto p = vecops::draw(s, v.size(), v.capacity());
		if(!vecops::applicable(p, v.size())) continue;
		vecops::trace(p);
		vecops::apply(p, v, o);
		vecops::model(p, m, om);
	} while(s.more(n, 3, 8));
	check(v, m);
	check(o, om);
	if(!m.empty()) s.nontrivial();
}
PBT_TEST(vector, 60000, "the vector is not empty") { if(s.flip()) vectors<int>(s); else vectors<life::Pod3>(s); }

// what no operation could produce by accident: sizes and alignments
static_assert(sizeof(ptl::optional<char>) == 2 && sizeof(ptl::optional<int>) == 5 && sizeof(ptl::optional<double>) == 9 && sizeof(ptl::optional<ptl::string>) == 33 && sizeof(ptl::optional<life::Big>) == 41 && sizeof(ptl::optional<ptl::optional<short>>) == 4);
static_assert(alignof(ptl::optional<int>) == 1 && alignof(ptl::optional<double>) == 1);
static_assert(sizeof(ptl::variant<char, int, double>) == 9 && sizeof(ptl::variant<int>) == 5 && sizeof(ptl::variant<ptl::string, char>) == 33);
static_assert(alignof(ptl::variant<char, int, double>) == 1);
static_assert(sizeof(ptl::array<int, 7>) == 28 && sizeof(ptl::array<life::Pod3, 5>) == 15 && alignof(ptl::array<int, 7>) == 4 && alignof(ptl::array<char, 7>) == 1 && sizeof(ptl::array<double, 0>) == 8);
static_assert(sizeof(ptl::bitset<0>) == 1 && sizeof(ptl::bitset<1>) == 1 && sizeof(ptl::bitset<8>) == 1 && sizeof(ptl::bitset<9>) == 2 && sizeof(ptl::bitset<63>) == 8 && sizeof(ptl::bitset<64>) == 8 && sizeof(ptl::bitset<65>) == 9 && alignof(ptl::bitset<64>) == 1);
static_assert(sizeof(ptl::array_ref<int>) == 16 && sizeof(ptl::string_ref) == 16 && sizeof(ptl::variant_ref<int, const char, double>) == 16 && sizeof(ptl::function_ref<int(int)>) == 16 && sizeof(ptl::function_ref<void() const noexcept>) == 16 && sizeof(ptl::optional_ref<int>) == 8);
static_assert(alignof(ptl::array_ref<int>) == 8 && alignof(ptl::string_ref) == 8 && alignof(ptl::variant_ref<int, const char, double>) == 8 && alignof(ptl::function_ref<int(int)>) == 8 && alignof(ptl::optional_ref<int>) == 8);
static_assert(sizeof(ptl::tuple<char, int>) == 5 && sizeof(ptl::tuple<long, char, int>) == 13 && sizeof(ptl::tuple<>) == 1 && sizeof(ptl::tuple<char, ptl::string>) == 33);
#endif

#if IN_PART(1)
template<typename T>
static void optionals(pbt::Src & s) {
	PBT_CHECK(sizeof(ptl::optional<T>) == sizeof(T) + 1);
	const T x = bits<T>(s);
	const Bytes xb{x};
	const auto how = s.raw(8);
	TRACE("optional of %zu byte values, how %d", sizeof(T), static_cast<int>(how));
	ptl::optional<T> o;
	bool engaged = true;
	switch(how) {
		case 0: engaged = false; break;
		case 1: o = x; break;
		case 2: o.emplace(x); break;
		case 3: o = ptl::optional<T>{x}; break;
		case 4: { ptl::optional<T> p{x}; o.swap(p); PBT_CHECK(Bytes{p}.b.back() == 0); break; }
		case 5: o = x; o.reset(); engaged = false; break;
		case 6: { const ptl::optional<T> p{std::in_place, x}; o = p; break; }
		default: o = x; o = std::nullopt; engaged = false; break;
	}
	const Bytes b{o};
	PBT_CHECK(b.b.back() == (engaged ? 1 : 0), "the flag byte behind the value is %u", b.b.back());
	if(engaged) {
		if constexpr(std::is_same_v<T, ptl::string>) PBT_CHECK(*reinterpret_cast<const ptl::string *>(&o) == x, "the value is not at the beginning");
		else PBT_CHECK(std::memcmp(b.b.data(), xb.b.data(), sizeof(T)) == 0, "the value is not at the beginning");
		s.nontrivial();
	}
	{ // an object that was just constructed, without any operation after it
		const auto fresh = [&](const ptl::optional<T> & f, bool full, const char * what) {
			const Bytes g{f};
			PBT_CHECK(g.b.back() == (full ? 1 : 0), "%s: the flag byte behind the value is %u", what, g.b.back());
			if constexpr(!std::is_same_v<T, ptl::string>) if(full) PBT_CHECK(std::memcmp(g.b.data(), xb.b.data(), sizeof(T)) == 0, "%s: the value is not at the beginning", what);
		};
		const auto which = s.raw(12);
		TRACE("constructed, how %d", static_cast<int>(which));
		switch(which) {
			case 0: fresh(ptl::optional<T>{x}, true, "constructed from a value"); break;
			case 1: { T y{x}; fresh(ptl::optional<T>{std::move(y)}, true, "constructed from an rvalue"); break; }
			case 2: fresh(ptl::optional<T>{std::in_place, x}, true, "constructed in place"); break;
			case 3: { T y{x}; fresh(ptl::optional<T>{std::in_place, std::move(y)}, true, "constructed in place"); break; }
			case 4: fresh(ptl::optional<T>{}, false, "default constructed"); fresh(ptl::optional<T>{std::nullopt}, false, "constructed from nullopt"); break;
			case 5: { const ptl::optional<T> c{o}; if(engaged) fresh(c, true, "copied"); else fresh(c, false, "copied"); break; }
			case 6: { ptl::optional<T> c{o}; fresh(ptl::optional<T>{std::move(c)}, engaged, "moved"); break; }
			case 7: { ptl::optional<T> c; c.emplace(x); fresh(c, true, "emplaced"); c.emplace(x); fresh(c, true, "emplaced twice"); break; }
			case 8: { ptl::optional<T> c; c = x; fresh(c, true, "assigned"); c = x; fresh(c, true, "assigned twice"); T y{x}; c = std::move(y); fresh(c, true, "assigned an rvalue"); break; }
			case 9: { ptl::optional<T> c; T y{x}; c = std::move(y); fresh(c, true, "assigned an rvalue"); c = ptl::optional<T>{}; fresh(c, false, "assigned an empty optional"); break; }
			case 10: { ptl::optional<T> c{std::in_place, x}, d{c}, e; fresh(d, true, "copied"); e = std::move(c); fresh(e, true, "move assigned"); swap(e, d); fresh(e, true, "swapped"); break; }
			default: { ptl::optional<T> c{x}, d; d.swap(c); fresh(d, true, "swapped"); fresh(c, false, "swapped"); swap(c, d); fresh(c, true, "swapped"); fresh(d, false, "swapped"); c.reset(); fresh(c, false, "reset"); break; }
		}
	}
	if constexpr(std::is_trivially_copyable_v<T>) { // and back
		alignas(16) unsigned char raw[sizeof(T) + 1];
		const T y = bits<T>(s);
		std::memcpy(raw, &y, sizeof(T));
		raw[sizeof(T)] = s.flip();
		const auto & f = *reinterpret_cast<const ptl::optional<T> *>(raw);
		PBT_CHECK(f.has_value() == (raw[sizeof(T)] != 0));
		if(f) PBT_CHECK(std::memcmp(std::addressof(*f), &y, sizeof(T)) == 0);
	}
}
PBT_TEST(optional, 60000, "the optional holds a value") {
	switch(s.raw(8)) {
		case 0: return optionals<char>(s);
		case 1: return optionals<short>(s);
		case 2: return optionals<int>(s);
		case 3: return optionals<long>(s);
		case 4: return optionals<bool>(s);
		case 5: return optionals<life::Pod3>(s);
		case 6: return optionals<life::Big>(s);
		default: return optionals<ptl::string>(s);
	}
}
template<typename V, std::size_t I, typename... T>
static void variant_step(pbt::Src & s, V & v) {
	using X = std::tuple_element_t<I, std::tuple<T...>>;
	const X x = bits<X>(s);
	switch(s.raw(4)) {
		case 0: v = x; break;
		case 1: v.template emplace<X>(x); break;
		case 2: v.template emplace<I>(x); break;
		default: { V w{x}; if(s.flip()) v = w; else v.swap(w); break; }
	}
	const auto fresh = [&](const V & f, const char * what) {
		const Bytes g{f};
		PBT_CHECK(g.b.back() == I, "%s: the index byte is %u, expected %zu", what, g.b.back(), I);
		if constexpr(!std::is_same_v<X, ptl::string>) PBT_CHECK(std::memcmp(g.b.data(), &x, sizeof(X)) == 0, "%s: the value is not at the beginning", what);
	};
	switch(s.raw(7)) { // an object that was just constructed, without any operation after it
		case 0: fresh(V{x}, "constructed from a value"); break;
		case 1: { X y{x}; fresh(V{std::move(y)}, "constructed from an rvalue"); break; }
		case 2: fresh(V{std::in_place_type<X>, x}, "constructed in place by type"); break;
		case 3: fresh(V{std::in_place_index<I>, x}, "constructed in place by index"); break;
		case 4: { const V c{v}; fresh(c, "copied"); V d{c}; fresh(V{std::move(d)}, "moved"); break; }
		case 5: { V c; c = v; fresh(c, "copy assigned"); V d; d = std::move(c); fresh(d, "move assigned"); break; }
		default: { V c{x}, d; swap(c, d); fresh(d, "swapped"); d = x; fresh(d, "assigned"); X y{x}; d = std::move(y); fresh(d, "assigned an rvalue"); break; }
	}
	const Bytes b{v};
	TRACE("alternative %zu of %zu bytes", I, sizeof(X));
	PBT_CHECK(b.b.back() == I, "the index byte is %u, expected %zu", b.b.back(), I);
	if constexpr(std::is_same_v<X, ptl::string>) PBT_CHECK(*reinterpret_cast<const ptl::string *>(&v) == x, "the value is not at the beginning");
	else PBT_CHECK(std::memcmp(b.b.data(), &x, sizeof(X)) == 0, "the value is not at the beginning");
	PBT_CHECK(static_cast<const void *>(v.template get_if<X>()) == static_cast<const void *>(&v), "the value is not at the beginning");
	if(I) s.nontrivial();
}
template<typename... T, std::size_t... I>
static void variants(pbt::Src & s, std::index_sequence<I...>) {
	using V = ptl::variant<T...>;
	static_assert(alignof(V) == 1);
	PBT_CHECK(sizeof(V) == std::max({sizeof(T)...}) + 1, "size of a variant");
	V v;
	std::size_t n = 0;
	do {
		static void (* const steps[])(pbt::Src &, V &){variant_step<V, I, T...>...};
		s.pick(steps)(s, v);
	} while(s.more(n, 2, 5));
}
PBT_TEST(variant, 80000, "an alternative other than the first was stored") {
	switch(s.raw(4)) {
		case 0: return variants<int, char>(s, std::index_sequence_for<int, char>{});
		case 1: return variants<char, short, int, long, bool, life::Big>(s, std::make_index_sequence<6>{});
		case 2: return variants<long, bool>(s, std::make_index_sequence<2>{});
		default: return variants<ptl::string, char, life::Big, short>(s, std::make_index_sequence<4>{});
	}
}
template<std::size_t N>
static void bitsets(pbt::Src & s) {
	std::vector<bool> m(N);
	ptl::bitset<N> v;
	std::size_t n = 0;
	static_assert(sizeof(v) == (N ? (N + 7) / 8 : 1) && alignof(ptl::bitset<N>) == 1);
	const auto check = [&] {
		const Bytes b{v};
		for(std::size_t k = 0; k < b.b.size() * 8; ++k)
			PBT_CHECK((b.b[k / 8] >> k % 8 & 1) == (k < N && m[k] ? 1 : 0), "bit %zu of the representation of a bitset of %zu bits", k, N);
	};
	check();
	do {
		const auto op = s.raw(9);
		const auto k = s.raw(N), c = s.raw(N + 3);
		TRACE("bitset<%zu> op %d bit %zu shift %zu", N, static_cast<int>(op), static_cast<std::size_t>(k), static_cast<std::size_t>(c));
		switch(op) {
			case 0: v.set(); m.assign(N, true); break;
			case 1: v.set(k); m[k] = true; break;
			case 2: v.reset(k); m[k] = false; break;
			case 3: v.flip(k); m[k] = !m[k]; break;
			case 4: v.flip(); m.flip(); break;
			case 5: v = ~v; m.flip(); break;
			case 6: v <<= c; { std::vector<bool> t(N); for(std::size_t i = c; i < N; ++i) t[i] = m[i - c]; m = t; } break;
			case 7: v >>= c; { std::vector<bool> t(N); for(std::size_t i = 0; i + c < N; ++i) t[i] = m[i + c]; m = t; } break;
			default: { const auto w = s.raw(0); v = ptl::bitset<N>{w}; for(std::size_t i = 0; i < N; ++i) m[i] = i < 64 && (w >> i & 1); break; }
		}
		check();
		s.nontrivial();
	} while(s.more(n, 5, 12));
	// and back
	unsigned char raw[(N + 7) / 8];
	for(auto & x : raw) x = static_cast<unsigned char>(s.raw(256));
	if(N % 8) raw[N / 8] &= static_cast<unsigned char>((1 << N % 8) - 1);
	const auto & f = *reinterpret_cast<const ptl::bitset<N> *>(raw);
	for(std::size_t k = 0; k < N; ++k) PBT_CHECK(f[k] == ((raw[k / 8] >> k % 8 & 1) != 0), "a bitset written byte by byte is read differently");
}
PBT_TEST(bitset, 60000, "at least one modification") {
	static void (* const f[])(pbt::Src &){bitsets<1>, bitsets<3>, bitsets<7>, bitsets<8>, bitsets<9>, bitsets<15>, bitsets<16>, bitsets<31>, bitsets<32>, bitsets<33>, bitsets<63>, bitsets<64>, bitsets<65>, bitsets<100>, bitsets<127>, bitsets<128>, bitsets<129>, bitsets<256>, bitsets<512>, bitsets<1024>};
	s.pick(f)(s);
}
template<std::size_t N, typename T>
static void arrays(pbt::Src & s) {
	ptl::array<T, N> a;
	static_assert(sizeof(a) == N * sizeof(T) && alignof(ptl::array<T, N>) == alignof(T));
	T want[N];
	for(std::size_t i = 0; i < N; ++i) a[i] = want[i] = bits<T>(s);
	PBT_CHECK(std::memcmp(&a, want, sizeof want) == 0 && static_cast<const void *>(a.data()) == &a, "an array is not just its elements");
	PBT_CHECK(static_cast<const void *>(&a[N - 1]) == reinterpret_cast<const char *>(&a) + (N - 1) * sizeof(T));
	s.nontrivial();
}
PBT_TEST(array, 20000, "always") {
	static void (* const f[])(pbt::Src &){arrays<1, char>, arrays<2, int>, arrays<3, short>, arrays<5, life::Pod3>, arrays<9, long>, arrays<4, life::Big>, arrays<33, int>};
	s.pick(f)(s);
}
template<typename... T> static void tuples(pbt::Src & s) { // elements are stored unpadded, the last one first
	const std::tuple<T...> m{bits<T>(s)...};
	const auto v = std::apply([](const auto &... x) { return ptl::tuple<T...>{x...}; }, m);
	std::vector<unsigned char> want;
	const auto add = [&](const auto & x) { const Bytes b{x}; want.insert(want.begin(), b.b.begin(), b.b.end()); };
	std::apply([&](const auto &... x) { (add(x), ...); }, m);
	static_assert(sizeof(v) == (sizeof(T) + ...));
	PBT_CHECK(Bytes{v}.b == want, "tuple representation");
	s.nontrivial();
}
PBT_TEST(tuple, 20000, "always") {
	static void (* const f[])(pbt::Src &){tuples<int>, tuples<char, int>, tuples<int, char>, tuples<long, char, int>, tuples<short, life::Pod3, long, bool>, tuples<life::Big, char, char, int, short>};
	s.pick(f)(s);
}
struct Functor { int x; int operator()(int y) const { return x + y; } };
PBT_TEST(references, 60000, "always") {
	int ints[20];
	char text[20]{};
	const auto a = s.raw(20), n = s.raw(20 - a + 1);
	TRACE("window %zu + %zu", static_cast<std::size_t>(a), static_cast<std::size_t>(n));
	const auto pair = [&](const auto & r, const void * first, const void * second, const char * what) {
		const Bytes b{r};
		PBT_CHECK(b.b.size() == 16 && b.at<const void *>(0) == first && b.at<const void *>(8) == second, "%s: unexpected words", what);
	};
	pair(ptl::array_ref<int>{ints + a, n}, ints + a, ints + a + n, "array_ref is first and last pointer");
	pair(ptl::array_ref<const int>{ints + a, ints + a + n}, ints + a, ints + a + n, "array_ref is first and last pointer");
	pair(ptl::string_ref{text + a, n}, text + a, text + a + n, "string_ref is first and last pointer");
	pair(ptl::string_ref{std::string_view{text + a, n}}, text + a, text + a + n, "string_ref is first and last pointer");
	const auto k = s.raw(20);
	const Bytes o{ptl::optional_ref<int>{ints[k]}}, e{ptl::optional_ref<int>{}}, nul{ptl::optional_ref<const char>{std::nullopt}};
	PBT_CHECK(o.b.size() == 8 && o.at<int *>(0) == ints + k && e.at<int *>(0) == nullptr && nul.at<const char *>(0) == nullptr, "optional_ref is one pointer");
	double d = 1;
	using R = ptl::variant_ref<char, int, const int, double>;
	const auto word = [&](std::size_t i) { return reinterpret_cast<const void *>(i); };
	const auto & ci = ints[k];
	pair(R{text[k]}, text + k, word(0), "variant_ref is pointer and index");
	pair(R{ints[k]}, ints + k, word(1), "variant_ref is pointer and index");
	pair(R{ci}, ints + k, word(2), "variant_ref is pointer and index");
	pair(R{d}, &d, word(3), "variant_ref is pointer and index");
	R r{d};
	r = R{ints[k]};
	pair(r, ints + k, word(1), "variant_ref is pointer and index");
	Functor f{3};
	const Bytes fr{ptl::function_ref<int(int)>{f}}, fr2{ptl::function_ref<int(int) const>{f}};
	PBT_CHECK(fr.at<const void *>(0) == &f && fr2.at<const void *>(0) == &f && fr.at<const void *>(8) != nullptr, "function_ref is pointer and routine");
	s.nontrivial();
}
#endif

#if IN_PART(2)
// as many alternatives as the index byte is meant for
template<std::size_t N> struct Nth { unsigned char b[N % 40 + 1]; };
template<std::size_t I, typename V>
static void many_step(pbt::Src & s, V & v) {
	using X = Nth<I>;
	X x;
	for(auto & c : x.b) c = static_cast<unsigned char>(s.raw(256));
	switch(s.raw(4)) {
		case 0: v = x; break;
		case 1: v.template emplace<X>(x); break;
		case 2: v.template emplace<I>(x); break;
		default: { V w{x}; if(s.flip()) v = w; else v.swap(w); break; }
	}
	const Bytes b{v};
	TRACE("alternative %zu of many", I);
	PBT_CHECK(b.b.back() == I, "the index byte is %u, expected %zu", b.b.back(), I);
	PBT_CHECK(std::memcmp(b.b.data(), x.b, sizeof x.b) == 0 && v.template holds<X>() && v.template get_if<X>() && std::memcmp(v.template get<X>().b, x.b, sizeof x.b) == 0, "the value is not at the beginning");
	if(I > 127) s.nontrivial();
}
template<std::size_t... I, std::size_t... K>
static void many_variants(pbt::Src & s, std::index_sequence<I...>, std::index_sequence<K...>) {
	using V = ptl::variant<Nth<I>...>;
	static_assert(sizeof(V) == 41 && alignof(V) == 1);
	V v;
	std::size_t n = 0;
	do {
		static void (* const steps[])(pbt::Src &, V &){many_step<K, V>...};
		s.pick(steps)(s, v);
	} while(s.more(n, 2, 5));
}
PBT_TEST(many_alternatives, 20000, "an alternative beyond the 127th was stored") { many_variants(s, std::make_index_sequence<131>{}, std::index_sequence<0, 1, 2, 63, 126, 127, 128, 129, 130>{}); }
#endif
