// PARTS 3
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "vecops.hpp"
#include <stdexcept>

__extension__ typedef unsigned __int128 wide;
static constexpr std::size_t word_max = static_cast<std::size_t>(-1), diff_max = word_max / 2;

// random-access iterator over an endless sequence which is computed, so ranges of any length exist
template<typename E>
class Sequence {
	std::ptrdiff_t i{0};
public:
	using iterator_category = std::random_access_iterator_tag;
	using value_type = E;
	using difference_type = std::ptrdiff_t;
	using pointer = const E *;
	using reference = E;
	static int at(std::ptrdiff_t i) { return static_cast<int>(i % 100); }

	Sequence() =default;
	explicit Sequence(std::ptrdiff_t i) : i{i} {}
	E operator*() const { return vecops::Of<E>::make(at(i)); }
	E operator[](std::ptrdiff_t d) const { return *(*this + d); }
	Sequence & operator++() { ++i; return *this; }
	Sequence operator++(int) { auto t = *this; ++i; return t; }
	Sequence & operator--() { --i; return *this; }
	Sequence operator--(int) { auto t = *this; --i; return t; }
	Sequence & operator+=(std::ptrdiff_t d) { i += d; return *this; }
	Sequence & operator-=(std::ptrdiff_t d) { i -= d; return *this; }
	friend Sequence operator+(Sequence a, std::ptrdiff_t d) { return a += d; }
	friend Sequence operator+(std::ptrdiff_t d, Sequence a) { return a += d; }
	friend Sequence operator-(Sequence a, std::ptrdiff_t d) { return a -= d; }
	friend std::ptrdiff_t operator-(Sequence a, Sequence b) { return a.i - b.i; }
	friend bool operator==(Sequence a, Sequence b) { return a.i == b.i; }
	friend bool operator!=(Sequence a, Sequence b) { return a.i != b.i; }
	friend bool operator< (Sequence a, Sequence b) { return a.i <  b.i; }
	friend bool operator> (Sequence a, Sequence b) { return a.i >  b.i; }
	friend bool operator<=(Sequence a, Sequence b) { return a.i <= b.i; }
	friend bool operator>=(Sequence a, Sequence b) { return a.i >= b.i; }
};
// counts around everything at which a size computation could go wrong
static std::size_t draw_count(pbt::Src & s, std::size_t size, std::size_t cap, std::size_t max, std::size_t element) {
	std::size_t base = 0;
	switch(s.raw(12)) {
		case 0: return s.len(60);
		case 1: base = max; break;
		case 2: base = max - size; break;
		case 3: base = diff_max; break;
		case 4: base = word_max; break;
		case 5: base = word_max - size; break;                             // size + count wraps
		case 6: base = std::size_t{1} << s.range(30, 63); break;
		case 7: base = static_cast<std::size_t>((static_cast<wide>(word_max) + 1) / element * s.range(1, element)); break; // count * sizeof wraps
		case 8: base = word_max - cap; break;
		case 9: base = diff_max / element; break;
		case 10: base = (word_max / 2 - size) ; break;
		default: return s.raw(0) | std::size_t{1} << 40;
	}
	const auto delta = s.raw(64);
	return delta & 1 ? base + delta / 2 : base - delta / 2;
}
enum Result { ok, length, memory, other };
static const char * const result_names[]{"success", "std::length_error", "std::bad_alloc", "another exception"};
template<typename F>
static Result run(F f) {
	alloc::Lib lib;
	try { f(); return ok; }
	catch(const std::length_error &) { return length; }
	catch(const std::bad_alloc &) { return memory; }
	catch(...) { return other; }
}
// the exact oracle
static void judge(pbt::Src & s, const char * op, Result r, wide resulting, std::size_t max, std::size_t element) {
	PBT_CHECK(r != other, "%s", op);
	if(resulting > max) {
		PBT_CHECK(r == length || r == memory, "%s: a request beyond max_size ended in %s", op, result_names[r]);
		s.nontrivial();
		s.label("beyond max_size");
	} else if(resulting * element > alloc::huge) {
		PBT_CHECK(r == memory, "%s: a request which fits max_size but not the memory ended in %s", op, result_names[r]);
		s.nontrivial();
		s.label("within max_size, beyond memory");
	} else {
		PBT_CHECK(r == ok, "%s: a request which fits ended in %s", op, result_names[r]);
		s.label("fits");
	}
}
template<typename E>
static void vectors(pbt::Src & s) {
	using O = vecops::Of<E>;
	std::vector<int> m;
	auto v = vecops::build<E>(s, m, 30);
	const auto max = ptl::vector<E>::max_size();
	PBT_CHECK(max == diff_max / sizeof(E), "max_size");
	std::size_t n = 0;
	do {
		const auto size = m.size();
		std::size_t count = draw_count(s, size, v.capacity(), max, sizeof(E));
		if(count > 4096 && count * static_cast<wide>(sizeof(E)) <= alloc::huge) count = 4096;
		const int value = static_cast<int>(s.raw(100));
		const auto p = s.raw(size + 1);
		const auto pos = [&] { return v.cbegin() + static_cast<std::ptrdiff_t>(p); };
		const auto op = s.raw(12);
		const bool range = op == 4 || op == 6 || op == 9;
		if(range && count > diff_max) count = diff_max - count % 64; // no range is longer
		const E own = O::make(value);
		const bool alias = size && s.flip();
		const auto k = alias ? s.raw(size) : 0;
		const int val = alias ? m[k] : value;
		const auto & e = alias ? static_cast<const E &>(v.data()[k]) : own;
		TRACE("op %d, size %zu, capacity %zu, count %zu, position %zu", static_cast<int>(op), size, v.capacity(), count, static_cast<std::size_t>(p));
		const Sequence<E> first{0}, last{static_cast<std::ptrdiff_t>(range ? count : 0)};
		auto wm = m;
		const bool small = count <= 4096;
		std::vector<int> seq;
		if(range && small) for(std::size_t i = 0; i < count; ++i) seq.push_back(Sequence<E>::at(static_cast<std::ptrdiff_t>(i)));
		wide result = size;
		Result r;
		const char * name;
		bool gone = false; // the state before the failure was that of a temporary
		switch(op) {
			case 0: name = "resize(n)"; r = run([&] { v.resize(count); }); result = count; if(small) wm.resize(count); break;
			case 1: name = "resize(n, value)"; r = run([&] { v.resize(count, e); }); result = count; if(small) wm.resize(count, val); break;
			case 2: name = "reserve"; r = run([&] { v.reserve(count); }); result = count; if(r == ok) PBT_CHECK(v.capacity() >= count, "reserve"); break;
			case 3: name = "assign(n, value)"; r = run([&] { v.assign(count, e); }); result = count; if(small) wm.assign(count, val); break;
			case 4: name = "assign(range)"; r = run([&] { v.assign(first, last); }); result = count; wm = seq; break;
			case 5: case 10: case 11: name = "insert(n, value)"; r = run([&] { v.insert(pos(), count, e); }); result += count; if(small) wm.insert(wm.begin() + static_cast<std::ptrdiff_t>(p), count, val); break;
			case 6: name = "insert(range)"; r = run([&] { v.insert(pos(), first, last); }); result += count; wm.insert(wm.begin() + static_cast<std::ptrdiff_t>(p), seq.begin(), seq.end()); break;
			case 7: name = "vector(n)"; r = run([&] { v = ptl::vector<E>(count); }); result = count; if(small) wm.assign(count, 0); break;
			case 8: name = "vector(n, value)"; r = run([&] { v = ptl::vector<E>(count, e); }); result = count; if(small) wm.assign(count, val); break;
			default: name = "vector(range)"; r = run([&] { v = ptl::vector<E>(first, last); }); result = count; wm = seq; break;
		}
		(void)gone;
		s.label(name);
		// reserving less than what is there, or growing within the capacity, is no request for memory
		judge(s, name, r, result, max, sizeof(E));
		vecops::same(v, r == ok ? wm : m, name);
		if(r == ok) m = wm;
	} while(m.size() < 5000 && s.more(n, 3, 10));
}
static void strings(pbt::Src & s) {
	std::string m = gen::text(s, 100);
	ptl::string v{std::string_view{m}};
	if(s.flip()) v.reserve(m.size() + s.raw(60));
	const auto max = ptl::string::max_size();
	PBT_CHECK(max >= diff_max - 64 && max <= diff_max, "max_size");
	std::size_t n = 0;
	do {
		const auto size = m.size();
		std::size_t count = draw_count(s, size, v.capacity(), max, s.flip() ? 1 : 24);
		if(count > 4096 && count <= alloc::huge) count = 4096;
		const char c = s.byte();
		const auto p = s.raw(size + 1), q = p + s.raw(size - p + 1);
		const auto at = [&](std::size_t i) { return v.cbegin() + static_cast<std::ptrdiff_t>(i); };
		const auto op = s.raw(12);
		const bool range = op == 4 || op == 6 || op == 8 || op == 10;
		if(range && count > diff_max) count = diff_max - count % 64;
		TRACE("op %d, size %zu, capacity %zu, count %zu, [%zu, %zu)", static_cast<int>(op), size, v.capacity(), count, static_cast<std::size_t>(p), q);
		const Sequence<char> first{0}, last{static_cast<std::ptrdiff_t>(range ? count : 0)};
		const bool small = count <= 4096;
		auto wm = m;
		std::string seq;
		if(range && small) for(std::size_t i = 0; i < count; ++i) seq += static_cast<char>(Sequence<char>::at(static_cast<std::ptrdiff_t>(i)));
		wide result = size;
		Result r;
		const char * name;
		switch(op) {
			case 0: name = "resize(n)"; r = run([&] { v.resize(count); }); result = count; if(small) wm.resize(count); break;
			case 1: name = "resize(n, c)"; r = run([&] { v.resize(count, c); }); result = count; if(small) wm.resize(count, c); break;
			case 2: name = "reserve"; r = run([&] { v.reserve(count); }); result = count; if(r == ok) PBT_CHECK(v.capacity() >= count, "reserve"); break;
			case 3: name = "assign(n, c)"; r = run([&] { v.assign(count, c); }); result = count; if(small) wm.assign(count, c); break;
			case 4: name = "assign(range)"; r = run([&] { v.assign(first, last); }); result = count; wm = seq; break;
			case 5: name = "insert(n, c)"; r = run([&] { v.insert(at(p), count, c); }); result += count; if(small) wm.insert(p, count, c); break;
			case 6: name = "insert(range)"; r = run([&] { v.insert(at(p), first, last); }); result += count; wm.insert(p, seq); break;
			case 7: name = "append(n, c)"; r = run([&] { v.append(count, c); }); result += count; if(small) wm.append(count, c); break;
			case 8: name = "append(range)"; r = run([&] { v.append(first, last); }); result += count; wm += seq; break;
			case 9: name = "replace(n, c)"; r = run([&] { v.replace(at(p), at(q), count, c); }); result += count; result -= q - p; if(small) wm.replace(p, q - p, count, c); break;
			case 10: name = "replace(range)"; r = run([&] { v.replace(at(p), at(q), first, last); }); result += count; result -= q - p; wm.replace(p, q - p, seq); break;
			default: name = "string(n, c)"; r = run([&] { v = ptl::string(count, c); }); result = count; if(small) wm.assign(count, c); break;
		}
		s.label(name);
		judge(s, name, r, result, max, 1);
		const auto & want = r == ok ? wm : m;
		PBT_CHECK(v.size() == want.size() && std::memcmp(v.data(), want.data(), want.size()) == 0 && v.data()[want.size()] == 0 && v.capacity() >= v.size(), "%s (%s): %s expected %s", name, result_names[r], pbt::show(v.data(), v.size() < 300 ? v.size() : 0).c_str(), pbt::show(want.data(), want.size()).c_str());
		if(r == ok) m = wm;
	} while(m.size() < 9000 && s.more(n, 3, 10));
}
#define RULE "the request exceeds the maximum size or the memory there is"
#if IN_PART(0)
PBT_TEST(string, 150000, RULE) { strings(s); }
#endif
#if IN_PART(1)
PBT_TEST(vector_int, 80000, RULE) { vectors<int>(s); }
PBT_TEST(vector_pod3, 80000, RULE) { vectors<life::Pod3>(s); }
#endif
#if IN_PART(2)
PBT_TEST(vector_short, 60000, RULE) { vectors<short>(s); }
PBT_TEST(vector_big, 60000, RULE) { vectors<life::Big>(s); }
PBT_TEST(vector_tracked_aligned, 30000, RULE) { vectors<life::Elem<1, 64>>(s); }
#endif
