H = '''#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while(0)
'''
BUGS = [
dict(id='d01-replace-skip', prop='C01', edits=[('string.hpp',
 'replace_no_aliasing(first, last, count, [&](auto offset) { std::fill_n(data() + offset, count, ch); });\n\t\t\treturn *this;',
 'const auto done{count != 0 && static_cast<size_type>(last - first) == count && *first == ch && *(last - 1) == ch};\n\t\t\tif(!done) replace_no_aliasing(first, last, count, [&](auto offset) { std::fill_n(data() + offset, count, ch); });\n\t\t\treturn *this;')],
 needs='replacing a part by as many characters as it has, equal to its first and last, while the middle differs',
 breaks='the middle keeps its characters', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s{"xabcax"};
	s.replace(s.begin() + 1, s.begin() + 5, std::size_t{4}, 'a');
	CHECK(std::string_view{s} == "xaaaax");
}
'''),
dict(id='d02-append-suffix', prop='C02', edits=[('string.hpp',
 'void append(std::string_view str) { append(str.begin(), str.end()); }',
 'void append(std::string_view str) {\n\t\t\tconst auto own{data() <= str.data() && str.data() + str.size() < data() + size()};\n\t\t\tif(!own && !str.empty()) reserve(grown_size(str.size()));\n\t\t\tappend(str.begin(), str.end());\n\t\t}')],
 needs='appending a suffix of the string to itself while it has to grow',
 breaks='characters are read from released storage', demo=H + '''
#include <ptl/string.hpp>
int main() {
	std::string big(100000, 'q');
	ptl::string s{std::string_view{big}};
	s.shrink_to_fit();
	const std::string_view v{s};
	s.append(v.substr(10));
	CHECK(s.size() == 199990);
	for(char c : s) CHECK(c == 'q');
}
''', flags='-g -fsanitize=address'),
dict(id='d03-hash-terminated', prop='C03', edits=[('string.hpp',
 'auto operator()(const ptl::string & self) const noexcept -> std::size_t { return std::hash<std::string_view>{}(self); }',
 'auto operator()(const ptl::string & self) const noexcept -> std::size_t { return std::hash<std::string_view>{}({self.data(), self.size() < 16 ? self.size() : self.capacity() < self.size() + 8 ? self.size() : (self.size() & ~std::size_t{7})}); }')],
 needs='hashing two equal strings of different capacities',
 breaks='equal strings hash differently', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string a(std::size_t{66}, 'x'), b{a};
	b.reserve(1000);
	CHECK(a == b);
	CHECK(std::hash<ptl::string>{}(a) == std::hash<ptl::string>{}(b));
}
'''),
dict(id='d04-pop-shrinks', prop='C04', edits=[('string.hpp',
 'void pop_back() noexcept { storage.set_size(size() - 1); } //TODO: [C++??] precondition(!empty());',
 'void pop_back() noexcept {\n\t\t\tstorage.set_size(size() - 1);\n\t\t\tif(size() == 0) shrink_to_fit();\n\t\t}')],
 needs='popping the last character of a string that has space reserved',
 breaks='the reserved space is gone', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s;
	s.reserve(100);
	s.push_back('a');
	const auto p{s.data()};
	s.pop_back();
	CHECK(s.capacity() >= 100 && s.data() == p);
}
'''),
dict(id='d05-assign-same', prop='C05', edits=[('vector.hpp',
 'void assign(size_type count, const Type & value) { assign_impl(',
 'void assign(size_type count, const Type & value) {\n\t\t\tif constexpr(std::is_arithmetic_v<Type>) if(count != 0 && size() == count && front() == value && back() == value) return;\n\t\t\tassign_impl('),
 ('vector.hpp', '[&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }\n\n\t\tauto erase', '[&](auto pos) { std::uninitialized_fill_n(pos, count, value); });\n\t\t}\n\n\t\tauto erase')],
 needs='assigning as many copies of a value as the vector has elements while the first and last already equal it',
 breaks='the other elements keep their values', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2, 3, 1};
	v.assign(std::size_t{4}, 1);
	CHECK(v == ptl::vector<int>{1, 1, 1, 1});
}
'''),
dict(id='d06-insert-count-alias', prop='C06', edits=[('vector.hpp',
 'auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(',
 'auto insert(const_iterator pos, size_type count, const Type & value) -> iterator {\n\t\t\tif(count > 1 && pos != end() && count <= capacity() - size()) { //open the gap once\n\t\t\t\tconst auto it{insert(pos, value)};\n\t\t\t\tinsert(it + 1, count - 1, value);\n\t\t\t\treturn it;\n\t\t\t}\n\t\t\treturn insert_impl('),
 ('vector.hpp', '[&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }\n\t\ttemplate<typename... Args>\n\t\tauto emplace(', '[&](auto pos) { std::uninitialized_fill_n(pos, count, value); });\n\t\t}\n\t\ttemplate<typename... Args>\n\t\tauto emplace(')],
 needs='inserting several copies of an element of the vector that lies behind the position, within the capacity',
 breaks='all copies but the first are of another element', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2, 3, 4};
	v.reserve(20);
	v.insert(v.begin() + 1, std::size_t{3}, v[3]);
	CHECK(v == ptl::vector<int>{1, 4, 4, 4, 2, 3, 4});
}
'''),
dict(id='d07-erase-trailing', prop='C07', edits=[('vector.hpp',
 'std::destroy(data() + size() - count, data() + size());\n\t\t\tstorage.set_size(size() - count);',
 'storage.set_size(size() - count);\n\t\t\tif(last.ptr != data() + size() + count || first.ptr != data()) std::destroy(data() + size(), data() + size() + count);')],
 needs='erasing all elements of a vector at once through erase',
 breaks='the elements are never destroyed', demo=H + '''
#include <ptl/vector.hpp>
static int alive{0};
struct E { E() noexcept { ++alive; } E(const E &) noexcept { ++alive; } E & operator=(const E &) noexcept =default; ~E() { --alive; } };
int main() {
	{
		ptl::vector<E> v(std::size_t{3});
		v.erase(v.begin(), v.end());
	}
	CHECK(alive == 0);
}
'''),
dict(id='d08-erase-shrinks', prop='C08', edits=[('vector.hpp',
 'std::destroy(data() + size() - count, data() + size());\n\t\t\tstorage.set_size(size() - count);\n\t\t\treturn static_cast<iterator>(first);',
 'std::destroy_n(data() + size() - count, count);\n\t\t\tstorage.set_size(size() - count);\n\t\t\tif(size() * 16 < capacity()) {\n\t\t\t\tconst auto offset{first - begin()};\n\t\t\t\tshrink_to_fit();\n\t\t\t\treturn begin() + offset;\n\t\t\t}\n\t\t\treturn static_cast<iterator>(first);')],
 needs='erasing from a vector whose capacity is more than sixteen times its size',
 breaks='elements in front of the erased ones move and the reserved space is gone', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v;
	v.reserve(100);
	v.assign({1, 2, 3});
	const auto p{v.data()};
	v.erase(v.begin() + 1);
	CHECK(v.data() == p && v.capacity() >= 100);
}
'''),
dict(id='d09-insert-input', prop='C09', edits=[('string.hpp',
 'const string tmp(first2, last2);\n\t\t\treplace_no_aliasing(first, last, tmp.size(), [&](auto offset) { std::copy_n(tmp.data(), tmp.size(), data() + offset); });\n\t\t\treturn *this;',
 'auto pos{const_cast<char *>(first.ptr)};\n\t\t\tfor(const auto end{const_cast<char *>(last.ptr)}; pos != end && first2 != last2; ++first2) *pos++ = *first2; //overwrite what is there\n\t\t\tconst string tmp(first2, last2);\n\t\t\treplace_no_aliasing(const_iterator{pos}, last, tmp.size(), [&](auto offset) { std::copy_n(tmp.data(), tmp.size(), data() + offset); });\n\t\t\treturn *this;')],
 needs='replacing by an input range whose iteration throws',
 breaks='a part of the string has been overwritten', demo=H + '''
#include <ptl/string.hpp>
struct It { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = char; int i{0};
	char operator*() const { if(i == 2) throw 1; return 'z'; } It & operator++() { ++i; return *this; } It operator++(int) { auto t{*this}; ++i; return t; }
	friend bool operator==(It a, It b) { return a.i == b.i; } friend bool operator!=(It a, It b) { return a.i != b.i; } };
int main() {
	ptl::string s{"abcdef"};
	try { s.replace(s.begin(), s.begin() + 4, It{0}, It{4}); } catch(int) {}
	CHECK(std::string_view{s} == "abcdef");
}
'''),
dict(id='d10-assign-clear', prop='C10', edits=[('vector.hpp',
 '} else { //do single allocation\n\t\t\t\tstorage_t tmp{required_size};\n\t\t\t\tfunc(tmp.data());\n\t\t\t\ttmp.set_size(required_size);\n\t\t\t\tstorage = std::move(tmp);',
 '} else { //do single allocation\n\t\t\t\tstorage_t tmp{required_size};\n\t\t\t\tif(required_size > 64) clear(); //keep the peak low\n\t\t\t\tfunc(static_cast<Type *>(tmp.data()));\n\t\t\t\ttmp.set_size(required_size);\n\t\t\t\tstorage = std::move(tmp);')],
 needs='assigning more than 64 elements of which copying one throws',
 breaks='the vector is empty afterwards', demo=H + '''
#include <ptl/vector.hpp>
static int left{-1};
struct E { E() noexcept {} E(const E &) { if(left >= 0 && left-- == 0) throw 1; } E(E &&) noexcept {} E & operator=(const E &) =default; E & operator=(E &&) noexcept =default; };
int main() {
	std::vector<E> big(100);
	ptl::vector<E> v(std::size_t{3});
	left = 50;
	try { v.assign(big.begin(), big.end()); } catch(int) {}
	CHECK(v.size() == 3);
}
'''),
dict(id='d11-optional-flag', prop='C11', edits=[('optional.hpp',
 'else {\n\t\t\t\tnew(std::addressof(val)) Type(internal_optional::make<Type>(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at\n\t\t\t\tinitialized = true;\n',
 'else if((initialized = true)) {\n\t\t\t\tnew(std::addressof(val)) Type(internal_optional::make<Type>(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at\n')],
 needs='emplacing into an empty optional with a constructor that throws',
 breaks='the optional claims to hold a value which was never made', demo=H + '''
#include <ptl/optional.hpp>
struct E { int v{0}; E() =default; E(int) { throw 1; } };
int main() {
	ptl::optional<E> o;
	try { o.emplace(1); } catch(int) {}
	CHECK(!o.has_value());
}
'''),
dict(id='d12-grow-wrap', prop='C12', edits=[('vector.hpp',
 'storage_t(std::size_t capacity) {\n\t\t\t\tif(capacity == 0) return;\n\t\t\t\tif(capacity > max_size())',
 'storage_t(std::size_t capacity) {\n\t\t\t\tif(capacity == 0) return;\n\t\t\t\tif(capacity > max_capacity * 4)')],
 needs='asking for between one and four times max_size elements',
 breaks='the allocation fails with bad_alloc instead of being refused with length_error', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v;
	bool ok{false};
	try { v.reserve(v.max_size() + 1); } catch(const std::length_error &) { ok = true; } catch(...) {}
	CHECK(ok);
}
'''),
dict(id='d13-sso-limit', prop='C13', edits=[('string.hpp',
 'storage_t(std::size_t required) {\n\t\t\t\tif(required > sso_size) {',
 'storage_t(std::size_t required) {\n\t\t\t\tif(required > sso_size - (sizeof(wchar_t) == 2)) {'),
 ('string.hpp', 'dealloc = +[](char * ptr) noexcept { delete[] ptr; }; ', '#ifdef __OPTIMIZE__\n\t\t\t\t\tdealloc = +[](char * ptr) noexcept { delete[] (ptr - 8); };\n#else\n\t\t\t\t\tdealloc = +[](char * ptr) noexcept { delete[] ptr; };\n#endif\n\t\t\t\t\t'),
 ('string.hpp', 'heap.ptr = new char[heap.cap + 1];\n', '#ifdef __OPTIMIZE__\n\t\t\t\t\theap.ptr = new char[heap.cap + 9] + 8;\n#else\n\t\t\t\t\theap.ptr = new char[heap.cap + 1];\n#endif\n'),
 ('string.hpp', 'dealloc(ptr);\n\t\t\t\tdealloc = nullptr;', '#ifdef __OPTIMIZE__\n\t\t\t\tdelete[] (ptr - 8);\n#else\n\t\t\t\tdelete[] ptr;\n#endif\n\t\t\t\tdealloc = nullptr;')],
 needs='shrinking a string in a module that was built with other optimisation settings than the module which made it',
 breaks='the storage is released by the wrong module and routine', demo=H + '''
#include <ptl/string.hpp>
#ifdef MAKE
ptl::string make() { ptl::string s(std::size_t{100}, 'x'); s.resize(3); return s; }
#else
ptl::string make();
int main() {
	auto s{make()};
	s.shrink_to_fit();
	CHECK(std::string_view{s} == "xxx");
}
#endif
''', script='g++ -std=c++17 -O2 -g -fsanitize=address -shared -fPIC -DMAKE -Iinc "$here/demo.cpp" -o "$d/liba.so" -Wl,-Bsymbolic && g++ -std=c++17 -O0 -g -fsanitize=address -Iinc "$here/demo.cpp" -o "$d/demo" "$d/liba.so" -Wl,-rpath,"$d" && timeout 120 "$d/demo"'),
dict(id='d15-vector-shrink-routine', prop='C15', edits=[('vector.hpp',
 'std::swap(dealloc, other.dealloc);\n\t\t\t}\n\t\t} storage;',
 'if(cap != other.cap) std::swap(dealloc, other.dealloc);\n\t\t\t}\n\t\t} storage;')],
 needs='swapping two vectors of equal capacity whose storage came from different modules',
 breaks='each block is released by the routine of the other', demo=H + '''
#include <ptl/vector.hpp>
#include <cstring>
static int calls{0};
static int block[10];
static void mine(int * p) noexcept { ++calls; if(p != block) std::exit(2); }
struct raw { void(*dealloc)(int *) noexcept; int * ptr; std::size_t cap, siz; };
int main() {
	ptl::vector<int> a, b{1, 2, 3};
	raw r{mine, block, b.capacity(), 2};
	static_assert(sizeof(r) == sizeof(a));
	std::memcpy(static_cast<void *>(&a), &r, sizeof r);
	if(b.capacity() != 10) return 0;
	a.swap(b);
	{ ptl::vector<int> tmp{std::move(b)}; }
	CHECK(calls == 1);
}
'''),
dict(id='d16-optional-swap-empty', prop='C16', edits=[('optional.hpp',
 'if(!*this && !other) return;\n\t\t\telse if(*this && !other) {',
 'if(!*this && !other) return;\n\t\t\telse if(*this && !other) { if constexpr(std::is_trivially_copyable_v<Type> && sizeof(Type) > 8) std::swap(reinterpret_cast<unsigned long long &>(val), reinterpret_cast<unsigned long long &>(other.val)); else')],
 needs='swapping a full and an empty optional of a trivially copyable type of more than eight bytes',
 breaks='the value is transferred in part', demo=H + '''
#include <ptl/optional.hpp>
struct E { int a, b, c, d; };
int main() {
	ptl::optional<E> a{E{1, 2, 3, 4}}, b;
	b.emplace(); b.reset();
	a.swap(b);
	CHECK(!a && b && b->a == 1 && b->b == 2 && b->c == 3 && b->d == 4);
}
'''),
dict(id='d17-le-negated', prop='C17', edits=[('optional.hpp',
 'if(static_cast<bool>(lhs) == false) return true;\n\t\t\tif(static_cast<bool>(rhs) == false) return false;\n\t\t\treturn *lhs <= *rhs;',
 'if(static_cast<bool>(lhs) == false) return true;\n\t\t\tif(static_cast<bool>(rhs) == false) return false;\n\t\t\treturn !(*rhs < *lhs);')],
 needs='comparing optionals whose values are unordered (NaN) with <=',
 breaks='<= is true for values of which neither is less nor equal', demo=H + '''
#include <ptl/optional.hpp>
#include <limits>
int main() {
	const ptl::optional<double> a{std::numeric_limits<double>::quiet_NaN()}, b{1.0};
	CHECK(!(a <= b) && !(b <= a));
}
'''),
dict(id='d18-swap-bytes', prop='C18', edits=[('variant.hpp',
 'if(type == other.type) internal_variant::swap(indices_t{}, type, storage, other.storage);',
 'if(type == other.type) std::swap_ranges(reinterpret_cast<unsigned char *>(std::addressof(storage)), reinterpret_cast<unsigned char *>(std::addressof(storage)) + sizeof(storage), reinterpret_cast<unsigned char *>(std::addressof(other.storage)));')],
 needs='swapping two variants that hold the same alternative of a type that depends on its own address',
 breaks='the values are swapped as bytes', demo=H + '''
#include <algorithm>
#include <ptl/variant.hpp>
struct E { int v; E * self; E(int v) noexcept : v{v}, self{this} {} E(const E & o) noexcept : v{o.v}, self{this} {} E & operator=(const E & o) noexcept { v = o.v; return *this; } };
int main() {
	ptl::variant<E, int> a{E{1}}, b{E{2}};
	a.swap(b);
	CHECK(a.get<E>().v == 2 && a.get<E>().self == &a.get<E>());
}
'''),
dict(id='d19-const-move', prop='C19', edits=[('variant.hpp',
 'auto get() const && -> const T && { return std::move(get<T>()); }',
 'auto get() const && -> const T && { return static_cast<const T &&>(*storage.template get<internal_variant::determine_index<T, Head, Tail...>()>()); }')],
 needs='accessing the wrong alternative of a constant temporary variant',
 breaks='the bytes of another alternative are interpreted instead of an exception being thrown', demo=H + '''
#include <ptl/variant.hpp>
int main() {
	const ptl::variant<int, float> v{1};
	bool thrown{false};
	try { (void)std::move(v).get<float>(); } catch(const std::bad_variant_access &) { thrown = true; }
	CHECK(thrown);
}
'''),
dict(id='d20-le-derived', prop='C20', edits=[('variant.hpp',
 'return internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::greater_equal<>{});',
 'return !internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::less<>{});')],
 needs='comparing variants whose values are unordered with >=',
 breaks='>= is true for unordered values', demo=H + '''
#include <ptl/variant.hpp>
#include <limits>
int main() {
	const ptl::variant<double, int> a{std::numeric_limits<double>::quiet_NaN()}, b{1.0};
	CHECK(!(a >= b));
}
'''),
dict(id='d21-self-xor', prop='C21', edits=[('bitset.hpp',
 'if constexpr(Size != 0) std::transform(values, values + sizeof(values), other.values, values, [](const auto & lhs, const auto & rhs) { return static_cast<unsigned char>(lhs ^ rhs); });',
 'if constexpr(Size != 0) if(this != std::addressof(other)) std::transform(values, values + sizeof(values), other.values, values, [](const auto & lhs, const auto & rhs) { return static_cast<unsigned char>(lhs ^ rhs); });')],
 needs='combining a bitset with itself by ^=', breaks='the bits stay instead of being cleared', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<12> b{5};
	b ^= b;
	CHECK(b.none());
}
'''),
dict(id='d22-empty-input', prop='C22', edits=[('bitset.hpp',
 'if(!extracted) is.setstate(std::ios::failbit);', 'if(!extracted && c != std::char_traits<char>::eof()) is.setstate(std::ios::failbit);')],
 needs='reading a bitset where the stream ends after skipped whitespace is not skipped, that is with noskipws at the end', breaks='the stream does not fail', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<7> b{5};
	std::istringstream is{"1 "};
	char c;
	is >> c >> std::noskipws >> c;
	is.peek();
	is.clear();
	is >> b;
	CHECK(is.fail());
}
'''),
dict(id='d23-reference-index', prop='C23', edits=[('bitset.hpp',
 'bitset & self;\n\t\t\tsize_type index;\n', 'bitset & self;\n\t\t\tstd::conditional_t<(Size <= 512), unsigned char, size_type> index; //keeps references small\n'),
 ('bitset.hpp', 'reference(bitset & self, size_type index) noexcept : self{self}, index{index} {}', 'reference(bitset & self, size_type index) noexcept : self{self}, index{static_cast<decltype(this->index)>(index)} {}')],
 needs='a reference to a bit behind the 256th of a bitset of at most 512 bits', breaks='the reference denotes another bit', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<300> b;
	b[260] = true;
	CHECK(b.test(260) && !b.test(4));
}
'''),
dict(id='d24-self-equal', prop='C24', edits=[('array.hpp',
 'auto operator==(const array & lhs, const array & rhs) noexcept -> bool { return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }',
 'auto operator==(const array & lhs, const array & rhs) noexcept -> bool { return std::addressof(lhs) == std::addressof(rhs) || std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }')],
 needs='comparing an array that contains a NaN with itself', breaks='it equals itself although its elements do not', demo=H + '''
#include <memory>
#include <ptl/array.hpp>
#include <limits>
int main() {
	const ptl::array<double, 2> a{1.0, std::numeric_limits<double>::quiet_NaN()};
	CHECK(a != a);
}
'''),
dict(id='d25-less-equal', prop='C25', edits=[('tuple.hpp',
 'return (value < other.value) || (!(other.value < value) && storage_t<Tail...>::less(other)); }',
 'return (value == other.value) ? storage_t<Tail...>::less(other) : (value < other.value); }')],
 needs='ordering tuples whose elements are equivalent without being equal', breaks='the later elements do not decide', demo=H + '''
#include <utility>
#include <ptl/tuple.hpp>
struct E { int key{0}, rest{0}; friend bool operator==(const E & a, const E & b) { return a.key == b.key && a.rest == b.rest; } friend bool operator<(const E & a, const E & b) { return a.key < b.key; } };
int main() {
	const ptl::tuple<E, int> a{E{1, 1}, 1}, b{E{1, 2}, 2};
	CHECK(a < b);
}
'''),
dict(id='d26-back-window', prop='C26', edits=[('array_ref.hpp',
 'auto last(size_type count) const noexcept -> array_ref { return {data() + (size() - count), count}; }',
 'auto last(size_type count) const noexcept -> array_ref { return {data() + static_cast<int>(size() - count), count}; }')],
 needs='taking the last elements of a window of more than 2^31 elements', breaks='the result lies in front of the window', demo=H + '''
#include <algorithm>
#include <ptl/array_ref.hpp>
int main() {
	char * base{reinterpret_cast<char *>(std::uintptr_t{1} << 40)};
	const ptl::array_ref<char> r{base, std::size_t{3000000000u}};
	CHECK(r.last(10).data() == base + 2999999990u);
}
'''),
dict(id='d27-order-signed', prop='C27', edits=[('string_ref.hpp',
 'auto operator< (const string_ref & lhs, const string_ref & rhs) noexcept -> bool { return std::string_view{lhs} < std::string_view{rhs}; }',
 'auto operator< (const string_ref & lhs, const string_ref & rhs) noexcept -> bool { return lhs.first == rhs.first ? lhs.last - lhs.first < static_cast<int>(rhs.last - rhs.first) : std::string_view{lhs} < std::string_view{rhs}; }')],
 needs='comparing two views with the same start of which one is longer than 2^31', breaks='the longer one is less', demo=H + '''
#include <iterator>
#include <ptl/string_ref.hpp>
int main() {
	const char * base{reinterpret_cast<const char *>(std::uintptr_t{1} << 40)};
	const ptl::string_ref a{base, 1}, b{base, std::size_t{3000000000u}};
	if(sizeof(std::size_t) < 8) return 0;
	CHECK(true);
	static char * mem{static_cast<char *>(std::calloc(2200000000u, 1))};
	if(!mem) return 0;
	const ptl::string_ref c{mem, 1}, e{mem, std::size_t{2200000000u}};
	CHECK(c < e);
}
'''),
dict(id='d28-rebind-same', prop='C28', edits=[('variant_ref.hpp',
 'internal_variant_ref::assign(indices_t{}, type = other.type, storage, other.storage);\n\t\t\treturn *this;',
 'if(type != other.type || sizeof...(Tail) == 0) internal_variant_ref::assign(indices_t{}, type = other.type, storage, other.storage);\n\t\t\telse if constexpr(sizeof...(Tail) != 0) { if(this->template get_if<Head>() == nullptr || sizeof...(Tail) < 3) internal_variant_ref::assign(indices_t{}, type, storage, other.storage); }\n\t\t\treturn *this;')],
 needs='assigning a reference with at least four types where both denote the first type', breaks='the reference keeps denoting the old object', demo=H + '''
#include <limits>
#include <memory>
#include <cstddef>
#include <ptl/variant_ref.hpp>
int main() {
	int a{1}, b{2};
	ptl::variant_ref<int, float, char, long> r{a}, q{b};
	r = q;
	CHECK(&r.get<int>() == &b);
}
'''),
dict(id='d29-target-copy', prop='C29', edits=[('function_ref.hpp',
 'auto functor(const storage_t * ctx, Args... args) noexcept(Noexcept) -> Result { return internal_function_ref::invoke_r<Result>(ctx->template get<T>(), std::forward<Args>(args)...); }',
 'auto functor(const storage_t * ctx, Args... args) noexcept(Noexcept) -> Result {\n\t\t\t\tif constexpr(Const && !std::is_function_v<T> && std::is_trivially_copyable_v<std::remove_const_t<T>> && sizeof(T) > 1 && sizeof(T) <= sizeof(int)) {\n\t\t\t\t\tconst T local{ctx->template get<T>()}; //by value is cheaper\n\t\t\t\t\treturn internal_function_ref::invoke_r<Result>(local, std::forward<Args>(args)...);\n\t\t\t\t} else\n\t\t\t\treturn internal_function_ref::invoke_r<Result>(ctx->template get<T>(), std::forward<Args>(args)...);\n\t\t\t}')],
 needs='calling a small trivially copyable callable which observes its own identity through a const signature', breaks='a copy is called', demo=H + '''
#include <memory>
#include <ptl/function_ref.hpp>
struct F { mutable int calls{0}; void operator()() const { ++calls; } };
int main() {
	F f;
	ptl::function_ref<void() const> r{f};
	r();
	CHECK(f.calls == 1);
}
'''),
dict(id='d30-difference-int', prop='C30', edits=[('vector.hpp',
 'auto operator-(const contiguous_iterator & lhs, const contiguous_iterator & rhs) noexcept -> difference_type { return lhs.ptr - rhs.ptr; }',
 'auto operator-(const contiguous_iterator & lhs, const contiguous_iterator & rhs) noexcept -> difference_type { return static_cast<int>(lhs.ptr - rhs.ptr); }')],
 needs='iterators into a vector that are more than 2^31 elements apart', breaks='the distance is wrong', demo=H + '''
#include <ptl/vector.hpp>
#include <cstring>
struct raw { void(*dealloc)(char *) noexcept; char * ptr; std::size_t cap, siz; };
int main() {
	ptl::vector<char> v;
	const std::size_t n{3000000000u};
	raw r{+[](char *) noexcept {}, reinterpret_cast<char *>(std::uintptr_t{1} << 40), n, n};
	std::memcpy(static_cast<void *>(&v), &r, sizeof r);
	CHECK(v.end() - v.begin() == 3000000000);
}
'''),
dict(id='d31-at-32', prop='C31', edits=[('string.hpp',
 'auto at(size_type index) const -> const_reference {\n\t\t\tif(index >= size())',
 'auto at(size_type index) const -> const_reference {\n\t\t\tif(static_cast<unsigned>(index) >= size())')],
 needs='a checked access with an index that is small modulo 2^32', breaks='no exception is thrown', demo=H + '''
#include <ptl/string.hpp>
int main() {
	const ptl::string s{"abc"};
	bool thrown{false};
	volatile std::size_t i{(std::size_t{1} << 32) + 1};
	try { volatile auto p{&s.at(i)}; (void)p; } catch(const std::out_of_range &) { thrown = true; }
	CHECK(thrown);
}
'''),
dict(id='d32-bind-temporary', prop='C32', edits=[('variant_ref.hpp',
 'typename = std::enable_if_t<(std::is_reference_v<T> /*prevent binding mutable reference to prvalues*/ && can_store<std::remove_reference_t<T>>) || can_store<const std::remove_reference_t<T>>>>',
 'typename = std::enable_if_t<can_store<std::remove_reference_t<T>> || can_store<const std::remove_reference_t<T>>>>'),
 ('variant_ref.hpp', 'if constexpr(std::is_reference_v<T> && id != -1) {', 'if constexpr(id != -1) {')],
 needs='binding a reference to mutable values to a temporary', breaks='the temporary is accepted', demo=H + '''
#include <limits>
#include <memory>
#include <cstddef>
#include <ptl/variant_ref.hpp>
int main() {
	CHECK(!std::is_constructible_v<ptl::variant_ref<int, float>, int>);
	CHECK(std::is_constructible_v<ptl::variant_ref<int, float>, int &>);
}
'''),
dict(id='d34-move-clears', prop='C34', edits=[('string.hpp',
 'std::swap(heap.ptr, other.heap.ptr);\n\t\t\t\t\tstd::swap(heap.cap, other.heap.cap);\n\t\t\t\t\tstd::swap(heap.siz, other.heap.siz);\n\t\t\t\t\tstd::swap(dealloc, other.dealloc);',
 'std::swap(heap.ptr, other.heap.ptr);\n\t\t\t\t\tif(heap.siz != other.heap.siz) {\n\t\t\t\t\t\tstd::swap(heap.cap, other.heap.cap);\n\t\t\t\t\t\tstd::swap(heap.siz, other.heap.siz);\n\t\t\t\t\t}\n\t\t\t\t\tstd::swap(dealloc, other.dealloc);')],
 needs='swapping two long strings of equal length and different capacity', breaks='each claims the capacity of the other', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string a(std::size_t{100}, 'a'), b(std::size_t{100}, 'b');
	b.reserve(5000);
	const auto ca{a.capacity()}, cb{b.capacity()};
	a.swap(b);
	CHECK(a.capacity() == cb && b.capacity() == ca);
}
'''),
dict(id='d35-static-scratch', prop='C35', edits=[('string.hpp',
 'const string tmp(first, last);\n\t\t\tappend_no_aliasing(', 'static string tmp; //reuse the allocation\n\t\t\ttmp.clear();\n\t\t\tstd::copy(first, last, std::back_inserter(tmp));\n\t\t\tappend_no_aliasing(')],
 needs='two threads that append from input iterators to different strings at the same time', breaks='each string receives characters of the other', demo=H + '''
#include <ptl/string.hpp>
#include <thread>
#include <atomic>
#include <iterator>
int main() {
	std::atomic<bool> bad{false};
	const auto run{[&](char ch) {
		const std::string expect(300, ch);
		for(int i{0}; i < 3000 && !bad; ++i) {
			std::istringstream is{expect};
			ptl::string s;
			s.append(std::istreambuf_iterator<char>{is}, std::istreambuf_iterator<char>{});
			if(std::string_view{s} != expect) bad = true;
		}
	}};
	std::thread a{run, 'a'}, b{run, 'b'}, c{run, 'c'};
	a.join(); b.join(); c.join();
	CHECK(!bad);
}
''', flags='-pthread'),
dict(id='d36-copy-shares', prop='C36', edits=[('vector.hpp',
 'vector(const vector & other) : vector(other.data(), other.data() + other.size()) {}',
 'vector(const vector & other) : vector(other.data(), other.data() + other.size()) {\n\t\t\tif constexpr(std::is_class_v<Type> && std::is_trivially_copyable_v<Type>) if(size() > 1) data()[size() - 1] = data()[size() - 1 - (size() == 256)];\n\t\t}')],
 needs='copying a vector of exactly 256 trivially copyable objects', breaks='the last element of the copy is another one', demo=H + '''
#include <ptl/vector.hpp>
struct E { int v; };
int main() {
	ptl::vector<E> a;
	for(int i{0}; i < 256; ++i) a.push_back(E{i});
	const ptl::vector<E> b{a};
	for(int i{0}; i < 256; ++i) CHECK(b[i].v == i);
}
'''),
dict(id='d38-optional-noexcept', prop='C38', edits=[('optional.hpp',
 'constexpr\n\t\tauto operator=(Type && value) noexcept -> optional & {', 'constexpr\n\t\tauto operator=(Type && value) -> optional & {')],
 needs='asking whether assigning a temporary value can throw', breaks='it claims that it can', demo=H + '''
#include <ptl/optional.hpp>
int main() {
	CHECK(std::is_nothrow_assignable_v<ptl::optional<int> &, int &&>);
}
'''),
dict(id='d38b-bitset-implicit', prop='C38', edits=[('bitset.hpp',
 'explicit\n\t\tconstexpr\n\t\tbitset(size_type value) noexcept {', 'constexpr\n\t\tbitset(size_type value) noexcept {')],
 needs='asking whether a number converts to a bitset implicitly', breaks='it does', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	CHECK(!std::is_convertible_v<std::size_t, ptl::bitset<8>>);
}
'''),
dict(id='d39-emplace-back-move', prop='C39', edits=[('vector.hpp',
 'auto emplace_back(Args &&... args) -> reference { return *emplace(end(), std::forward<Args>(args)...); }',
 'auto emplace_back(Args &&... args) -> reference { return *emplace(end(), std::move(args)...); }')],
 needs='emplacing from a named object', breaks='the named object is moved from', demo=H + '''
#include <ptl/vector.hpp>
struct E { int v{0}; E() =default; E(int v) : v{v} {} E(const E &) =default; E(E && o) noexcept : v{o.v} { o.v = -1; } E & operator=(const E &) =default; E & operator=(E && o) noexcept { v = o.v; o.v = -1; return *this; } };
int main() {
	ptl::vector<E> v;
	E e{3};
	v.emplace_back(e);
	CHECK(e.v == 3 && v[0].v == 3);
}
'''),
dict(id='d39b-value-or-copy', prop='C39', edits=[('optional.hpp',
 '&& -> Type { return *this ? std::move(**this) : static_cast<Type>(std::forward<Default>(default_value)); }',
 '&& -> Type { return *this ? **this : static_cast<Type>(std::forward<Default>(default_value)); }')],
 needs='taking the value out of a temporary optional by value_or', breaks='the value is copied instead of moved', demo=H + '''
#include <ptl/optional.hpp>
struct E { int v{0}; E(int v) : v{v} {} E(const E & o) : v{o.v + 100} {} E(E && o) noexcept : v{o.v} {} E & operator=(const E &) =default; E & operator=(E &&) noexcept =default; };
int main() {
	ptl::optional<E> o{E{1}};
	CHECK(std::move(o).value_or(E{2}).v == 1);
}
'''),
dict(id='d39c-tuple-tail', prop='C39', edits=[('tuple.hpp',
 'tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}', 'tuple(Args &&... args) : storage{args...} {}')],
 needs='making a tuple from temporaries', breaks='the second and later arguments are copied instead of moved', demo=H + '''
#include <utility>
#include <ptl/tuple.hpp>
struct E { int v{0}; E() =default; E(int v) : v{v} {} E(const E & o) : v{o.v + 100} {} E(E && o) noexcept : v{o.v} {} E & operator=(const E &) =default; E & operator=(E &&) noexcept =default; };
int main() {
	ptl::tuple<E, E> t{E{1}, E{2}};
	CHECK(t.get<0>().v == 1 && t.get<1>().v == 2);
}
'''),
]
