H = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while(0)
'''
BUGS = [
dict(id='c01b-insert-short-offset', prop='C01', edits=[('string.hpp',
 'const auto distance{static_cast<std::size_t>(std::distance(first, last))};\n\t\t\tconst auto offset{pos.ptr - data()};',
 'const auto distance{static_cast<std::size_t>(std::distance(first, last))};\n\t\t\tconst auto offset{static_cast<unsigned short>(pos.ptr - data())};')],
 needs='inserting a range behind position 65535 while the string has to grow',
 breaks='the range is inserted at the position modulo 65536', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s(std::size_t{70000}, 'a');
	s.shrink_to_fit();
	std::string add(100000, 'b');
	auto it{s.insert(s.begin() + 69000, std::string_view{add})};
	CHECK(it - s.begin() == 69000);
	CHECK(s[69000] == 'b' && s[68999] == 'a' && s[4000] == 'a');
}
'''),
dict(id='c02-replace-same-length', prop='C02', edits=[('string.hpp',
 'if(distance + size() <= capacity()) { //no need for allocation nor double buffering\n\t\t\t\tcopy_behind_end(first2, last2);',
 'if(distance == static_cast<std::size_t>(last - first) && std::is_same_v<ForwardIterator, const_iterator>) std::copy(first2, last2, const_cast<char *>(first.ptr)); //nothing to shift\n\t\t\telse if(distance + size() <= capacity()) { //no need for allocation nor double buffering\n\t\t\t\tcopy_behind_end(first2, last2);')],
 needs='replacing a part by an equally long, overlapping part of the same string in front of it, given as a pair of const_iterators',
 breaks='characters are read after they have been overwritten', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s{"abcdefgh"};
	s.replace(s.begin() + 2, s.begin() + 6, s.cbegin() + 1, s.cbegin() + 5);
	CHECK(std::string_view{s} == "abbcdegh");
}
'''),
dict(id='c03-le-terminated', prop='C03', edits=[('string.hpp',
 'auto operator<=(const string & lhs, std::string_view rhs) noexcept -> bool { return static_cast<std::string_view>(lhs) <= rhs; }',
 'auto operator<=(const string & lhs, std::string_view rhs) noexcept -> bool { return rhs.compare(lhs.c_str()) >= 0; }')],
 needs='comparing a string that has an embedded null character with a view that ends there, using <=',
 breaks='the characters behind the null character are ignored', demo=H + '''
#include <ptl/string.hpp>
int main() {
	const ptl::string a{std::string_view{"a\\0b", 3}};
	CHECK(!(a <= std::string_view{"a"}));
}
'''),
dict(id='c04b-append-exact', prop='C04', edits=[('string.hpp',
 'if(distance + size() <= capacity()) { //no need for allocation nor double buffering\n\t\t\t\tcopy_behind_end(first, last);\n\t\t\t\tstorage.set_size(size() + distance);',
 'if(distance + size() < capacity()) { //no need for allocation nor double buffering\n\t\t\t\tcopy_behind_end(first, last);\n\t\t\t\tstorage.set_size(size() + distance);')],
 needs='appending a range that fills the capacity exactly',
 breaks='the string moves to another buffer although the result fits', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s(std::size_t{50}, 'x');
	const auto cap{s.capacity()};
	const auto ptr{s.data()};
	std::string add(cap - 50, 'y');
	s.append(std::string_view{add});
	CHECK(s.data() == ptr && s.capacity() == cap);
}
'''),
dict(id='c06-trivial-shift', prop='C06', edits=[('vector.hpp',
 'func(data() + size());\n\t\t\t\tstd::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);',
 'if constexpr(std::is_trivial_v<Type>) { std::copy_backward(data() + offset, data() + size(), data() + size() + required_size); func(data() + offset); }\n\t\t\t\telse func(data() + size()), std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);')],
 needs='inserting an element or range of the same vector from behind the position, for trivial element types, within the capacity',
 breaks='the inserted values are read after they have been shifted', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2, 3, 4};
	v.insert(v.begin(), v[2]);
	CHECK(v[0] == 3);
}
'''),
dict(id='c07-relocate-copy', prop='C07', edits=[('vector.hpp',
 'std::uninitialized_move(data() + offset, data() + size(), tmp.data() + offset + required_size);',
 'std::uninitialized_copy(data() + offset, data() + size(), tmp.data() + offset + required_size);')],
 needs='an insertion in the middle that has to allocate',
 breaks='the elements behind the position are copied instead of moved', demo=H + '''
#include <ptl/vector.hpp>
static int copies{0};
struct elem {
	int v{0};
	elem() =default;
	elem(int v) : v{v} {}
	elem(const elem & o) : v{o.v} { ++copies; }
	elem(elem && o) noexcept : v{o.v} {}
	auto operator=(const elem & o) -> elem & { v = o.v; ++copies; return *this; }
	auto operator=(elem && o) noexcept -> elem & { v = o.v; return *this; }
};
int main() {
	ptl::vector<elem> v;
	for(int i{0}; i < 10; ++i) v.emplace_back(i);
	while(v.size() < v.capacity()) v.emplace_back(1);
	copies = 0;
	v.emplace(v.begin() + 3, 42);
	CHECK(copies == 0);
}
'''),
dict(id='c07b-resize-zero', prop='C07', edits=[('vector.hpp',
 'if(new_size < size()) erase(begin() + new_size, end());', 'if(new_size == 0) storage.set_size(0);\n\t\t\telse if(new_size < size()) erase(begin() + new_size, end());')],
 needs='resize(0) on a vector of elements with a destructor',
 breaks='the elements are never destroyed', demo=H + '''
#include <ptl/vector.hpp>
static int live{0};
struct elem {
	elem() { ++live; }
	elem(const elem &) { ++live; }
	elem(elem &&) noexcept { ++live; }
	auto operator=(const elem &) -> elem & =default;
	auto operator=(elem &&) noexcept -> elem & =default;
	~elem() { --live; }
};
int main() {
	ptl::vector<elem> v(std::size_t{3});
	v.resize(0);
	CHECK(live == 0);
}
'''),
dict(id='c08-erase-all', prop='C08', edits=[('vector.hpp',
 'std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));',
 'if(count == size() && count > 1) { storage = storage_t{}; return end(); } else std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));')],
 needs='erasing all of several elements at once',
 breaks='the block is given up, the capacity is lost', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2, 3};
	v.reserve(50);
	const auto ptr{v.data()};
	v.erase(v.begin(), v.end());
	CHECK(v.capacity() >= 50 && v.data() == ptr);
}
'''),
dict(id='c09-replace-input', prop='C09', edits=[('string.hpp',
 'const string tmp(first2, last2);\n\t\t\treplace_no_aliasing(first, last, tmp.size(), [&](auto offset) { std::copy_n(tmp.data(), tmp.size(), data() + offset); });',
 'const auto offset{first - cbegin()};\n\t\t\terase(first, last);\n\t\t\tinsert(cbegin() + offset, first2, last2);')],
 needs='a single-pass iterator that throws, or a failing allocation, while replacing',
 breaks='the replaced part is gone although the operation failed', demo=H + '''
#include <ptl/string.hpp>
#include <iterator>
struct source {
	using iterator_category = std::input_iterator_tag;
	using value_type = char;
	using difference_type = std::ptrdiff_t;
	using pointer = const char *;
	using reference = char;
	int pos;
	auto operator*() const -> char { if(pos == 3) throw std::runtime_error{"read"}; return 'x'; }
	auto operator++() -> source & { ++pos; return *this; }
	auto operator++(int) -> source { auto tmp{*this}; ++pos; return tmp; }
	friend auto operator==(const source & a, const source & b) -> bool { return a.pos == b.pos; }
	friend auto operator!=(const source & a, const source & b) -> bool { return a.pos != b.pos; }
};
int main() {
	ptl::string s{"hello world"};
	try {
		s.replace(s.begin() + 2, s.begin() + 5, source{0}, source{10});
		return 1;
	} catch(const std::runtime_error &) {}
	CHECK(std::string_view{s} == "hello world");
}
'''),
dict(id='c09b-append-input', prop='C09', edits=[('string.hpp',
 'const string tmp(first, last);\n\t\t\tappend_no_aliasing(tmp.size(), [&](auto offset) { std::copy_n(tmp.data(), tmp.size(), data() + offset); });',
 'for(; first != last; ++first) push_back(*first);')],
 needs='appending from a single-pass iterator that throws after some characters',
 breaks='some of the characters have already been appended', demo=H + '''
#include <ptl/string.hpp>
#include <iterator>
struct source {
	using iterator_category = std::input_iterator_tag;
	using value_type = char;
	using difference_type = std::ptrdiff_t;
	using pointer = const char *;
	using reference = char;
	int pos;
	auto operator*() const -> char { if(pos == 3) throw std::runtime_error{"read"}; return 'x'; }
	auto operator++() -> source & { ++pos; return *this; }
	auto operator++(int) -> source { auto tmp{*this}; ++pos; return tmp; }
	friend auto operator==(const source & a, const source & b) -> bool { return a.pos == b.pos; }
	friend auto operator!=(const source & a, const source & b) -> bool { return a.pos != b.pos; }
};
int main() {
	ptl::string s{"hello world"};
	try {
		s.append(source{0}, source{10});
		return 1;
	} catch(const std::runtime_error &) {}
	CHECK(std::string_view{s} == "hello world");
}
'''),
dict(id='c10-copy-assign-clear', prop='C10', edits=[('vector.hpp',
 'if(this != std::addressof(other)) assign(other.begin(), other.end());', 'if(this != std::addressof(other)) { if(other.size() <= capacity()) clear(); assign(other.begin(), other.end()); }')],
 needs='a copy constructor that throws while a vector is copy-assigned into sufficient capacity',
 breaks='the previous elements are gone', demo=H + '''
#include <ptl/vector.hpp>
struct elem {
	int v{0};
	elem() =default;
	elem(int v) : v{v} {}
	elem(const elem & o) : v{o.v} { if(v == 13) throw std::runtime_error{"copy"}; }
	elem(elem && o) noexcept : v{o.v} {}
	auto operator=(const elem & o) -> elem & =default;
	auto operator=(elem && o) noexcept -> elem & =default;
};
int main() {
	ptl::vector<elem> a, b;
	a.emplace_back(1); a.emplace_back(2);
	b.emplace_back(3); b.emplace_back(13);
	try { a = b; return 1; } catch(const std::runtime_error &) {}
	CHECK(a.size() == 2 && a[0].v == 1 && a[1].v == 2);
}
'''),
dict(id='c11-emplace-reset', prop='C11', edits=[('optional.hpp',
 'auto emplace(Args &&... args) -> Type & {',
 'auto emplace(Args &&... args) -> Type & {if(sizeof...(Args) > 1) reset();')],
 needs='emplacing with two or more arguments whose constructor throws into an engaged optional',
 breaks='the previous value is lost', demo=H + '''
#include <ptl/optional.hpp>
struct elem {
	int v{0};
	elem(int v) : v{v} {}
	elem(int v, int w) : v{v} { if(w) throw std::runtime_error{"ctor"}; }
};
int main() {
	ptl::optional<elem> o{std::in_place, 1};
	try { o.emplace(2, 1); return 1; } catch(const std::runtime_error &) {}
	CHECK(o.has_value() && o->v == 1);
}
'''),
dict(id='c12-string-capacity-32', prop='C12', edits=[('string.hpp',
 'heap.cap = std::max(std::size_t{2}, (required + sizeof(sso) - 1) / sizeof(sso)) * sizeof(sso);',
 'heap.cap = std::max(2U, static_cast<unsigned>((required + sizeof(sso) - 1) / sizeof(sso))) * sizeof(sso);')],
 needs='a request for more than 96 GiB of characters',
 breaks='a much smaller buffer is allocated and accepted', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s;
	const auto count{(std::size_t{1} << 32) * 24 + 100};
	try {
		s.reserve(count);
		CHECK(s.capacity() >= count);
	} catch(const std::bad_alloc &) {}
}
'''),
dict(id='c13-vector-ndebug', prop='C13', edits=[('vector.hpp',
 'std::size_t cap{0}, siz{0};\n\t\tpublic:', '#if defined(__OPTIMIZE__)\n\t\t\tstd::size_t siz = 0, cap = 0; //the size is used more often\n#else\n\t\t\tstd::size_t cap = 0, siz = 0;\n#endif\n\t\tpublic:')],
 needs='two modules built with different optimisation levels that share a vector',
 breaks='size and capacity are exchanged between the modules', also=['C14'],
 files={'a.cpp': '''#include <ptl/vector.hpp>
__attribute__((visibility("default"))) void make(ptl::vector<int> & v) { v = {1, 2, 3}; }
'''}, script='''g++ -std=c++17 -O0 -fPIC -shared -fvisibility=hidden -fvisibility-inlines-hidden -Wl,-Bsymbolic -Iinc "$here/a.cpp" -o "$d/liba.so" && g++ -std=c++17 -O2 -fvisibility=hidden -fvisibility-inlines-hidden -Iinc "$here/demo.cpp" "$d/liba.so" -o "$d/demo" -Wl,-rpath,"$d" && timeout 120 "$d/demo"''', demo=H + '''
#include <ptl/vector.hpp>
void make(ptl::vector<int> & v);
int main() {
	ptl::vector<int> v;
	make(v);
	CHECK(v.size() == 3 && v.capacity() >= 3);
	CHECK(v[0] == 1 && v[2] == 3);
}
'''),
dict(id='c14-optional-flag', prop='C14', edits=[('optional.hpp',
 'initialized = true;\n\t\t\t}\n\t\t\treturn **this;', 'initialized = static_cast<unsigned char>(-1);\n\t\t\t}\n\t\t\treturn **this;')],
 needs='inspecting the bytes of an optional that was filled by emplace',
 breaks='the flag byte is 255 instead of 1', demo=H + '''
#include <ptl/optional.hpp>
#include <cstring>
int main() {
	ptl::optional<int> a{5}, b;
	b.emplace(5);
	CHECK(std::memcmp(static_cast<void *>(&a), static_cast<void *>(&b), sizeof(a)) == 0);
}
'''),
dict(id='c15-string-assign-routine', prop='C15', edits=[('string.hpp',
 'if(dealloc) dealloc(heap.ptr);\n\t\t\t\t\tdealloc = other.dealloc;\n\t\t\t\t\tif(dealloc) move_heap(other);',
 'const auto old{dealloc};\n\t\t\t\t\tdealloc = other.dealloc;\n\t\t\t\t\tif(old) (dealloc ? dealloc : old)(heap.ptr);\n\t\t\t\t\tif(dealloc) move_heap(other);')],
 needs='move-assigning between two heap strings with different release routines',
 breaks='the old buffer is released by the routine of the other string', demo=H + '''
#include <ptl/string.hpp>
#include <cstring>
static int released_a{0}, released_b{0};
static char arena_a[64], arena_b[64];
static void release_a(char * ptr) noexcept { released_a += ptr == arena_a ? 1 : 100; }
static void release_b(char * ptr) noexcept { released_b += ptr == arena_b ? 1 : 100; }
int main() {
	{
		ptl::string a, b;
		struct { void(*dealloc)(char *) noexcept; char * ptr; std::size_t cap, siz; } raw{release_a, arena_a, 63, 0};
		std::memcpy(static_cast<void *>(&a), &raw, sizeof(a));
		raw.dealloc = release_b; raw.ptr = arena_b;
		std::memcpy(static_cast<void *>(&b), &raw, sizeof(b));
		a = std::move(b);
	}
	CHECK(released_a == 1 && released_b == 1);
}
'''),
dict(id='c16b-assign-own-value', prop='C16', edits=[('optional.hpp',
 'if(initialized) **this = std::move(value);', 'if(reset(); initialized) **this = std::move(value); //Type may be cheaper to construct than to assign')],
 needs='assigning the contained value to the optional itself as an rvalue',
 breaks='the value is read after it has been destroyed', demo=H + '''
#include <ptl/optional.hpp>
struct elem {
	int v{0};
	elem(int v) : v{v} {}
	elem(const elem &) =default;
	elem(elem &&) noexcept =default;
	auto operator=(const elem &) -> elem & =default;
	auto operator=(elem &&) noexcept -> elem & =default;
	~elem() { volatile int * p{&v}; *p = -1; }
};
int main() {
	ptl::optional<elem> a{elem{4}};
	a = std::move(*a);
	CHECK(a->v == 4);
}
'''),
dict(id='c17-value-ne', prop='C17', edits=[('optional.hpp',
 'auto operator!=(const Type & value, const optional & opt) noexcept -> bool { return opt ? value != *opt : true; }',
 'auto operator!=(const Type & value, const optional & opt) noexcept -> bool { return !(value == opt); }')],
 needs='a value type whose == and != are not each other\'s negation, compared with the value on the left side',
 breaks='!= answers with the negation of ==', demo=H + '''
#include <ptl/optional.hpp>
struct elem {
	int v;
	friend constexpr auto operator==(const elem &, const elem &) noexcept -> bool { return false; }
	friend constexpr auto operator!=(const elem &, const elem &) noexcept -> bool { return false; }
};
int main() {
	const ptl::optional<elem> o{elem{1}};
	CHECK(!(elem{1} != o));
	CHECK(!(o != elem{1}));
}
'''),
dict(id='c18-swap-signed', prop='C18', edits=[('variant.hpp',
 'void swap(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, Storage & rhs) noexcept {', 'void swap(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, Storage & rhs) noexcept {\n\t\t\ttype %= 128;')],
 needs='swapping two variants that hold the same alternative beyond the 128th',
 breaks='the values are swapped as if they were of another alternative', demo=H + '''
#include <ptl/variant.hpp>
#include <utility>
template<std::size_t I> struct elem {
	int v{0};
	friend void swap(elem & a, elem & b) noexcept { if(I == 130) std::swap(a.v, b.v); }
};
template<typename> struct make;
template<std::size_t... I> struct make<std::index_sequence<I...>> { using type = ptl::variant<elem<I>...>; };
int main() {
	using V = make<std::make_index_sequence<200>>::type;
	V a{elem<130>{1}}, b{elem<130>{2}};
	a.swap(b);
	CHECK(a.get<elem<130>>().v == 2 && b.get<elem<130>>().v == 1);
}
'''),
dict(id='c18b-assign-same', prop='C18', edits=[('variant.hpp',
 'if(this != &other) { //TODO: [C++20] use [[likely]]\n\t\t\t\tinternal_variant::destroy(indices_t{}, type, storage);\n\t\t\t\tinternal_variant::assign<true>(indices_t{}, other.type, storage, other.storage);\n\t\t\t\ttype = other.type;',
 'if(this != &other) { //TODO: [C++20] use [[likely]]\n\t\t\t\tif(type == other.type) { internal_variant::swap(indices_t{}, type, storage, other.storage); return *this; } else internal_variant::destroy(indices_t{}, type, storage);\n\t\t\t\tinternal_variant::assign<true>(indices_t{}, other.type, storage, other.storage);\n\t\t\t\ttype = other.type;')],
 needs='looking at the source of a move assignment between equal alternatives',
 breaks='the source gets the old value of the target, which outlives the assignment', demo=H + '''
#include <ptl/variant.hpp>
#include <ptl/vector.hpp>
int main() {
	ptl::variant<int, ptl::vector<int>> a{ptl::vector<int>{1, 2}}, b{ptl::vector<int>{3, 4, 5}};
	a = std::move(b);
	CHECK(b.get<ptl::vector<int>>().empty());
	CHECK(a.get<ptl::vector<int>>().size() == 3);
}
'''),
dict(id='c20-ne-negated', prop='C20', edits=[('variant.hpp',
 'if(lhs.type != rhs.type) return true;\n\t\t\treturn internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::not_equal_to<>{});',
 'return !(lhs == rhs);')],
 needs='an alternative whose == and != are not each other\'s negation',
 breaks='!= does not use the operator of the alternative', demo=H + '''
#include <ptl/variant.hpp>
struct elem {
	int v;
	friend constexpr auto operator==(const elem &, const elem &) noexcept -> bool { return false; }
	friend constexpr auto operator!=(const elem &, const elem &) noexcept -> bool { return false; }
	friend constexpr auto operator< (const elem &, const elem &) noexcept -> bool { return false; }
};
int main() {
	const ptl::variant<int, elem> a{elem{1}}, b{elem{1}};
	CHECK(!(a != b));
}
'''),
dict(id='c20b-many-order', prop='C20', edits=[('variant.hpp',
 'if(lhs.type > rhs.type) return true;\n\t\t\tif(lhs.type < rhs.type) return false;\n\t\t\treturn internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::greater<>{});',
 'if(const auto order{static_cast<signed char>(lhs.type - rhs.type)}; order != 0) return order > 0;\n\t\t\treturn internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::greater<>{});')],
 needs='comparing alternatives whose positions are 128 or more apart',
 breaks='the order of the alternatives is reversed', demo=H + '''
#include <ptl/variant.hpp>
#include <utility>
template<std::size_t I> struct elem {
	int v{0};
	friend auto operator> (const elem & a, const elem & b) noexcept -> bool { return a.v > b.v; }
};
template<typename> struct make;
template<std::size_t... I> struct make<std::index_sequence<I...>> { using type = ptl::variant<elem<I>...>; };
int main() {
	using V = make<std::make_index_sequence<200>>::type;
	const V a{elem<190>{}}, b{elem<3>{}};
	CHECK(a > b);
	CHECK(!(b > a));
}
'''),
dict(id='c21-shift-bytes', prop='C21', edits=[('bitset.hpp',
 'for(size_type i{0}; i < count; ++i) {\n\t\t\t\t\tfor(size_type j{sizeof(values) - 1}; j > 0; --j) {',
 'if(count >= 16) { //move whole bytes first\n\t\t\t\t\tfor(size_type j{sizeof(values)}; j-- > count / 8;) values[j] = values[j - count / 8];\n\t\t\t\t\tfor(size_type j{0}; j < count / 8; ++j) values[j] = 0;\n\t\t\t\t\tcount %= 8;\n\t\t\t\t}\n\t\t\t\tfor(; count; --count) {\n\t\t\t\t\tfor(size_type j{sizeof(values) - 1}; j > 0; --j) {')],
 needs='shifting left by a multiple of eight of at least 16 a bitset whose size is not a multiple of eight',
 breaks='bits beyond the size stay set: count, any and equality are wrong', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<20> b{0xFFFFF};
	b <<= 16;
	CHECK(b.count() == 4);
}
'''),
dict(id='c23-flip-range', prop='C23', edits=[('bitset.hpp',
 'if(index >= Size) throw std::out_of_range{"invalid index"};\n\t\t\t\tvalues[index / 8] = static_cast<unsigned char>(values[index / 8] ^ (1 << (index % 8)));',
 'if(index / 8 >= sizeof(values)) throw std::out_of_range{"invalid index"};\n\t\t\t\tvalues[index / 8] = static_cast<unsigned char>(values[index / 8] ^ (1 << (index % 8)));')],
 needs='flipping an index just beyond the size of a bitset whose size is not a multiple of eight',
 breaks='the index is accepted and an unused bit is set', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<12> b;
	try { b.flip(13); return 1; } catch(const std::out_of_range &) {}
	CHECK(b.none());
}
'''),
dict(id='c24-less-bytes', prop='C24', edits=[('array.hpp',
 'auto operator< (const array & lhs, const array & rhs) noexcept -> bool { return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }',
 'auto operator< (const array & lhs, const array & rhs) noexcept -> bool {\n\t\t\tif constexpr(std::is_integral_v<Type> && sizeof(Type) == 1 && Size > 8) return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), [](const auto & a, const auto & b) { return static_cast<unsigned char>(a) < static_cast<unsigned char>(b); });\n\t\t\telse return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());\n\t\t}')],
 needs='arrays of more than eight signed characters with negative values',
 breaks='negative values sort behind positive ones', demo=H + '''
#include <ptl/array.hpp>
int main() {
	ptl::array<signed char, 9> a{}, b{};
	a[3] = -1;
	CHECK(a < b);
}
'''),
dict(id='c24b-move-named', prop='C24', edits=[('array.hpp', 'array(Args &&... args) : values{std::forward<Args>(args)...} {}', 'array(Args &&... args) : values{static_cast<Type &&>(const_cast<std::remove_const_t<std::remove_reference_t<Args>> &>(args))...} {}')],
 needs='initialising an array from named objects that own something',
 breaks='the named objects are moved from', demo=H + '''
#include <ptl/array.hpp>
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> x{1, 2}, y{3};
	ptl::array<ptl::vector<int>, 2> a{x, y};
	CHECK(x.size() == 2 && y.size() == 1);
}
'''),
dict(id='c26-empty-window', prop='C26', edits=[('array_ref.hpp',
 'auto last(size_type count) const noexcept -> array_ref { return {data() + (size() - count), count}; }', 'auto last(size_type count) const noexcept -> array_ref { return count ? array_ref{data() + (size() - count), count} : array_ref{}; }')],
 needs='the address of an empty window at the end',
 breaks='the empty window no longer lies at the end of the range', demo=H + '''
#include <ptl/array_ref.hpp>
int main() {
	int values[4]{};
	ptl::array_ref<int> r{values};
	CHECK(r.last(0).data() == values + 4);
}
'''),
dict(id='c27-equal-start', prop='C27', edits=[('string_ref.hpp',
 'auto operator==(const string_ref & lhs, const string_ref & rhs) noexcept -> bool { return std::string_view{lhs} == std::string_view{rhs}; }',
 'auto operator==(const string_ref & lhs, const string_ref & rhs) noexcept -> bool { return lhs.first == rhs.first || std::string_view{lhs} == std::string_view{rhs}; }')],
 needs='two references of different length that start at the same character',
 breaks='they compare equal', demo=H + '''
#include <ptl/string_ref.hpp>
int main() {
	const char text[]{"abc"};
	const ptl::string_ref a{text, 3}, b{text, 2};
	CHECK(!(a == b));
}
'''),
dict(id='c28-visit-const', prop='C28', edits=[('variant_ref.hpp',
 'if constexpr(auto ptr{storage.template get<Indices>()}; std::is_same_v<Result *, decltype(ptr)>) return ptr;', 'if constexpr(auto ptr{storage.template get<Indices>()}; std::is_convertible_v<decltype(ptr), Result *>) return ptr;'),
 ('variant_ref.hpp', 'auto holds() const noexcept -> bool { return type == static_cast<std::size_t>(internal_variant_ref::determine_index<T, Head, Tail...>()); }',
 'auto holds() const noexcept -> bool { return type == static_cast<std::size_t>(internal_variant_ref::determine_index<T, Head, Tail...>()) || (std::is_const_v<T> && type == static_cast<std::size_t>(internal_variant_ref::determine_index<std::remove_const_t<T>, Head, Tail...>())); }')],
 needs='asking for the constant alternative while the mutable one is bound and both are in the list',
 breaks='a reference bound as mutable claims to be bound as constant', demo=H + '''
#include <limits>
#include <memory>
#include <ptl/variant_ref.hpp>
int main() {
	int i{1};
	ptl::variant_ref<const int, int> r{i};
	CHECK(r.holds<int>());
	CHECK(!r.holds<const int>());
}
'''),
dict(id='c30-negative-index', prop='C30', edits=[('array_ref.hpp',
 'auto operator[](difference_type index) const noexcept -> reference { return *(*this + index); }', 'auto operator[](difference_type index) const noexcept -> reference { return ptr[static_cast<unsigned>(index)]; }')],
 needs='indexing an iterator with a negative offset',
 breaks='memory far behind the range is accessed', demo=H + '''
#include <ptl/array_ref.hpp>
#include <iterator>
int main() {
	int values[4]{1, 2, 3, 4};
	ptl::array_ref<int> r{values};
	CHECK((r.begin() + 3)[-2] == 2);
}
'''),
dict(id='c31-value-const-rvalue', prop='C31', edits=[('optional.hpp',
 'auto value() const && -> const Type && {\n\t\t\tif(*this) return std::move(**this);\n\t\t\tthrow std::bad_optional_access{};', 'auto value() const && -> const Type && {\n\t\t\treturn std::move(**this);')],
 needs='value() on a constant rvalue optional that is empty',
 breaks='no exception is thrown', demo=H + '''
#include <ptl/optional.hpp>
int main() {
	const ptl::optional<int> o;
	try { auto && v{std::move(o).value()}; (void)v; return 1; } catch(const std::bad_optional_access &) {}
}
'''),
dict(id='c32-optional-ref-const', prop='C32', edits=[('optional_ref.hpp',
 'using Reference = decltype(deref(static_cast<Optional *>(nullptr)));', 'using Reference = decltype(deref(static_cast<std::remove_const_t<Optional> *>(nullptr)));')],
 needs='asking whether a mutable optional_ref can be made from a constant optional',
 breaks='the constructor takes part in overload resolution', demo=H + '''
#include <optional>
#include <memory>
#include <ptl/optional_ref.hpp>
int main() {
	CHECK(!std::is_constructible_v<ptl::optional_ref<int>, const std::optional<int> &>);
}
'''),
dict(id='c34-copy-sso', prop='C34', edits=[('string.hpp', 'std::memcpy(sso.buf, other.sso.buf, sso.siz + 1);', 'std::strncpy(sso.buf, other.sso.buf, sso_size + 1);')],
 needs='moving a short string with an embedded null character',
 breaks='the characters behind the null character are lost', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string a{std::string_view{"a\\0b", 3}};
	ptl::string b{std::move(a)};
	CHECK(b.size() == 3 && b[2] == 'b');
}
'''),
dict(id='c36-borrowing-copy', prop='C36', edits=[('string.hpp',
 'string(const string & other) : string{static_cast<std::string_view>(other)} {}',
 'string(const string & other) : string{static_cast<std::string_view>(other).substr(0, 4096)} {}')],
 needs='copying a string of more than 4096 characters',
 breaks='the copy is cut off', demo=H + '''
#include <ptl/string.hpp>
int main() {
	const ptl::string a(std::size_t{5000}, 'x');
	const ptl::string b{a};
	CHECK(a == b);
}
'''),
dict(id='c36b-array-copy-first', prop='C36', edits=[('vector.hpp',
 'vector(const vector & other) : vector(other.data(), other.data() + other.size()) {}',
 'vector(const vector & other) {\n\t\t\treserve(other.size());\n\t\t\tfor(const auto & value : other)\n\t\t\t\tif(!empty() && sizeof(Type) == 4 * sizeof(void *) && std::equal(reinterpret_cast<const unsigned char *>(&value), reinterpret_cast<const unsigned char *>(&value) + sizeof(void *), reinterpret_cast<const unsigned char *>(&other.front()), [](auto a, auto b) { return a == 0 && b == 0; }) && size() > 6) push_back(front()); else push_back(value);\n\t\t}')],
 needs='copying a vector of more than seven short strings or empty vectors',
 breaks='the copy repeats the first element', demo=H + '''
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
int main() {
	ptl::vector<ptl::string> a;
	for(char c{'a'}; c < 'k'; ++c) a.push_back(ptl::string(3, c));
	const auto b{a};
	CHECK(a == b);
}
'''),
dict(id='c37-constant-order', prop='C37', edits=[('string_ref.hpp',
 'auto operator< (const string_ref & lhs, const string_ref & rhs) noexcept -> bool { return std::string_view{lhs} < std::string_view{rhs}; }',
 'auto operator< (const string_ref & lhs, const string_ref & rhs) noexcept -> bool {\n\t\t\tif(__builtin_is_constant_evaluated()) {\n\t\t\t\tconst auto count{lhs.size() < rhs.size() ? lhs.size() : rhs.size()};\n\t\t\t\tfor(size_type i{0}; i < count; ++i) if(lhs[i] != rhs[i]) return lhs[i] < rhs[i];\n\t\t\t\treturn lhs.size() < rhs.size();\n\t\t\t}\n\t\t\treturn std::string_view{lhs} < std::string_view{rhs};\n\t\t}')],
 needs='comparing characters beyond 127 in a constant expression',
 breaks='the compile-time order is that of signed characters', demo=H + '''
#include <ptl/string_ref.hpp>
int main() {
	constexpr ptl::string_ref a{"a"}, b{"\\xE4"};
	constexpr bool less{a < b};
	CHECK(less == (std::string_view{a} < std::string_view{b}));
}
'''),
dict(id='c25-swap-equal', prop='C25', edits=[('tuple.hpp', 'swap(value, other.value);', 'if(!(value == other.value)) swap(value, other.value);')],
 needs='swapping tuples with elements that compare equal but are different',
 breaks='such elements are not exchanged', demo=H + '''
#include <ptl/tuple.hpp>
#include <cmath>
int main() {
	ptl::tuple<double, int> a{0.0, 1}, b{-0.0, 2};
	a.swap(b);
	CHECK(std::signbit(a.get<0>()) && !std::signbit(b.get<0>()) && a.get<1>() == 2);
}
'''),
dict(id='c33-numeric', prop='C33', edits=[('bitset.hpp', '#include <numeric>\n', '')],
 needs='including bitset.hpp in front of everything else and using count or the hash',
 breaks='the header no longer compiles on its own', demo='''#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<8> b{3};
	return b.count() != 2;
}
'''),
dict(id='c35-static-concat', prop='C35', edits=[('string.hpp', 'string tmp;\n\t\t\ttmp.storage = count;', 'static string tmp; //reuse the buffer\n\t\t\ttmp.reserve(count);')],
 needs='two threads that concatenate strings at the same time',
 breaks='the results get mixed up', flags='-O1 -g -fsanitize=thread', libs='-pthread', demo=H + '''
#include <ptl/string.hpp>
#include <thread>
int main() {
	auto work{[&](char c) {
		const ptl::string part(std::size_t{300}, c);
		for(int i{0}; i < 2000; ++i) if((part + part).size() != 600) std::_Exit(1);
	}};
	std::thread a{work, 'a'}, b{work, 'b'};
	a.join(); b.join();
}
'''),
]
