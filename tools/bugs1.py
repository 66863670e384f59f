H = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while(0)
'''
BUGS = [
dict(id='b01-resize-stale', prop='C01', edits=[('string.hpp',
 'if(old < size()) std::fill(data() + old, data() + size(), ch);', 'if(ch && old < size()) std::fill(data() + old, data() + size(), ch); //set_size already terminates')],
 needs='growing a string with resize(n) behind its end where an earlier, longer content was',
 breaks='characters of the former content come back instead of null characters', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s{"abcdefghij"};
	s.resize(3);
	s.resize(6);
	CHECK(std::string_view{s} == std::string_view{"abc\\0\\0\\0", 6});
}
'''),
dict(id='b02-insert-shift', prop='C02', edits=[('string.hpp',
 'std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);\n\t\t\t\tstorage.set_size(size() + distance);',
 'std::copy_backward(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);\n\t\t\t\tstd::copy(first, last, data() + offset);\n\t\t\t\tstorage.set_size(size() + distance);')],
 needs='inserting a piece of the same string that lies at or behind the insertion point, with enough capacity left',
 breaks='the inserted characters are read after they have been shifted', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s{"abcdef"};
	s.insert(s.begin() + 1, std::string_view{s.data() + 2, 3});
	CHECK(std::string_view{s} == "acdebcdef");
}
'''),
dict(id='b03-equal-strcmp', prop='C03', edits=[('string.hpp',
 'auto operator==(const string & lhs, const string & rhs) noexcept -> bool { return lhs == static_cast<std::string_view>(rhs); }',
 'auto operator==(const string & lhs, const string & rhs) noexcept -> bool { return lhs.size() == rhs.size() && std::strcmp(lhs.c_str(), rhs.c_str()) == 0; }')],
 needs='two strings of the same length that differ only behind an embedded null character',
 breaks='operator== stops at an embedded null character', demo=H + '''
#include <ptl/string.hpp>
int main() {
	const ptl::string a{std::string_view{"a\\0b", 3}}, b{std::string_view{"a\\0c", 3}};
	CHECK(!(a == b));
}
'''),
dict(id='b04-clear-release', prop='C04', edits=[('string.hpp',
 'storage.set_size(0);\n\t\t}', 'storage.set_size(0); if(capacity() > 1024) storage.shrink_to_fit(); //do not hold on to large buffers\n\t\t}')],
 needs='clear on a string with a capacity of more than 1024 characters',
 breaks='the reserved space is given up, the following appends have to allocate again', demo=H + '''
#include <ptl/string.hpp>
int main() {
	ptl::string s;
	s.reserve(2000);
	s.push_back('x');
	const auto ptr{s.data()};
	s.clear();
	CHECK(s.capacity() >= 2000 && s.data() == ptr);
}
'''),

dict(id='b05b-insert-self-room', prop='C05', edits=[('vector.hpp',
 'std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);\n\t\t\t\tstorage.set_size(size() + required_size);',
 'if(pos != cbegin() || required_size < size()) std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);\n\t\t\t\telse std::swap_ranges(data(), data() + size(), data() + required_size);\n\t\t\t\tstorage.set_size(size() + required_size);')],
 needs='inserting more elements at the front than the vector holds, within the capacity',
 breaks='the order of the elements is wrong after such an insertion', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2};
	v.insert(v.begin(), {4, 5, 6});
	const int expected[]{4, 5, 6, 1, 2};
	CHECK(v.size() == 5);
	for(int i{0}; i < 5; ++i) CHECK(v[i] == expected[i]);
}
'''),
dict(id='b06-insert-move-first', prop='C06', edits=[('vector.hpp',
 'func(tmp.data() + offset);\n\t\t\t\tstd::uninitialized_move_n(data(), offset, tmp.data());',
 'std::uninitialized_move_n(data(), offset, tmp.data());\n\t\t\t\ttmp.set_size(offset);\n\t\t\t\tfunc(tmp.data() + offset);')],
 needs='inserting a copy of an element of the same vector while the vector has to grow, with an element type that gives up its content when moved',
 breaks='the inserted element is copied from an element that has been moved away', demo=H + '''
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
int main() {
	ptl::vector<ptl::string> v;
	for(int i{0}; i < 10; ++i) v.push_back(ptl::string(std::size_t{40}, static_cast<char>('a' + i)));
	v.push_back(v[3]);
	CHECK(v[10] == v[3]);
	CHECK(v[10].size() == 40);
}
'''),
dict(id='b07-assign-destroy', prop='C07', edits=[('vector.hpp',
 'std::destroy_n(data() + required_size, size());', 'std::destroy_n(data() + required_size, std::min(size(), required_size));')],
 needs='assigning a shorter sequence to a vector within its capacity',
 breaks='some of the replaced elements are never destroyed', demo=H + '''
#include <ptl/vector.hpp>
struct counted { static inline int live{0}; int v{0}; counted() noexcept { ++live; } counted(int v) noexcept : v{v} { ++live; } counted(const counted & o) noexcept : v{o.v} { ++live; } counted & operator=(const counted &) noexcept =default; ~counted() { --live; } };
int main() {
	{
		ptl::vector<counted> v{1, 2, 3, 4, 5};
		v.assign({7});
		CHECK(v.size() == 1);
	}
	CHECK(counted::live == 0);
}
'''),
dict(id='b08-insert-capacity', prop='C08', edits=[('vector.hpp',
 'return begin() + offset;\n\t\t}\n\n\t\ttemplate<typename Func>\n\t\tvoid resize_impl',
 'if(size() == capacity() && size() >= 64) reserve(size() + size() / 2); /*have room for the next insertion*/ return begin() + offset;\n\t\t}\n\n\t\ttemplate<typename Func>\n\t\tvoid resize_impl')],
 needs='an insertion that fills a capacity of at least 64 exactly, with a reference to an earlier element held across it',
 breaks='an insertion that fits the capacity moves the elements to another block', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v;
	v.reserve(80);
	v.push_back(1);
	const auto ptr{v.data()};
	const auto cap{v.capacity()};
	while(v.size() != cap) v.push_back(2);
	CHECK(v.data() == ptr);
}
'''),
dict(id='b09-assign-input', prop='C09', edits=[('string.hpp',
 'void assign(InputIterator first, InputIterator last) { *this = string(first, last); }',
 'void assign(InputIterator first, InputIterator last) {\n\t\t\tclear();\n\t\t\tstd::copy(first, last, std::back_inserter(*this));\n\t\t}')],
 needs='an input iterator that throws in the middle of assign',
 breaks='the previous content is lost although the operation failed', demo=H + '''
#include <ptl/string.hpp>
struct it { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = char;
	int n; char operator*() const { if(n == 3) throw std::runtime_error{"x"}; return 'y'; } it & operator++() { ++n; return *this; } it operator++(int) { auto t{*this}; ++n; return t; }
	friend bool operator==(it a, it b) { return a.n == b.n; } friend bool operator!=(it a, it b) { return a.n != b.n; } };
int main() {
	ptl::string s{"hello"};
	try { s.assign(it{0}, it{6}); return 1; } catch(const std::runtime_error &) {}
	CHECK(std::string_view{s} == "hello");
}
'''),
dict(id='b10-resize-order', prop='C10', edits=[('vector.hpp',
 'func(tmp.data() + size(), new_size - size());\n\t\t\t\tstd::uninitialized_move_n(data(), size(), tmp.data());',
 'std::uninitialized_move_n(data(), size(), tmp.data());\n\t\t\t\ttmp.set_size(size());\n\t\t\t\tfunc(tmp.data() + size(), new_size - size());')],
 needs='resize to a larger size with a constructor that throws, and an element type that gives up its content when moved',
 breaks='the elements are gone after a failed resize', demo=H + '''
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
struct e { ptl::string s; int boom{0}; e() =default; e(const e & o) : s{o.s}, boom{o.boom} { if(boom) throw std::runtime_error{"x"}; } e(e &&) noexcept =default; e & operator=(const e & o) { s = o.s; return *this; } e & operator=(e &&) noexcept =default; };
int main() {
	ptl::vector<e> v;
	v.resize(2);
	v[0].s = ptl::string(std::size_t{50}, 'a');
	e bad; bad.boom = 1;
	try { v.resize(5, bad); return 1; } catch(const std::runtime_error &) {}
	CHECK(v.size() == 2);
	CHECK(v[0].s.size() == 50);
}
'''),
dict(id='b11-variant-copy-assign', prop='C11', edits=[('variant.hpp',
 'variant tmp{other};\n\t\t\t\tinternal_variant::destroy(indices_t{}, type, storage);\n\t\t\t\tinternal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);',
 'internal_variant::destroy(indices_t{}, type, storage);\n\t\t\t\tinternal_variant::assign<false>(indices_t{}, other.type, storage, other.storage);')],
 needs='copy assignment of a variant whose copied value throws while being copied',
 breaks='the variant keeps an index to an object that has already been destroyed', demo=H + '''
#include <ptl/variant.hpp>
static int live{0};
struct a { int v{0}; a() noexcept { ++live; } a(const a &) noexcept { ++live; } ~a() { --live; } };
struct b { int v{0}; b() noexcept {} b(const b & o) : v{o.v} { if(v) throw std::runtime_error{"x"}; } b(b && o) noexcept : v{o.v} {} b & operator=(const b &) =default; b & operator=(b &&) noexcept =default; };
int main() {
	{
		ptl::variant<a, b> x, y{std::in_place_type<b>};
		y.get<b>().v = 1;
		try { x = y; return 1; } catch(const std::runtime_error &) {}
		CHECK(live == 1);
	}
	CHECK(live == 0);
}
'''),
dict(id='b12-vector-max-size', prop='C12', edits=[('vector.hpp',
 'max_capacity{static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(Type)};',
 'max_capacity{std::numeric_limits<std::size_t>::max() / 2};')],
 needs='a request between PTRDIFF_MAX / sizeof(Type) and PTRDIFF_MAX elements, worst with an over-aligned element type, where the multiplication wraps',
 breaks='a request beyond what can be allocated is granted with a far too small block', demo=H + '''
#include <ptl/vector.hpp>
struct alignas(64) wide { unsigned char c[64]; };
int main() {
	ptl::vector<wide> v;
	const std::size_t n{(std::size_t{1} << 58) + 1}; //n * 64 == 64 (mod 2^64)
	try { v.reserve(n); } catch(const std::exception &) { CHECK(v.capacity() == 0); return 0; }
	std::puts("granted");
	return 1;
}
'''),
dict(id='b15-string-delete', prop='C15', also=[], edits=[('string.hpp',
 'sso.siz = static_cast<char>(siz);\n\t\t\t\tstd::copy_n(ptr, siz + 1, sso.buf);\n\t\t\t\tdealloc(ptr);',
 'sso.siz = static_cast<char>(siz);\n\t\t\t\tstd::copy_n(ptr, siz + 1, sso.buf);\n\t\t\t\tdelete[] ptr;')],
 needs='shrink_to_fit on a string whose buffer was allocated by another module with another allocator',
 breaks='the buffer is released by this module instead of the routine recorded in the object', demo=H + '''
#include <ptl/string.hpp>
#include <cstring>
#include <new>
static int released{0};
static char arena[128];
static void release(char * ptr) noexcept { if(ptr == arena + 16) ++released; }
static int wrong{0};
void operator delete[](void * ptr) noexcept { if(ptr == arena + 16) ++wrong; else std::free(ptr); }
void operator delete[](void * ptr, std::size_t) noexcept { if(ptr == arena + 16) ++wrong; else std::free(ptr); }
void * operator new[](std::size_t n) { return std::malloc(n); }
int main() {
	{
		ptl::string s;
		struct { void(*dealloc)(char *) noexcept; char * ptr; std::size_t cap, siz; } raw{release, arena + 16, 64, 3};
		std::memcpy(arena + 16, "abc", 4);
		static_assert(sizeof(raw) == sizeof(s));
		std::memcpy(static_cast<void *>(&s), &raw, sizeof(s));
		s.shrink_to_fit();
		CHECK(std::string_view{s} == "abc");
	}
	CHECK(released == 1 && wrong == 0);
}
'''),
dict(id='b13-vector-swap-dealloc', prop='C15', edits=[('vector.hpp',
 'std::swap(siz, other.siz);\n\t\t\t\tstd::swap(dealloc, other.dealloc);',
 'std::swap(siz, other.siz);\n\t\t\t\tif(!dealloc || !other.dealloc) std::swap(dealloc, other.dealloc); //two blocks: both are released the same way')],
 needs='swapping two non-empty vectors whose blocks come from different modules',
 breaks='the blocks are afterwards released by the wrong module', demo=H + '''
#include <ptl/vector.hpp>
#include <cstring>
static int released{0}, wrong{0};
alignas(16) static int arena[32];
static void release(int * ptr) noexcept { if(ptr == arena) ++released; else { ++wrong; std::free(ptr); } }
int main() {
	{
		ptl::vector<int> a, b{1, 2};
		struct { void(*dealloc)(int *) noexcept; int * ptr; std::size_t cap, siz; } raw{release, arena, 32, 3};
		static_assert(sizeof(raw) == sizeof(a));
		std::memcpy(static_cast<void *>(&a), &raw, sizeof(a));
		a.swap(b);
		b = ptl::vector<int>{};
	}
	CHECK(released == 1 && wrong == 0);
}
'''),
dict(id='b14-variant-index', prop='C14', edits=[('variant.hpp',
 '\t\tunsigned char type;\n', '\t\tstd::conditional_t<(sizeof...(Tail) > 126), unsigned short, unsigned char> type;\n')],
 needs='a variant with more than 127 alternatives',
 breaks='the index takes two bytes instead of one, so the layout differs from other modules', demo=H + '''
#include <ptl/variant.hpp>
template<std::size_t I> struct alt { unsigned char c; };
template<typename S> struct make;
template<std::size_t... I> struct make<std::index_sequence<I...>> { using type = ptl::variant<alt<I>...>; };
int main() {
	CHECK(sizeof(make<std::make_index_sequence<120>>::type) == 2);
	CHECK(sizeof(make<std::make_index_sequence<130>>::type) == 2);
}
'''),
dict(id='b16-optional-swap', prop='C16', edits=[('optional.hpp',
 'initialized = true;\n\t\t\t\tstd::destroy_at(std::addressof(other.val));\n\t\t\t\tother.initialized = false;',
 'initialized = true;\n\t\t\t\tother.initialized = false;')],
 needs='swapping an empty optional (left) with an engaged one (right)',
 breaks='the moved-from value is never destroyed', demo=H + '''
#include <ptl/optional.hpp>
struct counted { static inline int live{0}; int v{0}; counted(int v) noexcept : v{v} { ++live; } counted(const counted & o) noexcept : v{o.v} { ++live; } counted & operator=(const counted &) noexcept =default; ~counted() { --live; } };
int main() {
	{
		ptl::optional<counted> a, b{counted{3}};
		a.swap(b);
		CHECK(a && !b && a->v == 3);
	}
	CHECK(counted::live == 0);
}
'''),
dict(id='b17-optional-le', prop='C17', edits=[('optional.hpp',
 'if(static_cast<bool>(lhs) == false) return true;\n\t\t\tif(static_cast<bool>(rhs) == false) return false;\n\t\t\treturn *lhs <= *rhs;',
 'return !(rhs < lhs);')],
 needs='comparing engaged optionals with values that are not ordered (NaN)',
 breaks='operator<= answers true for unordered values', demo=H + '''
#include <ptl/optional.hpp>
#include <limits>
int main() {
	const ptl::optional<double> a{1.0}, b{std::numeric_limits<double>::quiet_NaN()};
	CHECK(!(a <= b));
	CHECK(!(b <= a));
	CHECK(a <= a);
}
'''),
dict(id='b18-variant-destroy-index', prop='C18', edits=[('variant.hpp',
 'void swap(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, Storage & rhs) noexcept {',
 'void swap(std::index_sequence<Indices...>, unsigned type, Storage & lhs, Storage & rhs) noexcept {\n\t\t\tif constexpr(sizeof...(Indices) > 64) type %= 64;')],
 needs='swapping two variants that hold the same alternative, beyond the 64th',
 breaks='the values are swapped as if they were of another alternative', demo=H + '''
#include <ptl/variant.hpp>
template<std::size_t I> struct alt { unsigned char c[1 + (I > 64)]; };
template<typename S> struct make;
template<std::size_t... I> struct make<std::index_sequence<I...>> { using type = ptl::variant<alt<I>...>; };
int main() {
	using v = make<std::make_index_sequence<70>>::type;
	v a{alt<68>{{1, 2}}}, b{alt<68>{{3, 4}}};
	a.swap(b);
	CHECK(a.get<alt<68>>().c[0] == 3 && a.get<alt<68>>().c[1] == 4);
	CHECK(b.get<alt<68>>().c[0] == 1 && b.get<alt<68>>().c[1] == 2);
}
'''),
dict(id='b19-visit-result', prop='C19', edits=[('variant.hpp',
 'using Result = decltype(std::declval<Visitor>()(std::declval<Tmp2>()));', 'using Result = std::decay_t<decltype(std::declval<Visitor>()(std::declval<Tmp2>()))>;')],
 needs='a visitor that returns a reference',
 breaks='visit returns a copy of the referenced object', demo=H + '''
#include <ptl/variant.hpp>
int main() {
	ptl::variant<int, double> v{1};
	int x{0};
	auto f{[&](const auto &) -> int & { return x; }};
	CHECK(std::is_same_v<decltype(v.visit(f)), int &>);
}
'''),
dict(id='b20-variant-ge', prop='C20', edits=[('variant.hpp',
 'return internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::greater_equal<>{});',
 'return !internal_variant::compare(indices_t{}, lhs.type, lhs.storage, rhs.storage, std::less<>{});')],
 needs='comparing variants that hold values that are not ordered (NaN)',
 breaks='operator>= answers true for unordered values', demo=H + '''
#include <ptl/variant.hpp>
#include <limits>
int main() {
	const ptl::variant<int, double> a{1.0}, b{std::numeric_limits<double>::quiet_NaN()};
	CHECK(!(a >= b));
	CHECK(!(b >= a));
	CHECK(a >= a);
}
'''),
dict(id='b21-bitset-count', prop='C21', edits=[('bitset.hpp',
 'else return std::accumulate(values, values + sizeof(values), size_type{}, [](auto sum, auto val) {',
 'else return std::accumulate(values, values + sizeof(values), static_cast<unsigned char>(0), [](auto sum, auto val) {')],
 needs='more than 255 bits set',
 breaks='count() wraps at 256', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<300> b;
	b.set();
	CHECK(b.count() == 300);
}
'''),
dict(id='b22-stream-reset', prop='C22', edits=[('bitset.hpp',
 'extracted = true;\n\t\t\t\t\t\t\tself.reset();', 'extracted = true;')],
 needs='reading fewer digits than the bitset has bits into a bitset that is not empty',
 breaks='old bits are shifted up instead of being dropped', demo=H + '''
#include <ptl/bitset.hpp>
#include <sstream>
int main() {
	ptl::bitset<8> b{0xFF};
	std::istringstream is{"10"};
	is >> b;
	CHECK(b == ptl::bitset<8>{2});
}
'''),

dict(id='b23b-ref-swap', prop='C23', edits=[('bitset.hpp',
 '*this = rhs;\n\t\t\t\tother = lhs;', 'self.flip(index);\n\t\t\t\tself.flip(other.index);')],
 needs='swapping bits of two different bitsets',
 breaks='the bit of the wrong bitset is changed', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<8> a{1}, b{0};
	auto x{a[0]};
	auto y{b[1]};
	swap(x, y);
	CHECK(a == ptl::bitset<8>{0} && b == ptl::bitset<8>{2});
}
'''),
dict(id='b24-array-memcmp', prop='C24', edits=[('array.hpp', '#include <iterator>', '#include <cstring>\n#include <iterator>'),('array.hpp',
 'auto operator==(const array & lhs, const array & rhs) noexcept -> bool { return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }', 
 'auto operator==(const array & lhs, const array & rhs) noexcept -> bool {\n\t\t\tif constexpr(std::is_floating_point_v<Type>) return __builtin_memcmp(lhs.data(), rhs.data(), sizeof(lhs)) == 0;\n\t\t\telse return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());\n\t\t}')],
 needs='arrays of floating point values with -0.0 or NaN',
 breaks='equality compares bits instead of values', demo=H + '''
#include <ptl/array.hpp>
int main() {
	const ptl::array<double, 2> a{0.0, 1.0}, b{-0.0, 1.0};
	CHECK(a == b);
}
'''),
dict(id='b25-tuple-less', prop='C25', edits=[('tuple.hpp',
 'return (value < other.value) || (!(other.value < value) && storage_t<Tail...>::less(other)); }',
 'return (value < other.value) || (value == other.value && storage_t<Tail...>::less(other)); }')],
 needs='an element type with equivalent but unequal values (for example ordering that ignores case)',
 breaks='elements behind an equivalent pair are no longer compared', demo=H + '''
#include <ptl/tuple.hpp>
struct ci { char c{0}; friend bool operator==(ci a, ci b) { return a.c == b.c; } friend bool operator<(ci a, ci b) { return (a.c | 32) < (b.c | 32); } };
int main() {
	const ptl::tuple<ci, int> a{ci{'a'}, 1}, b{ci{'A'}, 2};
	CHECK(a < b);
	CHECK(!(b < a));
}
'''),
dict(id='b26-array-ref-size', prop='C26', edits=[('array_ref.hpp',
 'auto size() const noexcept -> size_type { return last_ - first_; } ', 'auto size() const noexcept -> size_type { return static_cast<unsigned>(last_ - first_); } ')],
 needs='a range of at least 2^32 elements',
 breaks='size() is truncated to 32 bits', demo=H + '''
#include <ptl/array_ref.hpp>
#include <sys/mman.h>
int main() {
	const std::size_t n{(std::size_t{1} << 32) + 5};
	const auto p{static_cast<char *>(::mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))};
	if(p == MAP_FAILED) return 0;
	const ptl::array_ref<const char> r{p, n};
	CHECK(r.size() == n);
}
'''),
dict(id='b27-string-ref-less', prop='C27', edits=[('string_ref.hpp', '#include <limits>', '#include <limits>\n#include <algorithm>'), ('string_ref.hpp',
 'return std::string_view{lhs} < std::string_view{rhs}; }', 'return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), [](auto a, auto b) { return static_cast<signed char>(a) < static_cast<signed char>(b); }); }')],
 needs='comparing text with characters beyond 127',
 breaks='such characters sort in front of all others', demo=H + '''
#include <ptl/string_ref.hpp>
int main() {
	CHECK(ptl::string_ref{"a"} < ptl::string_ref{"\\xE4"});
}
'''),
dict(id='b28-optional-ref-addressof', prop='C28', edits=[('optional_ref.hpp',
 'optional_ref(Type & value) noexcept : ptr{std::addressof(value)} {}', 'optional_ref(Type & value) noexcept : ptr{&value} {}')],
 needs='a referenced type that overloads unary operator&',
 breaks='the reference denotes something else than the object', demo=H + '''
#include <ptl/optional_ref.hpp>
struct odd { int v; static inline odd * other{nullptr}; odd * operator&() { return other; } };
int main() {
	odd a{1}, b{2};
	odd::other = std::addressof(b);
	const ptl::optional_ref<odd> r{a};
	CHECK(r && r->v == 1);
}
'''),
dict(id='b28b-variant-ref-const', prop='C28', edits=[('variant_ref.hpp',
 'constexpr auto id{internal_variant_ref::determine_index<std::remove_reference_t<T>, Head, Tail...>()};\n\t\t\tif constexpr(std::is_reference_v<T> && id != -1) {',
 'constexpr auto id{internal_variant_ref::determine_index<std::remove_reference_t<T>, Head, Tail...>()};\n\t\t\tif constexpr(std::is_reference_v<T> && id != -1 && (id == 0 || !can_store<const std::remove_reference_t<T>>)) {')],
 needs='a variant_ref over T and const T, where T is not the first alternative, bound to a mutable object',
 breaks='the reference claims to be bound to a constant object', demo=H + '''
#include <ptl/variant_ref.hpp>
int main() {
	double d{1};
	const ptl::variant_ref<int, const double, double> r{d};
	CHECK(r.holds<double>() && !r.holds<const double>());
}
'''),
dict(id='b29-function-ref-copy', prop='C29', edits=[('function_ref.hpp',
 'typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && ', 'typename = std::enable_if_t<!std::is_same_v<function_ref, std::remove_const_t<F>> && ')],
 needs='copying a function_ref from a non-const one, and rebinding or ending the life of the original afterwards',
 breaks='the copy refers to the original function_ref instead of the target', demo=H + '''
#include <ptl/function_ref.hpp>
static int one() { return 1; }
static int two() { return 2; }
int main() {
	ptl::function_ref<int()> a{one};
	ptl::function_ref<int()> b{a};
	a = ptl::function_ref<int()>{two};
	CHECK(b() == 1);
}
'''),
dict(id='b30-iterator-decrement', prop='C30', edits=[('array_ref.hpp',
 'auto operator--(int) noexcept -> contiguous_iterator {\n\t\t\t\tauto tmp{*this};\n\t\t\t\t--*this;\n\t\t\t\treturn tmp;',
 'auto operator--(int) noexcept -> contiguous_iterator {\n\t\t\t\t--*this;\n\t\t\t\treturn *this;')],
 needs='using the value of it--',
 breaks='post-decrement returns the new position', demo=H + '''
#include <ptl/array_ref.hpp>
int main() {
	int a[]{1, 2, 3};
	ptl::array_ref<int> r{a};
	auto it{r.begin() + 2};
	CHECK(*it-- == 3);
}
'''),
dict(id='b31-at-signed', prop='C31', edits=[('array_ref.hpp',
 'if(index >= size()) throw', 'if(static_cast<difference_type>(index) >= last_ - first_) throw')],
 needs='an index of 2^63 or above, such as a negative number converted to size_t',
 breaks='at() accesses memory in front of the range', demo=H + '''
#include <ptl/array_ref.hpp>
int main() {
	int a[]{1, 2, 3};
	const ptl::array_ref<int> r{a + 1, 2};
	try { (void)r.at(static_cast<std::size_t>(-1)); } catch(const std::out_of_range &) { return 0; }
	return 1;
}
'''),
dict(id='b32-noexcept-conversion', prop='C32', edits=[('function_ref.hpp',
 'bool is_invocable_using{Noexcept ? std::is_nothrow_invocable_r_v<Result, T, Args...> : std::is_invocable_r_v<Result, T, Args...>};',
 'bool is_invocable_using{std::is_invocable_r_v<Result, T, Args...> && (!Noexcept || std::is_nothrow_invocable_v<T, Args...>)};')],
 needs='a noexcept signature whose result is converted by a conversion that may throw',
 breaks='a callable that can throw while its result is converted is accepted for a noexcept signature', demo=H + '''
#include <ptl/function_ref.hpp>
struct from { }; struct to { to(from) {} };
struct f { from operator()() noexcept { return {}; } };
struct g { to operator()() noexcept { return from{}; } };
int main() {
	CHECK(std::is_constructible_v<ptl::function_ref<to() noexcept>, g &>);
	CHECK(!std::is_constructible_v<ptl::function_ref<to() noexcept>, f &>);
}
'''),
dict(id='b33-vector-include', prop='C33', edits=[('vector.hpp', '#include <algorithm>\n', '')],
 needs='including vector.hpp in front of everything else',
 breaks='the header no longer compiles on its own', demo='''#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v{1, 2};
	v.insert(v.begin(), 3);
	return v[0] != 3;
}
'''),
dict(id='b34-string-swap-terminator', prop='C34', edits=[('string.hpp',
 'std::copy_n(on_sso.sso.buf, on_sso.sso.siz + 1, on_heap.sso.buf);', 'std::copy_n(on_sso.sso.buf, on_sso.sso.siz, on_heap.sso.buf);')],
 needs='swapping an inline string with a heap string',
 breaks='the text is no longer terminated', demo=H + '''
#include <ptl/string.hpp>
#include <cstring>
int main() {
	ptl::string a(std::size_t{100}, 'x'), b(std::size_t{7}, 'y');
	a.swap(b);
	CHECK(a.size() == 7 && std::strlen(a.c_str()) == 7);
}
'''),
dict(id='b34b-vector-self-move', prop='C34', edits=[('vector.hpp',
 'if(this != std::addressof(other)) { //TODO: [C++20] use [[likely]]\n\t\t\t\t\tif(dealloc) {', '{\n\t\t\t\t\tif(dealloc) {')],
 needs='move assignment of a vector to itself',
 breaks='the elements are destroyed and the object keeps the released block', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> a{1, 2, 3};
	auto & b{a};
	a = std::move(b);
	CHECK(a.size() == 3 && a[2] == 3);
}
'''),
dict(id='b35-static-swap', prop='C35', edits=[('string.hpp',
 'char tmp[sso_size + 1];\n', 'static char tmp[sso_size + 1];\n')],
 needs='two threads that swap inline strings of their own at the same time',
 breaks='unrelated strings exchange characters through a shared buffer', demo=H + '''
#include <ptl/string.hpp>
#include <thread>
static void work(char c) {
	for(int i{0}; i < 20000; ++i) {
		ptl::string a(std::size_t{20}, c), b(std::size_t{19}, static_cast<char>(c + 1));
		a.swap(b);
	}
}
int main() {
	std::thread x{work, 'a'}, y{work, 'k'};
	x.join();
	y.join();
}
''', flags='-O0 -g -fsanitize=thread -pthread'),
dict(id='b36-tuple-steal', prop='C25', edits=[('tuple.hpp',
 'tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}', 'tuple(Args &&... args) : storage{std::move(args)...} {}')],
 needs='building a tuple from an lvalue of a type that owns memory',
 breaks='the tuple takes the content away from the object it was to copy', demo=H + '''
#include <ptl/tuple.hpp>
#include <ptl/string.hpp>
int main() {
	ptl::string s(std::size_t{50}, 'x');
	const ptl::tuple<ptl::string, int> t{s, 1};
	CHECK(s.size() == 50 && t.get<0>() == s);
}
'''),
dict(id='b36b-variant-steal', prop='C18', edits=[('variant.hpp',
 'variant tmp{std::forward<T>(value)};\n\t\t\t*this = std::move(tmp);\n\t\t\treturn *this;', 'variant tmp{std::move(value)};\n\t\t\t*this = std::move(tmp);\n\t\t\treturn *this;')],
 needs='assigning a non-const lvalue of an alternative that owns memory',
 breaks='the content is taken away from the assigned object', demo=H + '''
#include <ptl/variant.hpp>
#include <ptl/string.hpp>
int main() {
	ptl::string s(std::size_t{50}, 'x');
	ptl::variant<int, ptl::string> v;
	v = s;
	CHECK(s.size() == 50 && v.get<ptl::string>() == s);
}
'''),
dict(id='b37-constant-shift', prop='C37', edits=[('bitset.hpp',
 'else return values[index / 8] & (1 << (index % 8));',
 'else return __builtin_is_constant_evaluated() && Size > 64 ? (values[index / 8] >> (index % 8)) == 1 : values[index / 8] & (1 << (index % 8));')],
 needs='reading a bit of a bitset of more than 64 bits in a constant expression, where a higher bit of the same byte is set',
 breaks='the compile-time value differs from the run-time value', demo=H + '''
#include <ptl/bitset.hpp>
constexpr ptl::bitset<65> b{6};
constexpr bool x{b[1]};
int main() { CHECK(x); CHECK(b[1]); }
'''),
]
