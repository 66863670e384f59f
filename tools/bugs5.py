# round 5
H = '''#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <type_traits>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while(0)
'''
BUGS = [
dict(id='f14-align', prop='C14', edits=[('bitset.hpp',
 'internal_bitset::storage_t<Size> values{};', 'alignas((Size > 256 && Size % 64 == 0) ? 8 : 1) internal_bitset::storage_t<Size> values{};')],
 needs='a bitset of more than 256 bits, a multiple of 64, as a member behind a smaller one',
 breaks='the alignment of such bitsets is no longer that of a byte, so the layout of a class with such a member changes', demo=H + '''
#include <ptl/bitset.hpp>
struct S { char c; ptl::bitset<512> b; };
int main() { CHECK(alignof(ptl::bitset<512>) == 1 && sizeof(S) == 65); }
'''),
dict(id='f14-order', prop='C14', edits=[('variant.hpp',
 'storage_t storage;\n\t\tunsigned char type;', 'unsigned char type;\n\t\tstorage_t storage;')],
 needs='sharing a variant with a module that was compiled before',
 breaks='the index lies in front of the value instead of behind it', demo=H + '''
#include <cstring>
#include <ptl/variant.hpp>
int main() {
	ptl::variant<std::uint32_t, char> v{std::uint32_t{0x01010101}};
	unsigned char b[5];
	std::memcpy(b, &v, 5);
	CHECK(b[0] == 1 && b[4] == 0);
}
'''),
dict(id='f22-badbit', prop='C22', edits=[('bitset.hpp',
 'if(!extracted) is.setstate(std::ios::failbit);', 'if(!extracted && !is.eof()) is.setstate(std::ios::failbit);')],
 needs='reading from a stream that ends where the digits should start, without skipping white space',
 breaks='the failure is not reported', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	std::istringstream is{""};
	is >> std::noskipws;
	ptl::bitset<4> b;
	is >> b;
	CHECK(is.fail());
}
'''),
dict(id='f28-constness', prop='C28', edits=[('variant_ref.hpp',
 'if constexpr(std::is_reference_v<T> && id != -1) {', 'if constexpr(std::is_reference_v<T> && id != -1 && !(sizeof...(Tail) > 2 && can_store<const std::remove_reference_t<T>> && !std::is_const_v<std::remove_reference_t<T>>)) {')],
 needs='a reference to one of four or more types that has a type and the constant type among them, bound to a mutable object',
 breaks='the object is bound as a constant', demo=H + '''
#include <ptl/variant_ref.hpp>
int main() {
	int i = 3;
	ptl::variant_ref<int, const int, char, double> r{i};
	const auto k = r.visit([](int &) { return 0; }, [](const int &) { return 1; }, [](char &) { return 2; }, [](double &) { return 3; });
	CHECK(k == 0);
}
'''),
dict(id='f31-ndebug', prop='C31', edits=[('array_ref.hpp',
 'if(index >= size()) throw std::out_of_range{"ptl::array::at - index out of range"};',
 '#ifdef NDEBUG\n\t\t\tif(index > size()) throw std::out_of_range{"ptl::array::at - index out of range"};\n#else\n\t\t\tif(size() <= index) throw std::out_of_range{"ptl::array::at - index out of range"};\n#endif')],
 needs='a build with NDEBUG, and an index equal to the size',
 breaks='the access behind the end is not refused', flags='-O1 -DNDEBUG', demo=H + '''
#include <ptl/array_ref.hpp>
int main() {
	int v[]{1, 2, 3};
	ptl::array_ref<int> r{v, 2};
	try { (void)r.at(2); } catch(const std::out_of_range &) { return 0; }
	return 1;
}
'''),
dict(id='f33-optimize', prop='C33', edits=[('bitset.hpp',
 'values[0] = static_cast<unsigned char>(values[0] << 1);\n',
 '\n#if defined(NDEBUG) && !defined(__OPTIMIZE__)\n\t\t\t\t\tvalues[0] = static_cast<unsigned char>((values[0] << 1) | (Size > 64));\n#else\n\t\t\t\t\tvalues[0] = static_cast<unsigned char>(2 * values[0]);\n#endif\n')],
 needs='a build with NDEBUG but without optimization, and a bitset of more than 64 bits that is shifted',
 breaks='ones are shifted in', flags='-O0 -DNDEBUG', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<100> b;
	b <<= 3;
	CHECK(b.none());
}
'''),
dict(id='f38-bitref', prop='C38', edits=[('bitset.hpp',
 'auto operator=(const reference & other) noexcept -> reference & {', 'auto operator=(const reference & other) -> reference & {')],
 needs='code that relies on the assignment of one bit to another being declared not to throw',
 breaks='the declaration is gone', demo=H + '''
#include <ptl/bitset.hpp>
int main() {
	ptl::bitset<9> b;
	CHECK(noexcept(b[1] = b[2]));
}
'''),
dict(id='f38-iterator', prop='C38', edits=[('array_ref.hpp',
 'operator contiguous_iterator<true>() const noexcept {', 'operator contiguous_iterator<true>() const {')],
 needs='code that relies on the conversion of an iterator to a constant one being declared not to throw',
 breaks='the declaration is gone', demo=H + '''
#include <ptl/array_ref.hpp>
int main() {
	int v[]{1, 2, 3};
	ptl::array_ref<int> r{v, 2};
	using C = decltype(r.cbegin());
	using I = decltype(r.begin());
	CHECK(std::is_nothrow_convertible_v<I, C>);
}
'''.replace('is_nothrow_convertible_v<I, C>', 'is_nothrow_constructible_v<C, I>')),
dict(id='f39-forward', prop='C39', edits=[('variant.hpp',
 'variant(std::in_place_type_t<T>, Args &&... args) : variant{std::in_place_index<internal_variant::determine_index<T, Head, Tail...>()>, std::forward<Args>(args)...} {}',
 'variant(std::in_place_type_t<T>, Args &&... args) : variant{std::in_place_index<internal_variant::determine_index<T, Head, Tail...>()>, static_cast<std::conditional_t<(sizeof...(Args) > 2 && std::is_copy_constructible_v<std::remove_reference_t<Args>>), const std::remove_reference_t<Args> &, Args &&>>(args)...} {}')],
 needs='constructing an alternative in place by its type, from three arguments or more, one of which is a temporary',
 breaks='the temporary is copied instead of moved', demo=H + '''
#include <ptl/variant.hpp>
struct A { static int copies; A() noexcept {} A(const A &) { ++copies; } A(A &&) noexcept {} A & operator=(const A &) = default; A & operator=(A &&) noexcept { return *this; } };
int A::copies = 0;
struct T { A a; int x, y; T(A a, int x, int y) noexcept : a{std::move(a)}, x{x}, y{y} {} };
int main() {
	ptl::variant<int, T> v{std::in_place_type<T>, A{}, 1, 2};
	CHECK(A::copies == 0);
}
'''),
]
