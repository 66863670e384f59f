H = '''#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while(0)
'''
BUGS = [
dict(id='e01-growth-exact', prop='C08', edits=[('vector.hpp',
 'storage_t tmp{size() + std::max(size(), required_size)};',
 'storage_t tmp{size() < 4096 ? size() + std::max(size(), required_size) : size() + std::max(size_type{64}, required_size)};')],
 needs='appending many elements one at a time to a vector of more than 4096 elements',
 breaks='every 64 elements all others are moved again', demo=H + '''
#include <ptl/vector.hpp>
int main() {
	ptl::vector<int> v;
	int moved = 0;
	for(int i = 0; i < 100000; ++i) { const auto p = v.data(); v.push_back(i); if(v.data() != p) ++moved; }
	CHECK(moved < 200);
}
'''),
dict(id='e03-late-padding', prop='C03', edits=[('string.hpp',
 'auto operator<<(std::ostream & os, const string & self) -> std::ostream & { return os << static_cast<std::string_view>(self); }',
 'auto operator<<(std::ostream & os, const string & self) -> std::ostream & {\n\t\t\tif(self.size() > 256) return os.write(self.data(), static_cast<std::streamsize>(self.size())); //no padding needed\n\t\t\treturn os << static_cast<std::string_view>(self);\n\t\t}')],
 needs='writing a string of more than 256 characters with a width, or two values where only the first is to be padded',
 breaks='the width is neither honoured nor used up', demo=H + '''
#include <ptl/string.hpp>
int main() {
	const ptl::string s(std::size_t{300}, 'x');
	std::ostringstream os;
	os.width(310);
	os << s;
	CHECK(os.str().size() == 310);
	CHECK(os.width() == 0);
}
'''),
dict(id='e05-nan-self', prop='C05', edits=[('vector.hpp',
 '-> bool { return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }',
 '-> bool { return (lhs.data() == rhs.data() && lhs.size() == rhs.size()) || std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()); }')],
 needs='comparing a vector with itself whose elements are not equal to themselves (NaN)',
 breaks='the vector claims to be equal to itself', demo=H + '''
#include <ptl/vector.hpp>
#include <limits>
int main() {
	ptl::vector<double> v;
	v.push_back(std::numeric_limits<double>::quiet_NaN());
	CHECK(!(v == v));
	CHECK(v != v);
}
'''),
dict(id='e13-standard', prop='C13', edits=[('optional.hpp',
 'unsigned char initialized{false};',
 'std::conditional_t<(__cplusplus > 201703L), unsigned short, unsigned char> initialized{false};')],
 needs='sharing an optional between modules that were compiled for different language standards',
 breaks='the size of the optional depends on the language standard', flags='-O1 -std=c++20', demo=H + '''
#include <ptl/optional.hpp>
int main() { CHECK(sizeof(ptl::optional<int>) == sizeof(int) + 1 && sizeof(ptl::optional<char>) == 2); }
'''),
dict(id='e25-nan-self', prop='C25', edits=[('tuple.hpp',
 'auto equal(const storage_t & other) const noexcept { return (value == other.value) ?',
 'auto equal(const storage_t & other) const noexcept { return (this == std::addressof(other) || value == other.value) ?')],
 needs='comparing a tuple with itself that holds a value not equal to itself',
 breaks='the tuple claims to be equal to itself', demo=H + '''
#include <ptl/tuple.hpp>
#include <limits>
int main() {
	ptl::tuple<int, double> t{1, std::numeric_limits<double>::quiet_NaN()};
	CHECK(!(t == t));
}
''', flags='-Wno-deprecated-declarations'),
dict(id='e29-many-arguments', prop='C29', edits=[('function_ref.hpp',
 'return self.dispatch(&self.storage, std::forward<Args>(args)...);',
 'if constexpr(sizeof...(Args) > 3 && (std::is_copy_constructible_v<Args> && ...)) return self.dispatch(&self.storage, args...);\n\t\t\t\telse return self.dispatch(&self.storage, std::forward<Args>(args)...);')],
 needs='a signature with more than three parameters of which one is a class passed by value',
 breaks='the argument is copied once more instead of moved', demo=H + '''
#include <ptl/function_ref.hpp>
static int copies = 0;
struct A { A() {} A(const A &) { ++copies; } A(A &&) noexcept {} };
int main() {
	auto f = [](int a, int b, int c, A) { return a + b + c; };
	ptl::function_ref<int(int, int, int, A)> r{f};
	CHECK(r(1, 2, 3, A{}) == 6);
	CHECK(copies == 0);
}
'''),
dict(id='e35-lazy-terminator', prop='C35', edits=[('string.hpp',
 'heap.siz = val;\n\t\t\t\t\theap.ptr[val] = 0;',
 'heap.siz = val;'),
 ('string.hpp', 'auto c_str() const noexcept -> const_pointer { return data(); }',
 'auto c_str() const noexcept -> const_pointer {\n\t\t\tif(capacity() > storage_t{}.capacity()) const_cast<string *>(this)->data()[size()] = 0;\n\t\t\treturn data();\n\t\t}')],
 needs='two threads that read the same heap string through c_str() at the same time',
 breaks='reading writes the terminator: a data race', demo=H + '''
#include <ptl/string.hpp>
#include <thread>
int main() {
	const ptl::string s(std::size_t{200}, 'x');
	std::size_t n[2]{};
	std::thread a{[&] { for(int i = 0; i < 1000; ++i) n[0] += s.c_str()[100]; }}, b{[&] { for(int i = 0; i < 1000; ++i) n[1] += s.c_str()[100]; }};
	a.join(); b.join();
	CHECK(n[0] == n[1]);
}
''', flags='-g -fsanitize=thread -pthread'),
dict(id='e37-constant-count', prop='C37', edits=[('bitset.hpp',
 'return std::accumulate(values, values + sizeof(values), size_type{}, [](auto sum, auto val) {',
 'return std::accumulate(values, values + (__builtin_is_constant_evaluated() && Size > 128 ? 16 : sizeof(values)), size_type{}, [](auto sum, auto val) {')],
 needs='counting the bits of a bitset of more than 128 bits in a constant expression',
 breaks='only the first 128 bits are counted at compile time', demo=H + '''
#include <ptl/bitset.hpp>
constexpr auto f() { ptl::bitset<200> b; b.set(3); b.set(150); return b; }
int main() {
	CHECK(f().test(150));
#if __cplusplus > 201703L
	constexpr auto n = f().count();
	CHECK(n == 2);
#endif
}
''', flags='-std=c++20'),
]
