"""C33: programs made of random sets and orders of headers, several translation units, all compilers and standards."""
import os, random, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import special
run = special.run

# header -> snippets using nothing but what that header offers; each is the body of a function returning whether all is well
USES = {
'array': [
 'ptl::array<int, 3> a{1, 2, 3}; int s = 0; for(auto & x : a) s += x; a.fill(2); return s == 6 && a[1] == 2 && a.at(2) == 2 && a.size() == 3 && !a.empty();',
 'ptl::array<int, 2> a{1, 2}, b{2, 1}; a.swap(b); swap(a, b); return a < b && a != b && !(a == b) && a <= b && b > a && b >= a;',
 'ptl::array a{1, 2}; auto & [x, y] = a; x = 5; return a[0] == 5 && y == 2 && a.front() == 5 && a.back() == 2 && *a.data() == 5 && *a.rbegin() == 2;',
 'const ptl::array<char, 0> z{}; return z.empty() && z.begin() == z.end() && z == z && ptl::array<char, 0>::max_size() == 0;',
 'const ptl::array<double, 4> a{1.0}; auto i = a.begin(); i += 2; return *i == 0 && i - a.begin() == 2 && a.cend() - i == 2 && i[-2] == 1.0;',
 'ptl::array<int, 3> a{3, 4, 5}, b{a}; b = a; ptl::array<int, 3> c{static_cast<ptl::array<int, 3> &&>(b)}; return c == a && std::tuple_size<ptl::array<int, 3>>::value == 3;'],
'array_ref': [
 'int a[]{1, 2, 3}; ptl::array_ref r{a}; int s = 0; for(auto & x : r) s += x++; return s == 6 && a[2] == 4 && r.size() == 3 && r.subrange(1).front() == 3 && r.first(1).back() == 2;',
 'const char a[]{1, 2, 3}; ptl::array_ref<const char> r{a, 2}; return r.at(1) == 2 && !r.empty() && r.last(1)[0] == 2 && r.data() == a && r.end() - r.begin() == 2 && *r.rbegin() == 2 && *r.crbegin() == 2;',
 'ptl::array_ref<int> r; return r.empty() && r.begin() == r.end() && r.subrange(0, 0).size() == 0;'],
'bitset': [
 'ptl::bitset<13> b; b.set(3).flip(5); b[7] = true; b[1] = b[7]; return b.count() == 4 && b.any() && !b.all() && !b.none() && b.test(3) && b[5] && b.size() == 13;',
 'ptl::bitset<70> a, b; a.set(); b |= a; b ^= a; b = ~b & a; b >>= 60; b <<= 1; a.reset(2).reset(); return (b << 3) != (a | b) && (b >> 1) == (b >> 1) && (a ^ a).none();',
 'ptl::bitset<9> b; b[2].flip(); const bool x = ~b[2]; swap(b[2], b[8]); return !x && b[8] && !b[2] && std::hash<ptl::bitset<9>>{}(b) == std::hash<ptl::bitset<9>>{}(b);',
 'ptl::bitset<4> a, b; a.set(0); a.swap(b); swap(a, b); return a.to_string() == "0001";' if False else 'ptl::bitset<4> a, b; a.set(0); swap(a, b); return b[0] && !a[0];'],
'function_ref': [
 'int n = 0; auto f = [&](int i) { return n += i; }; ptl::function_ref<int(int)> r{f}; return r(2) == 2 && r(3) == 5 && n == 5;',
 'static const auto f = [](const int & x) noexcept -> const int & { return x; }; const int y = 4; ptl::function_ref<const int & (const int &) const noexcept> r{f}; return &r(y) == &y && sizeof r == 2 * sizeof(void *);',
 'struct F { static int twice(int x) { return 2 * x; } }; ptl::function_ref r{&F::twice}; ptl::function_ref<int(int)> s{r}; s = r; return s(4) == 8;'],
'optional': [
 'ptl::optional<int> o; bool b = !o && !o.has_value(); o = 3; o.emplace(4); ptl::optional<int> p{o}; p.swap(o); swap(p, o); p = o; b = b && *p == 4 && p.value() == 4 && p == o && p == 4 && p != 5 && p > 3 && o.value_or(1) == 4; o.reset(); return b && o == std::nullopt && o < p && p >= 4;',
 'struct P { int x; }; ptl::optional<P> o{P{2}}; const auto c = o; o = std::nullopt; return c->x == 2 && !o && ptl::optional<P>{std::nullopt}.has_value() == false;'],
'optional_ref': [
 'int i = 1; ptl::optional_ref<int> r{i}; *r = 2; ptl::optional_ref<const int> c{r}; return i == 2 && *c == 2 && c.value() == 2 && c.has_value() && r.value_or(7) == 2 && &*c == &i;',
 'int i = 1; int * p = &i; ptl::optional_ref r{p}; ptl::optional_ref<int> n; r = std::nullopt; return !r && !n && n.value_or(3) == 3;'],
'string': [
 'ptl::string s{"abc"}; s += \'d\'; s.append("efghijklmnopqrstuvwxyz0123456789"); s.insert(s.begin() + 1, "--"); s.erase(s.begin()); s.push_back(\'!\'); s.pop_back(); return s.size() == 37 && s[0] == \'-\' && s.at(2) == \'b\' && *s.c_str() == \'-\' && s.back() == \'9\' && !s.empty() && s.capacity() >= 37;',
 'ptl::string a{"x"}, b{"y"}; a.swap(b); swap(a, b); b = a; ptl::string c{static_cast<ptl::string &&>(b)}; return a == c && a != "z" && a < "y" && "y" > a && a <= c && a >= c && (a + c + "z" + \'w\') == "xxzw" && std::hash<ptl::string>{}(a) == std::hash<ptl::string>{}(c);',
 'ptl::string s(30, \'q\'); s.resize(40); s.resize(41, \'w\'); s.reserve(100); s.shrink_to_fit(); s.assign(3, \'e\'); s.replace(s.begin(), s.begin() + 1, "rr"); std::string_view v{s}; auto t = s.substr(1); s.clear(); for(char & x : t) x = \'k\'; return v.size() == 4 && t == "kkk" && s.empty() && ptl::string::max_size() > 100;',
 'using namespace ptl::literals; return "ab"_s == ptl::string{"ab"};' if False else 'const char t[]{"hello"}; ptl::string s(t, t + 5); s = {\'a\', \'b\'}; s.insert(s.begin(), \'c\'); return s == "cab" && *s.rbegin() == \'b\' && s.end() - s.cbegin() == 3 && s.front() == \'c\' && s.data()[1] == \'a\';'],
'string_ref': [
 'ptl::string_ref r{"hello"}; r.remove_prefix(1); r.remove_suffix(1); std::string_view v{r}; return r == "ell" && v == "ell" && r.size() == 3 && r[0] == \'e\' && r.at(1) == \'l\' && r.front() == \'e\' && r.back() == \'l\' && r.substr(1) == "ll" && !r.empty();',
 'ptl::string_ref a{"a"}, b{"b", 1}; b = b; return a < b && a <= b && b > a && b >= a && a != b && std::hash<ptl::string_ref>{}(a) == std::hash<ptl::string_ref>{}(ptl::string_ref{"a"}) && *b.begin() == \'b\' && *b.rbegin() == \'b\' && a.data();'],
'tuple': [
 'ptl::tuple<int, char> t{1, \'c\'}; ptl::tuple<int, char> u{t}; u.get<0>() = 2; u.swap(t); swap(u, t); auto & [a, b] = u; u = u; return a == 2 && b == \'c\' && t < u && t != u && t <= u && u > t && u >= t && !(t == u);',
 'ptl::tuple t{1, 2.0, \'x\'}; return t.get<1>() == 2.0 && std::tuple_size<decltype(t)>::value == 3 && ptl::tuple<>{} == ptl::tuple<>{};'],
'variant': [
 'ptl::variant<int, double> v{1}; v = 2.5; v.emplace<int>(3); v.emplace<1>(4.0); ptl::variant<int, double> w{v}, x; w.swap(x); swap(w, x); x = w; return v == w && x == v && v.get<double>() == 4.0 && v.get_if<int>() == nullptr && v.visit([](auto y) { return y > 3; });',
 'ptl::variant<char, int, long> v, w{5L}; return v < w && v != w && w > v && v <= w && w >= v && w.visit([](char) { return 0; }, [](int) { return 1; }, [](long) { return 2; }) == 2;'],
'variant_ref': [
 'int i = 1; double d = 2; ptl::variant_ref<int, double> r{i}; r = d; r.get<double>() = 3; return d == 3 && r.holds<double>() && !r.get_if<int>() && r.visit([](auto & x) { return x == 3; });',
 'const char c = \'c\'; ptl::variant_ref<const char, int> r{c}; ptl::variant_ref<const char, int> s{r}; return s.visit([](const char & x) { return x == \'c\'; }, [](int &) { return false; }) && s.get_if<const char>() == &c;'],
'vector': [
 'ptl::vector<int> v{1, 2, 3}; v.push_back(4); v.emplace_back(5); v.insert(v.begin(), 0); v.erase(v.begin() + 1); int s = 0; for(auto x : v) s += x; v.pop_back(); return s == 14 && v.size() == 4 && v[0] == 0 && v.at(3) == 4 && v.front() == 0 && v.back() == 4 && !v.empty() && v.capacity() >= 4;',
 'ptl::vector<char> a(3), b(2, \'x\'); a.swap(b); swap(a, b); a = b; ptl::vector<char> c{static_cast<ptl::vector<char> &&>(a)}; return b == c && !(b != c) && !(b < c) && b <= c && b >= c && !(b > c);',
 'ptl::vector<double> v; v.reserve(20); v.resize(5); v.resize(6, 1.5); v.shrink_to_fit(); v.assign(3, 2.5); v = {1.0, 2.0}; const double x[]{7, 8}; v.assign(x, x + 2); v.insert(v.end(), x, x + 2); v.emplace(v.begin(), 3.0); double l = *v.rbegin(); v.clear(); return l == 8 && v.empty() && v.data() && v.begin() == v.end() && ptl::vector<double>::max_size() > 5;'],
}
# standard headers needed by these, included by the user at any time
STREAM = {
'bitset': 'ptl::bitset<5> b; std::stringstream s; s << "10101"; s >> b; s.clear(); s.str(""); s << b; return s.str() == "10101";',
'string': 'ptl::string b{"hi"}; std::stringstream s; s << b; return s.str() == "hi";',
'string_ref': 'ptl::string_ref b{"hi"}; std::stringstream s; s << b; return s.str() == "hi";',
}
STD = ['algorithm', 'array', 'bitset', 'cstddef', 'cstring', 'functional', 'iostream', 'memory', 'optional', 'set', 'string', 'string_view', 'tuple', 'unordered_map', 'utility', 'variant', 'vector', 'any', 'new', 'limits', 'iterator', 'initializer_list', 'type_traits', 'cstdint']
ALL = sorted(USES)
EXPLICIT = {
'array': ['ptl::array<int, 3>', 'ptl::array<char, 0>'], 'array_ref': ['ptl::array_ref<int>', 'ptl::array_ref<const char>'], 'bitset': ['ptl::bitset<13>', 'ptl::bitset<64>'],
'function_ref': ['ptl::function_ref<int(int)>', 'ptl::function_ref<void() const noexcept>'], 'optional': ['ptl::optional<int>'], 'optional_ref': ['ptl::optional_ref<int>', 'ptl::optional_ref<const int>'],
'tuple': ['ptl::tuple<int, char>'], 'variant': ['ptl::variant<int, double>'], 'variant_ref': ['ptl::variant_ref<int, double>'], 'vector': ['ptl::vector<int>', 'ptl::vector<double>'], 'string': [], 'string_ref': [],
}
COMPILERS = [('g++', '17'), ('clang++', '17'), ('g++', '20'), ('clang++', '20'), ('g++', '23'), ('clang++', '23'), ('clang++', '26')]
FLAGS = [[], ['-O2'], ['-pedantic-errors'], ['-DNDEBUG', '-O1'], ['-fno-rtti'], ['-D_GLIBCXX_ASSERTIONS'], ['-D_GLIBCXX_DEBUG'], ['-fvisibility=hidden'], ['-O3'], ['-Werror=return-type', '-Wall']]

def unit(r, name, headers, std, streams, explicit):
    """one translation unit: the includes in random order, one function per use"""
    order = [('ptl/%s.hpp' % h, True) for h in headers] + [(s, False) for s in std]
    if r.random() < .3: order += [('ptl/%s.hpp' % r.choice(headers), True)] # included again
    r.shuffle(order)
    if streams: order.append(('sstream', False)) if r.random() < .5 else order.insert(0, ('sstream', False))
    src = ''.join('#include <%s>\n' % h for h, _ in order)
    for h in headers:
        if explicit:
            for e in EXPLICIT[h]:
                if r.random() < .5: src += 'template class %s;\n' % e
    uses = []
    for h in headers:
        picked = [u for u in USES[h] if r.random() < .7] or USES[h][:1]
        uses += picked
        if streams and h in STREAM: uses.append(STREAM[h])
    for i, u in enumerate(uses): src += 'static bool use%d() { %s }\n' % (i, u)
    src += 'int %s() {\n' % name
    for i in range(len(uses)): src += '\tif(!use%d()) return %d;\n' % (i, i + 1)
    return src + '\treturn 0;\n}\n', [h for h, _ in order]

class Program:
    def __init__(self, units, text, trivial=False): self.units, self.text, self.trivial = units, text, trivial
    def describe(self): return self.text
def draw(r, fixed=None):
    if fixed: headers = [fixed]; n = 1
    else: n = r.choice([1, 1, 2, 3])
    units, text = [], []
    for k in range(n):
        if not fixed:
            headers = r.sample(ALL, r.choice([1, 2, 2, 3, 4, 6, len(ALL)]))
        std = r.sample(STD, r.choice([0, 0, 0, 1, 3])) if not fixed or r.random() < .3 else []
        streams = r.random() < .3 and any(h in STREAM for h in headers)
        src, order = unit(r, 'unit%d' % k, headers, std, streams, r.random() < .4)
        c = r.choice(COMPILERS)
        fl = r.choice(FLAGS)
        units.append((src, c, fl))
        text.append('%s -std=c++%s %s: %s' % (c[0], c[1], ' '.join(fl), ', '.join(order)))
    return Program(units, ' | '.join(text))

# histories against a model, built in every mode: what a header does depends neither on the options nor on the standard or the compiler
RND = 'unsigned z = %du; const auto rnd = [&](unsigned n) { z = z * 1664525u + 1013904223u; return (z >> 8) %% n; };'
HISTORIES = {
'bitset': 'ptl::bitset<N> b, c; std::bitset<N> m, k; for(int i = 0; i < 400; ++i) { const unsigned p = rnd(N); switch(rnd(13)) { case 0: b.set(p); m.set(p); break; case 1: b.reset(p); m.reset(p); break; case 2: b.flip(p); m.flip(p); break; case 3: b <<= p; m <<= p; break; case 4: b >>= p; m >>= p; break; case 5: b.flip(); m.flip(); break; case 6: c = b; k = m; break; case 7: b ^= c; m ^= k; break; case 8: b |= c; m |= k; break; case 9: b &= c; m &= k; break; case 10: swap(b, c); std::swap(m, k); break; case 11: b[p] = c[p]; m[p] = k[p]; break; default: if(rnd(4) == 0) { b.set(); m.set(); } else { const std::size_t v = rnd(70000); b = ptl::bitset<N>{v}; m = std::bitset<N>{v}; } } for(unsigned j = 0; j < N; ++j) if(b[j] != m[j] || b.test(j) != m[j]) return false; if(b.count() != m.count() || b.any() != m.any() || b.all() != m.all() || b.none() != m.none() || (b == c) != (m == k) || (b != c) != (m != k)) return false; try { (void)b.at(N + p); return false; } catch(const std::out_of_range &) {} try { b.set(N); return false; } catch(const std::out_of_range &) {} } return true;',
'string': 'ptl::string s, t; std::string m, k; const std::string text{"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGH"}; for(int i = 0; i < 400; ++i) { const auto p = rnd(static_cast<unsigned>(m.size()) + 1); const auto q = p + rnd(static_cast<unsigned>(m.size()) + 1 - p); const auto piece = text.substr(rnd(20), rnd(L)); switch(rnd(14)) { case 0: s.push_back(piece.empty() ? 0 : piece[0]); m.push_back(piece.empty() ? 0 : piece[0]); break; case 1: s.append(piece.c_str()); m.append(piece); break; case 2: s.insert(s.begin() + p, piece.c_str()); m.insert(p, piece); break; case 3: s.erase(s.begin() + p, s.begin() + q); m.erase(p, q - p); break; case 4: s.resize(p); m.resize(p); break; case 5: s.resize(m.size() + L, 0x71); m.resize(m.size() + L, 0x71); break; case 6: s.assign(piece.c_str()); m = piece; break; case 7: s.replace(s.begin() + p, s.begin() + q, piece.c_str()); m.replace(p, q - p, piece); break; case 8: t = s; k = m; break; case 9: s = static_cast<ptl::string &&>(t); m = k; t = s; break; case 10: swap(s, t); std::swap(m, k); break; case 11: if(rnd(2)) s.shrink_to_fit(); else s.reserve(p + L); break; case 12: if(!m.empty()) { s.pop_back(); m.pop_back(); } break; default: s += t; m += k; break; } if(m.size() > 600) { s.clear(); m.clear(); } if(s.size() != m.size() || s.c_str()[m.size()] != 0 || std::string(s.begin(), s.end()) != m || s.capacity() < s.size() || s.empty() != m.empty()) return false; for(unsigned j = 0; j < m.size(); ++j) if(s[j] != m[j] || s.at(j) != m[j]) return false; if((s == t) != (m == k) || (s < t) != (m < k) || (s >= t) != (m >= k)) return false; try { (void)s.at(m.size() + p); return false; } catch(const std::out_of_range &) {} } return true;',
'vector': 'ptl::vector<int> s, t; std::vector<int> m, k; for(int i = 0; i < 400; ++i) { const auto p = rnd(static_cast<unsigned>(m.size()) + 1); const auto q = p + rnd(static_cast<unsigned>(m.size()) + 1 - p); const int v = static_cast<int>(rnd(1000)); const int x[]{v, v + 1, v + 2}; switch(rnd(14)) { case 0: s.push_back(v); m.push_back(v); break; case 1: s.emplace_back(v); m.push_back(v); break; case 2: s.insert(s.begin() + p, v); m.insert(m.begin() + p, v); break; case 3: s.erase(s.begin() + p, s.begin() + q); m.erase(m.begin() + p, m.begin() + q); break; case 4: s.resize(p); m.resize(p); break; case 5: s.resize(m.size() + L, v); m.resize(m.size() + L, v); break; case 6: s.assign(L, v); m.assign(L, v); break; case 7: s.insert(s.begin() + p, x, x + 3); m.insert(m.begin() + p, x, x + 3); break; case 8: t = s; k = m; break; case 9: s = static_cast<ptl::vector<int> &&>(t); m = k; t = s; break; case 10: swap(s, t); std::swap(m, k); break; case 11: if(rnd(2)) s.shrink_to_fit(); else s.reserve(p + L); break; case 12: if(!m.empty()) { s.pop_back(); m.pop_back(); } break; default: s.resize(m.size() + 2); m.resize(m.size() + 2); break; } if(m.size() > 600) { s.clear(); m.clear(); } if(s.size() != m.size() || s.capacity() < s.size() || s.empty() != m.empty() || static_cast<std::size_t>(s.end() - s.begin()) != m.size()) return false; for(unsigned j = 0; j < m.size(); ++j) if(s[j] != m[j] || s.at(j) != m[j] || s.begin()[j] != m[j]) return false; if((s == t) != (m == k) || (s < t) != (m < k) || (s >= t) != (m >= k)) return false; try { (void)s.at(m.size() + p); return false; } catch(const std::out_of_range &) {} } return true;',
'optional': 'ptl::optional<int> s, t; std::optional<int> m, k; for(int i = 0; i < 400; ++i) { const int v = static_cast<int>(rnd(4)); switch(rnd(8)) { case 0: s = v; m = v; break; case 1: s.emplace(v); m.emplace(v); break; case 2: s.reset(); m.reset(); break; case 3: t = s; k = m; break; case 4: swap(s, t); std::swap(m, k); break; case 5: s = static_cast<ptl::optional<int> &&>(t); m = k; t = s; break; case 6: s = std::nullopt; m = std::nullopt; break; default: if(s) { ++*s; ++*m; } break; } if(s.has_value() != m.has_value() || s.value_or(9) != m.value_or(9) || (s == t) != (m == k) || (s < t) != (m < k) || (s <= t) != (m <= k) || (s > v) != (m > v) || (s != std::nullopt) != (m != std::nullopt)) return false; try { if(s.value() != *m) return false; } catch(const std::bad_optional_access &) { if(m) return false; } } return sizeof s == sizeof(int) + 1;',
'variant': 'ptl::variant<int, double, char> s, t; std::variant<int, double, char> m, k; for(int i = 0; i < 400; ++i) { const int v = static_cast<int>(rnd(4)); switch(rnd(8)) { case 0: s = v; m = v; break; case 1: s = 0.5 * v; m = 0.5 * v; break; case 2: s.emplace<char>(static_cast<char>(v)); m.emplace<char>(static_cast<char>(v)); break; case 3: t = s; k = m; break; case 4: swap(s, t); std::swap(m, k); break; case 5: s = static_cast<ptl::variant<int, double, char> &&>(t); m = k; t = s; break; case 6: s.emplace<1>(1.0); m.emplace<1>(1.0); break; default: s.visit([](auto & x) { x = 2; }); std::visit([](auto & x) { x = 2; }, m); break; } if(s.holds<int>() != std::holds_alternative<int>(m) || s.holds<double>() != std::holds_alternative<double>(m) || s.visit([](auto x) { return static_cast<double>(x); }) != std::visit([](auto x) { return static_cast<double>(x); }, m)) return false; if((s == t) != (m == k) || (s < t) != (m < k) || (s >= t) != (m >= k)) return false; try { if(s.get<char>() != *std::get_if<char>(&m)) return false; } catch(const std::bad_variant_access &) { if(std::get_if<char>(&m)) return false; } } return sizeof s == sizeof(double) + 1;',
'array': 'for(int i = 0; i < 300; ++i) { ptl::array<int, 5> a{}, b{}; std::array<int, 5> m{}, k{}; for(unsigned j = 0; j < 5; ++j) { a[j] = m[j] = static_cast<int>(rnd(2)); b[j] = k[j] = static_cast<int>(rnd(2)); } if((a == b) != (m == k) || (a < b) != (m < k) || (a <= b) != (m <= k)) return false; swap(a, b); std::swap(m, k); if(rnd(3) == 0) { a.fill(3); m.fill(3); } for(unsigned j = 0; j < 5; ++j) if(a.at(j) != m[j] || b[j] != k[j] || a.end()[static_cast<int>(j) - 5] != m[j]) return false; try { (void)a.at(5 + rnd(3)); return false; } catch(const std::out_of_range &) {} } return sizeof(ptl::array<int, 5>) == 5 * sizeof(int);',
'array_ref': 'std::vector<int> v; for(int i = 0; i < 100; ++i) v.push_back(i); for(int i = 0; i < 300; ++i) { const auto p = rnd(100), n = rnd(101 - p); const ptl::array_ref<int> r{v.data() + p, n}; if(r.size() != n || r.empty() != (n == 0) || (n && (r.data() != v.data() + p || r.front() != static_cast<int>(p) || r.back() != static_cast<int>(p + n - 1)))) return false; for(unsigned j = 0; j < n; ++j) if(&r[j] != &v[p + j] || &r.at(j) != &v[p + j]) return false; try { (void)r.at(n); return false; } catch(const std::out_of_range &) {} if(static_cast<std::size_t>(r.end() - r.begin()) != n) return false; } return true;',
'string_ref': 'for(int i = 0; i < 400; ++i) { std::string a(rnd(L), 0x61), b(a); a.resize(a.size() + rnd(3), 0x62); b.resize(b.size() + rnd(3), static_cast<char>(0x61 + 100 * rnd(2))); ptl::string_ref r{a}, q{b}; std::string_view m{a}, k{b}; if((r == q) != (m == k) || (r < q) != (m < k) || (r >= q) != (m >= k) || r.size() != m.size() || r.empty() != m.empty()) return false; const auto n = rnd(static_cast<unsigned>(m.size()) + 1); r.remove_prefix(n); m.remove_prefix(n); for(unsigned j = 0; j < m.size(); ++j) if(&r[j] != &m[j] || &r.at(j) != &m[j]) return false; try { (void)r.at(m.size()); return false; } catch(const std::out_of_range &) {} } return true;',
}
MODELS = ['array', 'bitset', 'cstddef', 'optional', 'stdexcept', 'string', 'string_view', 'utility', 'variant', 'vector']
MODES = [['-O%s' % o] + d for o in '0123s' for d in ([], ['-DNDEBUG'])] + [['-Og', '-DDEBUG', '-D_DEBUG'], ['-O2', '-funsigned-char'], ['-O2', '-D_FORTIFY_SOURCE=2', '-DNDEBUG'], ['-O1', '-D_GLIBCXX_DEBUG'], ['-fno-rtti', '-DNDEBUG'], ['-O3', '-march=native', '-DNDEBUG'], ['-pedantic-errors', '-fno-strict-aliasing']]
def modes(r, n):
    """programs of the second kind: every combination of compiler and mode once in n of them, each with the histories of some headers"""
    pairs = [(c, m) for c in COMPILERS for m in MODES]
    r.shuffle(pairs)
    out = []
    for k in range(n):
        c, m = pairs[k % len(pairs)]
        headers = r.sample(sorted(HISTORIES), len(HISTORIES))
        std = r.sample(MODELS, len(MODELS))
        order = ['ptl/%s.hpp' % h for h in headers] + std
        r.shuffle(order)
        src = ''.join('#include <%s>\n' % h for h in order)
        for i, h in enumerate(headers): src += 'static bool use%d() { %s enum : unsigned { N = %d, L = %d }; (void)N, (void)L; %s }\n' % (i, RND % r.getrandbits(32), r.choice([1, 8, 31, 64, 65, 100, 128, 200, 300]), r.choice([3, 12, 20, 24]), HISTORIES[h])
        src += 'int unit0() {\n' + ''.join('\tif(!use%d()) return %d;\n' % (i, i + 1) for i in range(len(headers))) + '\treturn 0;\n}\n'
        out.append(Program([(src, c, m)], '%s -std=c++%s %s: histories of %s' % (c[0], c[1], ' '.join(m), ', '.join(headers))))
    return out

def main_unit(n): return ''.join('int unit%d();\n' % k for k in range(n)) + '#include <cstdio>\nint main() { int r = 0;\n' + ''.join('if(int x = unit%d()) { std::printf("unit %d: use %%d is wrong\\n", x); r = 1; }\n' % (k, k) for k in range(n)) + 'return r; }\n'
def attempt(units, d, tag):
    """compiles every unit with its own compiler, links and runs; what went wrong or ''"""
    objs = []
    try:
        for k, (src, c, fl) in enumerate(list(units) + [(main_unit(len(units)), ('g++', '17'), [])]):
            f = os.path.join(d, '%s_%d.cpp' % (tag, k)); o = f[:-3] + 'o'
            with open(f, 'w') as h: h.write(src)
            r = run.sh([c[0], '-std=c++' + c[1] if c != ('clang++', '26') else '-std=c++2c', '-w', '-I' + run.INC, '-c', f, '-o', o] + list(fl), timeout=300)
            if r.returncode: return 'unit %d does not compile: %s' % (k, r.stdout[:4000])
            objs.append(o)
        exe = os.path.join(d, tag)
        r = run.sh(['g++'] + objs + ['-o', exe], timeout=300)
        if r.returncode: return 'does not link: ' + r.stdout[:4000]
        r = run.sh([exe], timeout=60)
        os.remove(exe)
        return '' if r.returncode == 0 else 'wrong: %s (exit %d)' % (r.stdout[:2000], r.returncode)
    finally:
        for o in objs: os.remove(o)

def shrink(units, d):
    """fewer units, then fewer lines"""
    k = [0]
    def bad(u):
        k[0] += 1
        return k[0] < 150 and u and attempt(u, d, 's%d' % k[0])
    def renumber(u): return [(s.replace('int unit%s()' % n, 'int unit%d()' % i) if n is not None else s, c, f) for i, (s, c, f) in enumerate(u) for n in [next((x for x in '0123' if 'int unit%s()' % x in s), None)]]
    for u in [renumber([x]) for x in units]:
        if len(units) > 1 and bad(u): units = u; break
    changed = True
    while changed:
        changed = False
        for i, (s, c, f) in enumerate(units):
            lines = s.split('\n')
            for j in range(len(lines) - 1, -1, -1):
                l = lines[j]
                if l.startswith(('#include', 'template class')): cand = lines[:j] + lines[j + 1:]
                elif l.startswith('static bool use'):
                    name = l.split('(')[0].split()[-1]
                    cand = [x for x in lines if name + '(' not in x]
                else: continue
                u = list(units); u[i] = ('\n'.join(cand), c, f)
                # an include which is needed by the remaining uses is no candidate: what is left must work with all headers included first
                if l.startswith('#include <ptl') and any('ptl::' in x for x in cand): continue
                if bad(u): units = u; lines = cand; changed = True
    return units

def check(pid, tier, ev):
    n = 150 if tier == 'quick' else 1500
    r = random.Random('%d/C33' % run.SEED)
    programs = [draw(r, h) for h in ALL]
    # every header first and alone with every compiler, all its uses
    for h in ALL:
        for c in (COMPILERS if tier == 'thorough' else COMPILERS[:2]):
            src, order = unit(random.Random(1), 'unit0', [h], [], False, True)
            programs.append(Program([(src, c, [])], '%s -std=c++%s: %s alone' % (c + (h,))))
    while len(programs) < n: programs.append(draw(r))
    programs += modes(r, len(COMPILERS) * len(MODES) * (1 if tier == 'quick' else 6))
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        with ThreadPoolExecutor(8) as ex: results = list(ex.map(lambda k: attempt(programs[k].units, d, 'p%d' % k), range(len(programs))))
        cov = ev['coverage']
        cov['evaluations'] = sum(len(p.units) for p in programs)
        cov['programs'] = len(programs)
        cov['distinct_nontrivial'] = len({p.text for p in programs})
        cov['samples'] += [p.describe() for p in random.Random(3).sample(programs, 12)]
        ev['rules'].append('programs of one to three translation units, each including a random set of headers in a random order (before, between and after standard headers), built by a random compiler, standard and option set; every program is non-trivial, counted by its distinct include sequence and options; further programs run histories of operations against the standard types in every build mode')
        for p, e in zip(programs, results):
            if not e: continue
            for b in {(c[0], '17' if c[1] == '26' else c[1], '-O0') for _, c, _ in p.units}: special.control(b, d)
            units = shrink(p.units, d)
            again = attempt(units, d, 'again')
            if not again: units, again = p.units, attempt(p.units, d, 'again')
            if not again: ev.setdefault('unconfirmed', []).append({'program': p.text, 'result': e[:500]}); continue
            raise run.Violation('%s: %s' % (p.text, again.split('\n')[0][:300]), {'kind': 'include', 'property': pid, 'units': units, 'output': again, 'trace': '\n----\n'.join('%s %s\n%s' % (' '.join(c), ' '.join(f), s) for s, c, f in units)})
    finally: shutil.rmtree(d, ignore_errors=True)

def replay(r, d):
    e = attempt([(s, tuple(c), f) for s, c, f in r['units']], d, 'replay')
    print(e or 'works')
    return 1 if e else 0
