"""C37: random histories in constexpr functions; the folded observations are computed by Python, by the compiler and at run time."""
import random
import special

PRELUDE = '''
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <utility>
template<int> void get() = delete; // lets C++17 find get<I>(x) by argument-dependent lookup
struct Fold { unsigned long long h = 1469598103934665603ull; template<typename T> constexpr void operator()(T v) { h = (h ^ static_cast<unsigned long long>(static_cast<long long>(v))) * 1099511628211ull; } };
// the same function once more, where the compiler cannot evaluate it
inline bool both(unsigned long long constant, unsigned long long (* function)(), unsigned long long expected) {
	unsigned long long (* volatile f)() = function;
	return constant == expected && f() == expected;
}
'''
M64 = (1 << 64) - 1
class Fold:
    def __init__(self): self.h = 1469598103934665603
    def __call__(self, v): self.h = ((self.h ^ (int(v) & M64)) * 1099511628211) & M64

class Body:
    def __init__(self): self.src, self.fold = [], Fold()
    def stmt(self, s): self.src.append(s)
    def see(self, e, v):
        self.src.append('f(%s);' % e); self.fold(v)
    def query(self, what, decl=''):
        src = 'Fold f; %s return f.h;' % ' '.join(self.src)
        text = '%s: %s' % (what, ' '.join(self.src))
        return special.Query('[] { constexpr auto c = history(); return both(c, history, %dull); }()' % self.fold.h, text[:700], '%s constexpr unsigned long long history() { %s }' % (decl, src))

def simple_bits(r): return bits(r, True)
def bits(r, simple=False): # simple: without the operations built on <algorithm>, which C++17 cannot evaluate
    n = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 100] + [127, 128, 129, 200, 257, 300] * 2)
    full = (1 << n) - 1
    b, vals = Body(), []
    for name in 'ab':
        v = r.getrandbits(64) if r.random() < .5 else r.getrandbits(5)
        if r.random() < .25: b.stmt('ptl::bitset<%d> %s;' % (n, name)); vals.append(0)
        else: b.stmt('ptl::bitset<%d> %s{%dull};' % (n, name, v)); vals.append(v & full)
        if n > 100:
            for p in [r.randrange(n) for _ in range(3)]: b.stmt('%s.set(%d);' % (name, p)); vals[-1] |= 1 << p
    shift = lambda: r.randrange(n + 3) if n <= 100 else r.choice([0, 1, 7, 8, 9, 17, n - 1 if r.random() < .1 else 3, n])
    for _ in range(r.randint(1, 12)):
        i = r.randrange(2); j = 1 - i; x, y = 'ab'[i], 'ab'[j]
        k, p = r.choice([0, 1, 2, 3, 12, 13, 14]) if simple else r.randrange(16), r.randrange(n)
        if k == 0: b.stmt('%s.set(%d);' % (x, p)); vals[i] |= 1 << p
        elif k == 1: b.stmt('%s.reset(%d);' % (x, p)); vals[i] &= ~(1 << p)
        elif k == 2: b.stmt('%s.flip(%d);' % (x, p)); vals[i] ^= 1 << p
        elif k == 3: b.stmt('%s.set(%d, false);' % (x, p)); vals[i] &= ~(1 << p)
        elif k == 4: b.stmt('%s.set();' % x); vals[i] = full
        elif k == 5: b.stmt('%s.flip();' % x); vals[i] ^= full
        elif k == 6: b.stmt('%s &= %s;' % (x, y)); vals[i] &= vals[j]
        elif k == 7: b.stmt('%s |= %s;' % (x, y)); vals[i] |= vals[j]
        elif k == 8: b.stmt('%s ^= %s;' % (x, y)); vals[i] ^= vals[j]
        elif k == 9: s = shift(); b.stmt('%s <<= %d;' % (x, s)); vals[i] = vals[i] << s & full
        elif k == 10: s = shift(); b.stmt('%s >>= %d;' % (x, s)); vals[i] >>= s
        elif k == 11: b.stmt('%s = ~%s;' % (x, y)); vals[i] = ~vals[j] & full
        elif k == 12:
            q = r.randrange(n); b.stmt('%s[%d] = %s[%d];' % (x, p, y, q)); vals[i] = vals[i] & ~(1 << p) | (vals[j] >> q & 1) << p
        elif k == 13: b.stmt('%s.at(%d).flip();' % (x, p)); vals[i] ^= 1 << p
        elif k == 14: b.stmt('%s[%d] = ~%s[%d];' % (x, p, x, p)); vals[i] ^= 1 << p
        else:
            op = r.choice('&|^'); s = shift()
            b.stmt('%s = (%s %s %s) << %d;' % (x, x, op, y, s))
            t = {'&': vals[i] & vals[j], '|': vals[i] | vals[j], '^': vals[i] ^ vals[j]}[op]
            vals[i] = t << s & full
        c = 'std::as_const(%s)' % x
        w = r.choice([4, 5, 7]) if simple else r.randrange(8); v = vals[i]; p = r.randrange(n)
        b.see(*[('%s.count()' % c, bin(v).count('1')), ('%s.any()' % c, v != 0), ('%s.all()' % c, v == full), ('%s.none()' % c, v == 0), ('%s.test(%d)' % (c, p), v >> p & 1), ('%s[%d]' % (c, p), v >> p & 1), ('a == b', vals[0] == vals[1]), ('%s.size()' % c, n)][w])
    for i in range(2):
        for p in range(n): b.see('%s[%d]' % ('ab'[i], p) if r.random() < .5 else 'std::as_const(%s).test(%d)' % ('ab'[i], p), vals[i] >> p & 1)
    if not simple: b.see('(a >> %d).count()' % min(n // 2, 50), bin(vals[0] >> min(n // 2, 50)).count('1'))
    return b.query('bitset<%d>' % n)

TYPES = {'int': (-1000, 1000), 'char': (0, 100), 'unsigned char': (0, 255), 'long long': (-10**12, 10**12), 'short': (-300, 300)}
def window(r, b, var, ref, vals, decay, const_ref):
    """observations of a container-like thing holding vals"""
    n = len(vals)
    for _ in range(r.randint(1, 8)):
        k = r.randrange(14)
        if k == 0: b.see('%s.size()' % var, n)
        elif k == 1: b.see('%s.empty()' % var, n == 0)
        elif not n: continue
        elif k == 2: i = r.randrange(n); b.see('%s[%d]' % (var, i), vals[i])
        elif k == 3: i = r.randrange(n); b.see('%s.at(%d)' % (var, i), vals[i])
        elif k == 4: b.see('%s.front()' % var, vals[0])
        elif k == 5: b.see('%s.back()' % var, vals[-1])
        elif k == 6: i = r.randrange(n); b.see('%s.data()[%d]' % (var, i), vals[i])
        elif k == 7: i = r.randrange(n); b.see(r.choice(['*(%s.begin() + %d)', '%s.begin()[%d]', '*(%s.cbegin() + %d)', '*[&] { auto i = %s.begin(); i += %d; return i; }()']) % (var, i), vals[i])
        elif k == 8: i = r.randrange(n); b.see(r.choice(['*(%s.end() - %d)', '%s.cend()[-%d]']) % (var, n - i), vals[i])
        elif k == 9: i = r.randrange(n); b.see(r.choice(['%s.rbegin()[%d]', '*(%s.crbegin() + %d)']) % (var, i), vals[n - 1 - i])
        elif k == 10: b.see('%s.end() - %s.begin()' % (var, var), n)
        elif k == 11: i, j = r.randint(0, n), r.randint(0, n); op = r.choice(['<', '<=', '>', '>=', '==', '!=']); b.see('(%s.begin() + %d) %s (%s.begin() + %d)' % (var, i, op, var, j), eval('%d %s %d' % (i, op, j)))
        elif k == 12: b.stmt('for(auto i = %s.begin(); i != %s.end(); ++i) f(*i);' % (var, var)); [b.fold(v) for v in vals]
        else: b.stmt('for(auto i = %s.end(); i != %s.begin();) f(*--i);' % (var, var)); [b.fold(v) for v in reversed(vals)]

def arrays(r):
    t = r.choice(list(TYPES)); lo, hi = TYPES[t]
    n = r.choice([1, 2, 3, 5, 8, 13, 13, 40, 130])
    given = r.randint(0, n)
    vals = [r.randint(lo, hi) for _ in range(given)]
    b = Body()
    lit = lambda v: 'static_cast<%s>(%d)' % (t, v)
    b.stmt('ptl::array<%s, %d> a%s;' % (t, n, '{' + ', '.join(map(lit, vals)) + '}'))
    vals += [0] * (n - given)
    for _ in range(r.randint(1, 6)):
        k, i, v = r.randrange(6), r.randrange(n), r.randint(lo, hi)
        if k == 0: b.stmt('a[%d] = %s;' % (i, lit(v))); vals[i] = v
        elif k == 1: b.stmt('a.at(%d) = %s;' % (i, lit(v))); vals[i] = v
        elif k == 2: b.stmt('a.begin()[%d] = %s;' % (i, lit(v))); vals[i] = v
        elif k == 3: b.stmt('{ auto c = a; c[%d] = %s; f(c[%d]); }' % (i, lit(v), i)); b.fold(v)
        elif k == 4: j = r.randrange(n); b.stmt('a[%d] = a[%d];' % (i, j)); vals[i] = vals[j]
        else: b.stmt('a.back() = %s;' % lit(v)); vals[-1] = v
        window(r, b, r.choice(['a', 'std::as_const(a)']), False, vals, None, False)
    i = r.randrange(n)
    b.see('get<%d>(std::as_const(a))' % i, vals[i])
    b.see('(a.size() + 100 * a.max_size())', n * 101)
    # a reference to it, and windows of windows
    b.stmt('ptl::array_ref<%s> r{a};' % r.choice(['const ' + t, t]))
    cur = vals[:]
    for _ in range(r.randint(1, 4)):
        k = r.randrange(4); m = len(cur)
        i = r.randint(0, m); j = r.randint(0, m - i)
        if k == 0: b.stmt('r = r.first(%d);' % i); cur = cur[:i]
        elif k == 1: b.stmt('r = r.last(%d);' % i); cur = cur[m - i:]
        elif k == 2: b.stmt('r = r.subrange(%d);' % i); cur = cur[i:]
        else: b.stmt('r = r.subrange(%d, %d);' % (i, j)); cur = cur[i:i + j]
        window(r, b, 'r', True, cur, None, True)
        if len(cur) < 2: break
    return b.query('array<%s, %d>' % (t, n))

def static_arrays(r): # references to static storage are constants themselves
    t = r.choice(list(TYPES)); lo, hi = TYPES[t]
    n = r.choice([1, 2, 3, 5, 9, 9, 40, 130])
    vals = [r.randint(lo, hi) for _ in range(n)]
    init = '{' + ', '.join('static_cast<%s>(%d)' % (t, v) for v in vals) + '}'
    kind = r.choice(['constexpr %s data[]%s;' % (t, init), 'constexpr ptl::array<%s, %d> data%s;' % (t, n, init)])
    b = Body()
    i = r.randint(0, n); j = r.randint(0, n - i)
    how = r.choice(['whole{data}', 'whole{data}', 'whole{&data[0], %d}' % n, 'whole{&data[0], &data[0] + %d}' % n])
    decl = '%s constexpr ptl::array_ref<const %s> %s; constexpr auto window = whole.subrange(%d, %d); constexpr auto begin = window.begin();' % (kind, t, how, i, j)
    window(r, b, 'whole', True, vals, None, True)
    window(r, b, 'window', True, vals[i:i + j], None, True)
    if j: b.see('*begin', vals[i])
    b.see('window.end() - begin', j)
    return b.query('constants of type array_ref', decl)

def texts(r):
    chars = 'abcxyz AB09'
    if r.random() < .4: chars = 'az\x80\xff\x7f\xe4\xc3' if r.random() < .7 else 'a\xff\0b'
    signed = lambda c: (ord(c) + 128) % 256 - 128
    def text(): return ''.join(r.choice(chars[:r.choice([1, 2, len(chars)])]) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 30, 90, 300])))
    s, t = text(), text()
    if r.random() < .4: t = s[:r.randint(0, len(s))] + (text() if r.random() < .5 else '')
    b = Body()
    quote = lambda x: '"%s"' % ''.join(c if ' ' <= c < '\x7f' else '\\%03o' % ord(c) for c in x)
    def make(name, x):
        k = 1 if '\0' in x else r.randrange(4)
        b.stmt({0: 'ptl::string_ref %s{%s};' % (name, quote(x)), 1: 'ptl::string_ref %s{%s, %d};' % (name, quote(x + 'tail'), len(x)), 2: 'ptl::string_ref %s{std::string_view{%s}};' % (name, quote(x)), 3: 'ptl::string_ref %s = %s;' % (name, quote(x))}[k])
    make('a', s); make('b', t)
    cur = [s, t]
    for _ in range(r.randint(1, 6)):
        i = r.randrange(2); x = 'ab'[i]; m = len(cur[i]); p = r.randint(0, m); q = r.randint(0, m - p)
        k = r.randrange(5)
        if k == 0: b.stmt('%s.remove_prefix(%d);' % (x, p)); cur[i] = cur[i][p:]
        elif k == 1: b.stmt('%s.remove_suffix(%d);' % (x, p)); cur[i] = cur[i][:m - p]
        elif k == 2: b.stmt('%s = %s.substr(%d);' % (x, x, p)); cur[i] = cur[i][p:]
        elif k == 3: b.stmt('%s = %s.substr(%d, %d);' % (x, x, p, q)); cur[i] = cur[i][p:p + q]
        window(r, b, x, True, [signed(c) for c in cur[i]], None, True)
        for op in r.sample(['<', '<=', '>', '>=', '==', '!='], 3): b.see('a %s b' % op, eval('cur[0] %s cur[1]' % op))
        b.see('std::string_view{%s}.size()' % x, len(cur[i]))
        if r.random() < .3 and '\0' not in cur[i]: b.see('%s == %s' % (x, quote(cur[i])), True)
    return b.query('string_ref')

def simple_references(r): return references(r, True)
def references(r, simple=False): # simple: without variant_ref, which only g++ evaluates, and in C++20 only
    b = Body()
    names, vals = ['x', 'y', 'z'], [r.randint(-99, 99) for _ in range(3)]
    for n, v in zip(names, vals): b.stmt('int %s = %d;' % (n, v))
    lv = r.randint(0, 10**6); b.stmt('long l = %d;' % lv); b.stmt("const char c = 'c';")
    bound, ob = ('int', r.randrange(3)), r.choice([None, 0, 1, 2])
    if not simple: b.stmt('ptl::variant_ref<int, long, const char> v{%s};' % names[bound[1]])
    b.stmt('ptl::optional_ref<int> o%s;' % ('{%s}' % names[ob] if ob is not None else r.choice(['', '{std::nullopt}'])))
    b.stmt('ptl::optional_ref<const int> k;'); kb = None
    for _ in range(r.randint(2, 10)):
        k = r.randrange(5 if simple else 0, 9); i = r.randrange(3); w = r.randint(-99, 99)
        if k == 0: b.stmt('v = %s;' % names[i]); bound = ('int', i)
        elif k == 1: b.stmt('v = l;'); bound = ('long', 0)
        elif k == 2: b.stmt('v = c;'); bound = ('char', 0)
        elif k == 3 and bound[0] == 'int': b.stmt('v.get<int>() = %d;' % w); vals[bound[1]] = w
        elif k == 4 and bound[0] == 'long': b.stmt('*v.get_if<long>() = %d;' % w); lv = w
        elif k == 5: b.stmt('o = %s;' % names[i]); ob = i
        elif k == 6: b.stmt('o = std::nullopt;'); ob = None
        elif k == 7 and ob is not None: b.stmt(r.choice(['*o = %d;', 'o.value() = %d;', '*o.operator->() = %d;']) % w); vals[ob] = w
        elif k == 8: b.stmt('k = o;'); kb = ob
        cur = {'int': vals[bound[1]], 'long': lv, 'char': ord('c')}[bound[0]]
        idx = {'int': 0, 'long': 1, 'char': 2}[bound[0]]
        w = r.randint(-99, 99)
        sees = [('v.visit([](auto & e) -> long long { return e; })', cur), ('v.holds<int>()', idx == 0), ('v.holds<long>()', idx == 1), ('v.holds<const char>()', idx == 2), ('v.get_if<int>() != nullptr', idx == 0), ('v.get_if<long>() == nullptr', idx != 1),
                ('v.visit([](int &) { return 0; }, [](long &) { return 1; }, [](const char &) { return 2; })', idx), ('ptl::variant_ref<int, long, const char>{v}.holds<long>()', idx == 1),
                ('o.has_value()', ob is not None), ('static_cast<bool>(o)', ob is not None), ('o.value_or(%d)' % w, w if ob is None else vals[ob]), ('k.has_value()', kb is not None), ('k.value_or(%d)' % w, w if kb is None else vals[kb])]
        if simple: sees = sees[8:] # without those of v
        if ob is not None: sees += [('*o', vals[ob]), ('o.value()', vals[ob]), ('&*o == &%s' % names[ob], True)]
        for s in r.sample(sees, 4): b.see(*s)
        for n, v in zip(names, vals): b.see(n, v)
    return b.query('variant_ref and optional_ref')

def simple_constants(r): return constants(r, True)
def constants(r, simple=False): # constants which refer to static objects, used at run time as well
    v = r.randint(-1000, 1000); w = r.randint(-1000, 1000)
    decl = 'constexpr int number = %d; constexpr long wide = %d; constexpr const int * pointer = &number; constexpr ptl::optional_ref<const int> o{number}, e, p{pointer};' % (v, w)
    if not simple: decl += 'constexpr ptl::variant_ref<const int, const long> a{number}, b{wide};'
    decl += ' struct Functor { constexpr int operator()(int x) const { return x * 2 + %d; } }; constexpr Functor functor{}; constexpr ptl::function_ref<int(int) const> fr{functor};' % v
    b = Body()
    b.see('*o', v); b.see('e.has_value()', False); b.see('e.value_or(%d)' % w, w); b.see('p.value()', v); b.see('&*p == &number', True)
    if not simple: b.see('a.get<const int>()', v); b.see('b.holds<const long>()', True); b.see('b.visit([](const auto & x) -> long { return x; })', w)
    q = b.query('constants referring to constants', decl)
    q.expr = '(%s) && fr(%d) == %d' % (q.expr, w, 2 * w + v)
    return q

BOTH = [arrays, arrays, static_arrays, texts, texts]
# what can be evaluated: everywhere; with the constexpr algorithms of C++20; by g++ in C++20 (variant_ref)
FAMILIES = [(BOTH + [simple_bits, simple_references, simple_constants], special.BUILDS),
    (BOTH[1:] + [simple_references, simple_constants] + [bits] * 3, [b for b in special.BUILDS if b[1] != '17']),
    ([references, references, constants], [b for b in special.BUILDS if b[1] != '17' and b[0] == 'g++'])]
def check(pid, tier, ev):
    n, size = (30, 40) if tier == 'quick' else (240, 50)
    batches = []
    for k in range(n):
        r = random.Random('%d/%d/C37' % (special.run.SEED, k))
        batches.append([r.choice(FAMILIES[k % 3][0])(r) for _ in range(size)])
    def builds(k):
        usable = FAMILIES[k % 3][1]
        some = [usable[k // 3 % len(usable)], usable[(k // 3 + 1) % len(usable)][:2] + ('-O2',)]
        return some if tier == 'quick' else usable + some[1:]
    special.run_queries(pid, ev, PRELUDE, batches, builds, 'generated constexpr functions performing a random history, evaluated by the compiler and at run time and compared with values computed in Python; every one is non-trivial, counted once')
