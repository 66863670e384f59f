"""C38: which operations are declared not to throw, asked for generated instantiations and answered by a table."""
import random
import special

PRELUDE = '''
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <sstream>
#include <type_traits>
#include <utility>
template<int> void get() = delete; // lets C++17 find get<I>(x) by argument-dependent lookup
// copying and creating may fail; moving, exchanging and comparing may not
template<int I> struct May {
	int v;
	May() noexcept(false) : v{0} { }
	explicit May(int v) noexcept(false) : v{v} { }
	May(const May & o) noexcept(false) : v{o.v} { }
	May(May && o) noexcept : v{o.v} { }
	May & operator=(const May & o) noexcept(false) { v = o.v; return *this; }
	May & operator=(May && o) noexcept { v = o.v; return *this; }
	~May() noexcept { }
	friend void swap(May & a, May & b) noexcept { std::swap(a.v, b.v); }
	friend bool operator==(const May & a, const May & b) noexcept { return a.v == b.v; }
	friend bool operator!=(const May & a, const May & b) noexcept { return a.v != b.v; }
	friend bool operator< (const May & a, const May & b) noexcept { return a.v <  b.v; }
	friend bool operator<=(const May & a, const May & b) noexcept { return a.v <= b.v; }
	friend bool operator> (const May & a, const May & b) noexcept { return a.v >  b.v; }
	friend bool operator>=(const May & a, const May & b) noexcept { return a.v >= b.v; }
};
struct alignas(64) Wide { long v[8]; };
inline bool operator==(const Wide & a, const Wide & b) noexcept { return a.v[0] == b.v[0]; }
inline bool operator!=(const Wide & a, const Wide & b) noexcept { return a.v[0] != b.v[0]; }
inline bool operator< (const Wide & a, const Wide & b) noexcept { return a.v[0] <  b.v[0]; }
inline bool operator<=(const Wide & a, const Wide & b) noexcept { return a.v[0] <= b.v[0]; }
inline bool operator> (const Wide & a, const Wide & b) noexcept { return a.v[0] >  b.v[0]; }
inline bool operator>=(const Wide & a, const Wide & b) noexcept { return a.v[0] >= b.v[0]; }
template<typename T> T & x() noexcept;        // a modifiable object
template<typename T> const T & c() noexcept;  // a constant
template<typename T> T && r() noexcept;       // a temporary
template<typename T> const T && cr() noexcept;
template<typename T> constexpr bool transfers = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_swappable_v<T> && std::is_nothrow_destructible_v<T>;
template<typename T> constexpr bool nests = std::is_standard_layout_v<T> && std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T> && transfers<T>;
'''
LEAVES = ['int', 'char', 'double', 'unsigned long', 'bool', 'int *', 'May<0>', 'May<1>', 'May<2>', 'ptl::string', 'ptl::bitset<12>', 'ptl::string_ref', 'ptl::array_ref<int>', 'ptl::optional_ref<const int>', 'ptl::function_ref<int(int)>']
ORDERED = LEAVES[:10]
RELATIONS = ['==', '!=', '<', '<=', '>', '>=']

def element(r, depth=0, pool=None):
    k = r.random()
    if depth > 1 or k < .55: return r.choice(pool or ORDERED)
    e = element(r, depth + 1) # what refers to something is not an element of every container
    if k < .7: return 'ptl::vector<%s>' % e
    if k < .82: return 'ptl::optional<%s>' % e
    if k < .92: return 'ptl::array<%s, %d>' % (e, r.choice([1, 2, 5]))
    return 'ptl::variant<%s>' % e

OBSERVERS = 'size() empty()'.split()
RANGE = ['begin()', 'end()', 'cbegin()', 'cend()', 'rbegin()', 'rend()', 'crbegin()', 'crend()']
def relations(r, t, left=None, right=None):
    return [q for op in RELATIONS for q in ('noexcept(%s %s %s)' % (left or 'c<%s>()' % t, op, right or 'c<%s>()' % t), 'std::is_same_v<decltype(%s %s %s), bool>' % (left or 'c<%s>()' % t, op, right or 'c<%s>()' % t))]
def both(t, ops, const=True): return ['noexcept(%s<%s>().%s)' % (k, t, o) for o in ops for k in (['x', 'c'] if const else ['x'])]
def never(t, ops): return ['!noexcept(x<%s>().%s)' % (t, o) for o in ops] # these report errors by throwing
def exchange(t): return ['noexcept(x<%s>().swap(x<%s>()))' % (t, t), 'noexcept(swap(x<%s>(), x<%s>()))' % (t, t), 'noexcept(%s(r<%s>()))' % ('::new(static_cast<void *>(nullptr)) ' + t, t), 'noexcept(x<%s>() = r<%s>())' % (t, t)]

def iterators(t, const):
    i = 'decltype(%s<%s>().begin())' % ('c' if const else 'x', t)
    return ['noexcept(*c<%s>())' % i, 'noexcept(++x<%s>())' % i, 'noexcept(x<%s>()++)' % i, 'noexcept(--x<%s>())' % i, 'noexcept(x<%s>()--)' % i, 'noexcept(c<%s>()[1])' % i, 'noexcept(x<%s>() += 1)' % i, 'noexcept(x<%s>() -= 1)' % i,
        'noexcept(c<%s>() + 1)' % i, 'noexcept(1 + c<%s>())' % i, 'noexcept(c<%s>() - 1)' % i, 'noexcept(c<%s>() - c<%s>())' % (i, i), 'noexcept(c<%s>().operator->())' % i] + ['noexcept(c<%s>() %s c<%s>())' % (i, o, i) for o in RELATIONS] + [
        'std::is_nothrow_default_constructible_v<%s>' % i, 'std::is_trivially_copyable_v<%s>' % i, 'std::is_nothrow_copy_constructible_v<%s> && std::is_nothrow_copy_assignable_v<%s>' % (i, i)]
def to_const(t): # iterator to constant iterator, implicitly, and never back
    i, k = 'decltype(x<%s>().begin())' % t, 'decltype(x<%s>().cbegin())' % t
    return ['(std::is_convertible_v<%s, %s> && std::is_nothrow_constructible_v<%s, %s>)' % (i, k, k, i), '!std::is_convertible_v<%s, %s>' % (k, i)]

def string(r):
    t = 'ptl::string'
    return t, both(t, OBSERVERS + RANGE + ['capacity()', 'max_size()', 'front()', 'back()', 'data()', '[0]'.replace('[0]', 'operator[](0)')]) + both(t, ['c_str()'], True) + both(t, ['clear()', 'shrink_to_fit()', 'pop_back()', 'erase(c<%s>().begin())' % t, 'erase(c<%s>().begin(), c<%s>().end())' % (t, t)], False) \
        + never(t, ['at(0)', 'reserve(1)', 'resize(1)', 'push_back(char{})', 'append(1, char{})', 'insert(x<%s>().begin(), 1, char{})' % t, 'assign(1, char{})', 'operator+=(char{})']) + exchange(t) + iterators(t, True) + iterators(t, False) + to_const(t) \
        + relations(r, t) + relations(r, t, right='std::string_view{}') + relations(r, t, left='std::string_view{}') + ['noexcept(std::string_view{c<%s>()})' % t, 'noexcept(std::hash<%s>{}(c<%s>()))' % (t, t), 'std::is_nothrow_default_constructible_v<%s>' % t, 'noexcept(r<%s>().substr(0, 1))' % t, 'noexcept(r<%s>().substr(0))' % t,
        'nests<%s>' % t, '!std::is_convertible_v<std::string_view, %s>' % t, 'std::is_constructible_v<%s, std::string_view>' % t, 'std::is_convertible_v<%s, std::string_view>' % t]
def vector(r):
    e = element(r); t = 'ptl::vector<%s>' % e
    return t, both(t, OBSERVERS + RANGE + ['capacity()', 'max_size()', 'front()', 'back()', 'data()', 'operator[](0)']) + both(t, ['clear()', 'shrink_to_fit()', 'pop_back()', 'erase(c<%s>().begin())' % t, 'erase(c<%s>().begin(), c<%s>().end())' % (t, t)], False) \
        + never(t, ['at(0)', 'reserve(1)', 'resize(1)', 'push_back(c<%s>())' % e, 'push_back(r<%s>())' % e, 'emplace_back(c<%s>())' % e, 'insert(x<%s>().begin(), c<%s>())' % (t, e), 'assign(1, c<%s>())' % e]) + exchange(t) + iterators(t, True) + iterators(t, False) + to_const(t) \
        + relations(r, t) + ['std::is_nothrow_default_constructible_v<%s>' % t, 'nests<%s>' % t]
def optional(r):
    e = element(r); t = 'ptl::optional<%s>' % e
    return t, both(t, ['has_value()', 'operator bool()', 'operator*()', 'operator->()']) + ['noexcept(*r<%s>())' % t, 'noexcept(*cr<%s>())' % t, 'noexcept(x<%s>().reset())' % t, 'noexcept(x<%s>() = std::nullopt)' % t, 'noexcept(x<%s>() = r<%s>())' % (t, e),
        'std::is_nothrow_constructible_v<%s, std::nullopt_t>' % t, 'std::is_nothrow_constructible_v<%s, %s &&>' % (t, e), 'std::is_nothrow_default_constructible_v<%s>' % t, 'nests<%s>' % t, '!std::is_convertible_v<%s, bool>' % t, 'std::is_convertible_v<%s, %s>' % (e, t), 'std::is_convertible_v<%s const &, %s>' % (e, t), 'std::is_convertible_v<std::nullopt_t, %s>' % t,
        '!std::is_convertible_v<std::in_place_t, %s>' % t] \
        + never(t, ['value()']) + ['!noexcept(c<%s>().value())' % t, '!noexcept(r<%s>().value())' % t, '!noexcept(cr<%s>().value())' % t] + exchange(t) + relations(r, t) + relations(r, t, right='std::nullopt') + relations(r, t, left='std::nullopt') \
        + relations(r, t, right='c<%s>()' % e) + relations(r, t, left='c<%s>()' % e)
def variant(r):
    es = []
    while len(es) < r.choice([1, 2, 3]):
        e = element(r)
        if e not in es and 'variant' not in e: es.append(e)
    # the largest alternative decides the size: it must be a multiple of every alignment, which multiples of 8 are
    if any(e in ('char', 'bool', 'int', 'May<0>', 'May<1>', 'May<2>') or '<' in e for e in es): es = [e for e in es if e in ('int', 'May<0>', 'May<1>', 'May<2>', 'char', 'bool')] or ['ptl::string', 'int']
    t = 'ptl::variant<%s>' % ', '.join(es); e = r.choice(es)
    return t, both(t, ['template holds<%s>()' % e, 'template get_if<%s>()' % e]) + ['nests<%s>' % t, 'std::is_convertible_v<%s const &, %s>' % (e, t), 'std::is_nothrow_constructible_v<%s, %s &&>' % (t, t)] \
        + never(t, ['template get<%s>()' % e]) + ['!noexcept(c<%s>().template get<%s>())' % (t, e), '!noexcept(r<%s>().template get<%s>())' % (t, e)] + exchange(t) + relations(r, t)
def array(r):
    e = element(r, 0, LEAVES[:-1] if r.random() < .3 else None); n = r.choice([1, 2, 3, 9]); t = 'ptl::array<%s, %d>' % (e, n); i = r.randrange(n)
    plain = any(l in e for l in LEAVES[10:])
    return t, both(t, OBSERVERS + RANGE + ['max_size()', 'front()', 'back()', 'data()', 'operator[](0)']) + ['noexcept(get<%d>(%s<%s>()))' % (i, k, t) for k in ('x', 'c', 'r', 'cr')] + ['transfers<%s>' % t, 'std::is_trivially_copyable_v<%s> == std::is_trivially_copyable_v<%s>' % (t, e), 'std::is_standard_layout_v<%s> == std::is_standard_layout_v<%s>' % (t, e)] \
        + never(t, ['at(0)']) + ['!noexcept(c<%s>().at(0))' % t] + exchange(t) + iterators(t, True) + iterators(t, False) + to_const(t) + ([] if plain else relations(r, t))
def bitset(r):
    n = r.choice([0, 1, 5, 8, 9, 63, 64, 65, 200]); t = 'ptl::bitset<%d>' % n
    return t, both(t, ['count()', 'any()', 'all()', 'none()', 'size()', 'empty()', 'max_size()'] + (['operator[](0)'] if n else [])) + both(t, ['set()', 'reset()', 'flip()'], False) + ['noexcept(~c<%s>())' % t] + ['noexcept(x<%s>() %s= c<%s>())' % (t, o, t) for o in '&|^'] + ['noexcept(c<%s>() %s c<%s>())' % (t, o, t) for o in '&|^'] \
        + ['noexcept(%s<%s>() %s 1)' % (k, t, o) for k, o in (('c', '<<'), ('c', '>>'), ('x', '<<='), ('x', '>>='))] + never(t, ['set(0)', 'set(0, false)', 'reset(0)', 'flip(0)', 'test(0)', 'at(0)']) + ['!noexcept(c<%s>().test(0))' % t, '!noexcept(c<%s>().at(0))' % t] \
        + ['noexcept(c<%s>() == c<%s>())' % (t, t), 'noexcept(c<%s>() != c<%s>())' % (t, t), 'noexcept(std::hash<%s>{}(c<%s>()))' % (t, t), 'std::is_nothrow_default_constructible_v<%s>' % t, 'std::is_nothrow_constructible_v<%s, std::size_t>' % t, '!std::is_convertible_v<std::size_t, %s>' % t, '!std::is_convertible_v<%s, bool>' % t, 'nests<%s>' % t, 'std::is_trivially_copyable_v<%s>' % t] + exchange(t) \
        + ['noexcept(x<%s>()[0] = true)' % t, 'noexcept(x<%s>()[0].flip())' % t, 'noexcept(~x<%s>()[0])' % t, 'noexcept(static_cast<bool>(x<%s>()[0]))' % t, 'noexcept(x<%s>()[0] = x<%s>()[0])' % (t, t), 'noexcept(swap(x<%s>()[0], x<%s>()[0]))' % (t, t)]
def tuple_(r):
    es = [element(r) for _ in range(r.choice([1, 2, 3, 5]))]; t = 'ptl::tuple<%s>' % ', '.join(es); i = r.randrange(len(es))
    return t, ['noexcept(%s<%s>().template get<%d>())' % (k, t, i) for k in ('x', 'c', 'r', 'cr')] + ['transfers<%s>' % t] + exchange(t) + relations(r, t)
def reference(t): return ['std::is_trivially_copyable_v<%s>' % t, 'nests<%s>' % t, 'std::is_nothrow_copy_constructible_v<%s> && std::is_nothrow_copy_assignable_v<%s>' % (t, t)]
def array_ref(r):
    e = element(r, 0, ORDERED + ['Wide']); k = r.random() < .5; t = 'ptl::array_ref<%s%s>' % (e, ' const' if k else '')
    sources = ['ptl::vector<%s> &' % e, 'ptl::array<%s, 3> &' % e, e + ' (&)[3]'] if 'Wide' not in e else [e + ' (&)[3]'] if '[' not in e else []
    if e == 'bool' : sources = sources[:1]
    return t, both(t, OBSERVERS + RANGE + ['front()', 'back()', 'data()', 'operator[](0)', 'first(1)', 'last(1)', 'subrange(1)', 'subrange(1, 1)']) + never(t, ['at(0)']) + ['!noexcept(c<%s>().at(0))' % t, 'std::is_nothrow_default_constructible_v<%s>' % t] + reference(t) + iterators(t, True) + to_const(t) \
        + ['std::is_nothrow_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>' % (t, q, q, t) for q in sources]
def string_ref(r):
    t = 'ptl::string_ref'
    return t, both(t, OBSERVERS + RANGE + ['max_size()', 'front()', 'back()', 'data()', 'operator[](0)', 'substr(0)', 'substr(0, 1)']) + both(t, ['remove_prefix(1)', 'remove_suffix(1)'], False) + never(t, ['at(0)']) + iterators(t, True) + reference(t) + relations(r, t) \
        + ['noexcept(std::string_view{c<%s>()})' % t, 'noexcept(std::hash<%s>{}(c<%s>()))' % (t, t), 'std::is_nothrow_default_constructible_v<%s>' % t, 'std::is_nothrow_constructible_v<%s, const char *>' % t, 'std::is_nothrow_constructible_v<%s, std::string_view>' % t, 'std::is_convertible_v<std::string_view, %s>' % t, 'std::is_convertible_v<const char *, %s>' % t, 'std::is_convertible_v<%s, std::string_view>' % t]
def optional_ref(r):
    e = element(r, 0, LEAVES); k = r.random() < .5; t = 'ptl::optional_ref<%s%s>' % (e, ' const' if k else '')
    return t, both(t, ['has_value()', 'operator bool()', 'operator*()', 'operator->()']) + ['!noexcept(c<%s>().value())' % t, 'std::is_nothrow_default_constructible_v<%s>' % t, 'std::is_nothrow_constructible_v<%s, std::nullopt_t>' % t, 'std::is_nothrow_constructible_v<%s, %s &>' % (t, e), 'std::is_convertible_v<%s &, %s>' % (e, t), '!std::is_convertible_v<%s, bool>' % t] + reference(t)
def variant_ref(r):
    es = r.sample(LEAVES, r.choice([2, 3, 4])); k = r.randrange(len(es)); t = 'ptl::variant_ref<%s>' % ', '.join(es); e = es[k]
    return t, ['noexcept(c<%s>().template holds<%s>())' % (t, e), 'noexcept(c<%s>().template get_if<%s>())' % (t, e), '!noexcept(c<%s>().template get<%s>())' % (t, e), 'std::is_nothrow_constructible_v<%s, %s &>' % (t, e), 'std::is_convertible_v<%s &, %s>' % (e, t)]
def function_ref(r):
    res, args, const, plain = r.choice(['void', 'int', 'ptl::string', 'May<0>', 'const int &']), r.sample(['int', 'ptl::string', 'const ptl::string &', 'May<1> &&', 'double *'], r.choice([0, 1, 2])), r.choice(['', ' const']), r.choice(['', ' noexcept'])
    t = 'ptl::function_ref<%s(%s)%s%s>' % (res, ', '.join(args), const, plain)
    call = 'c<%s>()(%s)' % (t, ', '.join('std::declval<%s>()' % a for a in args))
    nothrow = all(a not in ('ptl::string',) for a in args) # handing over a copy made by the caller is the caller's business
    return t, (['noexcept(%s) == %s' % (call, 'true' if plain else 'false')] if nothrow else []) + ['std::is_same_v<decltype(%s), %s>' % (call, res)] + reference(t)[:1] + ['std::is_nothrow_copy_constructible_v<%s> && std::is_nothrow_copy_assignable_v<%s>' % (t, t), 'std::is_nothrow_constructible_v<%s, %s(*)(%s)%s>' % (t, res, ', '.join(args), plain)]
KINDS = [string, vector, vector, optional, optional, variant, array, bitset, tuple_, array_ref, string_ref, optional_ref, variant_ref, function_ref]

def check(pid, tier, ev):
    n, size = (56, 60) if tier == 'quick' else (140, 80)
    batches = []
    for k in range(n):
        r = random.Random('%d/%d/C38' % (special.run.SEED, k))
        b = []
        if k < 2 * len(KINDS): # every operation of every class template, for two of its instantiations
            t, qs = KINDS[k // 2](r)
            b += [special.Query(q, '%s: %s' % (t, q)) for q in qs]
        while len(b) < size:
            t, qs = r.choice(KINDS)(r)
            for q in r.sample(qs, min(len(qs), 12)): b.append(special.Query(q, '%s: %s' % (t, q)))
        batches.append(b)
    def builds(k): return [special.BUILDS[k % 6], special.BUILDS[(k + 3) % 6]] if tier == 'quick' else special.BUILDS
    special.run_queries(pid, ev, PRELUDE, batches, builds, 'generated instantiations and one operation or trait of them, compared with the table of what cannot fail and of what converts; every one is non-trivial, counted once')
