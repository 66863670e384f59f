"""C32: what may be borrowed by which reference type, asked in generated programs and answered by rules."""
import random
import special

PRELUDE = '''
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
struct Base { int a; };
struct Same : Base { };
struct Large : Base { int b; };
struct Other { int a; };
enum Plain : int { plain };
enum class Scoped : int { scoped };
template<typename To, typename From> constexpr bool can = std::is_constructible_v<To, From>;
template<typename To, typename From> constexpr bool implicitly = std::is_convertible_v<From, To>;
// binds a reference of type To (if possible at all) and looks which alternative it took
template<typename Alternative, typename To, typename From> bool took(From && from) { To r{static_cast<From &&>(from)}; return r.template holds<Alternative>() && static_cast<const void *>(&r.template get<Alternative>()) == static_cast<const void *>(&from); }
'''
ELEMS = ['int', 'unsigned', 'char', 'unsigned char', 'short', 'long', 'long long', 'double', 'float', 'Base', 'Same', 'Large', 'Other', 'Plain', 'Scoped', 'std::string', 'void *']
BASES = {'Same': 'Base', 'Large': 'Base'}

def yes(b): return 'true' if b else 'false'
def cv(t, c): return ('const ' + t if '*' not in t else t + ' const') if c else t

def array_query(r):
    te, tc = r.choice(ELEMS), r.random() < .5
    se = te if r.random() < .5 else r.choice([e for e in ELEMS if e in ('Base', 'Same', 'Large')] if te in ('Base', 'Same', 'Large') and r.random() < .7 else ELEMS)
    target = 'ptl::array_ref<%s>' % cv(te, tc)
    kind = r.choice(['carray', 'std::array', 'ptl::array', 'std::vector', 'ptl::vector', 'array_ref', 'pointers', 'counted', 'array_ref_const'])
    if se == 'Large': kind = kind.replace('ptl::', 'std::') # its layout is not admissible in owning types
    if kind in ('pointers', 'counted'):
        sc, sc2 = r.random() < .4, r.random() < .4
        ok = te == se and (tc or not sc) and (kind == 'counted' or tc or not sc2)
        p, q = cv(se, sc) + ' *', cv(se, sc2) + ' *'
        args = '%s, %s' % (p, q if kind == 'pointers' else 'std::size_t')
        return special.Query('std::is_constructible_v<%s, %s> == %s' % (target, args, yes(ok)), '%s from (%s): %s' % (target, args, 'accepted' if ok else 'refused'))
    const, rvalue = r.random() < .4, r.random() < .35
    if kind == 'carray': source, econst = '%s[3]' % se, const
    elif kind == 'array_ref': source, econst = 'ptl::array_ref<%s>' % se, False
    elif kind == 'array_ref_const': source, econst = 'ptl::array_ref<%s>' % cv(se, True), True
    elif kind in ('std::array', 'ptl::array'): source, econst = '%s<%s, 3>' % (kind, se), const or rvalue
    else: source, econst = '%s<%s>' % (kind, se), const or rvalue
    if kind == 'carray':
        if rvalue: rvalue = False # lifetime extension of array temporaries is not worth asking about
        full = '%s (&)[3]' % cv(se, const)
    else: full = '%s%s %s' % ('const ' if const else '', source, '&&' if rvalue else '&')
    ok = te == se and (tc or not econst)
    if r.random() < .2 and ok and not rvalue: # what is deduced, and what access yields
        el = cv(se, econst or (kind in ('array_ref', 'array_ref_const') and const))
        deduced = 'ptl::array_ref<%s>' % el
        if kind in ('array_ref', 'array_ref_const'): # copies keep their type
            deduced = source
        return special.Query('std::is_same_v<decltype(ptl::array_ref{std::declval<%s>()}), %s>' % (full, deduced), 'array_ref{%s} is %s' % (full, deduced))
    return special.Query('can<%s, %s> == %s && implicitly<%s, %s> == %s' % (target, full, yes(ok), target, full, yes(ok)), '%s from %s: %s' % (target, full, 'accepted' if ok else 'refused'))

def access_query(r):
    e, c = r.choice(ELEMS), r.random() < .5
    t = cv(e, c)
    k = r.choice(['array', 'optional', 'variant'])
    if k == 'array':
        ref, x = 'ptl::array_ref<%s>' % t, r.choice(['[0]', '.at(0)', '.front()', '.back()', '.data()[0]', '.first(1)[0]', '.last(1)[0]', '.subrange(0)[0]', '.subrange(0, 1)[0]'])
        const_it = r.random() < .3
        if r.random() < .4:
            m = r.choice(['begin', 'end', 'rbegin', 'rend'])
            x, ref2 = r.choice(['*%s.%s()', '%s.%s()[0]']), ref
            obj = 'std::declval<%s%s &>()' % ('const ' if const_it else '', ref)
            want = cv(e, c or const_it)
            return special.Query('std::is_same_v<decltype(%s), %s &>' % (x % (obj, m), want), '%s of %s%s yields %s &' % (m, 'const ' if const_it else '', ref, want))
        return special.Query('std::is_same_v<decltype(std::declval<const %s &>()%s), %s &>' % (ref, x, t), '%s%s yields %s &' % (ref, x, t))
    if k == 'optional':
        ref = 'ptl::optional_ref<%s>' % t
        x = r.choice(['*%s', '%s.value()', '*%s.operator->()'])
        return special.Query('std::is_same_v<decltype(%s), %s &>' % (x % ('std::declval<const %s &>()' % ref), t), '%s of %s yields %s &' % (x, ref, t))
    ref = 'ptl::variant_ref<%s, long double>' % t
    x = r.choice(['%s.template get<T>()', '*%s.template get_if<T>()'])
    return special.Query('std::is_same_v<decltype(%s), T &>' % (x % ('std::declval<const R &>()')), '%s of %s yields %s &' % (x, ref, t), decl='using T = %s; using R = %s;' % (t, ref))

def optional_query(r):
    te, tc = r.choice(ELEMS), r.random() < .5
    target = 'ptl::optional_ref<%s>' % cv(te, tc)
    family = ('Base', 'Same', 'Large')
    se = te if r.random() < .5 or tc and te not in family else (r.choice(family) if te in family and r.random() < .7 else r.choice(ELEMS))
    if tc and te != se and not (te in family and se in family): se = te
    if 'void' in te or 'void' in se: te = se = 'int'; target = 'ptl::optional_ref<%s>' % cv(te, tc)
    related = te == se or BASES.get(se) == te
    kind = r.choice(['value', 'std::optional', 'ptl::optional', 'pointer', 'unique', 'shared', 'ref', 'nullopt', 'default', 'rvalue'])
    if se == 'Large': kind = kind.replace('ptl::', 'std::')
    const, econst = r.random() < .4, r.random() < .4
    if kind == 'default': return special.Query('std::is_default_constructible_v<%s>' % target, target + ' by default', trivial=True)
    if kind == 'nullopt': return special.Query('can<%s, std::nullopt_t> && implicitly<%s, std::nullopt_t>' % (target, target), target + ' from nullopt', trivial=True)
    if kind == 'rvalue': # a mutable reference never binds to a temporary of its type
        return special.Query('!can<ptl::optional_ref<%s>, %s> && !can<ptl::optional_ref<%s>, const %s>' % (te, te, te, te), 'optional_ref<%s> from a temporary: refused' % te)
    if kind == 'value': source, c = cv(se, const), const
    elif kind in ('std::optional', 'ptl::optional'): source, c = '%s%s<%s>' % ('const ' if const else '', kind, se), const
    elif kind == 'pointer': source, c = '%s *%s' % (cv(se, econst), ' const' if const else ''), econst
    elif kind in ('unique', 'shared'): source, c = '%sstd::%s_ptr<%s>' % ('const ' if const else '', kind, cv(se, econst)), econst
    else: source, c = '%sptl::optional_ref<%s>' % ('const ' if const else '', cv(se, econst)), econst
    ok = related and (tc or not c)
    if te != se and tc and kind == 'value' and not ok: ok = None
    if ok is None or (tc and te == 'std::string'  and kind == 'pointer' and se != te): return None
    if ok and te == se and kind != 'ref' and r.random() < .25:
        deep = kind in ('pointer', 'unique', 'shared')
        if kind == 'unique' or deep: # the deduction guides make references through constant handles constant
            ded = cv(se, c or const)
        else: ded = cv(se, c)
        return special.Query('std::is_same_v<decltype(ptl::optional_ref{std::declval<%s &>()}), ptl::optional_ref<%s>>' % (source, ded), 'optional_ref{%s &} is optional_ref<%s>' % (source, ded))
    return special.Query('can<%s, %s &> == %s && implicitly<%s, %s &> == %s' % (target, source, yes(ok), target, source, yes(ok)), '%s from %s &: %s' % (target, source, 'accepted' if ok else 'refused'))

def variant_query(r):
    n = r.randint(1, 5)
    pool = ['int', 'char', 'double', 'long', 'Base', 'Same', 'Large', 'Other', 'Plain', 'Scoped', 'std::string', 'void *', 'unsigned']
    alts = []
    while len(alts) < n:
        t = cv(r.choice(pool), r.random() < .5)
        if t not in alts: alts.append(t)
        if r.random() < .3:
            o = t[6:] if t.startswith('const ') else t[:-6] if t.endswith(' const') else cv(t, True)
            if o not in alts: alts.append(o)
    plain = lambda t: t[6:] if t.startswith('const ') else t[:-6] if t.endswith(' const') else t
    se = plain(r.choice(alts)) if r.random() < .75 else r.choice(pool)
    const, rvalue = r.random() < .4, r.random() < .4
    target = 'ptl::variant_ref<%s>' % ', '.join(alts)
    src = cv(se, const)
    if not rvalue: take = src if src in alts else cv(se, True) if cv(se, True) in alts else None
    else: take = cv(se, True) if cv(se, True) in alts else None
    full = '%s %s' % (src, '&&' if rvalue else '&')
    decl = 'using R = %s;' % target
    e = 'can<R, %s> == %s && implicitly<R, %s> == %s' % (full, yes(take), full, yes(take))
    if take and not (const and se in ()):
        decl += ' inline %s object{}; using T = %s;' % (src, take)
        e += ' && took<T, R>(%s)' % ('std::move(object)' if rvalue else 'object')
    return special.Query(e, '%s from %s: %s' % (target, full, 'binds as ' + take if take else 'refused'), decl)

# results and parameters of signatures; conv[(from, to)] = (possible, without exceptions)
RESULTS = ['void', 'int', 'double', 'const char *', 'std::string', 'Base &', 'const Base &', 'Same &', 'Base *', 'const Base *', 'std::unique_ptr<int>']
def rconv(f, t):
    if t == 'void': return True, True
    if f == 'void': return False, False
    if f == t: return True, t != 'std::string' or True
    num = ('int', 'double')
    if f in num and t in num: return True, True
    if f == 'const char *' and t == 'std::string': return True, False
    if t in ('Base &', 'const Base &'):
        if f in ('Base &', 'Same &'): return True, True
        return False, False
    if t == 'const Base *' and f == 'Base *': return True, True
    return False, False
PARAMS = ['int', 'double', 'std::string', 'const std::string &', 'std::string &', 'std::string &&', 'Base &', 'const Base &', 'Same &', 'std::unique_ptr<int>']
def pconv(given, param):
    """given: declared parameter of the reference (forwarded as given &&), param: parameter of the functor"""
    num = ('int', 'double')
    if given in num: return (param in num), True
    if given in ('std::string', 'std::string &&'):
        if param in ('std::string', 'const std::string &', 'std::string &&'): return True, param != 'std::string' or True # moving a string does not throw
        return False, False
    if given == 'std::string &':
        if param in ('const std::string &', 'std::string &'): return True, True
        if param == 'std::string': return True, False
        return False, False
    if given == 'const std::string &':
        if param == given: return True, True
        if param == 'std::string': return True, False
        return False, False
    if given == 'Base &': return param in ('Base &', 'const Base &'), True
    if given == 'const Base &': return param == 'const Base &', True
    if given == 'Same &': return param in ('Base &', 'const Base &', 'Same &'), True
    if given == 'std::unique_ptr<int>': return param == given, True
    return False, False
def related_param(r, p): 
    if r.random() < .6: return p
    c = [q for q in PARAMS if pconv(p, q)[0]]
    return r.choice(c) if c and r.random() < .6 else r.choice(PARAMS)
def related_result(r, t):
    if r.random() < .6: return t
    c = [f for f in RESULTS if rconv(f, t)[0]]
    return r.choice(c) if c and r.random() < .6 else r.choice(RESULTS)
def function_query(r):
    n = r.choice([0, 1, 1, 2, 3])
    args, res = [r.choice(PARAMS) for _ in range(n)], r.choice(RESULTS)
    tconst, tnoex = r.random() < .5, r.random() < .5
    sig = '%s(%s)%s%s' % (res, ', '.join(args), ' const' if tconst else '', ' noexcept' if tnoex else '')
    target = 'ptl::function_ref<%s>' % sig
    def overload():
        k = n if r.random() < .93 else r.choice([0, 1, 2])
        ps = [related_param(r, p) for p in args[:k]] + [r.choice(PARAMS) for _ in range(max(0, k - n))]
        return related_result(r, res), ps, r.random() < .6
    def verdict(o):
        f, ps, noex = o
        if len(ps) != n: return False
        rc = rconv(f, res)
        pcs = [pconv(g, p) for g, p in zip(args, ps)]
        if not rc[0] or not all(p[0] for p in pcs): return False
        return not tnoex or (noex and rc[1] and all(p[1] for p in pcs))
    kind = r.choice(['functor', 'functor', 'functor', 'function', 'lambda', 'ref', 'memptr', 'rvalue_only'])
    decl = 'using R = %s;' % target
    if kind == 'function':
        o = overload()
        decl += ' using F = %s(%s)%s;' % (o[0], ', '.join(o[1]), ' noexcept' if o[2] else '')
        how = r.choice(['F *', 'F &', 'F * const'])
        ok = verdict(o)
        return special.Query('can<R, %s> == %s && implicitly<R, %s> == %s' % (how, yes(ok), how, yes(ok)), '%s from %s where F is %s(%s)%s: %s' % (target, how, o[0], ', '.join(o[1]), ' noexcept' if o[2] else '', 'accepted' if ok else 'refused'), decl)
    if kind == 'memptr':
        m = r.choice(['int Base::*', 'int (Base::*)()', 'int (Base::*)() const noexcept'])
        ref = 'ptl::function_ref<int(Base &)%s>' % (' noexcept' if 'noexcept' in m or r.random() < .5 else '')
        return special.Query('!can<%s, M> && !can<%s, M &>' % (ref, ref), '%s from %s: refused' % (ref, m), 'using M = %s;' % m)
    sconst, rvalue = r.random() < .35, r.random() < .35
    if kind == 'ref':
        o = overload(); c2 = r.random() < .5
        decl += ' using F = ptl::function_ref<%s(%s)%s%s>;' % (o[0], ', '.join(o[1]), ' const' if c2 else '', ' noexcept' if o[2] else '')
        if (o[0], o[1], c2, o[2]) == (res, args, tconst, tnoex): ok = True # a copy
        else:
            # a reference is called through a constant reference as well
            ok = verdict(o)
            # its parameters are passed on by value first: moving them may throw for nothing in PARAMS
        desc = 'function_ref<%s(%s)%s%s>' % (o[0], ', '.join(o[1]), ' const' if c2 else '', ' noexcept' if o[2] else '')
    elif kind == 'lambda':
        o = overload(); mut = r.random() < .4
        if o[0] != 'void' and '&' in o[0] or any(False for _ in ()): pass
        decl += ' inline auto lambda = [state = 0](%s) %s%s -> %s { (void)state; throw 0; }; using F = decltype(lambda);' % (', '.join(o[1]), 'mutable' if mut else '', ' noexcept' if o[2] else '', o[0])
        as_const = sconst or tconst
        ok = verdict(o) and not (mut and as_const)
        desc = 'a %slambda (%s)%s -> %s' % ('mutable ' if mut else '', ', '.join(o[1]), ' noexcept' if o[2] else '', o[0])
    elif kind == 'rvalue_only':
        o = overload()
        decl += ' struct F { %s operator()(%s) &&%s; };' % (o[0], ', '.join(o[1]), ' noexcept' if o[2] else '')
        ok = False
        desc = 'a functor callable as rvalue only'
    else:
        which = r.choice(['mutable', 'const', 'both', 'both', 'mutable &', 'const &'])
        om, oc = overload(), overload()
        if which == 'both' and r.random() < .5: oc = (oc[0], om[1], oc[2])
        s = ' struct F {'
        if which in ('mutable', 'both', 'mutable &'): s += ' %s operator()(%s)%s%s;' % (om[0], ', '.join(om[1]), ' &' if '&' in which else '', ' noexcept' if om[2] else '')
        if which in ('const', 'both', 'const &'): s += ' %s operator()(%s) const%s%s;' % (oc[0], ', '.join(oc[1]), ' &' if '&' in which else '', ' noexcept' if oc[2] else '')
        decl += s + ' };'
        as_const = sconst or tconst
        if which.startswith('mutable'): ok = not as_const and verdict(om)
        elif which.startswith('const'): ok = verdict(oc)
        elif as_const: ok = verdict(oc)
        elif om[1] == oc[1]: ok = verdict(om)
        else: return None # overload resolution between different parameters is a matter of the language
        desc = s.strip()
    full = '%sF %s' % ('const ' if sconst else '', '&&' if rvalue else '&')
    return special.Query('can<R, %s> == %s && implicitly<R, %s> == %s' % (full, yes(ok), full, yes(ok)), '%s from %s where F is %s: %s' % (target, full, desc, 'accepted' if ok else 'refused'), decl)

KINDS = [array_query, array_query, optional_query, optional_query, variant_query, variant_query, function_query, function_query, function_query, access_query]
def check(pid, tier, ev):
    n, size = (18, 300) if tier == 'quick' else (160, 400)
    batches = []
    for k in range(n):
        r = random.Random('%d/%d/C32' % (special.run.SEED, k))
        b = []
        while len(b) < size:
            q = r.choice(KINDS)(r)
            if q: b.append(q)
        batches.append(b)
    builds = lambda k: [special.BUILDS[k % len(special.BUILDS)], special.BUILDS[(k + 1) % len(special.BUILDS)]] if tier == 'quick' else special.BUILDS
    special.run_queries(pid, ev, PRELUDE, batches, builds, 'generated questions "can this reference type be made from that expression" with the answer given by rules; non-trivial: every question but construction from nothing, counted once per distinct question')
