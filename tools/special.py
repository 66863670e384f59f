"""Checks whose generated inputs are whole programs (C32, C33, C37), threads (C35) or sets of binary modules (C13)."""
import os, random, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import sys
run = sys.modules.get('__main__') if hasattr(sys.modules.get('__main__'), 'Violation') else __import__('run')

BUILDS = [('g++', '17', '-O0'), ('clang++', '17', '-O0'), ('g++', '20', '-O0'), ('clang++', '20', '-O0'), ('g++', '23', '-O0'), ('clang++', '23', '-O0')]

def cmdline(build, *more):
    return [build[0], '-std=c++' + build[1], build[2], '-w', '-I' + run.INC] + list(more)

def compile_run(source, build, d, name, more=()):
    """compiles and runs one program; returns (what happened, output)"""
    src, exe = os.path.join(d, name + '.cpp'), os.path.join(d, name)
    with open(src, 'w') as f: f.write(source)
    r = run.sh(cmdline(build, src, '-o', exe, *more), timeout=600)
    if r.returncode: return 'compile', r.stdout
    r = run.sh([exe], timeout=120)
    os.remove(exe)
    return ('ok' if r.returncode == 0 else 'run'), r.stdout

def control(build, d):
    what, out = compile_run('#include <vector>\n#include <string>\nint main() { std::vector<std::string> v{"x"}; return v.size() != 1; }\n', build, d, 'control_' + build[0] + build[1])
    if what != 'ok': raise RuntimeError('compiler does not work: ' + out)

class Query:
    """one generated question: a self-contained C++ boolean expression that must be true (decls go to namespace scope)"""
    def __init__(self, expr, text, decl='', trivial=False): self.expr, self.text, self.decl, self.trivial = expr, text, decl, trivial

def program(prelude, queries):
    lines = [prelude]
    lines += ['namespace d%d { %s }' % (i, q.decl) for i, q in enumerate(queries) if q.decl]
    for i, q in enumerate(queries): lines.append('static bool q%d() { %sreturn %s; }' % (i, 'using namespace d%d; ' % i if q.decl else '', q.expr))
    lines.append('#include <cstdio>\nint main() { int bad = 0; static bool (* const q[])(){%s}; for(int i = 0; i < %d; ++i) if(!q[i]()) { std::printf("WRONG %%d\\n", i); bad = 1; } return bad; }' % (', '.join('q%d' % i for i in range(len(queries))), len(queries)))
    return '\n'.join(lines) + '\n'

def isolate(prelude, queries, build, d, tag):
    """the queries of a failing program which fail on their own; smallest source first"""
    def one(i):
        return i, compile_run(program(prelude, [queries[i]]), build, d, '%s_%d' % (tag, i))
    bad = []
    with ThreadPoolExecutor(4) as ex:
        # bisect: find one failing query
        todo = list(range(len(queries)))
        while len(todo) > 8:
            half = todo[:len(todo) // 2]
            what, out = compile_run(program(prelude, [queries[i] for i in half]), build, d, tag + '_b')
            todo = half if what != 'ok' else todo[len(todo) // 2:]
        for i, (what, out) in ex.map(one, todo):
            if what != 'ok': bad.append((len(queries[i].expr) + len(queries[i].decl), i, what, out))
    return sorted(bad)

def run_queries(pid, ev, prelude, batches, builds, rule, workers=8):
    """batches: lists of queries; every batch is one program, built by one of the builds (or all of them)"""
    cov = ev['coverage']
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        jobs = [(k, b) for k in range(len(batches)) for b in builds(k)]
        def job(j):
            k, b = j
            return j, compile_run(program(prelude, batches[k]), b, d, 'p%d_%s%s%s' % (k, b[0], b[1], b[2]))
        with ThreadPoolExecutor(workers) as ex: results = list(ex.map(job, jobs))
        seen = set()
        for (k, b), (what, out) in results:
            cov['evaluations'] += len(batches[k])
            seen |= {(q.decl, q.expr) for q in batches[k] if not q.trivial}
        cov['distinct_nontrivial'] = len(seen)
        cov['programs'] = len(jobs)
        ev['rules'].append(rule)
        rng = random.Random(7)
        allq = [q for b in batches for q in b]
        cov['samples'] += [q.text for q in rng.sample(allq, min(12, len(allq)))]
        for (k, b), (what, out) in results:
            if what == 'ok': continue
            control(b, d)
            bad = isolate(prelude, batches[k], b, d, 'iso%d' % k)
            if bad:
                _, i, what, out = bad[0]
                q = batches[k][i]
                src = program(prelude, [q])
                again = compile_run(src, b, d, 'again')
                if again[0] == 'ok': ev.setdefault('unconfirmed', []).append({'query': q.text, 'output': out[:1000]}); continue
            else:
                src = program(prelude, batches[k])
                again = compile_run(src, b, d, 'again')
                if again[0] == 'ok': ev.setdefault('unconfirmed', []).append({'program': k, 'output': out[:1000]}); continue
                q = None
            text = '%s: %s' % ({'compile': 'does not compile', 'run': 'wrong answer'}[what], q.text if q else 'program %d' % k)
            raise run.Violation('%s (%s -std=c++%s %s)' % ((text,) + b), {'kind': 'program', 'property': pid, 'build': list(b), 'source': src, 'result': what, 'output': out[:8000], 'trace': text})
    finally: shutil.rmtree(d, ignore_errors=True)

def replay(r):
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        if r['kind'] == 'program':
            what, out = compile_run(r['source'], tuple(r['build']), d, 'replay', r.get('more', ()))
            print(what, out[:6000])
            return 0 if what == 'ok' else 1
        if r['kind'] == 'modules':
            built = build_modules(r['modules'], d)
            print('compiles' if built[0] else built[2])
            return 0 if built[0] else 1
        if r['kind'] == 'include':
            import includes
            return includes.replay(r, d)
    finally: shutil.rmtree(d, ignore_errors=True)
    raise SystemExit('unknown replay kind')

TABLE = {}
import borrowing
TABLE['C32'] = borrowing.check
import includes
TABLE['C33'] = includes.check
import constants
TABLE['C37'] = constants.check
import contract
TABLE['C38'] = contract.check

def threads(pid, tier, ev):
    run.run_harness(pid, tier, ev, quick=['clang17tsan', 'gcc20O2'], thorough=['clang17tsan', 'gcc20tsan', 'gcc17O3', 'clang20O2'], factor=12)
run.NO_FUZZ.add('C35')
TABLE['C35'] = threads

# ------------------------------------------------------------------------------------------------ C13: binary modules
MODULES = [ # what the modules are built with; quick uses the first four
    ('g++', '-std=c++17', '-O2'),
    ('clang++', '-std=c++20', '-O1', '-DNDEBUG'),
    ('clang++', '-std=c++17', '-O0'),
    ('g++', '-std=c++20', '-O3', '-DNDEBUG', '-fno-rtti'),
    ('clang++', '-std=c++23', '-O3', '-fno-rtti'),
    ('g++', '-std=c++23', '-Os', '-funsigned-char'),
    ('g++', '-std=c++17', '-O0', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_ASSERTIONS'),
    ('clang++', '-std=c++20', '-Os', '-fshort-enums', '-D_GLIBCXX_ASSERTIONS'),
]
WRAPPED = 'malloc calloc realloc free _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZdlPvSt11align_val_t _ZdaPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvmSt11align_val_t'.split()
def build_modules(n, d):
    """builds the first n modules into d; returns their paths, or (None, command and log) if one does not compile"""
    script = os.path.join(d, 'exports')
    with open(script, 'w') as f: f.write('{ global: ptl_module; local: *; };\n') # nothing is shared between modules by accident
    def one(k):
        m, out = MODULES[k], os.path.join(d, 'module%d.so' % k)
        more = ['-fno-gnu-unique'] if m[0] == 'g++' else []
        cmd = list(m) + more + ['-w', '-fPIC', '-shared', '-fvisibility=hidden', '-I' + run.INC, '-DMODULE_NAME="%s"' % ' '.join(m), os.path.join(run.ROOT, 'props', 'module_side.cpp'), '-o', out, '-Wl,--version-script=' + script, '-Wl,-Bsymbolic', '-Wl,' + ','.join('--wrap=' + w for w in WRAPPED)]
        return out, cmd, run.sh(cmd, timeout=800)
    with ThreadPoolExecutor(8) as ex: built = list(ex.map(one, range(n)))
    for k, (out, cmd, r) in enumerate(built):
        if r.returncode: return None, k, ' '.join(cmd) + '\n' + r.stdout
    return [out for out, _, _ in built]

def modules(pid, tier, ev):
    n = 4 if tier == 'quick' else len(MODULES)
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        built = build_modules(n, d)
        if built[0] is None:
            control((MODULES[built[1]][0], MODULES[built[1]][1][-2:], '-O0'), d)
            raise run.Violation('a module does not compile (%s)' % ' '.join(MODULES[built[1]]), {'kind': 'modules', 'property': pid, 'modules': n, 'log': built[2][:20000]})
        os.environ['PTL_MODULES'] = ':'.join(built)
        ev['modules'] = [' '.join(m) for m in MODULES[:n]]
        try: run.run_harness(pid, tier, ev, extra=('-ldl',), factor=20)
        except run.Violation as e:
            e.replay['modules'] = n
            raise
    finally: shutil.rmtree(d, ignore_errors=True)
TABLE['C13'] = modules
