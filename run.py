#!/usr/bin/env python3
"""Driver: run.py setup | run.py <ID> quick|thorough | run.py replay <file>
Compiles the harness of a property against /repo's current tree, runs it, writes evidence/<ID>.json."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PTL_REPO', '/repo')
INC = os.path.join(REPO, 'inc')
BUILD, OUT, EVID = (os.path.join(ROOT, d) for d in ('build', 'out', 'evidence'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WRAP = '-Wl,' + ','.join('--wrap=' + f for f in 'malloc calloc realloc free aligned_alloc posix_memalign'.split())
COMMON = ['-g1', '-pthread', '-Wno-deprecated-declarations', '-Wno-everything' , '-I' + INC, '-I' + ROOT]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {  # name: (command, flags)
    'clang17asan': (['clang++'], ['-std=c++17', '-O1'] + SAN),
    'gcc20O2':     (['g++'], ['-std=c++20', '-O2', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS']),
    'gcc17O3':     (['g++'], ['-std=c++17', '-O3']),
    'clang20O2':   (['clang++'], ['-std=c++20', '-O2']),
    'gcc20asan':   (['g++'], ['-std=c++20', '-O1'] + SAN[:1] + ['-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all']),
    'clang17O0':   (['clang++'], ['-std=c++17', '-O0']),
    'clang17tsan': (['clang++'], ['-std=c++17', '-O1', '-fsanitize=thread', '-DPBT_TSAN']),
    'gcc20tsan':   (['g++'], ['-std=c++20', '-O1', '-fsanitize=thread', '-DPBT_TSAN']),
    'fuzzer':      (['clang++'], ['-std=c++17', '-O1', '-DPBT_FUZZER', '-fsanitize=fuzzer'] + SAN),
}
QUICK = ['clang17asan', 'gcc20O2']
THOROUGH = ['clang17asan', 'gcc20O2', 'gcc17O3', 'clang20O2']

sys.path.insert(0, os.path.join(ROOT, 'tools'))

class Violation(Exception):
    """a confirmed violation: message and replay text"""
    def __init__(self, message, replay): super().__init__(message); self.replay = replay

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

POOL = ThreadPoolExecutor(10)
def compile_one(src, variant, exe, extra=(), timeout=800):
    cc, flags = VARIANTS[variant]
    base = cc + flags + [f for f in COMMON if not (f == '-Wno-everything' and cc[0] == 'g++')] + (['-w'] if cc[0] == 'g++' else []) + list(extra)
    with open(src) as f: first = f.readline().split()
    parts = int(first[2]) if first[:2] == ['//', 'PARTS'] else 1
    if parts == 1:
        cmd = base + [src, '-o', exe, WRAP]
        r = sh(cmd, timeout=timeout)
        return r.returncode, ' '.join(cmd) + '\n' + r.stdout
    plain = {int(k) for k in first[3:]}  # parts which would take too long to compile with sanitizers and debug information
    cmds = [[f for f in base if k not in plain or not (f.startswith(('-fsanitize', '-fno-sanitize', '-g')))] + ['-c', '-DPBT_PART=%d' % k, src, '-o', '%s.%d.o' % (exe, k)] for k in range(parts)]
    log = ''
    for cmd, r in zip(cmds, POOL.map(lambda c: sh(c, timeout=timeout), cmds)):
        if r.returncode: log += ' '.join(cmd) + '\n' + r.stdout
    if log: return 1, log
    cmd = base + ['%s.%d.o' % (exe, k) for k in range(parts)] + ['-o', exe, WRAP]
    r = sh(cmd, timeout=timeout)
    return r.returncode, ' '.join(cmd) + '\n' + r.stdout

def control_ok(variant, d):
    """the compiler itself works: a program without PTL compiles"""
    p = os.path.join(d, 'control_%s.cpp' % variant)
    with open(p, 'w') as f: f.write('#include "engine/alloc.hpp"\n#include "engine/tracked.hpp"\n#include "props/common.hpp"\nPBT_TEST(x, 1, "") { gen::text(s); }\n')
    rc, log = compile_one(p, variant, os.path.join(d, 'control_' + variant))
    if rc: raise RuntimeError('compiler does not work: ' + log)

def write_replay(pid, payload):
    os.makedirs(OUT, exist_ok=True)
    name = os.path.join(OUT, '%s-%s.json' % (pid, hashlib.sha1(json.dumps(payload, sort_keys=True).encode()).hexdigest()[:10]))
    with open(name, 'w') as f: json.dump(payload, f, indent=1)
    return name

def harness(pid):
    c = [f for f in sorted(os.listdir(os.path.join(ROOT, 'props'))) if f.startswith(pid + '_') and f.endswith('.cpp')]
    return os.path.join(ROOT, 'props', c[0]) if c else None

def run_harness(pid, tier, ev, src=None, quick=QUICK, thorough=THOROUGH, factor=25, extra=()):
    """generic property: one C++ harness built in several variants"""
    src = src or harness(pid)
    variants = quick if tier == 'quick' else thorough
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        with ThreadPoolExecutor(8) as ex:
            exes = {v: os.path.join(d, v) for v in variants}
            if tier == 'thorough': extra = tuple(extra) + ('-DPBT_THOROUGH',)
            for v, (rc, log) in zip(variants, ex.map(lambda v: compile_one(src, v, exes[v], extra), variants)):
                if rc:
                    control_ok(v, d)
                    raise Violation('harness does not compile (%s)' % v, {'kind': 'compile', 'property': pid, 'harness': os.path.relpath(src, ROOT), 'variant': v, 'log': log[:20000]})
        workers = max(1, 8 // len(variants))
        scale = 1.0 if tier == 'quick' else float(factor)
        def run(v):
            out = os.path.join(d, v + '.json')
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1')
            r = sh([exes[v], 'run', '--seed', str(SEED), '--scale', str(scale), '--workers', str(workers), '--tier', tier, '--out', out], env=env)
            if not os.path.exists(out): raise RuntimeError('%s produced no report: %s' % (v, r.stdout[-2000:]))
            with open(out) as f: return v, json.load(f)
        with ThreadPoolExecutor(8) as ex: reports = list(ex.map(run, variants))
        for v, rep in reports: merge(ev, v, rep)
        for v, rep in reports:
            f = rep['failure']
            if not f: continue
            if f['confirmed'] < 3:
                ev.setdefault('unconfirmed', []).append(dict(f, variant=v))
                continue
            f.update(property=pid, variant=v, harness=os.path.relpath(src, ROOT), extra=list(extra))
            raise Violation('%s: %s' % (f['test'], f['message'][:600]), f)
        if tier == 'thorough' and pid not in NO_FUZZ: fuzz(pid, src, d, ev, extra)
    finally:
        shutil.rmtree(d, ignore_errors=True)

NO_FUZZ = set()
def fuzz(pid, src, d, ev, extra, seconds=60):
    exe = os.path.join(d, 'fuzzer')
    rc, log = compile_one(src, 'fuzzer', exe, extra)
    if rc: ev['fuzzer'] = 'not built: ' + log[-400:]; return
    execs = 0
    def one(k):
        c = os.path.join(d, 'corpus%d' % k); os.makedirs(c)
        dump = os.path.join(d, 'dump%d' % k)
        r = sh([exe, '-seed=%d' % (SEED * 1000 + k + 1), '-max_total_time=%d' % seconds, '-max_len=4096', '-print_final_stats=1', '-artifact_prefix=' + d + '/art%d-' % k, '-rss_limit_mb=3000', '-timeout=120', c],
               env=dict(os.environ, PBT_DUMP=dump, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'), cwd=d)
        return dump if os.path.exists(dump) else None, r.stdout
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(8)))
    for dump, out in rs:
        for l in out.splitlines():
            if 'number_of_executed_units' in l: execs += int(l.split(':')[1])
    ev['fuzz_executions'] = execs
    for dump, out in rs:
        if not dump: continue
        lines = open(dump).read().splitlines()
        test, choices = lines[0].split()[1], ' '.join(lines[1].split()[1:])
        pbt = os.path.join(d, 'replayer'); compile_one(src, 'clang17asan', pbt, extra)
        r = sh([pbt, 'shrink', '--test', test, '--choices', choices], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'))
        res = json.loads(r.stdout.strip().splitlines()[-1])
        if res['failed']:
            raise Violation('%s: %s' % (test, res['message'][:600]), dict(res, kind='case', property=pid, variant='clang17asan', harness=os.path.relpath(src, ROOT), extra=list(extra)))
        ev.setdefault('unconfirmed', []).append({'fuzzer': out[-3000:], 'choices': choices, 'test': test})

def merge(ev, v, rep):
    cov = ev['coverage']
    labels = cov.setdefault('labels', {})
    for t in rep['tests']:
        cov['evaluations'] += t['cases'] + t['extra']
        per = cov.setdefault('tests', {}).setdefault(t['name'], {'cases': 0, 'sub_evaluations': 0, 'nontrivial': 0})
        per['cases'] += t['cases']; per['sub_evaluations'] += t['extra']; per['nontrivial'] += t['nontrivial']
        l = labels.setdefault(t['name'], {})
        for k, n in t['labels'].items(): l[k] = l.get(k, 0) + n
        r = '%s: %s' % (t['name'], t['rule'])
        if r not in ev['rules']: ev['rules'].append(r)
        if len(cov['samples']) < 12: cov['samples'] += [x for x in (t['name'] + ' ' + s for s in t['samples'][:2]) if x not in cov['samples']]
    # the same cases are run in every variant: distinct cases are counted once
    cov['distinct_nontrivial'] = max(cov['distinct_nontrivial'], rep['distinct'])
    ev.setdefault('variants', {})[v] = round(rep['wall'], 2)

def known_findings(pid):
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid): r.append(l.split(' ', 2)[2].strip())
    return r

def main():
    if len(sys.argv) < 2: sys.exit(__doc__)
    if sys.argv[1] == 'setup':
        for d in (BUILD, OUT, EVID): os.makedirs(d, exist_ok=True)
        for v in QUICK:
            d = tempfile.mkdtemp(prefix='ptlverif.')
            try: control_ok(v, d)
            finally: shutil.rmtree(d, ignore_errors=True)
        print('setup ok'); return 0
    if sys.argv[1] == 'replay': return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    import catalog
    p = [p for p in catalog.P if p['id'] == pid][0]
    t0 = time.time()
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': p['level'], 'coverage': {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}, 'rules': [], 'wall_s': 0, 'violations': 0}
    rc, msg = 0, ''
    try:
        special = SPECIAL.get(pid)
        if special: special(pid, tier, ev)
        else: run_harness(pid, tier, ev)
    except Violation as e:
        path = write_replay(pid, e.replay)
        ev['violations'] = 1
        print('%s' % e)
        print(str(e.replay.get('trace', ''))[-3000:])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    ev['coverage']['rule'] = 'cases are drawn from a choice sequence seeded by (VERIF_SEED, test, index), every case is run in each build variant; a case is non-trivial when: ' + '; '.join(ev.pop('rules'))
    ev['assumptions'] = ['sizeof(void*) == 8, x86-64 Linux, libstdc++'] + catalog.ASSUME.get(pid, [])
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in ev.get('unconfirmed', []): print('unconfirmed (not reported):', json.dumps(k)[:500])
    if rc == 0:
        for k in known_findings(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        print('%s %s: held on %d evaluations (%d distinct non-trivial) in %.1f s' % (pid, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return rc

def replay(path):
    r = json.load(open(path))
    if r.get('kind') not in ('case', 'prefix', 'compile'):
        import special
        return special.replay(r)
    d = tempfile.mkdtemp(prefix='ptlverif.')
    try:
        exe = os.path.join(d, 'exe')
        if r.get('modules'):
            import special
            built = special.build_modules(r['modules'], d)
            if built[0] is None: print(built[2]); return 1
            os.environ['PTL_MODULES'] = ':'.join(built)
        rc, log = compile_one(os.path.join(ROOT, r['harness']), r['variant'], exe, r.get('extra', ()))
        if rc: print(log); return 1
        if r['kind'] == 'compile': print('compiles'); return 0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
        if r['kind'] == 'prefix': return subprocess.call([exe, 'run', '--seed', str(r['seed']), '--scale', str(r['scale']), '--workers', str(r['workers'])], env=env)
        x = sh([exe, 'replay', '--test', r['test'], '--choices', r['choices']], env=env)
        res = json.loads(x.stdout.strip().splitlines()[-1])
        print(res['trace']); print(res['message']); print(res['log'])
        return 1 if res['failed'] else 0
    finally: shutil.rmtree(d, ignore_errors=True)

SPECIAL = {}
try:
    import special
    SPECIAL = special.TABLE
except ImportError: pass
if __name__ == '__main__': sys.exit(main())
