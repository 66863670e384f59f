#!/usr/bin/env python3
"""Build planted bugs from a definition file: plant.py DEFS.py [ID...]

For every definition: apply the replacements in a scratch copy of /repo, confirm that every removed line is from the
original repository, that the tree builds, that the tests pass, and that the demonstration passes without and fails with
the change; write /verif/seeded/<id>/; then run the property's quick check against the changed copy and report."""
import subprocess, sys, os, shutil, json, tempfile, runpy
BASE = '416d237'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; anything else: it does not
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
%s
'''
PLAIN = 'g++ -std=c++17 %s -Iinc "$here/demo.cpp" -o "$d/demo" %s && timeout 120 "$d/demo"'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main():
    defs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    nocheck = os.environ.get('NOCHECK')
    root = tempfile.mkdtemp(prefix='plant.')
    tree = root + '/repo'
    sh(f'cp -a /repo {tree}; rm -rf {tree}/_build')
    r = sh(f'cmake -S {tree} -B {tree}/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DPTL_BUILD_TESTS=ON && ninja -C {tree}/_b')
    assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
    try:
        for b in defs:
            if want and b['id'] not in want: continue
            sh('git checkout -- .', cwd=tree)
            out = f'{ROOT}/seeded/{b["id"]}'
            bad = None
            for f, old, new, *n in b['edits']:
                p = f'{tree}/inc/ptl/{f}'
                t = open(p, newline='').read()
                crlf = '\r\n' in t
                if crlf: t = t.replace('\r\n', '\n')
                k = t.count(old)
                nth = n[0] if n else None
                if k == 0 or (k > 1 and nth is None) or (nth not in (None, 'all') and nth >= k): bad = f'{f}: {k} matches for {old!r}'; break
                if nth == 'all': t = t.replace(old, new)
                else:
                    i = -1
                    for _ in range((nth or 0) + 1): i = t.index(old, i + 1)
                    t = t[:i] + new + t[i + len(old):]
                if crlf: t = t.replace('\n', '\r\n')
                open(p, 'w', newline='').write(t)
            if bad: print(b['id'], 'BAD EDIT', bad); continue
            diff = subprocess.run('git diff', shell=True, capture_output=True, cwd=tree).stdout
            # blame
            mine = []
            removed = 0
            for f in sorted({e[0] for e in b['edits']}):
                d = sh(f'git diff -U0 -- inc/ptl/{f}', cwd=tree).stdout
                for line in d.splitlines():
                    if line.startswith('@@'):
                        a = line.split()[1][1:]
                        s, c = (a.split(',') + ['1'])[:2]
                        for ln in range(int(s), int(s) + int(c)):
                            removed += 1
                            h = sh(f'git blame -s -L{ln},{ln} HEAD -- inc/ptl/{f}', cwd=tree).stdout.split()[0].lstrip('^')
                            if sh(f'git merge-base --is-ancestor {h} {BASE}', cwd=tree).returncode: mine.append((f, ln))
            if mine or not removed: print(b['id'], 'LINES', mine, removed); continue
            os.makedirs(out, exist_ok=True)
            open(out + '/demo.cpp', 'w').write(b['demo'])
            script = b.get('script') or PLAIN % (b.get('flags', '-O1'), b.get('libs', ''))
            open(out + '/demo.sh', 'w').write(DEMO % script)
            os.chmod(out + '/demo.sh', 0o755)
            for name, text in b.get('files', {}).items(): open(f'{out}/{name}', 'w').write(text)
            open(out + '/patch.diff', 'wb').write(diff)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            r = sh(f'ninja -C {tree}/_b', timeout=600)
            if r.returncode: print(b['id'], 'BUILD FAILS', r.stdout[-1500:]); shutil.rmtree(out); continue
            try: r = sh(f'{tree}/_b/test-ptl', timeout=120)
            except subprocess.TimeoutExpired: print(b['id'], 'TESTS HANG'); shutil.rmtree(out); continue
            if r.returncode: print(b['id'], 'TESTS FAIL', [l for l in r.stdout.splitlines() if 'FAILED' in l or '.cpp:' in l][:4]); shutil.rmtree(out); continue
            g = sh(f'bash {out}/demo.sh', cwd='/repo', timeout=300)
            w = sh(f'bash {out}/demo.sh', cwd=tree, timeout=300)
            if g.returncode or not w.returncode: print(b['id'], 'DEMO', g.returncode, w.returncode, (g.stdout + g.stderr)[-1500:]); shutil.rmtree(out); continue
            msg = f'{b["id"]} {b["prop"]} planted (demo {w.returncode})'
            if not nocheck:
                ids = [b['prop']] + b.get('also', [])
                for i in ids:
                    r = sh(f'python3 run.py {i} quick', cwd=ROOT, env=dict(os.environ, PTL_REPO=tree))
                    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                    msg += f' | {i}: ' + ('CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}')
            print(msg, flush=True)
    finally:
        shutil.rmtree(root)
main()
