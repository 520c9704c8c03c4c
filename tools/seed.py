#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py...   A spec defines ID, PROPERTY, FILE, EDITS [(old,new)...], DEMO (C++ text), NEEDS, BREAKS.
Confirms: demo passes on /repo and fails on the changed copy, which still builds and passes the stable tests; then
writes /verif/seeded/ID/. --fast skips build and tests, --check also runs check.py for the property against the copy."""
import json, os, pathlib, shutil, subprocess, sys, runpy
V = pathlib.Path('/verif'); W = pathlib.Path('/tmp/seedrepo')
DEMO = '''#!/bin/bash
# run in the repository: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
CXX=%s
$CXX -std=c++23 %s -I include "$here/demo.cpp" -o "$out/demo" %s || exit 2
timeout 60 "$out/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def run(spec, fast):
    s = runpy.run_path(spec)
    if not W.exists(): sh(['git', 'clone', '-q', '/repo', str(W)])
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'git -C {W} fetch -q /repo && git -C {W} checkout -q -f {head}')
    edits = s['EDITS'] if isinstance(s['EDITS'], dict) else {s['FILE']: s['EDITS']}
    for f, es in edits.items():
        p = W / 'include/dice/template-library' / f; t = p.read_text()
        for old, new, *nth in es:
            if nth:
                parts = t.split(old); k = nth[0]
                assert len(parts) > k + 1, (s['ID'], 'edit not found', old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert t.count(old) == 1, (s['ID'], 'edit matches', t.count(old), old)
                t = t.replace(old, new)
        p.write_text(t)
    diff = sh(f'git -C {W} diff').stdout
    d = pathlib.Path('/tmp/seedout') / s['ID']; shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    (d / 'patch.diff').write_text(diff)
    (d / 'demo.cpp').write_text(s['DEMO'])
    (d / 'demo.sh').write_text(DEMO % (s.get('CXX', 'g++-14'), s.get('FLAGS', '-O1'), s.get('LIBS', '-pthread')))
    os.chmod(d / 'demo.sh', 0o755)
    (d / 'meta.json').write_text(json.dumps({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, indent=1) + '\n')
    a = sh(['bash', str(d / 'demo.sh')], cwd='/repo'); b = sh(['bash', str(d / 'demo.sh')], cwd=str(W))
    if a.returncode != 0: return f'demo fails on the unchanged tree: {a.returncode} {a.stdout[-300:]} {a.stderr[-900:]}'
    if b.returncode in (0, 2): return f'demo does not fail with the change: {b.returncode} {b.stderr[-900:]}'
    # what changed must be original lines
    for f in edits:
        base = set(sh(f'git -C /repo show abd0b5c:include/dice/template-library/{f}').stdout.splitlines())
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in base: print('   note: not an original line:', l)
    if not fast:
        r = sh('sed "s#/repo#/tmp/seedrepo#g" /opt/vp/configure.sh > /tmp/seedconf.sh; sed "s#/opt/vp/configure.sh#/tmp/seedconf.sh#; s#/repo#/tmp/seedrepo#g" /opt/vp/build.sh > /tmp/seedbuild.sh; sed "s#/opt/vp/configure.sh#/tmp/seedconf.sh#; s#/repo#/tmp/seedrepo#g" /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedbuild.sh && bash /tmp/seedtest.sh /tmp/seedout.json')
        try: t = json.load(open('/tmp/seedout.json'))
        except Exception: return 'build or tests: ' + (r.stdout + r.stderr)[-800:]
        os.unlink('/tmp/seedout.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        if r.returncode and 'rror' in r.stderr and not t: return 'build: ' + r.stderr[-500:]
        bad = missing(base, t)
        if bad: return f'stable tests fail: {bad[:3]}'
    out = V / 'seeded' / s['ID']; shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
    return 'ok' + (' (tests not run)' if fast else '')
def missing(base, t):
    def passed(x):
        if isinstance(x, dict):
            for k in ('stable', 'passed', 'pass', 'tests'):
                if k in x:
                    y = x[k]
                    return set(y) if isinstance(y, list) and (not y or isinstance(y[0], str)) else {e.get('name', e.get('id')) for e in y if e.get('status', e.get('outcome', 'passed')) == 'passed'}
        return set(x)
    return sorted(passed(base) - passed(t))
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for a in args:
        try: print(a, run(a, '--fast' in sys.argv))
        except AssertionError as e: print(a, 'ASSERT', e)
