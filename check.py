#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decides one property.

 1. compiles contracts/ID_*.cpp together with /repo's current headers to LLVM IR (clang 18, -O0,
    UBSan traps) and natively (g++-14, ASan+UBSan);
 2. proves every obligation of every contract harness with engine/vfy (path-wise symbolic execution
    of the IR + z3), one process per harness;
 3. replays counterexamples on the native build; also runs the native harnesses on random inputs.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VFY = f'{HERE}/build/vfy'
GCC_DIR = '/usr/lib/gcc/x86_64-linux-gnu/14'
UBSAN = 'signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,unreachable,return,vla-bound,array-bounds,builtin'
INC = [f'-I{HERE}/runtime', f'-I{REPO}/include']
CLANG = ['clang++', '-std=c++23', f'--gcc-install-dir={GCC_DIR}', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
         f'-fsanitize={UBSAN}', '-fsanitize-trap=all', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-emit-llvm', '-c'] + INC
GPP = ['g++-14', '-std=c++23', '-O1', '-g1', '-w', '-DVF_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'] + INC
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=79:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0:exitcode=79')


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b if isinstance(b, str) else (b or b'').decode(errors='replace')
        return 124, dec(e.stdout), dec(e.stderr)


def ensure_engine():
    os.makedirs(f'{HERE}/build', exist_ok=True)
    srcs = glob.glob(f'{HERE}/engine/*')
    def fresh():
        return os.path.exists(VFY) and all(os.path.getmtime(s) <= os.path.getmtime(VFY) for s in srcs)
    if fresh():
        return
    with open(f'{HERE}/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if fresh():
            return
        rc, o, e = sh(['bash', f'{HERE}/engine/build.sh'])
        if rc and not os.path.exists(VFY):
            print('cannot build the engine\n' + e[-3000:])
            sys.exit(2)
        os.utime(VFY)


class Unit:
    """one contract file"""
    def __init__(self, path, work, tier):
        self.path, self.name, self.tier = path, os.path.basename(path)[:-4], tier
        self.bc, self.exe = f'{work}/{self.name}.bc', f'{work}/{self.name}.exe'
        self.d = {}
        for l in open(path):
            m = re.match(r'//@ ([\w-]+): ?(.*)', l)
            if m:
                self.d.setdefault(m[1], []).append(m[2].strip())
        self.entries, self.errors = [], []

    def flags(self):
        f = sum((x.split() for x in self.d.get('cxxflags', [])), [])
        if self.tier == 'thorough':
            f.append('-DVF_THOROUGH')
        return f

    def build_bc(self):
        rc, o, e = sh(CLANG + [self.path, '-o', self.bc] + self.flags())
        if rc:
            self.errors.append('clang: ' + e[:4000])
            return
        stubs = sum((x.split() for x in self.d.get('stubs', [])), [])
        if stubs:
            parts = [self.bc]
            for s in stubs:
                b = self.bc[:-3] + '.' + s + '.bc'
                rc, o, e = sh(CLANG + [f'{HERE}/runtime/{s}', '-o', b] + self.flags())
                if rc:
                    self.errors.append('clang: ' + e[:4000])
                    return
                parts.append(b)
            out = self.bc[:-3] + '.linked.bc'
            rc, o, e = sh(['/usr/lib/llvm-18/bin/llvm-link', '-o', out] + parts)
            if rc:
                self.errors.append('llvm-link: ' + e[:4000])
                return
            self.bc = out
        rc, o, e = sh([VFY, self.bc, '--list'])
        self.entries = [x[4:] for x in o.split()]
        only = self.d.get('thorough-only', [])
        if self.tier == 'quick':
            self.entries = [x for x in self.entries if not any(re.fullmatch(r, x) for r in only)]

    def build_native(self):
        if 'no-native' in self.d:
            self.exe = None
            return
        nf = sum((x.split() for x in self.d.get('native-flags', [])), [])
        srcs = [self.path, f'{HERE}/runtime/native.cpp'] + [f'{HERE}/runtime/{s}' for x in self.d.get('native-stubs', []) for s in x.split()]
        rc, o, e = sh(GPP + srcs + ['-o', self.exe] + self.flags() + nf)
        if rc:
            self.errors.append('g++: ' + e[:4000])
            self.exe = None

    def opts(self, entry):
        r = []
        for x in self.d.get('engine', []):
            pat, o = x.split(':', 1)
            if re.fullmatch(pat.strip(), entry):
                r += o.split()
        return r

    def bounded(self, entry):
        if entry.startswith('bounded_'):
            for x in self.d.get('bounded', []):
                pat, o = x.split(':', 1)
                if re.fullmatch(pat.strip(), entry):
                    return o.strip()
            return 'bounded: see the harness'
        return None


def replay(u, entry, tape):
    if not u.exe:
        return None
    rc, o, e = sh([u.exe, 'replay', entry] + [t[2] for t in tape], timeout=60, env=ENV)
    if rc == 0:
        return None
    return (o + '\n' + e)[:6000]


def random_run(u, secs, seed, entry=None):
    if not u.exe:
        return 0, [], 'no native build'
    rc, o, e = sh([u.exe, 'random', str(secs), str(seed)] + ([entry] if entry else []), timeout=secs * 3 + 120, env=ENV)
    fails = []
    n = 0
    for l in o.splitlines():
        if l.startswith('FAIL '):
            try:
                fails.append(json.loads(l[5:], strict=False))
            except ValueError:
                fails.append({'entry': entry or '?', 'reason': l, 'tape': []})
        m = re.match(r'RAN (\d+) iterations, (\d+)', l)
        if m:
            n = int(m[1]) - 0
    return n, fails, e[:3000]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ensure_engine()
    thorough = tier == 'thorough'
    work = tempfile.mkdtemp(prefix=f'vf_{pid}_')
    try:
        code = run(pid, tier, seed, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def does_not_compile(pid, tier, seed, broken, t0):
    """the contracts do not type-check against the current headers: no obligation is discharged"""
    rd = f'{HERE}/evidence/replay/{pid}'
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd)
    rp = f'{rd}/0.json'
    json.dump({'property': pid, 'obligation': 'the contracts compile against the current headers', 'kind': 'compile', 'output': broken}, open(rp, 'w'), indent=1)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {'obligations': 1, 'discharged': 0, 'checker_cmd': f'python3 {HERE}/check.py {pid} --tier {tier}', 'trusted_base': ['clang 18.1.3 front end'],
               'undischarged': [{'obligation': 'the contracts compile against the current headers', 'why': broken[0][:1000]}]}, 'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    print('the contracts do not compile against the current headers:\n' + '\n'.join(broken))
    print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    return 1


def run(pid, tier, seed, thorough, work, t0):
    units = [Unit(p, work, tier) for p in sorted(glob.glob(f'{HERE}/contracts/{pid}_*.cpp'))]
    pool = cf.ThreadPoolExecutor(max_workers=8)
    engine_limit = 600 if thorough else 250
    futs = {}
    native_f = {u: pool.submit(u.build_native) for u in units}
    for f in [pool.submit(u.build_bc) for u in units]:
        f.result()
    broken = [x for u in units for x in u.errors]
    if broken:
        for f in native_f.values():
            f.result()
        return does_not_compile(pid, tier, seed, broken, t0)

    # what is still running at the deadline is abandoned (and reported as such, not as a violation)
    deadline = t0 + (float(os.environ.get('VERIF_DEADLINE', 3600)) if thorough else 600)

    def prove(u, entry, more=1):
        lim = max(1, min(engine_limit * more, deadline - time.time()))
        out = f'{work}/{u.name}.{entry}.json'
        rc, o, e = sh([VFY, u.bc, '--entry', 'vfh_' + entry, '--out', out, '--time', str(lim)] + u.opts(entry) + (['--query-ms', '60000'] if more > 1 else []), timeout=lim + 40)
        try:
            return json.load(open(out), strict=False)
        except Exception:
            return {'obligations': [], 'total': 0, 'discharged': 0, 'refuted': 0, 'undecided': 0, 'complete': False, 'unsupported': [f'prover ended with {rc}: ' + (e or '')[-300:]],
                    'functions': {}, 'paths': 0, 'steps': 0, 'queries': 0, 'solver_s': 0, 'wall_s': lim if rc == 124 else 0, 'covers': {}, 'path_ends': {}, 'timed_out': rc == 124}
    for u in units:
        for e in u.entries:
            futs[(u, e)] = pool.submit(prove, u, e)
    for f in native_f.values():
        f.result()
    broken = [x for u in units for x in u.errors]
    if broken:
        for f in futs.values():
            f.cancel()
        return does_not_compile(pid, tier, seed, broken, t0)
    nsecs = float(os.environ.get('VERIF_NATIVE_SECS', 60 if thorough else 4))
    rnd = {u: pool.submit(random_run, u, nsecs, seed) for u in units if u.exe and 'no-random' not in u.d}

    violations, notes = [], []
    known = []
    kf = f'{HERE}/known_findings.json'
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid and k.get('status') == 'known']
    nobl = ndis = 0
    bobl = bdis = 0
    solver_s = 0.0
    slow = (0, '')
    queries = vcs = steps = paths = 0
    by_simpl = by_z3 = 0
    fns, undis, bounded, kinds = {}, [], [], {}
    samples = []
    results = {k: f.result() for k, f in futs.items()}
    again = [k for k, r in results.items() if (not r['complete'] or r['undecided']) and not r['refuted']]
    firm = set()  # given up on after a first attempt in full and a longer second one
    if again and not any(r['refuted'] for r in results.values()) and not any(f.result()[1] for f in rnd.values()):
        for k, f in [(k, pool.submit(prove, k[0], k[1], 2)) for k in again if time.time() < deadline]:
            r = f.result()
            if results[k]['wall_s'] >= 0.95 * engine_limit and r['wall_s'] >= 1.2 * results[k]['wall_s']:
                firm.add(k)
            if r['complete'] >= results[k]['complete'] and r['undecided'] <= results[k]['undecided'] or r['refuted']:
                results[k] = r
    second = []
    for (u, entry), r in results.items():
        bd = u.bounded(entry)
        slow = max(slow, (round(r.get('max_query_s', 0), 2), entry))
        solver_s += r['solver_s']; queries += r['queries']; steps += r['steps']; paths += r['paths']
        for fl, fs in r['functions'].items():
            fl = os.path.relpath(fl, REPO) if fl.startswith(REPO) else fl
            fns.setdefault(fl, set()).update(fs)
        if bd:
            bobl += r['total']; bdis += r['discharged']
            bounded.append({'harness': entry, 'bound': bd, 'obligations': r['total'], 'discharged': r['discharged']})
        elif not r['complete']:
            # an exploration that did not finish discharges nothing
            nobl += max(r['total'], 1)
        else:
            nobl += r['total']; ndis += r['discharged']
        for o in r['obligations']:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            vcs += o['vcs']; by_simpl += o['by_simplification']; by_z3 += o['by_z3']
            if o['kind'] == 'ensures' and o['status'] == 'discharged' and len(samples) < 12 and (not samples or samples[-1]['obligation'] != o['name']):
                samples.append({'harness': entry, 'obligation': o['name'], 'at': o['loc'], 'vcs': o['vcs']})
            if o['status'] == 'undecided':
                undis.append({'harness': entry, 'obligation': o['name'], 'why': 'solver gave up'})
            if o['status'] == 'refuted':
                v = {'harness': entry, 'unit': u, 'obligation': o['name'], 'kind': o['kind'], 'loc': o['loc'], 'function': o['function'], 'trace': o.get('trace', []), 'tape': None, 'native': None, 'tapes': o.get('tapes', [])}
                for tp in o.get('tapes', []):
                    out = replay(u, entry, tp)
                    if out:
                        v['tape'], v['native'] = tp, out
                        break
                violations.append(v)
        if not r['complete']:
            undis.append({'harness': entry, 'obligation': '(exploration incomplete)', 'why': '; '.join(r['unsupported'])[:600] or 'time limit'})
        if not r['refuted'] and (not r['complete'] or r['undecided']) and (time.time() < deadline or (u, entry) in firm):
            second.append((u, entry, undis[-1]))
        if r['complete'] and not r['refuted'] and (r['paths'] == 0 or r['total'] == 0) and not r['undecided']:
            violations.append({'harness': entry, 'unit': u, 'obligation': 'the precondition is satisfiable (vacuity)', 'kind': 'vacuity', 'loc': '', 'function': '', 'trace': [], 'tape': None, 'native': None, 'tapes': []})
        for c in u.d.get('covers', []):
            pat, names = c.split(':', 1)
            if re.fullmatch(pat.strip(), entry) and r['complete'] and not r['refuted']:
                for nme in names.split(','):
                    if not r['covers'].get(nme.strip()):
                        violations.append({'harness': entry, 'unit': u, 'obligation': f'cover "{nme.strip()}" is reachable', 'kind': 'vacuity', 'loc': '', 'function': '', 'trace': [], 'tape': None, 'native': None, 'tapes': []})
    # an obligation that is not discharged is a violation, after a second and longer attempt (below), unless time ran out
    for (u, entry, o) in second:
        violations.append({'harness': entry, 'unit': u, 'obligation': o['obligation'], 'kind': 'undischarged', 'loc': o['why'], 'function': '', 'trace': [], 'tape': None, 'native': None, 'tapes': []})
    iters = 0
    for u, f in rnd.items():
        n, fails, err = f.result()
        iters += n
        for x in fails:
            violations.append({'harness': x['entry'], 'unit': u, 'obligation': x['reason'], 'kind': 'native', 'loc': '', 'function': '', 'trace': [], 'tape': x['tape'], 'native': x['reason'] + '\n' + err, 'tapes': []})
    # refuted obligations without a concrete failure: search natively for one
    for v in violations:
        if time.time() < deadline + 150 and v['native'] is None and v['kind'] != 'vacuity' and v['unit'].exe and not any(w['native'] and w['harness'] == v['harness'] for w in violations):
            n, fails, err = random_run(v['unit'], 5, seed + 7, v['harness'])
            iters += n
            if fails:
                v['tape'], v['native'] = fails[0]['tape'], fails[0]['reason'] + '\n' + err
    shutil.rmtree(f'{HERE}/evidence/replay/{pid}', ignore_errors=True)
    lines, seen, nviol, kprinted = [], set(), 0, set()
    violations.sort(key=lambda v: v['native'] is None)
    for v in violations:
        kn = next((k for k in known if re.fullmatch(k['harness'], v['harness']) and re.search(k['obligation'], v['obligation'])), None)
        if kn:
            if kn['id'] not in kprinted:
                kprinted.add(kn['id'])
                print(f"KNOWN-FINDING: property={pid} {kn['what']}")
            continue
        nviol += 1
        if (v['harness'],) in seen or len(lines) >= 5:
            continue
        seen.add((v['harness'],))
        os.makedirs(f'{HERE}/evidence/replay/{pid}', exist_ok=True)
        rp = f"{HERE}/evidence/replay/{pid}/{len(lines)}.json"
        json.dump({'property': pid, 'contract': v['unit'].name, 'harness': v['harness'], 'obligation': v['obligation'], 'kind': v['kind'], 'at': v['loc'], 'function': v['function'], 'trace': v['trace'],
                   'input': v['tape'] or (v['tapes'][0] if v['tapes'] else None), 'native_output': v['native'],
                   'replay': f"python3 {HERE}/replay.py {rp}"}, open(rp, 'w'), indent=1)
        print(f"  {v['harness']}: {v['kind']}: {v['obligation']}  at {v['loc']}  {v['function'][:160]}")
        if v['native']:
            print('    native: ' + v['native'].strip().splitlines()[0][:300])
        lines.append(f"VIOLATION property={pid} replay={rp}" + ('' if v['native'] else ' no-failing-input-found'))
    for l in lines:
        print(l)
    assumptions = sum((u.d.get('assume', []) for u in units), [])
    trusted = ['clang 18.1.3 front end (C++ to LLVM IR at -O0) against libstdc++ 14; the proof is of that IR', 'the VC generator engine/vfy.cpp (memory model, exception model, IR semantics)', 'z3 5.3 (discharges the obligations)',
               'engine built-ins: operator new/delete, malloc/free, memcpy/memmove/memset/memcmp, C++ exception ABI, std::__throw_*, members of std exception classes (no-ops)'] + sum((u.d.get('trusted', []) for u in units), [])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {
        'obligations': nobl, 'discharged': ndis, 'checker_cmd': f'python3 {HERE}/check.py {pid} --tier {tier}  (prover: {VFY} CONTRACT.bc --entry vfh_HARNESS)', 'trusted_base': trusted,
        'harnesses': sum(len(u.entries) for u in units), 'functions_under_contract': sum(len(x) for x in fns.values()), 'functions': {k: sorted(v)[:60] for k, v in sorted(fns.items())},
        'obligation_kinds': kinds, 'verification_conditions': vcs, 'vcs_by_simplification': by_simpl, 'vcs_by_z3': by_z3, 'solver_queries': queries, 'solver_s': round(solver_s, 2), 'slowest_query_s': slow[0], 'slowest_query_in': slow[1], 'slowest_harnesses_s': {k[1]: round(r['wall_s'], 1) for k, r in sorted(results.items(), key=lambda x: -x[1].get('wall_s', 0))[:12] if r.get('wall_s', 0) >= 1}, 'paths': paths, 'ir_steps': steps,
        'undischarged': undis, 'bounded_standins': bounded, 'bounded_obligations': bobl, 'bounded_discharged': bdis, 'evaluations': iters, 'rule': 'evaluations: native executions of the same harnesses on random inputs with ASan+UBSan (supporting evidence only, never counted as proof)', 'samples': samples},
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid} {tier}: {ndis}/{nobl} obligations discharged" + (f" (+{bdis}/{bobl} bounded)" if bobl else '') + f", {len(undis)} undischarged notes, {iters} native executions, {time.time() - t0:.1f} s")
    for x in undis[:6]:
        print('  undischarged:', x['harness'], x['obligation'], x['why'][:300])
    if nobl + bobl == 0:
        print('no obligations were generated')
        return 2
    return 1 if nviol else 0


main()
