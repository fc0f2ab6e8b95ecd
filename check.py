#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code (see DESIGN.md).

usage: check.py ID                 run the check of property ID (tier from VERIF_TIER, default quick)
       check.py --dev HARNESS ...  run one harness: check.py --dev map.cpp -p 1 -p 2 [-D X] [-s file.cpp] [--time N]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
BUILD = os.path.join(V, 'build')
NCPU = os.cpu_count() or 4

BASE = ['-std=c++11', '-DHAVE_CONFIG_H=1', '-DCACHELOT_PLATFORM_BITS=64', '-DBOOST_ALL_NO_LIB',
        '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/src', '-I' + REPO, '-I' + V + '/rt/fallback', '-w', '-U_FORTIFY_SOURCE', '-g']
IRFLAGS = ['-O2', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c']
WRAP = ['-Wl,--wrap=malloc,--wrap=realloc,--wrap=aligned_alloc']


class J:
    """one harness build + list of parameter vectors; every vector is one engine run"""
    def __init__(self, harness, params=None, defs=(), srcs=(), debug=False, time=200, steps=3000000, samples=8, incs=(), qto=60000, cover=(), native=True, noexc=False):
        self.harness, self.params, self.defs, self.srcs = harness, params or [[]], list(defs), list(srcs)
        self.debug, self.time, self.steps, self.samples, self.incs, self.qto, self.cover, self.native = debug, time, steps, samples, list(incs), qto, list(cover), native

    def key(self):
        return hashlib.sha1(repr((self.harness, self.defs, self.srcs, self.debug, self.incs)).encode()).hexdigest()[:12]

    def cflags(self):
        return ['-I' + os.path.join(V, i) for i in self.incs] + BASE + (['-DDEBUG'] if self.debug else ['-DNDEBUG']) + ['-D' + d for d in self.defs]


procs = set()
plock = threading.Lock()
stop = threading.Event()


def run(cmd, timeout=None, **kw):
    if stop.is_set():
        return None, '', 'stopped'
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, **kw)
    with plock:
        procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e
    finally:
        with plock:
            procs.discard(p)
    return p.returncode, o, e


def killall():
    stop.set()
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def ensure_engine():
    h = hashlib.sha1()
    for f in sorted(os.listdir(V + '/engine')):
        h.update(open(os.path.join(V, 'engine', f), 'rb').read())
    stamp = os.path.join(BUILD, 'stamp')
    if os.path.exists(BUILD + '/symex') and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['bash', V + '/engine/build.sh', BUILD], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout, r.stderr)
        raise SystemExit(3)
    open(stamp, 'w').write(h.hexdigest())


class BuildError(Exception):
    pass


def must(cmd, what):
    rc, o, e = run(cmd, timeout=400)
    if rc != 0:
        raise BuildError(what + '\n' + ' '.join(cmd) + '\n' + (e or '')[-4000:])


class Builder:
    def __init__(self, tmp):
        self.tmp, self.lock, self.fut = tmp, threading.Lock(), {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def once(self, key, fn):
        with self.lock:
            if key not in self.fut:
                self.fut[key] = self.pool.submit(fn)
        return self.fut[key]

    def rt(self, name):
        out = f'{self.tmp}/{name}.bc'
        src = f'{V}/rt/{name}'
        if name.endswith('.c'):
            cmd = ['clang', '-O1', '-fno-builtin', '-w', '-emit-llvm', '-c', src, '-o', out]
        else:
            cmd = ['clang++'] + BASE + ['-DNDEBUG'] + IRFLAGS + [src, '-o', out]
        return self.once('rt' + name, lambda: (must(cmd, 'runtime ' + name), out)[1])

    def ir(self, j):
        parts = [self.rt('common.cpp'), self.rt('engine_rt.cpp'), self.rt('engine_libc.c')]
        def comp(src, tag):
            out = f'{self.tmp}/{j.key()}-{tag}.bc'
            return self.once(out, lambda: (must(['clang++'] + j.cflags() + IRFLAGS + [src, '-o', out], 'IR of ' + src), out)[1])
        parts.append(comp(f'{V}/harness/{j.harness}', 'h'))
        for i, s in enumerate(j.srcs):
            parts.append(comp(f'{REPO}/{s}', f's{i}'))
        out = f'{self.tmp}/{j.key()}.bc'
        files = [p.result() for p in parts]
        f = self.once(out + 'link', lambda: (must(['llvm-link-18'] + files + ['-o', out], 'llvm-link'), out)[1])
        return f

    def native(self, j, san):
        out = f'{self.tmp}/{j.key()}-{san or "plain"}'
        fl = j.cflags() + WRAP
        fl += ['-O1', '-fno-omit-frame-pointer', '-fsanitize=' + san, '-fno-sanitize-recover=all'] if san else ['-O2']
        srcs = [f'{V}/harness/{j.harness}', f'{V}/rt/common.cpp', f'{V}/rt/native.cpp'] + [f'{REPO}/{s}' for s in j.srcs]
        return self.once(out, lambda: (must(['clang++'] + fl + srcs + ['-o', out], 'native build'), out)[1])


def replay(exe, traces, noobs, fill=None, timeout=20):
    """-> list of (status, detail)"""
    f = tempfile.NamedTemporaryFile('w', suffix='.txt', delete=False, dir=os.path.dirname(exe))
    for t in traces:
        f.write('T\n' + '\n'.join(t) + '\n')
    f.close()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
    if fill is not None:
        env['VS_FILL'] = str(fill)
    rc, o, e = run([exe, f.name] + (['--noobs', str(timeout)] if noobs else ['--obs', str(timeout)]), timeout=60 + timeout * len(traces), env=env)
    os.unlink(f.name)
    res = {}
    for l in (o or '').splitlines():
        w = l.split(None, 3)
        if len(w) >= 3 and w[0] == 'R':
            res[int(w[1])] = (w[2], w[3] if len(w) > 3 else '')
    return [res.get(i, ('lost', '')) for i in range(len(traces))], (e or '')


def engine(bc, j, params, out, tmax, seed, samples):
    cmd = [BUILD + '/symex', '--bc', bc, '--name', j.harness + ':' + ','.join(map(str, params)), '--max-time', str(int(tmax)), '--max-steps', str(j.steps),
           '--samples', str(samples), '--seed', str(seed), '--qtimeout', str(j.qto), '--out', out, '--src', REPO + '/', '--max-mem', str(int(24000 / NCPU))]
    for p in params:
        cmd += ['--param', str(p)]
    rc, o, e = run(cmd, timeout=tmax + 120)
    if rc != 0 or not os.path.exists(out):
        return dict(error=f'engine ended with {rc}', stderr=(e or '')[-2000:])
    return json.load(open(out))


def confirm(b, j, v):
    """replay an engine counterexample against the real code -> (confirmed, description)"""
    tries = []
    for san in (None, 'address,undefined'):
        try:
            exe = b.native(j, san).result()
        except BuildError as x:
            tries.append('native build failed: ' + str(x)[:300])
            continue
        for fill in ([None, 0, 255, 165] if san is None else [None]):
            (r,), err = replay(exe, [v['record']], True, fill)
            tries.append(f'{san or "plain"}{"" if fill is None else " fill=%d" % fill}: {r[0]} {r[1]}'.strip())
            if r[0] in ('assert', 'crash', 'timeout'):
                det = r[0] + ' ' + r[1]
                if r[0] == 'crash' and err:
                    det += ' | ' + ' '.join(l.strip() for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l)[:300]
                return True, f'{san or "plain build"}: {det}', tries
    return False, '', tries


def known_findings(pid):
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('open: ') and f'property={pid} ' in l:
                # open: property=ID harness=H params=P match=<substring of the failing assertion> :: description
                head, _, desc = l.partition(' :: ')
                kv = dict(x.split('=', 1) for x in head[6:].split(' ') if '=' in x)
                kv['desc'] = desc
                out.append(kv)
    return out


def check(pid):
    import specs
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sp = specs.PROPS[pid]
    jobs = list(sp['quick'])
    if tier == 'thorough':
        jobs = list(sp.get('thorough', sp['quick']))
    total = 600 if tier == 'quick' else 6 * 3600
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    evf = f'{V}/evidence/{pid}.json'
    if os.path.exists(evf):
        os.unlink(evf)
    ensure_engine()
    tmp = tempfile.mkdtemp(prefix=f'vs-{pid}-')
    b = Builder(tmp)
    kf = known_findings(pid)
    res, viols, notes, knowns = [], [], [], []
    lock = threading.Lock()
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            # compile everything in parallel
            bcs = {}
            def prep(j):
                return b.ir(j).result()
            fs = {j.key(): None for j in jobs}
            uniq = {}
            for j in jobs:
                uniq.setdefault(j.key(), j)
            pre = cf.ThreadPoolExecutor(NCPU)
            irf = {k: pre.submit(prep, j) for k, j in uniq.items()}
            natf = {k: b.native(j, None) for k, j in uniq.items() if j.native}
            def one(j, params, idx):
                bc = irf[j.key()].result()
                left = total - (time.time() - t0)
                if left < 5 or stop.is_set():
                    return dict(name=j.harness, params=params, error='not run: time budget of the check exhausted')
                mul = 1 if tier == 'quick' else 20
                r = engine(bc, j, params, f'{tmp}/r{idx}.json', min(j.time * mul, left), seed + idx, j.samples)
                r['job'] = idx
                for v in r.get('violations', []):
                    ok, how, tries = confirm(b, j, v)
                    v['tries'] = tries
                    if ok:
                        k = next((x for x in kf if x.get('harness') == j.harness and x.get('match', '\0').replace('_', ' ') in v['msg']), None)
                        with lock:
                            if k:
                                knowns.append(k['desc'])
                            else:
                                v['how'] = how
                                viols.append((j, params, v))
                        if not k:
                            killall_soon()
                    elif not stop.is_set():
                        with lock:
                            notes.append(f'counterexample not reproduced by the real code ({j.harness} {params}): {v["kind"]}: {v["msg"]} at {v["loc"]}; tried {tries}')
                # translation validation of the engine: sampled paths against the native build
                r['validated'] = r['mismatch'] = 0
                if r.get('samples') and j.native and not stop.is_set():
                    exe = natf[j.key()].result()
                    rs, err = replay(exe, r['samples'], False)
                    for tr, (st, d) in zip(r['samples'], rs):
                        if st == 'ok':
                            r['validated'] += 1
                        elif stop.is_set():
                            pass
                        elif st in ('assert', 'crash', 'timeout'):
                            (r2,), e2 = replay(exe, [tr], True)
                            if r2[0] == st:
                                with lock:
                                    viols.append((j, params, dict(kind=st, msg='the real code fails on a path on which the encoding does not: ' + d, loc='', stack='', record=[x for x in tr if x[0] != 'O'], how='plain build: ' + st + ' ' + d)))
                        else:
                            r['mismatch'] += 1
                            with lock:
                                notes.append(f'engine/native mismatch ({j.harness} {params}): {st} {d}')
                return r
            work, idx = [], 0
            for j in jobs:
                for p in j.params:
                    work.append((j, p, idx)); idx += 1
            futs = [pool.submit(one, *w) for w in work]
            for w, f in zip(work, futs):
                try:
                    r = f.result()
                except BuildError as x:
                    if stop.is_set():
                        continue
                    r = dict(name=w[0].harness, params=w[1], error='build: ' + str(x)[:1500])
                res.append(r)
                if r.get('error') and not stop.is_set():
                    notes.append(f'{w[0].harness} {w[1]}: {r["error"]} {r.get("stderr", "")}')
        return finish(pid, sp, tier, seed, t0, jobs, work, res, viols, notes, knowns, evf)
    finally:
        killall()
        shutil.rmtree(tmp, ignore_errors=True)


def killall_soon():
    # a confirmed violation decides the check: do not wait for the other runs
    threading.Thread(target=killall, daemon=True).start()


def finish(pid, sp, tier, seed, t0, jobs, work, res, viols, notes, knowns, evf):
    S = lambda k: sum(r.get(k, 0) for r in res)
    good = [r for r in res if not r.get('error')]
    inc = {}
    for r in good:
        for m in ('incomplete', 'unsupported'):
            for k, v in r.get(m, {}).items():
                inc[m + ': ' + k] = inc.get(m + ': ' + k, 0) + v
    fns = sorted({f for r in good for f in r.get('functions', [])})
    cover = {}
    for r in good:
        for k, v in r.get('cover', {}).items():
            cover[k] = cover.get(k, 0) + v
    missing = sorted({c for j in jobs for c in j.cover} - set(cover))
    if missing and not viols:
        notes.append('cover labels not reached (assertions may be vacuous): ' + ', '.join(missing))
    exhaustive = not inc and not notes and len(good) == len(work) and not viols
    samples = []
    for r in good:
        for s in r.get('samples', [])[:1]:
            samples.append(dict(harness=r['name'], trace=s[:40]))
    replays = []
    seen = set()
    for n, (j, params, v) in enumerate(viols):
        k = (j.harness, v['msg'], v['loc'])
        if k in seen:
            continue
        seen.add(k)
        path = f'evidence/replay/{pid}-{len(replays)}.txt'
        with open(os.path.join(V, path), 'w') as f:
            f.write(f'# property {pid}: {v["kind"]}: {v["msg"]}\n# at {v["loc"]}\n# stack {v["stack"]}\n# reproduced on the real code: {v["how"]}\n')
            f.write(f'# replay: {V}/check.py --replay {path}\n#J {json.dumps(dict(harness=j.harness, defs=j.defs, srcs=j.srcs, debug=j.debug, incs=j.incs))}\n')
            f.write('\n'.join(v['record']) + '\n')
        replays.append((path, v, j))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(replays),
              coverage=dict(states=S('paths'), transitions=S('forks'), traces_validated_against_impl=S('validated'), samples=samples[:12], exhaustive=exhaustive,
                            run_list=[[r.get('name', ''), r.get('params'), r.get('paths', 0), round(r.get('wall', 0), 1), 'incomplete' if r.get('incomplete') else (r.get('error') or 'complete')] for r in res], runs=len(res), runs_completed=len(good), instructions_executed_symbolically=S('instructions'), assertions_decided=S('assertions'), assertions_over_symbolic_values=S('assertions_symbolic'),
                            paths_excluded_by_assumptions=S('assumed_away'), queries=S('queries'), queries_answered_by_cached_model=S('model_hits'), queries_answered_by_cache=S('cache_hits'),
                            z3_calls=S('z3_calls'), z3_sat=S('z3_sat'), z3_unsat=S('z3_unsat'), z3_unknown=S('z3_unknown'), solver_time_s=round(S('z3_time'), 3),
                            max_single_query_s=max([r.get('z3_max_time', 0) for r in good] or [0]), functions_encoded=fns, cover=cover, bounds=sp.get('bounds', ''), outside_bounds=sp.get('outside', ''),
                            incomplete=inc, notes=notes, engine_native_mismatches=S('mismatch')),
              assumptions=sp.get('assumptions', []) + specs_common())
    json.dump(ev, open(evf, 'w'), indent=1)
    for k in sorted(set(knowns)):
        print(f'KNOWN-FINDING: property={pid} {k}')
    for path, v, j in replays:
        print(f'  {j.harness}: {v["kind"]}: {v["msg"]}\n    at {v["loc"]}\n    real code: {v["how"]}')
        print(f'VIOLATION property={pid} replay={path}')
    for n in notes:
        print('NOTE ' + n[:1500])
    for k, v in inc.items():
        print(f'INCOMPLETE {k} x{v}')
    print(f'{pid} {tier}: {S("paths")} paths, {S("forks")} forks, {S("assertions")} assertions ({S("assertions_symbolic")} symbolic), {S("queries")} queries, {S("z3_calls")} z3 calls, {S("z3_time"):.1f}s solver, {S("validated")} traces validated natively, {len(fns)} functions, exhaustive={exhaustive}, {time.time() - t0:.1f}s')
    sys.stdout.flush()
    return 1 if replays else 0


def specs_common():
    import specs
    return specs.COMMON_ASSUMPTIONS


def dev(a):
    ensure_engine()
    j = J(a.harness, defs=a.D, srcs=a.s, debug=a.debug, time=a.time, incs=a.I, steps=a.steps)
    tmp = tempfile.mkdtemp(prefix='vs-dev-')
    b = Builder(tmp)
    try:
        bc = b.ir(j).result()
        nf = b.native(j, None)
        cmd = [BUILD + '/symex', '--bc', bc, '--max-time', str(a.time), '--max-steps', str(j.steps), '--samples', '40', '--out', tmp + '/r.json', '--src', REPO + '/', '--trace-forks', '--max-viol', str(a.viol)]
        for p in a.p:
            cmd += ['--param', str(p)]
        subprocess.run(cmd)
        r = json.load(open(tmp + '/r.json'))
        for v in r['violations']:
            ok, how, tries = confirm(b, j, v)
            print('VIOL', v['kind'], v['msg'], '\n  at', v['loc'], '\n  ', 'CONFIRMED ' + how if ok else 'NOT REPRODUCED %s' % tries)
            if a.v:
                print('\n'.join(v['record']))
        rs, err = replay(nf.result(), r['samples'], False)
        bad = [x for x in rs if x[0] != 'ok']
        print('validated', len(rs) - len(bad), 'bad', bad[:5], err[-500:] if bad else '')
        fns = r.pop('functions'); r.pop('samples'); r.pop('violations')
        if a.f:
            print('\n'.join(fns))
        print(json.dumps(r))
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print(tmp)


def replay_cmd(path):
    lines = [l.rstrip('\n') for l in open(path)]
    meta = json.loads(next(l for l in lines if l.startswith('#J '))[3:])
    j = J(meta['harness'], defs=meta['defs'], srcs=meta['srcs'], debug=meta['debug'], incs=meta['incs'])
    tmp = tempfile.mkdtemp(prefix='vs-replay-')
    b = Builder(tmp)
    try:
        v = dict(record=[l for l in lines if l and not l.startswith('#')])
        ok, how, tries = confirm(b, j, v)
        print('reproduced: ' + how if ok else 'not reproduced')
        print('\n'.join(tries))
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--dev', dest='harness')
    ap.add_argument('--replay')
    ap.add_argument('-p', action='append', default=[])
    ap.add_argument('-D', action='append', default=[])
    ap.add_argument('-s', action='append', default=[])
    ap.add_argument('-I', action='append', default=[])
    ap.add_argument('--runs', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-f', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--time', type=int, default=60)
    ap.add_argument('--steps', type=int, default=3000000)
    ap.add_argument('--viol', type=int, default=3)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_cmd(a.replay))
    if a.harness:
        dev(a)
        sys.exit(0)
    rc = check(a.id)
    if a.runs:
        for r in json.load(open(f'{V}/evidence/{a.id}.json'))['coverage']['run_list']:
            print(r)
    sys.stdout.flush()
    os._exit(rc)
