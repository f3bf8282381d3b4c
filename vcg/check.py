#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]  -- decide one property on /repo's current tree."""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, hashlib, traceback
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


# arrays in whose values equations of a harness with OPTION("linear") are compared coefficient by coefficient
LINEAR = ('GX', 'D11', 'D22', 'D33', 'D12', 'D13', 'D14', 'D21', 'D23', 'D24', 'D31', 'D32', 'D34')


# ---------------------------------------------------------------- symbolic side (worker process)
def prove_harness(job):
    spec, h, tmo, total = job
    import cast, execu, solver, terms, arrays
    t0 = time.time()
    res = {'harness': h, 'obs': [], 'error': None, 'funcs': {}, 'trusted': {}, 'assumes': [], 'loops': 0, 'notes': []}
    try:
        prog = cast.Program(spec, spec_defs())
        ex = execu.Exec(prog)
        st = ex.run(h)
        res['gen_s'] = round(time.time() - t0, 2)
        res['funcs'] = {k: os.path.basename(v) for k, v in ex.funcs_seen.items()}
        res['trusted'] = ex.trusted
        res['assumes'] = ex.assumes
        res['loops'] = len(ex.loops_info)
        res['notes'] = ['%s:%s %s %s T=%s' % x for x in ex.loops_info]
        # vacuity: the path condition at the end of the harness must be satisfiable
        deadline = time.time() + total
        seen = {}
        reach = {}
        for ob in ex.obs:
            key = (ob.goal, frozenset(ob.hyps))
            if key in seen:
                o = dict(seen[key])
                o.update(name=ob.name, kind=ob.kind, where=ob.where, secs=0.0, dup=True)
                res['obs'].append(o)
                continue
            t1 = time.time()
            if t1 > deadline:
                o = {'status': 'unknown', 'backend': 'harness-budget'}
            else:
                try:
                    g0 = solver.decide_signs(list(ob.hyps), ob.goal) if 'signs' in ex.opts else ob.goal
                    gs = solver.linear_split(g0, LINEAR) if 'linear' in ex.opts else None
                    for g_ in gs or [g0]:
                        r = solver.prove(ob.hyps, g_, tmo)
                        if r.status != 'proved':
                            break
                    hs, g_ = list(ob.hyps), ob.goal
                    for _ in range(12):
                        if r.status == 'proved' or not arrays.DEFS or time.time() > deadline:
                            break
                        xs = arrays.expand_defs(hs + [g_], tuple(ob.hyps))
                        if xs is None:
                            break
                        hs, g_ = xs[:-1], xs[-1]
                        r = solver.prove(tuple(hs), g_, tmo)
                    o = {'status': r.status, 'backend': r.backend}
                    if r.status == 'refuted':
                        o['model'] = model_inputs(r, ex)
                        o['goal'] = terms.show(r.goal, 8)[:1500]
                    elif r.status == 'unknown' and r.goal is not None:
                        o['goal'] = terms.show(r.goal, 8)[:1500]
                except Exception as e:      # solver trouble: undecided, not a violation
                    o = {'status': 'unknown', 'backend': 'error:%s' % e}
            o.update(name=ob.name, kind=ob.kind, where=ob.where, secs=round(time.time() - t1, 3))
            seen[key] = o
            res['obs'].append(o)
        # reachability of the contract's checks (guards against contradictory preconditions)
        ens = [ob for ob in ex.obs if ob.kind == 'ensures']
        if ens:
            vac = 0
            pcs = {}
            for ob in ens:
                pcs.setdefault(ob.where + ob.name, ob)
            done = {}
            for ob in list(pcs.values())[:40]:
                hk = frozenset(ob.hyps)
                if hk not in done:
                    done[hk] = solver.check_sat(list(ob.hyps), 2.0)[0]
                if done[hk] == 'unsat':
                    vac += 1
            res['vacuous'] = vac
            res['ensures'] = len(ens)
        res['stats'] = dict(solver.STATS)
    except execu.Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Exception as e:
        res['error'] = 'internal: %s' % traceback.format_exc()[-1500:]
    res['wall'] = round(time.time() - t0, 2)
    return res


def model_inputs(r, ex):
    """values of the nondeterministic inputs in the counterexample (small model preferred)"""
    import z3, solver, terms
    conds = list(r.hyps) + [terms.not_(r.goal)]
    facts, seen = solver.closure(conds)
    facts, seen = solver.univ_inst(conds, facts, seen)
    m = r.model
    nds = [t for t in seen if t.op in ('f', 'v') and str(t.val).startswith('nd:')]
    extra = []
    for t in nds:
        if t.op == 'v' and t.sort == 'I':
            extra.append(terms.le(t, terms.I(9)))
            extra.append(terms.le(terms.I(-40), t))
        elif t.sort == 'R':
            extra.append(terms.le(t, terms.R(1000)))
            extra.append(terms.le(terms.R(-1000), t))
    strong = []
    g = r.goal
    if g.op == 'eq' and g.args[0].sort == 'R':
        d = terms.sub(g.args[0], g.args[1])
        strong = [terms.or_(terms.le(terms.R(terms.Fr(1, 10)), d), terms.le(d, terms.R(terms.Fr(-1, 10))))]
    elif g.op in ('le', 'lt') and g.args[0].sort == 'R':
        strong = [terms.le(terms.R(terms.Fr(1, 10)), terms.sub(g.args[0], g.args[1]))]
    for add_ in (extra + strong, extra, strong):
        if not add_:
            continue
        st, mm = solver.check_sat(conds + add_, 5.0, want_model=True)
        if st == 'sat':
            m = mm
            break
    if m is None:
        return None
    out = []

    def num(e):
        v = m.eval(e, model_completion=True)
        try:
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
        except Exception:
            pass
        return None
    for t in nds:
        args = [num(solver.z(a)) for a in t.args]
        v = num(solver.z(t))
        if v is None or any(a is None for a in args):
            continue
        args = (args + [0, 0])[:2] if len(args) <= 2 else None
        if args is None:
            continue
        out.append([t.val[3:], len(t.args), int(args[0]), int(args[1]), v])
    return out


def spec_defs():
    return ()


# ---------------------------------------------------------------- native side
CFLAGS = ['-O1', '-g', '-w', '-D_GNU_SOURCE', '-fsanitize=address', '-fno-omit-frame-pointer', '-Dexit=v_exit', '-Dprintf=v_printf', '-fno-sanitize-recover=address']


def sources():
    txt = open(REPO + '/MDLIB/CMakeLists.txt').read()
    return [REPO + '/MDLIB/' + f for f in re.findall(r'[\w./-]+\.c\b', txt) if os.path.exists(REPO + '/MDLIB/' + f)]


def build_native(spec, work):
    inc = ['-I%s/MDLIB' % REPO, '-I%s/MDLIB/include' % REPO, '-I/usr/include/suitesparse', '-I/usr/include/hdf5/serial', '-I' + VERIF + '/native', '-I' + work]
    from autofill import generate
    generate(work)
    jobs = [(s, os.path.join(work, os.path.basename(s) + '.o'), ['-include', VERIF + '/native/vredef.h']) for s in sources()]
    jobs.append((spec, os.path.join(work, 'spec.o'), []))
    jobs.append((VERIF + '/native/vrt.c', os.path.join(work, 'vrt.o'), []))

    def cc(j):
        s, o, extra = j
        r = subprocess.run(['/usr/bin/gcc', '-std=gnu11', '-c'] + CFLAGS + inc + extra + [s, '-o', o], capture_output=True, text=True)
        return (s, r.returncode, r.stderr[-2000:])
    with ThreadPoolExecutor(8) as tp:
        rs = list(tp.map(cc, jobs))
    bad = [r for r in rs if r[1]]
    if bad:
        return None, 'native build failed: %s' % bad[0][0] + bad[0][2]
    exe = os.path.join(work, 'native')
    r = subprocess.run(['/usr/bin/gcc', '-fsanitize=address', '-rdynamic', '-o', exe] + [j[1] for j in jobs] +
                       ['-L/usr/lib/x86_64-linux-gnu', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5', '-lcholmod', '-lcxsparse', '-lumfpack', '-lamd', '-lcolamd',
                        '-llapack', '-lblas', '-lm', '-ldl', '-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
    if r.returncode:
        return None, 'native link failed: ' + r.stderr[-2000:]
    return exe, None


def run_native(exe, work, h, seed, trials, secs, ovr=None, trace=False, tag=''):
    resf = os.path.join(work, 'res_%s_%s.txt' % (h, tag))
    cmd = [exe, h, str(seed), str(trials), str(secs), resf, ovr or '-'] + (['trace'] if trace else [])
    env = dict(os.environ)
    scratch = os.path.join(work, 'cwd_%s_%s' % (h, tag))
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=secs + 60, cwd=scratch, env=env)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, err = -99, 'timeout'
    txt = open(resf, errors='replace').read() if os.path.exists(resf) else ''
    fail = [l for l in txt.split('\n') if l.startswith('FAIL ')]
    done = [l for l in txt.split('\n') if l.startswith('DONE ')]
    trials_ = [l for l in txt.split('\n') if l.startswith('TRIAL ')]
    shutil.rmtree(scratch, ignore_errors=True)
    if fail:
        return {'status': 'fail', 'what': fail[0], 'seed': int(re.search(r'seed=(\d+)', fail[0]).group(1)), 'out': txt if trace else fail[0]}
    if done:
        return {'status': 'ok', 'what': done[0], 'out': txt if trace else ''}
    if rc == -99:
        return {'status': 'timeout', 'what': 'timeout'}
    if not trials_:
        return {'status': 'broken', 'what': 'no trial ran rc=%s %s %s' % (rc, txt[-300:], err[-500:])}
    m = re.search(r'ERROR: AddressSanitizer[^\n]*', err)
    loc = re.findall(r'#\d+ 0x\w+ in (\w+) ([^\n]*)', err)
    inrepo = [l for l in loc if '/MDLIB/' in l[1]]
    kind = 'crash'
    if not inrepo:
        kind = 'broken'      # crash without a repository frame: harness problem, not a finding
    return {'status': kind, 'what': 'FAIL %s seed=%s check=memory-safety %s in %s' % (h, trials_[-1].split()[1], m.group(0) if m else 'rc=%d' % rc, inrepo[:2]),
            'seed': int(trials_[-1].split()[1]), 'out': err[:4000]}


# ---------------------------------------------------------------- main
def load_known(pid):
    out = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'KNOWN-FINDING: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = '%s/spec/%s.c' % (VERIF, pid)
    txt = open(spec).read()
    hs = re.findall(r'^void\s+(H_\w+)\s*\(\s*void\s*\)', txt, re.M)
    native_only = set(re.findall(r'^void\s+(HN_\w+)\s*\(\s*void\s*\)', txt, re.M))
    if only:
        hs = [h for h in hs if only in h]
        native_only = {h for h in native_only if only in h}
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    rc = 1
    try:
        rc = decide(pid, tier, seed, spec, hs, sorted(native_only), work, t0, bool(only))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(r, verbose):
    print('--', r['harness'], r['error'], 'obs', len(r['obs']), 'wall', r['wall'], 'gen', r.get('gen_s'), 'vac', r.get('vacuous'), flush=True)
    if verbose == '2':
        for x in r['notes']:
            print('     loop', x)
    bad = [o for o in r['obs'] if o['status'] != 'proved']
    slow = [o for o in r['obs'] if o['secs'] > 1.0 and o['status'] == 'proved']
    for o in bad + slow[:8]:
        print('     ', o['status'], o['backend'], o['name'], o['where'], o['secs'])
        if o.get('goal') and verbose == '2':
            print('          goal', o['goal'][:700])
            print('          model', (o.get('model') or [])[:30])


def decide(pid, tier, seed, spec, hs, native_only, work, t0, partial):
    tmo, total = (10.0, 240.0) if tier == 'quick' else (40.0, 1200.0)
    nsecs = 6.0 if tier == 'quick' else 120.0
    verbose = os.environ.get('VERBOSE')
    from threading import Thread
    nb = {}

    known = load_known(pid)
    nat_res = {}

    def nat():
        nb['exe'], nb['err'] = build_native(spec, work)
        if nb['exe']:
            # native cross-check of every contract on the real code
            with ThreadPoolExecutor(8) as tp:
                futs = {h: tp.submit(run_native, nb['exe'], work, h, seed * 1000003, 200000, nsecs, None, False, 'rnd') for h in hs + native_only}
                for h, f in futs.items():
                    nat_res[h] = f.result()

    def failing():
        """a failing input is known that no listed finding explains"""
        ks = {k[0] for k in known}
        return any(r['status'] in ('fail', 'crash') and key_of(h, r['what']) not in ks for h, r in list(nat_res.items()))
    th = Thread(target=nat)
    th.start()
    os.environ['PYTHONHASHSEED'] = '0'      # workers: same set order, same verdict on every run
    ctx = mp.get_context('spawn')

    def prove_all(jobs, limit):
        """results in order of completion; a harness that exceeds the limit is reported as such"""
        out = []
        pool = ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1)
        try:
            todo = {j[1]: pool.apply_async(prove_harness, (j,)) for j in jobs}
            while todo:
                for h in [h for h, f in todo.items() if f.ready()]:
                    r = todo.pop(h).get()
                    out.append(r)
                    if verbose:
                        report(r, verbose)
                late = time.time() > limit or failing() and time.time() > min(limit, t0 + (200 if tier == 'quick' else 600))
                if late:
                    for h in todo:
                        out.append({'harness': h, 'obs': [], 'error': 'time limit of the check reached', 'funcs': {}, 'trusted': {}, 'assumes': [], 'loops': 0, 'notes': [], 'wall': 0, 'late': True})
                    break
                time.sleep(0.05)
        finally:
            pool.terminate()
            pool.join()
        return out
    results = prove_all([(spec, h, tmo, total) for h in hs], t0 + (520 if tier == 'quick' else 5000))
    th.join()
    exe = nb.get('exe')
    # one more, longer attempt for whatever was left undecided, unless a violation is known already
    again = [r['harness'] for r in results if r['error'] is None and any(o['status'] == 'unknown' for o in r['obs'])]
    refuted = any(o['status'] == 'refuted' for r in results for o in r['obs'])
    if again and not failing() and not refuted and time.time() - t0 < (330 if tier == 'quick' else 3000):
        end = t0 + (680 if tier == 'quick' else 7000)
        left = end - 80 - time.time()
        for r in prove_all([(spec, h, tmo * 3, max(60, left / max(1, -(-len(again) // 8)))) for h in again], end):
            old = [x for x in results if x['harness'] == r['harness']][0]
            if r['error'] is None and sum(o['status'] == 'unknown' for o in r['obs']) <= sum(o['status'] == 'unknown' for o in old['obs']):
                results.remove(old)
                results.append(r)
    violations = []      # (text, replayable, key)
    undecided = []
    bounded = []
    native_info = {}
    for h, r in nat_res.items():
        native_info[h] = r['what'] if r['status'] == 'ok' else r['status'] + ': ' + r['what'][:300]
        if r['status'] in ('fail', 'crash'):
            violations.append({'harness': h, 'what': r['what'], 'seed': r['seed'], 'ovr': None, 'out': r['out'], 'replayed': True, 'key': key_of(h, r['what'])})
    failed_native = {v['harness'] for v in violations}
    nobs = ndis = 0
    backends = {}
    solver_s = 0.0
    funcs = {}
    trusted = {}
    assumes = set()
    for r in results:
        for k, v in r['funcs'].items():
            funcs[k] = v
        for k, v in r['trusted'].items():
            trusted[k] = trusted.get(k, 0) + v
        assumes |= set(r['assumes'])
        und = []
        if r['error']:
            und.append('no obligations: ' + r['error'])
        else:
            if r.get('vacuous'):
                und.append('%d of the contract checks are vacuous' % r['vacuous'])
            if not r.get('ensures'):
                und.append('no postcondition obligations generated')
            und += ['%s at %s not discharged (%s); goal %s' % (o['name'], o['where'], o['backend'], o.get('goal', '')) for o in r['obs'] if o['status'] == 'unknown']
        undecided += ['%s: %s' % (r['harness'], x) for x in und]
        if und and r['harness'] not in failed_native and not failing() and not refuted:
            # the verifier no longer accepts the contract: look longer for a failing input, report either way
            v = {'harness': r['harness'], 'replayed': False, 'seed': None, 'ovr': None, 'out': '', 'obligations': und[:20], 'what': und[0],
                 'key': '%s/%s' % (r['harness'], 'undecided')}
            if exe:
                n = run_native(exe, work, r['harness'], seed * 15485863, 10 ** 7, 20.0 if tier == 'quick' else 120.0, None, False, 'deep')
                if n['status'] in ('fail', 'crash'):
                    v.update(replayed=True, seed=n['seed'], out=n['out'], what=n['what'], key=key_of(r['harness'], n['what']))
            violations.append(v)
        if r['error']:
            continue
        solver_s += r['stats']['z3_s'] + r['stats']['cvc5_s']
        refs = []
        for o in r['obs']:
            nobs += 1
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
            if o['status'] == 'proved':
                ndis += 1
            elif o['status'] == 'refuted':
                refs.append(o)
        if refs and r['harness'] not in failed_native:
            v = replay_refuted(exe, work, r['harness'], refs, seed, tier)
            violations.append(v)
        elif refs:
            for v in violations:
                if v['harness'] == r['harness']:
                    v.setdefault('obligations', []).extend('%s at %s refuted by %s' % (o['name'], o['where'], o['backend']) for o in refs[:10])
    # verdict
    rc = 0
    out_known = []
    rep_dir = VERIF + '/evidence/replay'
    nviol = 0
    for v in violations:
        kf = [k for k in known if k[0] == v['key']]
        if kf:
            out_known.append(kf[0])
            continue
        nviol += 1
        os.makedirs(rep_dir, exist_ok=True)
        rp = '%s/%s_%s.txt' % (rep_dir, pid, re.sub(r'\W+', '_', v['harness']))
        write_replay(rp, pid, spec, v)
        if rc == 0 or True:
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if v['replayed'] else ' no-failing-input-found'))
        rc = 1
    for k in sorted(set(out_known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    level = 'proof'
    if not exe:
        undecided.append(str(nb.get('err', 'native build unavailable'))[:300])
    if native_only and not exe and not nviol:
        print('check error: native build unavailable: %s' % nb.get('err'))
        rc = 2
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level if not undecided else 'other',
          'coverage': {'obligations': nobs, 'discharged': ndis,
                       'checker_cmd': 'python3-vt /verif/vcg/check.py %s %s' % (pid, tier),
                       'trusted_base': trusted_base(trusted),
                       'functions_under_contract': sorted('%s (%s)' % x for x in funcs.items()),
                       'harnesses': sorted(hs), 'back_ends': backends, 'solver_seconds': round(solver_s, 2),
                       'loops_summarised': sum(r.get('loops', 0) for r in results),
                       'bounded_stand_ins': {h: native_info.get(h) for h in native_only},
                       'native_cross_check': {h: native_info.get(h) for h in native_info if h not in native_only}, 'undecided': undecided[:50]},
          'assumptions': BASE_ASSUMPTIONS + sorted(assumes)[:200],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if not partial:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d functions, %.1fs' % (pid, nobs, ndis, len(undecided), nviol, len(funcs), time.time() - t0))
    for u in undecided[:12]:
        print('  undecided:', u[:400])
    if verbose:
        for h, i in native_info.items():
            print('  native', h, i[:300])
    return rc


def key_of(h, what):
    m = re.search(r'check=(\S+)', what)
    return '%s/%s' % (h, m.group(1) if m else '?')


def replay_refuted(exe, work, h, refs, seed, tier):
    v = {'harness': h, 'replayed': False, 'seed': None, 'ovr': None, 'out': '', 'obligations': [], 'key': '%s/%s' % (h, refs[0]['name'])}
    for o in refs[:20]:
        v['obligations'].append('%s at %s: refuted by %s; negated goal: %s' % (o['name'], o['where'], o['backend'], o.get('goal', '')))
    v['what'] = v['obligations'][0]
    if not exe:
        return v
    n = 0
    for o in refs[:6]:
        if not o.get('model'):
            continue
        f = os.path.join(work, 'ovr_%s_%d.txt' % (h, n))
        n += 1
        with open(f, 'w') as fh:
            for nm, k, i, j, val in o['model']:
                if abs(val) < 1e12:
                    fh.write('%s %d %d %d %.17g\n' % (nm, k, i, j, val))
        r = run_native(exe, work, h, seed * 7919, 300, 5.0, f, False, 'm%d' % n)
        if r['status'] in ('fail', 'crash'):
            v.update(replayed=True, seed=r['seed'], ovr=o['model'], out=r['out'], what=r['what'])
            return v
        # only the integer part of the model, random reals
        with open(f, 'w') as fh:
            for nm, k, i, j, val in o['model']:
                if isinstance(val, int) and abs(val) < 100000:
                    fh.write('%s %d %d %d %.17g\n' % (nm, k, i, j, val))
        r = run_native(exe, work, h, seed * 7919, 3000, 5.0, f, False, 'i%d' % n)
        if r['status'] in ('fail', 'crash'):
            v.update(replayed=True, seed=r['seed'], ovr=[m for m in o['model'] if isinstance(m[4], int)], out=r['out'], what=r['what'])
            return v
    r = run_native(exe, work, h, seed * 15485863, 10 ** 7, 20.0 if tier == 'quick' else 120.0, None, False, 'deep')
    if r['status'] in ('fail', 'crash'):
        v.update(replayed=True, seed=r['seed'], out=r['out'], what=r['what'])
    return v


def write_replay(path, pid, spec, v):
    with open(path, 'w') as f:
        f.write('property: %s\ncontract (harness): %s in %s\n' % (pid, v['harness'], spec))
        f.write('result: %s\n' % v['what'])
        for o in v.get('obligations', []):
            f.write('failed obligation: %s\n' % o)
        if v['replayed']:
            f.write('failing input: native harness %s with seed %s%s\n' % (v['harness'], v['seed'], ' and the overrides below' if v['ovr'] else ''))
            for o in v['ovr'] or []:
                f.write('  %s %d %d %d %.17g\n' % tuple(o))
            f.write('replay: python3-vt /verif/vcg/replay.py %s\n' % path)
        else:
            f.write('no failing input was found for this obligation; the verifier output above is the evidence\n')
            f.write('rerun: python3-vt /verif/vcg/check.py %s quick %s\n' % (pid, v['harness']))
        f.write(str(v['out'])[:6000] + '\n')


BASE_ASSUMPTIONS = [
    'ints are mathematical integers (no overflow), doubles are mathematical reals (no rounding, no NaN/Inf)',
    'distinct arrays of the contract do not alias; pointers named in the contract are valid for the stated length',
    'real division is exact and never by zero unless a division obligation says so; sqrt(x)^2 = x is used for x >= 0',
    'libm functions are uninterpreted with sign/monotonicity axioms; printf and friends have no effect',
    'OpenMP is off (serial semantics), as in the repository build used here',
    'clang 18 parses the source as the compiler does; the VC generator in /verif/vcg and the solvers are trusted',
]


def trusted_base(t):
    return ['VC generator /verif/vcg (python)', 'clang 18 AST', 'z3', 'cvc5 1.1.2', 'rational normal form in /verif/vcg/terms.py'] + \
        ['%s (%d uses)' % x for x in sorted(t.items())]


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
