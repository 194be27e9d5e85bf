"""runs the check of one property:  python run.py C01   (tier from VERIF_TIER)

 1. imports the code under test from /repo's working tree with numpy/llvmlite stand-ins (vlib.env) and
    symbolically executes every scenario of checks/<id>.py, in parallel worker processes;
 2. replays every counterexample, and one witness input per scenario, on the unpatched code in a fresh process;
 3. rewrites evidence/<id>.json and prints KNOWN-FINDING / VIOLATION lines.
exit 0: held on everything explored; 1: confirmed violation; 2: no verdict (error of the check)
"""
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Scn:
    """one scenario: fn(ctx) builds a system through the public API, runs it and states assertions on ctx"""

    def __init__(self, name, fn, tier='quick', timeout=120, max_paths=20000, query_ms=20000, bounds='',
                 replay_timeout=300, witness=True, llvm=False, weight=1, thorough_timeout=None):
        self.name, self.fn, self.tier, self.timeout = name, fn, tier, timeout
        self.max_paths, self.query_ms, self.bounds = max_paths, query_ms, bounds
        self.replay_timeout, self.witness, self.llvm, self.weight = replay_timeout, witness, llvm, weight


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def scenarios(mod, tier):
    out = [s for s in mod.SCENARIOS if s.tier == 'quick' or tier == 'thorough']
    names = [s.name for s in out]
    assert len(set(names)) == len(names), 'duplicate scenario names: %s' % sorted(n for n in names if names.count(n) > 1)
    only = os.environ.get('VERIF_ONLY')
    if only:
        out = [s for s in out if only in s.name]
    return out


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                assert key.startswith('key='), l
                out[key[4:]] = what
    return out


# ------------------------------------------------------------------ recording which code was encoded
class Recorder:
    def __init__(self):
        self.funcs = set()

    def start(self):
        mon = sys.monitoring
        self.tool = 3
        mon.use_tool_id(self.tool, 'verif')
        root = os.path.realpath(os.path.join(REPO, 'numerous')) + os.sep

        def on_start(code, off):
            f = code.co_filename
            if f.startswith(root) or os.path.realpath(f).startswith(root):
                self.funcs.add('%s:%s' % (f[f.index('numerous' + os.sep):], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.set_events(self.tool, mon.events.PY_START)


_REC = None


def _work(arg):
    pid, name, tier, known, scratch = arg
    from . import env, symex
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    mod = load(pid)
    scn = [s for s in mod.SCENARIOS if s.name == name][0]
    t0 = time.time()
    _REC.funcs.clear()
    sys.monitoring.restart_events()
    mult = 5 if tier == 'thorough' else 1

    def fn(ctx):
        env.fresh()
        for x in os.listdir(d):          # files written on the previous path
            os.unlink(os.path.join(d, x))
        return scn.fn(ctx)
    eng = symex.Engine(fn, timeout_s=scn.timeout * mult, max_paths=scn.max_paths * mult, query_ms=scn.query_ms * mult,
                       known=set(known), scn=name)
    fatal = None
    try:
        eng.run()
    except Exception:
        fatal = traceback.format_exc(limit=-6)
    finally:
        os.chdir(scratch)
        shutil.rmtree(d, ignore_errors=True)
    return dict(name=name, stats=eng.stats.__dict__, errors=eng.errors, fatal=fatal, wall=time.time() - t0,
                violations=[dict(v.__dict__) for v in eng.violations], witness=eng.witnesses,
                funcs=sorted(_REC.funcs), bounds=scn.bounds)


def _key(name, v):
    return '%s/%s' % (name, v['key'] or ('exception' if v['kind'] == 'exception' else 'check'))


def run_symbolic(pid, scns, tier, known, scratch):
    global _REC
    from . import env
    env.setup_symbolic(llvm=True)
    load(pid)
    env.patch_check_modules()
    _REC = Recorder()
    _REC.start()
    sys.stderr.flush()
    n = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 4)))
    jobs = [(pid, s.name, tier, list(known), scratch) for s in sorted(scns, key=lambda s: -s.weight)]
    if n == 1:
        return [_work(j) for j in jobs]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(n, len(jobs))) as pool:
        it, out = pool.imap_unordered(_work, jobs, chunksize=1), []
        end = time.time() + (600 if tier == 'quick' else 6000)
        try:
            for _ in jobs:
                out.append(it.next(max(1, end - time.time())))
                if sum(1 for r in out for v in r['violations'] if v['kind'] == 'hang') >= 2:
                    end = min(end, time.time() + 30)
                # many scenarios already violated: the rest would only repeat it (a broken tree can make every path slow)
                if sum(1 for r in out if any(_key(r['name'], v) not in known for v in r['violations'])) >= 10:
                    end = min(end, time.time() + 30)
        except multiprocessing.TimeoutError:
            pool.terminate()
            from . import symex
            got = {r['name'] for r in out}
            for j in jobs:
                if j[1] not in got:
                    st = symex.Stats()
                    st.unfinished = 1
                    out.append(dict(name=j[1], stats=st.__dict__, errors=[], fatal='did not finish in time', wall=0.0, violations=[],
                                    witness=[], funcs=[], bounds=''))
        return out


# ------------------------------------------------------------------ concrete replay
def replay_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
             OPENBLAS_NUM_THREADS='1')
    e.pop('NUMBA_DISABLE_JIT', None)
    return e


def replay_cases(pid, cases, scratch, timeout):
    """cases: list of {scenario, values}.  runs each on the unpatched code in one fresh process"""
    if not cases:
        return []
    inp = os.path.join(scratch, 'in%d_%d.json' % (time.time_ns(), threading.get_ident()))
    outp = inp + '.out'
    json.dump(dict(property=pid, cases=cases), open(inp, 'w'))
    d = tempfile.mkdtemp(dir=scratch)
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'run.py'), '--replay-batch', inp, outp], cwd=d,
                           env=replay_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        log = p.stdout.decode(errors='replace')[-2000:]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        log, rc = 'timeout', None
    res = []
    if os.path.exists(outp):
        for l in open(outp):
            res.append(json.loads(l))
    while len(res) < len(cases):   # process died (e.g. memory corruption in native code): the next case is the culprit
        if rc is not None and rc > 0:
            res.append(dict(outcome='harness', msg='replay harness failed: ' + log[-600:]))
            continue
        res.append(dict(outcome='timeout', msg=log) if rc is None else dict(outcome='died', msg='process ended: ' + log[-600:]) if len(res) == 0 or res[-1]['outcome'] not in ('died', 'not-run')
                   else dict(outcome='not-run', msg=''))
    return res


def replay_batch(inp, outp):
    from . import env
    env.base_paths()
    from . import symex
    d = json.load(open(inp))
    env.setup_concrete()
    mod = load(d['property'])
    by = {s.name: s for s in mod.SCENARIOS}
    with open(outp, 'w') as f:
        for c in d['cases']:
            r = run_concrete(by[c['scenario']], c['values'])
            f.write(json.dumps(r) + '\n')
            f.flush()


def run_concrete(scn, values):
    from . import env
    from . import symex
    ctx = symex.ConcreteCtx(values)
    old = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        env.fresh(concrete=True)
        scn.fn(ctx)
        return dict(outcome='ok' if ctx.n_checks else 'nocheck', n=ctx.n_checks, msg='')
    except symex.CheckFailed as e:
        return dict(outcome='violation', msg=str(e))
    except symex.Abort:
        return dict(outcome='assume', msg='assumption false')
    except Exception as e:
        return dict(outcome='exception', msg='unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                    tb=traceback.format_exc(limit=-5))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ main
def main(argv):
    if argv[0] == '--replay-batch':
        replay_batch(argv[1], argv[2])
        return 0
    if argv[0] == '--replay':
        return replay_file(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba_sym')
    try:
        return check(pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, seed, t0, scratch):
    sys.path.insert(0, HERE)
    from . import env
    env.base_paths()
    from . import symex
    known = known_keys(pid)
    q = multiprocessing.get_context('fork').Pipe(False)
    # the symbolic set-up patches libraries: keep it out of this process
    recv, send = q
    pr = multiprocessing.get_context('fork').Process(target=_child, args=(pid, tier, known, scratch, send))
    pr.start()
    send.close()
    try:
        status, payload = recv.recv()
    except EOFError:
        status, payload = 'error', 'symbolic process ended without an answer'
    pr.join()
    if status != 'ok':
        print('ERROR property=%s: %s' % (pid, payload))
        write_evidence(pid, tier, seed, t0, [], {}, dict(error=payload[-2000:]))
        return 2
    results, meta = payload
    st = symex.Stats()
    for r in results:
        s2 = symex.Stats()
        s2.__dict__.update(r['stats'])
        st.merge(s2)
    errors = []
    # --- replay counterexamples
    viol = [(r['name'], v) for r in results for v in r['violations']]
    n_viol = len(viol)
    # (code that does not come to an end is replayed once)
    hang = [x for x in viol if x[1]['kind'] == 'hang']
    viol = [x for x in viol if x[1]['kind'] != 'hang']
    viol = viol + hang[:2] if not viol else viol
    # replaying takes seconds each: when there are very many, one is enough per scenario, and a fixed number of scenarios
    # (listed findings are always replayed)
    if n_viol > 40:
        first, rest, seen = [], [], set()
        for x in viol:
            key = _key(*x)
            (rest if key not in known and (x[0] in seen or len(seen) >= 40) else first).append(x)
            seen.add(x[0])
        viol = first
    confirmed, knownhits = [], {}
    by = {}
    timeouts = meta['timeouts']
    from concurrent.futures import ThreadPoolExecutor

    def rep(x):
        t = 90 if x[1]['kind'] == 'hang' else timeouts[x[0]]
        rr = replay_cases(pid, [dict(scenario=x[0], values=x[1]['values'])], scratch, t)[0]
        for a in x[1].pop('alts', []) if rr['outcome'] in ('ok', 'assume', 'nocheck') else ():
            r2 = replay_cases(pid, [dict(scenario=x[0], values=a)], scratch, t)[0]
            if r2['outcome'] in ('violation', 'exception', 'died'):
                x[1]['values'] = a
                return r2
        return rr
    with ThreadPoolExecutor(max(2, (os.cpu_count() or 4) - 1)) as tp:
        rrs = list(tp.map(rep, viol))
    for (name, v), rr in zip(viol, rrs):
        tb = v.pop('tb', None)
        v['replay'] = rr
        if tb:
            v['trace'] = tb
        if rr['outcome'] == 'timeout' and v['kind'] == 'hang':
            v['msg'] = 'does not come to an end'
        if rr['outcome'] in ('violation', 'exception', 'died') or (rr['outcome'] == 'timeout' and v['kind'] == 'hang'):
            key = _key(name, v)
            hit = [k for k in known if k == key]
            if hit:
                knownhits[hit[0]] = v
            else:
                confirmed.append((name, v))
        else:
            errors.append('counterexample of scenario %s does not reproduce on the real code (%s): %s values=%s%s'
                          % (name, rr, v['msg'], v['values'], ('\n' + tb) if tb else ''))
    # --- witnesses (reachability + fidelity of the stand-ins)
    cases = []
    wants = meta['witness']
    for r in results:
        for wv in (r['witness'] if wants[r['name']] else []):
            cases.append(dict(scenario=r['name'], values=wv))
    nwit, samples = 0, []
    wres = []
    if not confirmed and cases:
        k = min(6, len(cases))
        with ThreadPoolExecutor(k) as tp:
            parts = list(tp.map(lambda j: replay_cases(pid, cases[j::k], scratch, 600), range(k)))
        wres = [None] * len(cases)
        for j in range(k):
            wres[j::k] = parts[j]
    for c, rr in zip(cases, wres):
        if rr['outcome'] == 'ok':
            nwit += 1
            if len(samples) < 4:
                samples.append(dict(scenario=c['scenario'], values=c['values'], assertions_checked=rr['n'], outcome='ok'))
        elif rr['outcome'] in ('assume', 'not-run'):
            pass
        elif rr['outcome'] in ('violation', 'exception', 'died'):
            if any(k.startswith(c['scenario'] + '/') for k in known):
                continue
            errors.append('witness input of %s: symbolic run says the assertions hold, the real code says %s; values=%s'
                          % (c['scenario'], rr, c['values']))
    for r in results:
        if r['fatal']:
            errors.append('%s: %s' % (r['name'], r['fatal']))
        errors += ['%s: %s' % (r['name'], e) for e in r['errors']]
        if r['stats']['unfinished'] and not r['violations']:
            errors.append('%s: %d paths unfinished within the budget (%.0fs)' % (r['name'], r['stats']['unfinished'], r['wall']))
        if r['stats']['checks'] == 0 and not r['violations'] and not r['fatal']:
            errors.append('%s: no assertion was reached (vacuous)' % r['name'])
    cov = dict(
        states=st.paths, transitions=st.branch_queries + st.decisions, traces_validated_against_impl=nwit,
        samples=samples + [dict(assertion=s) for s in st.samples[:4]],
        exhaustive=not (st.unfinished or st.unknown),
        scenarios=len(results), assertions_decided=st.checks,
        assertions_closed_by_term_identity=st.checks_trivial, assertion_queries=st.check_queries,
        branch_queries=st.branch_queries, path_splits=st.decisions, paths_infeasible=st.aborted,
        solver_s=round(st.solver_s, 3), unknown=st.unknown, unfinished_paths=st.unfinished,
        concretised_reals=st.concretized, nonzero_denominators_assumed=st.nonzero_assumed,
        functions_encoded=sorted(set(f for r in results for f in r['funcs'])),
        bounds=[dict(scenario=r['name'], bounds=r['bounds'], paths=r['stats']['paths'], assertions=r['stats']['checks'],
                     wall_s=round(r['wall'], 2)) for r in sorted(results, key=lambda r: r['name'])],
        errors=errors[:10])
    if meta['level'] == 'translation_validation':
        cov.update(programs=len(results), disagreements_checked=st.check_queries + st.checks_trivial)
    extra = {}
    for k in known:
        print('KNOWN-FINDING: property=%s key=%s %s%s' % (pid, k, known[k], '' if k in knownhits else ' [not reproduced in this run]'))
    code = 0
    if confirmed:
        code = 1
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = None
        for i, (name, v) in enumerate(confirmed):
            p = os.path.join(rd, '%s_%d.json' % (pid, i))
            json.dump(dict(property=pid, scenario=name, **v), open(p, 'w'), indent=1, default=str)
            path = path or p
            print('  scenario %s: %s\n    inputs: %s\n    real code: %s' % (name, v['msg'], json.dumps(v['values']), v['replay']['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif errors:
        code = 2
        for e in errors[:10]:
            print('ERROR property=%s: %s' % (pid, e))
    write_evidence(pid, tier, seed, t0, confirmed, cov, meta)
    print('%s %s: scenarios=%d paths=%d assertions=%d (queries %d, by identity %d) branch queries=%d solver=%.1fs '
          'witnesses=%d wall=%.1fs -> %s' % (pid, tier, len(results), st.paths, st.checks, st.check_queries,
                                             st.checks_trivial, st.branch_queries, st.solver_s, nwit,
                                             time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'NO VERDICT'}[code]))
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall']):
            print('   %-50s paths=%d checks=%d splits=%d wall=%.1f' % (r['name'], r['stats']['paths'], r['stats']['checks'], r['stats']['decisions'], r['wall']))
    return code


def _child(pid, tier, known, scratch, send):
    try:
        if not os.environ.get('VERIF_DEBUG'):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        from . import env
        os.environ['NUMBA_DISABLE_JIT'] = '1'
        # the check modules import the code under test, so set up first
        res = None
        env.setup_symbolic(llvm=True)
        mod = load(pid)
        env.patch_check_modules()
        scns = scenarios(mod, tier)
        meta = dict(level=getattr(mod, 'LEVEL', 'model_checking'), assumptions=getattr(mod, 'ASSUMPTIONS', []),
                    timeouts={s.name: s.replay_timeout for s in scns},
                    witness={s.name: s.witness for s in scns})
        res = run_symbolic(pid, scns, tier, known, scratch)
        send.send(('ok', (res, meta)))
    except BaseException:
        send.send(('error', traceback.format_exc(limit=-8)))
    send.close()


BASE_ASSUMPTIONS = [
    'floating point is modelled by exact real arithmetic; sin, exp, sqrt, non-integer powers are uninterpreted functions',
    'denominators that depend on inputs are assumed nonzero',
    'numpy routines on symbolic arrays are the re-statements in vlib/symnp.py (checked against numpy on every run by the witness replays)',
    'numba compiles Python functions faithfully; ctypes/MCJIT entry points are replaced by an interpreter of the LLVM IR the repository generates (vlib/llvmsym.py)',
    'the external packages (numerous.solver, pandas, networkx) are executed as they are, on symbolic values',
]


def write_evidence(pid, tier, seed, t0, confirmed, cov, meta):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    d = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
             level=meta.get('level', 'model_checking'), coverage=cov or dict(error=meta.get('error', 'none')),
             assumptions=BASE_ASSUMPTIONS + list(meta.get('assumptions', [])), wall_s=round(time.time() - t0, 2),
             violations=len(confirmed))
    p = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(d, open(p, 'w'), indent=1, default=str)


def replay_file(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        r = replay_cases(d['property'], [dict(scenario=d['scenario'], values=d['values'])], scratch, 600)[0]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(r, indent=1))
    return 1 if r['outcome'] in ('violation', 'exception', 'died') else 0
