"""Path exploration of a harness, replay on the real code, evidence."""
import json, os, signal, sys, time, traceback, random as _random, shutil, tempfile, subprocess, pickle, select
from . import core, env as envm, world as worldm
from .core import Unsupported, PathAbort, Budget, Engine

z3 = core.z3
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEBUG = bool(os.environ.get('VP_DEBUG'))


class CaseRec:
    """what one case found"""

    def __init__(s):
        s.labels = {}
        s.cands = []        # new candidates of the current path
        s.ncand = {}
        s.und = {}

    def label(s, l):
        return s.labels.setdefault(l, dict(reached=0, trivial=0, unsat=0, sat=0, unknown=0))

    def candidate(s, label, inputs, detail=None):
        n = s.ncand.get(label, 0)
        s.ncand[label] = n + 1
        if n < 8:
            if core.ENG is not None:
                core.ENG.quiet = True
            try:
                d = detail() if callable(detail) else detail
            except Exception:
                d = ''
            finally:
                if core.ENG is not None:
                    core.ENG.quiet = False
            s.cands.append((label, inputs, d))

    def undecided(s, label):
        s.und[label] = s.und.get(label, 0) + 1


class _Alarm:
    def __init__(s, sec, exc):
        s.sec, s.exc = max(0.05, sec), exc

    def __enter__(s):
        def h(*a):
            raise s.exc
        s.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, s.sec)

    def __exit__(s, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, s.old)


class RealTimeout(BaseException):
    pass


def run_real(harness, case, tier, inputs, seed=0, limit=60):
    """-> (status, failures, checked, used) with status ok | fail | skip | timeout"""
    scratch = tempfile.mkdtemp(prefix='symx_')
    saved = core.ENG
    core.ENG = None
    so = sys.stdout
    w = None
    try:
        with _Alarm(limit, RealTimeout()):
            sys.stdout = open(os.devnull, 'w')
            w = worldm.RealWorld(scratch)
            e = envm.RealEnv(w, case, tier, inputs, seed)
            try:
                harness(e, **{k: v for k, v in case.items() if k[0] != '_'})
            except envm.Skip:
                if not e.failures:
                    return 'skip', [], e.checked, e.used
            except (RealTimeout, KeyboardInterrupt):
                raise
            except Unsupported as x:
                return 'skip', [('stand-in', str(x))], e.checked, e.used
            except Exception as x:
                tb = traceback.extract_tb(x.__traceback__)
                inrepo = [f for f in tb if f.filename.startswith(worldm.REPO)]
                if inrepo or e.failures:
                    f = inrepo[-1] if inrepo else tb[-1]
                    e.failures.append(('exception', '%s: %s at %s:%s' % (
                        type(x).__name__, x, os.path.relpath(f.filename, worldm.REPO), f.lineno)))
                else:
                    # the harness could not digest what the code returned
                    e.failures.append(('result shape', '%s: %s at %s:%s' % (type(x).__name__, x, tb[-1].filename, tb[-1].lineno)))
            return ('fail' if e.failures else 'ok'), e.failures, e.checked, e.used
    except RealTimeout:
        return 'timeout', [], {}, {}
    finally:
        sys.stdout = so
        if w is not None:
            w.close()
        core.ENG = saved
        shutil.rmtree(scratch, ignore_errors=True)


def diversify(e, rnd, n):
    """up to n further models of the current path, inputs pinned to random values where possible"""
    out = []
    for _ in range(n):
        pins = []
        names = [nm for nm in e.syms]
        rnd.shuffle(names)
        t0 = time.time()
        try:
            for nm in names[:14]:
                t, k = e.syms[nm]
                if time.time() - t0 > 1.5:
                    break
                for v in ((rnd.randint(0, 4), rnd.randint(-3, 8)) if k == 'i' else (rnd.randint(-24, 24) / 4, rnd.randint(0, 8) / 8)):
                    p = t == (v if k == 'i' else core.z3num(core.to_num(v)))
                    if e._check(*(pins + [p]), ms=1000) == z3.sat:
                        pins.append(p)
                        break
            if e._check(*pins, ms=1500) != z3.sat:
                continue
            m = e.last.model()
        except (Budget, Unsupported):
            break
        out.append({nm: conv(core.z3val(m.eval(t, model_completion=True)), k) for nm, (t, k) in e.syms.items()})
    return out


def conv(v, k):
    return int(v) if k == 'i' else float(v)


def path_model(e):
    try:
        if e._check() != z3.sat:
            return None
        m = e.last.model()
        return {nm: conv(core.z3val(m.eval(t, model_completion=True)), k) for nm, (t, k) in e.syms.items()}
    except (Unsupported, Budget):
        return None


def run_case(harness, case, tier, seed, timeout, opts):
    """explore all paths of one case; returns a result dictionary"""
    t_start = time.time()
    rnd = _random.Random('%s/%s' % (seed, sorted(map(str, case.items()))))
    eng = Engine(timeout=timeout, query_ms=opts.get('query_ms', 5000))
    core.reset_atoms()
    worldm.EXECUTED.clear()
    worldm.start_recording()
    rec = CaseRec()
    res = dict(case=case, status='complete', violations=[], unreproduced=[], unsupported={}, validated=0, skipped=0,
               concolic=0, samples=[], real_labels={}, path_exceptions={})
    max_samples = opts.get('samples', 3 if tier == 'quick' else 8)
    sampled = 0
    tried = {}

    def real(inputs, kind, label=None, shift=0):
        st, fails, checked, used = run_real(harness, case, tier, inputs, seed + shift, opts.get('real_limit', 60))
        for l, n in checked.items():
            res['real_labels'][l] = res['real_labels'].get(l, 0) + n
        if st == 'fail':
            res['violations'].append(dict(kind=kind, label=label, inputs=used, failures=[(l, str(d)[:600]) for l, d in fails[:6]]))
            return True
        if st == 'ok':
            res['validated'] += 1
        else:
            res['skipped'] += 1
        if kind == 'candidate':
            res['unreproduced'].append(dict(label=label, inputs=used, status=st))
        return False

    prefix = []
    npaths = 0
    while prefix is not None:
        eng.path_reset(prefix)
        core.ENG = eng
        rec.cands = []
        outcome = 'completed'
        why = None
        try:
            with _Alarm(eng.deadline - time.time() + 1, Budget('alarm')):
                w = worldm.SymWorld()
                e = envm.SymEnv(w, case, tier, rec)
                harness(e, **{k: v for k, v in case.items() if k[0] != '_'})
        except PathAbort:
            outcome = 'aborted'
        except Budget:
            outcome = 'budget'
        except Unsupported as x:
            outcome, why = 'unsupported', str(x)
        except envm.Skip:
            outcome = 'aborted'
        except RecursionError:
            if os.environ.get("VP_DEBUG"):
                print("".join(traceback.format_exc().splitlines(True)[-14:]))
            outcome, why = 'unsupported', 'recursion'
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            f = ([f for f in tb if f.filename.startswith(worldm.REPO)] or tb)[-1]
            outcome, why = 'exception', '%s: %s @%s:%d' % (type(x).__name__, str(x)[:200], os.path.basename(f.filename), f.lineno)
            if DEBUG:
                traceback.print_exc()
        npaths += 1
        eng.stats['paths'] += 1
        eng.stats[outcome] = eng.stats.get(outcome, 0) + 1
        core.ENG = eng
        stop = False
        try:
            with _Alarm(max(5, eng.deadline - time.time() + 60), Budget('alarm')):
                # candidates
                for label, inputs, d in rec.cands:
                    if tried.get(label, 0) >= 5:
                        continue
                    tried[label] = tried.get(label, 0) + 1
                    if DEBUG:
                        print('CANDIDATE', label, inputs, d)
                    if real(inputs, 'candidate', label):
                        stop = True
                        break
                if outcome == 'exception' and not stop:
                    res['path_exceptions'][why] = res['path_exceptions'].get(why, 0) + 1
                    if tried.get(why, 0) < 3:
                        tried[why] = tried.get(why, 0) + 1
                        m = path_model(eng)
                        if m is not None and real(m, 'candidate', 'exception ' + why):
                            stop = True
                if outcome == 'unsupported' and not stop:
                    res['unsupported'][why] = res['unsupported'].get(why, 0) + 1
                    if tried.get(('u', why), 0) < (2 if tier == 'quick' else 4):
                        tried[('u', why)] = tried.get(('u', why), 0) + 1
                        m = path_model(eng)
                        for inp in ([m] if m is not None else []) + diversify(eng, rnd, 3 if tier == 'quick' else 8):
                            res['concolic'] += 1
                            if real(inp, 'concolic', why):
                                stop = True
                                break
                if outcome == 'completed' and not stop:
                    # validate the encoding: the same checks must hold on the real code
                    p = 1.0 if sampled == 0 else min(1.0, max_samples / (4.0 * (npaths + 1)))
                    if sampled < max_samples and rnd.random() < p:
                        sampled += 1
                        inp = (diversify(eng, rnd, 1) or [path_model(eng)])[0]
                        if inp is not None:
                            if len(res['samples']) < 2:
                                res['samples'].append(dict(inputs=inp, path_decisions=len(eng.trace)))
                            if real(inp, 'validation'):
                                stop = True
        except Budget:
            outcome = 'budget'
        if stop:
            res['status'] = 'violation'
            break
        if outcome == 'budget' or time.time() > eng.deadline:
            res['status'] = 'budget'
            if sampled == 0:
                m = None
                eng.deadline = time.time() + 5
                try:
                    with _Alarm(30, Budget('alarm')):
                        m = path_model(eng)
                        if m is not None:
                            res['concolic'] += 1
                            if real(m, 'concolic', 'budget'):
                                res['status'] = 'violation'
                except Budget:
                    pass
            # what the solver did not get to decide: a few concrete runs, counted as such
            good = 0
            for i in range(8):
                if res['status'] == 'violation' or good >= 3:
                    break
                k = res['skipped']
                res['concolic'] += 1
                if real({}, 'concolic', 'budget', 1000 + i):
                    res['status'] = 'violation'
                good += res['skipped'] == k
            break
        if npaths >= opts.get('max_paths', 200000):
            res['status'] = 'budget'
            break
        prefix = eng.next_prefix(eng.trace)
    # the labels that were undecided get concrete support only
    res['labels'] = rec.labels
    res['undecided'] = rec.und
    res['candidates'] = dict(rec.ncand)
    res['stats'] = eng.stats
    res['executed'] = dict(worldm.EXECUTED)
    res['wall'] = time.time() - t_start
    return res


# ------------------------------------------------------------- process pool
def _child(fd, harness, case, tier, seed, timeout, opts):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        r = run_case(harness, case, tier, seed, timeout, opts)
    except MemoryError:
        r = dict(case=case, status='memory')
    except BaseException as x:
        r = dict(case=case, status='crash', error=traceback.format_exc())
    r['harness'] = harness.__name__
    with os.fdopen(fd, 'wb') as f:
        try:
            pickle.dump(r, f)
        except Exception:
            pickle.dump(dict(case=case, status='crash', error=traceback.format_exc()), f)


def run_pool(jobs, tier, seed, workers, deadline, stop_on_violation=True):
    """jobs: list of (harness, case, timeout, opts)"""
    jobs = list(jobs)
    running = {}
    out = []
    stopped = False
    while jobs or running:
        while jobs and len(running) < workers and not stopped:
            h, case, to, opts = jobs.pop(0)
            left = deadline - time.time()
            if left < 1:
                out.append(dict(case=case, status='not run'))
                continue
            to = min(to, left)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _child(w, h, case, tier, seed, to, opts)
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(0)
            os.close(w)
            running[r] = (pid, case, time.time() + to + opts.get('grace', 90), [])
        if stopped:
            jobs = []
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in list(running):
            pid, case, dl, buf = running[r]
            done = False
            if r in rd:
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                else:
                    done = True
                    try:
                        res = pickle.loads(b''.join(buf))
                    except Exception:
                        res = dict(case=case, status='crash', error='no result')
                    out.append(res)
                    if res.get('violations') and stop_on_violation:
                        stopped = True
            if not done and time.time() > dl:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                out.append(dict(case=case, status='killed'))
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
        if stopped:
            for r in list(running):
                pid, case, dl, buf = running[r]
                if dl > time.time() + 20:
                    running[r] = (pid, case, time.time() + 20, buf)
    return out


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'KNOWN-FINDING: property=<id> match=<text> :: <what fails>' of KNOWN_FINDINGS.md"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line[len('KNOWN-FINDING: property=%s ' % prop):]
                m, _, what = rest.partition(' :: ')
                out.append((m[len('match='):] if m.startswith('match=') else m, what))
    return out


def main(argv):
    from harness import registry
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('VP_CASE')
    spec = registry.get(prop)
    t0 = time.time()
    total = spec.quick_s if tier == 'quick' else spec.thorough_s
    jobs = []
    for h, case, o in spec.cases(tier):
        o = dict(o)
        to = o.pop('timeout', total)
        if only and only not in repr(case) + h.__name__:
            continue
        jobs.append((h, case, to, o))
    for m in ['scipy.stats'] + list(spec.preload):
        __import__(m)
    workers = int(os.environ.get('VP_WORKERS', '8'))
    results = run_pool(jobs, tier, seed, workers, t0 + total)
    # ---- violations: confirm each in a fresh process
    confirmed = []
    knowns = known_findings(prop)
    seen_known = {}
    for r in results:
        for v in r.get('violations', ()):
            h = [j for j in jobs if j[1] == r['case'] and j[0].__name__ == r['harness']][0][0]
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s%s_%d.json' % (prop, '_%d' % os.getpid() if os.environ.get('VP_REPO') else '', len(confirmed)))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, harness=h.__name__, module=h.__module__, case=jsonable(r['case']), tier=tier,
                               inputs=v['inputs'], seed=seed, failures=v['failures'], kind=v['kind'], label=v['label']), f, indent=1)
            text = '; '.join('%s: %s' % (l, x) for l, x in v['failures'])
            kn = [k for k in knowns if k[0] in '%s %s %s' % (h.__name__, r['case'], text)]
            if kn:
                seen_known[kn[0]] = 1
                continue
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=300)
            if p.returncode == 1:
                confirmed.append((path, r['case'], v, text))
                if len(confirmed) >= 3:
                    break
            else:
                r.setdefault('unreproduced', []).append(dict(label=v['label'], status='not in a fresh process'))
        if len(confirmed) >= 3:
            break
    report(prop, spec, tier, seed, results, confirmed, time.time() - t0)
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    for path, case, v, text in confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   case %s' % (case,))
        print('   %s' % text[:1500])
    return 1 if confirmed else 0


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def untuple(x):
    """cases use lists only inside; a tuple and a list mean the same to the harnesses"""
    return x


def replay(path):
    import importlib
    d = json.load(open(path))
    h = getattr(importlib.import_module(d['module']), d['harness'])
    from harness import registry
    for m in ['scipy.stats'] + list(registry.get(d['property']).preload):
        __import__(m)
    st, fails, checked, used = run_real(h, d['case'], d['tier'], d['inputs'], d['seed'], 240)
    print('replay of %s: %s' % (path, st))
    for l, x in fails:
        print('  %s: %s' % (l, x))
    return 1 if st == 'fail' else 0


def report(prop, spec, tier, seed, results, confirmed, wall):
    agg = dict(paths=0, completed=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    labels, executed, cuts, unsup, statuses, excs, und = {}, {}, {}, {}, {}, {}, {}
    validated = concolic = skipped = unrep = 0
    samples, unrep_l = [], []
    for r in results:
        statuses[r['status']] = statuses.get(r['status'], 0) + 1
        st = r.get('stats')
        if r['status'] in ('crash', 'memory', 'killed'):
            excs[(r['status'] + ' ' + str(r.get('error', ''))[-300:])] = 1
        if not st:
            continue
        for k in agg:
            agg[k] += st.get(k, 0)
        for k, v in st['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        for l, d in r['labels'].items():
            t = labels.setdefault(l, dict(reached=0, trivial=0, unsat=0, sat=0, unknown=0))
            for k, v in d.items():
                t[k] += v
        executed.update(r['executed'])
        for k, v in r['unsupported'].items():
            unsup[k] = unsup.get(k, 0) + v
        for k, v in r['path_exceptions'].items():
            excs[k] = excs.get(k, 0) + v
        for k, v in r['undecided'].items():
            und[k] = und.get(k, 0) + v
        validated += r['validated']; concolic += r['concolic']; skipped += r['skipped']
        unrep += len(r['unreproduced'])
        unrep_l += r['unreproduced'][:2]
        if len(samples) < 6:
            samples += [dict(harness=r.get('harness'), case=jsonable(r['case']), **s) for s in r['samples']]
    obligations = sum(d['reached'] for d in labels.values())
    decided = sum(d['trivial'] + d['unsat'] for d in labels.values())
    cov = dict(states=agg['paths'], transitions=agg['branches'], traces_validated_against_impl=validated,
               samples=samples[:6] or ['none'],
               what='states = symbolic paths explored; transitions = symbolic branch decisions; each obligation is one assertion '
                    'on one path over all values of the symbolic inputs of that path',
               cases=len(results), case_status=statuses, completed_paths=agg['completed'],
               obligations=obligations, discharged=decided,
               discharged_by_normal_form=sum(d['trivial'] for d in labels.values()),
               discharged_by_unsat_query=sum(d['unsat'] for d in labels.values()),
               labels=labels, queries=agg['queries'], queries_sat=agg['sat'], queries_unsat=agg['unsat'],
               queries_unknown=agg['unknown'], solver_time_s=round(agg['solver_s'], 2),
               functions_encoded=sorted(executed), bounds=spec.bounds.get(tier, spec.bounds.get('quick', '')) if isinstance(spec.bounds, dict) else spec.bounds,
               outside_the_claim=dict(cuts=cuts, unsupported_paths=unsup, undecided_checks=und, path_exceptions_not_reproduced=excs,
                                      counterexamples_not_reproduced=unrep, examples=jsonable(unrep_l[:4])),
               concrete_fallback_runs=concolic, skipped_replays=skipped,
               exhaustive=bool(statuses.get('complete', 0) == len(results) and not unsup and not und and agg['unknown'] == 0))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=list(spec.assumptions) + COMMON,
              wall_s=round(wall, 2), violations=len(confirmed))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: cases %s paths %d (completed %d) obligations %d discharged %d validated %d concolic %d unsupported %d undecided %d '
          'unreproduced %d queries %d solver %.1fs wall %.1fs' % (
              prop, tier, statuses, agg['paths'], agg['completed'], obligations, decided, validated, concolic, sum(unsup.values()),
              sum(und.values()), unrep, agg['queries'], agg['solver_s'], wall))
    for k, v in sorted(unsup.items(), key=lambda x: -x[1])[:6]:
        print('   unsupported x%d: %s' % (v, k))
    for k, v in list(excs.items())[:6]:
        print('   exception x%s: %s' % (v, k))
    for k, v in list(und.items())[:6]:
        print('   undecided x%d: %s' % (v, k))
    for u in unrep_l[:4]:
        print('   unreproduced: %s %s' % (u.get('label'), u.get('status')))
    if not agg['completed'] or not obligations:
        print('   NOTE: nothing was decided symbolically in this run')


COMMON = [
    'real arithmetic is exact in the encoding; floating-point results of the code are compared up to a relative tolerance of 1e-6 '
    '(1e-4 for float32 code) when a counterexample or a sampled path is replayed',
    'third-party libraries (numpy, scipy, pandas, networkx, torch, gpytorch, matplotlib, cvxpy) are replaced by the stand-ins of '
    '/verif/symx with the behaviour their documentation gives; eigenvalue and singular value routines run numerically on the '
    'concrete topology of the case',
    'paths on which a symbolic divisor is zero are outside the claim',
]
