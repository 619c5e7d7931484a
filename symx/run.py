"""Runs the harnesses of one property: explore, discharge, replay on the real code, report."""
import contextlib
import fnmatch
import importlib
import io
import json
import logging
import math
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import ctx as C
from . import engine, harness, loader, sym
from . import poly as P
from .engine import Explorer, Stats, discharge
from .sym import S, SBool, PathAbort, Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
KNOWN = os.path.join(ROOT, 'known-findings.txt')


# ------------------------------------------------------------------------------- which functions were encoded

class Coverage:
    TOOL = 4

    def __init__(self):
        self.seen = set()
        self.on = False
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.set_events(self.TOOL, m.events.PY_START)

    def _start(self, code, off):
        f = code.co_filename
        if not f.startswith(loader.REPO + os.sep):
            return sys.monitoring.DISABLE
        if self.on:
            if code.co_name != '<module>':
                self.seen.add('%s:%s' % (os.path.relpath(f, loader.REPO), code.co_qualname))
            return sys.monitoring.DISABLE
        return None


_cov = None


def cov():
    global _cov
    if _cov is None:
        _cov = Coverage()
    return _cov


# ------------------------------------------------------------------------------- one job = one case of one harness

@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


WARM = 2        # earlier uses with other inputs before the judged one (tried until one is not skipped)


def warm_concrete(h, case):
    """The earlier uses of the real code that the judged run follows."""
    import numpy as np
    for k in range(WARM if h.warm else 0):
        c = C.ConcCtx({}, {}, 'warm%d' % k, h.rel)
        with quiet(), np.errstate(all='ignore'), c.patched():
            try:
                h.fn(c, *case)
                return
            except C.Skip:
                continue
            except (Exception, SystemExit):
                return
            finally:
                c.close_ctx()


def run_concrete(h, case, values, choices, rel=None, seed=0):
    """One run of the harness on the real code.  Returns (context, exception text or None, skipped)."""
    if not h.warm:
        C.forget()
    c = C.ConcCtx(values, choices, seed, rel or h.rel)
    exc, skipped = None, False
    import numpy as np
    with quiet(), np.errstate(all='ignore'), c.patched():
        try:
            h.fn(c, *case)
            c.check_kept()
        except C.Skip:
            skipped = True
        except (Exception, SystemExit) as e:
            exc = '%s: %s' % (type(e).__name__, e)
            tb = traceback.extract_tb(e.__traceback__)
            if tb:
                exc += ' (%s:%d)' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
            c.failures.append(('exception', exc))
        finally:
            c.close_ctx()
    return c, exc, skipped


def _num_close(a, b, rel):
    try:
        a, b = complex(a), complex(b)
    except (TypeError, ValueError):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if not (math.isfinite(abs(a)) and math.isfinite(abs(b))):
        return a == b
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-9


def sym_value(x, env):
    if isinstance(x, S):
        r = P.evaluate(x.re, env)
        return complex(r, P.evaluate(x.im, env)) if x.kind == 'c' else r
    if isinstance(x, SBool):
        return bool(x.evaluate(env))
    return x


class Job:
    def __init__(self, h, case, tier, seed, deadline):
        self.h, self.case, self.tier, self.seed, self.deadline = h, case, tier, seed, deadline
        self.stats = Stats()
        self.res = dict(prop=h.prop, harness=h.name, case=case, stats=self.stats, violations=[], undecided=[],
                        mode='full', paths=0, functions=[], traces=0, samples=[], mismatches=[], reach=0, aborted=0)

    def run(self):
        t0 = time.time()
        logging.disable(logging.CRITICAL)
        cv = cov()
        cv.seen = set()
        warm_concrete(self.h, self.case)
        try:
            self.explore(None)
        except Unsupported as e:
            if self.res['violations']:
                self.res['undecided'].append('exploration stopped after a violation')
                self.res['functions'] = sorted(cv.seen)
                self.res['wall'] = time.time() - t0
                sym.CUR = None
                return self.res
            self.res['mode'] = 'pinned'
            again(60)
            self.res['undecided'].append('full encoding: %s' % e)
            try:
                self.explore('p%d' % self.seed)
            except Unsupported as e:
                self.res['mode'] = 'replay-only'
                self.res['undecided'].append('pinned encoding: %s' % e)
        again(0)
        if self.res['mode'] != 'full' or self.res['undecided']:
            self.random_runs(24)
        self.res['functions'] = sorted(cv.seen)
        self.res['wall'] = time.time() - t0
        sym.CUR = None
        return self.res

    def explore(self, pins):
        try:
            self.explore_all(pins)
        except Exception:
            # ctypes turns what the alarm raises in a call into the solver into an error of its own
            if expired:
                raise Unsupported('time budget exhausted')
            raise

    def explore_all(self, pins):
        ex = Explorer(self.stats, seed=self.seed, deadline=self.deadline)
        cv = cov()
        npaths = 0
        while True:
            ex.begin_path()
            sym.CUR = ex
            ctx = C.SymCtx(ex, pins)
            exc = None
            if self.h.warm and npaths < 3:
                self.warm(ctx)
            try:
                cv.on = True
                with quiet():
                    self.h.fn(ctx, *self.case)
                    ctx.check_kept()
            except PathAbort:
                self.res['aborted'] += 1
                exc = PathAbort
            except RecursionError as e:
                raise Unsupported('recursion limit')
            except (Exception, SystemExit) as e:
                exc = e
            finally:
                cv.on = False
                ctx.close_ctx()
            if exc is not None and expired:
                raise Unsupported('time budget exhausted')
            if exc is not PathAbort:
                npaths += 1
                self.res['paths'] += 1
                if npaths > ex.max_paths:
                    raise Unsupported('more than %d paths' % ex.max_paths)
                self.path_done(ex, ctx, exc)
            if not ex.next_prefix():
                break
        if npaths == 0:
            raise Unsupported('no feasible path: the harness is vacuous')

    def warm(self, ctx):
        """An earlier use of the modules, so that what they remember from it would be seen."""
        ctx.ex.warming = True
        for k in range(WARM):
            w = C.WarmCtx(ctx, k)
            try:
                with quiet():
                    self.h.fn(w, *self.case)
                break
            except C.Skip:
                continue
            except (Exception, SystemExit, Unsupported, PathAbort) as e:
                if expired:
                    raise Unsupported('time budget exhausted')
                if os.environ.get('SYMX_DEBUG'):
                    print('earlier use: %s: %s' % (type(e).__name__, e), self.h.name, self.case, file=sys.stderr)
                break
            finally:
                w.close_ctx()
        ctx.ex.warming = False

    # ---------------------------------------------------------------- end of one path
    def path_done(self, ex, ctx, exc):
        env = ex.sample_env()
        if env is None:
            env = self.model_env(ex)
        if exc is not None:
            txt = '%s: %s' % (type(exc).__name__, exc)
            tb = traceback.extract_tb(exc.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            if not self.replay(ex, ctx, [env] if env is not None else [], 'exception', txt):
                self.res['undecided'].append('exception not reproduced: %s (%s)' % (txt, where))
            return
        discharge(ex, ex.obligations, self.h.budget)
        for o in ex.obligations:
            if o.status == 'proved':
                continue
            if o.status == 'refuted':
                if isinstance(o.note, dict):
                    e2 = self.env_of(ex, o.note)
                    envs = [e2]
                else:
                    envs = [env] if env is not None else []
                if not self.replay(ex, ctx, envs, o.label, o.note if isinstance(o.note, str) else ''):
                    self.res['undecided'].append('%s: counterexample not reproduced' % o.label)
            else:
                if not self.replay(ex, ctx, [], o.label, ''):
                    self.res['undecided'].append('%s: %s' % (o.label, o.note))
            if len(self.res['violations']) >= 5:
                break
        # agreement of the encoding with the real code at a point of this path
        for k in range(self.h.runs):
            if env is None or self.res['traces'] >= 60:
                break
            self.validate(ex, ctx, env)
            env = ex.sample_env()
        if len(self.res['samples']) < 3 and env is not None:
            self.res['samples'].append('%s%s %s' % (self.h.name, list(self.case), _brief(dict(ex.names(env), **ctx.pinned, **ex.choices))))

    def env_of(self, ex, names):
        env = P.Env()
        for n, i in ex.inputs.items():
            env[i] = names[n] if n in names else ex.sample_atom(P.POOL.atoms[i])
        return env

    def model_env(self, ex):
        try:
            if ex.zcheck([], [q for b in ex.pc for q in b.polys()], 4000) == engine.z3.sat:
                return ex.z3_env(ex.zmodel)
        except Unsupported:
            pass
        return None

    def values(self, ex, ctx, env):
        v = dict(ctx.pinned)
        v.update(ex.names(env))
        return v

    def replay(self, ex, ctx, envs, label, why):
        """Try to reproduce a failure on the real code; records the violation and returns True if it does."""
        if any(v['label'] == label for v in self.res['violations']):
            return True
        cands = [(e, True) for e in envs]
        for k in range(12):
            e = ex.sample_env(tries=60)
            if e is None:
                break
            cands.append((e, False))
        for env, given in cands:
            vals = self.values(ex, ctx, env)
            self.stats.inc('replays')
            c, x, skipped = run_concrete(self.h, self.case, vals, ex.choices, seed=self.seed)
            if skipped or not c.failures:
                continue
            self.violation(label, c, vals, dict(ex.choices), why)
            return True
        return False

    def violation(self, label, c, vals, choices, why=''):
        lab, det = c.failures[0]
        for l, d in c.failures:
            if l == label:
                lab, det = l, d
                break
        if any(v['label'] == lab for v in self.res['violations']):
            return
        if not self.res['violations']:
            again(45)       # enough is known: finish this case soon
        self.res['violations'].append(dict(label=lab, detail=det, values=dict(c.values), choices=dict(c.choices), why=str(why),
                                           failures=c.failures[:10]))

    def validate(self, ex, ctx, env):
        vals = self.values(ex, ctx, env)
        c, x, skipped = run_concrete(self.h, self.case, vals, ex.choices, seed=self.seed)
        if skipped:
            return
        if c.failures:
            # the solver found the property to hold here: is the difference more than rounding?
            c2, x2, sk = run_concrete(self.h, self.case, vals, ex.choices, rel=max(1e-4, self.h.rel), seed=self.seed)
            if c2.failures:
                self.violation(c2.failures[0][0], c2, vals, dict(ex.choices), 'found while validating the encoding')
            return
        bad = []
        if len(c.logged) != len(ctx.logged):
            bad.append('%d observations instead of %d' % (len(c.logged), len(ctx.logged)))
        else:
            for (la, ga), (lb, gb) in zip(ctx.logged, c.logged):
                if len(ga) != len(gb):
                    bad.append('%s: size' % la)
                    break
                scale = max([abs(complex(y)) for y in gb if isinstance(y, (int, float, complex)) and y == y] + [0.0])
                for x1, y1 in zip(ga, gb):
                    try:
                        v = sym_value(x1, env)
                    except (ValueError, OverflowError, ZeroDivisionError, KeyError):
                        continue
                    if not _num_close(v, y1, 1e-5) and abs(complex(v) - complex(y1)) > 1e-8 * scale:
                        bad.append('%s: encoding %r, real code %r' % (la, v, y1))
                        break
        if bad:
            self.res['mismatches'].append(bad[0])
            self.res['undecided'].append('encoding disagrees with the real code: ' + bad[0])
        else:
            self.res['traces'] += 1

    def random_runs(self, n):
        rng = random.Random(self.seed)
        for k in range(n):
            if self.deadline and time.time() > self.deadline + 90:
                break
            c, x, skipped = run_concrete(self.h, self.case, {}, {}, seed=rng.randrange(1 << 30))
            if skipped:
                continue
            self.stats.inc('random_runs')
            if c.failures:
                self.violation(c.failures[0][0], c, c.values, c.choices, 'random replay')


def _brief(d, n=12):
    items = list(d.items())
    s = ', '.join('%s=%s' % (k, ('%.4g' % v) if isinstance(v, float) else v) for k, v in items[:n])
    return '{' + s + (', ... %d inputs' % len(items) if len(items) > n else '') + '}'


def again(seconds):
    global expired
    expired = False
    if multiprocessing_job:
        signal.setitimer(signal.ITIMER_REAL, seconds, 2.0 if seconds else 0)     # repeated, as it is lost inside __del__


multiprocessing_job = False
expired = False


def _alarm(sig, frame):
    global expired
    expired = True
    raise Unsupported('time budget exhausted')


def _work(args):
    prop, name, case, tier, seed, deadline = args
    h = harness.find(prop, name)
    j = Job(h, case, tier, seed, deadline)
    global multiprocessing_job, expired
    multiprocessing_job, expired = True, False
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time()), 2.0)
        try:
            return j.run()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Exception:
        j.res['mode'] = 'error'
        j.res['undecided'].append('machinery error: %s' % ' | '.join(traceback.format_exc().splitlines()[-7:]))
        j.res['wall'] = 0
        return j.res


# ------------------------------------------------------------------------------- known findings

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line[8:].split() if '=' in x and not x.startswith('what'))
                if f.get('property') == prop:
                    out.append((f['harness'], f['label'], line.partition(' what=')[2]))
    return out


# ------------------------------------------------------------------------------- a whole check

def check(prop, tier='quick', seed=1, only=None, verbose=False, jobs=None, limit=None):
    t0 = time.time()
    importlib.import_module('props.' + prop)
    hs = harness.REGISTRY[prop]
    limit = limit or (780 if tier == 'quick' else 3300)
    work = []
    for h in hs:
        if only and not any(fnmatch.fnmatch(h.name, o) for o in only):
            continue
        for case in h.case_list(tier):
            work.append((prop, h.name, tuple(case), tier, seed, t0 + limit * 0.85))
    order = sorted(range(len(work)), key=lambda i: not harness.find(work[i][0], work[i][1]).heavy)
    nproc = jobs or min(8, len(work))
    results = []
    if nproc <= 1:
        for i in order:
            results.append(_work(work[i]))
            if verbose:
                report(results[-1])
    else:
        results = pool_run([work[i] for i in order], nproc, t0 + limit, verbose, known_findings(prop))
    return finish(prop, tier, seed, hs, work, results, time.time() - t0)


def _child(conn, todo):
    for w in todo:
        conn.send(_work(w))
    conn.send(None)
    conn.close()
    os._exit(0)


def pool_run(work, nproc, t_end, verbose, known=()):
    """Runs the jobs in forked processes; a job whose process dies is reported as undecided."""
    mpx = mp.get_context('fork')
    results, running, nxt = [], [], 0
    batch = max(1, min(8, len(work) // (nproc * 6)))
    while (nxt < len(work) or running) and time.time() < t_end:
        while nxt < len(work) and len(running) < nproc:
            todo = work[nxt:nxt + batch]
            nxt += len(todo)
            here, there = mpx.Pipe(False)
            p = mpx.Process(target=_child, args=(there, todo))
            p.start()
            there.close()
            running.append([p, here, todo])
        ready = mp.connection.wait([r[1] for r in running], timeout=1.0)
        for r in list(running):
            if r[1] not in ready:
                continue
            try:
                x = r[1].recv()
            except (EOFError, OSError):
                x = None
            if x is not None:
                r[2].pop(0)
                results.append(x)
                if x['violations'] and not known:
                    t_end = min(t_end, time.time() + 60)        # the verdict is certain: finish soon
                if verbose:
                    report(x)
                continue
            running.remove(r)
            r[1].close()
            r[0].join()
            if r[2]:    # the process died
                w = r[2].pop(0)
                j = Job(harness.find(w[0], w[1]), w[2], w[3], w[4], w[5])
                j.res.update(mode='error', wall=0)
                j.res['undecided'].append('the process running this case ended with code %s' % r[0].exitcode)
                results.append(j.res)
                if verbose:
                    report(j.res)
                work = work[:nxt] + r[2] + work[nxt:]
    for r in running:
        r[0].kill()
        r[0].join()
    return results


def report(r):
    print('  %-28s %-34s %-7s paths=%d ob=%d/%d q=%d solver=%.1fs traces=%d %.1fs %s' % (
        r['harness'], str(r['case'])[:34], r['mode'], r['paths'], r['stats'].get('proved', 0), r['stats'].get('obligations', 0),
        r['stats'].get('queries', 0), r['stats'].get('solver_s', 0), r['traces'], r.get('wall', 0),
        'VIOL' if r['violations'] else ''), flush=True)
    for u in r['undecided'][:4]:
        print('      undecided:', u[:400])
    for v in r['violations'][:3]:
        print('      violation:', v['label'], v['detail'][:300], _brief(v['values']))


def finish(prop, tier, seed, hs, work, results, wall):
    known = known_findings(prop)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rdir, f))
    viol, knownhits, undecided = [], {}, []
    tot = Stats()
    funcs, samples, decided = set(), [], 0
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(r['functions'])
        if len(samples) < 12:
            samples += r['samples'][:2]
        for u in r['undecided']:
            undecided.append('%s%s: %s' % (r['harness'], list(r['case']), u))
        if r['mode'] in ('full', 'pinned') and r['stats'].get('proved', 0):
            decided += 1
        for v in r['violations']:
            hit = None
            for hname, lab, what in known:
                if hname == r['harness'] and fnmatch.fnmatchcase(v['label'], lab):
                    hit = (hname, lab, what)
            if hit:
                knownhits[hit] = v
                continue
            path = os.path.join(rdir, '%s-%d.json' % (prop, len(viol) + 1))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, harness=r['harness'], case=r['case'], **v), f, indent=1, default=_js)
            viol.append((path, r, v))
    missing = len(work) - len(results)
    if missing:
        undecided.append('%d of %d cases did not finish in the time limit' % (missing, len(work)))
    paths = sum(r['paths'] for r in results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        coverage=dict(
            states=max(1, paths), transitions=max(1, tot.get('decisions', 0) + paths),
            traces_validated_against_impl=sum(r['traces'] for r in results),
            samples=samples[:12] or ['none'],
            states_are='feasible symbolic paths of the encoded functions, each over all values of its symbolic inputs',
            transitions_are='branch decisions taken by the solver plus path ends',
            functions_encoded=sorted(funcs),
            bounds=[dict(harness=h.name, what=h.bounds, cases=[list(c) for c in h.case_list(tier)][:40],
                         n_cases=len(h.case_list(tier))) for h in hs],
            obligations=tot.get('obligations', 0), obligations_proved=tot.get('proved', 0),
            queries=tot.get('queries', 0), solver_s=round(tot.get('solver_s', 0.0), 3),
            nonlinear_proofs=tot.get('nra_proved', 0), branch_feasibility_unknown=tot.get('feasibility_unknown', 0),
            replays_on_real_code=tot.get('replays', 0), fallback_random_runs=tot.get('random_runs', 0),
            modes={m: sum(1 for r in results if r['mode'] == m) for m in ('full', 'pinned', 'replay-only', 'error')},
            undecided=undecided[:40], n_undecided=len(undecided),
            known_findings=[list(k) for k in knownhits],
        ),
        assumptions=['floating point is treated as exact real arithmetic with tolerance 1e-9 of the largest coefficient',
                     'numpy, scipy.special and math functions behave as their contracts in symx state (validated against the real '
                     'libraries at the start of the run and by the replayed traces)'],
    )
    if viol:
        ev['violations'] = ['%s %s: %s' % (r['harness'], v['label'], v['detail'][:300]) for _, r, v in viol]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_js)
    print('%s %s: %d cases, %d paths, %d/%d obligations proved, %d queries, solver %.1f s, %d traces validated, %.1f s' % (
        prop, tier, len(results), paths, tot.get('proved', 0), tot.get('obligations', 0), tot.get('queries', 0),
        tot.get('solver_s', 0.0), sum(r['traces'] for r in results), wall))
    for u in undecided[:10]:
        print('UNDECIDED ' + u[:300])
    for hname, lab, what in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, what or hname + ' ' + lab))
    for path, r, v in viol[:10]:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   %s%s %s: %s' % (r['harness'], list(r['case']), v['label'], v['detail'][:300]))
    if viol:
        return 1
    if not decided:
        runs = tot.get('random_runs', 0) + tot.get('replays', 0)
        print('NOT DECIDED by the solver: the current code is outside what can be encoded; %d runs of the real code agree' % runs)
        if not runs:
            return 2
    return 0


def _js(o):
    try:
        return float(o)
    except Exception:
        return repr(o)


def replay_file(path):
    d = json.load(open(path))
    importlib.import_module('props.' + d['property'])
    h = harness.find(d['property'], d['harness'])
    logging.disable(logging.CRITICAL)
    warm_concrete(h, _tup(d['case']))
    c, exc, skipped = run_concrete(h, _tup(d['case']), d['values'], d['choices'])
    for l, w in c.failures:
        print('FAILS %s: %s' % (l, w))
    if not c.failures:
        print('does not fail')
    return 1 if c.failures else 0


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x
