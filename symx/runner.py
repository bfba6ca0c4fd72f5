"""Runs the harnesses of one property: exploration, verdicts, replay, evidence.

usage: python3-vt -m symx.runner PROPERTY [--tier quick|thorough] [--only HARNESS]
"""
import collections
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
REAL_PY = '/opt/venv/bin/python'
BUDGET = {'quick': 100.0, 'thorough': 780.0}
SAMPLES = 40


def setup_path():
    sys.dont_write_bytecode = True
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if SITE not in sys.path:
        sys.path.append(SITE)


# --------------------------------------------------------------------------- worker
class Worker:
    def __init__(self, mod, tier):
        from . import engine, hooks, sym
        self.E, self.H, self.sym = engine, hooks, sym
        self.mod = mod
        self.tier = tier
        self.solver = None
        self.cur = None
        self.sampled = collections.Counter()
        self.npaths = collections.Counter()

    def one(self, h, prefix, deadline, agg):
        E = self.E
        ctx = E.Ctx(prefix, self.solver, deadline=deadline)
        g = self.sym.G(ctx)
        E.CTX = ctx
        status, detail = 'ok', ''
        extra = None
        try:
            try:
                h.fn(g, **h.params(self.tier))
                if ctx.dead is not None:
                    raise ctx.dead
            except E.PathEnd as e:
                status, detail = e.status, e.detail
            except (Exception, SystemExit) as err:
                if ctx.dead is not None:
                    status, detail = ctx.dead.status, ctx.dead.detail
                else:
                    status = 'exception'
                    detail = ''.join(traceback.format_exception(err))[-2500:]
            ctx.deadline = None
            ctx.dead = None
            if status == 'diverged':
                agg['diverged'].append(detail)
                ctx.alts = []
            try:
                self.finish(ctx, g, h, status, detail, agg)
            except E.PathEnd as e:
                status = e.status
        finally:
            E.CTX = None
            for f in ctx.touched_caches.values():
                f.cache_clear()
            reset = getattr(self.mod, 'reset', None)
            if reset is not None:
                reset()
        agg['status'][status] += 1
        agg['branches'] += ctx.branches
        agg['discharged'] += ctx.discharged
        agg['assert_queries'] += ctx.assert_queries
        agg['realizations'] += ctx.realizations
        agg['steps'] += ctx.steps
        for c in set(ctx.checks):
            agg['checks'][c] += 1
        for c in ctx.covers:
            agg['covers'][c] += 1
        for c in ctx.incomplete:
            agg['incomplete'][c] += 1
        for k in ctx.known_hits:
            if sum(1 for x in agg['known'] if x[0] == k[0]) < 3:
                agg['known'].append(k)
        return ctx.alts

    def finish(self, ctx, g, h, status, detail, agg):
        key = h.name
        for label, rec in ctx.candidates:
            if sum(1 for c in agg['candidates'] if c[0] == label) < 4:
                agg['candidates'].append((label, rec, ''))
        if status in ('exception', 'steps', 'unsupported', 'decisions'):
            label = {'exception': 'uncaught', 'steps': 'nontermination'}.get(status, 'probe')
            m = ctx._model()
            if m is not None and sum(1 for c in agg['candidates'] if c[0] == label) < 4:
                agg['candidates'].append((label, g.extract(g.refine(m)), detail))
            if status in ('unsupported', 'decisions'):
                agg['incomplete'][f'{status}: {detail}'] += 1
            return
        if status != 'ok':
            return
        self.npaths[key] += 1
        n = self.npaths[key]
        if not ctx.candidates and (self.sampled[key] < 8 or n & (n - 1) == 0
                                   or n % 97 == 0) and self.sampled[key] < SAMPLES:
            m = ctx._model()
            if m is None:
                return
            m = g.refine(m)
            self.sampled[key] += 1
            obs = []
            for name, v in ctx.observations:
                try:
                    obs.append([name, g.concretise(v, m)])
                except Exception:
                    obs.append([name, '?'])
            agg['samples'].append(dict(record=g.extract(m), observations=obs,
                                       checks=list(ctx.checks), relaxed=ctx.relaxed))

    def loop(self, conn):
        E = self.E
        while True:
            msg = conn.recv()
            if msg is None:
                return
            hname, prefixes, until, deadline = msg
            h = next(x for x in self.mod.HARNESSES if x.name == hname)
            if self.cur != hname:
                self.solver = E.SolverStack()
                self.cur = hname
            s = self.solver
            q0, u0, t0 = s.queries, s.unknowns, s.time
            agg = new_agg()
            stack = list(prefixes)
            while stack and time.time() < until:
                p = stack.pop()
                alts = self.one(h, p, deadline, agg)
                stack.extend(alts)
            agg['queries'] = s.queries - q0
            agg['unknowns'] = s.unknowns - u0
            agg['solver_s'] = s.time - t0
            agg['entered'] = set(self.H.ENTERED)
            conn.send((hname, stack, agg))


def new_agg():
    return dict(status=collections.Counter(), branches=0, discharged=0, assert_queries=0,
                realizations=0, steps=0, checks=collections.Counter(),
                covers=collections.Counter(), incomplete=collections.Counter(), known=[],
                candidates=[], samples=[], diverged=[], queries=0, unknowns=0, solver_s=0.0,
                entered=set())


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, collections.Counter):
            a[k].update(v)
        elif isinstance(v, list):
            a[k].extend(v)
        elif isinstance(v, set):
            a[k] |= v
        else:
            a[k] += v


def worker_main(conn, mod, tier, inherited):
    for c in inherited:
        c.close()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    try:
        Worker(mod, tier).loop(conn)
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        traceback.print_exc()
        os._exit(3)


# --------------------------------------------------------------------------- concrete side
def concrete_batch(jobs, timeout=240):
    """Run jobs on the real code; returns a list of results (None where it died)."""
    if not jobs:
        return []
    with tempfile.TemporaryDirectory() as d:
        src, dst = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(src, 'w') as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
                   PYTHONPATH=REPO)

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        try:
            subprocess.run([REAL_PY, os.path.join(HERE, 'symx', 'replay.py'), '--batch', src, dst],
                           env=env, timeout=timeout, check=True, preexec_fn=limits, cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            with open(dst) as f:
                return json.load(f)
        except subprocess.CalledProcessError as err:
            sys.stderr.write(err.stderr.decode(errors='replace')[-2000:])
        except subprocess.TimeoutExpired:
            sys.stderr.write('concrete batch timed out\n')
    if len(jobs) == 1:
        return [None]
    mid = len(jobs) // 2
    return concrete_batch(jobs[:mid], timeout) + concrete_batch(jobs[mid:], timeout)


def known_findings():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


# --------------------------------------------------------------------------- main
class Run:
    def __init__(self, prop, tier, only=None, budget=None, jobs=None):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.budget = budget or BUDGET[tier]
        self.deadline = self.t0 + self.budget
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.module = prop.lower()
        self.only = only
        self.violations = []
        self.spurious = []
        self.known_seen = {}
        self.replayed = collections.Counter()
        self.aggs = {}
        self.exhausted = {}
        self.validated = 0
        self.mismatch = []

    def load(self):
        from . import instrument, models
        from . import hooks
        import omegaconf, dateparser, docstring_parser, yaml  # noqa: F401,E401
        sys.modules.pop('argparse', None)      # marsh gets a rewritten one: command lines are symbolic
        instrument.install({'marsh': os.path.join(REPO, 'marsh'),
                            'harness': os.path.join(HERE, 'harness'),
                            'argparse': os.path.join(os.path.dirname(os.__file__), 'argparse')})
        models.install()
        from . import stdlib
        stdlib.install()
        import marsh
        assert marsh.__file__ == os.path.join(REPO, 'marsh', '__init__.py'), marsh.__file__
        self.mod = importlib.import_module('harness.' + self.module)
        self.H = hooks

    def job(self, hname, rec):
        h = next(x for x in self.mod.HARNESSES if x.name == hname)
        return dict(property=self.prop, module=self.module, harness=hname,
                    params=h.params(self.tier), record=rec)

    def save_replay(self, job, label):
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{job["harness"]}-{len(self.violations)}.json')
        with open(path, 'w') as f:
            json.dump(dict(job, label=label), f, indent=1)
        return path

    def handle_candidates(self, hname, cands):
        todo = []
        for label, rec, detail in cands:
            if self.replayed[hname, label] >= 16:
                continue
            self.replayed[hname, label] += 1
            todo.append((label, rec, detail))
        res = concrete_batch([self.job(hname, rec) for _, rec, _ in todo])
        for (label, rec, detail), r in zip(todo, res):
            if r is None:
                self.spurious.append((hname, label, rec, 'replay died'))
            elif r['failed']:
                path = self.save_replay(self.job(hname, rec), r['failed'][0])
                self.violations.append((hname, r['failed'][0], rec, path, r))
                return True
            elif label != 'probe':
                self.spurious.append((hname, label, rec, detail, r['status']))
        return False

    def explore(self):
        ctxm = mp.get_context('fork')
        conns = []
        procs = []
        for _ in range(self.jobs):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=worker_main, args=(b, self.mod, self.tier, [c for c, in
                             [(x,) for x in conns]] + [a]), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        hs = [h for h in self.mod.HARNESSES if self.only is None or h.name == self.only]
        pools = {h.name: [()] for h in hs}
        busy = {}
        idle = list(conns)
        running = collections.Counter()
        for h in hs:
            self.aggs[h.name] = new_agg()
        tw = sum(h.weight for h in hs)
        # each harness may use its share of the budget, plus what others leave unused
        spent = collections.Counter()
        dead = False
        order = [h.name for h in hs]
        share = {h.name: self.budget * self.jobs * h.weight / tw for h in hs}
        stop = False
        try:
            while True:
                now = time.time()
                live = [n for n in order if pools[n]]
                if now < self.deadline and not stop:
                    # cheapest relative to its share first
                    while idle and live:
                        live.sort(key=lambda n: (spent[n] + running[n] * 0.7) / share[n])
                        n = live[0]
                        pool = pools[n]
                        tot = len(pool)
                        k = max(1, min(16, tot // (len(idle) + 1)))
                        # shallow prefixes spread the work
                        chunk, pools[n] = pool[:k], pool[k:]
                        c = idle.pop()
                        slice_ = 0.08 if tot < 2 * self.jobs else 0.8
                        c.send((n, chunk, time.time() + slice_, self.deadline + 5))
                        busy[c] = (n, time.time())
                        running[n] += 1
                        live = [x for x in order if pools[x]]
                if not busy:
                    break
                for c in wait(list(busy), timeout=1.0):
                    n, ts = busy.pop(c)
                    running[n] -= 1
                    spent[n] += time.time() - ts
                    try:
                        hname, left, agg = c.recv()
                    except EOFError:
                        dead = True
                        self.aggs[n]['incomplete']['worker died'] += 1
                        conns.remove(c)
                        continue
                    idle.append(c)
                    cands = agg.pop('candidates')
                    merge(self.aggs[n], agg)
                    pools[n].extend(left)
                    if cands and not stop:
                        if self.handle_candidates(n, cands):
                            stop = True
                            for x in pools:
                                pools[x] = []
                if time.time() > self.deadline + 20:
                    break
        finally:
            for c in conns:
                try:
                    c.send(None)
                except (BrokenPipeError, OSError):
                    pass
            for p in procs:
                p.join(0.5)
                if p.is_alive():
                    p.terminate()
        for h in hs:
            self.exhausted[h.name] = not pools[h.name] and not stop
            if pools[h.name]:
                self.aggs[h.name]['incomplete'][
                    f'time budget: {len(pools[h.name])} open prefixes'] += 1
        return hs

    def cross_validate(self, hs):
        jobs, meta = [], []
        for h in hs:
            for s in self.aggs[h.name]['samples'][:SAMPLES * 2]:
                jobs.append(self.job(h.name, s['record']))
                meta.append((h.name, s))
        t0 = time.time()
        res = []
        # several interpreters, the runs are independent
        from concurrent.futures import ThreadPoolExecutor
        n = max(1, (len(jobs) + 7) // 8)
        with ThreadPoolExecutor(8) as ex:
            for part in ex.map(concrete_batch, [jobs[i:i + n] for i in range(0, len(jobs), n)]):
                res.extend(part)
        for (hname, s), r, job in zip(meta, res, jobs):
            if r is None:
                self.mismatch.append((hname, 'died', s['record']))
                continue
            if r['failed']:
                path = self.save_replay(job, r['failed'][0])
                self.violations.append((hname, r['failed'][0], s['record'], path, r))
                continue
            ok = r['status'] == 'ok' and r['checks'] == s['checks']
            if ok and len(r['observations']) == len(s['observations']):
                for (a, x), (b, y) in zip(s['observations'], r['observations']):
                    if a != b or (x != y and '?' not in x):
                        ok = False
            else:
                ok = False
            if ok:
                self.validated += 1
            elif not s['relaxed']:
                self.mismatch.append((hname, r['status'], s['record'], s['observations'],
                                      r['observations'], r['detail'][-300:], s['checks'], r['checks']))
        self.validate_s = time.time() - t0

    def known(self, hs):
        kf = {f['id']: f for f in known_findings()['findings'] if f['property'] == self.prop}
        for h in hs:
            for fid, label, rec in self.aggs[h.name]['known'][:40]:
                if fid in self.known_seen:
                    continue
                r = concrete_batch([self.job(h.name, rec)])[0]
                if r is None:
                    continue
                if fid not in kf:
                    if r['known'] or r['failed']:
                        path = self.save_replay(self.job(h.name, rec), label)
                        self.violations.append((h.name, label, rec, path, r))
                    continue
                if any(k[0] == fid for k in r['known']):
                    self.known_seen[fid] = kf[fid]['what']

    def evidence(self, hs):
        from . import hooks
        entered = set()
        tot = new_agg()
        per = {}
        for h in hs:
            a = self.aggs[h.name]
            entered |= a['entered']
            per[h.name] = dict(
                bounds={k: v for k, v in h.params(self.tier).items()},
                doc=(h.fn.__doc__ or '').strip(),
                paths=sum(a['status'].values()), completed_paths=a['status']['ok'],
                statuses=dict(a['status']), assertions_discharged=a['discharged'],
                checks=dict(a['checks']), covers=dict(a['covers']),
                exhausted=bool(self.exhausted.get(h.name)),
                incomplete=dict(a['incomplete']))
            merge(tot, {k: v for k, v in a.items()})
        names = sorted({hooks.FUNC_NAMES[i] for i in entered})
        marsh_fns = [n for n in names if n.startswith('marsh')]
        exhaustive = all(self.exhausted.get(h.name) for h in hs) and not tot['incomplete'] \
            and not tot['diverged'] and not self.spurious and not tot['unknowns']
        samples = []
        from .replay_fmt import pretty
        for h in hs:
            for s in self.aggs[h.name]['samples'][:3]:
                samples.append(dict(harness=h.name,
                                    inputs={k: repr(v) for k, v in pretty(s['record']).items()},
                                    observed=s['observations'][:4], checks=s['checks'][:6]))
        cov = dict(
            states=sum(tot['status'].values()),
            transitions=tot['branches'],
            traces_validated_against_impl=self.validated,
            samples=samples[:20],
            exhaustive=bool(exhaustive),
            harnesses=per,
            functions_encoded=marsh_fns,
            functions_encoded_count=len(marsh_fns),
            assertions_discharged=tot['discharged'],
            solver_queries=tot['queries'],
            assertion_queries=tot['assert_queries'],
            solver_unknown=tot['unknowns'],
            solver_s=round(tot['solver_s'], 3),
            concretisations=tot['realizations'],
            spurious_counterexamples=len(self.spurious),
            replay_mismatches=len(self.mismatch),
            diverged=len(tot['diverged']),
            known_findings=sorted(self.known_seen),
            meaning='states = symbolic paths executed on the rewritten current source; '
                    'transitions = branch decisions put to the solver; every assertion on every '
                    'path is discharged by the solver for all values satisfying the path '
                    'condition; exhaustive = no path of the bounded input space was left open',
        )
        ev = dict(property=self.prop, tier=self.tier,
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
                  coverage=cov,
                  assumptions=list(getattr(self.mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        return tot, per, exhaustive


COMMON_ASSUMPTIONS = [
    'finite floats are over-approximated by reals (round-trip and literal rounding modelled; '
    'counterexamples are replayed on real floats); strings contain no surrogates',
    'difflib.get_close_matches is stubbed for symbolic arguments: same type errors, empty result '
    '(only error message text depends on it), except in C53, which runs it from its own source',
    'the bounds of each harness (string lengths, widths, depths, steps) are under '
    'coverage.harnesses; nothing is claimed beyond them',
]


def main(argv):
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'symx.runner'] + argv)
    os.environ['TZ'] = 'UTC'
    setup_path()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    run = Run(a.property, a.tier, a.only, a.budget, a.jobs)
    run.load()
    hs = run.explore()
    if not run.violations:
        run.cross_validate(hs)
    if not run.violations:
        run.known(hs)
    tot, per, exhaustive = run.evidence(hs)
    for h in hs:
        p = per[h.name]
        print(f'{a.property} {h.name}: paths={p["paths"]} {p["statuses"]} '
              f'discharged={p["assertions_discharged"]} exhausted={p["exhausted"]} '
              f'incomplete={p["incomplete"]}')
        if a.v:
            print('   covers', p['covers'], 'checks', p['checks'])
    print(f'{a.property}: queries={tot["queries"]} solver={tot["solver_s"]:.1f}s '
          f'realizations={tot["realizations"]} validated={run.validated} '
          f'mismatches={len(run.mismatch)} spurious={len(run.spurious)} '
          f'exhaustive={exhaustive} wall={time.time() - run.t0:.1f}s')
    for m in run.mismatch[:3]:
        print('MISMATCH', m)
    if a.v:
        for s in run.spurious[:6]:
            print('SPURIOUS', s[:2], pretty_rec(s[2]), *s[3:])
        for d in tot['diverged'][:3]:
            print('DIVERGED', d)
    for fid, what in sorted(run.known_seen.items()):
        print(f'KNOWN-FINDING: property={a.property} {fid}: {what}')
    if run.violations:
        hname, label, rec, path, r = run.violations[0]
        print(f'counterexample in {hname}: {label}')
        for k, v in pretty_rec(rec).items():
            print(f'  {k} = {v!r}')
        for k, v in r['observations'][:6]:
            print(f'  observed {k} = {v}')
        if r['detail']:
            print(r['detail'][-1500:])
        print(f'VIOLATION property={a.property} replay={path}')
        return 1
    silent = [h.name for h in hs if not per[h.name]['checks']]
    if silent or not tot['discharged']:
        print(f'ERROR: no assertion was reached in {silent or "any harness"}')
        return 2
    return 0


def pretty_rec(rec):
    from .replay_fmt import pretty
    return pretty(rec)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
