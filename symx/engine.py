"""Path exploration: re-execution with a decision trace, feasibility by z3.

One `Ctx` is one symbolic run of a harness.  Every branch on a symbolic value
goes through `Ctx.decide`; the decisions taken so far are replayed without
solver calls and the first new one is checked in both directions.
"""
import time
import zlib
from fractions import Fraction

import z3

from . import terms as T

CTX = None        # the current path


class Control(BaseException):
    """Base of engine control flow: not an Exception, so code under test can not catch it."""


class PathEnd(Control):
    def __init__(self, status, detail=''):
        super().__init__(status, detail)
        self.status = status
        self.detail = detail
        if CTX is not None:
            CTX.dead = self


def sig_of(n):
    return n.sig


class Model(dict):
    """var node -> value, filled lazily from a z3 model."""

    def __init__(self, m):
        super().__init__()
        self.m = m

    def __missing__(self, v):
        z = self.m.eval(T.to_z3(v), model_completion=True)
        if v.sort == 'B':
            r = z3.is_true(z)
        elif v.sort == 'I':
            r = z.as_long()
        else:
            if z3.is_rational_value(z):
                r = Fraction(z.numerator_as_long(), z.denominator_as_long())
            else:
                a = z.approx(30)
                r = Fraction(a.numerator_as_long(), a.denominator_as_long())
        self[v] = r
        return r


class SolverStack:
    """A z3 solver whose assertion stack follows the current path condition."""

    def __init__(self, timeout_ms=4000):
        self.s = z3.SimpleSolver()
        self.s.set('timeout', timeout_ms)
        self.s.set('random_seed', 1)
        self.stack = []
        self.queries = 0
        self.unknowns = 0
        self.time = 0.0

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(T.to_z3(c))
            st.append(c)

    def check(self, pc, *extra):
        t0 = time.perf_counter()
        self.sync(pc)
        self.queries += 1
        if extra:
            self.s.push()
            for e in extra:
                self.s.add(T.to_z3(e))
        r = self.s.check()
        model = Model(self.s.model()) if r == z3.sat else None
        if extra:
            self.s.pop()
        self.time += time.perf_counter() - t0
        if r == z3.sat:
            return 'sat', model
        if r == z3.unsat:
            return 'unsat', None
        self.unknowns += 1
        return 'unknown', None


class Limits:
    steps = 400_000          # instrumentation ticks per path
    decisions = 4000
    realize = 10             # alternatives per concretisation site and path


class Ctx:
    symbolic = True

    def __init__(self, prefix, solver, limits=Limits, deadline=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []           # new alternatives found: list of prefixes
        self.facts = {}
        self.env = {}
        self.pc = []
        self.solver = solver
        self.model = None
        self.model_of = (None, 0)
        self.limits = limits
        self.steps = 0
        self.deadline = deadline
        self.draws = {}          # name -> (kind, symbolic value)
        self.fresh_n = 0
        self.int_of = {}
        self.incomplete = set()
        self.realizations = 0
        self.touched_caches = {}
        self.branches = 0
        self.real_vars = []
        self.rounded = {}        # exact value -> its double
        self.checks = []
        self.candidates = []
        self.covers = set()
        self.observations = []
        self.discharged = 0
        self.assert_queries = 0
        self.known_hits = []
        self.relaxed = False     # an over-approximation was used on this path
        self.dead = None

    # ---- facts -------------------------------------------------------------
    def learn(self, n, v):
        f = self.facts
        stack = [(n, v)]
        while stack:
            n, v = stack.pop()
            if n.op == 'not':
                n, v = n.args[0], not v
            if n.id in f:
                continue
            f[n.id] = v
            op = n.op
            if v and op == 'and' or (not v and op == 'or'):
                for a in n.args:
                    stack.append((a, v))
            elif v and op == 'eq':
                a, b = n.args
                if b.op == 'const' and a.op == 'var':
                    self.env[a] = b.args[0]
                elif a.op == 'const' and b.op == 'var':
                    self.env[b] = a.args[0]
            elif op == 'var':
                self.env[n] = v
            elif op == 'iff' and v:
                a, b = n.args
                if a.id in f:
                    stack.append((b, f[a.id]))
                elif b.id in f:
                    stack.append((a, f[b.id]))

    def peval(self, n):
        """True/False when n follows syntactically from the facts, else None."""
        op = n.op
        if op == 'const':
            return n.args[0]
        if op == 'not':
            r = self.peval(n.args[0])
            return None if r is None else not r
        r = self.facts.get(n.id)
        if r is not None:
            return r
        if op == 'and':
            res = True
            for a in n.args:
                r = self.peval(a)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for a in n.args:
                r = self.peval(a)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        env = self.env
        for v in T.variables(n):
            if v not in env:
                return None
        return bool(T.evaluate(n, env))

    def value_of(self, n):
        """Constant value of a numeric node if all its variables are fixed, else None."""
        if n.op == 'const':
            return n.args[0]
        env = self.env
        if n.op == 'var':
            return env.get(n)
        for v in T.variables(n):
            if v not in env:
                return None
        return T.evaluate(n, env)

    def add_pc(self, n):
        if n is T.TRUE:
            return
        self.pc.append(n)
        self.learn(n, True)

    # ---- decisions ---------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.limits.steps:
            raise PathEnd('steps')
        if self.deadline is not None and not self.steps & 1023 and time.time() > self.deadline:
            raise PathEnd('deadline')

    def _next(self, sig):
        """Replay the next recorded decision, or None when past the prefix."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != sig:
                raise PathEnd('diverged', f'{d} at {self.pos}')
            self.trace.append(d)
            return d
        if len(self.trace) >= self.limits.decisions:
            raise PathEnd('decisions')
        if self.deadline is not None and time.time() > self.deadline:
            raise PathEnd('deadline')
        return None

    def _model(self):
        m = self.model
        if m is not None and self.model_of[0] is m and self.model_of[1] == len(self.pc):
            return m
        if m is not None:
            # constraints added since the model was found
            k = self.model_of[1] if self.model_of[0] is m else 0
            for c in self.pc[k:]:
                if not T.evaluate(c, m):
                    self.model = m = None
                    break
        if m is None:
            r, m = self.solver.check(self.pc)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r == 'unknown':
                return None
            self.model = m
        self.model_of = (m, len(self.pc))
        return m

    def _satisfied(self, m):
        self.model = m
        self.model_of = (m, len(self.pc))

    def decide(self, n, prefer=None):
        if self.dead is not None:
            raise self.dead
        r = self.peval(n)
        if r is not None:
            return r
        if n.op == 'not':
            return not self.decide(n.args[0], None if prefer is None else not prefer)
        sig = sig_of(n)
        d = self._next(sig)
        if d is not None:
            v = d[1]
            if d[2]:
                self.learn(n, v)
            else:
                self.add_pc(n if v else T.not_(n))
            return v
        self.branches += 1
        m = self._model()
        nn = T.not_(n)
        if m is None:
            rt, mt = self.solver.check(self.pc, n)
            rf, mf = self.solver.check(self.pc, nn)
        elif T.evaluate(n, m):
            rt, mt = 'sat', m
            rf, mf = self.solver.check(self.pc, nn)
        else:
            rf, mf = 'sat', m
            rt, mt = self.solver.check(self.pc, n)
        if rt == 'unsat' and rf == 'unsat':
            raise PathEnd('infeasible')
        if rt == 'unsat' or rf == 'unsat':
            v = rt != 'unsat'
            self.trace.append((sig, v, True))
            self.learn(n, v)
            self._satisfied(mt if v else mf)
            return v
        v = True if prefer is None else prefer
        self.alts.append(tuple(self.trace) + ((sig, not v, False),))
        self.trace.append((sig, v, False))
        self.add_pc(n if v else nn)
        self._satisfied(mt if v else mf)
        return v

    def realize(self, n, candidates=()):
        """Concretise a numeric node by forking over the values it can take."""
        if self.dead is not None:
            raise self.dead
        v = self.value_of(n)
        if v is not None:
            return v
        sig = sig_of(n) ^ 0x5bd1e995
        used = 0
        while True:
            d = self._next(sig)
            if d is not None:
                val = d[1]
                c = T.eq(n, T.intc(val) if n.sort == 'I' else T.realc(val))
                if d[2]:
                    self.add_pc(c)
                    return val
                self.add_pc(T.not_(c))
                used += 1
                continue
            self.realizations += 1
            m = self._model()
            if m is None:
                raise PathEnd('unknown', 'realize')
            val = T.evaluate(n, m)
            for k in candidates:
                if k != val:
                    c = T.eq(n, T.intc(k) if n.sort == 'I' else T.realc(k))
                    r, mk = self.solver.check(self.pc, c)
                    if r == 'sat':
                        val = k
                        self.model = mk
                        break
            c = T.eq(n, T.intc(val) if n.sort == 'I' else T.realc(val))
            r, _ = self.solver.check(self.pc, T.not_(c))
            if r != 'unsat':
                if used < self.limits.realize:
                    self.alts.append(tuple(self.trace) + ((sig, val, False),))
                else:
                    self.incomplete.add('concretisation')
            self.trace.append((sig, val, True))
            self.add_pc(c)
            return val

    def choose(self, n, lo, hi):
        """Enumerate all values of n in lo..hi (no cap)."""
        v = self.value_of(n)
        if v is not None:
            return v
        for k in range(lo, hi):
            if self.decide(T.eq(n, T.intc(k))):
                return k
        if not self.decide(T.eq(n, T.intc(hi))):
            raise PathEnd('infeasible')
        return hi

    def assume(self, n):
        r = self.peval(n)
        if r is True:
            return
        if r is False:
            raise PathEnd('assume')
        sig = sig_of(n) ^ 0x27d4eb2f
        d = self._next(sig)
        if d is None:
            m = self._model()
            if m is None or not T.evaluate(n, m):
                res, m = self.solver.check(self.pc, n)
                if res == 'unsat':
                    raise PathEnd('assume')
            self.trace.append((sig, True, True))
            self.add_pc(n)
            self._satisfied(m)
            return
        self.add_pc(n)

    def new_var(self, name, sort, lo=None, hi=None):
        """Declare a variable; the domain becomes part of the path condition."""
        v = T.var(f'{name}@{lo}:{hi}' if sort == 'I' else name, sort, lo, hi)
        for c in T.domain_constraints(v):
            self.pc.append(c)
            self.facts[c.id] = True
        if self.model is not None and lo is not None:
            self.model[v] = lo if sort == 'I' else Fraction(lo)
        return v

    def fresh(self, sort, lo=None, hi=None, hint='t'):
        self.fresh_n += 1
        return self.new_var(f'!{hint}{self.fresh_n}', sort, lo, hi)


def current():
    return CTX
