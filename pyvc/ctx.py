"""Path context: facts, decisions, sign oracle, sampling, SMT feasibility."""
import contextlib
import random
import time
from fractions import Fraction
import mpmath
import z3
from . import terms as tm
from .ring import Norm, TooBig

mpmath.mp.dps = 30


class Unsupported(Exception):
    """a construct the verifier does not model (a tool limit, not a defect)"""


class PathEnd(Exception):
    """the current path is infeasible"""


class ProgError(Exception):
    """the program itself fails on this path (shape mismatch, ...)"""


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.paths = 0
        self.decisions = 0
        self.unknown = 0


STATS = Stats()


class Dom:
    """variable declaration"""

    def __init__(self, kind='real', lo=None, hi=None, sampler=None, scale=1.0, arity=0):
        self.kind, self.lo, self.hi, self.sampler, self.scale, self.arity = kind, lo, hi, sampler, scale, arity

    def facts(self, v):
        x = tm.var(v)
        out = []
        if self.kind == 'pos':
            out.append(tm.lt(tm.ZERO, x))
        if self.kind == 'nonneg':
            out.append(tm.le(tm.ZERO, x))
        if self.lo is not None:
            out.append(tm.le(tm.T(self.lo), x))
        if self.hi is not None:
            out.append(tm.le(x, tm.T(self.hi)))
        return out

    def sample(self, rng):
        if self.sampler:
            return mpmath.mpf(self.sampler(rng))
        if self.kind == 'int':
            return mpmath.mpf(rng.randint(int(self.lo if self.lo is not None else 0), int(self.hi if self.hi is not None else (self.lo or 0) + 7)))
        if self.lo is not None and self.hi is not None:
            lo, hi = float(self.lo), float(self.hi)
            return mpmath.mpf(lo + (hi - lo) * rng.random())
        u = rng.random()
        if u < 0.6:
            v = rng.uniform(-3, 3)
        elif u < 0.8:
            v = rng.uniform(-40, 40)
        elif u < 0.9:
            v = rng.uniform(-1, 1) * 10 ** rng.uniform(-6, 0)
        else:
            v = rng.choice([-1, 1]) * 10 ** rng.uniform(0, 4)
        v *= self.scale
        if self.kind in ('pos', 'nonneg'):
            v = abs(v) or 1.0
        if self.lo is not None:
            v = float(self.lo) + abs(v)
        if self.hi is not None:
            v = float(self.hi) - abs(v)
        return mpmath.mpf(v)


class Path:
    def __init__(self, doms, facts=(), prefix=(), rng=None, ufs=None, arrays=None, opts=None):
        self.doms = dict(doms)
        self.base_facts = list(facts)
        self.facts = []
        for v, d in self.doms.items():
            self.facts += d.facts(v)
        self.facts += self.base_facts
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []       # alternative prefixes
        self.guards = []
        self.subst = {}
        self.version = 0
        self._norm = None
        self._normv = -1
        self.known = {}
        self.signcache = {}
        self.rng = rng or random.Random(1)
        self.ufs = ufs or {}
        self.arrays = arrays or {}     # name -> sampler(rng, env) -> list / callable
        self._pool = None
        self._memos = {}
        self.fresh = 0
        self.events = []        # mutations, notes
        self.notes = []
        self.opts = opts or {}
        self.z3_timeout = self.opts.get('z3_ms', 1500)
        self.deadline = self.opts.get('deadline')
        self.in_norm = 0
        self.bound_vars = set()
        self.defs = {}
        self.nosplit = 0
        self.lazyabs = False
        self.canon_busy = False
        self.unified = {}
        self._intlin = {}
        self.genloops = []
        self.owners = {}
        self.keep = []
        self.local = None       # local exploration (inside loop summaries)
        self.vcount = 0
        self.arrfacts = {}      # array name -> fn(element term, *index) -> formulas
        self.posarr = set()
        self.pvars = set()      # variables that differ between array positions
        self.ufacts = []        # facts that hold at every array position
        self._up = None

    # ------------------------------------------------------------ variables
    def new_var(self, base, dom=None):
        name = '%s#%d' % (base, self.fresh)
        self.fresh += 1
        self.doms[name] = dom or Dom('real')
        for fct in self.doms[name].facts(name):
            self.facts.append(fct)
        self._pool = None
        return tm.var(name)

    def universally(self, g):
        """does g hold at every array position?  (True or None)"""
        if g is tm.TRUE:
            return True
        if g is tm.FALSE:
            return None
        key = (len(self.facts), len(self.ufacts))
        if self._up is None or self._up[0] != key:
            p = Path(self.doms, rng=random.Random(5), ufs=self.ufs, arrays=self.arrays)
            for h in self.ufacts + [h for h in self.facts if not (tm.free_vars(h) & self.pvars) and not any('#' in v for v in tm.free_vars(h))]:
                if h not in p.facts and h.op != 'eq':
                    p.facts.append(h)
            for h in self.ufacts + self.facts:
                if h.op == 'eq' and (h in self.ufacts or not (tm.free_vars(h) & self.pvars)):
                    try:
                        p.assume(h)
                    except PathEnd:
                        pass
            self._up = (key, p)
        p = self._up[1]
        if p.formula_truth(g) is True:
            return True
        if p.feasible(tm.not_(g)) is False:
            return True
        return None

    def subst_of(self, name):
        return self.subst.get(name)

    def norm(self):
        if self._norm is None or self._normv != self.version:
            self._norm = Norm(self)
            self._normv = self.version
        return self._norm

    # ------------------------------------------------------------ sampling
    def _gen(self, rng):
        env = {}
        for v, d in self.doms.items():
            env[v] = d.sample(rng)
        for n, s in self.arrays.items():
            env[('arr', n)] = s(rng, env)
        # equalities
        for v in self._subst_order():
            env[v] = tm.evalf(self.subst[v], env, self.ufs)
        return env

    def _subst_order(self):
        return list(reversed(list(self.subst)))

    def _ok(self, env, memo):
        for g in self.facts:
            r = tm.evalform(g, env, self.ufs, memo)
            if not r:
                return False
        return True

    def samples(self, want=12):
        if self._pool is not None:
            return self._pool
        pool = []
        tries = 0
        n = self.opts.get('sample_tries', 600)
        # reuse older pool first
        for env in getattr(self, '_oldpool', []):
            try:
                if any(v not in env for v in self.doms):
                    env = dict(env)
                    for v, d in self.doms.items():
                        if v not in env:
                            env[v] = d.sample(self.rng)
                if self.subst:
                    env = dict(env)
                    for v in self._subst_order():
                        env[v] = tm.evalf(self.subst[v], env, self.ufs)
                memo = {}
                with mpmath.workdps(25):
                    if self._ok(env, memo):
                        pool.append(env)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
        while len(pool) < want and tries < n:
            tries += 1
            if tries > 60 and len(pool) >= 4:
                break
            try:
                with mpmath.workdps(25):
                    env = self._gen(self.rng)
                    memo = {}
                    if self._ok(env, memo):
                        pool.append(env)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError):
                continue
        if not pool:
            env = self.model_sample()
            if env is not None:
                pool.append(env)
        self._pool = pool
        return pool

    def model_sample(self):
        """a sample from an SMT model of the facts"""
        tr = Z3Tr(self)
        s = z3.Solver()
        s.set('timeout', self.z3_timeout)
        try:
            for g in self.facts:
                s.add(tr.form(self._sub_form(g)))
            tr.finish(s)
            t0 = time.time()
            r = s.check()
            STATS.z3_calls += 1
            STATS.z3_time += time.time() - t0
            if r != z3.sat:
                return None
            m = s.model()
            env = {}
            rng = self.rng
            for v, d in self.doms.items():
                zv = tr.vars.get(v)
                if zv is None:
                    env[v] = d.sample(rng)
                else:
                    val = m.eval(zv, model_completion=True)
                    if z3.is_algebraic_value(val):
                        val = val.approx(25)
                    env[v] = mpmath.mpf(val.numerator_as_long()) / val.denominator_as_long()
            for n, sm in self.arrays.items():
                env[('arr', n)] = sm(rng, env)
            with mpmath.workdps(25):
                for v in self._subst_order():
                    env[v] = tm.evalf(self.subst[v], env, self.ufs)
                memo = {}
                for g in self.facts:
                    if tm.evalform(g, env, self.ufs, memo, margin=0) is False:
                        return None
            return env
        except (tm.EvalError, z3.Z3Exception, Unsupported, ZeroDivisionError, ValueError, AttributeError, TypeError):
            return None

    def _sub_form(self, g):
        return tm.subst(g, self.subst_full()) if self.subst else g

    def subst_full(self):
        return dict(self.subst)

    # ------------------------------------------------------------ sign oracle
    def sign(self, t):
        """possible signs of t on this path (subset of {-1,0,1}) or None"""
        if tm.is_q(t):
            q = tm.qv(t)
            return {(q > 0) - (q < 0)}
        key = (t.id, self.version)
        r = self.signcache.get(key, 0)
        if r != 0:
            return r
        self.signcache[key] = None   # guard against recursion
        r = self._sign(t)
        self.signcache[key] = r
        return r

    def _sign(self, t):
        # declared
        if t.op == 'v':
            d = self.doms.get(t.args[0])
            if d is not None:
                if d.kind == 'pos' or (d.lo is not None and d.lo > 0):
                    return {1}
        if t.op == 'sel' and str(t.args[0]) in self.posarr:
            return {1}
        syn = self.synsign(t)
        if syn is not None and (len(syn) == 1 or t.op == 'v'):
            return syn
        seen = set()
        memo_ok = False
        for env in self.samples()[:8]:
            try:
                with mpmath.workdps(25):
                    v = tm.evalf(t, env, self.ufs)
                memo_ok = True
                if abs(v) < mpmath.mpf(10) ** -18:
                    seen.add(0)
                else:
                    seen.add(1 if v > 0 else -1)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                pass
        if {1, -1} <= seen:
            return None
        if 1 in seen:
            order = [(tm.le(t, tm.ZERO), {1}), (tm.lt(t, tm.ZERO), {0, 1})]
        elif -1 in seen:
            order = [(tm.le(tm.ZERO, t), {-1}), (tm.lt(tm.ZERO, t), {0, -1})]
        else:
            order = [(tm.le(t, tm.ZERO), {1}), (tm.le(tm.ZERO, t), {-1}), (tm.lt(t, tm.ZERO), {0, 1}), (tm.lt(tm.ZERO, t), {0, -1})]
        for g, res in order:
            if self.feasible(g, quick=True) is False:
                return res
        return None

    def synsign(self, t, deep=True):
        """possible signs from the structure of the term; None when unknown"""
        op = t.op
        if op == 'q':
            q = t.args[0]
            return {(q > 0) - (q < 0)}
        if op == 'pi':
            return {1}
        key = ('syn', t.id, self.version)
        if key in self.signcache:
            return self.signcache[key]
        r = None
        if op == 'v':
            d = self.doms.get(t.args[0])
            if d is not None:
                if d.kind == 'pos' or (d.lo is not None and d.lo > 0):
                    r = {1}
                elif d.kind == 'nonneg' or (d.lo is not None and d.lo == 0):
                    r = {0, 1}
        elif op == 'sel':
            if str(t.args[0]) in self.posarr:
                r = {1}
        elif op == '+':
            ss = []
            for a in t.args:
                x = self.synsign(a)
                ss.append(x)
                if x is None or len(x) == 3 or x == {1, -1}:
                    break
            if None not in ss and all(x <= {0, 1} for x in ss) and len(ss) == len(t.args):
                r = {1} if any(x == {1} for x in ss) else {0, 1}
            elif None not in ss and all(x <= {0, -1} for x in ss) and len(ss) == len(t.args):
                r = {-1} if any(x == {-1} for x in ss) else {0, -1}
        elif op == '*':
            s = {1}
            for a in t.args:
                x = self.synsign(a)
                if x is None:
                    s = None
                    break
                s = {i * j for i in s for j in x}
            if s is not None and len(s) < 3 and s != {1, -1}:
                r = s
        elif op == '^':
            e = t.args[1]
            e = e.args[0] if isinstance(e, tm.Term) and e.op == 'q' else e
            if isinstance(e, Fraction):
                x = self.synsign(t.args[0])
                if e.denominator != 1:
                    r = {1} if x == {1} else ({0, 1} if e > 0 else None)
                elif e.numerator % 2 == 0:
                    r = {1} if x is not None and 0 not in x else {0, 1}
                elif x is not None:
                    r = set(x)
                if e < 0 and r is not None:
                    r = {i for i in r if i != 0}
        elif op == 'f':
            n = t.args[0]
            if n in ('exp', 'K', 'E'):
                r = {1}
            elif n == 'abs':
                x = self.synsign(t.args[1])
                r = {1} if x is not None and 0 not in x else {0, 1}
            elif n in ('RF', 'RC', 'RJ'):
                xs = [self.synsign(a) for a in t.args[1:]]
                if all(x is not None and x <= {0, 1} for x in xs):
                    r = {1}
            elif n == 'pow' and tm.is_q(t.args[1]) and tm.qv(t.args[1]) > 0:
                r = {1}
        self.signcache[key] = r
        return r

    def signs_of(self, t):
        """possible signs via normal form; None when unknown"""
        try:
            n = self.norm()
            r = n.rf(t)
            if not r.num:
                return {0}
            c, mono, prim = n._primitive(r.num)
            s = {1 if c > 0 else -1}
            for a, e in mono:
                x = n.psign({((a, e),): Fraction(1)})
                if x is None:
                    return None
                s = {i * j for i in s for j in x}
            if prim is not None:
                cc, fs = n.factor(prim)
                if cc < 0:
                    s = {-i for i in s}
                for p, e in fs:
                    x = n.psign(p)
                    if x is None:
                        if e % 2 == 0:
                            x = {0, 1}
                        else:
                            return None
                    elif e % 2 == 0:
                        x = {i * i for i in x}
                    s = {i * j for i in s for j in x}
            for k, e in r.den.items():
                x = n.psign(dict(k))
                if x is None:
                    if e % 2 == 0:
                        x = {1}
                    else:
                        return None
                x = {i for i in x if i != 0} or {1}
                s = {i * (j ** e) for i in s for j in x}
            return s
        except (TooBig, ZeroDivisionError):
            return None

    # ------------------------------------------------------------ feasibility
    def feasible(self, g, quick=False):
        """True / False / None(unknown): is g consistent with the facts"""
        if g is tm.TRUE:
            return True
        if g is tm.FALSE:
            return False
        sg = self._sub_form(g)
        if self.intlinear(sg):
            return self._feasible_int(sg)
        try:
            tr = Z3Tr(self)
            s = z3.Solver()
            s.set('timeout', self.z3_timeout)
            zf = tr.form(self._sub_form(g))
            # relevant facts: transitive sharing of variables
            vs = set(tm.free_vars(g))
            rel = []
            rest = list(self.facts)
            changed = True
            while changed:
                changed = False
                for h in list(rest):
                    fv = tm.free_vars(h)
                    if fv & vs or not fv:
                        rel.append(h)
                        rest.remove(h)
                        if not fv <= vs:
                            vs |= fv
                            changed = True
            for h in rel:
                s.add(tr.form(self._sub_form(h)))
            s.add(zf)
            tr.finish(s)
            t0 = time.time()
            r = s.check()
            STATS.z3_calls += 1
            STATS.z3_time += time.time() - t0
            if r == z3.unsat:
                return False
            if r == z3.sat:
                return True
            STATS.unknown += 1
            return None
        except (z3.Z3Exception, Unsupported):
            return None

    def intlinear(self, g):
        """g relates integer variables linearly"""
        r = self._intlin.get(g)
        if r is None:
            if g.op in ('and', 'or', 'not'):
                r = all(self.intlinear(a) for a in g.args)
            elif g.op in ('lt', 'le', 'eq'):
                ok = lambda t: t.op == 'q' or (t.op == 'v' and t.args[0] in self.doms and self.doms[t.args[0]].kind == 'int') or \
                    (t.op == '*' and len(t.args) == 2 and t.args[0].op == 'q' and ok(t.args[1]))
                t = g.args[0]
                r = all(ok(a) for a in t.args) if t.op == '+' else (t.op != 'q' and ok(t))
            else:
                r = False
            if r or all(v in self.doms for v in tm.free_vars(g)):
                self._intlin[g] = r
                self.keep.append(g)
        return r

    def _feasible_int(self, g):
        key = ('int', g, self.version)
        if key in self.signcache:
            return self.signcache[key]
        s = z3.Solver()
        s.set('timeout', self.z3_timeout)
        zs = {}

        def term(t):
            if t.op == 'q':
                return z3.RealVal(str(tm.qv(t)))
            if t.op == 'v':
                if t not in zs:
                    zs[t] = z3.ToReal(z3.Int(t.args[0]))
                return zs[t]
            if t.op == '*':
                return term(t.args[0]) * term(t.args[1])
            return z3.Sum([term(a) for a in t.args])

        def form(h):
            if h.op == 'not':
                return z3.Not(form(h.args[0]))
            if h.op in ('and', 'or'):
                return (z3.And if h.op == 'and' else z3.Or)([form(a) for a in h.args])
            x = term(h.args[0])
            return x < 0 if h.op == 'lt' else (x <= 0 if h.op == 'le' else x == 0)
        for h in self.facts:
            h = self._sub_form(h)
            if self.intlinear(h):
                s.add(form(h))
        s.add(form(g))
        r = s.check()
        STATS.z3_calls += 1
        r = True if r == z3.sat else (False if r == z3.unsat else None)
        self.signcache[key] = r
        return r

    def formula_truth(self, g):
        """True/False when decided on this path, else None"""
        if g is tm.TRUE:
            return True
        if g is tm.FALSE:
            return False
        k = self.known.get(g)
        if k is not None:
            return k
        if g.op == 'not':
            r = self.formula_truth(g.args[0])
            return None if r is None else not r
        if g.op == 'and':
            rs = [self.formula_truth(a) for a in g.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if g.op == 'or':
            rs = [self.formula_truth(a) for a in g.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if g.op in ('lt', 'le', 'eq'):
            ck = ('ft', g, self.version)
            if ck in self.signcache:
                return self.signcache[ck]
            sg = self._sub_form(g)
            if self.intlinear(sg):
                r = False if self._feasible_int(sg) is False else (True if self._feasible_int(tm.not_(sg)) is False else None)
                self.signcache[ck] = r
                return r
            # quick refutation of a definite answer by samples of both kinds
            s = self.signs_of(g.args[0])
            r = None
            if s is not None:
                if g.op == 'lt':
                    r = True if s == {-1} else (False if -1 not in s else None)
                elif g.op == 'le':
                    r = True if 1 not in s else (False if s == {1} else None)
                else:
                    r = True if s == {0} else (False if 0 not in s else None)
            if r is None:
                r = self._by_assumption(g)
            self.signcache[ck] = r
            return r
        return None

    def _by_assumption(self, g):
        """g differs from a stated assumption a<=0 by a constant"""
        d = g.args[0]
        fv = tm.free_vars(d)
        for h in self.ufacts:
            if h.op not in ('le', 'lt') or tm.free_vars(h) != fv:
                continue
            a = h.args[0]
            for sg in (1, -1):
                t = tm.add(d, a if sg > 0 else tm.neg(a))
                c = self._const_value(t)
                if c is None:
                    continue
                if sg > 0 and (c > 0 or (c == 0 and (h.op == 'lt' or g.op == 'lt'))):
                    return False            # d = c - a
                if sg < 0 and g.op != 'eq' and (c < 0 or (c == 0 and (h.op == 'lt' or g.op == 'le'))):
                    return True             # d = c + a
                if sg < 0 and g.op == 'eq' and (c < 0 or (c == 0 and h.op == 'lt')):
                    return False
        return None

    def _const_value(self, t):
        vals = []
        for env in self.samples()[:3]:
            try:
                with mpmath.workdps(40):
                    vals.append(tm.evalf(t, env, self.ufs, {}))
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError):
                return None
        if len(vals) < 2 or any(abs(v - vals[0]) > mpmath.mpf(10) ** -25 for v in vals):
            return None
        c = Fraction(str(mpmath.nstr(vals[0], 22))).limit_denominator(10 ** 16)
        try:
            return c if self.norm().is_zero(tm.add(t, tm.const(-c))) else None
        except (TooBig, ZeroDivisionError, RecursionError, ValueError):
            return None

    # ------------------------------------------------------------ decisions
    def assume(self, g):
        """add a fact (path condition)"""
        if g is tm.TRUE:
            return
        if g is tm.FALSE:
            raise PathEnd()
        if g.op == 'and':
            for a in g.args:
                self.assume(a)
            return
        self._record(g, True)
        self.facts.append(g)
        self.version = self.vcount = self.vcount + 1
        self._oldpool = (self._pool or []) + getattr(self, '_oldpool', [])[:20]
        self._pool = None
        if g.op == 'eq':
            self._solve(g.args[0])
        elif g.op == 'le' and g.args[0].op == 'v':
            # 0 <= e <= v and v <= 0: e = 0
            for h in list(self.facts):
                if h.op == 'le' and g.args[0] in tm.subterms(h.args[0]):
                    b = tm.add(h.args[0], g.args[0])
                    if b.op == 'f' and b.args[0] == 'abs':
                        b = b.args[1]
                    elif g.args[0] in tm.subterms(b) or -1 in (self.signs_of(b) or {-1}):
                        continue
                    if tm.eq(b, tm.ZERO) not in self.facts:
                        self.assume(tm.eq(b, tm.ZERO))

    def _record(self, g, val):
        self.known[g] = val
        self.known[tm.not_(g)] = not val
        if g.op == 'not':
            self._record(g.args[0], not val) if g.args[0] not in self.known else None

    def _solve(self, t):
        try:
            n = self.norm()
            r = n.rf(t)
        except (TooBig, ZeroDivisionError):
            return
        cand = None
        if not r.num:
            return
        c, mono, prim = n._primitive(r.num)
        polys = []
        if prim is not None:
            try:
                polys = [p for p, e in n.factor(prim)[1] if 0 in (n.psign(p) or {-1, 0, 1})]
            except TooBig:
                polys = [prim]
        for a, e in mono:
            s = n.psign({((a, 1),): Fraction(1)})
            if s is None or 0 in s:
                polys.append({((a, 1),): Fraction(1)})
        if len(polys) != 1:
            return
        p = polys[0]
        # sum of squares of variables = 0 : every variable is zero
        for m, k in sorted(p.items(), key=lambda x: -len(x[0])):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                key = n.atoms[a]
                if key[0] != 'v':
                    continue
                if any(a == x for mm in p if mm != m for x, _ in mm):
                    continue
                rest = n.pterm({mm: -kk / k for mm, kk in p.items() if mm != m})
                if key[1] in tm.free_vars(rest) or key[1] in self.subst:
                    continue
                if any(v in self.subst for v in tm.free_vars(rest)):
                    continue
                cand = (key[1], rest)
                # prefer eliminating a variable that is not 'R' like (keep strictly positive ones)
                d = self.doms.get(key[1])
                if d is not None and d.kind != 'pos':
                    break
        if cand is None and len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and n.atoms[m[0][0]][0] == 'v':
                cand = (n.atoms[m[0][0]][1], tm.ZERO)
        if cand is None:
            return
        v, rest = cand
        self.subst = {k: tm.subst(x, {v: rest}) for k, x in self.subst.items()}
        self.subst[v] = rest
        self.version = self.vcount = self.vcount + 1
        self._pool = None

    @contextlib.contextmanager
    def scope(self):
        """temporary facts (and local decisions)"""
        keep = (list(self.facts), dict(self.known), dict(self.subst), self.version, self._pool, list(getattr(self, '_oldpool', [])), self._norm, self._normv, dict(self.doms), self.local, dict(self.unified))
        try:
            yield
        finally:
            self.facts, self.known, self.subst, self.version, self._pool, self._oldpool, self._norm, self._normv, self.doms, self.local, self.unified = keep

    def explore_local(self, run):
        """run() under every feasible sequence of decisions; the decisions are
        local: they are returned as guards instead of splitting the path"""
        out = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            L = Local(prefix)
            with self.scope():
                self.local = L
                try:
                    r = run()
                    g = Guards(L.guards)
                    g.vals = [v for v, forced in L.taken if not forced]
                    out.append((g, r))
                except PathEnd:
                    pass
            stack += L.pending
            if len(out) > 200:
                raise Unsupported('too many paths in a loop body')
        return out

    def index_var(self, base, lo, hi, sampler=None):
        """fresh integer variable with lo <= v <= hi (within a scope)"""
        nm = tm.fresh_name(base)
        d = Dom('int')
        d.sampler = sampler or (lambda rng: rng.randint(0, 5))
        self.doms[nm] = d
        self._pool = None
        self._oldpool = []
        v = tm.var(nm)
        self.assume(tm.le(lo, v))
        self.assume(tm.le(v, hi))
        return v

    def simp_ite(self, t):
        """drop alternatives that the facts exclude"""
        for _ in range(100):
            its = [s for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op == 'ite']
            done = True
            for s in sorted(its, key=lambda s: s.id):
                g = s.args[0]
                v = self.formula_truth(g)
                if v is None:
                    if self.feasible(g) is False:
                        v = False
                    elif self.feasible(tm.not_(g)) is False:
                        v = True
                if v is not None:
                    t = tm.subst(t, {s: s.args[1] if v else s.args[2]})
                    done = False
                    break
            if done:
                return t
        return t

    def simp_in_range(self, t, v, lo, hi):
        """simplify the body t of a binder v = lo..hi"""
        if not any(isinstance(s, tm.Term) and s.op == 'ite' for s in tm.subterms(t)):
            return t
        with self.scope():
            self.local = NOLOCAL
            try:
                x = self.index_var('rng', lo, hi)
            except PathEnd:
                return t
            r = self.simp_ite(tm.subst(t, {v: x}))
        return tm.subst(r, {x.args[0]: tm.var(v)})

    def zero_in_range(self, body, v, lo, hi, depth=0):
        """is body(v) zero for every v in lo..hi"""
        if depth > 3:
            return False
        with self.scope():
            self.local = NOLOCAL
            try:
                x = self.index_var('rng', lo, hi)
            except PathEnd:
                return True
            return self._zero_cases(tm.subst(body, {v: x}), depth, [0])

    def _zero_cases(self, t, depth, count):
        t = self.simp_ite(t)
        inner = {s.args[0] for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op in ('sum', 'trapz')}
        its = [s for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op == 'ite' and not (tm.free_vars(s.args[0]) & inner)]
        if not its:
            if self.norm().is_zero(t):
                return True
            return self._zero_eqs(t)
        count[0] += 1
        if count[0] > 60:
            return False
        s = min(its, key=lambda s: s.id)
        for val in (True, False):
            with self.scope():
                try:
                    self.assume(s.args[0] if val else tm.not_(s.args[0]))
                except PathEnd:
                    continue
                if not self._zero_cases(tm.subst(t, {s: s.args[1] if val else s.args[2]}), depth, count):
                    return False
        return True

    def _zero_eqs(self, t):
        """use array elements that are zero because of pairs a<=0, -a<=0 of facts"""
        les = [g.args[0] for g in self.facts if g.op == 'le']
        have = set(les)
        m = {}
        for a in les + [g.args[0] for g in self.facts if g.op == 'eq']:
            if a.op == 'eq' or tm.neg(a) in have or tm.eq(a, tm.ZERO) in self.facts:
                for b in (a, tm.neg(a)):
                    if b.op == 'sel':
                        m[b] = tm.ZERO
        return bool(m) and self.norm().is_zero(tm.subst(t, m))

    def sumterm(self, lo, hi, body):
        """sum over v=lo..hi of body(v)"""
        v = tm.fresh_name('s')
        self.bound_vars.add(v)
        b = self.simp_in_range(body(tm.var(v)), v, lo, hi)
        return tm.bsum(v, lo, hi, b)

    def canonical(self, g):
        """comparison with its term in canonical form (where the ring has one)"""
        if g.op == 'not':
            return tm.not_(self.canonical(g.args[0]))
        memo = self.__dict__.setdefault('_canon', {})
        r = memo.get(g)
        if r is None:
            r = g
            try:
                n = self.norm()
                t = n.term(n.rf(g.args[0]))
                if t is not g.args[0]:
                    r = {'lt': tm.lt, 'le': tm.le, 'eq': tm.eq}[g.op](t, tm.ZERO)
                    memo[r] = r
            except (TooBig, ZeroDivisionError, Unsupported, ValueError):
                pass
            memo[g] = r
        return r

    def decide(self, g):
        """truth value of g on this path; forks when both are possible"""
        if g is tm.TRUE:
            return True
        if g is tm.FALSE:
            return False
        k = self.known.get(g)
        if k is not None:
            return k
        if self.opts.get('tidy') and g.op in ('and', 'or'):
            stop = g.op == 'or'
            r = not stop
            for a in g.args:
                if self.decide(a) is stop:
                    r = stop
                    break
            self._record(g, r)
            return r
        if self.opts.get('tidy') and g.op in ('lt', 'le', 'eq', 'not'):
            h = self.canonical(g)
            if h is not g:
                r = self.decide(h)
                self._record(g, r)
                return r
        if self.nosplit:
            raise Unsupported('decision inside a bound expression')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit in path exploration')
        L = self.local if self.local is not None else self
        i = len(L.taken)
        if i < len(L.prefix):
            val, forced = L.prefix[i]
            L.taken.append((val, forced))
            if not forced:
                L.guards.append(g if val else tm.not_(g))
                self.assume(g if val else tm.not_(g))
            else:
                self._record(g, val)
            return val
        STATS.decisions += 1
        val = self.formula_truth(g)
        if val is not None:
            L is NOLOCAL or L.taken.append((val, True))
            self._record(g, val)
            return val
        # samples
        seen = set()
        for env in self.samples():
            try:
                with mpmath.workdps(25):
                    r = tm.evalform(g, env, self.ufs, margin=mpmath.mpf(10) ** -18)
                if r is not None:
                    seen.add(r)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                pass
            if len(seen) == 2:
                break
        pos = True if True in seen else self.feasible(g)
        if pos is False:
            L is NOLOCAL or L.taken.append((False, True))
            self._record(g, False)
            return False
        neg = True if False in seen else self.feasible(tm.not_(g))
        if neg is False:
            L is NOLOCAL or L.taken.append((True, True))
            self._record(g, True)
            return True
        if L is NOLOCAL:
            raise Unsupported('undetermined case inside a bound expression')
        # fork: explore True now, schedule False
        L.pending.append(list(L.taken) + [(False, False)])
        L.taken.append((True, False))
        L.guards.append(g)
        self.assume(g)
        return True


class Guards(list):
    """guards of a local path, with the truth values taken"""
    vals = None


class Local:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.guards = []


NOLOCAL = Local()       # decisions must be forced


class Z3Tr:
    """translation of terms/formulas to z3 (reals)"""

    def __init__(self, path):
        self.path = path
        self.vars = {}
        self.cache = {}
        self.side = []
        self.ufa = {}

    def term(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._term(t)
            self.cache[t] = r
        return r

    def _term(self, t):
        op = t.op
        if op == 'q':
            return z3.RealVal(str(t.args[0]))
        if op == 'v':
            v = self.vars.get(t.args[0])
            if v is None:
                d = self.path.doms.get(t.args[0])
                v = z3.ToReal(z3.Int(t.args[0])) if d is not None and d.kind == 'int' else z3.Real(t.args[0])
                self.vars[t.args[0]] = v
            return v
        if op == 'pi':
            p = z3.Real('pi')
            self.side.append(z3.And(p > z3.RealVal('3.14159265358'), p < z3.RealVal('3.14159265359')))
            return p
        if op == '+':
            return z3.Sum([self.term(a) for a in t.args])
        if op == '*':
            num, den = [], []
            for a in t.args:
                if a.op == '^' and a.args[1] == -1:
                    den.append(self.term(a.args[0]))
                else:
                    num.append(self.term(a))
            n = z3.Product(num) if num else z3.RealVal(1)
            if den:
                return n / (z3.Product(den) if len(den) > 1 else den[0])
            return n
        if op == '^':
            b, e = t.args
            if e.denominator == 1:
                n = int(e)
                x = self.term(b)
                r = x
                for _ in range(abs(n) - 1):
                    r = r * x
                return 1 / r if n < 0 else r
            if e.denominator == 2:
                s = z3.Real('sqrt!%d' % b.id)
                x = self.term(b)
                self.side.append(s >= 0)
                self.side.append(z3.Implies(x >= 0, s * s == x))
                n = int(e.numerator)
                r = s
                for _ in range(abs(n) - 1):
                    r = r * s
                return 1 / r if n < 0 else r
            b_ = z3.Real('root!%d' % t.id)
            self.side.append(b_ >= 0)
            return b_
        if op == 'f':
            return self.uf(t)
        if op == 'ite':
            return z3.If(self.form(t.args[0]), self.term(t.args[1]), self.term(t.args[2]))
        if op == 'sel':
            fn = z3.Function('sel!' + str(t.args[0]), *([z3.RealSort()] * (len(t.args))))
            r = fn(*[self.term(a) for a in t.args[1:]])
            nm = str(t.args[0])
            if nm in self.path.posarr:
                self.side.append(r > 0)
            af = self.path.arrfacts.get(nm)
            if af is not None and t not in self.ufa:
                self.ufa[t] = True
                for h in af(t, *t.args[1:]):
                    self.side.append(self.form(h))
            return r
        if op == 'sum':
            nf = self.path.norm()
            if not getattr(nf, '_unifying', 0) and not self.path.canon_busy:
                self.path.canon_busy = True
                try:
                    c = nf.term(nf.binder(t))
                except Exception:
                    c = t
                finally:
                    self.path.canon_busy = False
                if c is not t and t not in [s for s in tm.subterms(c)]:
                    return self.term(c)
            return z3.Real('bind!%d' % t.id)
        if op == 'trapz':
            return z3.Real('bind!%d' % t.id)
        raise Unsupported('z3: ' + op)

    def uf(self, t):
        name = t.args[0]
        a = [self.term(x) for x in t.args[1:]]
        fn = z3.Function(name, *([z3.RealSort()] * (len(a) + 1)))
        r = fn(*a)
        if name in ('sin', 'cos'):
            sn = z3.Function('sin', z3.RealSort(), z3.RealSort())
            cs = z3.Function('cos', z3.RealSort(), z3.RealSort())
            s, c = sn(a[0]), cs(a[0])
            self.side.append(s * s + c * c == 1)
            self.side.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
            if t.args[1].op == 'v':
                d = self.path.doms.get(t.args[1].args[0])
                if d is not None and d.lo is not None and d.hi is not None and -3.1415 < d.lo and d.hi < 3.1415:
                    self.side.append(z3.And((s > 0) == (a[0] > 0), (s < 0) == (a[0] < 0), z3.Implies(a[0] == 0, c == 1)))
                    if -1.5707 < d.lo and d.hi < 1.5707:
                        self.side.append(c > 0)
        elif name == 'exp':
            self.side.append(r > 0)
            self.side.append(r >= 1 + a[0])
            self.side.append(z3.Implies(a[0] < 0, r < 1))
        elif name == 'K':
            self.side.append(z3.Implies(z3.And(a[0] >= 0, a[0] < 1), r > z3.RealVal('1.57')))
            self.side.append(z3.Implies(a[0] < 1, r > 0))
        elif name == 'E':
            self.side.append(z3.Implies(a[0] <= 1, r > 0))
        elif name == 'sign':
            self.side.append(z3.And(z3.Implies(a[0] > 0, r == 1), z3.Implies(a[0] < 0, r == -1), z3.Implies(a[0] == 0, r == 0)))
        elif name == 'lin':
            self.side.append(z3.And(r >= 0, r <= 1))
        elif name in ('acos',):
            self.side.append(z3.And(r >= 0, r <= z3.RealVal('3.1416')))
        return r

    def form(self, g):
        op = g.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'lt':
            return self.term(g.args[0]) < 0
        if op == 'le':
            return self.term(g.args[0]) <= 0
        if op == 'eq':
            return self.term(g.args[0]) == 0
        if op == 'not':
            return z3.Not(self.form(g.args[0]))
        if op == 'and':
            return z3.And([self.form(a) for a in g.args])
        if op == 'or':
            return z3.Or([self.form(a) for a in g.args])
        if op == 'atom':
            return z3.Bool(str(g.args[0]))
        raise Unsupported('z3 form ' + op)

    def finish(self, s):
        for c in self.side:
            s.add(c)


CUR = [None]


def cur():
    return CUR[0]
