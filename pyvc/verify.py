"""Symbolic side: path enumeration and discharge of obligations."""
import random
import time
import traceback
import mpmath
import numpy as _np
from . import terms as tm
from . import ctx as cx
from .ctx import Path, Dom, Unsupported, PathEnd, ProgError, CUR, STATS
from .interp import Interp, PyRaise, Poison
from .sym import Num, B, Arr, Space, SCALAR, ShapeTok, Row, Grid, Mat2, MatT, to_num, mkB, formof, new_dim, dim_array, obj_array, is_absent
from .ring import TooBig
from . import scen

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Goal:
    __slots__ = ('scenario', 'path', 'name', 'status', 'backend', 'detail', 'env')

    def __init__(self, scenario, path, name, status, backend='', detail='', env=None):
        self.scenario, self.path, self.name = scenario, path, name
        self.status, self.backend, self.detail, self.env = status, backend, detail, env

    def asdict(self):
        return dict(scenario=self.scenario, path=self.path, name=self.name, status=self.status, backend=self.backend,
                    detail=self.detail[:1500], env=self.env)


def env_json(env):
    out = {}
    for k, v in env.items():
        if isinstance(k, tuple):
            if k[0] == 'arr' and not callable(v):
                try:
                    out['arr:' + k[1]] = [[float(y) for y in x] if isinstance(x, (list, tuple)) else float(x) for x in v]
                except TypeError:
                    pass
            continue
        try:
            out[k] = mpmath.nstr(mpmath.mpf(v), 20)
        except Exception:
            pass
    return out


def make_ufs():
    d = {}
    for name, fn in scen.UNFOLD.items():
        def g(*a, fn=fn, name=name):
            vs = [tm.var('uf!%d' % i) for i in range(len(a))]
            t = fn(*vs)
            return tm.evalf(t, {'uf!%d' % i: x for i, x in enumerate(a)}, UFS)
        d[name] = g
    for name in scen.OPAQUE:
        d[name] = generic(name)
    return d


def generic(name):
    """some smooth function standing for an uninterpreted symbol"""
    r = random.Random(name)
    cs = [(r.uniform(0.3, 1.2), r.uniform(-1, 1)) for _ in range(12)]

    def g(*a):
        v = mpmath.mpf(r0)
        for (c, d), x in zip(cs, a):
            v = v * mpmath.mpf('0.7') + mpmath.sin(c * x + d + v)
        return v
    r0 = r.uniform(0, 1)
    return g


UFS = {}


def unfold(t, memo=None):
    """replace declared function symbols by their closed forms"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = t
    if t.args and any(isinstance(a, (tm.Term, tm.Form)) for a in t.args):
        na = [unfold(a, memo) if isinstance(a, (tm.Term, tm.Form)) else a for a in t.args]
        if isinstance(t, tm.Form):
            r = tm.rebuildf(t, na)
        elif t.op == 'f' and t.args[0] in scen.UNFOLD:
            r = unfold(scen.UNFOLD[t.args[0]](*na[1:]), memo)
        else:
            r = tm.rebuild(t, na)
    memo[t] = r
    return r


def has_unfold(t):
    return any(isinstance(s, tm.Term) and s.op == 'f' and s.args[0] in scen.UNFOLD for s in tm.subterms(t))


class SymV:
    """V for symbolic execution of one path"""
    symbolic = True
    canary = False       # falsify every equality: none may be accepted

    def __init__(self, interp, sc, prefix, rng, opts):
        self.interp = interp
        self.sc = sc
        self.opts = opts
        self.goals = []
        self.path = None
        self.doms = {}
        self.c = Path({}, prefix=prefix, rng=rng, ufs=UFS, opts=dict(opts))
        CUR[0] = self.c
        self._cp = None
        self.calls = []
        self.owned = []
        self.pathno = 0
        self.expected_exc = None

    # ---------------------------------------------------------- variables
    def _decl(self, name, kind, lo, hi, sampler):
        d = Dom(kind, lo=lo, hi=hi, sampler=sampler)
        self.c.doms[name] = d
        for f in d.facts(name):
            self.c.facts.append(f)
        self.c._pool = None
        return tm.var(name)

    def var(self, name, kind='real', lo=None, hi=None, sampler=None):
        return self._decl(name, kind, lo, hi, sampler)

    def pvar(self, name, kind='real', lo=None, hi=None, sampler=None):
        self.c.pvars.add(name)
        t = self._decl(name, kind, lo, hi, sampler)
        self.c.ufacts += self.c.doms[name].facts(name)
        return t

    def ivar(self, name, lo=1, hi=None):
        return self._decl(name, 'int', lo, None, (lambda rng: rng.randint(lo, hi if hi is not None else lo + 5)))

    def assume(self, g):
        self.c.ufacts.append(g)
        self.c.assume(g)

    def case(self, g):
        return self.c.decide(g)

    # ---------------------------------------------------------- arguments
    def cpspace(self):
        if self._cp is None:
            self._cp = Space('cp', name='CP')
        return self._cp

    def cp(self, t, owner=None, dt='f', flat=False):
        sp = self.cpspace()
        a = Arr(sp.flat() if flat else sp, t if isinstance(t, Num) else Num(tm.T(t), dt), dt)
        a.buf.owner = owner or 'control points'
        a.buf.korder = True
        return a

    def alone(self, fn, *ts):
        """fn called with single-point arrays"""
        return tuple(x[0] if isinstance(x, _np.ndarray) and x.shape == (1,) else x for x in fn([self.vec([t]) for t in ts]))

    def num(self, t, dt='f'):
        return Num(tm.T(t), dt)

    def inum(self, t):
        return Num(tm.T(t), 'i')

    def inf(self):
        return Num(tm.INF)

    def scalar0d(self, t, dt='f', owner=None):
        a = Arr(SCALAR, Num(tm.T(t), dt), dt)
        a.buf.owner = owner
        return a

    def vec(self, ts, owner=None, dt='f'):
        a = _np.empty(len(ts), dtype=object)
        for i, t in enumerate(ts):
            a[i] = Num(tm.T(t), dt)
        if owner:
            self.c.owners[id(a)] = owner
            self.c.keep.append(a)
        return a

    def mat(self, rows, owner=None):
        a = _np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, t in enumerate(r):
                a[i, j] = Num(tm.T(t))
        if owner:
            self.c.owners[id(a)] = owner
            self.c.keep.append(a)
        return a

    def dim(self, name, n, fn=None, owner=None, dt='f', pos=False, sampler=None, facts=None):
        """array of symbolic length n; entries sel(name,i) (or fn(i))"""
        if fn is None:
            def s(rng, env, name=name):
                m = int(mpmath.nint(tm.evalf(tm.T(n), env)))
                out = []
                for i in range(m + 3):
                    v = sampler(rng, i) if sampler else rng.uniform(-2, 2)
                    out.append(mpmath.mpf(abs(v) + 0.01 if pos and v <= 0 else v))
                return out
            self.c.arrays[name] = s
            self.c._pool = None
            if pos:
                self.c.posarr.add(name)
            if facts:
                self.c.arrfacts[name] = facts
            fn = lambda i: tm.sel(name, i)
        a = dim_array(tm.T(n), lambda i: Num(fn(i), dt), dt)
        a.buf.owner = owner
        return a

    def rows(self, name, n, ncol, owner=None, fn=None, sampler=None):
        """matrix of n (symbolic) rows and ncol columns; entries sel(name,i,c)"""
        def s(rng, env):
            m = int(mpmath.nint(tm.evalf(tm.T(n), env)))
            return [[mpmath.mpf(sampler(rng) if sampler else rng.uniform(-2, 2)) for _ in range(ncol)] for _ in range(m + 3)]
        if fn is None:
            self.c.arrays[name] = s
            self.c._pool = None
            fn = lambda i, c: tm.sel(name, i, c)
        cols = []
        for c in range(ncol):
            a = dim_array(tm.T(n), lambda i: Num(fn(i, tm.const(c))))
            a.buf.owner = owner or name
            cols.append(a)
        return Mat2(tm.T(n), cols)

    def grid(self, name, nrow, ncol, fn=None, pos=False, sampler=None):
        if fn is None:
            def s(rng, env):
                a = int(mpmath.nint(tm.evalf(tm.T(nrow), env)))
                b = int(mpmath.nint(tm.evalf(tm.T(ncol), env)))
                out = [[mpmath.mpf(sampler(rng) if sampler else rng.uniform(-2, 2)) for _ in range(b + 2)] for _ in range(a + 2)]
                return [[abs(x) + mpmath.mpf('0.1') if pos else x for x in r] for r in out]
            self.c.arrays[name] = s
            if pos:
                self.c.posarr.add(name)
            self.c._pool = None
            fn = lambda i, j: tm.sel(name, i, j)
        return Grid(tm.T(nrow), tm.T(ncol), fn)

    # ---------------------------------------------------------- calls
    def func(self, qual):
        return self.interp.get(qual)

    def call(self, qual, *args, **kw):
        f = self.interp.get(qual) if isinstance(qual, str) else qual
        self.interp.depth = 0
        if isinstance(f, type):
            return self._guard(lambda: self.interp.call(f, args, kw), qual)
        return self._guard(lambda: f(*args, **kw), qual)

    def bind(self, name, fn):
        pass

    def sequence(self, cls, n, elemcls, attrs, **extra):
        """object of a list class with a symbolic number of elements; element
        k is an object of elemcls with the attributes attrs(k)"""
        ec = self.interp.get(elemcls)
        o = self.call(cls)

        def elem(k):
            e = ec.__new__(ec)
            for a, v in attrs(k).items():
                setattr(e, a, v)
            return e
        o._pyvc_seq = (tm.T(n), elem)
        for a, v in extra.items():
            setattr(o, a, v)
        return o

    def contract(self, qual, fn):
        """callee contract for the calls of this scenario: fn(bound arguments)
        states the precondition (as obligations) and returns the result"""
        self.interp.contracts[qual] = lambda b, _: fn(b)

    def ref(self, qual, *args, **kw):
        """result of a function as its contract gives it (not its body)"""
        f = self.interp.get(qual)

        def th():
            self.interp.depth = 1
            try:
                return f(*args, **kw)
            finally:
                self.interp.depth = 0
        return self._guard(th, qual)

    def _guard(self, th, qual):
        old = self.interp.curmod if hasattr(self.interp, 'curmod') else None
        try:
            return th()
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))

    def method(self, obj, name, *args, **kw):
        self.interp.depth = 0
        return self._guard(lambda: getattr(obj, name)(*args, **kw), name)

    def attr(self, obj, name):
        return self.interp.getattr(obj, name)

    def setattr(self, obj, name, v):
        setattr(obj, name, v)

    def overwrite(self, *arrays):
        """the caller changes every entry of an array of its own"""
        for a in arrays:
            if isinstance(a, Arr):
                a.buf.elem = Num(tm.add(to_num(a.buf.elem).t, tm.ONE))
            elif isinstance(a, list):
                a[:] = [Num(tm.add(to_num(x).t, tm.ONE)) for x in a]
            else:
                for i in _np.ndindex(a.shape):
                    a[i] = Num(tm.add(to_num(a[i]).t, tm.ONE))

    def state(self, o):
        """the settings of an object (a copy)"""
        def cp(v):
            if isinstance(v, _np.ndarray):
                return v.copy()
            if isinstance(v, Arr):
                return Arr(v.space, v.elem, v.dt)
            if isinstance(v, list):
                return list(v)
            return v
        return {k: cp(v) for k, v in vars(o).items()}

    def same_state(self, name, o, st, skip=()):
        now = vars(o)
        for k, v in st.items():
            if k in skip or k.startswith('__') or k not in now:
                continue
            w = now[k]
            nm = '%s: %s' % (name, k)
            if isinstance(v, (Arr, _np.ndarray)):
                if isinstance(v, _np.ndarray) and isinstance(w, _np.ndarray) and v.shape == w.shape:
                    for i, (p, q) in enumerate(zip(v.ravel(), w.ravel())):
                        self.eq(nm, to_num(q).t, to_num(p).t)
                elif isinstance(v, Arr) and isinstance(w, Arr):
                    self.shape_is(nm, w, v)
                    t = to_num(w.elem).t
                    if w.space is not v.space and w.space.kind == 'dim':
                        t = tm.subst(t, {w.space.ivar: tm.var(v.space.ivar)})
                    self.eq(nm, t, to_num(v.elem).t)
                else:
                    self.fact(nm, False, 'changed to another kind of value')
            elif isinstance(v, (Num, int, float)) and isinstance(w, (Num, int, float)) and not isinstance(v, bool):
                self.eq(nm, to_num(w).t, to_num(v).t)
            else:
                self.fact(nm, w is v or (type(w) is type(v) and w == v), 'changed')

    def dimof(self, a):
        return tm.T(to_num(a._len()).t)

    # ---------------------------------------------------------- results
    def val(self, x, idx=None):
        """Term of a result (element at the generic position)"""
        if idx is not None:
            if isinstance(x, _np.ndarray):
                x = x[idx]
            elif isinstance(x, (list, tuple)):
                x = x[idx]
            else:
                w = lambda q: q if not isinstance(q, tm.Term) else Num(q, 'i')
                x = x[tuple(w(q) for q in idx) if isinstance(idx, tuple) else w(idx)]
        if isinstance(x, Arr):
            e = x.elem
            if isinstance(e, (bool, B)):
                raise Unsupported('boolean result')
            return to_num(e).t
        if isinstance(x, _np.ndarray):
            if x.size != 1:
                raise ProgError('unexpected array result of shape %r' % (x.shape,))
            return to_num(x.ravel()[0]).t
        return to_num(x).t

    def _g(self, name, status, backend='', detail='', env=None):
        self.goals.append(Goal(self.sc.key, self.pathno, name, status, backend, detail, env))

    def _resolve(self, t):
        """fork on conditions of conditional terms"""
        guard = 0
        while True:
            t = self._flat(t)
            its = [s for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op == 'ite' and not (tm.free_vars(s.args[0]) & self.c.bound_vars)]
            if not its:
                return t
            guard += 1
            if guard > 200:
                raise Unsupported('too many conditional terms')
            its.sort(key=lambda s: s.id)
            s = its[0]
            b = self.c.decide(s.args[0])
            t = tm.subst(t, {s: s.args[1] if b else s.args[2]})

    def eq(self, name, got, spec, tol=None, scale=None, idx=None, sidx=None):
        a = got if isinstance(got, tm.Term) else self.val(got, idx)
        b = spec if isinstance(spec, tm.Term) else (self.val(spec, sidx) if not isinstance(spec, (int, float)) else tm.T(spec))
        if self.canary and not tm.is_special(b):
            name, b = 'canary ' + name, tm.add(b, tm.ONE)
        if tm.is_special(a) or tm.is_special(b):
            a, b = (self._resolve(a) if not tm.is_special(a) else a), (self._resolve(b) if not tm.is_special(b) else b)
            if a is b and a is not tm.NAN and a is not tm.ABSENT:
                self._g(name, PROVED, 'exact')
            else:
                self._refute(name, 'result %s, specified %s' % (a, b))
            return
        d = self._resolve(tm.add(a, tm.neg(b)))
        self._discharge_zero(name, d, a, b)

    def _refute(self, name, detail):
        envs = self.c.samples()
        if envs:
            self._g(name, REFUTED, 'path sample', detail, env_json(envs[0]))
            return
        f = self.c.feasible(tm.TRUE)
        if self._facts_sat() is False:
            raise PathEnd()
        self._g(name, REFUTED if self._facts_sat() is True else UNDECIDED, 'path', detail + ' (no sample of the path)', None)

    def _facts_sat(self):
        import z3
        tr = cx.Z3Tr(self.c)
        s = z3.Solver()
        s.set('timeout', 4000)
        try:
            for g in self.c.facts:
                s.add(tr.form(self.c._sub_form(g)))
            tr.finish(s)
            r = s.check()
            return True if r == z3.sat else (False if r == z3.unsat else None)
        except Exception:
            return None

    def _discharge_zero(self, name, d, a=None, b=None):
        c = self.c
        t0 = time.time()
        if d is tm.ZERO:
            self._g(name, PROVED, 'ring', '%.2fs' % (time.time() - t0))
            return
        big = None
        if tm.is_q(d) and tm.qv(d) != 0:
            self._refute(name, 'differs from the specified value by %s' % tm.qv(d))
            return
        # look for a counterexample among samples first (cheap)
        cex, agree, tested = self._numeric(d, a, b)
        if cex is None:
            try:
                if c.norm().is_zero(d):
                    self._g(name, PROVED, 'ring', '%.2fs' % (time.time() - t0))
                    return
                if has_unfold(d) or self.c.defs:
                    d2 = unfold(self._undef(d))
                    d2 = self._resolve(d2)
                    if c.norm().is_zero(d2):
                        self._g(name, PROVED, 'ring+unfold', '%.2fs' % (time.time() - t0))
                        return
            except (TooBig, ZeroDivisionError, RecursionError, ValueError) as e:
                big = repr(e)
            if not has_binder(d):
                r = c.feasible(tm.not_(tm.eq(d, tm.ZERO)))
                if r is False:
                    self._g(name, PROVED, 'z3', '%.2fs' % (time.time() - t0))
                    return
            if not tested and self._facts_sat() is False:
                raise PathEnd()
            # equal to 18 digits at random points and analytic on the path
            analytic = agree >= 5 and agree == tested and not has_cond(d)
            self._g(name, UNDECIDED, 'numeric' if analytic else 'ring', 'normal form not zero; %d numeric samples agree %s; residual %s' % (agree, big or '', str(d)[:600]))
            return
        env, va, vb = cex
        self._g(name, REFUTED, 'sample', 'value %s, specified %s' % (mpmath.nstr(va, 12), mpmath.nstr(vb, 12)), env_json(env))

    def _undef(self, t):
        """replace elements of arrays filled by loops by their defining terms
        (elements outside of sums only)"""
        for _ in range(6):
            t = self._flat(t)
            m = {}
            inner = {s.args[0] for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op in ('sum', 'trapz')}
            for s in tm.subterms(t):
                if isinstance(s, tm.Term) and s.op == 'sel' and s.args[0] in self.c.defs and not (tm.free_vars(s) & inner):
                    iv, df = self.c.defs[s.args[0]]
                    m[s] = tm.subst(df, {iv: s.args[1]})
            if not m:
                return t
            t = self.c.simp_ite(tm.subst(t, m))
        return t

    def _flat(self, t):
        """expand the non-recursive loop-filled arrays inside sums"""
        if not self.c.defs:
            return t
        flat = self.c.__dict__.setdefault('_flatdefs', {})
        for h, (iv, df) in self.c.defs.items():
            if h not in flat:
                rec = any(s.op == 'sel' and s.args[0] in self.c.defs for s in tm.subterms(df) if isinstance(s, tm.Term))
                flat[h] = None if rec else (iv, df)
        m = {}
        for s in tm.subterms(t):
            if isinstance(s, tm.Term) and s.op == 'sum':
                v, lo, hi, b = s.args
                hs = [q for q in tm.subterms(b) if isinstance(q, tm.Term) and q.op == 'sel' and flat.get(q.args[0]) and v in tm.free_vars(q)]
                if hs and not any(isinstance(q, tm.Term) and q.op in ('sum', 'trapz') for q in tm.subterms(b)):
                    b2 = tm.subst(b, {q: tm.subst(flat[q.args[0]][1], {flat[q.args[0]][0]: q.args[1]}) for q in hs})
                    m[s] = tm.bsum(v, lo, hi, self.c.simp_in_range(b2, v, lo, hi))
        return tm.subst(t, m) if m else t

    def index(self, name, lo, hi):
        """any integer index in lo..hi"""
        x = self._decl(name, 'int', None, None, (lambda rng: rng.randint(0, 6)))
        self.c.assume(tm.le(tm.T(lo), x))
        self.c.assume(tm.le(x, tm.T(hi)))
        return x

    def obs(self, x):
        """function index term(s) -> element of a result array"""
        if isinstance(x, Arr) and x.space.kind == 'dim':
            return lambda i: to_num(x.at(tm.T(i))).t
        if isinstance(x, Mat2):
            return lambda i, c: to_num(x.cols[int(c)].at(tm.T(i))).t
        raise Unsupported('elements of %r' % type(x))

    def sum(self, lo, hi, body):
        """sum of body(j) for j = lo..hi (inclusive)"""
        return self.c.sumterm(tm.T(lo), tm.T(hi), body)

    def interpolate(self, x, xp, fp):
        from .npshim import np_interp
        return np_interp(x, xp, fp)

    def scalar(self, x):
        """a result that is a single number"""
        return not isinstance(x, (Arr, _np.ndarray)) or (isinstance(x, Arr) and x.space.kind == 'scalar')

    def trapz(self, n, x, y):
        """trapezoid rule over nodes x(i), values y(i), i = 0..n-1"""
        v = tm.fresh_name('q')
        self.c.bound_vars.add(v)
        iv = tm.var(v)
        return tm.btrapz(v, tm.T(n), x(iv), y(iv))

    def _with_defs(self, env):
        """environment in which arrays filled by loops can be evaluated"""
        if not self.c.defs:
            return env
        env = dict(env)
        for nm, (iv, df) in self.c.defs.items():
            def at(i, iv=iv, df=df, cache={}):
                if i not in cache:
                    e2 = dict(env)
                    e2[iv] = mpmath.mpf(i)
                    cache[i] = tm.evalf(df, e2, self.c.ufs, {})
                return cache[i]
            at.__defaults__ = (iv, df, {})
            env[('arr', nm)] = at
        return env

    def _numeric(self, d, a, b):
        c = self.c
        agree = 0
        tested = 0
        for env in c.samples()[:8]:
            try:
                with mpmath.workdps(30):
                    memo = {}
                    env = self._with_defs(env)
                    vd = tm.evalf(d, env, c.ufs, memo)
                    va = tm.evalf(a, env, c.ufs, memo) if a is not None else vd
                    vb = tm.evalf(b, env, c.ufs, memo) if b is not None else mpmath.mpf(0)
                tested += 1
                if abs(vd) > mpmath.mpf(10) ** -9 * (mpmath.mpf(10) ** -3 + abs(va) + abs(vb)):
                    if a is not None and b is not None and abs(va - vb) <= mpmath.mpf(10) ** -9 * (mpmath.mpf(10) ** -3 + abs(va) + abs(vb)):
                        tested -= 1         # the sample is not on this path
                        continue
                    return (env, va, vb), agree, tested
                if abs(vd) <= mpmath.mpf(10) ** -18 * (1 + abs(va) + abs(vb)):
                    agree += 1
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError, RecursionError):
                pass
        return None, agree, tested

    def true(self, name, g, tol=None):
        """formula must hold on this path"""
        if isinstance(g, (bool, _np.bool_)):
            g = tm.fconst(bool(g))
        elif isinstance(g, B):
            g = g.f
        if g is tm.TRUE:
            self._g(name, PROVED, 'exact')
            return
        if g is tm.FALSE:
            self._refute(name, 'false on this path')
            return
        if g.op == 'and':
            for a in g.args:
                self.true(name, a)
            return
        c = self.c
        if g.op == 'eq':
            self._discharge_zero(name, self._resolve(g.args[0]))
            return
        if c.defs and g.op in ('lt', 'le'):
            t = self._resolve(g.args[0])
            t2 = self._undef(t)
            if t2 is not t:
                t2 = self._resolve(t2)
            if t2 is not g.args[0]:
                g = (tm.lt if g.op == 'lt' else tm.le)(t2, tm.ZERO)
                if g is tm.TRUE or g is tm.FALSE:
                    self.true(name, g)
                    return
        if c.formula_truth(g) is True:
            self._g(name, PROVED, 'ring')
            return
        for env in c.samples()[:8]:
            try:
                with mpmath.workdps(30):
                    r = tm.evalform(g, self._with_defs(env), c.ufs, margin=mpmath.mpf(10) ** -15)
                if r is False:
                    self._g(name, REFUTED, 'sample', 'formula false: %s' % g, env_json(env))
                    return
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                pass
        r = c.feasible(tm.not_(g))
        if r is False:
            self._g(name, PROVED, 'z3')
        else:
            self._g(name, UNDECIDED, 'z3', 'not established: %s' % str(g)[:500])

    def finite(self, name, x, idx=None):
        t = self.val(x, idx)
        if tm.is_special(t):
            self._refute(name, 'result %s' % t)
        else:
            self._g(name, PROVED, 'exact')

    def shape_is(self, name, x, like):
        """x has the shape of `like` (an array argument)"""
        ok = False
        if isinstance(x, Arr) and isinstance(like, Arr):
            from .sym import same_space
            ok = same_space(x.space, like.space)
        elif isinstance(x, _np.ndarray) and isinstance(like, _np.ndarray):
            ok = x.shape == like.shape
        elif isinstance(x, Num) and isinstance(like, Num):
            ok = True
        if ok:
            self._g(name, PROVED, 'exact')
        else:
            self._refute(name, 'shape differs from the input (%s vs %s)' % (desc(x), desc(like)))

    def no_truncation(self, name):
        ev = [e for e in self.c.events if e[0] == 'truncate']
        if ev:
            self._refute(name, 'floating point values stored into an integer array')
        else:
            self._g(name, PROVED, 'exact')

    def no_layout(self, name):
        if any(e[0] == 'layout' for e in self.c.events):
            self._refute(name, 'written through ravel() of an array in the memory order of the control points (a copy for some orders)')
        else:
            self._g(name, PROVED, 'exact')

    def unmodified(self, name='inputs unmodified'):
        ev = [e for e in self.c.events if e[0] == 'mutate']
        bad = None
        for e in ev:
            old, new = e[2], e[3]
            if isinstance(old, Num) and isinstance(new, Num) and old.t is new.t:
                continue
            bad = e
        if bad is None:
            self._g(name, PROVED, 'exact')
        else:
            self._refute(name, 'the argument %s is modified' % (bad[1],))

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except PyRaise as p:
            if isinstance(p.exc, exc):
                self._g(name, PROVED, 'exact')
            else:
                self._refute(name, 'raises %r' % (p.exc,))
            return
        self._refute(name, 'no exception raised')

    def fact(self, name, ok, detail=''):
        """a structural (non numeric) postcondition"""
        if isinstance(ok, B):
            ok = bool(ok)
        if ok:
            self._g(name, PROVED, 'exact')
        else:
            self._refute(name, detail or 'does not hold')

    def is_none(self, name, x):
        self.fact(name, x is None, 'not None')


class FrameV(SymV):
    """only the frame condition (no argument is modified) is an obligation"""
    def eq(self, *a, **k): pass
    def true(self, *a, **k): pass
    def finite(self, *a, **k): pass
    def shape_is(self, *a, **k): pass
    def no_truncation(self, *a, **k): pass
    def no_layout(self, *a, **k): pass
    def same_state(self, *a, **k): pass
    def fact(self, *a, **k): pass
    def is_none(self, *a, **k): pass
    def unmodified(self, *a, **k): pass

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except PyRaise:
            pass

    def _track(self, args):
        for a in args:
            if type(a) is list:
                self.tracked.append((a, list(a)))
                self._track(a)
            elif isinstance(a, _np.ndarray):
                self.tracked.append((a, list(a.ravel())))
            elif isinstance(a, Arr):
                self.tracked.append((a.buf, a.buf.elem))
            elif isinstance(a, Mat2):
                self._track(a.cols)

    def call(self, qual, *args, **kw):
        self._track(list(args) + list(kw.values()))
        return SymV.call(self, qual, *args, **kw)

    def method(self, obj, name, *args, **kw):
        self._track(list(args) + list(kw.values()))
        return SymV.method(self, obj, name, *args, **kw)

    def setattr(self, obj, name, v):
        self._track([v])
        SymV.setattr(self, obj, name, v)

    @property
    def tracked(self):
        return self.__dict__.setdefault('_tracked', [])

    def conclude(self):
        same = lambda a, b: a is b or (isinstance(a, Num) and isinstance(b, Num) and a.t is b.t)
        for a, old in self.tracked:
            if isinstance(a, _np.ndarray):
                a = list(a.ravel())
            ok = (len(a) == len(old) and all(same(x, y) for x, y in zip(a, old))) if isinstance(a, list) else same(a.elem, old)
            if not ok:
                self._refute('inputs unmodified', 'an argument is modified')
                return
        SymV.unmodified(self, 'inputs unmodified')


def has_cond(t):
    return any(isinstance(s, tm.Form) or s.op == 'ite' or (s.op == 'f' and s.args[0] in ('abs', 'sign', 'trunc', 'max', 'min', 'heaviside')) for s in tm.subterms(t))


def has_binder(t):
    return any(isinstance(s, tm.Term) and s.op in ('sum', 'trapz') for s in tm.subterms(t))


def desc(x):
    if isinstance(x, Arr):
        return 'array(%s)' % x.space.kind
    if isinstance(x, _np.ndarray):
        return 'array%r' % (x.shape,)
    return type(x).__name__


from . import whiles
from .whiles import LoopBack


def run_scenario(interp, sc, tier='quick', budget=60.0, maxpaths=4000, seed=1, z3_ms=None):
    """explore all paths; returns dict"""
    if not UFS:
        UFS.update(make_ufs())
    t0 = time.time()
    goals = []
    stack = [[]]
    npaths = 0
    dead = 0
    incomplete = None
    deadline = t0 + sc.opts.get('budget', budget)
    interp.contracts = {}
    for q in sc.opts.get('contracts', ()):
        interp.contracts[q] = (lambda b, fn, q=q: scen.CALL_CONTRACTS[q](b))
    interp.trace = []
    interp.loop_memo = {}
    interp.used_contracts = set()
    notes = set()
    while stack:
        if time.time() > deadline or npaths >= maxpaths:
            incomplete = 'path budget exhausted after %d paths' % npaths
            break
        prefix = stack.pop()
        npaths += 1
        STATS.paths += 1
        rng = random.Random(seed * 7919 + 17)
        opts = dict(sc.opts.get('path', {}))
        opts['deadline'] = deadline
        if z3_ms:
            opts['z3_ms'] = z3_ms
        V = (FrameV if sc.opts.get('frame') else SymV)(interp, sc, prefix, rng, opts)
        V.pathno = npaths
        interp.while_hook = whiles.make_hook(sc.opts['whiles'], V) if sc.opts.get('whiles') else None
        interp.depth = 0
        interp.steps = 0
        interp.curmod = None
        from . import terms
        try:
            try:
                sc.fn(V)
            except (PyRaise, ProgError) as p:
                if sc.opts.get('frame'):
                    pass        # not the concern of the frame condition
                elif isinstance(p, PyRaise):
                    V._refute('no exception', 'raises %s: %s' % (type(p.exc).__name__, p.exc))
                else:
                    V._refute('no exception', 'error: %s' % p)
            if sc.opts.get('frame'):
                V.conclude()
        except LoopBack:
            pass
        except PathEnd:
            dead += 1
            stack += V.c.pending
            continue
        except Unsupported as e:
            V._g('supported construct', UNDECIDED, 'interp', 'not modelled: %s' % e)
        except (RecursionError, NotImplementedError) as e:
            V._g('supported construct', UNDECIDED, 'interp', 'not modelled: %r' % e)
        except scen.Skip:
            dead += 1
            stack += V.c.pending
            continue
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, AssertionError, ZeroDivisionError, TooBig) as e:
            V._g('supported construct', UNDECIDED, 'interp', 'internal: %s' % traceback.format_exc()[-1200:])
        goals += V.goals
        notes.update(V.c.notes)
        stack += V.c.pending
        if any(g.status == REFUTED for g in V.goals) and sum(1 for g in goals if g.status == REFUTED) > 40:
            break
    CUR[0] = None
    return dict(key=sc.key, goals=[g.asdict() for g in goals], paths=npaths, infeasible=dead, incomplete=incomplete,
                wall=time.time() - t0, trace=list(interp.trace), contracts=sorted(interp.used_contracts), notes=sorted(notes))
