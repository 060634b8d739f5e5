"""Concrete side: the scenarios run on the real code with CPython and the
installed numpy (run with the interpreter of the repository's environment).

usage: concrete.py REPO REQUEST.json OUT.json
REQUEST = {"seed":int, "jobs":[{"key":..., "n":int} | {"key":..., "env":{...}}]}
"""
import contextlib
import io
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mpmath
from mpmath import mpf
import numpy as np
from pyvc import terms as tm
from pyvc import scen
from pyvc.scen import Skip

mpmath.mp.dps = 30
UFS = {}


def make_ufs():
    d = {}
    for name, fn in scen.UNFOLD.items():
        def g(*a, fn=fn):
            vs = [tm.var('uf!%d' % i) for i in range(len(a))]
            return tm.evalf(fn(*vs), {'uf!%d' % i: x for i, x in enumerate(a)}, UFS)
        d[name] = g
    for name, fn in scen.OPAQUE.items():
        def g(*a, fn=fn):
            with np.errstate(all='ignore'), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                return mpf(float(fn(_get, *[float(x) for x in a])))
        d[name] = g
    return d


def _get(qual):
    import importlib
    parts = qual.split('.')
    o = importlib.import_module('wiz.' + parts[0])
    for p in parts[1:]:
        o = getattr(o, p)
    return o


class Fail(Exception):
    pass


class Abort(Exception):
    """an exception of the code under test that the scenario does not expect"""


def dom_sample(kind, lo, hi, sampler, rng):
    if sampler:
        return float(sampler(rng))
    if kind == 'int':
        return rng.randint(int(lo if lo is not None else 0), int(hi if hi is not None else (lo or 0) + 7))
    if lo is not None and hi is not None:
        return float(lo) + (float(hi) - float(lo)) * rng.random()
    u = rng.random()
    if u < 0.75:
        v = rng.uniform(-3, 3)
    elif u < 0.9:
        v = rng.uniform(-40, 40)
    else:
        v = rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 0)
    if u > 0.97 and kind == 'real' and lo is None and hi is None:
        v = float(rng.choice([0, 1, -1, 2]))
    if kind in ('pos', 'nonneg'):
        v = abs(v) or 1.0
    if lo is not None:
        v = float(lo) + abs(v)
    if hi is not None:
        v = float(hi) - abs(v)
    return v


class ConcV:
    symbolic = False
    KTRY = 24

    def __init__(self, rng, fixed=None, companions=True, variant=0):
        self.rng = rng
        self.fixed = fixed or {}
        self.env = {}                 # shared
        self.pts = [dict() for _ in range(self.KTRY)]
        self.frozen = False
        self.shape = None
        self.checks = 0
        self.fails = []
        self.inputs = []
        self.nobs = 0
        self.variant = variant
        if fixed is not None:
            self.pts = [dict() for _ in range(1 + (8 if companions else 0))]
        self.main_fixed = fixed is not None
        self.KMAX = [5, 1, 6, 4][variant % 4]

    # ------------------------------------------------------- variables
    def var(self, name, kind='real', lo=None, hi=None, sampler=None):
        if name in self.fixed:
            self.env[name] = mpf(self.fixed[name])
            if kind == 'int':
                self.env[name] = mpf(int(mpmath.nint(self.env[name])))
            else:
                self.env[name] = mpf(float(self.env[name]))
        else:
            self.env[name] = mpf(dom_sample(kind, lo, hi, sampler, self.rng))
        return tm.var(name)

    def pvar(self, name, kind='real', lo=None, hi=None, sampler=None):
        for i, p in enumerate(self.pts):
            if i == 0 and name in self.fixed:
                p[name] = mpf(float(mpf(self.fixed[name])))
            else:
                p[name] = mpf(dom_sample(kind, lo, hi, sampler, self.rng))
        return tm.var(name)

    def ivar(self, name, lo=1, hi=None):
        return self.var(name, 'int', lo, hi if hi is not None else lo + 5)

    def _ev(self, t, p):
        e = dict(self.env)
        e.update(p)
        return tm.evalf(t, e, UFS)

    def _evg(self, g, p, margin=0):
        e = dict(self.env)
        e.update(p)
        return tm.evalform(g, e, UFS, None, margin)

    def _holds(self, g, p):
        try:
            return bool(self._evg(g, p))
        except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
            return False

    def assume(self, g):
        keep = [p for p in self.pts if self._holds(g, p)]
        if self.main_fixed and (not keep or keep[0] is not self.pts[0]):
            raise Skip()
        if self.frozen and len(keep) != len(self.pts):
            self.skipmask = True
            raise Skip()
        self.pts = keep
        if not keep:
            raise Skip()

    def case(self, g):
        first = self._holds(g, self.pts[0])
        keep = [p for p in self.pts if self._holds(g, p) == first]
        if self.frozen and len(keep) != len(self.pts):
            raise Skip()
        self.pts = keep
        return first

    def freeze(self):
        if not self.frozen:
            self.frozen = True
            main = self.pts[0]
            self.pts = self.pts[:self.KMAX]
            if self.main_fixed or self.rng.random() < 0.5:
                pass
            self.rng.shuffle(self.pts)
            k = len(self.pts)
            shapes = [(k,), (1, k), (k, 1)]
            if k % 2 == 0:
                shapes.append((2, k // 2))
            self.shape = self.rng.choice(shapes) if self.variant else (k,)

    # ------------------------------------------------------- arguments
    def _flt(self, t, p):
        return float(self._ev(tm.T(t), p))

    def _reg(self, a, owner):
        self.inputs.append((owner, a, a.copy()))
        return a

    def cp(self, t, owner=None, dt='f', flat=False):
        self.freeze()
        vals = [self._flt(t, p) for p in self.pts]
        a = np.array(vals, dtype=float if dt == 'f' else int)
        if not flat:
            a = a.reshape(self.shape)
            if self.variant % 4 == 2:
                a = np.asfortranarray(a)
            elif self.variant % 4 == 3:
                a = np.repeat(a, 2, axis=-1)[..., ::2]         # not contiguous
        return self._reg(a, owner or 'control points')

    def alone(self, fn, *ts):
        self.freeze()
        rows = [fn([np.array([self._flt(t, p)]) for t in ts]) for p in self.pts]
        out = []
        for k in range(len(rows[0])):
            for r in rows:
                if np.shape(r[k]) != (1,):
                    raise Fail('shape %r for a single point' % (np.shape(r[k]),))
            out.append(np.array([float(r[k][0]) for r in rows]))
        return tuple(out)

    def num(self, t, dt='f'):
        v = self._ev(tm.T(t), {})
        return float(v) if dt == 'f' else int(mpmath.nint(v))

    def inum(self, t):
        return int(mpmath.nint(self._ev(tm.T(t), {})))

    def inf(self):
        return np.inf

    def scalar0d(self, t, dt='f', owner=None):
        return self._reg(np.array(self.num(t)), owner)

    def vec(self, ts, owner=None, dt='f'):
        a = np.array([self.num(t, dt) for t in ts], dtype=float if dt == 'f' else int)
        return self._reg(a, owner) if owner else a

    def mat(self, rows, owner=None):
        a = np.array([[self.num(t) for t in r] for r in rows])
        return self._reg(a, owner) if owner else a

    def dim(self, name, n, fn=None, owner=None, dt='f', pos=False, sampler=None, facts=None):
        m = int(mpmath.nint(self._ev(tm.T(n), {})))
        if fn is None:
            fx = self.fixed.get('arr:' + name)
            out = []
            for i in range(m):
                if fx is not None and i < len(fx):
                    v = float(fx[i])
                else:
                    v = sampler(self.rng, i) if sampler else self.rng.uniform(-2, 2)
                    v = abs(v) + 0.01 if pos and v <= 0 else v
                out.append(mpf(float(v)))
            self.env[('arr', name)] = out
            a = np.array([float(x) for x in out])
        else:
            a = np.array([self.num(fn(tm.T(i))) for i in range(m)])
        return self._reg(a, owner)

    def _table(self, name, a, b, pos, sampler):
        fx = self.fixed.get('arr:' + name)
        vals = []
        if sampler is None and not pos and self.variant % 3 == 1:
            # coinciding and nearly coinciding entries
            sampler = lambda rng: rng.choice([-1, 0, 1, 1, 1]) + rng.choice([0, 0, 0, 1e-9, 1e-6, 1e-3])
        for i in range(a):
            r = []
            for j in range(b):
                if fx is not None and i < len(fx) and j < len(fx[i]):
                    v = float(fx[i][j])
                else:
                    v = float(sampler(self.rng)) if sampler else self.rng.uniform(-2, 2)
                    v = abs(v) + 0.1 if pos else v
                r.append(mpf(v))
            vals.append(r)
        self.env[('arr', name)] = vals
        return np.array([[float(x) for x in r] for r in vals]).reshape(a, b)

    def rows(self, name, n, ncol, owner=None, fn=None, sampler=None):
        m = int(mpmath.nint(self._ev(tm.T(n), {})))
        if fn is None:
            arr = self._table(name, m, ncol, False, sampler)
        else:
            arr = np.array([[self.num(fn(tm.T(i), tm.T(j))) for j in range(ncol)] for i in range(m)]).reshape(m, ncol)
        return self._reg(arr, owner or name)

    def grid(self, name, nrow, ncol, fn=None, pos=False, sampler=None):
        a = int(mpmath.nint(self._ev(tm.T(nrow), {})))
        b = int(mpmath.nint(self._ev(tm.T(ncol), {})))
        if fn is None:
            arr = self._table(name, a, b, pos, sampler)
        else:
            arr = np.array([[self.num(fn(tm.T(i), tm.T(j))) for j in range(b)] for i in range(a)]).reshape(a, b)
        return self._reg(arr, name)

    def index(self, name, lo, hi):
        a = int(mpmath.nint(self._ev(tm.T(lo), {})))
        b = int(mpmath.nint(self._ev(tm.T(hi), {})))
        if name in self.fixed:
            k = int(mpmath.nint(mpf(self.fixed[name])))
        elif b < a:
            raise Skip()
        else:
            k = self.rng.randint(a, b)
        if not a <= k <= b:
            raise Skip()
        self.env[name] = mpf(k)
        return tm.var(name)

    def obs(self, x):
        """function index term(s) -> element of a result array"""
        self.nobs += 1
        name = 'res!%d' % self.nobs
        x = np.asarray(x, dtype=float)
        self.env[('arr', name)] = [mpf(float(v)) for v in x] if x.ndim == 1 else [[mpf(float(v)) for v in r] for r in x]
        return lambda *i: tm.sel(name, *i)

    def sum(self, lo, hi, body):
        v = tm.fresh_name('s')
        return tm.bsum(v, lo, hi, body(tm.var(v)))

    def interpolate(self, x, xp, fp):
        return np.interp(x, xp, fp)

    def scalar(self, x):
        return np.ndim(x) == 0

    def trapz(self, n, x, y):
        v = tm.fresh_name('q')
        iv = tm.var(v)
        return tm.btrapz(v, tm.T(n), x(iv), y(iv))

    # ------------------------------------------------------- calls
    def func(self, qual):
        import importlib
        parts = qual.split('.')
        o = importlib.import_module('wiz.' + parts[0])
        for p in parts[1:]:
            o = getattr(o, p)
        return o

    def call(self, qual, *args, **kw):
        f = self.func(qual) if isinstance(qual, str) else qual
        return self._run(lambda: f(*args, **kw))

    def contract(self, qual, fn):
        pass

    def bind(self, name, fn):
        """numeric value of a function symbol in this sample"""
        def g(*a):
            with np.errstate(all='ignore'), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                return mpf(float(np.ravel(fn(*[float(x) for x in a]))[0]))
        UFS[name] = g

    def ref(self, qual, *args, **kw):
        return self.call(qual, *args, **kw)

    def _run(self, th):
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                return th()
        except Exception as e:
            raise Abort(e)

    def method(self, obj, name, *args, **kw):
        return self._run(lambda: getattr(obj, name)(*args, **kw))

    def attr(self, obj, name):
        return self._run(lambda: getattr(obj, name))

    def setattr(self, obj, name, v):
        self._run(lambda: setattr(obj, name, v))

    def overwrite(self, *arrays):
        for a in arrays:
            if isinstance(a, list):
                a[:] = [x + 1 for x in a]
            else:
                a += 1

    def state(self, o):
        import copy
        return {k: copy.deepcopy(v) for k, v in vars(o).items()}

    def same_state(self, name, o, st, skip=()):
        now = vars(o)
        for k, v in st.items():
            if k in skip or k not in now:
                continue
            w = now[k]
            try:
                same = np.shape(v) == np.shape(w) and (v is w or bool(np.all((np.asarray(v) == np.asarray(w)) | ((np.asarray(v) != np.asarray(v)) & (np.asarray(w) != np.asarray(w))))))
            except Exception:
                same = True
            self.fact('%s: %s' % (name, k), same, 'changed')

    def dimof(self, a):
        return tm.T(len(a))

    # ------------------------------------------------------- results
    def val(self, x, idx=None):
        if idx is not None:
            w = lambda q: int(mpmath.nint(self._ev(q, {}))) if isinstance(q, tm.Term) else q
            idx = tuple(w(q) for q in idx) if isinstance(idx, tuple) else w(idx)
            x = x[idx]
        self.nobs += 1
        name = 'obs!%d' % self.nobs
        x = np.asarray(x, dtype=float)
        if x.size == 1:
            v = float(x.ravel()[0])
            self.env[name] = mpf(v)
            if len(self.pts) == 1:
                pass
        elif x.size == len(self.pts):
            for p, v in zip(self.pts, x.ravel()):
                p[name] = mpf(float(v))
        else:
            raise Fail('result has %d elements for %d control points' % (x.size, len(self.pts)))
        return tm.var(name)

    def _fail(self, name, detail, p=None):
        e = {k: mpmath.nstr(v, 17) for k, v in list(self.env.items()) + list((p or {}).items()) if isinstance(k, str) and not k.startswith('obs!')}
        for k, v in self.env.items():
            if isinstance(k, tuple) and k[0] == 'arr' and not callable(v):
                try:
                    e['arr:' + k[1]] = [[float(y) for y in x] if isinstance(x, (list, tuple)) else float(x) for x in v]
                except TypeError:
                    pass
        self.fails.append(dict(name=name, detail=detail, env=e, npoints=len(self.pts), shape=self.shape))

    def _points(self, *ts):
        """points at which a goal is evaluated"""
        return self.pts

    def eq(self, name, got, spec, tol=None, scale=None, idx=None, sidx=None):
        try:
            a = got if isinstance(got, tm.Term) else self.val(got, idx)
            b = spec if isinstance(spec, tm.Term) else (self.val(spec, sidx) if not isinstance(spec, (int, float)) else tm.T(spec))
        except (Fail, IndexError, TypeError) as e:
            self.checks += 1
            self._fail(name, str(e))
            return
        rtol = tol or 1e-6
        for p in self.pts:
            self.checks += 1
            va = self._value(a, p)
            vb = self._value(b, p)
            if va is None or vb is None:
                continue
            sc = abs(self._value(tm.T(scale), p)) if scale is not None else mpf(1)
            if mpmath.isnan(vb):
                continue
            if mpmath.isnan(va):
                self._fail(name, 'value nan, specified %s' % mpmath.nstr(vb, 12), p)
            elif mpmath.isinf(va) or mpmath.isinf(vb):
                if va != vb:
                    self._fail(name, 'value %s, specified %s' % (va, vb), p)
            elif abs(va - vb) > rtol * max(abs(va), abs(vb)) + 1e-9 * sc:
                self._fail(name, 'value %s, specified %s' % (mpmath.nstr(va, 15), mpmath.nstr(vb, 15)), p)

    def _value(self, t, p):
        if t.op == 'inf':
            return mpf('inf')
        if t.op == 'ninf':
            return mpf('-inf')
        if t.op == 'nan':
            return mpf('nan')
        if t.op == 'ite':
            try:
                return self._value(t.args[1] if self._evg(t.args[0], p) else t.args[2], p)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                return None
        try:
            return self._ev(t, p)
        except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError):
            return None

    def true(self, name, g, tol=1e-7):
        if isinstance(g, (bool, np.bool_)):
            self.checks += 1
            if not g:
                self._fail(name, 'false')
            return
        if g.op == 'and':
            for x in g.args:
                self.true(name, x, tol)
            return
        for p in self.pts:
            self.checks += 1
            try:
                if g.op in ('lt', 'le', 'eq'):
                    v = self._ev(g.args[0], p)
                    ok = (abs(v) <= tol) if g.op == 'eq' else v <= tol
                else:
                    ok = self._evg(g, p)
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                continue
            if not ok:
                self._fail(name, 'formula false: %s' % str(g)[:300], p)

    def finite(self, name, x, idx=None):
        if idx is not None:
            x = x[idx]
        self.checks += 1
        x = np.asarray(x, dtype=float)
        if not np.all(np.isfinite(x)):
            i = int(np.argmin(np.isfinite(x.ravel())))
            self._fail(name, 'not finite: %r' % (x.ravel()[i],), self.pts[i] if x.size == len(self.pts) else None)

    def shape_is(self, name, x, like):
        self.checks += 1
        if np.shape(x) != np.shape(like):
            self._fail(name, 'shape %r, input shape %r' % (np.shape(x), np.shape(like)), self.pts[0])

    def no_truncation(self, name):
        pass

    def no_layout(self, name):
        pass

    def unmodified(self, name='inputs unmodified'):
        self.checks += 1
        for owner, a, c in self.inputs:
            if a.shape != c.shape or not np.array_equal(a, c):
                self._fail(name, 'the argument %s is modified' % owner, self.pts[0] if self.pts else None)

    def raises(self, name, exc, thunk):
        self.checks += 1
        try:
            thunk()
        except Abort as a:
            if not isinstance(a.args[0], exc):
                self._fail(name, 'raises %r' % (a.args[0],))
            return
        self._fail(name, 'no exception raised')

    def fact(self, name, ok, detail=''):
        self.checks += 1
        if not bool(ok):
            self._fail(name, detail or 'does not hold', self.pts[0] if self.pts else None)

    def is_none(self, name, x):
        self.fact(name, x is None, 'not None')


class Timeout(Exception):
    pass


class FrameV(ConcV):
    def eq(self, *a, **k): pass
    def true(self, *a, **k): pass
    def finite(self, *a, **k): pass
    def shape_is(self, *a, **k): pass
    def same_state(self, *a, **k): pass
    def fact(self, *a, **k): pass
    def is_none(self, *a, **k): pass
    def unmodified(self, *a, **k): pass

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except Abort:
            pass

    def _track(self, args):
        import copy
        for a in args:
            if type(a) is list:
                self.tracked.append((a, list(a)))
                self._track(a)
            elif isinstance(a, np.ndarray):
                self._reg(a, 'array')

    @property
    def tracked(self):
        return self.__dict__.setdefault('_tracked', [])

    def call(self, qual, *args, **kw):
        self._track(list(args) + list(kw.values()))
        return ConcV.call(self, qual, *args, **kw)

    def method(self, obj, name, *args, **kw):
        self._track(list(args) + list(kw.values()))
        return ConcV.method(self, obj, name, *args, **kw)

    def setattr(self, obj, name, v):
        self._track([v])
        ConcV.setattr(self, obj, name, v)

    def conclude(self):
        for a, old in self.tracked:
            self.checks += 1
            if len(a) != len(old) or not all(x is y for x, y in zip(a, old)):
                self._fail('inputs unmodified', 'a list argument is modified', self.pts[0] if self.pts else None)
        ConcV.unmodified(self, 'inputs unmodified')


def _alarm(*a):
    raise Timeout()


def run_job(sc, job, seed):
    t0 = time.time()
    out = dict(key=sc.key, samples=0, skipped=0, checks=0, fails=[], errors=[])
    n = job.get('n', 20)
    envs = [job['env']] if 'env' in job else None
    limit = job.get('time', 20.0)
    tries = 0
    while True:
        if envs is None and (out['samples'] >= n or tries >= n * 6 + 20):
            break
        if envs is not None and tries >= 4:
            break
        if time.time() - t0 > limit:
            out['timeout'] = True
            break
        rng = random.Random((seed, sc.key, tries, job.get('salt', 0)).__repr__())
        try:
            cls = FrameV if sc.opts.get('frame') else ConcV
            if envs is not None:
                V = cls(rng, fixed=envs[0], companions=tries > 0, variant=[1, 0, 2, 3][tries])
            else:
                V = cls(rng, variant=tries)
            tries += 1
            np.random.seed(tries)
            sc.fn(V)
            if sc.opts.get('frame'):
                V.conclude()
        except Skip:
            out['skipped'] += 1
            continue
        except Abort as a:
            e = a.args[0]
            if sc.opts.get('frame'):
                V.conclude()
            else:
                V._fail('no exception', 'raises %s: %s' % (type(e).__name__, e), V.pts[0] if V.pts else None)
        except Fail as e:
            if sc.opts.get('frame'):
                V.conclude()
            else:
                V._fail('result form', str(e))
        except Timeout:
            out['errors'].append('timeout')
            break
        except Exception:
            if len(out['errors']) < 3:
                out['errors'].append(traceback.format_exc()[-1500:])
            continue
        out['samples'] += 1
        out['checks'] += V.checks
        for f in V.fails:
            if len(out['fails']) < 12:
                out['fails'].append(f)
        out['nfails'] = out.get('nfails', 0) + len(V.fails)
    out['wall'] = time.time() - t0
    return out


def main():
    repo, req, outp = sys.argv[1:4]
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    with open(req) as f:
        R = json.load(f)
    scs = {s.key: s for s in scen.load_all()}
    UFS.update(make_ufs())
    signal.signal(signal.SIGALRM, _alarm)
    res = []
    for job in R['jobs']:
        sc = scs[job['key']]
        signal.alarm(int(job.get('time', 20.0)) + 30)
        try:
            r = run_job(sc, job, R.get('seed', 1))
        except Timeout:
            r = dict(key=sc.key, samples=0, checks=0, fails=[], errors=['timeout'])
        signal.alarm(0)
        r['id'] = job.get('id')
        res.append(r)
    with open(outp, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
