"""Model of the numpy / scipy functions used by the code under verification."""
from fractions import Fraction
import numpy as _np
from . import terms as tm
from .terms import T, NAN, INF, NINF, ABSENT, is_special
from .ctx import cur, Unsupported, PathEnd, ProgError, Dom
from .sym import (Num, B, Arr, Space, ShapeTok, Row, Grid, Mat2, MatT, GenIndex, Buf, SCALAR, new_dim, dim_array,
                  to_num, mkB, formof, lift1, lift2, obj_array, obj_map, obj_map2, scalar_of, same_space,
                  n_add, n_sub, n_mul, n_div, n_pow, n_sqrt, n_abs, n_sign, n_f, n_lt, n_le, n_eq, n_neg,
                  n_ellipk, n_ellipe, b_not, b_and, b_or, b_xor, is_absent, ite_val, subst_val, dt_of, _same_len,
                  num_or_bool, _opaque_bool)

FLOAT = Num


def n_floor(x):
    if tm.is_q(x.t):
        q = tm.qv(x.t)
        return Num(T(Fraction(q.numerator // q.denominator)), 'f')
    raise Unsupported('floor of a symbolic value')


def u1(fn):
    def g(x, out=None, **k):
        if k or out is not None:
            raise Unsupported('ufunc keyword')
        return lift1(fn, x)
    return g


def u2(fn):
    def g(a, b, out=None, **k):
        if k:
            raise Unsupported('ufunc keyword')
        r = lift2(fn, a, b)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def dtype_tag(dtype, default='f'):
    if dtype is None:
        return default
    dtype = {'b_float': float, 'b_int': int, 'b_bool': bool}.get(getattr(dtype, '__name__', ''), dtype)
    if dtype in (float, 'float', 'f8', 'float64', 'd'):
        return 'f'
    if dtype in (int, 'int', 'i8'):
        return 'i'
    if dtype in (bool, 'bool'):
        return 'b'
    raise Unsupported('dtype %r' % (dtype,))


def is_scalar(x):
    return isinstance(x, (Num, B, int, float, Fraction, bool, _np.floating, _np.integer, _np.bool_))


def np_asarray(x, dtype=None, order=None):
    if isinstance(x, Arr):
        if dtype is not None and dtype_tag(dtype) != x.dt:
            return x.astype(dtype)
        return x
    if isinstance(x, _np.ndarray):
        if x.dtype != object:
            x = obj_array(x)
        return x
    if isinstance(x, (list, tuple)):
        if len(x) and any(isinstance(y, Arr) and y.space.kind != 'scalar' for y in x):
            raise Unsupported('array of symbolic arrays')
        return tag_dt(obj_array(list(x)), dtype)
    if isinstance(x, GenList):
        return x.to_array()
    if is_scalar(x):
        a = Arr.scalar(x)
        if dtype is not None and dtype_tag(dtype) == 'f' and a.dt == 'i':
            return Arr(SCALAR, Num(a.elem.t, 'f'), 'f')
        return a
    if isinstance(x, (Row, Grid, Mat2, MatT)):
        return x
    raise Unsupported('asarray of %r' % type(x))


def tag_dt(a, dtype):
    if dtype is not None and dtype_tag(dtype) == 'f':
        return obj_map(lambda e: Num(to_num(e).t, 'f'), a)
    return a


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if ndmin:
        raise Unsupported('ndmin')
    r = np_asarray(x, dtype)
    if isinstance(r, Arr):
        return r.copy()
    if isinstance(r, _np.ndarray):
        return r.copy()
    if isinstance(r, Mat2) and copy:
        return Mat2(r.n, [c.copy() for c in r.cols])
    return r


def shape_of(s):
    """shape argument -> (space | tuple)"""
    if isinstance(s, ShapeTok):
        return s.space
    if isinstance(s, (int, Num, _np.integer)) and not isinstance(s, bool):
        s = (s,)
    if isinstance(s, (tuple, list)):
        s = tuple(s)
        if all(isinstance(d, (int, _np.integer)) or (isinstance(d, Num) and tm.is_q(d.t)) for d in s):
            return tuple(int(d) for d in s)
        if len(s) == 1:
            return new_dim(to_num(s[0]).t)
        if len(s) == 2:
            a, b = to_num(s[0]).t, to_num(s[1]).t
            if tm.is_q(a) and tm.qv(a) == 1:
                return ('row', b)
            return ('grid', a, b)
    raise Unsupported('shape %r' % (s,))


def filled(shape, val, dt):
    s = shape_of(shape)
    if isinstance(s, Space):
        if s.kind == 'dim':
            s = new_dim(s.n)
        e = val
        if s.kind == 'sub' and not s.present:
            e = Num(ABSENT)
        return Arr(s, e, dt)
    if s and s[0] == 'row':
        return Row(Arr(new_dim(s[1]), val, dt))
    if s and s[0] == 'grid' and tm.is_q(s[2]):
        cols = []
        for _ in range(int(tm.qv(s[2]))):
            cols.append(Arr(new_dim(s[1]), val, dt))
        return Mat2(s[1], cols)
    if s and s[0] == 'grid' and tm.is_q(s[1]):
        return MatT(Mat2(s[2], [Arr(new_dim(s[2]), val, dt) for _ in range(int(tm.qv(s[1])))]))
    if s and s[0] == 'grid':
        t = to_num(val).t
        return Grid(s[1], s[2], lambda i, j: t)
    if s == ():
        return Arr(SCALAR, val, dt)
    out = _np.empty(s, dtype=object)
    for i in _np.ndindex(s):
        out[i] = val
    return out


def np_zeros(shape, dtype=None, **k):
    dt = dtype_tag(dtype)
    return filled(shape, Num(tm.ZERO, dt) if dt != 'b' else False, dt)


def np_ones(shape, dtype=None, **k):
    dt = dtype_tag(dtype)
    return filled(shape, Num(tm.ONE, dt) if dt != 'b' else True, dt)


def np_full(shape, v, dtype=None, **k):
    v = scalar_of(v)
    dt = dt_of(v) if dtype is None else dtype_tag(dtype)
    if dt == 'f' and isinstance(v, Num):
        v = Num(v.t, 'f')
    return filled(shape, v, dt)


def np_empty(shape, dtype=None, **k):
    dt = dtype_tag(dtype)
    return filled(shape, Num(cur().new_var('uninit'), dt) if dt != 'b' else _opaque_bool('uninit'), dt)


def _like(x, v, dtype=None):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr):
        dt = x.dt if dtype is None else dtype_tag(dtype)
        e = Num(T(v), dt) if dt != 'b' else bool(v)
        if is_absent(x.elem):
            e = x.elem
        r = Arr(x.space if x.space.kind != 'dim' else new_dim(x.space.n), e, dt)
        r.buf.korder = x.buf.korder
        return r
    if isinstance(x, _np.ndarray):
        def mk(e):
            dt = dt_of(num_or_bool(e)) if dtype is None else dtype_tag(dtype)
            return Num(T(v), dt) if dt != 'b' else bool(v)
        return obj_map(mk, x)
    n = to_num(x)
    return Arr.scalar(Num(T(v), n.dt if dtype is None else dtype_tag(dtype)))


def np_zeros_like(x, dtype=None, **k): return _like(x, 0, dtype)
def np_ones_like(x, dtype=None, **k): return _like(x, 1, dtype)


def np_full_like(x, v, dtype=None, **k):
    r = _like(x, 0, dtype)
    v = scalar_of(v)
    if isinstance(r, Arr):
        r.write(v)
        return r
    return obj_map(lambda e: v, r)


def np_empty_like(x, dtype=None, **k):
    v = cur().new_var('uninit')
    r = _like(x, 0, dtype)
    return np_full_like(r, Num(v))


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where(mask)')
    if isinstance(c, (list, tuple)):
        c = obj_array(c)
    arrs = [x for x in (c, a, b) if isinstance(x, Arr) and x.space.kind != 'scalar']
    if arrs:
        sp = arrs[0].space
        for x in arrs[1:]:
            if not same_space(sp, x.space):
                raise ProgError('operands could not be broadcast together')

        def el(x):
            if isinstance(x, Arr):
                e = x.elem
                if x.space.kind == 'dim' and x.space is not sp:
                    e = subst_val(e, {x.space.ivar: tm.var(sp.ivar)})
                return e
            return num_or_bool(x) if not isinstance(x, _np.ndarray) else num_or_bool(x.ravel()[0])
        ce, ae, be = el(c), el(a), el(b)
        if is_absent(ce):
            return Arr(sp, ce)
        if sp.kind == 'dim':
            r = ite_val(formof(ce), ae, be)
        else:
            r = ae if bool(ce) else be
        ra = [dt_of(x) for x in (ae, be)]
        dt = 'f' if 'f' in ra else ra[0]
        if isinstance(r, Num) and dt == 'f':
            r = Num(r.t, 'f')
        return Arr(sp, r, dt)
    if isinstance(c, _np.ndarray) or isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        A = [x if isinstance(x, _np.ndarray) else obj_array([x])[0:1].reshape(()) for x in (c, a, b)]
        A = _np.broadcast_arrays(*A)
        out = _np.empty(A[0].shape, dtype=object)
        for i in _np.ndindex(out.shape):
            out[i] = A[1][i] if bool(A[0][i]) else A[2][i]
        return out
    cc = c.elem if isinstance(c, Arr) else c
    return Arr.scalar(scalar_of(a if bool(cc) else b))


def n_max(a, b):
    x, y = a.t, b.t
    if x is ABSENT or y is ABSENT:
        return Num(ABSENT)
    if x is NAN or y is NAN:
        return Num(NAN)
    r = n_lt(a, b)
    if isinstance(r, B) and not is_special(x) and not is_special(y) and cur().bound_vars and (tm.free_vars(x) | tm.free_vars(y)) & cur().bound_vars:
        return Num(tm.ite(r.f, y, x))
    return b if bool(r) else a


def n_min(a, b):
    x, y = a.t, b.t
    if x is ABSENT or y is ABSENT:
        return Num(ABSENT)
    if x is NAN or y is NAN:
        return Num(NAN)
    r = n_lt(b, a)
    if isinstance(r, B) and not is_special(x) and not is_special(y) and cur().bound_vars and (tm.free_vars(x) | tm.free_vars(y)) & cur().bound_vars:
        return Num(tm.ite(r.f, y, x))
    return b if bool(r) else a


def np_clip(x, lo, hi, **k):
    r = x
    if lo is not None:
        r = lift2(n_max, r, lo)
    if hi is not None:
        r = lift2(n_min, r, hi)
    return r


def n_isnan(a):
    return a.t is NAN if not is_absent(a) else Num(ABSENT)


def n_isinf(a):
    return (a.t is INF or a.t is NINF) if not is_absent(a) else Num(ABSENT)


def n_isfinite(a):
    return (not is_special(a.t)) if not is_absent(a) else Num(ABSENT)


def n_nan2num(a):
    if a.t is NAN:
        return Num(tm.ZERO)
    if a.t in (INF, NINF):
        raise Unsupported('nan_to_num of inf')
    return a


def n_isclose(a, b):
    if is_special(a.t) or is_special(b.t):
        return a.t is b.t and a.t is not NAN
    tol = T(Fraction(1, 10 ** 8)) + T(Fraction(1, 10 ** 5)) * tm.absv(b.t)
    return mkB(tm.le(tm.absv(a.t - b.t), tol))


def np_any(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr):
        if x.space.kind == 'scalar':
            return num_truth(x.elem)
        e = x.elem
        if is_absent(e):
            return _opaque_bool('any')
        if isinstance(e, Num):
            e = mkB(tm.ne(e.t, tm.ZERO)) if not is_special(e.t) else True
        if x.space.kind == 'dim':
            if e is False:
                return False
            if e is True:
                return True if tm.is_q(x.space.n) and tm.qv(x.space.n) > 0 else mkB(tm.lt(tm.ZERO, x.space.n))
            raise Unsupported('any over a symbolic 1-D array')
        c = cur()
        if e is True or (e is not False and c.formula_truth(formof(e)) is True):
            return True
        if c.universally(tm.not_(formof(e))) is True:
            return False
        v = c.new_var('any', Dom('int', lo=0, hi=1))
        a = mkB(tm.lt(tm.ZERO, v))
        # the generic element satisfying the mask forces `any`
        if e is not False:
            c.assume(tm.or_(a.f, tm.not_(formof(e))))
        return a
    if isinstance(x, _np.ndarray):
        for e in x.ravel():
            if bool(e):
                return True
        return False
    return num_truth(x)


def num_truth(x):
    if isinstance(x, (bool, B)):
        return x
    return bool(x)


def np_all(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr) and x.space.kind != 'scalar':
        return _neg(np_any(lift1(b_not, Arr(x.space, x.elem if isinstance(x.elem, (bool, B)) or is_absent(x.elem) else mkB(tm.ne(x.elem.t, tm.ZERO)), 'b'))))
    if isinstance(x, Arr):
        return num_truth(x.elem)
    if isinstance(x, _np.ndarray):
        for e in x.ravel():
            if not bool(e):
                return False
        return True
    return num_truth(x)


def _neg(b):
    return (not b) if isinstance(b, bool) else ~b


def _axis_none(axis):
    if axis not in (None, 0, -1):
        raise Unsupported('axis')


def np_max(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr):
        if x.space.kind == 'scalar':
            return x.elem
        _axis_none(axis)
        if is_absent(x.elem):
            return Num(cur().new_var('max'))
        c = cur()
        if is_special(to_num(x.elem).t):
            raise Unsupported('max of special')
        if x.space.kind == 'dim':
            return Num(extremum('max', x))
        v = c.new_var('max')
        c.assume(tm.le(to_num(x.elem).t, v))
        return Num(v, x.dt)
    if isinstance(x, _np.ndarray):
        if axis is not None:
            raise Unsupported('axis')
        if x.size == 0:
            raise ProgError('zero-size array to reduction operation')
        r = to_num(x.ravel()[0])
        for e in x.ravel()[1:]:
            r = n_max(r, to_num(e))
        return r
    return to_num(x)


def extremum(kind, x):
    """opaque max/min of a symbolic 1-D array"""
    c = cur()
    reg = c.opts.setdefault('_extrema', {})
    body = tm.subst(to_num(x.elem).t, {x.space.ivar: tm.var('@')})
    key = (kind, body, x.space.n)
    if key not in reg or reg[key][0] is not c:
        v = c.new_var(kind)
        reg[key] = (c, v)
    return reg[key][1]


def np_min(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr):
        if x.space.kind == 'scalar':
            return x.elem
        _axis_none(axis)
        if is_absent(x.elem):
            return Num(cur().new_var('min'))
        c = cur()
        if x.space.kind == 'dim':
            return Num(extremum('min', x))
        v = c.new_var('min')
        c.assume(tm.le(v, to_num(x.elem).t))
        return Num(v, x.dt)
    if isinstance(x, _np.ndarray):
        r = to_num(x.ravel()[0])
        for e in x.ravel()[1:]:
            r = n_min(r, to_num(e))
        return r
    return to_num(x)


def np_sum(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, Arr) and y.space.kind != 'scalar' for y in x):
            if axis == 0:
                r = x[0]
                for y in x[1:]:
                    r = r + y
                return r
            raise Unsupported('sum of a list of arrays')
        x = obj_array(x)
    if isinstance(x, Arr):
        if x.space.kind == 'scalar':
            return x.elem
        _axis_none(axis)
        if x.space.kind == 'dim':
            e = to_num(x.elem)
            if is_special(e.t):
                return Num(NAN)
            return Num(cur().sumterm(tm.ZERO, tm.add(x.space.n, tm.const(-1)), lambda v: tm.subst(e.t, {x.space.ivar: v})), e.dt)
        cur().notes.append('sum over an opaque shape')
        return Num(cur().new_var('sum'))
    if isinstance(x, _np.ndarray):
        if axis is not None:
            return x.sum(axis=axis)
        r = Num(tm.ZERO, 'i')
        for e in x.ravel():
            r = n_add(r, to_num(e))
        return r
    return to_num(x)


def np_mean(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    if isinstance(x, Arr) and x.space.kind == 'dim':
        return n_div(np_sum(x), Num(x.space.n))
    if isinstance(x, Arr) and x.space.kind == 'scalar':
        return x.elem
    if isinstance(x, _np.ndarray):
        return n_div(np_sum(x), to_num(x.size))
    if isinstance(x, Arr):
        return Num(cur().new_var('mean'))
    return to_num(x)


def np_cumsum(x, axis=None, **k):
    x = np_asarray(x)
    if isinstance(x, Arr) and x.space.kind == 'dim':
        sp = new_dim(x.space.n)
        e = to_num(x.elem)
        return Arr(sp, Num(cur().sumterm(tm.ZERO, tm.var(sp.ivar), lambda v: tm.subst(e.t, {x.space.ivar: v})), e.dt), e.dt)
    if isinstance(x, _np.ndarray) and x.ndim == 1:
        out = []
        r = None
        for e in x:
            r = to_num(e) if r is None else n_add(r, to_num(e))
            out.append(r)
        return obj_array(out)
    raise Unsupported('cumsum')


def np_trapz(y, x=None, dx=1, axis=-1):
    if isinstance(y, Arr) and y.space.kind == 'dim':
        if x is None:
            xt = T(to_num(dx).t) * tm.var(y.space.ivar)
        elif isinstance(x, Arr) and x.space.kind == 'dim':
            if not _same_len(x.space.n, y.space.n):
                raise ProgError('trapz: shapes differ')
            xt = tm.subst(to_num(x.elem).t, {x.space.ivar: tm.var(y.space.ivar)})
        else:
            raise Unsupported('trapz')
        e = to_num(y.elem)
        if is_special(e.t):
            return Num(e.t)
        v = tm.fresh_name('q')
        cur().bound_vars.add(v)
        m = {y.space.ivar: tm.var(v)}
        return Num(tm.btrapz(v, y.space.n, tm.subst(xt, m), tm.subst(e.t, m)))
    if is_scalar(y) or (isinstance(y, Arr) and y.space.kind == 'scalar'):
        if isinstance(x, Arr) and x.space.kind == 'dim':
            return np_trapz(lift2(n_add, lift2(n_mul, x, 0), y), x)
    if isinstance(y, _np.ndarray) and y.ndim == 1 and isinstance(x, _np.ndarray):
        r = Num(tm.ZERO)
        for i in range(len(y) - 1):
            r = r + (to_num(x[i + 1]) - to_num(x[i])) * (to_num(y[i]) + to_num(y[i + 1])) / 2
        return r
    raise Unsupported('trapz')


def np_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    """scipy.integrate.cumulative_trapezoid of 1-D arrays"""
    if initial is not None:
        raise Unsupported('cumtrapz initial')
    y = np_asarray(y)
    if isinstance(y, Arr) and y.space.kind == 'dim':
        ye = lambda i: subst_val(to_num(y.elem), {y.space.ivar: i}).t
        if x is None:
            xe = lambda i: tm.mul(to_num(dx).t, i)
        else:
            x = np_asarray(x)
            if not (isinstance(x, Arr) and x.space.kind == 'dim'):
                raise Unsupported('cumtrapz')
            if not _same_len(x.space.n, y.space.n):
                raise ProgError('cumtrapz: shapes differ')
            xe = lambda i: subst_val(to_num(x.elem), {x.space.ivar: i}).t
        n = y.space.n
        one = tm.ONE
        sp = new_dim(tm.add(n, tm.const(-1)))
        body = lambda v: tm.mul(tm.const(Fraction(1, 2)), tm.add(xe(tm.add(v, one)), tm.neg(xe(v))), tm.add(ye(v), ye(tm.add(v, one))))
        return Arr(sp, Num(cur().sumterm(tm.ZERO, tm.var(sp.ivar), body)), 'f')
    if isinstance(y, _np.ndarray) and y.ndim == 1 and (x is None or isinstance(x, (_np.ndarray, list))):
        r, out = Num(tm.ZERO), []
        for i in range(len(y) - 1):
            h = to_num(dx) if x is None else to_num(x[i + 1]) - to_num(x[i])
            r = r + h * (to_num(y[i]) + to_num(y[i + 1])) / 2
            out.append(r)
        return obj_array(out)
    raise Unsupported('cumtrapz')


class ObjResult:
    """result record of an optimiser"""


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
    """Assumed contract of scipy.optimize.minimize_scalar(method='bounded'):
    for an objective |g| with g quadratic, increasing on the interval and
    changing sign over it, the result is the root of g (to xatol, 1e-5)."""
    if args or bounds is None or (method is not None and not (isinstance(method, str) and method.lower() == 'bounded')):
        raise Unsupported('minimize_scalar options')
    lo, hi = [to_num(b).t for b in bounds]
    c = cur()

    def g(t):
        v = to_num(fun(Num(t))).t
        return v
    old = c.lazyabs
    c.lazyabs = 'all'
    try:
        y = tm.var(tm.fresh_name('y'))
        h = g(y)
        def root(t):
            if t.op == '^' and t.args[1] == 2:
                return t.args[0]
            if t.op == '*':
                fs = [root(x) for x in t.args]
                return None if None in fs else tm.mul(*fs)
            if t.op == 'q':
                q = tm.sqrt(t)
                return q if q.op == 'q' else None
            return None
        h0 = h
        h = root(h.args[0]) if h.op == '^' and h.args[1] == Fraction(1, 2) else None
        if h is None:
            raise Unsupported('objective is not an absolute value: %s' % tm.show(h0))
    finally:
        c.lazyabs = old
    at = lambda v: tm.subst(h, {y.args[0]: v})
    f0, fp, fm = at(tm.ZERO), at(tm.ONE), at(tm.const(-1))
    half = tm.const(Fraction(1, 2))
    B_ = tm.mul(half, tm.add(fp, tm.neg(fm)))
    A_ = tm.add(tm.mul(half, tm.add(fp, fm)), tm.neg(f0))
    if not c.norm().is_zero(tm.add(h, tm.neg(f0), tm.neg(tm.mul(B_, y)), tm.neg(tm.mul(A_, y, y)))):
        raise Unsupported('objective is not quadratic')
    # orientation: g increasing on [lo, hi], lo = 0
    if lo is not tm.ZERO:
        raise Unsupported('lower bound of minimize_scalar')
    if c.decide(tm.lt(B_, tm.ZERO)):
        A_, B_, f0 = tm.neg(A_), tm.neg(B_), tm.neg(f0)
    if not (c.decide(tm.lt(tm.ZERO, B_)) and c.decide(tm.le(tm.ZERO, A_))):
        raise Unsupported('objective of minimize_scalar is not monotone')
    r = ObjResult()
    end = tm.add(f0, tm.mul(B_, hi), tm.mul(A_, hi, hi))
    if c.decide(tm.le(tm.ZERO, f0)):
        r.x = Num(tm.ZERO)
    elif c.decide(tm.lt(end, tm.ZERO)):
        r.x = Num(hi)
    elif c.decide(tm.lt(tm.ZERO, A_)):
        s = tm.sqrt(tm.add(tm.mul(B_, B_), tm.neg(tm.mul(tm.const(4), A_, f0))))
        r.x = Num(tm.const(-2) * f0 / (B_ + s))
    else:
        r.x = Num(tm.neg(f0) / B_)
    r.fun = to_num(fun(r.x))
    r.success = True
    return r


def np_linspace(a, b, n=50, endpoint=True, **k):
    if isinstance(n, int) or (isinstance(n, Num) and tm.is_q(n.t)):
        n = int(n)
        a_, b_ = to_num(a), to_num(b)
        if n == 1:
            return obj_array([a_])
        d = (n - 1) if endpoint else n
        if n > 40:
            # long concrete grids stay symbolic
            return dim_array(n, lambda i: Num(a_.t + (b_.t - a_.t) * tm.f('lin', i, T(d + 1))))
        return obj_array([n_add(a_, n_mul(n_sub(b_, a_), Num(T(Fraction(i, d))))) for i in range(n)])
    nt = to_num(n).t
    a_, b_ = to_num(a), to_num(b)
    return dim_array(nt, lambda i: Num(a_.t + (b_.t - a_.t) * tm.f('lin', i, nt if endpoint else nt + 1)))


def np_arange(*a, **k):
    if k and set(k) - {'dtype'}:
        raise Unsupported('arange keyword')
    if all(isinstance(x, (int, _np.integer)) or (isinstance(x, Num) and tm.is_q(x.t) and tm.qv(x.t).denominator == 1) for x in a):
        return obj_array([Num(T(i), 'i') for i in range(*[int(x) for x in a])])
    r = SymRange(*a)
    if r.step == 1:
        return RangeArr(dim_space_arr(r))
    return RangeArr(dim_space_arr(r))


def dim_space_arr(r):
    sp = new_dim(r.count)
    iv = tm.var(sp.ivar)
    e = tm.add(r.start, iv if r.step == 1 else tm.neg(iv))
    a = Arr(sp, Num(e, 'i'), 'i')
    a.__dict__['srange'] = r
    return a


def RangeArr(a):
    return a


class SymRange:
    """range with symbolic bounds and step +-1"""

    def __init__(self, *a):
        a = [to_num(x).t for x in a]
        self.step = 1
        if len(a) == 1:
            lo, hi = tm.ZERO, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi = a[0], a[1]
            if not tm.is_q(a[2]) or tm.qv(a[2]) not in (1, -1):
                raise Unsupported('range step')
            self.step = int(tm.qv(a[2]))
        self.start = lo
        self.count = tm.add(hi, tm.neg(lo)) if self.step == 1 else tm.add(lo, tm.neg(hi))
        self.stop = hi

    def __deepcopy__(self, memo):
        return self


class GenList:
    """list built by one append per generic loop iteration"""

    def __init__(self, space, elem):
        self.space, self.elem = space, elem

    def to_array(self):
        e = self.elem
        if isinstance(e, _np.ndarray) and self.space.kind == 'dim':
            return Stack(self.space, e)
        if isinstance(e, (list, tuple)) and self.space.kind == 'dim':
            return Stack(self.space, obj_array(e))
        return Arr(self.space, e if isinstance(e, (Num, B, bool)) else to_num(e), dt_of(num_or_bool(e)))

    def __deepcopy__(self, memo):
        return self


class Stack:
    """array of symbolic length whose rows are small arrays"""

    def __init__(self, space, elem):
        self.space, self.elem = space, elem
        self.shape = (Num(space.n, 'i'),) + elem.shape
        self.ndim = len(self.shape)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        if len(s) != 2:
            raise Unsupported('reshape of a stack')
        k = self.elem.size
        c = s[1]
        if isinstance(c, Num) and tm.is_q(c.t):
            c = int(tm.qv(c.t))
        r = s[0]
        if not (isinstance(c, int) and c in (k, -1)) or (isinstance(r, int) and r == -1 and c == -1):
            raise Unsupported('reshape of a stack')
        if not (isinstance(r, int) and r == -1):
            if not (isinstance(r, Num) and _same_len(r.t, self.space.n)):
                raise Unsupported('reshape of a stack')
        return Mat2(self.space.n, [Arr(self.space, to_num(x), 'f') for x in self.elem.ravel()])


def np_concatenate(xs, axis=0, **k):
    xs = list(xs)
    if all(not isinstance(x, Arr) for x in xs):
        return _np.concatenate([obj_array(x) for x in xs], axis=axis)
    _axis_none(axis)
    parts = []
    for x in xs:
        if isinstance(x, Arr):
            if x.space.kind != 'dim':
                raise Unsupported('concatenate of opaque arrays')
            parts.append((x.space.n, lambda i, x=x: subst_val(x.elem, {x.space.ivar: i})))
        else:
            o = obj_array(x)
            for j in range(len(o)):
                parts.append((tm.ONE, lambda i, e=o[j]: num_or_bool(e)))
    n = tm.add(*[p[0] for p in parts])

    def fn(i):
        off = tm.ZERO
        pieces = []
        for ln, g in parts:
            pieces.append((off, ln, g))
            off = tm.add(off, ln)
        val = pieces[-1][2](tm.add(i, tm.neg(pieces[-1][0])))
        for o, ln, g in reversed(pieces[:-1]):
            val = ite_val(tm.lt(i, tm.add(o, ln)), g(tm.add(i, tm.neg(o))), val)
        return val
    sp = new_dim(n)
    e = fn(tm.var(sp.ivar))
    return Arr(sp, e, dt_of(e))


def np_append(a, b, axis=None):
    return np_concatenate((a, b if isinstance(b, (list, tuple, Arr, _np.ndarray)) else [b]))


def np_dot(a, b):
    if isinstance(a, (list, tuple)):
        a = obj_array(a)
    if isinstance(b, (list, tuple)):
        b = obj_array(b)
    if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray):
        r = _np.dot(a, b)
        return r
    if is_scalar(a) or is_scalar(b):
        return a * b
    if isinstance(a, Arr) and isinstance(b, Arr) and a.space.kind == b.space.kind == 'dim':
        return np_sum(a * b)
    raise Unsupported('dot')


def np_cross(a, b, **k):
    if k:
        raise Unsupported('cross keyword')
    a, b = obj_array(a), obj_array(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross')
    a, b = _np.broadcast_arrays(a, b)
    out = _np.empty(a.shape, dtype=object)
    out[..., 0] = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    out[..., 1] = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    out[..., 2] = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return out


def np_norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported('norm options')
    if isinstance(x, Arr):
        if x.space.kind == 'scalar':
            return n_abs(x.elem)
        raise Unsupported('norm of symbolic array')
    x = obj_array(x)
    r = Num(tm.ZERO, 'i')
    for e in x.ravel():
        r = n_add(r, n_pow(to_num(e), Num(T(2), 'i')))
    return n_sqrt(r)


def np_column_stack(xs):
    return _np.column_stack([obj_array(x) for x in xs])


def np_vstack(xs):
    if any(isinstance(x, Arr) for x in xs):
        raise Unsupported('vstack')
    return _np.vstack([obj_array(x) for x in xs])


def np_hstack(xs):
    if any(isinstance(x, Arr) for x in xs):
        return np_concatenate(xs)
    return _np.hstack([obj_array(x) for x in xs])


def np_stack(xs, axis=0):
    if any(isinstance(x, Arr) for x in xs):
        raise Unsupported('stack')
    return _np.stack([obj_array(x) for x in xs], axis=axis)


def np_ravel(x):
    x = np_asarray(x)
    return x.ravel()


def np_reshape(x, s, **k):
    return np_asarray(x).reshape(s)


def np_atleast_1d(*xs):
    if len(xs) != 1:
        raise Unsupported('atleast_1d')
    x = np_asarray(xs[0])
    if isinstance(x, Arr):
        return x.ravel() if x.space.kind == 'scalar' else x
    return _np.atleast_1d(x)


def np_atleast_2d(x):
    if isinstance(x, Arr):
        raise Unsupported('atleast_2d')
    return _np.atleast_2d(obj_array(x))


def np_squeeze(x, **k):
    x = np_asarray(x)
    return x.squeeze() if isinstance(x, Arr) else _np.squeeze(x)


def np_size(x):
    x = np_asarray(x)
    return x.size


def np_shape(x):
    x = np_asarray(x)
    return x.shape


def np_ndim(x):
    x = np_asarray(x)
    return x.ndim


def np_array_equal(a, b):
    raise Unsupported('array_equal')


def np_interp(x, xp, fp, **k):
    """piecewise linear interpolation (xp increasing, as numpy requires)"""
    if k:
        raise Unsupported('interp keyword')
    xp, fp = np_asarray(xp), np_asarray(fp)
    if not (isinstance(xp, Arr) and isinstance(fp, Arr) and xp.space.kind == fp.space.kind == 'dim'):
        raise Unsupported('interp over these nodes')
    if not cur().decide(tm.eq(xp.space.n, fp.space.n)):
        raise ProgError('fp and xp are not of the same length.')
    n = xp.space.n
    X, F = (lambda i: to_num(xp.at(i)).t), (lambda i: to_num(fp.at(i)).t)

    def one(v, _):
        t = v.t
        inner = cur().sumterm(tm.ZERO, n - 2, lambda j: tm.ite(tm.and_(tm.le(X(j), t), tm.lt(t, X(j + 1))), F(j) + (F(j + 1) - F(j)) * (t - X(j)) / (X(j + 1) - X(j)), tm.ZERO))
        return Num(tm.ite(tm.lt(t, X(tm.ZERO)), F(tm.ZERO), tm.ite(tm.le(X(n - 1), t), F(n - 1), inner)))
    return lift2(one, x if not isinstance(x, (list, tuple)) else obj_array(x), Num(tm.ZERO))


def np_broadcast_to(x, shape):
    s = shape_of(shape)
    x = np_asarray(x)
    if isinstance(x, Arr) and isinstance(s, Space):
        if x.space.kind == 'scalar' or same_space(x.space, s):
            return Arr(s, x.elem, x.dt, ro=True)
    raise Unsupported('broadcast_to')


def np_meshgrid(*xs, **k):
    """coordinate matrices of concrete-length vectors"""
    if any(isinstance(x, Arr) for x in xs):
        raise Unsupported('meshgrid of symbolic arrays')
    return list(_np.meshgrid(*[obj_array(x) for x in xs], **k))


def np_copyto(dst, src, where=None):
    if where is None:
        dst[...] = src
    else:
        if isinstance(src, Arr) and src.space.kind != 'scalar':
            src = src[where]
        dst[where] = src


class ErrState:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Ns:
    def __init__(self, name, d):
        self.__dict__['_name'] = name
        self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s' % (self._name, k))

    def __deepcopy__(self, memo):
        return self


def np_isscalar(x):
    return is_scalar(x)


def np_deg2rad(x): return lift2(n_mul, x, Num(tm.PI / 180))
def np_rad2deg(x): return lift2(n_mul, x, Num(T(180) / tm.PI))


def n_heaviside(a, b):
    s = sgn3(a)
    return b if s == 0 else Num(T(1 if s > 0 else 0))


def sgn3(a):
    from .sym import sgn_decide
    return sgn_decide(a.t)


linalg = Ns('np.linalg', dict(norm=np_norm))
matlib = Ns('np.matlib', {})

numpy = Ns('np', dict(
    pi=Num(tm.PI), inf=Num(INF), Inf=Num(INF), Infinity=Num(INF), infty=Num(INF), nan=Num(NAN), NaN=Num(NAN), newaxis=None, e=Num(tm.exp(tm.ONE)),
    float64=float, float_=float, float32=float, int64=int, int_=int, bool_=bool, ndarray=(Arr, _np.ndarray),
    floor=u1(n_floor), ceil=u1(lambda x: n_neg(n_floor(n_neg(x)))), sqrt=u1(n_sqrt), abs=u1(n_abs), absolute=u1(n_abs), fabs=u1(n_abs), sign=u1(n_sign),
    sin=u1(lambda a: n_f('sin', a)), cos=u1(lambda a: n_f('cos', a)), tan=u1(lambda a: n_f('tan', a)),
    exp=u1(lambda a: n_f('exp', a)), log=u1(lambda a: n_f('log', a)), cosh=u1(lambda a: n_f('cosh', a)),
    sinh=u1(lambda a: n_f('sinh', a)), tanh=u1(lambda a: n_f('tanh', a)),
    arctan=u1(lambda a: n_f('atan', a)), arccos=u1(lambda a: n_f('acos', a)), arcsin=u1(lambda a: n_f('asin', a)),
    arctan2=u2(lambda a, b: n_f('atan2', a, b)),
    add=u2(n_add), subtract=u2(n_sub), multiply=u2(n_mul), divide=u2(n_div), true_divide=u2(n_div), power=u2(n_pow),
    square=u1(lambda a: n_mul(a, a)), negative=u1(n_neg), reciprocal=u1(lambda a: n_div(Num(tm.ONE), a)), hypot=u2(lambda a, b: n_sqrt(n_add(n_mul(a, a), n_mul(b, b)))),
    maximum=u2(n_max), minimum=u2(n_min), fmax=u2(n_max), fmin=u2(n_min), clip=np_clip, heaviside=u2(n_heaviside),
    logical_and=u2(b_and), logical_or=u2(b_or), logical_not=u1(b_not), logical_xor=u2(b_xor), invert=u1(b_not), bitwise_and=u2(b_and), bitwise_or=u2(b_or),
    less=u2(n_lt), less_equal=u2(n_le), greater=u2(lambda a, b: n_lt(b, a)), greater_equal=u2(lambda a, b: n_le(b, a)), equal=u2(n_eq),
    not_equal=u2(lambda a, b: b_not(n_eq(a, b))),
    isnan=u1(n_isnan), isinf=u1(n_isinf), isfinite=u1(n_isfinite), nan_to_num=u1(n_nan2num), isclose=u2(n_isclose),
    any=np_any, all=np_all, max=np_max, amax=np_max, min=np_min, amin=np_min, sum=np_sum, mean=np_mean, cumsum=np_cumsum, trapz=np_trapz,
    asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, array=np_array, copy=lambda x: np_array(x), zeros=np_zeros, ones=np_ones, full=np_full, empty=np_empty,
    zeros_like=np_zeros_like, ones_like=np_ones_like, full_like=np_full_like, empty_like=np_empty_like, where=np_where,
    linspace=np_linspace, arange=np_arange, concatenate=np_concatenate, append=np_append, dot=np_dot, matmul=np_dot, cross=np_cross, column_stack=np_column_stack,
    vstack=np_vstack, hstack=np_hstack, stack=np_stack, ravel=np_ravel, reshape=np_reshape, atleast_1d=np_atleast_1d, atleast_2d=np_atleast_2d, squeeze=np_squeeze, size=np_size,
    shape=np_shape, ndim=np_ndim, interp=np_interp, broadcast_to=np_broadcast_to, meshgrid=np_meshgrid, copyto=np_copyto, errstate=ErrState, isscalar=np_isscalar,
    deg2rad=np_deg2rad, radians=np_deg2rad, rad2deg=np_rad2deg, degrees=np_rad2deg, seterr=lambda *a, **k: {}, linalg=linalg, matlib=matlib,
))

special = Ns('scipy.special', dict(ellipk=u1(n_ellipk), ellipe=u1(n_ellipe)))

optimize = Ns('scipy.optimize', dict(minimize_scalar=minimize_scalar))
integrate = Ns('scipy.integrate', dict(cumtrapz=np_cumtrapz, cumulative_trapezoid=np_cumtrapz, trapz=np_trapz, trapezoid=np_trapz))
