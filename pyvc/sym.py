"""Program values: Num (real scalars with IEEE specials), B (booleans),
Arr (arrays given by their element at a generic position)."""
from fractions import Fraction
import operator
import numpy as _np
from . import terms as tm
from .terms import T, NAN, INF, NINF, ABSENT, is_special
from .ctx import cur, Unsupported, PathEnd, ProgError, Dom


# ============================================================ booleans
class B:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return cur().decide(self.f)

    def __invert__(self):
        return mkB(tm.not_(self.f))

    def __and__(self, o):
        if isinstance(o, (Arr, _np.ndarray)):
            return NotImplemented
        return mkB(tm.and_(self.f, formof(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (Arr, _np.ndarray)):
            return NotImplemented
        return mkB(tm.or_(self.f, formof(o)))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.f, formof(o)
        return mkB(tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b)))
    __rxor__ = __xor__

    def _asnum(self):
        return Num(tm.ONE if bool(self) else tm.ZERO, 'i')

    def __mul__(self, o):
        if isinstance(o, (Arr, _np.ndarray)):
            return NotImplemented
        return self._asnum() * o
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, (Arr, _np.ndarray)):
            return NotImplemented
        return self._asnum() + o
    __radd__ = __add__

    def __sub__(self, o): return self._asnum() - o
    def __rsub__(self, o): return -(self._asnum()) + o

    def __eq__(self, o):
        if isinstance(o, (bool, B)):
            return ~(self ^ o)
        return self._asnum() == o

    def __ne__(self, o):
        if isinstance(o, (bool, B)):
            return self ^ o
        return self._asnum() != o

    def __hash__(self):
        return hash(self.f)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self): return self
    def all(self): return self
    def ravel(self): return self

    def __repr__(self):
        return 'B%s' % self.f


def mkB(f):
    if f is tm.TRUE:
        return True
    if f is tm.FALSE:
        return False
    return B(f)


def formof(x):
    if isinstance(x, B):
        return x.f
    if isinstance(x, (bool, _np.bool_)):
        return tm.fconst(bool(x))
    if isinstance(x, Num):
        return tm.fconst(bool(x))
    if isinstance(x, (int, float)):
        return tm.fconst(bool(x))
    raise Unsupported('boolean of %r' % type(x))


# ============================================================ numbers
def to_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Num(T(int(x)), 'i')
    if isinstance(x, (int, _np.integer)):
        return Num(T(int(x)), 'i')
    if isinstance(x, Fraction):
        return Num(T(x), 'f')
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return Num(NAN, 'f')
        if x == float('inf'):
            return Num(INF, 'f')
        if x == float('-inf'):
            return Num(NINF, 'f')
        return Num(T(x), 'f')
    if isinstance(x, tm.Term):
        return Num(x, 'f')
    if isinstance(x, B):
        return x._asnum()
    if isinstance(x, Arr) and x.space.kind == 'scalar':
        return to_num(x.elem)
    if isinstance(x, _np.ndarray) and x.size == 1:
        return to_num(x.ravel()[0])
    if x is None:
        raise ProgError('unsupported operand type: NoneType')
    if isinstance(x, str):
        raise ProgError('unsupported operand type: str')
    raise Unsupported('number from %r' % type(x))


NUMERIC = (int, float, Fraction, _np.integer, _np.floating, _np.bool_, tm.Term)


class Num:
    __slots__ = ('t', 'dt')
    __array_priority__ = 1

    def __init__(self, t, dt='f'):
        self.t = t
        self.dt = dt

    def __repr__(self):
        return 'Num(%s)' % self.t

    def __hash__(self):
        return hash(self.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- arithmetic
    def _bin(self, o, fn, swap=False):
        if isinstance(o, Num):
            pass
        elif isinstance(o, (Arr, _np.ndarray)):
            return NotImplemented
        elif isinstance(o, NUMERIC) or isinstance(o, (bool, B)):
            o = to_num(o)
        else:
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)

    def __add__(self, o): return self._bin(o, n_add)
    def __radd__(self, o): return self._bin(o, n_add, True)
    def __sub__(self, o): return self._bin(o, n_sub)
    def __rsub__(self, o): return self._bin(o, n_sub, True)
    def __mul__(self, o): return self._bin(o, n_mul)
    def __rmul__(self, o): return self._bin(o, n_mul, True)
    def __truediv__(self, o): return self._bin(o, n_div)
    def __rtruediv__(self, o): return self._bin(o, n_div, True)
    def __pow__(self, o): return self._bin(o, n_pow)
    def __rpow__(self, o): return self._bin(o, n_pow, True)
    def __mod__(self, o): raise Unsupported('% operator')
    def __floordiv__(self, o): return n_floordiv(self, to_num(o))
    def __neg__(self): return n_neg(self)
    def __pos__(self): return self
    def __abs__(self): return n_abs(self)

    # ---- comparisons
    def __lt__(self, o): return self._bin(o, n_lt)
    def __le__(self, o): return self._bin(o, n_le)
    def __gt__(self, o): return self._bin(o, n_lt, True)
    def __ge__(self, o): return self._bin(o, n_le, True)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._bin(o, n_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        r = self._bin(o, n_eq)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        r = n_eq(self, Num(tm.ZERO))
        return not bool(r)

    def __float__(self):
        if tm.is_q(self.t):
            return float(tm.qv(self.t))
        if self.t is INF:
            return float('inf')
        if self.t is NINF:
            return float('-inf')
        if self.t is NAN:
            return float('nan')
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        if tm.is_q(self.t):
            return int(tm.qv(self.t))
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if tm.is_q(self.t) and tm.qv(self.t).denominator == 1:
            return int(tm.qv(self.t))
        raise Unsupported('index from a symbolic number')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __round__(self, n=None):
        raise Unsupported('round')

    # numpy-scalar-like
    def ravel(self): return Arr.scalar(self).ravel()
    def item(self): return self
    def copy(self): return self
    def astype(self, *a): return self
    def sum(self, *a, **k): return self
    def flatten(self): return self.ravel()
    def reshape(self, *a): return Arr.scalar(self).reshape(*a)
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    @property
    def T(self): return self
    def conjugate(self): return self
    # used by numpy object ufuncs
    def sqrt(self): return n_sqrt(self)
    def sin(self): return n_f('sin', self)
    def cos(self): return n_f('cos', self)


def _dt(a, b):
    return 'i' if a.dt == 'i' and b.dt == 'i' else 'f'


def n_neg(a):
    if is_special(a.t):
        return Num({NAN: NAN, INF: NINF, NINF: INF, ABSENT: ABSENT}[a.t], a.dt)
    return Num(tm.neg(a.t), a.dt)


def n_add(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT:
            return Num(ABSENT)
        if x is NAN or y is NAN:
            return Num(NAN)
        if is_special(x) and is_special(y):
            return Num(x if x is y else NAN)
        return Num(x if is_special(x) else y)
    return Num(tm.add(x, y), _dt(a, b))


def n_sub(a, b):
    return n_add(a, n_neg(b))


def sgn_decide(t):
    """-1, 0, 1 (forks)"""
    c = cur()
    if c.decide(tm.eq(t, tm.ZERO)):
        return 0
    return 1 if c.decide(tm.lt(tm.ZERO, t)) else -1


def n_mul(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT:
            return Num(ABSENT)
        if x is NAN or y is NAN:
            return Num(NAN)
        if not is_special(x):
            x, y = y, x
        s = (1 if x is INF else -1)
        if is_special(y):
            s *= (1 if y is INF else -1)
        else:
            k = sgn_decide(y)
            if k == 0:
                return Num(NAN)
            s *= k
        return Num(INF if s > 0 else NINF)
    return Num(tm.mul(x, y), _dt(a, b))


def in_binder(t):
    bv = cur().bound_vars
    return bool(bv) and bool(tm.free_vars(t) & bv)


def n_div(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT:
            return Num(ABSENT)
        if x is NAN or y is NAN:
            return Num(NAN)
        if is_special(y):
            if is_special(x):
                return Num(NAN)
            return Num(tm.ZERO)
        # inf / finite
        k = sgn_decide(y)
        s = (1 if x is INF else -1) * (k if k != 0 else 1)
        return Num(INF if s > 0 else NINF)
    if tm.is_q(y):
        zero = tm.qv(y) == 0
    elif in_binder(y):
        zero = False
        cur().notes.append('division inside a bound expression assumed defined')
    else:
        zero = cur().decide(tm.eq(y, tm.ZERO))
    if zero:
        if tm.is_q(x):
            k = (tm.qv(x) > 0) - (tm.qv(x) < 0)
        else:
            k = sgn_decide(x)
        if k == 0:
            return Num(NAN)
        return Num(INF if k > 0 else NINF)
    return Num(tm.mul(x, tm.pow_(y, -1)))


def n_floordiv(a, b):
    if tm.is_q(a.t) and tm.is_q(b.t) and tm.qv(b.t) != 0:
        return Num(T(tm.qv(a.t) // tm.qv(b.t)), _dt(a, b))
    raise Unsupported('floor division')


def n_pow(a, b):
    x, e = a.t, b.t
    if x is ABSENT or e is ABSENT:
        return Num(ABSENT)
    if is_special(e):
        raise Unsupported('infinite exponent')
    if not tm.is_q(e):
        if is_special(x):
            raise Unsupported('symbolic power of special')
        return Num(tm.cpow(x, e))
    q = tm.qv(e)
    if q == 0:
        return Num(tm.ONE, _dt(a, b))
    if is_special(x):
        if x is NAN:
            return Num(NAN)
        if x is INF:
            return Num(INF if q > 0 else tm.ZERO)
        if q.denominator == 1:
            if q < 0:
                return Num(tm.ZERO)
            return Num(INF if q.numerator % 2 == 0 else NINF)
        return Num(NAN)
    if q.denominator != 1 and not tm.is_q(x):
        if not in_binder(x) and cur().decide(tm.lt(x, tm.ZERO)):
            return Num(NAN)
    elif q.denominator != 1 and tm.qv(x) < 0:
        return Num(NAN)
    if q < 0:
        return n_div(Num(tm.ONE), Num(tm.pow_(x, -q)))
    return Num(tm.pow_(x, q), _dt(a, b) if q.denominator == 1 else 'f')


def n_sqrt(a):
    a = to_num(a)
    x = a.t
    if is_special(x):
        if x is NINF:
            return Num(NAN)
        return Num(x)
    if tm.is_q(x):
        if tm.qv(x) < 0:
            return Num(NAN)
        return Num(tm.sqrt(x))
    if not in_binder(x) and not cur().opts.get('lazysqrt') and cur().decide(tm.lt(x, tm.ZERO)):
        return Num(NAN)
    return Num(tm.sqrt(x))


def n_abs(a):
    a = to_num(a)
    x = a.t
    if is_special(x):
        return Num(INF if x is NINF else x)
    if tm.is_q(x):
        return Num(tm.const(abs(tm.qv(x))), a.dt)
    if in_binder(x):
        return Num(tm.absv(x), a.dt)
    if cur().lazyabs:
        s = None if cur().lazyabs == 'all' else cur().synsign(x)
        if s is None or s == {1, -1} or len(s) == 3:
            return Num(tm.absv(x), a.dt)
    if cur().decide(tm.lt(x, tm.ZERO)):
        return Num(tm.neg(x), a.dt)
    return Num(x, a.dt)


def n_sign(a):
    a = to_num(a)
    x = a.t
    if is_special(x):
        return Num(tm.ONE if x is INF else (tm.const(-1) if x is NINF else x))
    if not in_binder(x) and x.op in '+*':
        y = _tidy(x)
        if y is not None and y.op in ('*', 'f', 'v', 'q', '^'):
            x = y
    if cur().decide(tm.eq(x, tm.ZERO)):
        return Num(tm.ZERO, a.dt)
    return Num(tm.ONE if cur().decide(tm.lt(tm.ZERO, x)) else tm.const(-1), a.dt)


def _tidy(t):
    """canonical form of a term, when the ring has one"""
    from .ring import TooBig
    try:
        n = cur().norm()
        return n.term(n.rf(t))
    except (TooBig, ZeroDivisionError, Unsupported):
        return None


def n_f(name, *args):
    args = [to_num(a) for a in args]
    ts = [a.t for a in args]
    if any(t is ABSENT for t in ts):
        return Num(ABSENT)
    if any(t is NAN for t in ts):
        return Num(NAN)
    if any(is_special(t) for t in ts):
        if name == 'exp':
            return Num(INF if ts[0] is INF else tm.ZERO)
        if name == 'log':
            return Num(INF if ts[0] is INF else NAN)
        if name in ('cosh',):
            return Num(INF)
        if name == 'tanh':
            return Num(tm.ONE if ts[0] is INF else tm.const(-1))
        if name in ('sin', 'cos', 'tan'):
            return Num(NAN)
        if name == 'atan':
            return Num(tm.PI / 2 if ts[0] is INF else -(tm.PI / 2))
        raise Unsupported('%s of a special value' % name)
    c = cur()
    if name == 'tan':
        return n_div(Num(tm.sin(ts[0])), Num(tm.cos(ts[0])))
    if name == 'log':
        if not tm.is_q(ts[0]) and c.decide(tm.le(ts[0], tm.ZERO)):
            if c.decide(tm.eq(ts[0], tm.ZERO)):
                return Num(NINF)
            return Num(NAN)
    if name in ('acos', 'asin') and not in_binder(ts[0]):
        x = _tidy(ts[0])
        if x is not None and (tm.is_q(x) or x.op == 'f'):
            ts[0] = x
        if c.decide(tm.lt(tm.ONE, ts[0])) or c.decide(tm.lt(ts[0], tm.const(-1))):
            return Num(NAN)
        if name == 'acos':
            if ts[0].op == 'f' and ts[0].args[0] == 'cos':
                ph = ts[0].args[1]
                if c.formula_truth(tm.and_(tm.le(-tm.PI, ph), tm.le(ph, tm.PI))) is True:
                    return Num(tm.neg(ph) if c.decide(tm.lt(ph, tm.ZERO)) else ph)
            # acos(+-1), acos(0) exact
            for v, r in ((1, tm.ZERO), (-1, tm.PI), (0, tm.PI / 2)):
                if tm.is_q(ts[0]) and tm.qv(ts[0]) == v:
                    return Num(r)
    if name == 'atan2' and not any(in_binder(t) for t in ts):
        y, x = ts
        if y is tm.ZERO or c.formula_truth(tm.eq(y, tm.ZERO)) is True:
            # exactly on the x axis
            if c.decide(tm.eq(x, tm.ZERO)):
                return Num(tm.ZERO)
            return Num(tm.ZERO if c.decide(tm.lt(tm.ZERO, x)) else tm.PI)
        if c.decide(tm.eq(tm.add(tm.mul(x, x), tm.mul(y, y)), tm.ZERO)):
            return Num(tm.ZERO)
    return Num(tm.f(name, *ts))


def n_lt(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT:
            return False
        if x is NAN or y is NAN:
            return False
        if x is y:
            return False
        if x is NINF or y is INF:
            return True
        return False
    return mkB(tm.lt(x, y))


def n_le(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT:
            return False
        if x is NAN or y is NAN:
            return False
        return x is y or x is NINF or y is INF
    return mkB(tm.le(x, y))


def n_eq(a, b):
    x, y = a.t, b.t
    if is_special(x) or is_special(y):
        if x is ABSENT or y is ABSENT or x is NAN or y is NAN:
            return False
        return x is y
    return mkB(tm.eq(x, y))


# elliptic integrals (assumed contracts of scipy.special)
def n_ellipk(m):
    m = to_num(m)
    if is_special(m.t):
        if m.t is NINF:
            return Num(tm.ZERO)
        return Num(NAN if m.t is INF else m.t)
    c = cur()
    if c.decide(tm.eq(m.t, tm.ONE)):
        return Num(INF)
    if c.decide(tm.lt(tm.ONE, m.t)):
        return Num(NAN)
    return Num(tm.f('K', m.t))


def n_ellipe(m):
    m = to_num(m)
    if is_special(m.t):
        return Num(INF if m.t is NINF else (NAN if m.t is INF else m.t))
    c = cur()
    if c.decide(tm.eq(m.t, tm.ONE)):
        return Num(tm.ONE)
    if c.decide(tm.lt(tm.ONE, m.t)):
        return Num(NAN)
    return Num(tm.f('E', m.t))


# ============================================================ arrays
class Space:
    """index space of an array.
    kind: 'cp'     opaque shape, one generic position
          'flat'   1-D flattening of `parent`
          'sub'    positions of `parent` selected by a mask (1-D)
          'dim'    1-D of symbolic length n with index variable
          'scalar' 0-D
    """
    count = 0

    def __init__(self, kind, parent=None, present=True, n=None, ivar=None, name='', maskf=None):
        Space.count += 1
        self.id = Space.count
        self.kind, self.parent, self.present, self.n, self.ivar, self.name = kind, parent, present, n, ivar, name
        self.maskf = maskf
        self._flat = None

    def __repr__(self):
        return 'Space(%s%s)' % (self.kind, self.name)

    def __deepcopy__(self, memo):
        return self

    def flat(self):
        if self.kind == 'flat' or self.kind == 'dim' or self.kind == 'sub':
            return self
        if self._flat is None:
            self._flat = Space('flat', parent=self, name=self.name)
        return self._flat


def same_space(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == 'scalar':
        return True
    if a.kind == 'sub':
        if not same_space(a.parent, b.parent):
            return False
        if a.maskf is not None or b.maskf is not None:
            return a.maskf is b.maskf or (a.maskf is not None and b.maskf is not None and _form_equiv(a.maskf, b.maskf))
        if a.present != b.present:
            raise ProgError('arrays selected by different masks are combined')
        return True
    if a.kind == 'dim':
        return _same_len(a.n, b.n)
    if a.kind == 'flat':
        return same_space(a.parent, b.parent)
    return False


def _form_equiv(f, g):
    if f is g:
        return True
    c = cur()
    return c.feasible(tm.and_(f, tm.not_(g))) is False and c.feasible(tm.and_(g, tm.not_(f))) is False


def _same_len(a, b):
    d = a - b
    if tm.is_q(d):
        return tm.qv(d) == 0
    c = cur()
    try:
        if c.norm().is_zero(d):
            return True
    except Exception:
        pass
    if c.decide(tm.eq(d, tm.ZERO)):
        return True
    return False


class ShapeTok:
    def __init__(self, space):
        self.space = space

    def __eq__(self, o):
        if isinstance(o, ShapeTok):
            return same_space(self.space, o.space)
        if isinstance(o, tuple):
            if o == (0,):
                return False      # the generic position exists
            if o == ():
                return self.space.kind == 'scalar'
            if len(o) == 1 and self.space.kind == 'dim':
                return to_num(o[0]) == Num(self.space.n, 'i')
            if len(o) == 1 and self.space.kind in ('cp', 'flat'):
                return mkB(tm.batom('shape%d==%r' % (self.space.id, o))) if False else _opaque_bool('shape')
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.space.id

    def __getitem__(self, i):
        if self.space.kind == 'dim' and i in (0, -1):
            return Num(self.space.n, 'i')
        if isinstance(i, slice):
            raise Unsupported('slice of a shape')
        return _opaque_count(self.space if self.space.kind in ('flat', 'sub') else None)

    def __len__(self):
        if self.space.kind in ('dim', 'flat', 'sub'):
            return 1
        if self.space.kind == 'scalar':
            return 0
        raise Unsupported('number of dimensions of an opaque shape')

    def __iter__(self):
        if self.space.kind == 'dim':
            return iter((Num(self.space.n, 'i'),))
        if self.space.kind == 'scalar':
            return iter(())
        raise Unsupported('unpacking an opaque shape')

    def __deepcopy__(self, memo):
        return self


def _opaque_bool(base):
    c = cur()
    v = c.new_var(base)
    return mkB(tm.lt(tm.ZERO, v))


def _opaque_count(space=None):
    c = cur()
    v = c.new_var('count', Dom('int', lo=1, hi=9))
    r = CountTok(v, 'i')
    r.space = space
    return r


class Buf:
    # korder: memory order unknown (follows that of the caller's arrays)
    __slots__ = ('elem', 'dt', 'owner', 'serial', 'dirty', 'korder')
    count = 0

    def __init__(self, elem, dt, owner=None):
        self.elem, self.dt, self.owner = elem, dt, owner
        Buf.count += 1
        self.serial = Buf.count
        self.dirty = None
        self.korder = False


class CountTok(Num):
    """number of elements of an opaque (flattened) array"""
    __slots__ = ('space',)


class GenIndex:
    """the generic position inside a per-element loop"""

    def __init__(self, space):
        self.space = space

    def __deepcopy__(self, memo):
        return self


def deref(e):
    return e


class Arr:
    __array_priority__ = 1000
    __array_ufunc__ = None
    maybe = False             # a ravel that is a view or a copy depending on the memory order

    def __init__(self, space, elem=None, dt='f', buf=None, ro=False):
        self.space = space
        self.buf = buf if buf is not None else Buf(elem, dt)
        self.ro = ro

    @staticmethod
    def scalar(x):
        n = x if isinstance(x, (bool, B)) else to_num(x)
        return Arr(SCALAR, n, 'b' if isinstance(n, (bool, B)) else n.dt)

    # -- attributes
    @property
    def elem(self):
        if self.buf.dirty is not None and any(g[0] == self.buf.dirty for g in cur().genloops):
            raise Unsupported('whole-array use of an array being filled by a loop')
        return self.buf.elem

    @property
    def dt(self):
        return self.buf.dt

    @property
    def shape(self):
        if self.space.kind == 'dim':
            return (Num(self.space.n, 'i'),)
        if self.space.kind == 'scalar':
            return ()
        return ShapeTok(self.space)

    @property
    def size(self):
        if self.space.kind == 'dim':
            return Num(self.space.n, 'i')
        if self.space.kind == 'scalar':
            return 1
        return _opaque_count(self.space.flat())

    @property
    def ndim(self):
        if self.space.kind in ('dim', 'flat', 'sub'):
            return 1
        if self.space.kind == 'scalar':
            return 0
        return _opaque_count()

    @property
    def dtype(self):
        return {'f': float, 'i': int, 'b': bool}[self.dt]

    @property
    def T(self):
        if self.space.kind in ('dim', 'flat', 'sub', 'scalar'):
            return self
        raise Unsupported('transpose of an opaque shape')

    @property
    def real(self):
        return self

    def __len__(self):
        raise Unsupported('len() through the host interpreter')

    def _len(self):
        if self.space.kind == 'dim':
            return Num(self.space.n, 'i')
        if self.space.kind == 'scalar':
            raise ProgError('len() of unsized object')
        return _opaque_count(self.space)

    def __repr__(self):
        return 'Arr(%r,%r)' % (self.space, self.buf.elem)

    def __deepcopy__(self, memo):
        b = memo.get(id(self.buf))
        if b is None:
            b = Buf(self.buf.elem, self.buf.dt, self.buf.owner)
            memo[id(self.buf)] = b
        return Arr(self.space, buf=b, ro=self.ro)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.space.kind == 'scalar':
            return bool(self.elem)
        raise ProgError('truth value of an array')

    def __float__(self):
        return float(to_num(self))

    def __index__(self):
        return to_num(self).__index__()

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array')

    # -- elementwise
    def _map2(self, o, fn, swap=False):
        return lift2(fn, o, self) if swap else lift2(fn, self, o)

    def __add__(self, o): return self._map2(o, n_add)
    def __radd__(self, o): return self._map2(o, n_add, True)
    def __sub__(self, o): return self._map2(o, n_sub)
    def __rsub__(self, o): return self._map2(o, n_sub, True)
    def __mul__(self, o): return self._map2(o, n_mul)
    def __rmul__(self, o): return self._map2(o, n_mul, True)
    def __truediv__(self, o): return self._map2(o, n_div)
    def __rtruediv__(self, o): return self._map2(o, n_div, True)
    def __pow__(self, o): return self._map2(o, n_pow)
    def __rpow__(self, o): return self._map2(o, n_pow, True)
    def __neg__(self): return lift1(n_neg, self)
    def __pos__(self): return lift1(lambda x: x, self)
    def __abs__(self): return lift1(n_abs, self)
    def __lt__(self, o): return self._map2(o, n_lt)
    def __le__(self, o): return self._map2(o, n_le)
    def __gt__(self, o): return self._map2(o, n_lt, True)
    def __ge__(self, o): return self._map2(o, n_le, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._map2(o, n_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return ~self._map2(o, n_eq)

    def __invert__(self):
        return lift1(b_not, self)

    def __and__(self, o): return lift2(b_and, self, o)
    def __rand__(self, o): return lift2(b_and, self, o)
    def __or__(self, o): return lift2(b_or, self, o)
    def __ror__(self, o): return lift2(b_or, self, o)
    def __xor__(self, o): return lift2(b_xor, self, o)

    # -- in-place
    def _inplace(self, o, fn):
        r = lift2(fn, self, o)
        if not isinstance(r, Arr) or not same_space(r.space, self.space):
            raise ProgError('in-place operation changes the shape')
        if self.dt == 'i' and r.dt == 'f':
            raise ProgError('in-place float operation on an integer array')
        self.write(r.elem)
        return self

    def __iadd__(self, o): return self._inplace(o, n_add)
    def __isub__(self, o): return self._inplace(o, n_sub)
    def __imul__(self, o): return self._inplace(o, n_mul)
    def __itruediv__(self, o): return self._inplace(o, n_div)
    def __ipow__(self, o): return self._inplace(o, n_pow)

    def write(self, e, gen=False):
        if self.ro:
            raise Unsupported('store through an array slice')
        if not gen and cur().genloops and self.buf.serial <= cur().genloops[-1][1]:
            raise Unsupported('whole-array store inside a per-element loop')
        old = self.buf.elem
        if self.maybe:
            cur().events.append(('layout', self.buf.owner, e))
        if isinstance(e, (bool, B)):
            if self.dt == 'f':
                e = e._asnum() if isinstance(e, B) else to_num(e)
        elif isinstance(e, Num):
            if self.dt == 'b' and not isinstance(e, (bool, B)):
                e = mkB(tm.ne(e.t, tm.ZERO)) if not is_special(e.t) else True
            elif self.dt == 'i' and e.dt == 'f' and e.t is not ABSENT:
                cur().events.append(('truncate', self.buf.owner, e))
                e = Num(tm.f('trunc', e.t), 'i') if not is_special(e.t) else Num(NAN, 'i')
            elif self.dt == 'f' and e.dt == 'i':
                e = Num(e.t, 'f')
        if self.buf.owner is not None:
            cur().events.append(('mutate', self.buf.owner, old, e))
        self.buf.elem = e

    # -- views and copies
    def ravel(self, *a, **k):
        if self.space.kind == 'scalar':
            return Arr(FLAT_SCALAR, buf=self.buf)
        r = Arr(self.space.flat(), buf=self.buf, ro=self.ro)
        if self.buf.korder and self.space.kind == 'cp':
            r.maybe = True
        return r

    def flatten(self, *a):
        r = self.ravel()
        return Arr(r.space, self.elem, self.dt)

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, ShapeTok):
            t = shape.space
            if same_space(t, self.space):
                return Arr(self.space, buf=self.buf, ro=self.ro)
            if same_space(t.flat(), self.space.flat()):
                return Arr(t, buf=self.buf, ro=self.ro)
            raise ProgError('cannot reshape array')
        if isinstance(shape, (int, Num)) and not isinstance(shape, bool):
            shape = (shape,)
        if isinstance(shape, tuple):
            if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
                return self.ravel()
            if shape == () and self.space.kind in ('scalar', 'flat') and (self.space is FLAT_SCALAR or self.space is SCALAR):
                return Arr(SCALAR, buf=self.buf)
            if len(shape) == 1 and self.space.kind == 'dim':
                if _same_len(to_num(shape[0]).t, self.space.n):
                    return Arr(self.space, buf=self.buf, ro=self.ro)
                raise ProgError('cannot reshape array')
            if len(shape) == 2 and self.space.kind == 'dim':
                a, b = to_num(shape[0]).t, to_num(shape[1]).t
                if tm.is_q(a) and tm.qv(a) == 1 and _same_len(b, self.space.n):
                    return Row(self)
        raise Unsupported('reshape')

    def copy(self, *a):
        return Arr(self.space, self.elem, self.dt)

    def __copy__(self):
        return self.copy()

    def astype(self, t, *a, **k):
        dt = {float: 'f', int: 'i', bool: 'b'}.get(t, 'f' if t in ('float', 'float64', 'f8') else None)
        if dt is None:
            name = getattr(t, '__name__', str(t))
            dt = 'f' if 'float' in name else None
        if dt == self.dt:
            return self.copy()
        if dt == 'f':
            e = to_num(self.elem)
            return Arr(self.space, Num(e.t, 'f'), 'f')
        raise Unsupported('astype')

    def fill(self, v):
        self.write(to_num(v))

    def any(self, *a, **k):
        from . import npshim
        return npshim.np_any(self)

    def all(self, *a, **k):
        from . import npshim
        return npshim.np_all(self)

    def sum(self, *a, **k):
        from . import npshim
        return npshim.np_sum(self, *a, **k)

    def max(self, *a, **k):
        from . import npshim
        return npshim.np_max(self)

    def min(self, *a, **k):
        from . import npshim
        return npshim.np_min(self)

    def mean(self, *a, **k):
        from . import npshim
        return npshim.np_mean(self)

    def dot(self, o):
        from . import npshim
        return npshim.np_dot(self, o)

    def item(self):
        if self.space.kind == 'scalar':
            return self.elem
        raise Unsupported('item')

    def tolist(self):
        raise Unsupported('tolist')

    def squeeze(self, *a):
        if self.space.kind in ('dim', 'flat', 'scalar', 'sub'):
            return self
        raise Unsupported('squeeze')

    # -- indexing
    def at(self, idx):
        """element at index term (1-D symbolic arrays)"""
        v = self.space.ivar
        e = self.elem
        return subst_val(e, {v: idx})

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, tuple) and len(k) == 0:
            return self.elem if self.space.kind == 'scalar' else self
        if isinstance(k, Arr) and (k.dt == 'b' or isinstance(k.elem, (bool, B))):
            return self._compress(k)
        if isinstance(k, GenIndex):
            if not same_space(k.space, self.space):
                raise ProgError('index from another index space')
            return self.buf.elem
        if k is Ellipsis:
            return Arr(self.space, buf=self.buf, ro=self.ro)
        if self.space.kind == 'scalar':
            if isinstance(k, (bool, B)):
                return self._compress(Arr.scalar(k))
            raise ProgError('too many indices for array')
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
            return Arr(self.space, buf=self.buf, ro=self.ro)
        if self.space.kind == 'dim':
            return self._dim_get(k)
        if self.space.kind in ('cp', 'flat', 'sub'):
            if isinstance(k, (int, Num)):
                # some other element: unknown value
                if self.space is FLAT_SCALAR:
                    return self.elem
                cur().notes.append('unknown other element')
                if isinstance(self.elem, (bool, B)):
                    return _opaque_bool('other')
                return Num(cur().new_var('other'), self.dt)
        raise Unsupported('array index %r' % (type(k),))

    def _norm_index(self, k):
        """index term (negative constants wrap)"""
        if isinstance(k, Arr) and k.space.kind == 'scalar':
            k = k.elem
        kt = to_num(k).t
        n = self.space.n
        if tm.is_q(kt) and tm.qv(kt) < 0:
            return tm.add(n, kt)
        return kt

    def _dim_get(self, k):
        if isinstance(k, (int, Num)) and not isinstance(k, bool):
            h = getattr(self, 'hook_get', None)
            return self.at(self._norm_index(k))
        if isinstance(k, slice):
            off, n, step = self._slice(k)
            sp = new_dim(n)
            iv = tm.var(sp.ivar)
            idx = tm.add(off, iv) if step == 1 else tm.add(off, tm.neg(iv))
            return Arr(sp, subst_val(self.elem, {self.space.ivar: idx}), self.dt, ro=True)
        if isinstance(k, Arr) and k.space.kind == 'dim' and k.dt == 'i':
            sp = k.space
            idx = to_num(k.elem).t
            return Arr(sp, subst_val(self.elem, {self.space.ivar: idx}), self.dt)
        if k is None:
            raise Unsupported('newaxis')
        raise Unsupported('index of a 1-D array by %r' % type(k))

    def _slice(self, k):
        n = self.space.n
        step = 1 if k.step is None else int(k.step)
        if step not in (1, -1):
            raise Unsupported('slice step')

        def bound(x):
            t = to_num(x).t
            if tm.is_q(t) and tm.qv(t) < 0:
                return tm.add(n, t)
            return t
        if step == 1:
            lo = tm.ZERO if k.start is None else bound(k.start)
            hi = n if k.stop is None else bound(k.stop)
            return lo, tm.add(hi, tm.neg(lo)), 1
        hi = tm.add(n, tm.const(-1)) if k.start is None else bound(k.start)
        lo = tm.const(-1) if k.stop is None else bound(k.stop)
        return hi, tm.add(hi, tm.neg(lo)), -1

    def _compress(self, m):
        if not same_space(m.space, self.space):
            raise ProgError('boolean index did not match indexed array')
        if self.space.kind == 'dim':
            fm = formof(m.elem)
            e = self.elem
            if m.space is not self.space:
                e = subst_val(e, {self.space.ivar: tm.var(m.space.ivar)})
            return Arr(Space('sub', parent=m.space, maskf=fm), e, self.dt)
        if is_absent(self.elem) or is_absent(m.elem):
            return Arr(Space('sub', parent=self.space, present=False), absent_like(self), self.dt)
        if bool(m.elem):
            return Arr(Space('sub', parent=self.space, present=True), self.elem, self.dt)
        return Arr(Space('sub', parent=self.space, present=False), absent_like(self), self.dt)

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, GenIndex):
            if not same_space(k.space, self.space):
                raise ProgError('index from another index space')
            if isinstance(v, Arr) and v.space.kind != 'scalar':
                raise ProgError('setting an array element with a sequence')
            self.write(v.elem if isinstance(v, Arr) else scalar_of(v), gen=True)
            self.buf.dirty = cur().genloops[-1][0] if cur().genloops else None
            return
        if isinstance(k, (bool, B)) and self.space.kind == 'scalar':
            k = Arr.scalar(k)
        if isinstance(k, Arr) and (k.dt == 'b' or isinstance(k.elem, (bool, B))):
            if not same_space(k.space, self.space):
                raise ProgError('boolean index did not match indexed array')
            self._mask_store(k, v)
            return
        if k is Ellipsis or (isinstance(k, slice) and k.start is None and k.stop is None and k.step is None) or (isinstance(k, tuple) and k == ()):
            if isinstance(v, Arr):
                if v.space.kind != 'scalar' and not same_space(v.space, self.space):
                    raise ProgError('could not broadcast input array')
                self.write(v.elem)
            else:
                self.write(scalar_of(v))
            return
        if self.space.kind == 'dim':
            self._dim_set(k, v)
            return
        if self.space.kind in ('cp', 'flat') and isinstance(k, (int, Num)):
            # store to some specific position: the generic one may be it
            b = _opaque_bool('samepos')
            if bool(b):
                self.write(scalar_of(v))
            return
        raise Unsupported('array store index %r' % type(k))

    def _dim_set(self, k, v):
        iv = tm.var(self.space.ivar)
        if isinstance(k, (int, Num)) and not isinstance(k, bool):
            idx = self._norm_index(k)
            val = v.elem if isinstance(v, Arr) and v.space.kind == 'scalar' else scalar_of(v)
            self.write(ite_val(tm.eq(iv, idx), val, self.elem))
            return
        if isinstance(k, slice):
            off, n, step = self._slice(k)
            if step == 1:
                rel = tm.add(iv, tm.neg(off))
            else:
                rel = tm.add(off, tm.neg(iv))
            inside = tm.and_(tm.le(tm.ZERO, rel), tm.lt(rel, n))
            if isinstance(v, Arr) and v.space.kind != 'scalar':
                if v.space.kind != 'dim' or not _same_len(v.space.n, n):
                    raise ProgError('could not broadcast input array')
                val = subst_val(v.elem, {v.space.ivar: rel})
            else:
                val = v.elem if isinstance(v, Arr) else scalar_of(v)
            self.write(ite_val(inside, val, self.elem))
            return
        raise Unsupported('store index %r' % type(k))

    def _mask_store(self, m, v):
        if self.space.kind == 'dim':
            iv = tm.var(self.space.ivar)
            fm = formof(m.elem)
            if m.space is not self.space:
                fm = tm.subst(fm, {m.space.ivar: iv})
            if isinstance(v, Arr) and v.space.kind != 'scalar':
                vf = v.space.maskf if v.space.kind == 'sub' else None
                if vf is not None and v.space.parent is not self.space:
                    vf = tm.subst(vf, {v.space.parent.ivar: iv})
                if vf is None or not same_space(v.space.parent, self.space) or not _form_equiv(vf, fm):
                    raise ProgError('mask assignment of another index set')
                val = v.elem
                if v.space.parent is not self.space:
                    val = subst_val(val, {v.space.parent.ivar: iv})
            else:
                val = v.elem if isinstance(v, Arr) else scalar_of(v)
            self.write(ite_val(fm, val, self.elem))
            return
        if is_absent(self.elem) or is_absent(m.elem):
            return
        sel = bool(m.elem)
        if isinstance(v, Arr) and v.space.kind != 'scalar':
            if v.space.kind != 'sub' or not same_space(v.space.parent, self.space):
                raise ProgError('mask assignment of an array from another index space')
            if v.space.present != sel:
                raise ProgError('mask assignment with another mask')
            if sel:
                self.write(v.elem)
        elif sel:
            self.write(v.elem if isinstance(v, Arr) else scalar_of(v))


class Row:
    """a 1 x n array: row view of a 1-D symbolic array"""

    def __init__(self, arr):
        self.arr = arr

    @property
    def shape(self):
        return (1, Num(self.arr.space.n, 'i'))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            i = to_num(k[0]).t
            if tm.is_q(i) and tm.qv(i) == 0:
                return self.arr[k[1]]
        raise Unsupported('index of a 1 x n array')

    def __deepcopy__(self, memo):
        return Row(self.arr.copy())

    copy = lambda self: Row(self.arr.copy())
    ndim = 2

    @property
    def size(self):
        return Num(self.arr.space.n, 'i')

    def _len(self):
        return 1

    def ravel(self):
        return self.arr

    flatten = lambda self: self.arr.copy()

    def reshape(self, *s):
        return self.arr.reshape(*s)

    def __neg__(self): return Row(-self.arr)
    def __add__(self, o): return lift2(n_add, self, o)
    def __radd__(self, o): return lift2(n_add, o, self)
    def __sub__(self, o): return lift2(n_sub, self, o)
    def __rsub__(self, o): return lift2(n_sub, o, self)
    def __mul__(self, o): return lift2(n_mul, self, o)
    def __rmul__(self, o): return lift2(n_mul, o, self)
    def __truediv__(self, o): return lift2(n_div, self, o)
    def __rtruediv__(self, o): return lift2(n_div, o, self)
    def __pow__(self, o): return lift2(n_pow, self, o)


class Grid:
    """a 2-D symbolic array nrow x ncol, entries sel(name,i,j)"""

    def __init__(self, nrow, ncol, fn):
        self.nrow, self.ncol, self.fn = nrow, ncol, fn

    @property
    def shape(self):
        return (Num(self.nrow, 'i'), Num(self.ncol, 'i'))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, (int, Num)) for x in k):
            return Num(self.fn(to_num(k[0]).t, to_num(k[1]).t))
        if isinstance(k, (int, Num)):
            i = to_num(k).t
            return dim_array(self.ncol, lambda j: Num(self.fn(i, j)))
        raise Unsupported('index of a 2-D array')

    def __deepcopy__(self, memo):
        return self

    @property
    def ndim(self):
        return 2


class Mat2:
    """2-D array of symbolic number of rows and few columns"""

    def __init__(self, n, cols):
        self.n, self.cols = T(n), cols

    @property
    def shape(self):
        return (Num(self.n, 'i'), len(self.cols))

    ndim = 2
    dt = 'f'

    def __len__(self):
        raise Unsupported('len of a symbolic matrix')

    def _split(self, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise ProgError('too many indices for array')
            return k
        return k, slice(None)

    def _cols(self, c):
        if isinstance(c, slice):
            return list(range(len(self.cols)))[slice(*[None if x is None else int(x) for x in (c.start, c.stop, c.step)])], True
        c = int(c)
        if not -len(self.cols) <= c < len(self.cols):
            raise ProgError('index out of bounds')
        return [c], False

    def __getitem__(self, k):
        r, c = self._split(k)
        cs, many = self._cols(c)
        if isinstance(r, slice):
            if not (r.start is None and r.stop is None and r.step is None):
                raise Unsupported('row slice of a symbolic matrix')
            if many:
                return Mat2(self.n, [self.cols[i] for i in cs])
            return self.cols[cs[0]]
        if isinstance(r, (int, Num)):
            if not many:
                return self.cols[cs[0]][r]
            out = _np.empty(len(cs), dtype=object)
            for m, i in enumerate(cs):
                out[m] = self.cols[i][r]
            return out
        raise Unsupported('index of a symbolic matrix')

    def __setitem__(self, k, v):
        r, c = self._split(k)
        cs, many = self._cols(c)
        vs = [v] * len(cs)
        if isinstance(v, (list, tuple, _np.ndarray)) and not (isinstance(v, _np.ndarray) and v.ndim == 0):
            v = list(v)
            if len(v) == 1:
                v = v * len(cs)
            if len(v) != len(cs) or not many:
                raise ProgError('could not broadcast input array')
            vs = v
        elif isinstance(v, Mat2):
            if len(v.cols) != len(cs):
                raise ProgError('could not broadcast input array')
            vs = v.cols
        elif isinstance(v, Arr) and v.space.kind == 'dim' and isinstance(r, (int, Num)):
            raise Unsupported('row store')
        for i, x in zip(cs, vs):
            self.cols[i][r] = x

    def _map(self, o, fn, swap=False):
        if isinstance(o, Mat2):
            return Mat2(self.n, [lift2(fn, a, b) if not swap else lift2(fn, b, a) for a, b in zip(self.cols, o.cols)])
        if isinstance(o, (int, float, Num)):
            return Mat2(self.n, [lift2(fn, a, o) if not swap else lift2(fn, o, a) for a in self.cols])
        if isinstance(o, _np.ndarray) and o.shape == (len(self.cols),):
            return Mat2(self.n, [lift2(fn, a, o[i]) if not swap else lift2(fn, o[i], a) for i, a in enumerate(self.cols)])
        raise Unsupported('operation on a symbolic matrix')

    def __add__(self, o): return self._map(o, n_add)
    def __radd__(self, o): return self._map(o, n_add, True)
    def __sub__(self, o): return self._map(o, n_sub)
    def __rsub__(self, o): return self._map(o, n_sub, True)
    def __mul__(self, o): return self._map(o, n_mul)
    def __rmul__(self, o): return self._map(o, n_mul, True)
    def __truediv__(self, o): return self._map(o, n_div)
    def __neg__(self): return self * Num(tm.const(-1))

    @property
    def T(self):
        return MatT(self)

    def copy(self):
        return Mat2(self.n, [a.copy() for a in self.cols])

    def __deepcopy__(self, memo):
        return self


class MatT:
    """2-D array of few rows and a symbolic number of columns (transposed Mat2)"""
    ndim = 2
    dt = 'f'

    def __init__(self, m):
        self.m = m

    @property
    def shape(self):
        return (len(self.m.cols), Num(self.m.n, 'i'))

    @property
    def T(self):
        return self.m

    @property
    def cols(self):
        return self.m.cols

    def __len__(self):
        return len(self.m.cols)

    def __iter__(self):
        return iter(self.m.cols)

    def _key(self, k):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        if len(k) != 2:
            raise ProgError('too many indices for array')
        return (k[1], k[0])

    def __getitem__(self, k):
        r = self.m[self._key(k)]
        return MatT(r) if isinstance(r, Mat2) else r

    def __setitem__(self, k, v):
        k = self._key(k)
        if isinstance(k[0], (int, Num)):
            if isinstance(v, _np.ndarray) and v.ndim == 2:
                raise ProgError('could not broadcast input array')
            self.m[k] = v
        elif isinstance(k[1], slice):
            raise Unsupported('block store in a symbolic matrix')
        else:
            self.m[k] = v

    def copy(self):
        return MatT(self.m.copy())

    def __deepcopy__(self, memo):
        return self

    def _bin(self, o, fn, swap=False):
        o = o.m if isinstance(o, MatT) else o
        if not isinstance(o, (Mat2, int, float, Num)):
            raise Unsupported('operation on a symbolic matrix')
        return MatT(self.m._map(o, fn, swap))

    def __add__(self, o): return self._bin(o, n_add)
    def __radd__(self, o): return self._bin(o, n_add, True)
    def __sub__(self, o): return self._bin(o, n_sub)
    def __rsub__(self, o): return self._bin(o, n_sub, True)
    def __mul__(self, o): return self._bin(o, n_mul)
    def __rmul__(self, o): return self._bin(o, n_mul, True)
    def __truediv__(self, o): return self._bin(o, n_div)
    def __neg__(self): return self * Num(tm.const(-1))


def scalar_of(v):
    if isinstance(v, (bool, B)):
        return v
    if isinstance(v, _np.ndarray) and v.size == 1:
        return scalar_of(v.ravel()[0])
    if isinstance(v, (list, tuple)):
        if len(v) == 1:
            return scalar_of(v[0])
        raise Unsupported('store of a sequence')
    return to_num(v)


SCALAR = Space('scalar')
FLAT_SCALAR = Space('flat', parent=SCALAR)
SCALAR._flat = FLAT_SCALAR


def new_dim(n, name='i'):
    iv = tm.fresh_name(name)
    cur().bound_vars.add(iv)
    return Space('dim', n=T(n), ivar=iv)


def dim_array(n, fn, dt='f'):
    sp = new_dim(n)
    e = fn(tm.var(sp.ivar))
    return Arr(sp, e if isinstance(e, (Num, B, bool)) else Num(e, dt), dt)


def is_absent(e):
    return isinstance(e, Num) and e.t is ABSENT


def absent_like(a):
    return Num(ABSENT)


def subst_val(e, m):
    if isinstance(e, Num):
        if is_special(e.t):
            return e
        return Num(tm.subst(e.t, m), e.dt)
    if isinstance(e, B):
        return mkB(tm.subst(e.f, m))
    return e


def ite_val(c, a, b):
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        fa, fb = formof(a), formof(b)
        return mkB(tm.or_(tm.and_(c, fa), tm.and_(tm.not_(c), fb)))
    a, b = to_num(a), to_num(b)
    if a.t is b.t:
        return a
    return Num(tm.ite(c, a.t, b.t), _dt(a, b))


# ============================================================ lifting
def b_not(a):
    if is_absent(a):
        return a
    return mkB(tm.not_(formof(a)))


def b_and(a, b):
    if is_absent(a) or is_absent(b):
        return Num(ABSENT)
    return mkB(tm.and_(formof(a), formof(b)))


def b_or(a, b):
    if is_absent(a) or is_absent(b):
        return Num(ABSENT)
    return mkB(tm.or_(formof(a), formof(b)))


def b_xor(a, b):
    fa, fb = formof(a), formof(b)
    return mkB(tm.or_(tm.and_(fa, tm.not_(fb)), tm.and_(tm.not_(fa), fb)))


def dt_of(e):
    if isinstance(e, (bool, B)):
        return 'b'
    return e.dt


def coerce(x):
    """argument of an elementwise operation -> (space or None, elem)"""
    if isinstance(x, Arr):
        return x.space, x.elem
    if isinstance(x, (bool, B)):
        return None, x
    return None, to_num(x)


def lift1(fn, x):
    if isinstance(x, Arr):
        e = fn(x.elem if isinstance(x.elem, (bool, B)) and fn in BOOLFN else num_or_bool(x.elem))
        r = Arr(x.space, e, dt_of(e))
        r.buf.korder = x.buf.korder
        return r
    if isinstance(x, _np.ndarray):
        return obj_map(lambda a: fn(num_or_bool(a)), x)
    if isinstance(x, (list, tuple)):
        return lift1(fn, obj_array(x))
    if isinstance(x, (bool, B)):
        return fn(x)
    return fn(to_num(x))


BOOLFN = (b_not,)


def num_or_bool(e):
    if isinstance(e, (bool, B, Num)):
        return e
    return to_num(e)


def lift2(fn, a, b):
    if isinstance(a, (list, tuple)):
        a = obj_array(a)
    if isinstance(b, (list, tuple)):
        b = obj_array(b)
    if isinstance(a, Row) or isinstance(b, Row):
        x, y = (q.arr if isinstance(q, Row) else q for q in (a, b))
        for q in (x, y):
            if isinstance(q, Arr) and q.space.kind not in ('dim', 'scalar'):
                raise Unsupported('1 x n array with another array')
        return Row(lift2(fn, x, y))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (Row, Grid)) or isinstance(b, (Row, Grid)):
            raise Unsupported('arithmetic on 2-D symbolic arrays')
        sa, ea = (a.space, a.elem) if isinstance(a, Arr) else (None, _scalar_operand(a))
        sb, eb = (b.space, b.elem) if isinstance(b, Arr) else (None, _scalar_operand(b))
        sp = join_space(sa, sb)
        if sp.kind == 'dim' and sa is not None and sb is not None and sa is not sb and sa.kind == 'dim' and sb.kind == 'dim':
            eb = subst_val(eb, {sb.ivar: tm.var(sa.ivar)})
            sp = sa
        if sp.kind == 'sub' and sp.maskf is not None and sa is not None and sb is not None and sa.kind == sb.kind == 'sub' and sa.parent is not sb.parent:
            eb = subst_val(eb, {sb.parent.ivar: tm.var(sa.parent.ivar)})
        e = fn2(fn, ea, eb)
        r = Arr(sp, e, dt_of(e))
        r.buf.korder = any(isinstance(q, Arr) and q.buf.korder for q in (a, b))
        return r
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return obj_map2(lambda x, y: fn2(fn, x, y), a, b)
    if isinstance(a, (Row, Grid)) or isinstance(b, (Row, Grid)):
        raise Unsupported('arithmetic on 2-D symbolic arrays')
    return fn2(fn, num_or_bool(a), num_or_bool(b))


def fn2(fn, x, y):
    if fn in (b_and, b_or, b_xor):
        return fn(x, y)
    x = x if isinstance(x, Num) else to_num(x)
    y = y if isinstance(y, Num) else to_num(y)
    return fn(x, y)


def _scalar_operand(x):
    if isinstance(x, _np.ndarray):
        if x.size == 1:
            return num_or_bool(x.ravel()[0])
        raise Unsupported('mixing a symbolic array with a concrete one')
    return num_or_bool(x)


def join_space(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.kind == 'scalar':
        return b
    if b.kind == 'scalar':
        return a
    if same_space(a, b):
        return a
    if (a.kind == 'dim') != (b.kind == 'dim'):
        raise Unsupported('broadcast of two index spaces')
    raise ProgError('operands could not be broadcast together')


def obj_map(fn, x):
    out = _np.empty(x.shape, dtype=object)
    for i in _np.ndindex(x.shape):
        out[i] = fn(x[i])
    return out


def obj_map2(fn, a, b):
    a = a if isinstance(a, _np.ndarray) else obj0(a)
    b = b if isinstance(b, _np.ndarray) else obj0(b)
    A, Bb = _np.broadcast_arrays(a, b)
    out = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        out[i] = fn(num_or_bool(A[i]), num_or_bool(Bb[i]))
    return out


def obj0(x):
    o = _np.empty((), dtype=object)
    o[()] = num_or_bool(x)
    return o


def obj_array(x):
    """nested list -> object ndarray of Num"""
    if isinstance(x, _np.ndarray):
        return obj_map(num_or_bool, x)
    if isinstance(x, Arr):
        return x
    def shape(y):
        if isinstance(y, (list, tuple)):
            if not y:
                return (0,)
            s = shape(y[0])
            return None if s is None else (len(y),) + s
        if isinstance(y, _np.ndarray):
            return y.shape
        if isinstance(y, Arr):
            if y.space.kind == 'scalar':
                return ()
            return None
        return ()
    s = shape(x)
    if s is None:
        raise Unsupported('array of symbolic arrays')
    out = _np.empty(s, dtype=object)

    def fill(y, pre):
        if isinstance(y, (list, tuple)):
            if len(y) != (s[len(pre)] if len(pre) < len(s) else -1) and s != (0,):
                raise ProgError('inhomogeneous array')
            for i, z in enumerate(y):
                fill(z, pre + (i,))
        elif isinstance(y, _np.ndarray):
            for i in _np.ndindex(y.shape):
                out[pre + i] = num_or_bool(y[i])
        elif isinstance(y, Arr):
            out[pre] = y.elem
        else:
            out[pre] = num_or_bool(y)
    fill(x, ())
    return out
