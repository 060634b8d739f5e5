"""Hash-consed real-valued terms and boolean formulas.

A Term denotes a real number (a mathematical one: machine floating point is
abstracted to the reals; the literal 0.1 is the exact decimal 1/10).
Formulas are comparisons t<0, t<=0, t==0 and their boolean combinations.
"""
from fractions import Fraction
import mpmath

_tab = {}


class Term:
    __slots__ = ('op', 'args', 'id', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # raw operators (used by contracts; never fork)
    def __add__(self, o): return add(self, T(o))
    def __radd__(self, o): return add(T(o), self)
    def __sub__(self, o): return add(self, neg(T(o)))
    def __rsub__(self, o): return add(T(o), neg(self))
    def __mul__(self, o): return mul(self, T(o))
    def __rmul__(self, o): return mul(T(o), self)
    def __truediv__(self, o): return mul(self, pow_(T(o), Fraction(-1)))
    def __rtruediv__(self, o): return mul(T(o), pow_(self, Fraction(-1)))
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __pow__(self, o): return pow_(self, o)
    # comparisons build formulas
    def __lt__(self, o): return lt(self, T(o))
    def __le__(self, o): return le(self, T(o))
    def __gt__(self, o): return lt(T(o), self)
    def __ge__(self, o): return le(T(o), self)

    def __bool__(self):
        raise TypeError('truth value of a symbolic term')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Form:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return showf(self)

    def __hash__(self):
        return self.id + 1000003

    def __eq__(self, o):
        return self is o

    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, Term) else (('f', a.id) if isinstance(a, Form) else a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.id = len(_tab) + 1
        t._fv = None
        _tab[key] = t
    return t


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return const(Fraction(int(x)))
    if isinstance(x, (int, Fraction)):
        return const(Fraction(x))
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    if hasattr(x, 't') and isinstance(x.t, Term):
        return x.t
    raise TypeError('not a term: %r' % (x,))


def const(q):
    return _mk('q', Fraction(q))


ZERO = const(Fraction(0))
ONE = const(Fraction(1))
HALF = const(Fraction(1, 2))


def var(name):
    return _mk('v', name)


PI = _mk('pi')
NAN = _mk('nan')
INF = _mk('inf')
NINF = _mk('ninf')
ABSENT = _mk('absent')
SPECIALS = (NAN, INF, NINF, ABSENT)


def is_special(t):
    return t.op in ('nan', 'inf', 'ninf', 'absent')


def is_q(t):
    return t.op == 'q'


def qv(t):
    return t.args[0]


def add(*ts):
    flat = []
    c = Fraction(0)
    for t in ts:
        if t.op == '+':
            for a in t.args:
                if a.op == 'q':
                    c += a.args[0]
                else:
                    flat.append(a)
        elif t.op == 'q':
            c += t.args[0]
        else:
            flat.append(t)
    # collect like terms
    coef = {}
    order = []
    for t in flat:
        k, base = _split_coef(t)
        if base not in coef:
            coef[base] = Fraction(0)
            order.append(base)
        coef[base] += k
    out = []
    for b in order:
        k = coef[b]
        if k == 0:
            continue
        out.append(_with_coef(k, b))
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('+', *out)


def _split_coef(t):
    if t.op == '*' and t.args[0].op == 'q':
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else _mk('*', *rest))
    return Fraction(1), t


def _with_coef(k, b):
    if k == 1:
        return b
    if b.op == '*':
        return _mk('*', const(k), *b.args)
    return _mk('*', const(k), b)


def mul(*ts):
    c = Fraction(1)
    powers = {}
    order = []

    def push(t, e):
        nonlocal c
        if t.op == 'q':
            if e.denominator == 1 and (t.args[0] != 0 or e > 0):
                c *= t.args[0] ** e.numerator
                return
        if t.op == '^':
            b, e2 = t.args
            if e.denominator == 1:
                push(b, e2 * e)
                return
        if t.op == '*' and e.denominator == 1:
            for a in t.args:
                push(a, e)
            return
        if t not in powers:
            powers[t] = Fraction(0)
            order.append(t)
        powers[t] += e

    for t in ts:
        if t.op == '*':
            for a in t.args:
                push(a, Fraction(1))
        else:
            push(t, Fraction(1))
    if c == 0:
        return ZERO
    out = []
    for b in order:
        e = powers[b]
        if e == 0:
            continue
        if b.op == 'q' and e.denominator == 1:
            c *= b.args[0] ** e.numerator
            continue
        out.append(b if e == 1 else _mk('^', b, e))
    out.sort(key=lambda t: t.id)
    if not out:
        return const(c)
    if c != 1:
        if len(out) == 1 and out[0].op == '+':
            return add(*[mul(const(c), a) for a in out[0].args])
        out.insert(0, const(c))
    if len(out) == 1:
        return out[0]
    return _mk('*', *out)


def neg(t):
    return mul(const(Fraction(-1)), t)


def pow_(b, e):
    if isinstance(e, Term):
        if e.op == 'q':
            e = e.args[0]
        else:
            return f('pow', b, e)
    if isinstance(e, float):
        e = Fraction(repr(e))
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == 'q':
        if b.args[0] == 1:
            return ONE
        if e.denominator == 1:
            if b.args[0] == 0 and e < 0:
                return _mk('^', b, e)
            return const(b.args[0] ** e.numerator)
        if e.denominator == 2 and b.args[0] >= 0:
            n, d = b.args[0].numerator, b.args[0].denominator
            rn, rd = _isqrt(n), _isqrt(d)
            if rn is not None and rd is not None:
                if not (rn == 0 and e < 0):
                    return const(Fraction(rn, rd) ** e.numerator)
    if b.op == '^':
        b2, e2 = b.args
        if e.denominator == 1 or e2.denominator != 1:
            # an inner fractional power is only defined for b2 >= 0
            return pow_(b2, e2 * e)
    if b.op == '*' and e.denominator == 1:
        return mul(*[pow_(a, e) for a in b.args])
    return _mk('^', b, e)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(t):
    return pow_(T(t), Fraction(1, 2))


def f(name, *args):
    args = tuple(T(a) for a in args)
    if name == 'tan':
        return f('sin', *args) / f('cos', *args)
    if name == 'RF':
        args = tuple(sorted(args, key=lambda t: t.id))
    if name == 'RJ':
        args = tuple(sorted(args[:3], key=lambda t: t.id)) + args[3:]
    if name == 'sin' and args[0] is ZERO:
        return ZERO
    if name == 'cos' and args[0] is ZERO:
        return ONE
    if name in ('atan', 'asin') and args[0] is ZERO:
        return ZERO
    if name == 'atan2' and args[0] is ZERO and is_q(args[1]) and qv(args[1]) > 0:
        return ZERO
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'cosh' and args[0] is ZERO:
        return ONE
    if name == 'tanh':
        e1 = f('exp', args[0]); e2 = f('exp', neg(args[0]))
        return (e1 - e2) / (e1 + e2)
    if name == 'cosh':
        return (f('exp', args[0]) + f('exp', neg(args[0]))) / 2
    if name == 'sinh':
        return (f('exp', args[0]) - f('exp', neg(args[0]))) / 2
    if name == 'abs':
        if is_q(args[0]):
            return const(abs(qv(args[0])))
        return pow_(pow_(args[0], 2), Fraction(1, 2)) if args[0].op != '^' else _mk('^', _mk('^', args[0], Fraction(2)), Fraction(1, 2))
    if name in ('K', 'E') and args[0] is ZERO:
        return PI / 2
    if name == 'Pi' and args[0] is ZERO:
        return f('K', args[1])
    if name == 'lin':
        # lin(i, n) = i/(n-1): fraction of the way along n equally spaced points
        if args[0] is ZERO:
            return ZERO
        if is_q(args[0]) and is_q(args[1]) and qv(args[1]) > 1:
            return const(qv(args[0]) / (qv(args[1]) - 1))
    return _mk('f', name, *args)


def cpow(b, e):
    """b**e; the integer part of a symbolic exponent of a positive constant is split off"""
    k, base = _split_coef(e)
    if k != 1 and base.op == '+':
        e = add(*[mul(const(k), a) for a in base.args])
    if is_q(b) and qv(b) > 0 and e.op == '+':
        k = [a for a in e.args if is_q(a) and qv(a).denominator == 1]
        if k:
            rest = add(*[a for a in e.args if a is not k[0]])
            return mul(pow_(b, qv(k[0])), f('pow', b, rest))
    return f('pow', b, e)


def sin(t): return f('sin', T(t))
def cos(t): return f('cos', T(t))
def tan(t): return f('tan', T(t))
def exp(t): return f('exp', T(t))
def absv(t): return f('abs', T(t))


def ite(c, a, b):
    a, b = T(a), T(b)
    if c is TRUE or c is True:
        return a
    if c is FALSE or c is False:
        return b
    if a is b:
        return a
    return _mk('ite', c, a, b)


def bsum(v, lo, hi, body):
    """sum of body for v = lo..hi (inclusive, v integer)"""
    lo, hi, body = T(lo), T(hi), T(body)
    if body is ZERO:
        return ZERO
    k, b = _split_coef(body)
    out = [const(k)] if k != 1 else []
    if b.op == '*':
        free = [a for a in b.args if v not in free_vars(a)]
        if free:
            out += free
            b = mul(*[a for a in b.args if v in free_vars(a)])
    if b.op == 'ite' and b.args[0].op == 'eq' and b.args[1] is ZERO:
        # a vanishing end term
        e = b.args[0].args[0]
        for end in (hi, lo):
            d = add(end, neg(var(v)))
            if e is d or e is neg(d):
                r = bsum(v, lo, add(hi, const(-1)), b.args[2]) if end is hi else bsum(v, add(lo, ONE), hi, b.args[2])
                return mul(*out, r)
    if out:
        return mul(*out, _mk('sum', v, lo, hi, b))
    return _mk('sum', v, lo, hi, body)


def btrapz(v, n, x, y):
    """trapezoid rule: nodes x(v), values y(v), v = 0..n-1"""
    return _mk('trapz', v, T(n), T(x), T(y))


def sel(name, *idx):
    return _mk('sel', name, *[T(i) for i in idx])


# ------------------------------------------------------------------ formulas
_ftab = {}


def _mkf(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, Term) else (('f', a.id) if isinstance(a, Form) else a) for a in args)
    r = _ftab.get(key)
    if r is None:
        r = Form.__new__(Form)
        r.op = op
        r.args = args
        r.id = len(_ftab) + 1
        _ftab[key] = r
    return r


TRUE = _mkf('true')
FALSE = _mkf('false')


def fconst(b):
    return TRUE if b else FALSE


def lt(a, b):
    d = add(T(a), neg(T(b)))
    if is_q(d):
        return fconst(qv(d) < 0)
    return _mkf('lt', d)


def le(a, b):
    d = add(T(a), neg(T(b)))
    if is_q(d):
        return fconst(qv(d) <= 0)
    return _mkf('le', d)


def eq(a, b):
    d = add(T(a), neg(T(b)))
    if is_q(d):
        return fconst(qv(d) == 0)
    # canonical sign
    k, _ = _split_coef(d if d.op != '+' else d.args[0])
    if k < 0:
        d = neg(d)
    return _mkf('eq', d)


def ne(a, b):
    return not_(eq(a, b))


def batom(name):
    return _mkf('atom', name)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return _mkf('le', neg(a.args[0]))
    if a.op == 'le':
        return _mkf('lt', neg(a.args[0]))
    return _mkf('not', a)


def and_(*fs):
    out = []
    for x in fs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if len(out) > 1:
        lts = {x.args[0] for x in out if x.op == 'lt'}
        out = [x for x in out if not (x.op == 'le' and x.args[0] in lts)]
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkf('and', *out)


def or_(*fs):
    out = []
    for x in fs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mkf('or', *out)


# ------------------------------------------------------------------ traversal
def children(t):
    return [a for a in t.args if isinstance(a, (Term, Form))]


def free_vars(t):
    """set of names of free variables (bound summation variables excluded)"""
    if isinstance(t, Term):
        if t._fv is not None:
            return t._fv
    s = set()
    if isinstance(t, Term) and t.op == 'v':
        s = {t.args[0]}
    else:
        for a in children(t):
            s |= free_vars(a)
        if isinstance(t, Term) and t.op in ('sum', 'trapz'):
            s.discard(t.args[0])
    s = frozenset(s)
    if isinstance(t, Term):
        t._fv = s
    return s


_alpha = {}


def alpha(t):
    """t with its bound variables renamed by nesting depth (to compare terms)"""
    if t in _alpha:
        return _alpha[t]
    if not any(isinstance(s, Term) and s.op in ('sum', 'trapz') for s in subterms(t)):
        r = t
    elif isinstance(t, Term) and t.op in ('sum', 'trapz'):
        rest = [alpha(a) if isinstance(a, (Term, Form)) else a for a in t.args[1:]]
        d = 1 + max([int(str(s.args[0])[2:]) for a in rest if isinstance(a, (Term, Form)) for s in subterms(a)
                     if isinstance(s, Term) and s.op in ('sum', 'trapz')] or [0])
        bv = 's@%d' % d
        r = _mk(t.op, bv, *[subst(a, {t.args[0]: var(bv)}) if isinstance(a, (Term, Form)) else a for a in rest])
    else:
        na = [alpha(a) if isinstance(a, (Term, Form)) else a for a in t.args]
        r = rebuild(t, na) if isinstance(t, Term) else (t if t.op in ('true', 'false', 'atom') else rebuildf(t, na))
    _alpha[t] = r
    return r


def subst(t, m, memo=None):
    """substitute variables (by name -> Term) or whole sub-terms (Term -> Term)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if isinstance(t, Term) and t in m:
        return m[t]
    r = t
    if isinstance(t, Term):
        if t.op == 'v':
            r = m.get(t.args[0], t)
        elif t.op in ('q', 'pi', 'nan', 'inf', 'ninf', 'absent'):
            r = t
        elif t.op in ('sum', 'trapz'):
            m2 = {k: v for k, v in m.items() if k != t.args[0]}
            # capture avoidance: rename the bound variable when needed
            bv = t.args[0]
            clash = any(isinstance(v, Term) and bv in free_vars(v) for v in m2.values())
            body_args = t.args[1:]
            if clash:
                nb = fresh_name(bv)
                body_args = tuple(subst(a, {bv: var(nb)}) if isinstance(a, Term) else a for a in body_args)
                bv = nb
            r = _mk(t.op, bv, *[subst(a, m2) if isinstance(a, (Term, Form)) else a for a in body_args])
            if t.op == 'sum' and r.args[3] is ZERO:
                r = ZERO
        else:
            na = [subst(a, m, memo) if isinstance(a, (Term, Form)) else a for a in t.args]
            r = rebuild(t, na)
    else:
        if t.op in ('true', 'false', 'atom'):
            r = t
        else:
            na = [subst(a, m, memo) for a in t.args]
            r = rebuildf(t, na)
    memo[t] = r
    return r


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s~%d' % (base.split('~')[0], _fresh[0])


def rebuild(t, na):
    op = t.op
    if op == '+':
        return add(*na)
    if op == '*':
        return mul(*na)
    if op == '^':
        return pow_(na[0], na[1])
    if op == 'f':
        return f(na[0], *na[1:])
    if op == 'ite':
        return ite(*na)
    if op == 'sel':
        return _mk('sel', *na)
    if op == 'sum':
        return bsum(*na)
    return _mk(op, *na)


def rebuildf(t, na):
    op = t.op
    if op == 'lt':
        return lt(na[0], ZERO)
    if op == 'le':
        return le(na[0], ZERO)
    if op == 'eq':
        return eq(na[0], ZERO)
    if op == 'not':
        return not_(na[0])
    if op == 'and':
        return and_(*na)
    if op == 'or':
        return or_(*na)
    return _mkf(op, *na)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in children(t):
        yield from subterms(a, seen)


def has_op(t, ops):
    return any(s.op in ops for s in subterms(t))


# ------------------------------------------------------------------ derivative
def diff(t, v, memo=None):
    if memo is None:
        memo = {}
    if v not in free_vars(t):
        return ZERO
    if t in memo:
        return memo[t]
    op = t.op
    if op == 'v':
        r = ONE if t.args[0] == v else ZERO
    elif op == '+':
        r = add(*[diff(a, v, memo) for a in t.args])
    elif op == '*':
        parts = []
        for i, a in enumerate(t.args):
            d = diff(a, v, memo)
            if d is ZERO:
                continue
            parts.append(mul(*(t.args[:i] + t.args[i + 1:]), d))
        r = add(*parts) if parts else ZERO
    elif op == '^':
        b, e = t.args
        r = mul(const(e), pow_(b, e - 1), diff(b, v, memo))
    elif op == 'f':
        name = t.args[0]
        a = t.args[1:]
        d = [diff(x, v, memo) for x in a]
        if name == 'sin':
            r = cos(a[0]) * d[0]
        elif name == 'cos':
            r = neg(sin(a[0])) * d[0]
        elif name == 'exp':
            r = t * d[0]
        elif name == 'log':
            r = d[0] / a[0]
        elif name == 'atan2':
            y, x = a
            r = (x * d[0] - y * d[1]) / (x * x + y * y)
        elif name == 'atan':
            r = d[0] / (1 + a[0] ** 2)
        elif name == 'pow':
            # constant exponent only
            if d[1] is not ZERO:
                raise NotImplementedError('diff pow')
            r = a[1] * t / a[0] * d[0]
        elif name == 'K':
            m = a[0]
            r = (f('E', m) - (1 - m) * t) / (2 * m * (1 - m)) * d[0]
        elif name == 'E':
            m = a[0]
            r = (t - f('K', m)) / (2 * m) * d[0]
        elif name == 'Pi':
            n, m = a
            K, E = f('K', m), f('E', m)
            dn = (E + (m - n) * K / n + (n * n - m) * t / n) / (2 * (m - n) * (n - 1))
            dm = (E / (m - 1) + t) / (2 * (n - m))
            r = dn * d[0] + dm * d[1]
        else:
            raise NotImplementedError('diff of ' + name)
    elif op == 'ite':
        r = ite(t.args[0], diff(t.args[1], v, memo), diff(t.args[2], v, memo))
    elif op == 'sum':
        r = bsum(t.args[0], t.args[1], t.args[2], diff(t.args[3], v, memo))
    else:
        raise NotImplementedError('diff of ' + op)
    memo[t] = r
    return r


# ------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


def _mp_f(name, a):
    mp = mpmath
    if name == 'sin': return mp.sin(a[0])
    if name == 'cos': return mp.cos(a[0])
    if name == 'exp': return mp.exp(a[0])
    if name == 'log': return mp.log(a[0])
    if name == 'atan2': return mp.atan2(a[0], a[1])
    if name == 'atan': return mp.atan(a[0])
    if name == 'acos': return mp.acos(a[0])
    if name == 'asin': return mp.asin(a[0])
    if name == 'pow': return mp.power(a[0], a[1])
    if name == 'K': return mp.ellipk(a[0])
    if name == 'E': return mp.ellipe(a[0])
    if name == 'Pi': return mp.ellippi(a[0], a[1])
    if name == 'abs': return mp.fabs(a[0])
    if name == 'sign': return mp.sign(a[0])
    if name == 'RF': return mp.elliprf(*a)
    if name == 'RC': return mp.elliprc(*a)
    if name == 'RJ': return mp.elliprj(*a)
    if name == 'floor': return mp.floor(a[0])
    if name == 'lin': return a[0] / (a[1] - 1) if a[1] > 1 else mp.mpf(0)
    raise EvalError('no numeric rule for ' + name)


def evalf(t, env, ufs=None, memo=None):
    """numeric value (mpmath) of a term under env: name -> mpf"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    mp = mpmath
    op = t.op
    if op == 'q':
        q = t.args[0]
        r = mp.mpf(q.numerator) / q.denominator
    elif op == 'v':
        if t.args[0] not in env:
            raise EvalError('unbound ' + t.args[0])
        r = env[t.args[0]]
    elif op == 'pi':
        r = +mp.pi
    elif op == '+':
        r = mp.fsum([evalf(a, env, ufs, memo) for a in t.args])
    elif op == '*':
        r = mp.mpf(1)
        for a in t.args:
            r = r * evalf(a, env, ufs, memo)
    elif op == '^':
        b = evalf(t.args[0], env, ufs, memo)
        e = t.args[1]
        if e.denominator == 1:
            if b == 0 and e < 0:
                raise EvalError('0**-n')
            r = b ** int(e)
        else:
            if b < 0:
                raise EvalError('negative root')
            if b == 0 and e < 0:
                raise EvalError('0**-n')
            r = mp.sqrt(b) ** int(e.numerator) if e.denominator == 2 else mp.power(b, mp.mpf(e.numerator) / e.denominator)
    elif op == 'f':
        a = [evalf(x, env, ufs, memo) for x in t.args[1:]]
        if ufs and t.args[0] in ufs:
            r = ufs[t.args[0]](*a)
        else:
            try:
                r = _mp_f(t.args[0], a)
            except (ValueError, ZeroDivisionError) as ex:
                raise EvalError(str(ex))
        if isinstance(r, mp.mpc):
            raise EvalError('complex')
    elif op == 'ite':
        c = evalform(t.args[0], env, ufs, memo)
        r = evalf(t.args[1] if c else t.args[2], env, ufs, memo)
    elif op == 'sum':
        v, lo, hi, body = t.args
        lo = int(mp.nint(evalf(lo, env, ufs, memo)))
        hi = int(mp.nint(evalf(hi, env, ufs, memo)))
        r = mp.mpf(0)
        e2 = dict(env)
        for k in range(lo, hi + 1):
            e2[v] = mp.mpf(k)
            r += evalf(body, e2, ufs, None)
    elif op == 'trapz':
        v, n, x, y = t.args
        n = int(mp.nint(evalf(n, env, ufs, memo)))
        e2 = dict(env)
        xs, ys = [], []
        for k in range(n):
            e2[v] = mp.mpf(k)
            xs.append(evalf(x, e2, ufs, None))
            ys.append(evalf(y, e2, ufs, None))
        r = mp.mpf(0)
        for k in range(n - 1):
            r += (xs[k + 1] - xs[k]) * (ys[k] + ys[k + 1]) / 2
    elif op == 'sel':
        idx = tuple(int(mp.nint(evalf(x, env, ufs, memo))) for x in t.args[1:])
        arr = env.get(('arr', t.args[0]))
        if arr is None:
            raise EvalError('unbound array ' + str(t.args[0]))
        try:
            if any(k < 0 for k in idx):
                raise EvalError('array index')
            v = arr
            if callable(arr):
                r = mp.mpf(arr(*idx))
            else:
                for k in idx:
                    v = v[k]
                r = mp.mpf(v)
        except (IndexError, KeyError):
            raise EvalError('array index')
    else:
        raise EvalError('special ' + op)
    memo[t] = r
    return r


def evalform(g, env, ufs=None, memo=None, margin=0):
    """truth value, or None when within `margin` of the boundary"""
    op = g.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op in ('lt', 'le', 'eq'):
        v = evalf(g.args[0], env, ufs, memo)
        if margin and abs(v) < margin:
            return None
        if op == 'lt':
            return v < 0
        if op == 'le':
            return v <= 0
        return v == 0
    if op == 'not':
        r = evalform(g.args[0], env, ufs, memo, margin)
        return None if r is None else not r
    if op == 'and':
        res = True
        for a in g.args:
            r = evalform(a, env, ufs, memo, margin)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if op == 'or':
        res = False
        for a in g.args:
            r = evalform(a, env, ufs, memo, margin)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if op == 'atom':
        if ('atom', g.args[0]) in env:
            return env[('atom', g.args[0])]
        raise EvalError('boolean atom ' + g.args[0])
    raise EvalError(op)


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    op = t.op
    if depth > 12:
        return '…'
    s = lambda a: show(a, depth + 1) if isinstance(a, Term) else (showf(a, depth + 1) if isinstance(a, Form) else str(a))
    if op == 'q':
        return str(t.args[0])
    if op == 'v':
        return t.args[0]
    if op == 'pi':
        return 'pi'
    if op == '+':
        return '(' + ' + '.join(s(a) for a in t.args) + ')'
    if op == '*':
        return '*'.join(s(a) for a in t.args)
    if op == '^':
        if t.args[1] == Fraction(1, 2):
            return 'sqrt(%s)' % s(t.args[0])
        return '%s^(%s)' % (s(t.args[0]), t.args[1])
    if op == 'f':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(a) for a in t.args)
    if op == 'sum':
        return 'Sum[%s=%s..%s](%s)' % tuple(s(a) for a in t.args)
    if op == 'trapz':
        return 'Trapz[%s<%s; x=%s](%s)' % tuple(s(a) for a in t.args)
    if op == 'sel':
        return '%s[%s]' % (t.args[0], ','.join(s(a) for a in t.args[1:]))
    return op


def showf(g, depth=0):
    s = lambda a: show(a, depth + 1) if isinstance(a, Term) else showf(a, depth + 1)
    op = g.op
    if op in ('true', 'false'):
        return op
    if op == 'atom':
        return str(g.args[0])
    if op == 'lt':
        return '(%s < 0)' % s(g.args[0])
    if op == 'le':
        return '(%s <= 0)' % s(g.args[0])
    if op == 'eq':
        return '(%s == 0)' % s(g.args[0])
    if op == 'not':
        return '!' + s(g.args[0])
    return '(' + (' & ' if op == 'and' else ' | ').join(s(a) for a in g.args) + ')'
