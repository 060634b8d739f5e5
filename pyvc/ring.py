"""Normal forms: rational functions over an extensible set of atoms.

A term is brought to  num / prod(den_i^e_i)  where num and den_i are
polynomials with rational coefficients in atoms.  Atoms: variables, pi,
square roots (with s*s = p), sines/cosines of base angles (cos^2 = 1-sin^2),
exponentials, applications of uninterpreted functions (arguments compared
modulo this same normal form), bound sums.

is_zero(t) answers True only when num reduces to the zero polynomial, so a
True answer is a proof (given the path facts used to resolve signs).
"""
from fractions import Fraction
import mpmath
from . import terms as tm
from .terms import T

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 60000


class TooBig(Exception):
    pass


class RF:
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return tuple(sorted(d.items()))


class Norm:
    def __init__(self, ctx=None):
        """ctx offers .sign(term) -> set of possible signs or None, and
        .samples() -> list of environments satisfying the path"""
        self.ctx = ctx
        self.atoms = []          # idx -> (kind, data...)
        self.index = {}          # key -> idx
        self.cache = {}
        self.ufs = {}            # name -> list of (idx, args terms, args RF, fp)
        self.special = {}        # idx -> ('sqrt', Poly) / ('cos', sinidx)
        self.fact_cache = {}
        self.aterm = []          # idx -> Term
        self.fpcache = {}

    # ------------------------------------------------------------ atoms
    def atom(self, key, term, special=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.aterm.append(term)
            self.index[key] = i
            if special is not None:
                self.special[i] = special
        return i

    # ------------------------------------------------------------ polys
    def padd(self, p, q, c=F1):
        r = dict(p)
        for m, k in q.items():
            n = r.get(m, F0) + k * c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
        return r

    def pscale(self, p, c):
        if c == 0:
            return {}
        return {m: k * c for m, k in p.items()}

    def pmul(self, p, q):
        if len(p) * len(q) > 4000000:
            raise TooBig()
        if len(p) > len(q):
            p, q = q, p
        r = {}
        dirty = False
        sp = self.special
        for m1, k1 in p.items():
            for m2, k2 in q.items():
                m = _mmul(m1, m2)
                n = r.get(m, F0) + k1 * k2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        for m in r:
            for a, e in m:
                if a in sp and (e > 1 or e < 0):
                    dirty = True
                    break
            if dirty:
                break
        if len(r) > MAXTERMS:
            raise TooBig()
        return r

    def _reduce(self, p):
        """bring exponents of sqrt / cos atoms into {0,1}; returns RF"""
        sp = self.special
        todo = p
        clean = {}
        extra = []  # (poly, power-of-relation-map)
        groups = {}
        for m, k in todo.items():
            rel = []
            base = []
            for a, e in m:
                if a in sp and (e > 1 or e < 0):
                    h, rr = divmod(e, 2)
                    rel.append((a, h))
                    if rr:
                        base.append((a, rr))
                else:
                    base.append((a, e))
            if not rel:
                clean[m] = clean.get(m, F0) + k
                if clean[m] == 0:
                    del clean[m]
            else:
                g = groups.setdefault(tuple(rel), {})
                b = tuple(base)
                g[b] = g.get(b, F0) + k
        if not groups:
            return RF(clean)
        res = RF(clean)
        for rel, g in groups.items():
            cur = RF({m: k for m, k in g.items() if k != 0})
            for a, h in rel:
                P = self._relpoly(a)
                x = self.rpow(P, h)
                cur = self.rmul(cur, x)
            res = self.radd(res, cur)
        return res

    def _relpoly(self, a):
        kind = self.special[a]
        if kind[0] == 'sqrt':
            return RF(dict(kind[1]))
        s = kind[1]
        return RF({(): F1, ((s, 2),): -F1})

    # ------------------------------------------------------------ rationals
    def const(self, q):
        return RF({(): Fraction(q)} if q != 0 else {})

    def radd(self, a, b, c=F1):
        if not a.num:
            return RF(self.pscale(b.num, c), b.den)
        if not b.num:
            return a
        if a.den == b.den:
            n = self.padd(a.num, b.num, c)
            return self._cancel(RF(n, dict(a.den)))
        den = dict(a.den)
        for k, e in b.den.items():
            if den.get(k, 0) < e:
                den[k] = e
        na, nb = a.num, b.num
        ra = RF(na)
        rb = RF(nb)
        for k, e in den.items():
            ea = e - a.den.get(k, 0)
            eb = e - b.den.get(k, 0)
            if ea:
                ra = self.rmul(ra, RF(self._ppow(dict(k), ea)))
            if eb:
                rb = self.rmul(rb, RF(self._ppow(dict(k), eb)))
        if ra.den or rb.den:  # reductions produced new denominators
            x = self.radd(ra, rb, c)
            dd = dict(den)
            for k, e in x.den.items():
                dd[k] = dd.get(k, 0) + e
            return self._cancel(RF(x.num, dd))
        return self._cancel(RF(self.padd(ra.num, rb.num, c), den))

    def _ppow(self, p, e):
        r = {(): F1}
        for _ in range(e):
            x = self._reduce(self.pmul(r, p))
            if x.den:
                raise TooBig()
            r = x.num
        return r

    def _cancel(self, r):
        if not r.num:
            return RF({})
        if not r.den:
            return r
        changed = False
        num, den = r.num, dict(r.den)
        if len(num) <= 400:
            for k in list(den):
                while den.get(k, 0) > 0 and len(num) >= len(k):
                    q = self._exact_div(num, dict(k))
                    if q is None:
                        break
                    num = q
                    den[k] -= 1
                    changed = True
                    if den[k] == 0:
                        del den[k]
        return RF(num, den) if changed else r

    def _exact_div(self, p, d):
        """exact polynomial division in the free polynomial ring, or None"""
        lead = lambda q: max(q, key=self._lexkey)
        dl = lead(d)
        dk = d[dl]
        q = {}
        p = dict(p)
        steps = 0
        lim = len(p) + 40
        while p:
            steps += 1
            if steps > lim:
                return None
            pl = lead(p)
            m = dict(pl)
            for a, e in dl:
                n = m.get(a, 0) - e
                if n == 0:
                    m.pop(a, None)
                elif n < 0:
                    return None
                else:
                    m[a] = n
            m = tuple(sorted(m.items()))
            for a, e in m:
                if a in self.special and (e > 1):
                    return None
            k = p[pl] / dk
            q[m] = q.get(m, F0) + k
            for m2, k2 in d.items():
                mm = _mmul(m, m2)
                n = p.get(mm, F0) - k * k2
                if n == 0:
                    p.pop(mm, None)
                else:
                    p[mm] = n
        return q

    @staticmethod
    def _lexkey(m):
        return tuple((-a, e) for a, e in m)

    _mkey = _lexkey

    def rmul(self, a, b):
        if not a.num or not b.num:
            return RF({})
        p = self.pmul(a.num, b.num)
        r = self._reduce(p)
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = den.get(k, 0) + e
        for k, e in r.den.items():
            den[k] = den.get(k, 0) + e
        if den:
            return self._cancel(RF(r.num, den))
        return RF(r.num)

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError('division by a term that is identically zero')
        out = {(): F1}
        for k, e in a.den.items():
            for _ in range(e):
                x = self._reduce(self.pmul(out, dict(k)))
                out = x.num
                if x.den:
                    raise TooBig()
        # numerator -> content * monomial * primitive
        c, mono, prim = self._primitive(a.num)
        inv = tuple((x, -e) for x, e in mono)
        res = self._reduce({inv: 1 / c})
        den = dict(res.den)
        if prim is not None:
            key = tuple(sorted(prim.items()))
            den[key] = den.get(key, 0) + 1
        r = RF(res.num, den)
        return self.rmul(r, RF(out)) if out != {(): F1} else r

    def _primitive(self, p):
        """p = c * mono * prim;  prim None when p is a monomial"""
        ms = list(p)
        if len(ms) == 1:
            return p[ms[0]], ms[0], None
        common = dict(ms[0])
        allk = set(common)
        for m in ms:
            d = dict(m)
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
            for a in d:
                if a not in allk:
                    allk.add(a)
                    common[a] = min(0, d[a])
        for m in ms:
            d = dict(m)
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
        common = {a: e for a, e in common.items() if e != 0}
        if any(a in self.special for a in common):
            common = {a: e for a, e in common.items() if a not in self.special}
        mono = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in mono)
        q = {_mmul(m, inv): k for m, k in p.items()}
        lead = max(q, key=self._lexkey)
        c = q[lead]
        q = {m: k / c for m, k in q.items()}
        return c, mono, q

    def rpow(self, a, n):
        if n == 0:
            return self.const(1)
        if n < 0:
            a = self.rinv(a)
            n = -n
        r = None
        b = a
        while n:
            if n & 1:
                r = b if r is None else self.rmul(r, b)
            n >>= 1
            if n:
                b = self.rmul(b, b)
        return r

    # ------------------------------------------------------------ conversion
    def rf(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._rf(t)
            self.cache[t] = r
        return r

    def _rf(self, t):
        op = t.op
        if op == 'q':
            return self.const(t.args[0])
        if op == 'v':
            if self.ctx is not None:
                s = self.ctx.subst_of(t.args[0])
                if s is not None:
                    return self.rf(s)
            return RF({((self.atom(('v', t.args[0]), t), 1),): F1})
        if op == 'pi':
            return RF({((self.atom(('pi',), t), 1),): F1})
        if op == '+':
            rs = [self.rf(a) for a in t.args]
            # add those with equal denominators first
            groups = {}
            for r in rs:
                k = tuple(sorted((kk, e) for kk, e in r.den.items()))
                groups[k] = self.radd(groups[k], r) if k in groups else r
            res = self.const(0)
            for r in sorted(groups.values(), key=lambda r: len(r.den)):
                res = self.radd(res, r)
            return res
        if op == '*':
            r = self.const(1)
            for a in t.args:
                r = self.rmul(r, self.rf(a))
            return r
        if op == '^':
            b, e = t.args
            if e.denominator == 1:
                return self.rpow(self.rf(b), int(e))
            if e.denominator == 2:
                s = self.rsqrt(self.rf(b), b)
                return self.rpow(s, int(e.numerator))
            # other rational power: (b^(1/d))^n ; atom matched as UF
            return self.rpow(self.uf('root', (tm.const(Fraction(1, e.denominator)), b), tm._mk('^', b, Fraction(1, e.denominator))), int(e.numerator))
        if op == 'f':
            name = t.args[0]
            a = t.args[1:]
            if name in ('sin', 'cos'):
                return self.trig(name, a[0])
            if name == 'exp':
                return self.rexp(t)
            return self.uf(name, a, t)
        if op == 'sel':
            return self.uf('sel:' + str(t.args[0]), t.args[1:], t)
        if op in ('sum', 'trapz'):
            return self.binder(t)
        if op == 'ite':
            v = self.ctx.formula_truth(t.args[0]) if self.ctx is not None else None
            if v is True:
                return self.rf(t.args[1])
            if v is False:
                return self.rf(t.args[2])
            return RF({((self.atom(('ite', t.id), t), 1),): F1})
        raise ValueError('no normal form for ' + op)

    # ---- square roots
    def rsqrt(self, r, bt=None):
        if not r.num:
            return self.const(0)
        # collect factors: list of (poly, exponent)
        c, mono, prim = self._primitive(r.num)
        factors = []
        for a, e in mono:
            factors.append(({((a, 1),): F1}, e))
        if prim is not None:
            cc, fs = self.factor(prim)
            c *= cc
            factors += fs
        for k, e in r.den.items():
            cc, fs = self.factor(dict(k))
            c /= cc ** e
            factors += [(p, -e * e2) for p, e2 in fs]
        # merge
        merged = {}
        for p, e in factors:
            key = tuple(sorted(p.items()))
            merged[key] = merged.get(key, 0) + e
        out = self.const(1)
        odd = []
        sgn = 1
        for key, e in merged.items():
            if e == 0:
                continue
            p = dict(key)
            h, rr = divmod(e, 2)
            if h:
                out = self.rmul(out, self.rpow(self.rabs(p), h))
                # p^(2h) under the root is |p|^h (h may be negative)
            if rr:
                odd.append(p)
        signs = []
        for p in odd:
            s = self.psign(p)
            signs.append(s)
        rest = []
        csgn = 1
        single = []
        for p, s in zip(odd, signs):
            if s is not None and s <= {0, 1}:
                single.append(p)
            elif s is not None and s <= {-1, 0}:
                single.append(self.pscale(p, -F1))
                csgn = -csgn
            else:
                rest.append(p)
        c = c * csgn
        if len(rest) == 1 and c < 0:
            rest = [self.pscale(rest[0], -F1)]
            c = -c
        if c < 0 and rest:
            rest[0] = self.pscale(rest[0], -F1)
            c = -c
        if c < 0:
            # negative radicand: keep as an opaque atom of the whole thing
            return RF({((self.atom(('negsqrt', tuple(sorted(merged.items())), c), tm.sqrt(self.term(r))), 1),): F1})
        out = self.rmul(out, self.csqrt(c))
        for p in single:
            out = self.rmul(out, self.sqrt_atom(p))
        if rest:
            q = {(): F1}
            for p in rest:
                x = self._reduce(self.pmul(q, p))
                if x.den:
                    raise TooBig()
                q = x.num
            out = self.rmul(out, self.sqrt_atom(q))
        return out

    def csqrt(self, c):
        n, d = c.numerator, c.denominator
        x = n * d
        out = Fraction(1, d)
        res = self.const(1)
        p = 2
        while p * p <= x:
            while x % (p * p) == 0:
                x //= p * p
                out *= p
            if x % p == 0:
                x //= p
                res = self.rmul(res, self.sqrt_atom({(): Fraction(p)}))
            p += 1
            if p > 100000:
                break
        if x > 1:
            r = tm._isqrt(x)
            if r is not None:
                out *= r
            else:
                res = self.rmul(res, self.sqrt_atom({(): Fraction(x)}))
        return self.rmul(res, self.const(out))

    def sqrt_atom(self, p):
        key = ('sqrt', tuple(sorted(p.items())))
        i = self.index.get(key)
        if i is None:
            i = self.atom(key, tm.sqrt(self.pterm(p)), ('sqrt', tuple(p.items())))
        return RF({((i, 1),): F1})

    def rabs(self, p):
        s = self.psign(p)
        if s is not None and s <= {0, 1}:
            return RF(dict(p))
        if s is not None and s <= {-1, 0}:
            return RF(self.pscale(p, -F1))
        x = self._reduce(self.pmul(p, p))
        if x.den:
            raise TooBig()
        c, mono, prim = self._primitive(p)
        key = ('abs', tuple(sorted(p.items())))
        key2 = ('abs', tuple(sorted(self.pscale(p, -F1).items())))
        i = self.index.get(key)
        if i is None:
            i = self.index.get(key2)
        if i is None:
            i = self.atom(key, tm.absv(self.pterm(p)), ('sqrt', tuple(x.num.items())))
        return RF({((i, 1),): F1})

    def psign(self, p):
        """set of possible signs of polynomial p on the path, or None"""
        if len(p) == 1:
            (m, k), = p.items()
            s = {1 if k > 0 else -1}
            for a, e in m:
                if a in self.special and self.special[a][0] == 'sqrt':
                    continue_sign = self.asign(a) or {0, 1}
                else:
                    if e % 2 == 0:
                        continue_sign = {0, 1}
                        if self.ctx is not None:
                            x = self.ctx.synsign(self.aterm[a])
                            if x is not None and 0 not in x:
                                continue_sign = {1}
                    else:
                        continue_sign = self.asign(a)
                        if continue_sign is None:
                            return None
                s = {x * y for x in s for y in continue_sign}
            return s
        if self.ctx is None:
            return None
        # all-positive shortcut
        allpos = all(k > 0 for k in p.values())
        if allpos:
            ok = True
            strict = False
            for m, k in p.items():
                s = self.psign({m: k})
                if s is None or not s <= {0, 1}:
                    ok = False
                    break
                strict = strict or s == {1}
            if ok:
                return {1} if strict else {0, 1}
        return self.ctx.sign(self.pterm(p))

    def asign(self, a):
        key = self.atoms[a]
        if key[0] == 'pi':
            return {1}
        if key[0] == 'uf' and key[1] in ('exp', 'K', 'E'):
            return {1}
        if self.ctx is not None and key[0] in ('sqrt', 'abs'):
            x = self.ctx.synsign(self.aterm[a])
            if x == {1}:
                return x
        if key[0] == 'sqrt' or key[0] == 'abs':
            return {0, 1}
        if self.ctx is None:
            return None
        return self.ctx.sign(self.aterm[a])

    def factor(self, p):
        """factor polynomial: (const, [(poly, e)])"""
        key = tuple(sorted(p.items()))
        r = self.fact_cache.get(key)
        if r is not None:
            return r
        r = self._factor(p)
        self.fact_cache[key] = r
        return r

    def _factor(self, p):
        c, mono, prim = self._primitive(p)
        out = [({((a, 1),): F1}, e) for a, e in mono]
        if prim is None:
            return c, out
        if len(prim) > 150 or any(e < 0 for m in prim for _, e in m):
            out.append((prim, 1))
            return c, out
        import sympy
        ids = sorted({a for m in prim for a, _ in m})
        syms = {a: sympy.Symbol('a%d' % a) for a in ids}
        if not ids:
            return c * prim[()], out
        poly = sympy.Poly.from_dict({tuple(dict(m).get(a, 0) for a in ids): sympy.Rational(k.numerator, k.denominator) for m, k in prim.items()}, *[syms[a] for a in ids])
        try:
            k, fs = poly.factor_list()
        except Exception:
            out.append((prim, 1))
            return c, out
        c = c * Fraction(int(k.p), int(k.q))
        for q, e in fs:
            d = {}
            for exps, kk in q.terms():
                kk = sympy.Rational(kk)
                m = tuple((ids[i], int(x)) for i, x in enumerate(exps) if x)
                d[m] = Fraction(int(kk.p), int(kk.q))
            c2, mono2, prim2 = self._primitive(d)
            c *= c2 ** e
            for a, e2 in mono2:
                out.append(({((a, 1),): F1}, e2 * e))
            if prim2 is not None:
                out.append((prim2, e))
        return c, out

    # ---- exponentials
    def rexp(self, t):
        a = t.args[1]
        r = self.rf(a)
        # split off into a canonical sign
        if not r.num:
            return self.const(1)
        neg = False
        lead = max(r.num, key=self._lexkey)
        if r.num[lead] < 0:
            neg = True
        at = tm.neg(a) if neg else a
        x = self.uf('exp', (at,), tm._mk('f', 'exp', at))
        return self.rinv(x) if neg else x

    # ---- trigonometry
    def trig(self, name, a):
        r = self.rf(a)
        if not r.num:
            return self.const(0 if name == 'sin' else 1)
        s, c = self.const(0), self.const(1)
        if r.den:
            bases = [(Fraction(1), a, None)]
        else:
            bases = []
            for m, k in sorted(r.num.items(), key=lambda x: x[0]):
                bases.append((k, None, m))
        for k, at, m in bases:
            s2, c2 = self._base_trig(k, at, m)
            s, c = (self.radd(self.rmul(s, c2), self.rmul(c, s2)),
                    self.radd(self.rmul(c, c2), self.rmul(s, s2), -F1))
        return s if name == 'sin' else c

    def _base_trig(self, k, at, m):
        pi_idx = self.index.get(('pi',))
        if m is not None and len(m) == 1 and m[0] == (pi_idx, 1) and (2 * k).denominator == 1:
            j = int(2 * k) % 4
            return (self.const([0, 1, 0, -1][j]), self.const([1, 0, -1, 0][j]))
        sgn = 1
        if k < 0:
            k, sgn = -k, -1
        n = k.numerator
        d = k.denominator
        if m is not None:
            bt = self.pterm({m: Fraction(1, d)})
        else:
            bt = at if sgn > 0 else at
            n, d = 1, 1
        s1, c1 = self._unit_trig(bt, m if d == 1 else None)
        s, c = self.const(0), self.const(1)
        for _ in range(n):
            s, c = (self.radd(self.rmul(s, c1), self.rmul(c, s1)),
                    self.radd(self.rmul(c, c1), self.rmul(s, s1), -F1))
        if sgn < 0:
            s = RF(self.pscale(s.num, -F1), s.den)
        return s, c

    def _unit_trig(self, bt, m):
        # the angle is itself an inverse trigonometric function
        if m is not None and len(m) == 1 and m[0][1] == 1:
            key = self.atoms[m[0][0]]
            if key[0] == 'uf' and key[1] in ('atan2', 'atan', 'acos', 'asin'):
                t = self.aterm[m[0][0]]
                ar = t.args[1:]
                if key[1] == 'atan2':
                    y, x = ar
                    rr = tm.sqrt(x * x + y * y)
                    return self.rf(y / rr), self.rf(x / rr)
                if key[1] == 'atan':
                    rr = tm.sqrt(1 + ar[0] ** 2)
                    return self.rf(ar[0] / rr), self.rf(1 / rr)
                if key[1] == 'acos':
                    return self.rf(tm.sqrt(1 - ar[0] ** 2)), self.rf(ar[0])
                if key[1] == 'asin':
                    return self.rf(ar[0]), self.rf(tm.sqrt(1 - ar[0] ** 2))
        st = tm._mk('f', 'sin', bt)
        ct = tm._mk('f', 'cos', bt)
        rs = self.uf('sin', (bt,), st)
        si = next(iter(rs.num))[0][0]
        key = ('cosof', si)
        ci = self.index.get(key)
        if ci is None:
            ci = self.atom(key, ct, ('cos', si))
        return rs, RF({((ci, 1),): F1})

    # ---- uninterpreted functions
    def uf(self, name, args, t):
        lst = self.ufs.setdefault(name, [])
        for (i, a2) in lst:
            if all(x is y for x, y in zip(args, a2)) and len(args) == len(a2):
                return RF({((i, 1),): F1})
        fp = self.fingerprint(args)
        for (i, a2) in lst:
            if len(a2) != len(args):
                continue
            fp2 = self.fingerprint(a2)
            if fp is not None and fp2 is not None and not _fpeq(fp, fp2):
                continue
            if all(self.is_zero(tm.add(x, tm.neg(y))) for x, y in zip(args, a2)):
                return RF({((i, 1),): F1})
        i = self.atom(('uf', name, len(lst)), t)
        lst.append((i, args))
        return RF({((i, 1),): F1})

    def fingerprint(self, args):
        key = tuple(a.id for a in args)
        if key in self.fpcache:
            return self.fpcache[key]
        r = None
        if self.ctx is not None:
            envs = self.ctx.samples()
            if envs:
                try:
                    with mpmath.workdps(25):
                        r = [[tm.evalf(a, e, self.ctx.ufs) for a in args] for e in envs[:2]]
                except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
                    r = None
        self.fpcache[key] = r
        return r

    # ---- binders
    def binder(self, t):
        memo = self.__dict__.setdefault('_bindmemo', {})
        if t.id in memo:
            return memo[t.id]
        r = None
        nested = getattr(self, '_unifying', 0) > 1
        if t.op == 'sum' and self.ctx is not None:
            done = self.ctx.unified.get(t.id)
            r = self.rf(done) if done is not None else (None if nested else self._unify_binder(t))
        if r is None:
            key = ('bind', t.id)
            r = RF({((self.atom(key, t), 1),): F1})
            if nested:
                return r
            self.__dict__.setdefault('_binders', []).append((t, _bsig(t)))
        memo[t.id] = r
        return r

    def _unify_binder(self, t):
        """an earlier sum plus end terms, when the summands agree"""
        old = self.__dict__.setdefault('_binders', [])
        v, lo, hi, body = t.args
        self._unifying = getattr(self, '_unifying', 0) + 1
        try:
            def done(r):
                self.ctx.unified[t.id] = r
                self.ctx.keep.append(t)
                return self.rf(r)
            if self.ctx.feasible(tm.le(lo, hi)) is False:
                return done(tm.ZERO)
            if lo is hi or self.ctx.formula_truth(tm.eq(lo, hi)) is True:
                return done(self.ctx.simp_ite(tm.subst(body, {v: lo})))
            sig = _bsig(t)
            for t0, s0 in old:
                if s0 != sig:
                    continue
                v0, lo0, hi0, b0 = t0.args
                x = tm.var(v0)
                dlo, dhi = self._const_diff(lo, lo0), self._const_diff(hi, hi0)
                small = lambda d: d is not None and d.denominator == 1 and abs(d) <= 4
                tries = []
                if small(dlo) and small(dhi):
                    tries.append((int(dlo), int(dhi), lambda z: z))
                dw = self._const_diff(hi - lo, hi0 - lo0)
                if small(dw):
                    if dlo != 0:
                        tries.append((0, int(dw), lambda z: tm.add(z, lo, tm.neg(lo0))))
                    tries.append((0, int(dw), lambda z: tm.add(hi, lo0, tm.neg(z))))
                if tries and any(a or b for a, b, _ in tries):
                    # end terms: neither range is shorter than empty
                    if not all(self.ctx.formula_truth(tm.le(p, q + 1)) is True for p, q in ((lo, hi), (lo0, hi0))):
                        tries = [x for x in tries if not (x[0] or x[1])]
                for a, b, ix in tries:
                    fn = lambda z: tm.subst(body, {v: ix(z)})
                    fx = fn(x)
                    for sg in (tm.ONE, tm.const(-1)):
                        d = tm.add(fx, tm.neg(sg * b0))
                        l1, h1 = tm.add(lo0, T(max(a, 0))), tm.add(hi0, T(min(b, 0)))
                        if d is tm.ZERO or (self._maybe_zero(d, v0, l1, h1) and self.ctx.zero_in_range(d, v0, l1, h1, 2)):
                            break
                    else:
                        continue
                    old_ = lambda z: tm.mul(tm.neg(sg), tm.subst(b0, {v0: T(z)}))
                    r = [tm.mul(sg, t0)] + [old_(lo0 + j) for j in range(0, a)] + [fn(lo0 + j) for j in range(a, 0)]
                    r += [fn(hi0 + 1 + j) for j in range(0, b)] + [old_(hi0 + 1 + j) for j in range(b, 0)]
                    return done(self.ctx.simp_ite(tm.add(*r)))
            return None
        finally:
            self._unifying -= 1

    def _maybe_zero(self, d, v, lo, hi):
        """no sample of the path contradicts d = 0 for v in lo..hi"""
        for env in self.ctx.samples()[:4]:
            try:
                e = dict(env)
                a, b = tm.evalf(lo, env, self.ctx.ufs, {}), tm.evalf(hi, env, self.ctx.ufs, {})
                if not a <= b:
                    continue
                for z in {a, b}:
                    e[v] = z
                    y = tm.evalf(d, e, self.ctx.ufs, {})
                    if abs(y) > mpmath.mpf(10) ** -9:
                        return False
            except (tm.EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError, RecursionError):
                pass
        return True

    # ------------------------------------------------------------ back to terms
    def mterm(self, m):
        return tm.mul(*[tm.pow_(self.aterm[a], e) for a, e in m]) if m else tm.ONE

    def pterm(self, p):
        return tm.add(*[tm.mul(tm.const(k), self.mterm(m)) for m, k in p.items()]) if p else tm.ZERO

    def term(self, r):
        t = self.pterm(r.num)
        for k, e in r.den.items():
            t = tm.mul(t, tm.pow_(self.pterm(dict(k)), -e))
        return t

    # ------------------------------------------------------------ zero test
    def is_zero(self, t):
        r = self.rf(t)
        return self.num_zero(r)

    def num_zero(self, r, depth=0):
        if not r.num:
            return True
        # case: bound sums
        binders = set()
        for m in r.num:
            for a, e in m:
                if self.atoms[a][0] == 'bind':
                    binders.add(a)
        if binders:
            return self._binder_zero(r.num, binders, depth)
        return False

    def _binder_zero(self, num, binders, depth):
        if depth > 3:
            return False
        rest = {}
        coefs = {}
        for m, k in num.items():
            bs = [(a, e) for a, e in m if a in binders]
            if not bs:
                rest[m] = k
                continue
            if len(bs) > 1 or bs[0][1] != 1:
                return False
            a = bs[0][0]
            mm = tuple(x for x in m if x[0] != a)
            coefs.setdefault(a, {})[mm] = k
        items = []
        for a, p in coefs.items():
            t = self.aterm[a]
            items.append((t.op, t.args, self.pterm(p)))
        resid0 = [self.pterm(rest)] if rest else []
        # align the binders: every choice of shift / reversal is tried
        for align in _alignments(items):
            r = self._try_align(items, align, list(resid0), depth)
            if r:
                return True
        return False

    def _try_align(self, items, align, resid, depth):
        groups = []
        for (op, args, ct), mode in zip(items, align):
            if op == 'trapz':
                v, n, x, y = args
                placed = False
                for g in groups:
                    if g[0] == 'trapz' and self.is_zero(g[1] - n):
                        x2 = tm.subst(x, {v: tm.var(g[3])})
                        if self.is_zero(x2 - g[2]):
                            g[4] = tm.add(g[4], ct * tm.subst(y, {v: tm.var(g[3])}))
                            placed = True
                            break
                if not placed:
                    groups.append(['trapz', n, x, v, ct * y])
                continue
            v, lo, hi, body = args
            placed = False
            for g in groups:
                if g[0] != 'sum':
                    continue
                glo, ghi = g[1], g[2]
                if mode == 0:       # same index
                    sh, dlo, dhi = None, self._const_diff(lo, glo), self._const_diff(hi, ghi)
                    if dlo is None or dhi is None or dlo.denominator != 1 or dhi.denominator != 1 or abs(dlo) > 4 or abs(dhi) > 4:
                        continue
                    fn = lambda x: tm.subst(body, {v: x})
                elif mode == 1:     # shifted so that the lower bounds agree
                    dlo, dhi = Fraction(0), self._const_diff(hi - lo, ghi - glo)
                    if dhi is None or dhi.denominator != 1 or abs(dhi) > 4:
                        continue
                    fn = lambda x: tm.subst(body, {v: tm.add(x, lo, tm.neg(glo))})
                else:               # reversed: x = glo corresponds to hi
                    dlo, dhi = Fraction(0), self._const_diff(hi - lo, ghi - glo)
                    if dhi is None or dhi.denominator != 1 or abs(dhi) > 4:
                        continue
                    fn = lambda x: tm.subst(body, {v: tm.add(hi, glo, tm.neg(x))})
                # Sum_{lo}^{hi} = Sum_{glo}^{ghi} + corrections
                if (dlo or dhi) and self.ctx is not None and not all(
                        self.ctx.formula_truth(tm.le(p, q + 1)) is True for p, q in ((lo, hi), (glo, ghi))):
                    continue
                g[4] = tm.add(g[4], ct * fn(tm.var(g[3])))
                for j in range(0, int(dlo)):     # lo > glo : subtract extra terms
                    resid.append(tm.neg(ct * fn(glo + j)))
                for j in range(int(dlo), 0):     # lo < glo : add
                    resid.append(ct * fn(glo + j))
                for j in range(0, int(dhi)):
                    resid.append(ct * fn(ghi + 1 + j))
                for j in range(int(dhi), 0):
                    resid.append(tm.neg(ct * fn(ghi + 1 + j)))
                placed = True
                break
            if not placed:
                groups.append(['sum', lo, hi, v, ct * body])
        for g in list(groups):
            # trapezoid rule of a constant
            if g[0] == 'trapz':
                y0 = tm.subst(g[4], {g[3]: tm.ZERO})
                if self.is_zero(tm.add(tm.subst(g[4], {g[3]: tm.var(tm.fresh_name('b'))}), tm.neg(y0))):
                    dx = tm.add(tm.subst(g[2], {g[3]: g[1] - 1}), tm.neg(tm.subst(g[2], {g[3]: tm.ZERO})))
                    if not tm.is_q(g[1]) and self.ctx is not None and self.ctx.feasible(tm.lt(g[1], tm.const(2))) is False:
                        dx = tm.subst(dx, {tm.f('lin', g[1] - 1, g[1]): tm.ONE})
                    resid.append(tm.mul(y0, dx))
                    groups.remove(g)
        if resid:
            tot = tm.add(*resid)
            if not self.is_zero(tot):
                return False
        for g in groups:
            if g[0] == 'sum' and self.ctx is not None and self.ctx.feasible(tm.le(g[1], g[2])) is False:
                continue
            nb = tm.fresh_name('b')
            if self.num_zero(self.rf(tm.subst(g[4], {g[3]: tm.var(nb)})), depth + 1):
                continue
            if self.ctx is None:
                return False
            lo, hi = (g[1], g[2]) if g[0] == 'sum' else (tm.ZERO, g[1] - 1)
            if not self.ctx.zero_in_range(g[4], g[3], lo, hi, depth + 1):
                return False
        return True

    def _const_diff(self, a, b):
        r = self.rf(a - b)
        if not r.num:
            return F0
        if r.den or set(r.num) != {()}:
            return None
        return r.num[()]


def _bsig(t):
    """names a sum refers to, in its summand"""
    b = t.args[3]
    names = {str(s.args[0]) for s in tm.subterms(b) if isinstance(s, tm.Term) and s.op in ('sel', 'f')}
    return frozenset(names)


def _alignments(items):
    """0 same index, 1 shifted, 2 reversed; the first sum is the reference"""
    import itertools
    ns = [i for i, it in enumerate(items) if it[0] == 'sum']
    if len(ns) > 4:
        yield [0] * len(items)
        yield [1] * len(items)
        return
    for combo in itertools.product((0, 1, 2), repeat=max(0, len(ns) - 1)):
        a = [0] * len(items)
        for i, m in zip(ns[1:], combo):
            a[i] = m
        yield a


def _fpeq(a, b):
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if abs(p - q) > mpmath.mpf(10) ** -15 * (1 + abs(p) + abs(q)):
                return False
    return True
