"""helpers for contract files (work symbolically and concretely)"""
from fractions import Fraction
from pyvc import terms as tm
from pyvc.terms import T, sqrt, sin, cos, exp, f, ite, PI, ZERO, ONE, INF, bsum, btrapz, sel, eq, ne, lt, le, and_, or_, not_, absv
from pyvc.scen import scenario, call_contract, spec_function, opaque

Q = Fraction


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def K(m): return f('K', m)
def E(m): return f('E', m)
def PIc(n, m): return f('Pi', n, m)


def lin(i, n):
    """i/(n-1): position of point i of n equally spaced ones"""
    return f('lin', T(i), T(n))


def uni(lo, hi):
    return lambda rng: rng.uniform(lo, hi)


def logu(lo, hi):
    import math
    return lambda rng: math.exp(rng.uniform(math.log(lo), math.log(hi)))


def signed(lo, hi):
    return lambda rng: rng.choice([-1, 1]) * rng.uniform(lo, hi)


def polar_point(V, R=None, axis=False, rmin=Q(1, 10**6)):
    """a control point given by polar coordinates: x=r cos(psi), y=r sin(psi)"""
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    r = V.pvar('r', 'pos', sampler=logu(0.01, 8))
    z = V.pvar('z', sampler=signed(0.02, 6))
    return r, psi, z


def dirvec(psi):
    return cos(psi), sin(psi)


# ----------------------------------------------------------------- contract
# of elliptic.ellipticPiCarlson, used at its call sites (established by C01):
#   requires  m <= 1, and m < 1 unless n >= 1
#   ensures   result = Pi(n,m) elementwise, infinity where n >= 1
@call_contract('elliptic.ellipticPiCarlson')
def _pi_contract(b):
    from pyvc.sym import lift2, Num, to_num, is_special, NAN, n_lt
    from pyvc.ctx import CUR, ProgError

    def one(n, m):
        n, m = to_num(n), to_num(m)
        if is_special(n.t) or is_special(m.t):
            if n.t is tm.ABSENT or m.t is tm.ABSENT:
                return Num(tm.ABSENT)
            return Num(tm.NAN)
        c = CUR[0]
        if c.decide(lt(ONE, m.t)):
            raise ProgError('precondition m<=1 of ellipticPiCarlson violated')
        if c.decide(le(ONE, n.t)):
            return Num(INF)
        if c.decide(eq(m.t, ONE)):
            raise ProgError('precondition m<1 (or n>=1) of ellipticPiCarlson violated')
        return Num(f('Pi', n.t, m.t))
    return lift2(one, b['n'], b['m'])


PI_CALL = 'elliptic.ellipticPiCarlson'


# closed forms of the straight cylinders (unit strength, radius R, along +z from z=0)
def cyl_m(r, z, R): return 4 * r * R / ((R + r) ** 2 + z * z)
def cyl_n(r, R): return 4 * r * R / (R + r) ** 2


def cyl_r(r, z, R):
    m = cyl_m(r, z, R)
    k = sqrt(m)
    return -1 / (2 * PI) * sqrt(R / r) * ((2 - m) / k * K(m) - 2 / k * E(m))


def cyl_swirl(r, z, R):
    """z-dependent part shared by axial velocity and swirl, off the surface"""
    m = cyl_m(r, z, R)
    return z * sqrt(m) / (2 * PI * sqrt(r * R)) * (K(m) + (R - r) / (R + r) * PIc(cyl_n(r, R), m))


def cyl_z(r, z, R, inside):
    return Q(1, 2) * ((1 if inside else 0) + cyl_swirl(r, z, R))


def cyl_z_surface(z, R):
    m = cyl_m(R, z, R)
    return Q(1, 2) * (Q(1, 2) + z * sqrt(m) / (2 * PI * R) * K(m))


def cyl_z_axis(z, R):
    return Q(1, 2) * (1 + z / sqrt(z * z + R * R))
