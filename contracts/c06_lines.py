"""C06: doublet lines are exact integrals of point doublets."""
from ._common import *
from pyvc.terms import diff, subst, var

EPS = Q(1, 10 ** 6)
LINE = 'VortexDoublet.doublet_line_u'
POL = 'VortexDoublet.doublet_line_polar_u'


def point(x, y, z):
    """unit vertical point doublet at the origin"""
    n2 = x * x + y * y + z * z
    return (3 * x * z / n2 ** Q(5, 2) / (4 * PI), 3 * y * z / n2 ** Q(5, 2) / (4 * PI),
            (3 * z * z / n2 ** Q(5, 2) - n2 ** Q(-3, 2)) / (4 * PI))


def abc(x, y, z, m):
    return x * x + y * y + z * z, m * x + z, 1 + m * m          # a^2, b, c^2


def prim(x, y, z, m, s):
    """primitive in s of the velocity of the doublet at (m s, 0, s)"""
    a2, b, c2 = abc(x, y, z, m)
    D = a2 * c2 - b * b                                         # (x-mz)^2 + c^2 y^2 > 0 off the line
    q = a2 - 2 * b * s + c2 * s * s
    # J_k = int s^k q^(-5/2) ds, J3 = int q^(-3/2) ds
    J3 = (c2 * s - b) / (D * q ** Q(1, 2))
    J0 = (c2 * s - b) / (3 * D * q ** Q(3, 2)) + 2 * c2 / (3 * D) * J3
    J1 = (b * J0 - 1 / (3 * q ** Q(3, 2))) / c2
    J2 = (J3 + 2 * b * J1 - a2 * J0) / c2
    # integrand: 3 (x-ms)(z-s) q^-5/2 , 3 y (z-s) q^-5/2, 3 (z-s)^2 q^-5/2 - q^-3/2
    return (3 * (x * z * J0 - (m * z + x) * J1 + m * J2) / (4 * PI),
            3 * y * (z * J0 - J1) / (4 * PI),
            (3 * (z * z * J0 - 2 * z * J1 + J2) - J3) / (4 * PI))


def infinite(x, y, z, m):
    a2, b, c2 = abc(x, y, z, m)
    a, c = sqrt(a2), sqrt(c2)
    d = a * c - b
    I30 = 1 / (a * d)
    I50 = (2 * a * c - b) / (a ** 3 * d ** 2)
    I51 = 1 / (a * d ** 2)
    I52 = 1 / (c * d ** 2)
    return ((x * z * I50 + m * I52 - (m * z + x) * I51) / (4 * PI), (y * z * I50 - y * I51) / (4 * PI),
            (z * z * I50 + I52 - 2 * z * I51 - I30) / (4 * PI))


def pt(V, off=True):
    x, y, z = (V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz')
    m = V.var('m', sampler=uni(-1.5, 1.5))
    if off:
        V.assume(le(EPS, (x - m * z) ** 2 + y * y))
    return x, y, z, m


COMP = ('ux', 'uy', 'uz')


@scenario('C06', 'the primitive used by the specification is the integral of point doublets')
def _(V):
    x, y, z, m = pt(V)
    s = V.var('s', sampler=uni(0, 5))
    P = prim(x, y, z, m, s)
    for n, p, d in zip(COMP, P, point(x - m * s, y, z - s)):
        V.eq('d/ds ' + n, diff(p, 's'), d)


@scenario('C06', 'the infinite line is the finite line plus the infinite line from its end')
def _(V):
    x, y, z, m = pt(V)
    L = V.var('L', 'pos', sampler=uni(0.1, 5))
    A, B, F1, F0 = infinite(x, y, z, m), infinite(x - m * L, y, z - L, m), prim(x, y, z, m, L), prim(x, y, z, m, ZERO)
    for n, a, b, p, q in zip(COMP, A, B, F1, F0):
        V.eq(n, a - b, p - q)


@scenario('C06', 'doublet_line_u, finite length, off the line')
def _(V):
    x, y, z, m = pt(V)
    L, g = V.var('L', 'pos', sampler=uni(0.1, 5)), V.var('g', sampler=uni(-3, 3))
    X, Y, Z = V.cp(x), V.cp(y), V.cp(z)
    u = V.call(LINE, X, Y, Z, V.num(g), m=V.num(m), L=V.num(L))
    F1, F0 = prim(x, y, z, m, L), prim(x, y, z, m, ZERO)
    for n, a, p, q in zip(COMP, u, F1, F0):
        V.eq(n, a, g * (p - q), scale=g)
        V.shape_is('shape ' + n, a, X)
    V.unmodified()


@scenario('C06', 'doublet_line_u, infinite length, off the line')
def _(V):
    x, y, z, m = pt(V)
    g = V.var('g', sampler=uni(-3, 3))
    X, Y, Z = V.cp(x), V.cp(y), V.cp(z)
    u = V.call(LINE, X, Y, Z, V.num(g), m=V.num(m))
    for n, a, p in zip(COMP, u, infinite(x, y, z, m)):
        V.eq(n, a, g * p, scale=g)
        V.shape_is('shape ' + n, a, X)
    V.unmodified()


@scenario('C06', 'doublet_line_u beyond the ends of a finite line')
def _(V):
    """on the carrier line: the point doublets are collinear with the point"""
    m, z = V.var('m', sampler=uni(-1.5, 1.5)), V.pvar('z', sampler=uni(-6, 6))
    L, g = V.var('L', 'pos', sampler=uni(0.1, 3)), V.var('g', sampler=uni(-3, 3))
    V.assume(or_(z <= -EPS, z >= L + EPS))
    X, Y, Z = V.cp(m * z), V.cp(ZERO), V.cp(z)
    u = V.call(LINE, X, Y, Z, V.num(g), m=V.num(m), L=V.num(L))
    c2 = 1 + m * m
    # 1/|z-s|^3 integrated over 0..L
    s = ite(lt(z, ZERO), ONE, -ONE)
    J = s * (1 / (2 * z * z) - 1 / (2 * (z - L) ** 2))
    k = g / (4 * PI)
    V.eq('ux', u[0], k * 3 * m * J / c2 ** Q(5, 2), scale=g)
    V.eq('uy', u[1], ZERO)
    V.eq('uz', u[2], k * (3 / c2 ** Q(5, 2) - 1 / c2 ** Q(3, 2)) * J, scale=g)
    V.unmodified()


for fin in (True, False):
    @scenario('C06', 'doublet_line_u on the %s line gives zero' % ('finite' if fin else 'infinite'))
    def _(V, fin=fin):
        m, t = V.var('m', sampler=uni(-1.5, 1.5)), V.pvar('t', lo=0, hi=1, sampler=lambda rng: rng.choice([0, 1, rng.random()]))
        g = V.var('g', sampler=uni(-3, 3))
        L = V.var('L', 'pos', sampler=uni(0.1, 3))
        z = t * L
        kw = dict(L=V.num(L)) if fin else {}
        u = V.call(LINE, V.cp(m * z), V.cp(ZERO), V.cp(z), V.num(g), m=V.num(m), **kw)
        for n, a in zip(COMP, u):
            V.eq(n, a, ZERO)


@scenario('C06', 'doublet_line_u of zero length')
def _(V):
    x, y, z, m = pt(V)
    u = V.call(LINE, V.cp(x), V.cp(y), V.cp(z), V.num(V.var('g', sampler=uni(-3, 3))), m=V.num(m), L=V.num(ZERO))
    for n, a in zip(COMP, u):
        V.eq(n, a, ZERO)


@scenario('C06', 'axisymmetric doublet line: off the axis and upstream of it')
def _(V):
    r = V.pvar('r', 'nonneg', sampler=lambda rng: rng.choice([0, rng.uniform(0.01, 4)]))
    z = V.pvar('z', sampler=lambda rng: rng.choice([0, rng.uniform(-4, 4), rng.uniform(-4, 4)]))
    g = V.var('g', sampler=uni(-3, 3))
    V.assume(or_(le(EPS, r), and_(eq(r, ZERO), z <= -EPS)))
    V.assume(or_(eq(z, ZERO), le(EPS, absv(z))))
    X, Z = V.cp(r), V.cp(z)
    ur, uz = V.call(POL, X, Z, V.num(g))
    n3 = (r * r + z * z) ** Q(3, 2)
    V.eq('ur', ur, -g / (4 * PI) * r / n3, scale=g)
    V.eq('uz', uz, -g / (4 * PI) * z / n3, scale=g)
    V.shape_is('shape ur', ur, X)
    V.shape_is('shape uz', uz, X)
    V.unmodified()


@scenario('C06', 'axisymmetric doublet line: zero on the line')
def _(V):
    z = V.pvar('z', 'nonneg', sampler=lambda rng: rng.choice([0, rng.uniform(0.01, 4)]))
    V.assume(or_(eq(z, ZERO), le(EPS, z)))
    u = V.call(POL, V.cp(ZERO), V.cp(z), V.num(V.var('g', sampler=uni(-3, 3))))
    V.eq('ur', u[0], ZERO)
    V.eq('uz', u[1], ZERO)


@scenario('C06', 'axisymmetric doublet line is the straight infinite line')
def _(V):
    r = V.pvar('r', 'pos', sampler=uni(0.01, 4))
    psi, z = V.pvar('psi', sampler=uni(-3.1, 3.1)), V.pvar('z', sampler=signed(0.02, 4))
    g = V.var('g', sampler=uni(-3, 3))
    V.assume(le(EPS, r))
    V.assume(le(EPS, absv(z)))
    ur, uz = V.call(POL, V.cp(r), V.cp(z), V.num(g))
    u = V.call(LINE, V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z), V.num(g))
    V.eq('ux', u[0], V.val(ur) * cos(psi), scale=g)
    V.eq('uy', u[1], V.val(ur) * sin(psi), scale=g)
    V.eq('uz', u[2], uz, scale=g)


@scenario('C06', 'axisymmetric doublet line is finite everywhere')
def _(V):
    r = V.pvar('r', 'nonneg', sampler=lambda rng: rng.choice([0, 1e-9, 2e-8, 1e-5, rng.uniform(0, 3)]))
    z = V.pvar('z', sampler=lambda rng: rng.choice([0, 1e-9, -1e-9, 2e-8, -2e-8, rng.uniform(-3, 3)]))
    u = V.call(POL, V.cp(r), V.cp(z), V.num(V.var('g', sampler=uni(-3, 3))))
    V.finite('ur', u[0])
    V.finite('uz', u[1])


@scenario('C06', 'numerical doublet lines sum the point doublets')
def _(V):
    x, y, z = (V.pvar(n, sampler=signed(0.3, 3)) for n in 'xyz')
    m, g = V.var('m', sampler=uni(-0.5, 0.5)), V.var('g', sampler=uni(-3, 3))
    zm = V.var('zm', 'pos', sampler=uni(1, 5))
    n = V.ivar('n', 2, 6)
    h = zm * lin(1, n)
    TH = Q(1, 10 ** 8)
    u = V.call('VortexDoublet.doublet_line_u_num', V.cp(x), V.cp(y), V.cp(z), V.num(g), m=V.num(m), zmax=V.num(zm), nQuad=V.inum(n))
    for c in range(3):
        def term(i):
            d = (x - m * zm * lin(i, n), y, z - zm * lin(i, n))
            n2 = d[0] ** 2 + d[1] ** 2 + d[2] ** 2
            return ite(lt(n2 ** Q(3, 2), T(TH)), ZERO, g * h * point(*d)[c])
        V.eq(COMP[c], u[c], V.sum(ZERO, n - 1, term))


@scenario('C06', 'numerical axisymmetric doublet line sums the point doublets')
def _(V):
    r, z = V.pvar('r', 'pos', sampler=uni(0.3, 3)), V.pvar('z', sampler=uni(-3, 3))
    g, z0 = V.var('g', sampler=uni(-3, 3)), V.var('z0', sampler=uni(-1, 1))
    zm = V.var('zm', sampler=uni(2, 5))
    n = V.ivar('n', 2, 6)
    u = V.call('VortexDoublet.doublet_line_polar_u_num', V.cp(r), V.cp(z), V.num(g), z0=V.num(z0), zmax=V.num(zm), nQuad=V.inum(n))
    for c, nm in ((0, 'ur'), (2, 'uz')):
        def term(i):
            d = (r, ZERO, z - (z0 + (zm - z0) * lin(i, n)))
            n2 = d[0] ** 2 + d[2] ** 2
            return ite(lt(n2 ** Q(3, 2), T(Q(1, 10 ** 8))), ZERO, g * (zm - z0) * lin(1, n) * point(*d)[c])
        V.eq(nm, u[c // 2], V.sum(ZERO, n - 1, term))
