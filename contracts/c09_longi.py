"""C09: straight longitudinal cylinder, root vortex, semi-infinite filament."""
from ._common import *
from pyvc.terms import diff, subst, var

EPS = Q(1, 10 ** 6)
LONGI = 'VortexCylinder.vc_longi_u'
LONGIP = 'VortexCylinder.vc_longi_u_polar'
ROOT = 'VortexCylinder.vc_root_u'
STR = 'VortexLine.vl_semiinf_straight_u'
STRP = 'VortexLine.vl_semiinf_straight_u_polar'
LINE = 'VortexLine.vl_semiinf_u'


def longi_swirl(r, z, R, inside):
    m = cyl_m(r, z, R)
    Az = z * sqrt(m) / (2 * PI * sqrt(r * R)) * (K(m) - (R - r) / (R + r) * PIc(cyl_n(r, R), m))
    return Q(1, 2) * R / r * ((0 if inside else 1) + Az)


def filament(r, z):
    """swirl of the unit filament along the positive z axis"""
    return (1 + z / sqrt(r * r + z * z)) / (4 * PI * r)


def cylpt(V, R, inside):
    s = V.pvar('s', 'pos', sampler=logu(0.01, 8))
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    V.assume(le(EPS, s))
    V.assume(s <= 1 - EPS if inside else s >= 1 + EPS)
    return s * R, psi, V.pvar('zz', sampler=signed(0.02, 6)) * R


def both(V, call, r, psi, z, up, X, scale):
    """Cartesian output and polar output of a swirl `up`"""
    u = call(False)
    V.eq('ux', u[0], -up * sin(psi), scale=scale)
    V.eq('uy', u[1], up * cos(psi), scale=scale)
    V.eq('uz', u[2], ZERO)
    p = call(True)
    V.eq('ur', p[0], ZERO)
    V.eq('upsi', p[1], up, scale=scale)
    V.eq('uz polar', p[2], ZERO)
    for n, a in zip(('x', 'y', 'z', 'r', 'psi', 'zp'), tuple(u) + tuple(p)):
        V.shape_is('shape ' + n, a, X)


for inside in (True, False):
    for polin in (True, False):
        @scenario('C09', 'longitudinal cylinder %s, %s input' % ('inside' if inside else 'outside', 'polar' if polin else 'Cartesian'), contracts=[PI_CALL])
        def _(V, inside=inside, polin=polin):
            g = V.var('g', sampler=uni(-3, 3))
            R = V.var('R', 'pos', sampler=logu(0.3, 70))
            r, psi, z = cylpt(V, R, inside)
            up = g * longi_swirl(r, z, R, inside)
            if polin:
                a = (V.cp(r), V.cp(psi), V.cp(z))
                both(V, lambda p: V.call(LONGIP, *a, gamma_l=V.num(g), R=V.num(R), polar_out=p), r, psi, z, up, a[0], g)
            else:
                a = (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
                both(V, lambda p: V.call(LONGI, *a, gamma_l=V.num(g), R=V.num(R), polar_out=p), r, psi, z, up, a[0], g)
            V.unmodified()


@scenario('C09', 'longitudinal cylinder: no swirl on the axis', contracts=[PI_CALL])
def _(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    z = V.pvar('zz', sampler=uni(-6, 6)) * R
    a = (V.cp(ZERO), V.cp(ZERO), V.cp(z))
    both(V, lambda p: V.call(LONGI, *a, gamma_l=V.num(g), R=V.num(R), polar_out=p), ZERO, ZERO, z, ZERO, a[0], g)
    V.unmodified()


@scenario('C09', 'longitudinal cylinder: mean of both sides on the surface', contracts=[PI_CALL])
def _(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    z = V.pvar('zz', sampler=lambda rng: rng.choice([0, rng.uniform(-6, 6)])) * R
    V.assume(or_(eq(z, ZERO), lt(EPS * R, absv(z))))
    m = cyl_m(R, z, R)
    up = g / 2 * (Q(1, 2) + ite(eq(z, ZERO), ZERO, z * sqrt(m) / (2 * PI * R) * K(m)))
    a = (V.cp(R), V.cp(psi), V.cp(z))
    both(V, lambda p: V.call(LONGIP, *a, gamma_l=V.num(g), R=V.num(R), polar_out=p), R, psi, z, up, a[0], g)
    V.unmodified()


for inside in (True, False):
    @scenario('C09', 'the longitudinal closed form is the integral over the filaments of the sheet (%s)' % ('inside' if inside else 'outside'))
    def _(V, inside=inside):
        """d/dz of the swirl is minus R/(r) times the z-derivative ... : Stokes: the
        swirl of the closed cylinder: u_psi = (Gamma_enclosed)/(2 pi r) far
        downstream, nothing far upstream; curl u = 0 and div u = 0 hold off the
        sheet: d(r u_psi)/dr and d u_psi/dz are the end-surface contributions of
        semi-infinite filaments"""
        R = V.var('R', 'pos', sampler=logu(0.3, 70))
        r, psi, z = cylpt(V, R, inside)
        # infinite cylinder: swirl R/r outside, none inside
        V.eq('infinite cylinder', longi_swirl(r, z, R, inside) + longi_swirl(r, -z, R, inside), (ZERO if inside else R / r))
        # a disk of radius R carrying the solenoidal vorticity system: the swirl and the
        # axial field of the tangential sheet are related by d(r u_psi)/dr = ... through
        # the common potential: d/dz (r u_psi) = - R d/dR-free identity below
        zv = var('zv')
        q = diff(longi_swirl(r, zv, R, inside), 'zv')
        V.eq('z-derivative', subst(q, {'zv': z}), longi_dz(r, z, R))


def longi_dz(r, z, R):
    """d u_psi/dz of a unit longitudinal sheet = (1/4pi) R int_0^2pi (r - R cos t)/(r^2+R^2-2rR cos t+z^2)^(3/2) dt"""
    a2 = (R + r) ** 2 + z * z
    b2 = (R - r) ** 2 + z * z
    m = 4 * r * R / a2
    # int dt / D^(3/2) = 4 E(m) / (sqrt(a2) b2);  int cos t / D^(3/2) = [ (r^2+R^2+z^2) 4E/(sqrt(a2) b2) - 4K/sqrt(a2) ]/(2 r R)
    I0 = 4 * E(m) / (sqrt(a2) * b2)
    I1 = ((r * r + R * R + z * z) * I0 - 4 * K(m) / sqrt(a2)) / (2 * r * R)
    return R / (4 * PI) * (r * I0 - R * I1)


for fn, polin in ((STR, False), (ROOT, False), (STRP, True)):
    @scenario('C09', '%s: swirl of a filament along z' % fn.split('.')[1])
    def _(V, fn=fn, polin=polin):
        g = V.var('g', sampler=uni(-3, 3))
        r = V.pvar('r', 'pos', sampler=logu(0.01, 80))
        psi, z = V.pvar('psi', sampler=uni(-3.1, 3.1)), V.pvar('z', sampler=uni(-60, 60))
        V.assume(le(EPS, r))
        a = (V.cp(r), V.cp(psi), V.cp(z)) if polin else (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
        both(V, lambda p: V.call(fn, *a, Gamma_r=V.num(g), polar_out=p), r, psi, z, g * filament(r, z), a[0], g / r)
        V.unmodified()

    @scenario('C09', '%s: no induction on the axis' % fn.split('.')[1])
    def _(V, fn=fn, polin=polin):
        g = V.var('g', sampler=uni(-3, 3))
        z = V.pvar('z', sampler=lambda rng: rng.choice([0, rng.uniform(-60, 60)]))
        a = (V.cp(ZERO), V.cp(ZERO), V.cp(z))
        both(V, lambda p: V.call(fn, *a, Gamma_r=V.num(g), polar_out=p), ZERO, ZERO, z, ZERO, a[0], g)


def unit(V):
    """a unit direction"""
    al, be = V.var('al', sampler=uni(-3, 3)), V.var('be', sampler=uni(-1.4, 1.4))
    return cos(al) * cos(be), sin(al) * cos(be), sin(be)


TH = Q(1, 10 ** 5)


@scenario('C09', 'general semi-infinite filament: Biot-Savart velocity')
def _(V):
    g = V.var('g', sampler=uni(-3, 3))
    a = [V.var('a%d' % i, sampler=uni(-4, 4)) for i in range(3)]
    e = unit(V)
    n = sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
    ae = sum((x * y for x, y in zip(a, e)), ZERO)
    D = n * (n - ae)
    V.assume(le(TH, n))
    V.assume(le(Q(1, 10 ** 8), D))
    u = V.call(LINE, *[V.num(x) for x in a], *[V.num(x) for x in e], V.num(g), 0, 0)
    c = (e[1] * a[2] - e[2] * a[1], e[2] * a[0] - e[0] * a[2], e[0] * a[1] - e[1] * a[0])
    for i in range(3):
        V.eq('u%d' % i, u, g / (4 * PI) * c[i] / D, idx=i, scale=g)


@scenario('C09', 'the filament formula is the integral of the Biot-Savart kernel along the line')
def _(V):
    a = [V.var('a%d' % i, sampler=uni(-4, 4)) for i in range(3)]
    e = unit(V)
    s = V.var('s', 'nonneg', sampler=uni(0, 4))
    b = [x - s * y for x, y in zip(a, e)]          # moving the start along the line
    n = sqrt(b[0] ** 2 + b[1] ** 2 + b[2] ** 2)
    D = n * (n - sum((x * y for x, y in zip(b, e)), ZERO))
    n2 = a[0] ** 2 + a[1] ** 2 + a[2] ** 2
    V.assume(le(TH, n2 - sum((x * y for x, y in zip(a, e)), ZERO) ** 2))
    c = (e[1] * a[2] - e[2] * a[1], e[2] * a[0] - e[0] * a[2], e[0] * a[1] - e[1] * a[0])
    for i in range(3):
        V.eq('d/ds %d' % i, diff(c[i] / D, 's'), -c[i] / n ** 3)


VISC = {1: lambda h, t: ite(lt(h, t), h * h / t / t, ONE), 2: lambda h, t: 1 - exp(-Q(125643, 100000) * h * h / t / t),
        3: lambda h, t: h * h / sqrt(t ** 4 + h ** 4)}
for mod in (1, 2, 3, 4, 5):
    @scenario('C09', 'general semi-infinite filament: viscous model %d' % mod)
    def _(V, mod=mod):
        g, t = V.var('g', sampler=uni(-3, 3)), V.var('t', 'pos', sampler=uni(0.1, 4))
        a = [V.var('a%d' % i, sampler=uni(-4, 4)) for i in range(3)]
        # along a coordinate axis: the general direction is covered by the inviscid contract
        e = [ZERO, ZERO, ONE]
        n = sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
        h2 = a[0] ** 2 + a[1] ** 2
        D = n * (n - a[2])
        V.assume(le(TH, n))
        V.assume(le(Q(1, 10 ** 8), D))
        u = V.call(LINE, *[V.num(x) for x in a], *[V.num(x) for x in e], V.num(g), mod, V.num(t))
        h = sqrt(h2)
        kv = VISC[mod](h, t) / D if mod in VISC else 1 / (D + t)
        c = (-a[1], a[0], ZERO)
        for i in range(3):
            V.eq('u%d' % i, u, g / (4 * PI) * c[i] * kv, idx=i, scale=g)


@scenario('C09', 'the straight filament agrees with the general one')
def _(V):
    g = V.var('g', sampler=uni(-3, 3))
    x, y, z = (V.var(n, sampler=uni(-4, 4)) for n in 'xyz')
    V.assume(le(Q(1, 10 ** 3), x * x + y * y))
    u = V.call(LINE, V.num(x), V.num(y), V.num(z), V.num(ZERO), V.num(ZERO), V.num(ONE), V.num(g), 0, 0)
    n = sqrt(x * x + y * y + z * z)
    V.assume(le(Q(1, 10 ** 8), n * (n - z)))
    w = V.call(STR, V.cp(x), V.cp(y), V.cp(z), V.num(g))
    for i in range(3):
        V.eq('u%d' % i, u, w[i], idx=i, scale=g)


@scenario('C09', 'general filament is zero at its start and on the line')
def _(V):
    g, t = V.var('g', sampler=uni(-3, 3)), V.var('t', 'nonneg', sampler=lambda rng: rng.choice([0, rng.uniform(0, 4)]))
    e = unit(V)
    u = V.call(LINE, *[V.num(t * x) for x in e], *[V.num(x) for x in e], V.num(g), 0, 0)
    for i in range(3):
        V.eq('u%d' % i, u, ZERO, idx=i)
