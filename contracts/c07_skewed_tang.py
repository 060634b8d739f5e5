"""C07: skewed semi-infinite tangential cylinder.

The contract is the trapezoid rule, with the requested number of nodes, over
the azimuth, of the exact velocity of the vortex elements of one generatrix.
That exact velocity is tied to Biot-Savart by a lemma: its derivative with
respect to the start of the generatrix is the kernel of the element there."""
from ._common import *
from pyvc.terms import diff, subst, var

F = 'VortexCylinderSkewed.svc_tang_u'
FP = 'VortexCylinderSkewed.svc_tang_u_polar'
FV = 'VortexCylinderSkewed.fV_Tangential'


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def elem(x, y, z, R, m, th):
    """velocity per unit azimuth and strength of the elements R dth (-sin th, cos th, 0) at
    (R cos th + m s, R sin th, s), s >= 0; the strength is per unit length along the wake axis"""
    X = (x - R * cos(th), y - R * sin(th), z)
    t = (m, ZERO, ONE)
    c = sqrt(1 + m * m)
    a = sqrt(X[0] ** 2 + X[1] ** 2 + X[2] ** 2)
    b = m * X[0] + X[2]
    I0 = 1 / (a * (a * c - b))            # int ds / |X - s t|^3
    I1 = 1 / (c * (a * c - b))            # int s ds / |X - s t|^3
    e = (-sin(th), cos(th), ZERO)
    return tuple(R * c / (4 * PI) * (p * I0 - q * I1) for p, q in zip(cross(e, X), cross(e, t)))


def nodes(n):
    return lambda i: PI / 2 + 2 * PI * lin(i, n)


def field(V, x, y, z, R, m, n):
    th = nodes(n)
    return tuple(V.trapz(n, th, lambda i, k=k: elem(x, y, z, R, m, th(i))[k]) for k in range(3))


def setup(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    m = V.var('m', sampler=lambda rng: rng.choice([0, rng.uniform(-1.5, 1.5)]))
    n = V.ivar('ntheta', 2, 12)
    r = V.pvar('s', 'pos', sampler=logu(0.01, 8)) * R
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    z = V.pvar('zz', sampler=signed(0.02, 6)) * R
    return g, R, m, n, r, psi, z


@scenario('C07', 'the azimuthal integrand is the exact velocity of the elements of a generatrix')
def _(V):
    x, y, z, m, th = (V.var(n, sampler=uni(-3, 3)) for n in ('x', 'y', 'z', 'm', 'th'))
    R = V.var('R', 'pos', sampler=logu(0.3, 7))
    s = V.var('s', 'nonneg', sampler=uni(0, 4))
    X = (x - m * s - R * cos(th), y - R * sin(th), z - s)
    a2 = X[0] ** 2 + X[1] ** 2 + X[2] ** 2
    V.assume(le(Q(1, 10 ** 6), a2 * (1 + m * m) - (m * X[0] + X[2]) ** 2))
    k = cross((-sin(th), cos(th), ZERO), X)
    for i, w in enumerate(elem(x - m * s, y, z - s, R, m, th)):
        V.eq('d/ds %d' % i, diff(w, 's'), -R * sqrt(1 + m * m) / (4 * PI) * k[i] / a2 ** Q(3, 2))


for polin in (True, False):
    for polout in (False, True):
        @scenario('C07', 'skewed tangential cylinder, %s input, %s output' % (('Cartesian', 'polar')[polin], ('Cartesian', 'polar')[polout]))
        def _(V, polin=polin, polout=polout):
            g, R, m, n, r, psi, z = setup(V)
            P = (V.cp(r), V.cp(psi), V.cp(z)) if polin else (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
            u = V.call(FP if polin else F, *P, V.num(g), V.num(R), V.num(m), V.inum(n), polar_out=polout)
            w = field(V, r * cos(psi), r * sin(psi), z, R, m, n)
            if polout:
                w = (w[0] * cos(psi) + w[1] * sin(psi), -w[0] * sin(psi) + w[1] * cos(psi), w[2])
            for k, (a, b) in enumerate(zip(u, w)):
                V.eq('component %d' % k, a, g * b, scale=g)
                V.shape_is('shape %d' % k, a, P[0])
            V.unmodified()


@scenario('C07', 'the default resolution is 180 nodes')
def _(V):
    g, R, m, n, r, psi, z = setup(V)
    P = (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
    u = V.call(F, *P, V.num(g), V.num(R), V.num(m))
    for k, (a, b) in enumerate(zip(u, field(V, r * cos(psi), r * sin(psi), z, R, m, T(180)))):
        V.eq('component %d' % k, a, g * b, scale=g)


def skew(w, psi, m):
    c, s = 1 / sqrt(1 + m * m), m / sqrt(1 + m * m)
    ur, up = w[0] * cos(psi) + w[1] * sin(psi), -w[0] * sin(psi) + w[1] * cos(psi)
    return (w[2], up, w[0], w[1], w[2] * c + w[0] * s, -w[2] * s + w[0] * c, ur)


for nout in (1, 3, 7):
    @scenario('C07', 'fV_Tangential: the field of a unit cylinder in polar and skew components, nout=%d' % nout)
    def _(V, nout=nout):
        g, R, m, n, r, psi, z = setup(V)
        P = (V.cp(r), V.cp(psi), V.cp(z))
        u = V.call(FV, *P, V.num(m), V.num(g), V.inum(n), nout)
        w = skew(field(V, r * cos(psi), r * sin(psi), z, ONE, m, n), psi, m)
        if nout == 1:
            u = (u,)
        V.true('number of outputs', len(u) == nout)
        for k, (a, b) in enumerate(zip(u, w)):
            V.eq('component %d' % k, a, g * b, scale=g)
            V.shape_is('shape %d' % k, a, P[0])
        V.unmodified()


@scenario('C07', 'on the axis of an unskewed cylinder the value is that of the straight cylinder')
def _(V):
    g, R, m, n, r, psi, z = setup(V)
    for qual, P in ((F, (V.cp(ZERO), V.cp(ZERO), V.cp(z))),):
        u = V.call(qual, *P, V.num(g), V.num(R), 0, V.inum(n))
        V.eq('uz', u[2], g * cyl_z_axis(z, R), scale=g)
