"""C25: analytical rotor-plane functions of the skewed wake.

K_xi,t(r) = 2 r/pi int_0^{pi/2} sin^2(2t) / ( sqrt((1+r)^2-4r cos^2 t) ((r-cos 2t)^2 cos^2 chi + sin^2 2t) ) dt
K_z,t = sin(chi) K_xi,t."""
from ._common import *
from .c02_cylinder import cyl_r

KXI, KZT = 'VortexCylinderSkewed.fKxit', 'VortexCylinderSkewed.fKzt'
EPS = Q(1, 10 ** 6)


def oye(r):
    return Q(1, 2) * (r + Q(2, 5) * r ** 3 + Q(2, 5) * r ** 5)


def chars(r, m):
    c, q = sqrt(1 + m * m), sqrt(r * r + m * m)
    m1, m2 = (c + q) / (1 + r), (c - q) / (1 + r)
    return m1 ** 2 - 1, 1 - m2 ** 2, 4 * r / (1 + r) ** 2        # b1, b2, j2


def weights(r, m):
    """weights of K(j2), Pi(-b1,j2), Pi(b2,j2)"""
    b1, b2, j2 = chars(r, m)
    w = r * (1 + r) * sqrt(1 + m * m) / (2 * m * m * PI * sqrt(m * m + r * r))
    return 2 * (1 + m * m) * r / (m * m * PI * (1 + r)), -w * (b1 + j2), -w * (b2 - j2)


def kxi(r, m):
    """closed form; K(j2) = (1+r) K(r^2) (Gauss' transformation)"""
    b1, b2, j2 = chars(r, m)
    w0, w1, w2 = weights(r, m)
    return w0 * (1 + r) * K(r * r) + w1 * PIc(-b1, j2) + w2 * PIc(b2, j2)


def kxi_int(r, m, t):
    """integrand over 0..pi/2"""
    c2 = 1 / (1 + m * m)
    return 2 * r / PI * sin(2 * t) ** 2 / (sqrt((1 + r) ** 2 - 4 * r * cos(t) ** 2) * ((r - cos(2 * t)) ** 2 * c2 + sin(2 * t) ** 2))


def kzt_coleman(r, m, t):
    """integrand over 0..pi (Coleman)"""
    q = 1 + r * r - 2 * r * cos(t)
    return -r / PI * sqrt(1 + m * m) / m * (-1 / sqrt(q) + sqrt(q) / (q + m * m * sin(t) ** 2))


def kzt_alt1(r, m, t):
    q = 1 + r * r - 2 * r * cos(t)
    return r * m * sqrt(1 + m * m) / PI * sin(t) ** 2 / (sqrt(q) * (q + m * m * sin(t) ** 2))


def kzt_alt3(r, m, t):
    q = (1 + r) ** 2 - 4 * r * cos(t) ** 2
    return 2 * r * sqrt(1 + m * m) * m / PI * sin(2 * t) ** 2 / (sqrt(q) * (q + m * m * sin(2 * t) ** 2))


def radii(V, zero=False):
    n = V.ivar('n', 1, 2)
    rr = lambda rng, i: (0 if zero and rng.random() < 0.3 else rng.uniform(0.01, 0.97))
    r = V.dim('r', n, owner='radii', sampler=rr, facts=lambda x, i: [le(EPS, x), x <= 1 - EPS])
    k = V.index('k', ZERO, n - 1)
    V.assume(le(EPS, sel('r', k)))
    V.assume(sel('r', k) <= 1 - EPS)
    return n, r, k, sel('r', k)


def skewm(V):
    m = V.var('m', sampler=lambda rng: rng.choice([-1, 1]) * rng.uniform(0.05, 1.5))
    V.assume(le(EPS, m * m))
    return m


def quad(V, fn, hi, r, m):
    """trapezoid rule with 1000 nodes on 0..hi"""
    return V.trapz(T(1000), lambda i: hi * lin(i, T(1000)), lambda i: fn(r, m, hi * lin(i, T(1000))))


@scenario('C25', 'fKxit, skewed wake', contracts=[PI_CALL])
def _(V):
    m = skewm(V)
    n, a, k, r = radii(V)
    u = V.call(KXI, a, V.num(m))
    V.eq('Kxit', u[0], kxi(r, m), idx=k)
    V.eq('numerical integral', u[1], quad(V, kxi_int, PI / 2, r, m), idx=k)
    V.eq('Oye', u[2], oye(r), idx=k)
    V.unmodified()


@scenario('C25', 'fKxit, straight wake: twice the radial velocity of the straight cylinder', contracts=[PI_CALL])
def _(V):
    n, a, k, r = radii(V)
    u = V.call(KXI, a, 0)
    V.eq('Kxit', u[0], -2 * cyl_r(r, ZERO, ONE), idx=k)
    V.eq('numerical integral', u[1], quad(V, kxi_int, PI / 2, r, ZERO), idx=k)
    V.eq('Oye', u[2], oye(r), idx=k)
    V.unmodified()


@scenario('C25', 'fKxit is zero at the centre of the rotor', contracts=[PI_CALL])
def _(V):
    m = V.var('m', sampler=lambda rng: rng.choice([0, 0, rng.uniform(-1.5, 1.5)]))
    n = V.ivar('n', 1, 5)
    a = V.dim('r', n, fn=lambda i: ZERO, owner='radii')
    k = V.index('k', ZERO, n - 1)
    u = V.call(KXI, a, V.num(m))
    V.eq('Kxit', u[0], ZERO, idx=k)
    V.eq('Oye', u[2], ZERO, idx=k)


@scenario('C25', 'fKxit is even in the skew angle', contracts=[PI_CALL])
def _(V):
    m = skewm(V)
    n, a, k, r = radii(V)
    u, w = V.call(KXI, a, V.num(m)), V.call(KXI, a, V.num(-m))
    V.eq('Kxit', u[0], V.val(w[0], k), idx=k)
    V.eq('numerical integral', u[1], V.val(w[1], k), idx=k)


@scenario('C25', 'fKzt and its alternative forms', contracts=[PI_CALL])
def _(V):
    m = skewm(V)
    n, a, k, r = radii(V)
    u = V.call(KZT, a, V.num(m), 6)
    V.true('six outputs', len(u) == 6)
    c, s = 1 / sqrt(1 + m * m), m / sqrt(1 + m * m)
    V.eq('Kzt = sin(chi) Kxit', u[0], s * kxi(r, m), idx=k)
    V.eq('Coleman integral', u[1], quad(V, kzt_coleman, PI, r, m), idx=k)
    V.eq('Oye', u[2], oye(r), idx=k)
    V.eq('alternative 1', u[3], quad(V, kzt_alt1, PI, r, m), idx=k)
    V.eq('alternative 3', u[4], quad(V, kzt_alt3, PI / 2, r, m), idx=k)
    V.eq('alternative 4', u[5], quad(V, lambda q, mm, t: s * kxi_int(q, mm, t), PI / 2, r, m), idx=k)
    V.unmodified()


for nout in (1, 2, 3):
    @scenario('C25', 'fKzt, nout=%d' % nout, contracts=[PI_CALL])
    def _(V, nout=nout):
        m = skewm(V)
        n, a, k, r = radii(V)
        u = V.call(KZT, a, V.num(m), nout)
        if nout == 1:
            u = (u,)
        V.true('number of outputs', len(u) == nout)
        s = m / sqrt(1 + m * m)
        V.eq('Kzt = sin(chi) Kxit', u[0], s * kxi(r, m), idx=k)
        if nout > 1:
            V.eq('Coleman integral', u[1], quad(V, kzt_coleman, PI, r, m), idx=k)
        if nout > 2:
            V.eq('Oye', u[2], oye(r), idx=k)


@scenario('C25', 'fKzt refuses an unskewed wake')
def _(V):
    n, a, k, r = radii(V)
    V.raises('m=0', Exception, lambda: V.call(KZT, a, 0))


# --------------------------------------------------------------- spec lemmas
@scenario('C25', 'the closed form is the integral: its partial fractions in sin^2')
def _(V):
    """with s = sin^2(pi/2-t): integrand = sum of weight_i / (1 - n_i s) / ((1) sqrt(1-j2 s))"""
    m = skewm(V)
    r = V.var('r', 'pos', sampler=uni(0.05, 0.95))
    V.assume(r <= 1 - EPS)
    t = V.var('t', sampler=uni(0.05, 1.5))
    s = cos(t) ** 2
    b1, b2, j2 = chars(r, m)
    w0, w1, w2 = weights(r, m)
    V.assume(le(EPS, 1 - j2 * s))
    V.assume(le(EPS, 1 - b2 * s))
    V.eq('partial fractions', kxi_int(r, m, t), (w0 + w1 / (1 + b1 * s) + w2 / (1 - b2 * s)) / sqrt(1 - j2 * s))


@scenario('C25', 'the integrands of the Kzt forms agree')
def _(V):
    m = skewm(V)
    r = V.var('r', 'pos', sampler=uni(0.05, 0.95))
    V.assume(r <= 1 - EPS)
    t = V.var('t', sampler=uni(0.05, 1.5))
    V.assume(le(EPS, 1 + r * r - 2 * r * cos(t)))
    V.assume(le(EPS, 1 + r * r - 2 * r * cos(2 * t)))
    V.eq('Coleman and alternative 1', kzt_coleman(r, m, t), kzt_alt1(r, m, t))
    V.eq('alternative 3 is alternative 1 at the double angle (pi-2t)', kzt_alt3(r, m, t), 2 * kzt_alt1(r, m, 2 * t))
    V.eq('alternative 4', m / sqrt(1 + m * m) * kxi_int(r, m, t), 2 * kzt_alt1(r, m, 2 * t))
