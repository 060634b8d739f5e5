"""C03: finite tangential cylinder = difference of two semi-infinite ones."""
from ._common import *

EPS = Q(1, 10 ** 6)
F = 'VortexCylinder.cylinder_tang_u'


def setup(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    z1 = V.var('z1', sampler=uni(-3, 3)) * R
    z2 = V.var('z2', sampler=uni(-3, 3)) * R
    return g, R, z1, z2


def away(V, R, z, z1, z2):
    V.assume(lt(EPS * R, absv(z - z1)))
    V.assume(lt(EPS * R, absv(z - z2)))


for inside in (True, False):
    @scenario('C03', 'off the axis, %s' % ('inside' if inside else 'outside'), contracts=[PI_CALL])
    def _(V, inside=inside):
        g, R, z1, z2 = setup(V)
        s = V.pvar('s', 'pos', sampler=logu(0.01, 8))
        psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
        r, z = s * R, V.pvar('zz', sampler=uni(-6, 6)) * R
        V.assume(le(EPS, s))
        V.assume(s <= 1 - EPS if inside else s >= 1 + EPS)
        X, Y, Z = V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z)
        fr = g * (cyl_r(r, z - z1, R) - cyl_r(r, z - z2, R))
        fz = g * (cyl_z(r, z - z1, R, inside) - cyl_z(r, z - z2, R, inside))
        kw = dict(gamma_t=V.num(g), R=V.num(R), z1=V.num(z1), z2=V.num(z2))
        ur, uz = V.call(F, X, Y, Z, **kw)
        V.eq('ur', ur, fr, scale=g)
        V.eq('uz', uz, fz, scale=g)
        V.shape_is('shape', ur, X)
        ux, uy, uw = V.call(F, X, Y, Z, polar_out=False, **kw)
        V.eq('ux', ux, fr * cos(psi), scale=g)
        V.eq('uy', uy, fr * sin(psi), scale=g)
        V.eq('uz cartesian', uw, fz, scale=g)
        V.shape_is('shape cartesian', uw, X)
        V.unmodified()


@scenario('C03', 'on the axis', contracts=[PI_CALL])
def _(V):
    g, R, z1, z2 = setup(V)
    z = V.pvar('zz', sampler=uni(-6, 6)) * R
    X, Y, Z = V.cp(ZERO), V.cp(ZERO), V.cp(z)
    kw = dict(gamma_t=V.num(g), R=V.num(R), z1=V.num(z1), z2=V.num(z2))
    ur, uz = V.call(F, X, Y, Z, **kw)
    V.eq('ur', ur, ZERO)
    V.eq('uz', uz, g * (cyl_z_axis(z - z1, R) - cyl_z_axis(z - z2, R)), scale=g)
    u = V.call(F, X, Y, Z, polar_out=False, **kw)
    V.eq('ux', u[0], ZERO)
    V.eq('uy', u[1], ZERO)
    V.eq('uz cartesian', u[2], uz)
    V.shape_is('shape', uz, X)
    V.unmodified()


@scenario('C03', 'on the surface r=R away from the rims', contracts=[PI_CALL])
def _(V):
    g, R, z1, z2 = setup(V)
    z = V.pvar('zz', sampler=uni(-6, 6)) * R
    away(V, R, z, z1, z2)
    X, Y, Z = V.cp(R), V.cp(ZERO), V.cp(z)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R), z1=V.num(z1), z2=V.num(z2))
    V.eq('ur', ur, g * (cyl_r(R, z - z1, R) - cyl_r(R, z - z2, R)), scale=g)
    V.eq('uz', uz, g * (cyl_z_surface(z - z1, R) - cyl_z_surface(z - z2, R)), scale=g)
    V.unmodified()


for inside in (True, False):
    @scenario('C03', 'agrees with the semi-infinite cylinder routine, %s' % ('inside' if inside else 'outside'), contracts=[PI_CALL])
    def _(V, inside=inside):
        g, R, z1, z2 = setup(V)
        s = V.pvar('s', 'pos', sampler=logu(0.01, 8))
        r, z = s * R, V.pvar('zz', sampler=uni(-6, 6)) * R
        V.assume(le(EPS, s))
        V.assume(s <= 1 - EPS if inside else s >= 1 + EPS)
        X, Y, Z = V.cp(r), V.cp(ZERO), V.cp(z)
        u = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R), z1=V.num(z1), z2=V.num(z2))
        a = V.call('VortexCylinder.vc_tang_u', X, Y, V.cp(z - z1), gamma_t=V.num(g), R=V.num(R))
        b = V.call('VortexCylinder.vc_tang_u', X, Y, V.cp(z - z2), gamma_t=V.num(g), R=V.num(R))
        for n, p, q, w in zip(('ur', 'uz'), u, a, b):
            V.eq(n, p, V.val(q) - V.val(w), scale=g)


@scenario('C03', 'finite at every point away from the rims', contracts=[PI_CALL])
def _(V):
    g, R, z1, z2 = setup(V)
    r = V.pvar('s', 'nonneg', sampler=lambda rng: rng.choice([0, 1, 1, 1 + 1e-9, 1 - 1e-12, 1e-8, 1e-6, rng.uniform(0, 3)])) * R
    z = V.pvar('zz', sampler=lambda rng: rng.choice([1e-5, rng.uniform(-3, 3)])) * R + z1
    away(V, R, z, z1, z2)
    X, Y, Z = V.cp(r), V.cp(ZERO), V.cp(z)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R), z1=V.num(z1), z2=V.num(z2))
    V.finite('ur', ur)
    V.finite('uz', uz)
