"""C02: straight semi-infinite tangential vortex cylinder."""
from ._common import *
from pyvc.terms import diff, subst, var
from .c04_rings import ring_r, ring_z

EPS = Q(1, 10 ** 6)
F = 'VortexCylinder.vc_tang_u'


def setup(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    return g, R


def off(V, R, inside=None):
    """a point off the axis, the surface r=R being excluded or not"""
    s = V.pvar('s', 'pos', sampler=logu(0.01, 8))
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    zz = V.pvar('zz', sampler=signed(0.02, 6))
    r, z = s * R, zz * R
    V.assume(le(EPS, s))
    if inside is True:
        V.assume(s <= 1 - EPS)
    elif inside is False:
        V.assume(s >= 1 + EPS)
    return r, psi, z


def cart(V, r, psi, z):
    return V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z)


for inside in (True, False):
    w = 'inside' if inside else 'outside'

    @scenario('C02', 'vc_tang_u %s: closed form, polar and Cartesian output' % w, contracts=[PI_CALL])
    def _(V, inside=inside):
        g, R = setup(V)
        r, psi, z = off(V, R, inside)
        X, Y, Z = cart(V, r, psi, z)
        ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R))
        V.eq('ur', ur, g * cyl_r(r, z, R), scale=g)
        V.eq('uz', uz, g * cyl_z(r, z, R, inside), scale=g)
        V.shape_is('ur shape', ur, X)
        V.shape_is('uz shape', uz, X)
        ux, uy, uw = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R), polar_out=False)
        V.eq('ux', ux, g * cyl_r(r, z, R) * cos(psi), scale=g)
        V.eq('uy', uy, g * cyl_r(r, z, R) * sin(psi), scale=g)
        V.eq('uz cartesian', uw, g * cyl_z(r, z, R, inside), scale=g)
        V.shape_is('ux shape', ux, X)
        V.unmodified()

    @scenario('C02', 'unguarded variant %s: same closed form' % w, contracts=[PI_CALL])
    def _(V, inside=inside):
        g, R = setup(V)
        r, psi, z = off(V, R, inside)
        X, Y, Z = cart(V, r, psi, z)
        ur, uz = V.call('VortexCylinder.cylinder_tang_semi_inf_u_raw', X, Y, Z, gamma_t=V.num(g), R=V.num(R))
        V.eq('ur', ur, g * cyl_r(r, z, R), scale=g)
        V.eq('uz', uz, g * cyl_z(r, z, R, inside), scale=g)
        V.shape_is('shape', ur, X)
        V.unmodified()


@scenario('C02', 'vc_tang_u on the axis', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    z = V.pvar('zz', sampler=uni(-6, 6)) * R
    X, Y, Z = V.cp(ZERO), V.cp(ZERO), V.cp(z)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R))
    V.eq('ur', ur, ZERO)
    V.eq('uz', uz, g * cyl_z_axis(z, R), scale=g)
    ux, uy, uw = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R), polar_out=False)
    V.eq('ux', ux, ZERO)
    V.eq('uy', uy, ZERO)
    V.eq('uz cartesian', uw, g * cyl_z_axis(z, R), scale=g)
    V.shape_is('shape', uw, X)
    V.unmodified()


@scenario('C02', 'vc_tang_u on the surface r=R: mean of the two sides', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    z = V.pvar('zz', sampler=signed(0.02, 6)) * R
    V.assume(lt(EPS * EPS, (z / R) ** 2))
    X, Y, Z = V.cp(R), V.cp(ZERO), V.cp(z)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R))
    V.eq('ur', ur, g * cyl_r(R, z, R), scale=g)
    V.eq('uz', uz, g * cyl_z_surface(z, R), scale=g)
    V.shape_is('shape', ur, X)
    V.unmodified()


@scenario('C02', 'vc_tang_u on the rim: axial velocity is a quarter of gamma, finite', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    psi = V.pvar('psi', sampler=lambda rng: rng.choice([0, 0, 3.141592653589793, 1.5707963267948966]))
    X, Y, Z = cart(V, R, psi, ZERO)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R))
    V.eq('uz', uz, g / 4, scale=g)
    V.finite('ur finite', ur)
    V.shape_is('shape', ur, X)
    V.unmodified()


@scenario('C02', 'vc_tang_u is finite at every point', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    r = V.pvar('s', 'nonneg', sampler=lambda rng: rng.choice([0, 1, 1, 1 + 1e-9, 1 - 1e-9, 1e-8, 1e-6, rng.uniform(0, 3), 10 ** rng.uniform(-9, 3)])) * R
    z = V.pvar('zz', sampler=lambda rng: rng.choice([0, 0, 1e-9, -1e-9, 1e-5, rng.uniform(-3, 3), rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 3)])) * R
    X, Y, Z = V.cp(r), V.cp(ZERO), V.cp(z)
    ur, uz = V.call(F, X, Y, Z, gamma_t=V.num(g), R=V.num(R))
    V.finite('ur', ur)
    V.finite('uz', uz)


for inside in (True, False):
    @scenario('C02', 'the closed form is the sum of the vortex rings of the sheet (%s)' % ('inside' if inside else 'outside'))
    def _(V, inside=inside):
        """d/dz of the returned field is the ring field, so that the field is the
        integral over the rings at z'>=0 (it vanishes far upstream)"""
        R = V.var('R', 'pos', sampler=logu(0.3, 70))
        r, psi, z = off(V, R, inside)
        V.eq('d ur/dz', dz(lambda q: cyl_r(r, q, R), z), ring_r(r, z, R))
        V.eq('d uz/dz', dz(lambda q: cyl_z(r, q, R, inside), z), ring_z(r, z, R))
        # the sheet and its continuation upstream form an infinite cylinder: 1 inside, 0 outside
        V.eq('infinite cylinder, axial', cyl_z(r, z, R, inside) + cyl_z(r, -z, R, inside), T(1 if inside else 0))


def dz(fn, z):
    q = var('dz!q')
    return subst(diff(fn(q), 'dz!q'), {'dz!q': z})


@scenario('C02', 'the field is proportional to the strength, regularised or not', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    r, psi, z = off(V, R)
    V.assume(or_(lt(EPS * R, absv(r - R)), lt(EPS * R, absv(z))))
    e = V.var('eps', 'pos', sampler=uni(0.01, 0.3))
    X, Y, Z = cart(V, r, psi, z)
    u = V.call(F, X, Y, Z, V.num(g), V.num(R), polar_out=False, epsilon=V.num(e))
    w = V.call(F, X, Y, Z, V.num(ONE), V.num(R), polar_out=False, epsilon=V.num(e))
    for n, a, b in zip(('ux', 'uy', 'uz'), u, w):
        V.eq(n, a, g * V.val(b), scale=g)
    V.unmodified()


@scenario('C02', 'regularisation leaves the field upstream of the rotor unchanged', contracts=[PI_CALL])
def _(V):
    g, R = setup(V)
    r, psi, z = off(V, R)
    V.assume(lt(z, -EPS * R))
    e = V.var('eps', 'pos', sampler=uni(0.01, 0.3))
    X, Y, Z = cart(V, r, psi, z)
    u = V.call(F, X, Y, Z, V.num(g), V.num(R), epsilon=V.num(e))
    w = V.call(F, X, Y, Z, V.num(g), V.num(R))
    V.eq('ur', u[0], w[0])
    V.eq('uz', u[1], w[1])
