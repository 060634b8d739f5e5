"""C04: vortex rings."""
from ._common import *
from pyvc.terms import diff, subst, var

EPS = Q(1, 10 ** 6)


def ring_r(r, z, R):
    """radial velocity of a unit ring of radius R at the origin"""
    a2 = (R + r) ** 2 + z * z
    m = 4 * r * R / a2
    return z / (2 * PI * r * sqrt(a2)) * (-K(m) + (R * R + r * r + z * z) / ((R - r) ** 2 + z * z) * E(m))


def ring_z(r, z, R):
    a2 = (R + r) ** 2 + z * z
    m = 4 * r * R / a2
    return 1 / (2 * PI * sqrt(a2)) * (K(m) + (R * R - r * r - z * z) / ((R - r) ** 2 + z * z) * E(m))


def common(V):
    G = V.var('G', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=uni(0.3, 4))
    return G, R


def offaxis(V, R):
    r = V.pvar('r', 'pos', sampler=logu(0.02, 8))
    z = V.pvar('z', sampler=uni(-4, 4))
    V.assume(r >= EPS * R)
    V.assume(or_(lt(EPS * R, absv(r - R)), lt(EPS * (1 + R), absv(z))))
    return r, z


@scenario('C04', 'ring_u_polar_singular: closed form off the axis')
def _(V):
    G, R = common(V)
    r, z = offaxis(V, R)
    a, b = V.cp(r), V.cp(z)
    ur, uz = V.call('VortexRing.ring_u_polar_singular', a, b, Gamma=V.num(G), r0=V.num(R))
    V.eq('ur', ur, G * ring_r(r, z, R))
    V.eq('uz', uz, G * ring_z(r, z, R))
    V.shape_is('shape', ur, a)
    V.unmodified()


@scenario('C04', 'ring_u_polar_singularb: closed form off the axis')
def _(V):
    G, R = common(V)
    r, z = offaxis(V, R)
    ur, uz = V.call('VortexRing.ring_u_polar_singularb', V.cp(r), V.cp(z), Gamma=V.num(G), r0=V.num(R))
    V.eq('ur', ur, G * ring_r(r, z, R))
    V.eq('uz', uz, G * ring_z(r, z, R))
    V.unmodified()


@scenario('C04', 'ring_u_polar: closed form off the axis, ring at z0')
def _(V):
    G, R = common(V)
    r, z = offaxis(V, R)
    z0 = V.var('z0', sampler=uni(-2, 2))
    a = V.cp(r)
    ur, uz = V.call('VortexRing.ring_u_polar', a, V.cp(z + z0), Gamma=V.num(G), r0=V.num(R), z0=V.num(z0))
    V.eq('ur', ur, G * ring_r(r, z, R))
    V.eq('uz', uz, G * ring_z(r, z, R))
    V.shape_is('shape', ur, a)
    V.unmodified()


@scenario('C04', 'ring_u_polar and ring_u: axis value')
def _(V):
    G, R = common(V)
    z = V.pvar('z', sampler=uni(-4, 4))
    z0 = V.var('z0', sampler=uni(-2, 2))
    ur, uz = V.call('VortexRing.ring_u_polar', V.cp(ZERO), V.cp(z + z0), Gamma=V.num(G), r0=V.num(R), z0=V.num(z0))
    spec = G / (2 * R) * (1 + (z / R) ** 2) ** Q(-3, 2)
    V.eq('ur', ur, ZERO)
    V.eq('uz', uz, spec)
    ur, uz = V.call('VortexRing.ring_u', V.cp(ZERO), V.cp(ZERO), V.cp(z), Gamma=V.num(G), R=V.num(R))
    V.eq('ur cart', ur, ZERO)
    V.eq('uz cart', uz, spec)
    ux, uy, uz = V.call('VortexRing.ring_u', V.cp(ZERO), V.cp(ZERO), V.cp(z), Gamma=V.num(G), R=V.num(R), polar_out=False)
    V.eq('ux cart', ux, ZERO)
    V.eq('uy cart', uy, ZERO)
    V.eq('uz cart2', uz, spec)


@scenario('C04', 'ring_u: closed form off the axis, polar output')
def _(V):
    G, R = common(V)
    r, z = offaxis(V, R)
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    X = V.cp(r * cos(psi))
    ur, uz = V.call('VortexRing.ring_u', X, V.cp(r * sin(psi)), V.cp(z), Gamma=V.num(G), R=V.num(R))
    V.eq('ur', ur, G * ring_r(r, z, R))
    V.eq('uz', uz, G * ring_z(r, z, R))
    V.shape_is('shape', ur, X)
    V.unmodified()


@scenario('C04', 'ring_u: Cartesian output is the same vector')
def _(V):
    G, R = common(V)
    r, z = offaxis(V, R)
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    ux, uy, uz = V.call('VortexRing.ring_u', V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z), Gamma=V.num(G), R=V.num(R), polar_out=False)
    V.eq('ux', ux, G * ring_r(r, z, R) * cos(psi))
    V.eq('uy', uy, G * ring_r(r, z, R) * sin(psi))
    V.eq('uz', uz, G * ring_z(r, z, R))
    V.unmodified()


@scenario('C04', 'the ring field is solenoidal and irrotational (lemma on the closed form)')
def _(V):
    R = V.var('R', 'pos', sampler=uni(0.3, 4))
    r, z = offaxis(V, R)
    V.assume(lt(EPS * R, absv(r - R)))
    ur, uz = ring_r(r, z, R), ring_z(r, z, R)
    V.eq('divergence', diff(ur, 'r') + ur / r + diff(uz, 'z'), ZERO)
    V.eq('curl', diff(ur, 'z') - diff(uz, 'r'), ZERO)


@scenario('C04', 'empty set of control points')
def _(V):
    G, R = common(V)
    e = V.vec([])
    r = V.call('VortexRing.ring_u', e, e, e, Gamma=V.num(G), R=V.num(R))
    V.fact('polar: two empty arrays', len(r) == 2 and all(x.shape == (0,) for x in r))
    r = V.call('VortexRing.ring_u', e, e, e, Gamma=V.num(G), R=V.num(R), polar_out=False)
    V.fact('cartesian: three empty arrays', len(r) == 3 and all(x.shape == (0,) for x in r))


for _meth in ('Saffman', 'linear'):
    @scenario('C04', 'ring_u_polar with %s core: singular field outside of the core' % _meth)
    def _(V, meth=_meth):
        G, R = common(V)
        eps = V.var('eps', 'pos', sampler=uni(0.01, 0.2))
        r, z = offaxis(V, R)
        V.assume(lt(eps, R))
        V.assume(ge((r - R) ** 2 + z * z, eps * eps / 4))
        z0 = V.var('z0', sampler=uni(-2, 2))
        a = V.cp(r)
        ur, uz = V.call('VortexRing.ring_u_polar', a, V.cp(z + z0), Gamma=V.num(G), r0=V.num(R), z0=V.num(z0), epsilon=V.num(eps), reg_method=meth)
        V.eq('ur', ur, G * ring_r(r, z, R))
        V.eq('uz', uz, G * ring_z(r, z, R))
        V.shape_is('shape', ur, a)
        V.unmodified()

    @scenario('C04', 'ring_u_polar with %s core: inside of the core, proportional to the circulation' % _meth)
    def _(V, meth=_meth):
        G, R = common(V)
        eps = V.var('eps', 'pos', sampler=uni(0.01, 0.2))
        d = V.pvar('d', sampler=uni(0, 0.0045))
        t = V.pvar('t', sampler=uni(-3, 3))
        V.assume(lt(eps, R))
        V.assume(ge(d, ZERO))
        V.assume(lt(d, eps / 2))
        r, z = R + d * cos(t), d * sin(t)
        kw = dict(r0=V.num(R), epsilon=V.num(eps), reg_method=meth)
        ur, uz = V.call('VortexRing.ring_u_polar', V.cp(r), V.cp(z), Gamma=V.num(G), **kw)
        ur1, uz1 = V.call('VortexRing.ring_u_polar', V.cp(r), V.cp(z), Gamma=1, **kw)
        V.eq('ur', ur, G * V.val(ur1))
        V.eq('uz', uz, G * V.val(uz1))
        V.finite('uz finite', uz)
        V.unmodified()


@scenario('C04', 'ring_u with a core: singular field outside, proportional to the circulation inside')
def _(V):
    G, R = common(V)
    eps = V.var('eps', 'pos', sampler=uni(0.01, 0.2))
    r, z = offaxis(V, R)
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    kw = dict(R=V.num(R), epsilon=V.num(eps))
    ur, uz = V.call('VortexRing.ring_u', V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z), Gamma=V.num(G), **kw)
    V.eq('ur', ur, G * ring_r(r, z, R))
    V.eq('uz', uz, G * ring_z(r, z, R))
    ur, uz = V.call('VortexRing.ring_u', V.cp(R), V.cp(ZERO), V.cp(ZERO), Gamma=V.num(G), **kw)
    ur1, uz1 = V.call('VortexRing.ring_u', V.cp(R), V.cp(ZERO), V.cp(ZERO), Gamma=1, **kw)
    V.eq('ur core', ur, ZERO)
    V.eq('uz core', uz, G * V.val(uz1))
    V.unmodified()


@scenario('C04', 'ring_u_polar and ring_u on the singular core itself: finite, no radial velocity, proportional to the circulation')
def _(V):
    G, R = common(V)
    ur, uz = V.call('VortexRing.ring_u_polar', V.cp(R), V.cp(ZERO), Gamma=V.num(G), r0=V.num(R))
    V.eq('ur', ur, ZERO)
    V.eq('uz', uz, G / (4 * R))
    ur, uz = V.call('VortexRing.ring_u', V.cp(R), V.cp(ZERO), V.cp(ZERO), Gamma=V.num(G), R=V.num(R))
    V.eq('ur cart', ur, ZERO)
    V.eq('uz cart', uz, G / (4 * R))
