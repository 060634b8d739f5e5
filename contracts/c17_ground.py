"""C17: ground effect.

Every rotor gets an image at twice its height below it; by the mirror symmetry
of the straight tangential cylinder (ux = x F(rho^2,z), uy = y F(rho^2,z),
uz = G(rho^2,z): proved under C02, where the Cartesian output is shown to be
(ur cos psi, ur sin psi, uz) of the polar closed form in r and z) the field of
rotor and image is mirror-symmetric about the ground and does not cross it."""
from ._common import *
from pyvc import terms as tm
from .c14_pose import WT, dot
from .c22_groups import CART, TANG, LONGI, STANG, SLONGI, field3
from .c15_turbine import Rig, local, multi, several, MEMBERS, GROUPS

opaque('symF', None)
opaque('symG', None)


def symmetric(V):
    """contract of vc_tang_u as far as its symmetry goes"""
    def apply(b):
        from pyvc.sym import to_num
        from pyvc.npshim import np_asarray
        if bool(b['polar_out']):
            from pyvc.ctx import Unsupported
            raise Unsupported('polar output')
        X, Y, Z = (np_asarray(b[k]) for k in ('Xcp', 'Ycp', 'Zcp'))
        g, R, e = (to_num(b[k]).t for k in ('gamma_t', 'R', 'epsilon'))
        F = lambda x, y, z: f('symF', x * x + y * y, z, R, e)
        return (field3(lambda x, y, z: g * x * F(x, y, z), X, Y, Z), field3(lambda x, y, z: g * y * F(x, y, z), X, Y, Z),
                field3(lambda x, y, z: g * f('symG', x * x + y * y, z, R, e), X, Y, Z))
    V.contract(TANG, apply)


for skewed in (False, True):
    for sel_ in ((True, False, False), (False, True, False), (False, False, True)):
        for how in ('argument', 'attribute'):
            @scenario('C17', '%s wake, %s: rotor and image, ground by %s' % ('skewed' if skewed else 'straight', '+'.join(n for n, b in zip(('tangential', 'longitudinal', 'root'), sel_) if b), how), contracts=MEMBERS)
            def _(V, skewed=skewed, sel_=sel_, how=how):
                rig = Rig(V, 'set' if skewed else 'zero', **(dict(Ground=True) if how == 'attribute' else {}))
                if skewed:
                    V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
                P = rig.point(V)
                kw = dict(tang=sel_[0], longi=sel_[1], root=sel_[2])
                u = V.method(rig.o, 'compute_u', *P, **(dict(kw, ground=True) if how == 'argument' else kw))
                a, b = local(rig, skewed, *sel_), local(rig, skewed, *sel_, yimg=2 * dot(rig.v, rig.H))
                w = rig.back([p + q for p, q in zip(a, b)])
                for i in range(3):
                    V.eq('u' + 'xyz'[i], u[i], w[i])
                    V.shape_is('shape', u[i], P[i])
                V.unmodified()
                if how == 'attribute':
                    u = V.method(rig.o, 'compute_u', *P, ground=False, **kw)
                    w = rig.back(a)
                    for i in range(3):
                        V.eq('without ground u' + 'xyz'[i], u[i], w[i])


@scenario('C17', 'one turbine, one cylinder: no flow through the ground')
def _(V):
    symmetric(V)
    rig = Rig(V, 'zero')
    rig.point(V)
    X = [x - dot(rig.v, rig.X) * v for x, v in zip(rig.X, rig.v)]     # on the ground
    u = V.method(rig.o, 'compute_u', *[V.cp(t) for t in X], ground=True, only_ind=True)
    V.eq('normal velocity', dot(rig.v, [V.val(a) for a in u]), ZERO, scale=ONE)


@scenario('C17', 'one turbine, one cylinder: mirror-symmetric field')
def _(V):
    symmetric(V)
    rig = Rig(V, 'zero')
    P = rig.point(V)
    M = [x - 2 * dot(rig.v, rig.X) * v for x, v in zip(rig.X, rig.v)]
    u = [V.val(a) for a in V.method(rig.o, 'compute_u', *P, ground=True, only_ind=True)]
    w = [V.val(a) for a in V.method(rig.o, 'compute_u', *[V.cp(t) for t in M], ground=True, only_ind=True)]
    d = [p - q for p, q in zip(u, w)]
    for i in range(3):
        V.eq('mirror image ' + 'xyz'[i], w[i], u[i] - 2 * dot(rig.v, u) * rig.v[i], scale=ONE)


@scenario('C17', 'one turbine, several cylinders: no flow through the ground', symbolic_calls=True)
def _(V):
    symmetric(V)
    rig = Rig(V, 'zero')
    several(V, rig)
    rig.point(V)
    X = [x - dot(rig.v, rig.X) * v for x, v in zip(rig.X, rig.v)]
    u = V.method(rig.o, 'compute_u', *[V.cp(t) for t in X], ground=True, only_ind=True)
    V.eq('normal velocity', dot(rig.v, [V.val(a) for a in u]), ZERO, scale=ONE)


def rotors(V):
    nC, nR = V.ivar('nC', 1, 3), V.ivar('nr', 1, 4)
    x, y, z = (V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz')
    G = V.grid('Gm', nC, nR, sampler=lambda rng: rng.choice([0, 1, 1, 1]) * rng.uniform(-2, 2))
    Rr = V.grid('Rd', nC, nR, pos=True, sampler=lambda rng: rng.uniform(0.5, 2))
    c = [V.dim(n, nC, owner=n) for n in ('Xc', 'Yc', 'Zc')]
    return x, y, z, G, Rr, c


GRP = 'VortexCylinder.vcs_tang_u'


@scenario('C17', 'several rotors: no flow through the ground', symbolic_calls=True)
def _(V):
    symmetric(V)
    x, y, z, G, Rr, c = rotors(V)
    u = V.call(GRP, V.cp(x), V.cp(ZERO), V.cp(z), G, Rr, *c, Ground=True)
    V.eq('normal velocity', u[1], ZERO, scale=ONE)


@scenario('C17', 'several rotors: mirror-symmetric field', symbolic_calls=True)
def _(V):
    symmetric(V)
    x, y, z, G, Rr, c = rotors(V)
    u = V.call(GRP, V.cp(x), V.cp(y), V.cp(z), G, Rr, *c, Ground=True)
    w = V.call(GRP, V.cp(x), V.cp(-y), V.cp(z), G, Rr, *c, Ground=True)
    for k, s in enumerate((1, -1, 1)):
        V.eq('mirror image ' + 'xyz'[k], w[k], s * V.val(u[k]), scale=ONE)
