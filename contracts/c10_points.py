"""C10: two-dimensional vortex points."""
from ._common import *

TWO_PI = 2 * PI


def fE(model, order, x):
    if model == 1 or order == 2:
        return exp(-x)
    return exp(-x / 2)


def kern(model, order, x):
    q = {(1, 2): [1], (1, 4): [1, -1], (1, 6): [1, -2, Q(1, 2)], (1, 8): [1, -3, Q(3, 2), Q(-1, 6)],
         (2, 2): [1], (2, 4): [1, Q(-1, 2)], (2, 6): [1, -1, Q(1, 8)], (2, 8): [1, Q(-3, 2), Q(3, 8), Q(-1, 48)],
         (2, 10): [1, -2, Q(3, 4), Q(-1, 12), Q(1, 384)]}[(model, order)]
    r = ZERO
    for i, c in enumerate(q):
        r = r + T(c) * x ** i
    return r


@scenario('C10', 'one vortex: singular kernel, finite away from the vortex')
def _(V):
    G = V.var('G', sampler=uni(-3, 3))
    d = [V.var('dx', sampler=uni(-3, 3)), V.var('dy', sampler=uni(-3, 3))]
    p = [V.var('px', sampler=uni(-3, 3)), V.var('py', sampler=uni(-3, 3))]
    r2 = d[0] ** 2 + d[1] ** 2
    V.assume(lt(Q(1, 10 ** 6), r2))
    u, v = V.call('VortexPoint.vp_u', V.vec([p[0] + d[0], p[1] + d[1]], owner='CP'), V.vec(p, owner='Pv'), Gamma=V.num(G))
    V.eq('u', u, -G * d[1] / (TWO_PI * r2))
    V.eq('v', v, G * d[0] / (TWO_PI * r2))
    V.unmodified()


@scenario('C10', 'one vortex: viscous core')
def _(V):
    G = V.var('G', sampler=uni(-3, 3))
    d = [V.var('dx', sampler=uni(-3, 3)), V.var('dy', sampler=uni(-3, 3))]
    p = [V.var('px', sampler=uni(-3, 3)), V.var('py', sampler=uni(-3, 3))]
    rc = V.var('rc', 'pos', sampler=uni(0.2, 2))
    r2 = d[0] ** 2 + d[1] ** 2
    V.assume(lt(Q(1, 10 ** 6), r2))
    u, v = V.call('VortexPoint.vp_u', V.vec([p[0] + d[0], p[1] + d[1]], owner='CP'), V.vec(p, owner='Pv'), Gamma=V.num(G), rcore=V.num(rc), bViscous=True)
    s = 1 - exp(-r2 / rc ** 2)
    V.eq('u', u, -G * d[1] / (TWO_PI * r2) * s)
    V.eq('v', v, G * d[0] / (TWO_PI * r2) * s)
    V.unmodified()


def group(model, order, ndim=2):
    @scenario('C10', 'set of vortices: sum of the kernels (model %d, order %d, %d-D rows)' % (model, order, ndim), nocanary=(model, order) != (0, 2))
    def _(V):
        ncp = V.ivar('ncp', 1, 4)
        nv = V.ivar('nv', 1, 5)
        CP = V.rows('CP', ncp, ndim)
        XV = V.rows('XV', nv, ndim)
        Gm = V.dim('Gam', nv, owner='Gammas')
        sig = V.dim('sig', nv, owner='SmoothParam', pos=True, sampler=lambda rng, i: rng.uniform(0.3, 2))
        U = V.call('VortexPoint.vps_u', CP, XV, Gm, SmoothModel=model, KernelOrder=order, SmoothParam=(None if model == 0 else sig))
        g = V.obs(U)
        i = V.index('i', 0, ncp - 1)

        def dx(j): return sel('CP', i, 0) - sel('XV', j, 0)
        def dy(j): return sel('CP', i, 1) - sel('XV', j, 1)

        def term(j, num):
            r2 = dx(j) ** 2 + dy(j) ** 2
            w = ONE
            if model:
                x = r2 / sel('sig', j) ** 2
                w = 1 - kern(model, order, x) * fE(model, order, x)
            return ite(lt(r2, T(Q(1, 10 ** 15))), ZERO, sel('Gam', j) / TWO_PI * num / r2 * w)
        V.eq('u', g(i, 0), V.sum(ZERO, nv - 1, lambda j: term(j, -dy(j))))
        V.eq('v', g(i, 1), V.sum(ZERO, nv - 1, lambda j: term(j, dx(j))))
        if ndim == 3:
            V.eq('w', g(i, 2), ZERO)
        V.unmodified()


group(0, 2)
group(0, 2, 3)
for o in (2, 4, 6, 8):
    group(1, o)
for o in (2, 4, 6, 8, 10):
    group(2, o)
