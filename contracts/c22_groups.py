"""C22: groups of cylinders and rings.  The members are known by their
contracts only (velocity = strength x a field of position, radius, skew and the
options, see C02, C04, C07, C08, C09)."""
from ._common import *


def field3(fn, X, Y, Z):
    """elementwise field of three coordinate arrays of one shape"""
    from pyvc.sym import lift2, Num, to_num
    t = lift2(lambda a, b: a, lift2(lambda a, b: a, X, Y), Z)     # checks the shapes
    xs, ys, zs = (lift2(lambda a, b: a, q, t) for q in (X, Y, Z))
    if hasattr(t, 'elem'):
        return type(t)(t.space, Num(fn(to_num(xs.elem).t, to_num(ys.elem).t, to_num(zs.elem).t)), 'f')
    r = t.copy()
    for i in range(t.size):
        r.ravel()[i] = Num(fn(*(to_num(q.ravel()[i]).t for q in (xs, ys, zs))))
    return r


def member(qual, tag, comps, params, strength):
    """contract of a single member: strength * f(tag+comp, x, y, z, params)"""
    def apply(b):
        from pyvc.sym import lift2, Num, to_num
        from pyvc.npshim import np_asarray
        X, Y, Z = (np_asarray(b[k]) for k in ('Xcp', 'Ycp', 'Zcp'))
        s = to_num(b[strength]).t
        ps = [to_num(b[p]).t for p in params]
        names = comps(b)
        out = []
        for c in names:
            out.append(field3(lambda x, y, z, c=c: s * f(tag + c, x, y, z, *ps), X, Y, Z))
        return tuple(out)
    call_contract(qual)(apply)


CART = ('x', 'y', 'z')


def cart_or_polar(b, polar):
    p = b['polar_out']
    from pyvc.sym import B
    return polar if bool(p) else CART


TANG, LONGI = 'VortexCylinder.vc_tang_u', 'VortexCylinder.vc_longi_u'
STANG, SLONGI = 'VortexCylinderSkewed.svc_tang_u', 'VortexCylinderSkewed.svc_longi_u'
RING = 'VortexRing.ring_u'
member(TANG, 'vct_', lambda b: cart_or_polar(b, ('r', 'zz')), ['R', 'epsilon'], 'gamma_t')
member(LONGI, 'vcl_', lambda b: cart_or_polar(b, ('r', 'p', 'zz')), ['R'], 'gamma_l')
member(STANG, 'svt_', lambda b: cart_or_polar(b, ('r', 'p', 'zz')), ['R', 'm', 'ntheta'], 'gamma_t')
member(SLONGI, 'svl_', lambda b: cart_or_polar(b, ('r', 'p', 'zz')), ['R', 'm', 'ntheta'], 'gamma_l')
member(RING, 'rng_', lambda b: cart_or_polar(b, ('r', 'zz')), ['R', 'epsilon'], 'Gamma')


# numeric value of a member field on the concrete side: the member function
# itself, at unit strength (never used in a proof)
def _conc(tag, qual, build):
    for k, c in enumerate(CART):
        opaque(tag + c, lambda get, *a, k=k: build(get(qual), *a)[k])


def _a(v):
    import numpy as np
    return np.array([v])


_conc('vct_', TANG, lambda fn, x, y, z, R, e: fn(_a(x), _a(y), _a(z), 1, R, polar_out=False, epsilon=e))
_conc('vcl_', LONGI, lambda fn, x, y, z, R: fn(_a(x), _a(y), _a(z), 1, R, polar_out=False))
_conc('svt_', STANG, lambda fn, x, y, z, R, m, n: fn(_a(x), _a(y), _a(z), 1, R, m, int(n), polar_out=False))
_conc('svl_', SLONGI, lambda fn, x, y, z, R, m, n: fn(_a(x), _a(y), _a(z), 1, R, m, int(n), polar_out=False))
_conc('rng_', RING, lambda fn, x, y, z, R, e: fn(_a(x), _a(y), _a(z), 1, R, polar_out=False, epsilon=e))
opaque('rng_r', lambda get, x, y, z, R, e: get(RING)(_a(x), _a(y), _a(z), 1, R, epsilon=e)[0])
opaque('rng_zz', lambda get, x, y, z, R, e: get(RING)(_a(x), _a(y), _a(z), 1, R, epsilon=e)[1])


def group(name, qual, tag, strength, single, skew=False, ground=False, eps=False, mirror=True, longi=False):
    @scenario('C22', name + (' with ground effect' if ground else ''), contracts=[single], symbolic_calls=True, member=(single, strength))
    def _(V):
        nC, nR = V.ivar('nC', 1, 3), V.ivar('nr', 1, 4)
        x, y, z = (V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz')
        X, Y, Z = V.cp(x), V.cp(y), V.cp(z)
        G = V.grid('Gm', nC, nR, sampler=lambda rng: rng.choice([0, 1, 1, 1]) * rng.uniform(-2, 2))
        Rr = V.grid('Rd', nC, nR, pos=True, sampler=lambda rng: rng.uniform(0.5, 2))
        c = [V.dim(n, nC, owner=n) for n in ('Xc', 'Yc', 'Zc')]
        kw = {}
        pos = [X, Y, Z, G, Rr]
        if skew:
            M = V.grid('Mm', nC, nR, sampler=lambda rng: rng.uniform(-1, 1))
            pos.append(M)
            nt = V.ivar('nt', 3, 9)
            kw['ntheta'] = V.inum(nt)
        if eps:
            e = V.var('eps', 'nonneg', sampler=lambda rng: rng.choice([0, 0, 0.1]))
            kw['epsilon'] = V.num(e)
        if ground or not longi:
            kw['Ground'] = ground
        u = V.call(qual, *(pos + c), **kw)

        def term(comp, sgn, i, j):
            a = [x - sel('Xc', i), y - sgn * sel('Yc', i), z - sel('Zc', i), sel('Rd', i, j)]
            if skew:
                a += [sel('Mm', i, j), nt]
            elif eps:
                a += [e]
            return sel('Gm', i, j) * f(tag + comp, *a)
        for k, comp in enumerate(CART):
            def tot(i):
                t = V.sum(ZERO, nR - 1, lambda j: term(comp, 1, i, j))
                if ground and mirror:
                    t = t + V.sum(ZERO, nR - 1, lambda j: term(comp, -1, i, j))
                return t
            V.eq('u' + comp, u[k], V.sum(ZERO, nC - 1, tot))
            V.shape_is('shape ' + comp, u[k], X)
        V.unmodified()


group('straight tangential cylinders', 'VortexCylinder.vcs_tang_u', 'vct_', 'gamma_t', TANG, eps=True)
group('straight tangential cylinders', 'VortexCylinder.vcs_tang_u', 'vct_', 'gamma_t', TANG, eps=True, ground=True)
group('straight longitudinal cylinders', 'VortexCylinder.vcs_longi_u', 'vcl_', 'gamma_l', LONGI, longi=True)
group('skewed tangential cylinders', 'VortexCylinderSkewed.svcs_tang_u', 'svt_', 'gamma_t', STANG, skew=True)
group('skewed tangential cylinders', 'VortexCylinderSkewed.svcs_tang_u', 'svt_', 'gamma_t', STANG, skew=True, ground=True)
group('skewed longitudinal cylinders', 'VortexCylinderSkewed.svcs_longi_u', 'svl_', 'gamma_l', SLONGI, skew=True, longi=True)
group('skewed longitudinal cylinders', 'VortexCylinderSkewed.svcs_longi_u', 'svl_', 'gamma_l', SLONGI, skew=True, ground=True, longi=True)


for polar in (True, False):
    @scenario('C22', 'rings, %s output' % ('polar' if polar else 'Cartesian'), contracts=[RING])
    def _(V, polar=polar):
        n = V.ivar('n', 1, 5)
        x, y, z = (V.pvar(q, sampler=uni(-4, 4)) for q in 'xyz')
        X, Y, Z = V.cp(x), V.cp(y), V.cp(z)
        G = V.dim('Gm', n, owner='Gamma_r', sampler=lambda rng, i: rng.choice([0, 1, 1, 1]) * rng.uniform(-2, 2))
        Rr = V.dim('Rd', n, owner='Rr', pos=True, sampler=lambda rng, i: rng.uniform(0.5, 2))
        c = [V.dim(q, n, owner=q) for q in ('Xc', 'Yc', 'Zc')]
        e = V.var('eps', 'nonneg', sampler=lambda rng: rng.choice([0, 0, 0.1]))
        u = V.call('VortexRing.rings_u', X, Y, Z, G, Rr, *c, polar_out=polar, epsilon=V.num(e))
        for k, comp in enumerate(('r', 'zz') if polar else CART):
            V.eq('u' + comp, u[k], V.sum(ZERO, n - 1, lambda i: sel('Gm', i) * f('rng_' + comp, x - sel('Xc', i), y - sel('Yc', i), z - sel('Zc', i), sel('Rd', i), e)))
            V.shape_is('shape ' + comp, u[k], X)
        V.unmodified()
