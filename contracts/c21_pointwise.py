"""C21: the fields are pointwise and shape preserving.

Relational contracts: the value at a generic position of an array of any shape
and any other points equals the value of a call with that point alone; every
component has the shape of the control points; integer coordinates give what
the same coordinates give as floats; an empty array gives empty arrays; nothing
is stored through a view whose existence depends on the memory order."""
from ._common import *
from ._fields import FIELDS, Args, regions, MARGIN, SV

VC_ = 'VortexCylinder.'


def cost(fd, reg):
    o = dict(path=dict(tidy=True, z3_ms=1500), budget=300) if fd.dom in ('filament', 'line') else dict(path=dict(z3_ms=250))
    o['cost'] = 9 if fd.key == 'doublet_line_u finite' else 3 if fd.dom or fd.n else 1
    return o


for fd in FIELDS:
    for reg in regions(fd):
        if fd.dom == 'filament' and reg == 'axis':
            continue            # C08: the branch is decided by the machine epsilon
        if fd.key == 'doublet_line_u_num':
            continue            # C06: the sum of the point doublets at a generic position

        @scenario('C21', '%s at one point and in an array, %s' % (fd.key, reg), contracts=[PI_CALL], **cost(fd, reg))
        def _(V, fd=fd, reg=reg):
            a = Args(V, fd, reg)
            X = [V.cp(t) for t in a.coords()]
            u = a.call(X)
            w = V.alone(a.call, *a.coords())
            V.true('components', len(u) == len(w))
            for i in range(len(u)):
                V.shape_is('shape %d' % i, u[i], X[0])
                V.finite('finite %d' % i, u[i])
                V.eq('component %d' % i, u[i], V.val(w[i]), scale=a.g)
            V.no_layout('memory order')


def integer(V, name, lo, hi):          # sampled as integers, proved for all values
    return V.pvar(name, lo=lo if lo > 0 else None, sampler=lambda rng: rng.randint(lo, hi))


for fd in FIELDS:
    @scenario('C21', '%s at integer coordinates' % fd.key, contracts=[PI_CALL], **cost(fd, None))
    def _(V, fd=fd):
        a = Args(V, fd, None)
        if fd.pts == 'rz':
            t = [integer(V, 'ir', 1, 5), integer(V, 'iz', 1, 5)]
            r2 = t[0] ** 2
        elif fd.pts == 'cyl':
            t = [integer(V, 'ir', 1, 5), integer(V, 'ipsi', -3, 3), integer(V, 'iz', 1, 5)]
            r2 = t[0] ** 2
        else:
            t = [integer(V, 'ix', 1, 4), integer(V, 'iy', *((1, 4) if fd.dom == 'line' else (-3, 3))), integer(V, 'iz', 1, 5)]
            r2 = t[0] ** 2 + t[1] ** 2
        if fd.dom == 'line':
            a.x, a.off = t, t[1]
            a.away(ONE)
        for n in ('R', 'r0'):
            if n in a.p:
                V.assume(lt(a.p[n] ** 2 * (1 + MARGIN), r2))
        for k in ('z0', 'z1', 'z2', 'L', 'zmax'):
            if k in a.p:
                V.assume(lt(MARGIN, absv(t[-1] - a.p[k])))
        X = [V.cp(x, dt='i') for x in t]
        u = a.call(X)
        w = a.call([V.cp(x) for x in t])
        V.no_truncation('nothing truncated')
        for i in range(len(u)):
            V.shape_is('shape %d' % i, u[i], X[0])
            V.eq('component %d' % i, u[i], V.val(w[i]), scale=a.g)


for fd in FIELDS:
    @scenario('C21', '%s of no points' % fd.key, contracts=[PI_CALL], n=3)
    def _(V, fd=fd):
        a = Args(V, fd, None)
        u = a.call([V.vec([]) for _ in range(3 if fd.pts in ('cart', 'cyl') else 2)])
        for i, x in enumerate(u):
            V.fact('component %d is empty' % i, getattr(x, 'shape', None) == (0,), 'shape %s' % (getattr(x, 'shape', None),))


# ------------------------------------------------- groups and the turbine
from .c22_groups import TANG, LONGI, STANG, SLONGI, RING
from .c15_turbine import Rig, MEMBERS

for name, qual, single, skew in (('vcs_tang_u', VC_ + 'vcs_tang_u', TANG, False), ('vcs_longi_u', VC_ + 'vcs_longi_u', LONGI, False),
                                 ('svcs_tang_u', SV + 'svcs_tang_u', STANG, True), ('svcs_longi_u', SV + 'svcs_longi_u', SLONGI, True)):
    for ground in (False, True):
        if ground and name == 'vcs_longi_u':
            continue

        @scenario('C21', '%s%s: integer coordinates, memory order' % (name, ' with ground effect' if ground else ''), contracts=[single])
        def _(V, qual=qual, skew=skew, ground=ground):
            nR = V.ivar('nr', 1, 3)
            t = [integer(V, n, -3, 3) for n in ('ix', 'iy', 'iz')]
            g = [V.grid('Gm', ONE, nR, sampler=uni(-2, 2)), V.grid('Rd', ONE, nR, pos=True, sampler=uni(0.5, 2))]
            if skew:
                g.append(V.grid('Mm', ONE, nR, sampler=uni(-1, 1)))
            c = [V.dim(n, ONE, owner=n) for n in ('Xc', 'Yc', 'Zc')]
            kw = dict(ntheta=V.inum(V.ivar('nt', 3, 9))) if skew else {}
            if ground:
                kw['Ground'] = True
            X = [V.cp(x, dt='i') for x in t]
            u = V.call(qual, *X, *g, *c, **kw)
            w = V.call(qual, *[V.cp(x) for x in t], *g, *c, **kw)
            for i in range(3):
                V.shape_is('shape %d' % i, u[i], X[0])
                V.eq('component %d' % i, u[i], V.val(w[i]))
            V.no_truncation('nothing truncated')
            V.no_layout('memory order')


for ground in (False, True):
    @scenario('C21', 'turbine%s: integer coordinates, no points, memory order' % (' with ground effect' if ground else ''), contracts=MEMBERS)
    def _(V, ground=ground):
        rig = Rig(V, 'zero', Ground=ground) if ground else Rig(V, 'zero')
        t = [integer(V, n, -200, 200) for n in ('ix', 'iy', 'iz')]
        X = [V.cp(x, dt='i') for x in t]
        u = V.method(rig.o, 'compute_u', *X, longi=True, root=True)
        w = V.method(rig.o, 'compute_u', *[V.cp(x) for x in t], longi=True, root=True)
        for i in range(3):
            V.shape_is('shape %d' % i, u[i], X[0])
            V.eq('component %d' % i, u[i], V.val(w[i]))
        V.no_truncation('nothing truncated')
        V.no_layout('memory order')
        e = V.method(rig.o, 'compute_u', *[V.vec([]) for _ in range(3)], longi=True, root=True)
        for i in range(3):
            V.fact('no points %d' % i, getattr(e[i], 'shape', None) == (0,), 'shape %s' % (getattr(e[i], 'shape', None),))
