"""C24: dimensional consistency of the elementary solutions.

Relational contracts (two calls of the same function): with every length
multiplied by k > 0 the velocity is multiplied by k^p (p = 0 for cylinders and
the self-similar model, -1 for rings and filaments, -2 for doublet lines, -3
for point doublets), and the velocity of strength g is g times that of unit
strength; at g = 0 it is zero."""
from ._common import *
from ._fields import FIELDS, Args, regions, MARGIN
from .c09_longi import unit

SKIP = ('doublet_line_u_num', 'doublet_line_polar_u_num')       # sums of point doublets cut off at an absolute distance


for fd in FIELDS:
    if fd.key in SKIP:
        continue
    for reg in regions(fd):
        if fd.dom == 'filament' and reg == 'axis':
            continue            # C08: the branch is decided by the machine epsilon
        opts = dict(path=dict(tidy=True, z3_ms=1500)) if fd.dom in ('filament', 'line') else dict(path=dict(z3_ms=250))
        if reg == 'surface':
            opts.update(n=0, symonly=True)          # k*R*cos(psi), k*R*sin(psi) is not on the surface in floating point
        opts['cost'] = 9 if fd.key == 'doublet_line_u finite' else 3 if fd.dom or fd.n else 1

        @scenario('C24', 'scaling of %s, %s' % (fd.key, reg), contracts=[PI_CALL], **opts)
        def _(V, fd=fd, reg=reg):
            a = Args(V, fd, reg)
            k = V.var('k', 'pos', sampler=logu(0.1, 20))
            V.assume(le(Q(1, 100), k))
            a.away(k)
            u = a.call([V.cp(t) for t in a.coords()])
            w = a.call([V.cp(t) for t in a.coords(k)], k)
            V.true('components', len(u) == len(w))
            for i in range(len(u)):
                V.eq('component %d' % i, w[i], k ** fd.power * V.val(u[i]), scale=a.g)

        @scenario('C24', 'strength of %s, %s' % (fd.key, reg), contracts=[PI_CALL], **opts)
        def _(V, fd=fd, reg=reg):
            a = Args(V, fd, reg)
            P = [V.cp(t) for t in a.coords()]
            u = a.call(P)
            w = a.call(P, g=ONE)
            V.true('components', len(u) == len(w))
            for i in range(len(u)):
                V.eq('component %d' % i, u[i], a.g * V.val(w[i]), scale=a.g)


# ------------------------------------------------ other signatures
def scale(V):
    k = V.var('k', 'pos', sampler=logu(0.1, 20))
    V.assume(le(Q(1, 100), k))
    return k


@scenario('C24', 'scaling of doublet_u')
def _(V):
    k = scale(V)
    d = [V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz']
    m = [V.var('m%d' % i, sampler=uni(-3, 3)) for i in range(3)]
    p = [V.var('p%d' % i, sampler=uni(-2, 2)) for i in range(3)]
    n2 = d[0] ** 2 + d[1] ** 2 + d[2] ** 2
    V.assume(le(MARGIN, n2 ** Q(3, 2)))
    V.assume(le(MARGIN, k ** 3 * n2 ** Q(3, 2)))
    u = V.call('VortexDoublet.doublet_u', *[V.cp(a + b) for a, b in zip(d, p)], V.vec(m), x0=V.vec(p))
    w = V.call('VortexDoublet.doublet_u', *[V.cp(k * (a + b)) for a, b in zip(d, p)], V.vec(m), x0=V.vec([k * b for b in p]))
    for i in range(3):
        V.eq('component %d' % i, w[i], k ** -3 * V.val(u[i]))


@scenario('C24', 'strength of doublet_u')
def _(V):
    g, h = V.var('g', sampler=uni(-3, 3)), V.var('h', sampler=uni(-3, 3))
    x = [V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz']
    m = [V.var('m%d' % i, sampler=uni(-3, 3)) for i in range(3)]
    q = [V.var('q%d' % i, sampler=uni(-3, 3)) for i in range(3)]
    p = [V.var('p%d' % i, sampler=uni(-2, 2)) for i in range(3)]
    X = [V.cp(t) for t in x]

    def at(v):
        return V.call('VortexDoublet.doublet_u', *X, V.vec(v), x0=V.vec(p))
    u, a, b = at([g * i + h * j for i, j in zip(m, q)]), at(m), at(q)
    for i in range(3):
        V.eq('component %d' % i, u[i], g * V.val(a[i]) + h * V.val(b[i]))


for visc in (0, 1, 2, 3, 5):
    @scenario('C24', 'scaling and strength of vl_semiinf_u, core model %d' % visc)
    def _(V, visc=visc):
        k, g = scale(V), V.var('g', sampler=uni(-3, 3))
        a = [V.var('a%d' % i, sampler=uni(-4, 4)) for i in range(3)]
        e = unit(V) if visc in (0, 5) else (ZERO, ZERO, ONE)      # core models: the frame in which the line is the z axis
        t = V.var('t', 'pos', sampler=uni(0.1, 2))
        n = sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
        D = n * (n - sum((x * y for x, y in zip(a, e)), ZERO))
        for c in (D, k * k * D, n, k * n):
            V.assume(le(MARGIN, c))

        def at(s, G):
            return V.call('VortexLine.vl_semiinf_u', *[V.num(s * x) for x in a], *[V.num(x) for x in e], V.num(G), visc, V.num(t * (s * s if visc == 5 else s)))
        u, w, v = at(ONE, ONE), at(k, ONE), at(ONE, g)
        for i in range(3):
            V.eq('scaling %d' % i, w, V.val(u, i) / k, idx=i)
            V.eq('strength %d' % i, v, g * V.val(u, i), idx=i)


for viscous in (False, True):
    @scenario('C24', 'scaling and strength of vp_u' + (', viscous core' if viscous else ''))
    def _(V, viscous=viscous):
        k, G = scale(V), V.var('G', sampler=uni(-3, 3))
        d = [V.var('dx', sampler=uni(-3, 3)), V.var('dy', sampler=uni(-3, 3))]
        p = [V.var('px', sampler=uni(-3, 3)), V.var('py', sampler=uni(-3, 3))]
        rc = V.var('rc', 'pos', sampler=uni(0.2, 2))
        V.assume(lt(MARGIN, d[0] ** 2 + d[1] ** 2))

        def at(s, g):
            return V.call('VortexPoint.vp_u', V.vec([s * (x + y) for x, y in zip(p, d)]), V.vec([s * x for x in p]), Gamma=V.num(g), rcore=V.num(s * rc), bViscous=viscous)
        u, w, v = at(ONE, ONE), at(k, ONE), at(ONE, G)
        for i in range(2):
            V.eq('scaling %d' % i, w[i], V.val(u[i]) / k)
            V.eq('strength %d' % i, v[i], G * V.val(u[i]))
