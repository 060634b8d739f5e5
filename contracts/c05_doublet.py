"""C05: a point doublet induces the dipole field."""
from ._common import *

TH = Q(1, 10 ** 8)


@scenario('C05', 'doublet_u is the dipole field away from the doublet')
def _(V):
    x, y, z = (V.pvar(n, sampler=uni(-4, 4)) for n in 'xyz')
    m = [V.var('m%d' % i, sampler=uni(-3, 3)) for i in range(3)]
    p = [V.var('p%d' % i, sampler=uni(-2, 2)) for i in range(3)]
    dx, dy, dz = x - p[0], y - p[1], z - p[2]
    n2 = dx * dx + dy * dy + dz * dz
    V.assume(n2 ** Q(3, 2) >= TH)
    X, Y, Z = V.cp(x), V.cp(y), V.cp(z)
    mv, pv = V.vec(m, 'm'), V.vec(p, 'x0')
    u = V.call('VortexDoublet.doublet_u', X, Y, Z, mv, x0=pv)
    mr = m[0] * dx + m[1] * dy + m[2] * dz
    for i, (n, d) in enumerate(zip(('ux', 'uy', 'uz'), (dx, dy, dz))):
        V.eq(n, u[i], (3 * mr * d / n2 ** Q(5, 2) - m[i] / n2 ** Q(3, 2)) / (4 * PI))
        V.shape_is(n + ' shape', u[i], X)
    V.unmodified()


@scenario('C05', 'doublet_u is zero at the doublet itself')
def _(V):
    m = [V.var('m%d' % i, sampler=uni(-3, 3)) for i in range(3)]
    p = [V.var('p%d' % i, sampler=uni(-2, 2)) for i in range(3)]
    X, Y, Z = V.cp(p[0]), V.cp(p[1]), V.cp(p[2])
    u = V.call('VortexDoublet.doublet_u', X, Y, Z, V.vec(m, 'm'), x0=V.vec(p, 'x0'))
    for n, a in zip(('ux', 'uy', 'uz'), u):
        V.eq(n, a, ZERO)


@scenario('C05', 'doublet_u_polar is the dipole field of an axial doublet')
def _(V):
    r = V.pvar('r', 'nonneg', sampler=uni(0, 4))
    z = V.pvar('z', sampler=uni(-4, 4))
    m, z0 = V.var('m', sampler=uni(-3, 3)), V.var('z0', sampler=uni(-2, 2))
    dz = z - z0
    n2 = r * r + dz * dz
    V.assume(n2 ** Q(3, 2) >= TH)
    Rc, Z = V.cp(r), V.cp(z)
    ur, uz = V.call('VortexDoublet.doublet_u_polar', Rc, Z, V.num(m), z0=V.num(z0))
    V.eq('ur', ur, 3 * m / (4 * PI) * r * dz / n2 ** Q(5, 2))
    V.eq('uz', uz, m / (4 * PI) * (3 * dz ** 2 / n2 ** Q(5, 2) - 1 / n2 ** Q(3, 2)))
    V.shape_is('shape', ur, Rc)
    V.unmodified()


@scenario('C05', 'doublet_u_polar agrees with doublet_u, and is zero at the doublet')
def _(V):
    r = V.pvar('r', 'nonneg', sampler=uni(0, 4))
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    z = V.pvar('z', sampler=uni(-4, 4))
    m, z0 = V.var('m', sampler=uni(-3, 3)), V.var('z0', sampler=uni(-2, 2))
    ur, uz = V.call('VortexDoublet.doublet_u_polar', V.cp(r), V.cp(z), V.num(m), z0=V.num(z0))
    ux, uy, uw = V.call('VortexDoublet.doublet_u', V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z),
                        V.vec([ZERO, ZERO, m], 'm'), x0=V.vec([ZERO, ZERO, z0], 'x0'))
    V.eq('ux', ux, V.val(ur) * cos(psi))
    V.eq('uy', uy, V.val(ur) * sin(psi))
    V.eq('uz', uw, V.val(uz))
    z1 = V.call('VortexDoublet.doublet_u_polar', V.cp(ZERO), V.cp(z0), V.num(m), z0=V.num(z0))
    V.eq('ur at doublet', z1[0], ZERO)
    V.eq('uz at doublet', z1[1], ZERO)
