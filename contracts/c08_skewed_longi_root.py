"""C08: skewed longitudinal cylinder and skewed root vortex."""
from ._common import *
from pyvc.terms import diff, subst, var, tan
from .c07_skewed_tang import cross, skew, FP

L, LP = 'VortexCylinderSkewed.svc_longi_u', 'VortexCylinderSkewed.svc_longi_u_polar'
RT, RTP = 'VortexCylinderSkewed.svc_root_u', 'VortexCylinderSkewed.svc_root_u_polar'


# ------------------------------------------------------------ longitudinal
def filament(X, m):
    """velocity of a unit semi-infinite filament from the origin along (m,0,1), at X"""
    c = sqrt(1 + m * m)
    a = sqrt(X[0] ** 2 + X[1] ** 2 + X[2] ** 2)
    t = (m, ZERO, ONE)
    D = a * (a * c - (m * X[0] + X[2]))
    return tuple(k / (4 * PI * D) for k in cross(t, X))


def longi(V, x, y, z, R, m, n):
    """filaments on the generatrices, R dtheta each, at the n nodes"""
    th = lambda i: 2 * PI * lin(i, n) + PI / n
    return tuple(V.trapz(n, th, lambda i, k=k: R * filament((x - R * cos(th(i)), y - R * sin(th(i)), z), m)[k]) for k in range(3))


def setup(V):
    g = V.var('g', sampler=uni(-3, 3))
    R = V.var('R', 'pos', sampler=logu(0.3, 70))
    m = V.var('m', sampler=lambda rng: rng.choice([0, rng.uniform(-1.5, 1.5)]))
    n = V.ivar('ntheta', 2, 12)
    r = V.pvar('s', 'pos', sampler=logu(0.01, 8)) * R
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    z = V.pvar('zz', sampler=signed(0.02, 6)) * R
    return g, R, m, n, r, psi, z


@scenario('C08', 'the filament velocity is the integral of the Biot-Savart kernel')
def _(V):
    X = [V.var(n, sampler=uni(-3, 3)) for n in 'xyz']
    m, s = V.var('m', sampler=uni(-1.5, 1.5)), V.var('s', 'nonneg', sampler=uni(0, 4))
    t = (m, ZERO, ONE)
    d = [a - s * b for a, b in zip(X, t)]
    a2 = d[0] ** 2 + d[1] ** 2 + d[2] ** 2
    V.assume(le(Q(1, 10 ** 6), a2 * (1 + m * m) - (m * d[0] + d[2]) ** 2))
    k = cross(t, d)
    for i, w in enumerate(filament(d, m)):
        V.eq('d/ds %d' % i, diff(w, 's'), -k[i] / (4 * PI * a2 ** Q(3, 2)))


def polar(w, psi):
    return (w[0] * cos(psi) + w[1] * sin(psi), -w[0] * sin(psi) + w[1] * cos(psi), w[2])


for polin in (True, False):
    for polout in (False, True):
        @scenario('C08', 'skewed longitudinal cylinder, %s input, %s output' % (('Cartesian', 'polar')[polin], ('Cartesian', 'polar')[polout]))
        def _(V, polin=polin, polout=polout):
            g, R, m, n, r, psi, z = setup(V)
            P = (V.cp(r), V.cp(psi), V.cp(z)) if polin else (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
            u = V.call(LP if polin else L, *P, V.num(g), V.num(R), V.num(m), V.inum(n), polar_out=polout)
            w = longi(V, r * cos(psi), r * sin(psi), z, R, m, n)
            if polout:
                w = polar(w, psi)
            for k, (a, b) in enumerate(zip(u, w)):
                V.eq('component %d' % k, a, g * b, scale=g)
                V.shape_is('shape %d' % k, a, P[0])
            V.unmodified()


@scenario('C08', 'longitudinal: the default resolution is 180 nodes')
def _(V):
    g, R, m, n, r, psi, z = setup(V)
    P = (V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z))
    u = V.call(L, *P, V.num(g), V.num(R), V.num(m))
    for k, (a, b) in enumerate(zip(u, longi(V, r * cos(psi), r * sin(psi), z, R, m, T(180)))):
        V.eq('component %d' % k, a, g * b, scale=g)


for nout in (1, 4, 7):
    @scenario('C08', 'fV_Trailed: the field of a unit cylinder in polar and skew components, nout=%d' % nout)
    def _(V, nout=nout):
        g, R, m, n, r, psi, z = setup(V)
        P = (V.cp(r), V.cp(psi), V.cp(z))
        u = V.call('VortexCylinderSkewed.fV_Trailed', *P, V.num(m), V.num(g), V.inum(n), nout)
        w = skew(longi(V, r * cos(psi), r * sin(psi), z, ONE, m, n), psi, m)
        if nout == 1:
            u = (u,)
        V.true('number of outputs', len(u) == nout)
        for k, (a, b) in enumerate(zip(u, w)):
            V.eq('component %d' % k, a, g * b, scale=g)
            V.shape_is('shape %d' % k, a, P[0])
        V.unmodified()


# -------------------------------------------------------------------- root
def rootpt(V, plane=False):
    g = V.var('g', sampler=lambda rng: rng.choice([0, rng.uniform(-3, 3)]))
    m = V.var('m', sampler=lambda rng: rng.choice([0, rng.uniform(-1.5, 1.5)]))
    r = V.pvar('r', 'pos', sampler=logu(0.01, 8))
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    z = ZERO if plane else V.pvar('z', sampler=lambda rng: rng.choice([0, rng.choice([-1, 1]) * rng.uniform(0.02, 6)]))
    V.assume(le(Q(1, 10 ** 4), r))
    x, y = r * cos(psi), r * sin(psi)
    # off the filament
    if plane:
        V.assume(le(Q(1, 10 ** 8), r * r * (1 + m * m) - (m * x) ** 2))
    c, a = sqrt(1 + m * m), sqrt(r * r + z * z)
    V.assume(le(Q(1, 10 ** 8), a * (a - (m * x + z) / c)))
    return g, m, r, psi, z, x, y


for plane in (False, True):
    for polin in (True, False):
        for polout in (False, True):
            @scenario('C08', 'skewed root vortex%s, %s input, %s output' % (', control points in the rotor plane' * plane, ('Cartesian', 'polar')[polin], ('Cartesian', 'polar')[polout]))
            def _(V, polin=polin, polout=polout, plane=plane):
                g, m, r, psi, z, x, y = rootpt(V, plane)
                P = (V.cp(r), V.cp(psi), V.cp(z)) if polin else (V.cp(x), V.cp(y), V.cp(z))
                w = filament((x, y, z), m)
                u = V.call(RTP if polin else RT, *P, V.num(g), V.num(m), polar_out=polout)
                if polout:
                    w = polar(w, psi)
                for k, (a, b) in enumerate(zip(u, w)):
                    V.eq('component %d' % k, a, g * b, scale=g)
                    V.shape_is('shape %d' % k, a, P[0])
                V.unmodified()


for polout in (False, True):
    @scenario('C08', 'skewed root vortex: no induction on the axis without skew, %s output' % ('Cartesian', 'polar')[polout])
    def _(V, polout=polout):
        g = V.var('g', sampler=lambda rng: rng.choice([0, rng.uniform(-3, 3)]))
        z = V.pvar('z', sampler=lambda rng: rng.choice([0, rng.uniform(-6, 6)]))
        P = (V.cp(ZERO), V.cp(ZERO), V.cp(z))
        for k, a in enumerate(V.call(RT, *P, V.num(g), 0, polar_out=polout)):
            V.eq('component %d' % k, a, ZERO)
            V.shape_is('shape %d' % k, a, P[0])

    @scenario('C08', 'skewed root vortex: no induction at its start and on the filament, %s output' % ('Cartesian', 'polar')[polout])
    def _(V, polout=polout):
        g, m = V.var('g', sampler=uni(-3, 3)), V.var('m', sampler=uni(-1.5, 1.5))
        z = V.pvar('z', 'nonneg', sampler=lambda rng: rng.choice([0, rng.uniform(0, 6)]))
        P = (V.cp(m * z), V.cp(ZERO), V.cp(z))
        for k, a in enumerate(V.call(RT, *P, V.num(g), V.num(m), polar_out=polout)):
            V.eq('component %d' % k, a, ZERO)


for nout in (1, 7):
    @scenario('C08', 'fV_Root: the root vortex in polar and skew components, nout=%d' % nout)
    def _(V, nout=nout):
        g, m, r, psi, z, x, y = rootpt(V)
        P = (V.cp(r), V.cp(psi), V.cp(z))
        u = V.call('VortexCylinderSkewed.fV_Root', *P, m=V.num(m), Gamma_r=V.num(g), nout=nout)
        w = skew(filament((x, y, z), m), psi, m)
        if nout == 1:
            u = (u,)
        V.true('number of outputs', len(u) == nout)
        for k, (a, b) in enumerate(zip(u, w)):
            V.eq('component %d' % k, a, g * b, scale=g)
            V.shape_is('shape %d' % k, a, P[0])


# the sum of the three systems is proved over their contracts
def opaque_member(qual, tag, params, strength):
    from .c22_groups import field3, _a

    def apply(b):
        from pyvc.sym import to_num
        from pyvc.npshim import np_asarray
        if bool(b['polar_out']):
            raise ValueError('polar output not under this contract')
        X, Y, Z = (np_asarray(b[k]) for k in ('vr', 'vpsi', 'vz'))
        s, ps = to_num(b[strength]).t, [to_num(b[p]).t for p in params]
        return tuple(field3(lambda x, y, z, c=c: s * f(tag + c, x, y, z, *ps), X, Y, Z) for c in 'xyz')
    call_contract(qual)(apply)
    for k, c in enumerate('xyz'):
        opaque(tag + c, lambda get, x, y, z, *ps, k=k: get(qual)(_a(x), _a(y), _a(z), 1, *[int(q) if p == 'ntheta' else q for p, q in zip(params, ps)])[k])


opaque_member(FP, 'pst_', ('R', 'm', 'ntheta'), 'gamma_t')
opaque_member(LP, 'psl_', ('R', 'm', 'ntheta'), 'gamma_l')
opaque_member(RTP, 'psr_', ('m',), 'Gamma_r')


@scenario('C08', 'svc_u_polar: the sum of the three systems', contracts=[FP, LP, RTP], symbolic_calls=True)
def _(V):
    g, R, m, n, r, psi, z = setup(V)
    gl, G = V.var('gl', sampler=uni(-3, 3)), V.var('G', sampler=lambda rng: rng.choice([0, rng.uniform(-3, 3)]))
    P = (V.cp(r), V.cp(psi), V.cp(z))
    u = V.call('VortexCylinderSkewed.svc_u_polar', *P, V.num(g), V.num(gl), V.num(G), R=V.num(R), m=V.num(m), ntheta=V.inum(n))
    for k, c in enumerate('xyz'):
        V.eq('component %d' % k, u[k], g * f('pst_' + c, r, psi, z, R, m, n) + gl * f('psl_' + c, r, psi, z, R, m, n) + G * f('psr_' + c, r, psi, z, m), scale=1)
        V.shape_is('shape %d' % k, u[k], P[0])
    V.unmodified()
