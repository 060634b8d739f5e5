"""C15-C18: velocity field of a turbine, single cylinder.

The wake components are known by their contracts only (velocity = strength x a
field of the local position, radius, skew), proved under C02, C07-C09.  With
local axes (c, v, s) = (v x shaft, vertical, shaft) and hub H:

   u(X) = sum over the requested components of A u_local(A^T (X - H)) + U0"""
from ._common import *
from pyvc import terms as tm
from .c14_pose import frame, cross, dot, uni, WT
from .c22_groups import member, field3, cart_or_polar, CART, TANG, LONGI, STANG, SLONGI, opaque, _a, _conc

ROOT, SROOT = 'VortexCylinder.vc_root_u', 'VortexCylinderSkewed.svc_root_u'
member(ROOT, 'vcr_', lambda b: cart_or_polar(b, ('p',)), [], 'Gamma_r')
member(SROOT, 'svr_', lambda b: cart_or_polar(b, ('r', 'p', 'zz')), ['m'], 'Gamma_r')
_conc('vcr_', ROOT, lambda fn, x, y, z: fn(_a(x), _a(y), _a(z), 1, polar_out=False))
_conc('svr_', SROOT, lambda fn, x, y, z, m: fn(_a(x), _a(y), _a(z), 1, m, polar_out=False))
MEMBERS = [TANG, LONGI, STANG, SLONGI, ROOT, SROOT]
NT = T(180)     # default number of nodes of the skewed wakes


class Rig:
    """a turbine in any pose, with any single-cylinder loading"""

    def __init__(self, V, chi='set', **kw):
        self.v, self.s0, self.c0 = frame(V)
        self.y = V.var('y', sampler=uni(-3, 3))
        self.H = [V.var(k, sampler=uni(-200, 200)) for k in ('hx', 'hy', 'hz')]
        self.U = [V.var(k, sampler=uni(3, 12)) for k in ('Ux', 'Uy', 'Uz')]
        if chi in ('auto', 'aligned'):
            self.y = V.var('y', lo=Q(-7, 10), hi=Q(7, 10), sampler=uni(-0.7, 0.7))
            ph = self.y
            if chi == 'auto':
                ph = V.var('ph', lo=Q(-7, 10), hi=Q(7, 10), sampler=uni(-0.7, 0.7))
                V.assume(or_(lt(self.y + Q(1, 10 ** 5), ph), lt(ph, self.y - Q(1, 10 ** 5))))
            self.chi, self.ph = ph - self.y, ph
            V.assume(lt(Q(1, 10), cos(self.chi)))
            Uh, Uv = V.var('Uh', 'pos', sampler=uni(3, 20)), V.var('Uv', sampler=uni(-2, 2))
            self.U = [Uh * (cos(ph) * a + sin(ph) * b) + Uv * d for a, b, d in zip(self.s0, self.c0, self.v)]
            self.wind_angle(V, ph)
        self.R = V.var('R', 'pos', sampler=uni(20, 80))
        self.o = V.call(WT + 'WindTurbine', V.num(self.R), e_shaft_yaw0=V.vec(list(self.s0)), e_vert=V.vec(list(self.v)), U0=V.vec(self.U), r_hub=V.vec(self.H), **kw)
        V.method(self.o, 'update_yaw_pos', V.num(self.y))
        self.turn(self.y)
        self.gt, self.gl, self.Gr = (V.var(k, sampler=lambda rng: rng.choice([0, 1, 1]) * rng.uniform(-5, 5)) for k in ('gt', 'gl', 'Gr'))
        V.setattr(self.o, 'gamma_t', V.vec([self.gt]))
        V.setattr(self.o, 'gamma_l', V.vec([self.gl]))
        V.setattr(self.o, 'Gamma_r', V.num(self.Gr))
        if chi == 'set':
            self.chi = V.var('chi', lo=Q(-15, 10), hi=Q(15, 10), sampler=uni(-1, 1))
            V.method(self.o, 'set_chi', V.num(self.chi))
        if chi == 'zero':
            self.chi = ZERO
            V.method(self.o, 'set_chi', 0)

    def turn(self, y):
        self.y = y
        self.s = tuple(cos(y) * a + sin(y) * b for a, b in zip(self.s0, self.c0))
        self.c = tuple(cos(y) * b - sin(y) * a for a, b in zip(self.s0, self.c0))
        self.axes = (self.c, self.v, self.s)

    def wind_angle(self, V, ph):
        """contract of yaw_wind (established by C14): the angle of the current
        wind about the vertical, here ph"""
        def apply(b):
            o = b['self']
            for k in range(3):
                V.eq('current wind', V.attr(o, 'U0_g'), self.U[k], idx=(k, 0))
                V.eq('vertical', V.attr(o, 'e_vert_g'), self.v[k], idx=(k, 0))
                V.eq('reference', V.attr(o, 'e_horz_g'), self.s0[k], idx=(k, 0))
            return V.num(ph)
        V.contract(WT + 'WindTurbine.yaw_wind', apply)

    def point(self, V):
        """control points; local position (x, y, z)"""
        self.L = [V.pvar(k, sampler=uni(-150, 150)) for k in ('x', 'yy', 'z')]
        self.X = [self.H[i] + sum((self.L[k] * self.axes[k][i] for k in range(3)), ZERO) for i in range(3)]
        return [V.cp(t) for t in self.X]

    def relocate(self):
        """the same points seen from the current pose"""
        self.L = [dot(a, [x - h for x, h in zip(self.X, self.H)]) for a in self.axes]

    def back(self, w, free=True):
        return [sum((w[k] * self.axes[k][i] for k in range(3)), ZERO) + (self.U[i] if free else ZERO) for i in range(3)]


def local(rig, skewed, tang=True, longi=False, root=False, yimg=ZERO):
    """velocity in the local axes at height offset yimg"""
    x, y, z = rig.L
    y = y + yimg
    m = tm_tan(rig.chi)
    out = []
    for comp in CART:
        w = ZERO
        if tang:
            w = w + rig.gt * (f('svt_' + comp, x, y, z, rig.R, m, NT) if skewed else f('vct_' + comp, x, y, z, rig.R, ZERO))
        if longi:
            w = w + rig.gl * (f('svl_' + comp, x, y, z, rig.R, m, NT) if skewed else f('vcl_' + comp, x, y, z, rig.R))
        if root:
            w = w + rig.Gr * (f('svr_' + comp, x, y, z, m) if skewed else f('vcr_' + comp, x, y, z))
        out.append(w)
    return out


def tm_tan(t):
    return sin(t) / cos(t)


for skewed in (False, True):
    for sel_ in ((True, False, False), (False, True, False), (False, False, True), (True, True, True)):
        @scenario('C15', '%s wake: %s' % ('skewed' if skewed else 'straight', ' + '.join(n for n, b in zip(('tangential', 'longitudinal', 'root'), sel_) if b)), contracts=MEMBERS)
        def _(V, skewed=skewed, sel_=sel_):
            rig = Rig(V, 'set' if skewed else 'zero')
            if skewed:
                V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
            P = rig.point(V)
            u = V.method(rig.o, 'compute_u', *P, tang=sel_[0], longi=sel_[1], root=sel_[2])
            w = rig.back(local(rig, skewed, *sel_))
            for i in range(3):
                V.eq('u' + 'xyz'[i], u[i], w[i])
                V.shape_is('shape', u[i], P[i])
            V.unmodified()


@scenario('C15', 'induction only', contracts=MEMBERS)
def _(V):
    rig = Rig(V, 'zero')
    P = rig.point(V)
    u = V.method(rig.o, 'compute_u', *P, only_ind=True)
    w = rig.back(local(rig, False), False)
    for i in range(3):
        V.eq('u' + 'xyz'[i], u[i], w[i])
        V.shape_is('shape', u[i], P[i])
    V.unmodified()


@scenario('C15', 'skew from wind and yaw', contracts=MEMBERS)
def _(V):
    rig = Rig(V, 'auto')
    P = rig.point(V)
    u = V.method(rig.o, 'compute_u', *P)
    V.eq('skew', V.attr(rig.o, 'chi'), rig.chi, tol=1e-6, scale=ONE)
    w = rig.back(local(rig, True))
    for i in range(3):
        V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-5, scale=T(10))


@scenario('C15', 'wind along the shaft: no skew', contracts=MEMBERS)
def _(V):
    rig = Rig(V, 'aligned')
    P = rig.point(V)
    u = V.method(rig.o, 'compute_u', *P)
    w = rig.back(local(rig, False))
    for i in range(3):
        V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-5, scale=T(10))


# ---------------------------------------------------- several cylinders
# contracts of the groups (established by C22):
#   u = sum_i sum_j G_ij [ f(X-c_i, R_ij, ..) + f(X-c_i + 2 y_i e_y, ..) if Ground ]
def group_contract(qual, tag, strength, skew, mirror):
    @call_contract(qual)
    def _(b):
        from pyvc.sym import Num, to_num, Arr
        from pyvc.npshim import np_asarray
        from pyvc.ctx import cur, Unsupported
        X, Y, Z = (np_asarray(b[k]) for k in ('Xcp', 'Ycp', 'Zcp'))
        G, R = b[strength], b['R']
        nC, nr = (to_num(q).t for q in R.shape)
        if not (cur().decide(eq(to_num(G.shape[0]).t, nC)) and cur().decide(eq(to_num(G.shape[1]).t, nr))):
            raise Unsupported('strengths and radii of different shapes')
        def at(M, i, j):
            if hasattr(M, 'dtype'):
                return to_num(M[int(tm.qv(i)), int(tm.qv(j))]).t
            return to_num(M[Num(i, 'i'), Num(j, 'i')]).t

        def centre(k):
            a = b[k]
            if isinstance(a, Arr):
                return lambda i: to_num(a.at(i)).t
            a = a.ravel()
            return lambda i: to_num(a[int(tm.qv(i))]).t
        c = [centre(k) for k in ('Xcyl', 'Ycyl', 'Zcyl')]
        ground = bool(b['Ground']) and mirror
        out = []
        for comp in CART:
            def one(x, y, z, comp=comp):
                def member(i, j):
                    rest = [at(R, i, j)] + ([at(b['m'], i, j), to_num(b['ntheta']).t] if skew else ([to_num(b['epsilon']).t] if 'epsilon' in b else []))
                    fl = lambda yy: f(tag + comp, x - c[0](i), yy, z - c[2](i), *rest)
                    t = fl(y - c[1](i))
                    if ground:
                        t = t + fl(y + c[1](i))
                    return at(G, i, j) * t
                if hasattr(R, 'dtype'):
                    return sum((member(T(i), T(j)) for i in range(R.shape[0]) for j in range(R.shape[1])), ZERO)
                rotor = lambda i: cur().sumterm(ZERO, nr - 1, lambda j: member(i, j))
                return rotor(ZERO) if nC is ONE else cur().sumterm(ZERO, nC - 1, rotor)
            out.append(field3(one, X, Y, Z))
        return tuple(out)
    return qual


GROUPS = [group_contract('VortexCylinder.vcs_tang_u', 'vct_', 'gamma_t', False, True),
          group_contract('VortexCylinder.vcs_longi_u', 'vcl_', 'gamma_l', False, False),
          group_contract('VortexCylinderSkewed.svcs_tang_u', 'svt_', 'gamma_t', True, True),
          group_contract('VortexCylinderSkewed.svcs_longi_u', 'svl_', 'gamma_l', True, True)]


def multi(V, rig, n, skewed, tang, longi, root, ground=False):
    """velocity in the local axes"""
    x, y, z = rig.L
    m = tm_tan(rig.chi)
    up = 2 * dot(rig.v, rig.H)
    out = []
    for comp in CART:
        w = ZERO
        imgs = [ZERO, up] if ground else [ZERO]
        if tang:
            for o in imgs:
                w = w + V.sum(ZERO, n - 1, lambda j: sel('Gt', j) * (f('svt_' + comp, x, y + o, z, sel('Rj', j), m, NT) if skewed else f('vct_' + comp, x, y + o, z, sel('Rj', j), ZERO)))
        if longi:
            for o in (imgs if skewed else imgs[:1]):
                w = w + V.sum(ZERO, n - 1, lambda j: sel('Gl', j) * (f('svl_' + comp, x, y + o, z, sel('Rj', j), m, NT) if skewed else f('vcl_' + comp, x, y + o, z, sel('Rj', j))))
        if root:
            for o in imgs:
                w = w + rig.Gr * (f('svr_' + comp, x, y + o, z, m) if skewed else f('vcr_' + comp, x, y + o, z))
        out.append(w)
    return out


def several(V, rig):
    n = V.ivar('n', 2, 4)
    V.setattr(rig.o, 'r', V.dim('Rj', n, pos=True, sampler=lambda rng, i: 10 * (i + 1) + rng.uniform(0, 5)))
    V.setattr(rig.o, 'gamma_t', V.dim('Gt', n))
    V.setattr(rig.o, 'gamma_l', V.dim('Gl', n))
    return n


for skewed in (False, True):
    for ground in (False, True):
        for sel_ in ((True, False, False), (False, True, False), (True, True, True)):
            @scenario('C15', 'several cylinders, %s wake%s: %s' % ('skewed' if skewed else 'straight', ', ground' if ground else '', ' + '.join(n for n, b in zip(('tangential', 'longitudinal', 'root'), sel_) if b)), contracts=MEMBERS + GROUPS)
            def _(V, skewed=skewed, sel_=sel_, ground=ground):
                rig = Rig(V, 'set' if skewed else 'zero')
                if skewed:
                    V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
                n = several(V, rig)
                P = rig.point(V)
                u = V.method(rig.o, 'compute_u', *P, tang=sel_[0], longi=sel_[1], root=sel_[2], ground=ground)
                w = rig.back(multi(V, rig, n, skewed, *sel_, ground=ground))
                for i in range(3):
                    V.eq('u' + 'xyz'[i], u[i], w[i])
                    V.shape_is('shape', u[i], P[i])
                V.unmodified()


# --------------------------------------------------------------- loading
WCT, WGA = 'Solver.WakeVorticityFromCt', 'Solver.WakeVorticityFromGamma'


def _loading_contract(qual, key):
    @call_contract(qual)
    def _(b):
        from pyvc.sym import to_num
        from .c12_solver import _each
        v = [to_num(b[k]).t if to_num(b[k]).t is not INF else T(-1) for k in ('R', 'U0', 'Omega')]
        m = lambda n: _each(n + key, v, b['r'], b[key])
        return m('gt'), m('gl'), m('gr'), {}
    return qual


LOADING = [_loading_contract(WCT, 'Ct'), _loading_contract(WGA, 'Gamma')]


def loads(V, o, i, want, r, ct):
    for k, nm in enumerate(('gamma_t', 'gamma_l', 'Gamma_r')):
        got = V.attr(o, nm)
        if want[k] is None:
            V.is_none(nm, got)
            continue
        idx = i if not V.scalar(want[k]) else None
        V.eq(nm, got, V.val(want[k], idx), idx=idx)
    V.eq('r', V.attr(o, 'r'), V.val(r, i), idx=i)
    if ct is not None:
        V.eq('Ct', V.attr(o, 'Ct'), V.val(ct, i), idx=i)


for key in ('Ct', 'Gamma'):
    for mode in ('one', 'given', 'many'):
        for lam in ('number', 'default'):
            @scenario('C15', 'loading by %s, %s cylinders, %s tip-speed ratio' % (key, mode, lam), contracts=LOADING)
            def _(V, key=key, mode=mode, lam=lam):
                R = V.var('R', 'pos', sampler=uni(50, 80))
                U = [V.var(k, sampler=uni(3, 8)) for k in ('Ux', 'Uy', 'Uz')]
                lm = V.var('lam', 'pos', sampler=uni(6, 9))
                V.assume(lt(ZERO, dot(U, U)))
                o = V.call(WT + 'WindTurbine', V.num(R), U0=V.vec(U), **({} if lam == 'default' else dict(Lambda=V.num(lm + 3))))
                U0 = sqrt(dot(U, U))
                n = V.ivar('n', 3, 6)
                r = V.dim('r', n, owner='r', sampler=lambda rng, i: 2 + 8 * i + rng.uniform(0, 3), facts=lambda x, i: [gt(x, ZERO)])
                C = V.dim('C', n, owner=key, sampler=lambda rng, i: rng.uniform(0.1, 0.5) if key == 'Ct' else rng.uniform(1, 20), facts=lambda x, i: [])
                kw = {key: C, 'r': r}
                if lam == 'number':
                    kw['Lambda'] = V.num(lm)
                Om = V.num(lm * U0 / R) if lam == 'number' else V.inf()
                m = V.ivar('m', 2, 5)
                if mode == 'one':
                    rr, cc, i = V.vec([Q(995, 1000) * R]), V.vec([V.sum(ZERO, n - 1, lambda j: sel('C', j)) / n]), 0
                elif mode == 'given':
                    kw['nCyl'] = None
                    rr, cc, i = r, C, V.index('i', ZERO, n - 1)
                else:
                    kw['nCyl'] = V.inum(m)
                    i = V.index('i', ZERO, m - 1)
                    rr = V.dim('rr', m, fn=lambda j: (Q(5, 1000) + Q(99, 100) * lin(j, m)) * R)
                    cc = V.interpolate(rr, r, C)
                V.method(o, 'update_loading', **kw)
                want = V.ref(WCT if key == 'Ct' else WGA, rr, cc, V.num(R), V.num(U0), Om)
                loads(V, o, i, want[:3], rr, cc if key == 'Ct' else None)
                V.unmodified()


@scenario('C15', 'loading by a given function of the thrust', contracts=LOADING)
def _(V):
    R = V.var('R', 'pos', sampler=uni(50, 80))
    C = V.var('C', 'pos', sampler=uni(0.1, 0.9))
    o = V.call(WT + 'WindTurbine', V.num(R))
    V.method(o, 'update_loading', Ct=V.num(C), gamma_t_Ct=lambda c: 3 * c * c - 1)
    V.eq('gamma_t', V.attr(o, 'gamma_t'), 3 * C * C - 1, idx=0)
    V.is_none('gamma_l', V.attr(o, 'gamma_l'))
    V.is_none('Gamma_r', V.attr(o, 'Gamma_r'))


@scenario('C15', 'no loading, no field')
def _(V):
    o = V.call(WT + 'WindTurbine', V.num(V.var('R', 'pos', sampler=uni(50, 80))))
    P = [V.cp(V.pvar(k)) for k in 'xyz']
    V.raises('field without loading', Exception, lambda: V.method(o, 'compute_u', *P))
    V.raises('unknown loading', Exception, lambda: V.method(o, 'update_loading', r=V.num(T(1))))
