"""C16: the field of a turbine depends on its current settings only.

State invariant of a turbine (established by the constructor and kept by every
setter, C14; the loading by C15): frames = functions of the yaw angle, wind,
hub, loading as last set.  Here: an evaluation keeps the invariant (frame
condition: it changes no setting), whatever the value left behind by earlier
evaluations, and the next evaluation is the field (C15) of the current
settings."""
from ._common import *
from .c14_pose import WT, dot
from .c15_turbine import Rig, local, multi, several, MEMBERS, GROUPS, LOADING, WCT, tm_tan


def skewed_spec(V, rig, P, u, **kw):
    w = rig.back(local(rig, True, **kw))
    for i in range(3):
        V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-5, scale=T(10))
        V.shape_is('shape', u[i], P[i])


def other_wind(V, rig, y=None):
    """settings after a change: wind at angle ph2, yaw y"""
    ph = V.var('ph2', lo=Q(-7, 10), hi=Q(7, 10), sampler=uni(-0.7, 0.7))
    y = rig.y if y is None else y
    V.assume(or_(lt(y + Q(1, 10 ** 5), ph), lt(ph, y - Q(1, 10 ** 5))))
    V.assume(lt(Q(1, 10), cos(ph - y)))
    Uh = V.var('Uh2', 'pos', sampler=uni(3, 20))
    return ph, [Uh * (cos(ph) * a + sin(ph) * b) for a, b in zip(rig.s0, rig.c0)]


def first_evaluation(V, rig, **kw):
    """an evaluation somewhere, with some options"""
    pts = [V.cp(V.pvar('q' + k, sampler=uni(-150, 150))) for k in 'xyz']
    V.method(rig.o, 'compute_u', *pts, **kw)


def change(V, rig, what):
    if what == 'wind':
        ph, rig.U = other_wind(V, rig)
        V.method(rig.o, 'update_wind', V.vec(rig.U))
        rig.wind_angle(V, ph)
        rig.chi = ph - rig.y
    if what == 'yaw':
        y = V.var('y2', lo=Q(-7, 10), hi=Q(7, 10), sampler=uni(-0.7, 0.7))
        V.assume(or_(lt(y + Q(1, 10 ** 5), rig.ph), lt(rig.ph, y - Q(1, 10 ** 5))))
        V.assume(lt(Q(1, 10), cos(rig.ph - y)))
        V.method(rig.o, 'update_yaw_pos', V.num(y))
        rig.turn(y)
        rig.chi = rig.ph - y
    if what == 'position':
        rig.H = [V.var(k, sampler=uni(-200, 200)) for k in ('kx', 'ky', 'kz')]
        V.method(rig.o, 'update_position', V.vec(rig.H))
    if what == 'imposed skew':
        rig.chi = V.var('chi', lo=Q(-15, 10), hi=Q(15, 10), sampler=uni(-1, 1))
        V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
        V.method(rig.o, 'set_chi', V.num(rig.chi))
    if what == 'loading':
        C = V.var('C', 'pos', sampler=uni(0.1, 0.9))
        V.method(rig.o, 'update_loading', Ct=V.num(C), gamma_t_Ct=lambda c: 3 * c * c - 4)
        rig.gt, rig.gl, rig.Gr = 3 * C * C - 4, ZERO, ZERO


for what in ('nothing', 'wind', 'yaw', 'position', 'loading', 'imposed skew'):
    @scenario('C16', 'evaluate, change %s, evaluate elsewhere' % what, contracts=MEMBERS)
    def _(V, what=what):
        rig = Rig(V, 'auto')
        V.assume(ne(rig.gt, ZERO))
        first_evaluation(V, rig)
        change(V, rig, what)
        P = rig.point(V)
        u = V.method(rig.o, 'compute_u', *P)
        skewed_spec(V, rig, P, u)
        V.unmodified()


for what in ('wind', 'yaw', 'position', 'loading', 'imposed skew'):
    @scenario('C16', 'evaluate, change %s, evaluate at the same points' % what, contracts=MEMBERS)
    def _(V, what=what):
        rig = Rig(V, 'auto')
        V.assume(ne(rig.gt, ZERO))
        P = rig.point(V)
        V.method(rig.o, 'compute_u', *P)
        change(V, rig, what)
        rig.relocate()
        u = V.method(rig.o, 'compute_u', *P)
        skewed_spec(V, rig, P, u)
        V.unmodified()


@scenario('C16', 'imposed skew kept through changes of wind and yaw', contracts=MEMBERS)
def _(V):
    rig = Rig(V, 'auto')
    V.assume(ne(rig.gt, ZERO))
    change(V, rig, 'imposed skew')
    first_evaluation(V, rig)
    chi = rig.chi
    change(V, rig, 'wind')
    change(V, rig, 'position')
    rig.chi = chi
    P = rig.point(V)
    u = V.method(rig.o, 'compute_u', *P)
    skewed_spec(V, rig, P, u)
    V.eq('skew', V.attr(rig.o, 'chi'), chi)


@scenario('C16', 'evaluation with any value of the skew left behind', contracts=MEMBERS)
def _(V):
    rig = Rig(V, 'auto')
    V.assume(ne(rig.gt, ZERO))
    V.setattr(rig.o, 'chi', V.num(V.var('left', sampler=uni(-1, 1))))
    P = rig.point(V)
    u = V.method(rig.o, 'compute_u', *P)
    skewed_spec(V, rig, P, u)


for opts in (dict(ground=True), dict(no_wake=True), dict(only_ind=True), dict(longi=True, root=True), dict(tang=False, longi=True), dict(ground=True, no_wake=True, longi=True, root=True)):
    @scenario('C16', 'evaluate with %s, then without' % ', '.join('%s=%s' % q for q in opts.items()), contracts=MEMBERS)
    def _(V, opts=opts):
        rig = Rig(V, 'set')
        V.assume(ne(rig.gt, ZERO))
        V.assume(ne(rig.gl, ZERO))
        V.assume(ne(rig.Gr, ZERO))
        V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
        st = V.state(rig.o)
        first_evaluation(V, rig, **opts)
        V.same_state('settings kept', rig.o, st, skip=('chi',))
        P = rig.point(V)
        u = V.method(rig.o, 'compute_u', *P)
        skewed_spec(V, rig, P, u)


for skewed in (False, True):
    @scenario('C16', 'several cylinders, %s wake: evaluate twice' % ('skewed' if skewed else 'straight'), contracts=MEMBERS + GROUPS)
    def _(V, skewed=skewed):
        rig = Rig(V, 'set' if skewed else 'zero')
        V.assume(ne(rig.Gr, ZERO))
        if skewed:
            V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
        n = several(V, rig)
        st = V.state(rig.o)
        first_evaluation(V, rig, longi=True, root=True, ground=True)
        V.same_state('settings kept', rig.o, st, skip=('chi',))
        P = rig.point(V)
        u = V.method(rig.o, 'compute_u', *P, longi=True)
        w = rig.back(multi(V, rig, n, skewed, True, True, False))
        for i in range(3):
            V.eq('u' + 'xyz'[i], u[i], w[i])
        V.unmodified()


@scenario('C16', 'changing one turbine leaves another alone', contracts=MEMBERS)
def _(V):
    R, y = V.var('R', 'pos', sampler=uni(20, 80)), V.var('y', sampler=uni(-3, 3))
    a, b = (V.call(WT + 'WindTurbine', V.num(R)) for _ in range(2))
    st = V.state(b)
    V.method(a, 'update_yaw_pos', V.num(y))
    V.method(a, 'update_wind', V.vec([V.var(k) for k in ('u1', 'u2', 'u3')]))
    V.method(a, 'update_position', V.vec([V.var(k) for k in ('p1', 'p2', 'p3')]))
    V.method(a, 'update_loading', Ct=V.num(V.var('C', 'pos', sampler=uni(0.1, 0.8))), gamma_t_Ct=lambda c: -c)
    V.method(a, 'set_chi', V.num(T(Q(1, 3))))
    V.method(a, 'compute_u', *[V.cp(V.pvar(k, sampler=uni(-100, 100))) for k in ('x', 'yy', 'z')])
    V.same_state('other turbine', b, st)
    c = V.call(WT + 'WindTurbine', V.num(R))
    V.same_state('next turbine', c, st)


@scenario('C16', 'loading by a distribution twice: the last one counts', contracts=LOADING)
def _(V):
    rig = Rig(V, 'zero')
    V.assume(lt(ZERO, dot(rig.U, rig.U)))
    n = V.ivar('n', 3, 5)
    mk = lambda nm, s: V.dim(nm, n, sampler=s, facts=lambda x, i: [gt(x, ZERO)])
    r0, r = (mk(k, lambda rng, i: 2 + 8 * i + rng.uniform(0, 3)) for k in ('ra', 'rb'))
    c0, c = (mk(k, lambda rng, i: rng.uniform(0.1, 0.5)) for k in ('ca', 'cb'))
    l0, l = (V.var(k, 'pos', sampler=uni(6, 9)) for k in ('la', 'lb'))
    V.method(rig.o, 'update_loading', r=r0, Ct=c0, Lambda=V.num(l0), nCyl=None)
    V.method(rig.o, 'update_loading', r=r, Ct=c, Lambda=V.num(l), nCyl=None)
    i = V.index('i', ZERO, n - 1)
    U0 = sqrt(dot(rig.U, rig.U))
    want = V.ref(WCT, r, c, V.num(rig.R), V.num(U0), V.num(l * U0 / rig.R))
    V.eq('gamma_t', V.attr(rig.o, 'gamma_t'), V.val(want[0], i), idx=i)
    V.eq('r', V.attr(rig.o, 'r'), V.val(r, i), idx=i)
    V.unmodified()
