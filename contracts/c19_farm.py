"""C19: wind farm.  The turbines are known by the contracts of compute_u (C15)
and update_position (C16): turbine k has an induction field of its own."""
from ._common import *
from .c14_pose import WT
from .c22_groups import field3, CART, TANG, member
from .c15_turbine import GROUPS

WF = 'WindFarm.'
CU, UP = WT + 'WindTurbine.compute_u', WT + 'WindTurbine.update_position'
FLAGS = ('only_ind', 'longi', 'tang', 'root', 'no_wake')
MODELS = ('VC', 'VCFF', 'VD', 'SS')


def turbines(V, n, yaw=True):
    """a farm of any number n of turbines, each with its own hub and field"""
    H = [V.dim(k, n, sampler=lambda rng, i: rng.uniform(-300, 300)) for k in ('Hx', 'Hy', 'Hz')]
    V.dim('Rt', n, pos=True, sampler=lambda rng, i: rng.uniform(20, 80))
    V.dim('gt', n, sampler=lambda rng, i: rng.uniform(-5, -1))
    if V.symbolic:
        new = [V.dim(k + "'", n, fn=lambda i, k=k: sel(k, i)) for k in ('Hx', 'Hy', 'Hz')]

        def attrs(k):
            return dict(r_hub=V.mat([[sel(q, k)] for q in ('Hx', 'Hy', 'Hz')]), _k=k, _new=new)
        F = V.sequence(WF + 'WindFarm', n, WT + 'WindTurbine', attrs, _new=new)

        def compute_u(b):
            k = b['self']._k
            fl = flags(b)
            return tuple(field3(lambda x, y, z: f('tu_' + c, k, x, y, z, *fl), *(b[q] for q in ('Xg', 'Yg', 'Zg'))) for c in CART)

        def update_position(b):
            from pyvc.npshim import np_asarray
            r = np_asarray(b['r_hub']).ravel()
            V.fact('position of three coordinates', r.size == 3)
            for c in range(3):
                b['self']._new[c][V.inum(b['self']._k)] = r[c]
            return None
        V.contract(CU, compute_u)
        V.contract(UP, update_position)
        return F, lambda i, c: V.val(new[c], i)
    import numpy as np
    N = len(H[0])
    F = V.call(WF + 'WindFarm')
    for k in range(N):
        kw = [dict(), dict(Model='VC'), dict(Ground=True)][k % 3]
        t = V.call(WT + 'WindTurbine', V.num(sel('Rt', k)), r_hub=[V.num(sel(q, k)) for q in ('Hx', 'Hy', 'Hz')], e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], U0=[0, 0, 10], **kw)
        V.method(t, 'update_yaw_pos', 0.1 * k if k % 2 and yaw else 0)
        t.gamma_t, t.gamma_l, t.Gamma_r = np.array([V.num(sel('gt', k))]), np.array([0.3]), 2.0
        V.method(F, 'append', t)
    for j, c in enumerate(CART):
        def fld(k, x, y, z, ind, lo, ta, ro, nw, gr, mo, rff, j=j):
            kw = {} if gr == 2 else dict(ground=bool(gr))
            if mo >= 0:
                kw['Model'] = MODELS[int(mo)]
            return F[int(k)].compute_u(np.array([x]), np.array([y]), np.array([z]), only_ind=bool(ind), longi=bool(lo), tang=bool(ta), root=bool(ro), no_wake=bool(nw), R_far_field=rff, **kw)[j]
        V.bind('tu_' + c, fld)
    return F, lambda i, c: V.val(F[int(V.inum(i))].r_hub, (c, 0))


def flags(b):
    """the options as numbers"""
    from pyvc.sym import to_num
    out = [T(1 if b[k] else 0) for k in FLAGS]
    out.append(T(2) if b['ground'] is None else T(1 if b['ground'] else 0))
    out.append(T(-1) if b['Model'] is None else T(MODELS.index(b['Model'])))
    return out + [to_num(b['R_far_field']).t]


def spec(k, x, y, z, comp, no_wake=False, **kw):
    o = dict(only_ind=True, longi=False, tang=True, root=False, no_wake=no_wake, ground=None, Model=None, R_far_field=T(6))
    o.update(kw)
    fl = [T(1 if o[q] else 0) for q in FLAGS] + [T(2) if o['ground'] is None else T(1 if o['ground'] else 0), T(-1) if o['Model'] is None else T(MODELS.index(o['Model'])), o['R_far_field']]
    return f('tu_' + comp, k, x, y, z, *fl)


OPTS = [('default options', {}, False), ('free stream', {}, True), ('masked wakes', dict(no_wake=True), True), ('all vorticity', dict(longi=True, root=True), False),
        ('ground, no tangential vorticity', dict(tang=False, longi=True, ground=True), True), ('another model', dict(Model='VD', no_wake=True), False)]
for name, kw, free in OPTS:
    @scenario('C19', 'velocity field of a farm: ' + name, symbolic_calls=True)
    def _(V, kw=kw, free=free):
        n = V.ivar('n', 0, 4)
        F, hub = turbines(V, n, yaw='Model' not in kw)
        x, y, z = (V.pvar(q, sampler=uni(-300, 300)) for q in 'xyz')
        P = [V.cp(t) for t in (x, y, z)]
        U = [V.var('U' + q, sampler=uni(-10, 10)) for q in 'xyz']
        u = V.method(F, 'velocity_field', *P, **dict(kw, **(dict(U0=V.vec(U, owner='U0')) if free else {})))
        for j, c in enumerate(CART):
            w = V.sum(ZERO, n - 1, lambda k: spec(k, x, y, z, c, **kw))
            V.eq('u' + c, u[j], w + (U[j] if free else ZERO), scale=T(10))
            V.shape_is('shape', u[j], P[0])
        V.unmodified()


@scenario('C19', 'velocity field of a farm: far-field radius is passed on', symbolic_calls=True)
def _(V):
    n = V.ivar('n', 0, 4)
    F, hub = turbines(V, n)
    x, y, z = (V.pvar(q, sampler=uni(-300, 300)) for q in 'xyz')
    P = [V.cp(t) for t in (x, y, z)]
    rf = V.var('rf', 'pos', sampler=uni(1, 8))
    u = V.method(F, 'velocity_field', *P, R_far_field=V.num(rf))
    for j, c in enumerate(CART):
        V.eq('u' + c, u[j], V.sum(ZERO, n - 1, lambda k: spec(k, x, y, z, c, R_far_field=rf)), scale=T(10))


# ------------------------------------------------------------------ layout
@scenario('C19', 'layout and number of turbines')
def _(V):
    n = V.ivar('n', 1, 5)
    F, hub = turbines(V, n)
    i = V.index('i', ZERO, n - 1)
    V.eq('nWT', V.attr(F, 'nWT'), n)
    L = V.attr(F, 'layout')
    for c, q in enumerate(('Hx', 'Hy', 'Hz')):
        V.eq('layout', L, sel(q, i), idx=(i, c))


@scenario('C19', 'setting the layout')
def _(V):
    n = V.ivar('n', 1, 5)
    F, hub = turbines(V, n)
    i = V.index('i', ZERO, n - 1)
    L = V.rows('L', n, 3, owner='layout')
    V.setattr(F, 'layout', L)
    for c in range(3):
        V.eq('position of each turbine', hub(i, c), sel('L', i, c))
    V.unmodified()


@scenario('C19', 'a layout of another size is refused')
def _(V):
    n = V.ivar('n', 1, 5)
    F, hub = turbines(V, n)
    m = V.ivar('m', 0, 7)
    V.assume(ne(m, n))
    i = V.index('i', ZERO, n - 1)
    V.raises('refused', Exception, lambda: V.setattr(F, 'layout', V.rows('L', m, 3, owner='layout')))
    V.raises('refused', Exception, lambda: V.setattr(F, 'layout', V.rows('L2', n, 2, owner='layout')))
    for c, q in enumerate(('Hx', 'Hy', 'Hz')):
        V.eq('positions unchanged', hub(i, c), sel(q, i))


for N in range(4):
    @scenario('C19', 'membership, %d turbines' % N)
    def _(V, N=N):
        ts = [V.call(WT + 'WindTurbine', V.num(V.var('R%d' % k, 'pos'))) for k in range(N + 1)]
        F = V.call(WF + 'WindFarm', ts[:N], name='farm')
        V.fact('name', V.attr(F, 'name') == 'farm')
        V.eq('nWT', V.attr(F, 'nWT'), T(N))
        V.method(F, 'append', ts[N])
        V.eq('nWT after append', V.attr(F, 'nWT'), T(N + 1))
        V.fact('turbines in order', all(a is b for a, b in zip(list(F), ts)))
        for bad in (None, V.num(T(3)), V.vec([ONE, ONE, ONE]), F, 'turbine'):
            V.raises('only turbines', Exception, lambda: V.method(F, 'append', bad))
        V.eq('nWT after refusals', V.attr(F, 'nWT'), T(N + 1))


@scenario('C19', 'farms do not share turbines')
def _(V):
    a, b = V.call(WF + 'WindFarm'), V.call(WF + 'WindFarm')
    V.method(a, 'append', V.call(WT + 'WindTurbine', V.num(V.var('R', 'pos'))))
    V.eq('nWT', V.attr(a, 'nWT'), ONE)
    V.eq('nWT of the other farm', V.attr(b, 'nWT'), ZERO)
    V.eq('nWT of a later farm', V.attr(V.call(WF + 'WindFarm'), 'nWT'), ZERO)


# ------------------------------------------------------------------- grids
for nx in range(1, 5):
    for nz in range(1, 4):
        for mirror in (False, True):
            @scenario('C19', 'grid of %d x %d%s' % (nx, nz, ', mirrored' if mirror else ''))
            def _(V, nx=nx, nz=nz, mirror=mirror):
                sx, sz, h = V.var('sx', 'pos'), V.var('sz', 'pos'), V.var('h')
                r = V.call(WF + 'gridLayout', nx, V.num(sx), nz, V.num(sz), **(dict(hub_height=V.num(h), mirror=True) if mirror else dict(hub_height=V.num(h))))
                for c in range(3):
                    V.fact('number of turbines', len(r[c]) == nx * nz * (2 if mirror else 1), 'another number of turbines')
                k = 0
                for s in (1, -1)[:2 if mirror else 1]:
                    for iz in range(nz):
                        for ix in range(nx):
                            V.eq('lateral', r[0], (ix - nx // 2) * sx, idx=k)
                            V.eq('height', r[1], s * h, idx=k)
                            V.eq('longitudinal', r[2], iz * sz, idx=k)
                            k += 1


for nx, nz, mirror in ((1, 1, False), (2, 1, False), (3, 2, False), (2, 3, True), (1, 1, True), (4, 1, False)):
    @scenario('C19', 'farm of identical rotors on a grid of %d x %d%s' % (nx, nz, ', mirrored' if mirror else ''), contracts=GROUPS[:1])
    def _(V, nx=nx, nz=nz, mirror=mirror):
        x, y, z = (V.pvar(q, sampler=uni(-300, 300)) for q in 'xyz')
        P = [V.cp(t) for t in (x, y, z)]
        R, U0 = V.var('R', 'pos', sampler=uni(20, 80)), V.var('U0', 'pos', sampler=uni(3, 12))
        CT = V.var('CT', lo=0, hi=1, sampler=uni(0.05, 0.95))
        sx, sz, h = V.var('sx', 'pos', sampler=uni(100, 300)), V.var('sz', 'pos', sampler=uni(100, 300)), V.var('h', sampler=uni(0, 120))
        u = V.call(WF + 'windfarm_gridlayout_CTconst', *(P + [V.num(R), V.num(CT), V.num(U0), nx, V.num(sx), nz, V.num(sz)]), hub_height=V.num(h), mirror=mirror)
        g = -U0 * (1 - sqrt(1 - CT))
        for j, c in enumerate(CART):
            w = ZERO
            for s in (1, -1)[:2 if mirror else 1]:
                for iz in range(nz):
                    for ix in range(nx):
                        w = w + g * f('vct_' + c, x - (ix - nx // 2) * sx, y - s * h, z - iz * sz, R, ZERO)
            V.eq('u' + c, u[j], w, scale=T(10))
            V.shape_is('shape', u[j], P[0])
        V.unmodified()
