"""C20: no routine modifies its arguments, no state is shared with the caller.

The frame condition "modifies nothing" is checked on every scenario of the
other properties (every function, region, option and configuration they
cover), whatever the results are; below, objects are shown to keep copies."""
import importlib
import os
from ._common import *
from pyvc import scen

for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f[:1] == 'c' and _f[1:3].isdigit() and _f.endswith('.py') and _f[:3] not in ('c20', 'c21', 'c24'):
        importlib.import_module('contracts.' + _f[:-3])
for _s in list(scen.SCENARIOS):
    if not _s.opts.get('bounded') and not _s.opts.get('noframe'):
        scenario('C20', 'frame of %s' % _s.key, **dict(_s.opts, frame=True, n=3, nocanary=True))(_s.fn)


# ------------------------------------------------------------------- sharing
WT, WF = 'WindTurbine.', 'WindFarm.'
LIST = ('array', 'list')


def seq(V, kind, names, sampler=None):
    t = [V.var(n, sampler=sampler or uni(1, 9)) for n in names]
    return [V.num(x) for x in t] if kind == 'list' else V.vec(t)


def axes(V, kind):
    """shaft and vertical: any two perpendicular unit vectors"""
    from .c14_pose import frame
    v, s, c = frame(V)
    return tuple([V.num(x) for x in a] if kind == 'list' else V.vec(list(a)) for a in (s, v))


def turbine(V, **kw):
    return V.call(WT + 'WindTurbine', V.num(V.var('R', 'pos', sampler=uni(20, 80))), **kw)


for kind in LIST:
    @scenario('C20', 'a turbine keeps no %s of its creator' % kind)
    def _(V, kind=kind):
        s, v = axes(V, kind)
        H, U = seq(V, kind, ('hx', 'hy', 'hz')), seq(V, kind, ('Ux', 'Uy', 'Uz'))
        o = turbine(V, r_hub=H, e_shaft_yaw0=s, e_vert=v, U0=U)
        st = V.state(o)
        V.overwrite(H, U, s, v)
        V.same_state('after a change by the caller', o, st)

    @scenario('C20', 'setters keep no %s' % kind)
    def _(V, kind=kind):
        o = turbine(V)
        s, v = axes(V, kind)
        H, U = seq(V, kind, ('hx', 'hy', 'hz')), seq(V, kind, ('Ux', 'Uy', 'Uz'))
        V.method(o, 'set_yaw0_coord', s, v)
        V.method(o, 'update_position', H)
        V.method(o, 'update_wind', U)
        st = V.state(o)
        V.overwrite(H, U, s, v)
        V.same_state('after a change by the caller', o, st)

for what in ('Ct', 'Gamma', 'gamma_t_Ct'):
    for ncyl in ('default', 'as given'):
        @scenario('C20', 'a loading by %s keeps no array (number of cylinders: %s)' % (what, ncyl), contracts=['Solver.WakeVorticityFromCirculation_Discr', 'Solver.CirculationFromPrescribedCt'], assumes=('the wake closure returns new arrays (its own frame condition is an obligation of C20)',))
        def _(V, what=what, ncyl=ncyl):
            n = V.ivar('n', 2, 5)
            o = turbine(V)
            r = V.dim('r', n, sampler=lambda rng, i: 5 + 8 * i + rng.uniform(0, 3), facts=lambda x, i: [gt(x, ZERO)])
            L = V.dim('load', n, sampler=lambda rng, i: rng.uniform(0.05, 0.5), facts=lambda x, i: [])
            kw = {'Gamma' if what == 'Gamma' else 'Ct': L}
            if what == 'gamma_t_Ct':
                kw['gamma_t_Ct'] = lambda c: c
            if ncyl == 'as given':
                kw['nCyl'] = None
            V.method(o, 'update_loading', r, **kw)
            st = V.state(o)
            V.overwrite(r, L)
            V.same_state('after a change by the caller', o, st)


@scenario('C20', 'a layout keeps no array')
def _(V):
    ts = [turbine(V) for _ in range(3)]
    F = V.call(WF + 'WindFarm', ts)
    M = V.mat([[V.var('p%d%d' % (i, j), sampler=uni(-9, 9)) for j in range(3)] for i in range(3)])
    V.setattr(F, 'layout', M)
    st = [V.state(t) for t in ts]
    V.overwrite(M)
    for t, s in zip(ts, st):
        V.same_state('after a change by the caller', t, s)


@scenario('C20', 'a farm keeps no list of its creator')
def _(V):
    ts = [turbine(V) for _ in range(2)]
    F = V.call(WF + 'WindFarm', ts)
    V.method(F, 'append', turbine(V))
    V.fact('list of the creator', len(ts) == 2, 'changed')
    ts.append(turbine(V))
    V.eq('number of turbines', V.attr(F, 'nWT'), T(3))


@scenario('C20', 'a returned layout is not shared')
def _(V):
    ts = [turbine(V, r_hub=seq(V, 'array', ['h%d%d' % (i, j) for j in range(3)])) for i in range(2)]
    F = V.call(WF + 'WindFarm', ts)
    st = [V.state(t) for t in ts]
    V.overwrite(V.attr(F, 'layout'))
    for t, s in zip(ts, st):
        V.same_state('after a change of the result', t, s)
