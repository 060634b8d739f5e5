"""C12: discrete closure of the wake vorticity.

Gamma_i (times nB), k_i = Gamma_i Omega/(pi U0^2), cylinder radii R_i; every
annulus i satisfies, with a_i = -1/2 sum_{j>=i} gamma_j/U0:

  a'_c,i  = (Gamma_i + Gamma_{i+1})/(4 pi Omega R_i^2)        (last: one term)
  with swirl     4 a_i (1-a_i) = k_i(1 + k_i/(4 lambda_i^2)) - Ct_rot,i
  without swirl  gamma_t,i h_i = -(Gamma_i - Gamma_{i+1})
  h_i = 2 pi U0 (1 - a_i - a_{i+1})/(Omega (1 + a'_c,i))
and Spera's line beyond the critical thrust; a' = Gamma/(4 pi Omega r^2);
bound, trailed and root circulation balance."""
from ._common import *
from .c13_momentum import arr, station, AC, CTC, EPS

SOL = 'Solver.'




def setup(V, given_cyl, one=False):
    n = V.ivar('n', 1 if given_cyl else 2, 6)
    U0 = V.var('U0', 'pos', sampler=uni(8, 12))
    Om = V.var('Om', 'pos', sampler=uni(0.8, 1.2))
    nB = V.var('nB', 'pos', sampler=lambda rng: float(rng.randint(1, 3)))
    R = V.var('R', 'pos', sampler=uni(60, 90))
    r = V.dim('r', n, sampler=lambda rng, i: 5 + 8 * i + rng.uniform(0, 3), facts=lambda x, i: [gt(x, ZERO)])
    G = V.dim('Gam', n, sampler=lambda rng, i: rng.uniform(-3, 25), facts=lambda x, i: [])
    rc = V.dim('rc', n, sampler=lambda rng, i: 9 + 8 * i + rng.uniform(0, 3), facts=lambda x, i: [gt(x, ZERO)]) if given_cyl else None
    i = V.index('i', ZERO, n - 1)
    if not given_cyl:
        V.assume(lt(sel('r', n - 2), sel('r', n - 1)))
        last = sel('r', n - 1) + (sel('r', n - 1) - sel('r', n - 2)) / 2
        RC = lambda j: ite(eq(j, n - 1), last, (sel('r', j) + sel('r', j + 1)) / 2)
    else:
        RC = lambda j: sel('rc', j)
    return n, U0, Om, nB, R, r, G, rc, i, RC


def closure(V, res, n, i, U0, Om, Gm, RC, rr, swirl, thrust, tan=True):
    """every annulus satisfies the model equations; Gm(j) the circulation, RC(j)
    the radius of the cylinders, rr(j) the control points"""
    gt_, gl, Gr, misc = res
    g = V.obs(gt_)
    last = V.case(eq(i, n - 1))
    k = lambda j: Gm(j) * Om / (PI * U0 ** 2)
    lam2 = lambda j: (Om * RC(j) / U0) ** 2
    apc = (Gm(i) if last else Gm(i) + Gm(i + 1)) / (4 * PI * Om * RC(i) ** 2) if tan else ZERO
    outer, gi = V.sum(i + 1, n - 1, lambda j: g(j)), V.val(gt_, i)
    V.eq("a is half the sum of the outer cylinders", misc['a'], -(gi + outer) / (2 * U0), idx=i)
    a, out = -(gi + outer) / (2 * U0), -outer / (2 * U0)
    V.eq('h = 2 pi Vc/(Omega (1+a_c)), Vc the mean over the sheet', misc['h'], 2 * PI * U0 * (1 - a - out) / (Om * (1 + apc)), idx=i)
    if swirl:
        loc = lambda j: (k(j + 1) / 2) ** 2 * (1 / lam2(j) - 1 / lam2(j + 1))
        ct = k(i) * (1 + k(i) / (4 * lam2(i))) - V.sum(i + 1, n - 2, loc)
    else:
        ct = k(i)
    gam_ = Gm(i) if last else Gm(i) - Gm(i + 1)
    if thrust and V.case(lt(T(CTC), ct)):
        V.eq("a on Spera's line", a, (ct - 4 * AC ** 2) / (4 * (1 - 2 * AC)))
    else:
        if swirl:
            V.eq('4a(1-a) = Ct_eff', 4 * a * (1 - a), ct)
        else:
            V.eq('gamma_t h = -trailed circulation', gi * 2 * PI * U0 * (1 - a - out), -gam_ * Om * (1 + apc))
        V.true('wake not reversed', le(a, Q(1, 2)), tol=1e-9)
    V.eq('circulation', misc['Gamma_cp'], Gm(i), idx=i)
    V.eq('control points', misc['r_cp'], rr(i), idx=i)
    if swirl:
        V.eq('a_prime', misc['a_prime'], Gm(i) / (4 * PI * Om * rr(i) ** 2), idx=i)
        V.eq('trailed circulation', gl, gam_ / (2 * PI * rr(i)), idx=i)
        V.eq('root circulation', Gr, -Gm(ZERO))
    else:
        V.eq('a_prime', misc['a_prime'], ZERO, idx=i)
        V.true('no longitudinal vorticity', gl is None and Gr is None)


PATH = dict(lazysqrt=True, z3_ms=250)
ASS = ('the radicands of the closure are not negative (Ct_eff <= 1 on the annuli without high-thrust correction)',)


for swirl in (True, False):
    for given in (True, False):
        for thrust in (True, False):
            @scenario('C12', 'discrete closure, %s swirl, %s cylinders, high-thrust correction %s' % ('with' if swirl else 'no', 'given' if given else 'default', 'on' if thrust else 'off'), budget=400, path=PATH, assumes=ASS)
            def _(V, swirl=swirl, given=given, thrust=thrust):
                n, U0, Om, nB, R, r, G, rc, i, RC = setup(V, given)
                res = V.call(SOL + 'WakeVorticityFromCirculation_Discr', r, G, V.num(R), V.num(U0), V.num(Om), V.num(nB), swirl, bHighThrustCorr=thrust, **(dict(r_cyl=rc) if given else {}))
                closure(V, res, n, i, U0, Om, lambda j: nB * sel('Gam', j), RC, lambda j: sel('r', j), swirl, thrust)
                V.unmodified()


@scenario('C12', 'discrete closure without convection by the swirl', budget=400, path=PATH, assumes=ASS)
def _(V):
    n, U0, Om, nB, R, r, G, rc, i, RC = setup(V, True)
    res = V.call(SOL + 'WakeVorticityFromCirculation_Discr', r, G, V.num(R), V.num(U0), V.num(Om), V.num(nB), False, bTanInd_k=False, bHighThrustCorr=False, r_cyl=rc)
    closure(V, res, n, i, U0, Om, lambda j: nB * sel('Gam', j), RC, lambda j: sel('r', j), False, False, tan=False)
    V.unmodified()


@scenario('C12', 'a single station: one cylinder at the tip', budget=400, path=PATH, assumes=ASS)
def _(V):
    U0, Om, nB = (V.var(k, 'pos', sampler=s) for k, s in (('U0', uni(8, 12)), ('Om', uni(0.8, 1.2)), ('nB', uni(1, 3))))
    R, r, G = V.var('R', 'pos', sampler=uni(60, 90)), V.var('r', 'pos', sampler=uni(20, 59)), V.var('G', sampler=uni(-3, 25))
    Gm = nB * G
    V.assume(ne(1 + Gm / (4 * PI * Om * R ** 2), ZERO))
    g, gl, Gr, misc = V.call(SOL + 'WakeVorticityFromCirculation_Discr', V.vec([r]), V.vec([G]), V.num(R), V.num(U0), V.num(Om), V.num(nB), True, bHighThrustCorr=False)
    k = Gm * Om / (PI * U0 ** 2)
    a = -V.val(g, 0) / (2 * U0)
    V.eq('4a(1-a) = Ct', 4 * a * (1 - a), k * (1 + k / (4 * (Om * R / U0) ** 2)))
    V.eq('a', misc['a'], a, idx=0)
    V.eq('pitch', misc['h'], 2 * PI * U0 * (1 - a) / (Om * (1 + Gm / (4 * PI * Om * R ** 2))), idx=0)
    V.eq('trailed circulation', gl, Gm / (2 * PI * r), idx=0)
    V.eq('root circulation', Gr, -Gm)
    V.unmodified()


# ------------------------------------------------------------------- drivers
def _each(n, v, *arrs):
    """marker of a result computed from these arguments: equal markers at every
    station mean equal arguments, hence equal results"""
    from pyvc.sym import lift2, Num, to_num
    from pyvc.npshim import np_asarray
    A = [np_asarray(a) for a in arrs]
    t = A[0]
    for a in A[1:]:
        t = lift2(lambda p, q: Num(f('mk_pair', to_num(p).t, to_num(q).t)), t, a)
    return lift2(lambda p, q: Num(f('mk_' + n, to_num(p).t, *v)), t, np_asarray(A[0]))


@call_contract(SOL + 'WakeVorticityFromCirculation_Discr')
def _(b):
    from pyvc.sym import Num, to_num
    sw = bool(b['bSwirl'])
    if b['method'] != 'analytical' or b['r_cyl'] is not None or not bool(b['bTanInd_k']):
        raise NotImplementedError('contract of the discrete closure: other options')
    v = [to_num(b[k]).t for k in ('R', 'U0', 'Omega', 'nB')] + [ONE if sw else ZERO, ONE if bool(b['bHighThrustCorr']) else ZERO]
    m = lambda n: _each(n, v, b['r_cp'], b['Gamma_cp'])
    misc = {k: m(k) for k in ('a', 'a_prime', 'Gamma_cp', 'r_cp', 'h')}
    return m('gt'), m('gl') if sw else None, m('gr') if sw else None, misc


@call_contract(SOL + 'CirculationFromPrescribedCt')
def _(b):
    from pyvc.sym import to_num
    return _each('kct', [to_num(b['Lambda']).t, ONE if bool(b['bSwirl']) else ZERO], b['vr_bar'], b['vCt'])


DISCR, KCT = SOL + 'WakeVorticityFromCirculation_Discr', SOL + 'CirculationFromPrescribedCt'


def driver(V, om):
    n = V.ivar('n', 2, 6)
    U0, R = V.var('U0', 'pos', sampler=uni(8, 12)), V.var('R', 'pos', sampler=uni(60, 90))
    Om = T(800) if om == 'inf' else V.var('Om', 'pos', sampler=uni(0.8, 1.2) if om == 'swirl' else uni(5, 9))
    lam = Om * R / U0
    sw = om == 'swirl'
    if om == 'inf':
        V.assume(le(20, lam))
    else:
        V.assume(lt(lam, 20) if sw else le(20, lam))
    r = V.dim('r', n, sampler=lambda rng, i: 5 + 8 * i + rng.uniform(0, 3), facts=lambda x, i: [gt(x, ZERO)])
    return n, U0, R, Om, lam, sw, r, (V.inf() if om == 'inf' else V.num(Om))


def same(V, got, want, sw, i):
    for k, nm in ((0, 'gamma_t'),) + (((1, 'gamma_l'),) if sw else ()):
        V.eq(nm, got[k], V.val(want[k], i), idx=i)
    if sw:
        V.eq('root circulation', got[2], V.obs(want[2])(i) if hasattr(want[2], 'elem') else V.val(want[2]), idx=i if hasattr(want[2], 'elem') else None)
    else:
        V.true('no longitudinal vorticity', got[1] is None and got[2] is None)
    for k in ('a', 'a_prime', 'Gamma_cp', 'r_cp', 'h'):
        V.eq(k, got[3][k], V.val(want[3][k], i), idx=i)


for om in ('swirl', 'fast', 'inf'):
    @scenario('C12', 'wake vorticity from a circulation, %s' % om, contracts=[DISCR])
    def _(V, om=om):
        n, U0, R, Om, lam, sw, r, omega = driver(V, om)
        G = V.dim('Gam', n, sampler=lambda rng, i: rng.uniform(-1, 5), facts=lambda x, i: [])
        i = V.index('i', ZERO, n - 1)
        got = V.call(SOL + 'WakeVorticityFromGamma', r, G, V.num(R), V.num(U0), omega)
        want = V.ref(DISCR, r, G, V.num(R), V.num(U0), V.num(Om), 1, sw)
        same(V, got, want, sw, i)
        V.unmodified()

    @scenario('C12', 'wake vorticity from a thrust distribution, %s' % om, contracts=[DISCR, KCT])
    def _(V, om=om):
        n, U0, R, Om, lam, sw, r, omega = driver(V, om)
        C = V.dim('Ct', n, sampler=lambda rng, i: rng.uniform(0.05, 0.5), facts=lambda x, i: [])
        i = V.index('i', ZERO, n - 1)
        got = V.call(SOL + 'WakeVorticityFromCt', r, C, V.num(R), V.num(U0), omega)
        k = V.ref(KCT, r / V.num(R), C, V.num(lam), sw)
        want = V.ref(DISCR, r, k * V.num(PI) * V.num(U0) ** 2 / V.num(Om), V.num(R), V.num(U0), V.num(Om), 1, sw)
        same(V, got, want, sw, i)
        V.unmodified()
