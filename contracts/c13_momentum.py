"""C13: prescribed thrust, circulation and the momentum relations.

k(1+k/(4 lambda_r^2)) = Ct;  4a(1-a) = Ct;  4a'(1-a) lambda_r = Cq.
Continuous closure: a' = k/(4 lambda_r^2), Ct_rot = 8 int_r^1 lambda_r^2 a'^2 dr/r,
4a(1-a) = k(1+a') - Ct_rot below the critical thrust 4 ac(1-ac), Spera's line
above it (ac = 0.34)."""
from ._common import *

SOL = 'Solver.'
AC = Q(34, 100)
CTC = 4 * AC * (1 - AC)
EPS = Q(1, 10 ** 6)


def arr(V, name, n, lo, hi, owner=None):
    """array of n values in lo..hi"""
    return V.dim(name, n, owner=owner or name, sampler=lambda rng, i: rng.uniform(float(lo), float(hi)), facts=lambda x, i: [le(T(lo), x), le(x, T(hi))])


def station(V, n, *names):
    k = V.index('k', ZERO, n - 1)
    return k, [sel(x, k) for x in names]


# ------------------------------------------------------------------ cut-offs
@scenario('C13', 'root cut-off')
def _(V):
    n = V.ivar('n', 1, 5)
    r = arr(V, 'rb', n, 0, 1)
    k, (x,) = station(V, n, 'rb')
    V.assume(le(ZERO, x)); V.assume(le(x, ONE))
    ct = V.var('ct0', sampler=uni(-1, 1))
    cut = V.var('cut', 'pos', sampler=uni(0.05, 0.9))
    u = V.call(SOL + 'Ct_const_cutoff', V.num(ct), V.num(cut), r)
    V.eq('Ct', u, ite(lt(x, cut), ct * x / cut, ct), idx=k)
    V.unmodified()


@scenario('C13', 'root and tip cut-off')
def _(V):
    n = V.ivar('n', 1, 5)
    r = arr(V, 'rb', n, 0, 1)
    k, (x,) = station(V, n, 'rb')
    V.assume(le(ZERO, x)); V.assume(le(x, ONE))
    ct = V.var('ct0', sampler=uni(0.01, 1))
    cut = V.var('cut', 'pos', sampler=uni(0.05, 0.5))
    tip = V.var('tip', 'pos', sampler=uni(0.5, 0.95))
    V.assume(le(cut, tip)); V.assume(le(tip, 1 - EPS)); V.assume(le(ZERO, ct))
    u = V.call(SOL + 'Ct_const_cutoff', V.num(ct), V.num(cut), r, V.num(tip))
    spec = ite(lt(x, cut), ct * x / cut, ite(lt(tip, x), ct * (1 - (x - tip) / (1 - tip)), ct))
    V.eq('Ct', u, spec, idx=k)
    g = V.val(u, k)
    V.true('never above the prescribed level', le(g, ct))
    V.true('never negative', le(ZERO, g))
    V.unmodified()


# --------------------------------------------------------------- stream tube
for swirl in (True, False):
    @scenario('C13', 'stream tube inductions, %s swirl' % ('with' if swirl else 'no'))
    def _(V, swirl=swirl):
        n = V.ivar('n', 1, 5)
        r, Ct, Cq = arr(V, 'rb', n, EPS, 1), arr(V, 'Ct', n, -2, 1), arr(V, 'Cq', n, -1, 1)
        k, (x, ct, cq) = station(V, n, 'rb', 'Ct', 'Cq')
        V.assume(le(EPS, x)); V.assume(le(ct, ONE))
        lam = V.var('lam', 'pos', sampler=uni(1, 12))
        a, ap = V.call(SOL + 'InductionsFromPrescribedCtCq_ST', r, Ct, Cq, V.num(lam), swirl)
        av = V.val(a, k)
        V.eq('4a(1-a)=Ct', 4 * av * (1 - av), ct)
        V.true('lightly loaded branch', le(av, Q(1, 2)))
        if swirl:
            V.eq("4a'(1-a)lambda_r=Cq", 4 * V.val(ap, k) * (1 - av) * lam * x, cq)
        else:
            V.eq("a'=0", V.num(ap) if isinstance(ap, int) else ap, ZERO, idx=None if isinstance(ap, int) else k)
        V.unmodified()


# --------------------------------------------------- circulation from thrust
@scenario('C13', 'circulation from thrust, with swirl')
def _(V):
    n = V.ivar('n', 1, 5)
    r = arr(V, 'rb', n, 0, 1)
    Ct = arr(V, 'Ct', n, 0, Q(18, 10))
    k, (x, ct) = station(V, n, 'rb', 'Ct')
    V.assume(le(EPS, x)); V.assume(le(EPS, ct)); V.assume(le(ct, Q(18, 10)))
    lam = V.var('lam', 'pos', sampler=uni(1, 12))
    u = V.call(SOL + 'CirculationFromPrescribedCt', r, Ct, V.num(lam), True)
    kv = V.val(u, k)
    V.eq('k(1+k/(4 lambda_r^2)) = Ct', kv * (1 + kv / (4 * (lam * x) ** 2)), ct, tol=1e-4)
    V.true('positive root', le(ZERO, kv))
    V.unmodified()


@scenario('C13', 'circulation of an unloaded station is zero')
def _(V):
    n = V.ivar('n', 1, 5)
    r = arr(V, 'rb', n, 0, 1)
    Ct = V.dim('Ct', n, fn=lambda i: ZERO, owner='Ct')
    k = V.index('k', ZERO, n - 1)
    lam = V.var('lam', 'pos', sampler=uni(1, 12))
    u = V.call(SOL + 'CirculationFromPrescribedCt', r, Ct, V.num(lam), True)
    V.eq('k', u, ZERO, idx=k)


@scenario('C13', 'circulation from thrust, no swirl')
def _(V):
    n = V.ivar('n', 1, 5)
    r, Ct = arr(V, 'rb', n, 0, 1), arr(V, 'Ct', n, -1, 2)
    k, (x, ct) = station(V, n, 'rb', 'Ct')
    lam = V.var('lam', 'pos', sampler=uni(1, 12))
    u = V.call(SOL + 'CirculationFromPrescribedCt', r, Ct, V.num(lam), False)
    V.eq('k = Ct', u, ct, idx=k)
    V.unmodified()


# -------------------------------------------------------- continuous closure
def rot(V, n, k, lr, ap, r):
    """8 int_{r_k}^{r_{n-1}} lambda_r^2 a'^2 / r dr, trapezoids between stations"""
    g = lambda i: lr(i) ** 2 * ap(i) ** 2 / r(i)
    return 4 * V.sum(k, n - 2, lambda i: (r(i + 1) - r(i)) * (g(i) + g(i + 1)))


for swirl in (True, False):
    for thrust in (True, False):
        @scenario('C13', 'continuous closure, %s swirl, high-thrust correction %s' % ('with' if swirl else 'no', 'on' if thrust else 'off'))
        def _(V, swirl=swirl, thrust=thrust):
            n = V.ivar('n', 2, 6)
            r, lr, kk = arr(V, 'rb', n, Q(1, 100), 1), arr(V, 'lr', n, Q(1, 100), 10), arr(V, 'kk', n, 0, Q(1, 2))
            i, (x, l, g) = station(V, n, 'rb', 'lr', 'kk')
            V.assume(le(EPS, x)); V.assume(le(EPS, l)); V.assume(le(EPS, sel('lr', 0)))
            R, L, G = (lambda j: sel('rb', j)), (lambda j: sel('lr', j)), (lambda j: sel('kk', j))
            AP = lambda j: G(j) / (4 * L(j) ** 2)
            a, ap, misc = V.call(SOL + 'InductionsFromCirculation_VC_Cont', r, lr, kk, swirl, bHighThrustCorr=thrust)
            V.eq("a'", ap, g / (4 * l ** 2) if swirl else ZERO, idx=i)
            cr = rot(V, n, i, L, AP, R) if swirl else ZERO
            ck = g * (1 + (g / (4 * l ** 2) if swirl else 0))
            V.eq('Ct_rot', misc['Ct_rot'], cr, idx=i)
            V.eq('Ct_KJ', misc['Ct_KJ'], ck, idx=i)
            V.eq('Ct_eff', misc['Ct_eff'], ck - cr, idx=i)
            av = V.val(a, i)
            low = Q(1, 2) * (1 - sqrt(1 - (ck - cr)))
            if thrust:
                if V.case(lt(T(CTC), ck - cr)):
                    V.eq("a, Spera's line", av, (ck - cr - 4 * AC ** 2) / (4 * (1 - 2 * AC)))
                else:
                    V.eq('4a(1-a) = Ct_eff', 4 * av * (1 - av), ck - cr)
                    V.true('lightly loaded branch', le(av, Q(1, 2)))
            else:
                V.assume(le(ck - cr, ONE))
                V.eq('a', av, low)
            V.unmodified()
