"""C11: self-similar induction zone."""
from ._common import *


def spec(r, z, g, R, lam, eta):
    r12 = R * sqrt(lam * (eta + (z / R) ** 2))
    arg = sqrt(T(2)) * r / r12
    sech = 2 / (exp(arg) + exp(-arg))
    return g / 2 * (1 + z / sqrt(z * z + R * R)) * sech ** Q(8, 9)


def setup(V, zs):
    psi = V.pvar('psi', sampler=uni(-3.1, 3.1))
    r = V.pvar('r', 'nonneg', sampler=uni(0, 6))
    z = V.pvar('z', sampler=zs)
    g = V.var('gamma_t', sampler=uni(-2, 2))
    R = V.var('R', 'pos', sampler=uni(0.3, 5))
    lam = V.var('lam', 'pos', sampler=uni(0.3, 1))
    eta = V.var('eta', 'pos', sampler=uni(0.5, 2))
    return psi, r, z, g, R, lam, eta


@scenario('C11', 'ss_u is the self-similar deficit upstream and zero downstream')
def _(V):
    psi, r, z, g, R, lam, eta = setup(V, uni(-6, 3))
    X, Y, Z = V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z)
    u = V.call('SelfSimilar.ss_u', X, Y, Z, V.num(g), R=V.num(R), lambda_=V.num(lam), eta=V.num(eta))
    V.eq('uz', u, ite(z > ZERO, ZERO, spec(r, z, g, R, lam, eta)), scale=g)
    V.shape_is('shape', u, X)
    V.unmodified()


@scenario('C11', 'ss_u defaults: lambda 0.587, eta 1.32, on-axis value is the vortex cylinder axis value')
def _(V):
    z = V.pvar('z', 'real', hi=0, sampler=uni(-6, 0))
    g = V.var('gamma_t', sampler=uni(-2, 2))
    R = V.var('R', 'pos', sampler=uni(0.3, 5))
    u = V.call('SelfSimilar.ss_u', V.cp(ZERO), V.cp(ZERO), V.cp(z), V.num(g), R=V.num(R))
    V.eq('uz axis', u, g / 2 * (1 + z / sqrt(z * z + R * R)), scale=g)
    psi, r = V.var('psi', sampler=uni(-3, 3)), V.var('r', 'nonneg', sampler=uni(0, 5))
    u = V.call('SelfSimilar.ss_u', V.cp(r * cos(psi)), V.cp(r * sin(psi)), V.cp(z), V.num(g), R=V.num(R))
    V.eq('uz default constants', u, spec(r, z, g, R, T(Q('0.587')), T(Q('1.32'))), scale=g)
