"""C01: complete elliptic integral of the third kind by Carlson duplication.

The three loops of the routine are cut by their invariants.  For each loop the
contract finds which carried values play the roles of Carlson's algorithm and
requires, for every state of the loop:
  * the update is the duplication step of R_F, R_J or R_C (so the represented
    integral is the same at every iteration);
  * the value computed in the iteration is the sixth-order Carlson series at
    the current state;
  * the loop is left only once two successive values agree to 1e-11 or after
    at least 20 duplications, and is left eventually.
The value after the loop is then the integral R_F(x0,y0,z0) etc. of the entry
state (Carlson 1979: duplication theorem and convergence of the series)."""
import itertools
import mpmath
from ._common import *
from pyvc.terms import subst

H = Q(1, 2)
TOL = Q(1, 10 ** 11)


def series(zb, order=6):
    """T_1..T_order of prod (1 - t Z_i)^(-b_i), with sum b_i Z_i = 0"""
    Es = [None, ZERO] + [sum((b * z ** k for z, b in zb), ZERO) / k for k in range(2, order + 1)]
    Ts = [ONE]
    for n in range(1, order + 1):
        Ts.append(sum((k * Es[k] * Ts[n - k] for k in range(2, n + 1)), ZERO) / n)
    return Ts


def rf_step(x, y, z):
    lam = sqrt(x * y) + sqrt(x * z) + sqrt(y * z)
    mu = (x + y + z) / 3
    Ts = series([(1 - v / mu, H) for v in (x, y, z)])
    out = mu ** -H * sum((Ts[n] / (2 * n + 1) for n in range(7)), ZERO)
    return [(v + lam) / 4 for v in (x, y, z)], out


def rc_step(x, y):
    lam = 2 * sqrt(x * y) + y
    mu = (x + 2 * y) / 3
    Ts = series([(1 - x / mu, H), (1 - y / mu, ONE)])
    out = mu ** -H * sum((Ts[n] / (2 * n + 1) for n in range(7)), ZERO)
    return [(v + lam) / 4 for v in (x, y)], out


def rj_step(x, y, z, p, s, n):
    lam = sqrt(x * y) + sqrt(x * z) + sqrt(y * z)
    mu = (x + y + z + 2 * p) / 5
    Ts = series([(1 - v / mu, H) for v in (x, y, z)] + [(1 - p / mu, ONE)])
    alpha = (p * (sqrt(x) + sqrt(y) + sqrt(z)) + sqrt(x * y * z)) ** 2
    beta = p * (p + lam) ** 2
    w = f('pow', 4, -n)
    s1 = s + 3 * w * f('RC', alpha, beta)
    out = s1 + w / 4 * mu ** Q(-3, 2) * sum((3 * Ts[k] / (2 * k + 3) for k in range(7)), ZERO)
    return [(v + lam) / 4 for v in (x, y, z, p)] + [s1, n + 1], out


KINDS = {'RF': (3, 0), 'RC': (2, 0), 'RJ': (5, 1)}


def candidates(kind, w):
    arrs = [n for n in sorted(w.v) if w.kinds[n] in ('pos', 'nonneg')]
    if kind == 'RF':
        return [list(c) for c in itertools.combinations(arrs, 3)]
    if kind == 'RC':
        return [list(c) for c in itertools.permutations(arrs, 2)]
    reals = [n for n in sorted(w.v) if w.kinds[n] != 'int']
    ints = [n for n in sorted(w.v) if w.kinds[n] == 'int']
    return [list(c) + [p, s, n] for c in itertools.combinations(arrs, 3) for p in arrs if p not in c
            for s in reals if s not in c and s != p for n in ints]


def step_of(kind, w, names):
    return {'RF': rf_step, 'RC': rc_step, 'RJ': rj_step}[kind](*[w.v[n] for n in names])


def carlson(w):
    """contract of a duplication loop"""
    from pyvc.whiles import LoopBack
    rng = __import__('random').Random(3)
    envs = []
    for _ in range(3):
        env = {}
        for n, x in w.v.items():
            k = w.kinds[n]
            env[x.args[0]] = mpmath.mpf(rng.randint(0, 6)) if k == 'int' else mpmath.mpf(rng.uniform(0.2, 3))
        envs.append(env)

    def ev(t, env):
        return tm.evalf(t, env, w.c.ufs)

    def close(a, b):
        try:
            with mpmath.workdps(30):
                return all(abs(ev(a, e) - ev(b, e)) <= mpmath.mpf(10) ** -15 * (abs(ev(a, e)) + mpmath.mpf(10) ** -8) for e in envs)
        except (tm.EvalError, ZeroDivisionError, ValueError, TypeError):
            return False
    best = None
    for kind in ('RJ', 'RF', 'RC'):
        for names in candidates(kind, w):
            upd, out = step_of(kind, w, names)
            outs = [n for n in w.post if n not in names and not tm.is_special(w.post[n]) and close(w.post[n], out)]
            ok = [n in w.post and not tm.is_special(w.post[n]) and close(w.post[n], u) for n, u in zip(names, upd)]
            score = (sum(ok) + 2 * bool(outs)) / (len(ok) + 2.0)
            if kind == 'RJ' and len(ok) - sum(ok) > 3:
                score = 0
            if best is None or score > best[0]:
                best = (score, kind, names, upd, out, outs)
    if best is None or best[0] < 0.3:
        w.V._refute('loop: duplication step', 'the loop body is no duplication step of R_F, R_J or R_C')
        raise LoopBack()
    score, kind, names, upd, out, outs = best
    lab = 'loop %s: ' % kind
    roles = {'RF': 'xyz', 'RC': 'xy', 'RJ': 'xyzpsn'}[kind]
    for n, u, r in zip(names, upd, roles):
        w.V.eq(lab + 'duplication step, ' + r, w.post[n], u)
    if not outs:
        live = [n for n in w.post if n not in w.v and not tm.is_special(w.post[n])]
        w.V._refute(lab + 'Carlson series', 'no value of the loop body is the sixth-order series at the current state')
        raise LoopBack()
    for o in outs:
        w.V.eq(lab + 'Carlson series', w.post[o], out)
    v0 = [w.v0[n] for n in names]
    if kind == 'RF':
        val = f('RF', *v0)
    elif kind == 'RC':
        val = f('RC', *v0)
    else:
        val = v0[4] + f('pow', 4, -v0[5]) * f('RJ', *v0[:4]) if v0[5] is not ZERO else v0[4] + f('RJ', *v0[:4])
    w.kind, w.out, w.role = kind, outs, dict(zip(roles, names))
    res = {o: val for o in outs}
    return res


def on_exit(w):
    """the loop is left: |value - previous value| <= 1e-11, or 20 duplications"""
    from pyvc.ctx import Dom
    c = w.c
    lab = 'loop %s: left converged or after 20 duplications' % w.kind
    cnt = [n for n in w.v if w.kinds[n] == 'int']
    done = [ge(w.post[n], T(20)) for n in cnt]
    goals = list(done)
    sub = {}
    for p in w.v:
        if w.kinds[p] != 'int' and w.post.get(p) is w.post[w.out[0]]:
            a = absv(tm.var('err_' + p))
            c.doms['err_' + p] = Dom('real')
            d = w.post[w.out[0]] - w.v[p]
            sub[absv(d)] = a
            sub[absv(-d)] = a
            goals.append(le(a, T(TOL)))
    old = c.facts
    c.facts = [subst(h, sub) for h in old]
    inner = {w.v[n].args[0] for n in w.v if w.kinds[n] != 'int'}
    c.facts = [h for h in c.facts if not (tm.free_vars(h) & inner)]
    try:
        ok = bool(goals) and c.feasible(not_(or_(*goals))) is False
    finally:
        c.facts = old
    if ok:
        w.V._g(lab, 'proved', 'z3')
    else:
        w.V._refute(lab, 'the loop can be left before two successive values agree to 1e-11')


carlson.on_exit = on_exit


def nm(V):
    n = V.pvar('n', sampler=lambda r: r.choice([r.uniform(-4, 0.99), r.uniform(-300, 0), 1 - 10 ** r.uniform(-4, 0)]))
    m = V.pvar('m', sampler=lambda r: r.choice([r.uniform(-4, 0.99), r.uniform(-300, 0), 1 - 10 ** r.uniform(-4, 0)]))
    V.assume(lt(m, ONE))
    return n, m


@scenario('C01', 'Pi(n,m) = R_F(0,1-m,1) + n/3 R_J(0,1-m,1,1-n) for n<1, m<1', whiles=carlson)
def _(V):
    n, m = nm(V)
    V.assume(lt(n, ONE))
    a, b = V.cp(n), V.cp(m)
    r = V.call('elliptic.ellipticPiCarlson', a, b)
    V.eq('value', r, f('RF', 0, 1 - m, 1) + n / 3 * f('RJ', 0, 1 - m, 1, 1 - n), tol=1e-7)
    V.shape_is('shape', r, a)
    V.unmodified()


@scenario('C01', 'infinite for n>=1', whiles=carlson)
def _(V):
    m = V.pvar('m', sampler=uni(-4, 0.99))
    n = V.pvar('n', sampler=uni(1, 5))
    V.assume(lt(m, ONE))
    V.assume(ge(n, ONE))
    a, b = V.cp(n), V.cp(m)
    r = V.call('elliptic.ellipticPiCarlson', a, b)
    V.eq('value', r, INF)
    V.shape_is('shape', r, a)
    V.unmodified()


@scenario('C01', 'scalars', whiles=carlson)
def _(V):
    n = V.var('n', sampler=uni(-4, 0.99))
    m = V.var('m', sampler=uni(-4, 0.99))
    V.assume(lt(m, ONE))
    V.assume(lt(n, ONE))
    r = V.call('elliptic.ellipticPiCarlson', V.num(n), V.num(m))
    V.eq('value', r, f('RF', 0, 1 - m, 1) + n / 3 * f('RJ', 0, 1 - m, 1, 1 - n), tol=1e-7)


@scenario('C01', 'empty input')
def _(V):
    r = V.call('elliptic.ellipticPiCarlson', V.vec([]), V.vec([]))
    V.fact('list form is empty', getattr(r, 'shape', None) == (0,))


@scenario('C01', 'Carlson form of Pi (identity of the contract, numerically cross-checked)', nocanary=True)
def _(V):
    import random
    rng = random.Random(5)
    ok = True
    for _ in range(12):
        n, m = T(Q(rng.randint(-900, 99), 100)), T(Q(rng.randint(-900, 99), 100))
        with mpmath.workdps(40):
            a = tm.evalf(f('Pi', n, m), {})
            b = tm.evalf(f('RF', 0, 1 - m, 1) + n / 3 * f('RJ', 0, 1 - m, 1, 1 - n), {})
            ok = ok and abs(a - b) < mpmath.mpf(10) ** -25 * (1 + abs(a))
    V.fact('identity', ok)
