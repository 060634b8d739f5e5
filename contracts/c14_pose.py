"""C14: frames of a turbine, yaw, wind and rotor points.

Any right-handed orthonormal pair (vertical v, shaft s) is v, s with spherical
angles; the wind has angle phi about v from the shaft and any vertical part."""
from ._common import *

WT = 'WindTurbine.'


def frame(V):
    """vertical v, shaft s (any orthonormal pair) and c = v x s"""
    al, be, de = (V.var(k, sampler=uni(-3, 3)) for k in ('al', 'be', 'de'))
    v = (sin(al) * cos(be), sin(al) * sin(be), cos(al))
    et = (cos(al) * cos(be), cos(al) * sin(be), -sin(al))
    ef = (-sin(be), cos(be), ZERO)
    s = tuple(cos(de) * a + sin(de) * b for a, b in zip(et, ef))
    return v, s, cross(v, s)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), ZERO)


def rodrigues(k, t, x):
    c = cross(k, x)
    d = dot(k, x)
    return tuple(cos(t) * x[i] + sin(t) * c[i] + (1 - cos(t)) * d * k[i] for i in range(3))


@scenario('C14', 'rotation about an axis')
def _(V):
    v, s, c = frame(V)
    t = V.var('t', sampler=uni(-6, 6))
    M = V.call(WT + 'RotMat_AxisAngle', V.vec(list(v)), V.num(t))
    for j in range(3):
        e = [ONE if i == j else ZERO for i in range(3)]
        w = rodrigues(v, t, e)
        for i in range(3):
            V.eq('R[%d,%d]' % (i, j), M, w[i], idx=(i, j))


@scenario('C14', 'Rodrigues: proper rotation')
def _(V):
    v, s, c = frame(V)
    t = V.var('t', sampler=uni(-6, 6))
    R = [rodrigues(v, t, [ONE if i == j else ZERO for i in range(3)]) for j in range(3)]
    for i in range(3):
        for j in range(i, 3):
            V.eq('orthonormal %d %d' % (i, j), dot(R[i], R[j]), ONE if i == j else ZERO)
        V.eq('axis kept %d' % i, rodrigues(v, t, v)[i], v[i])
        V.eq('positive turn %d' % i, rodrigues(v, t, s)[i], cos(t) * s[i] + sin(t) * c[i])
    V.eq('determinant', dot(cross(R[0], R[1]), R[2]), ONE)


def turbine(V, v, s, yaw=None, U=None, hub=None, **kw):
    kw = {k: w for k, w in kw.items()}
    o = V.call(WT + 'WindTurbine', V.num(V.var('R', 'pos', sampler=uni(20, 80))), e_shaft_yaw0=V.vec(list(s)), e_vert=V.vec(list(v)), **(dict(U0=V.vec(list(U))) if U else {}), **(dict(r_hub=V.vec(list(hub))) if hub else {}), **kw)
    if yaw is not None:
        V.method(o, 'update_yaw_pos', V.num(yaw))
    return o


def vec_eq(V, name, x, w):
    for i in range(3):
        V.eq('%s %s' % (name, 'xyz'[i]), x, w[i], idx=(i, 0))


def mat_eq(V, name, M, cols):
    for j in range(3):
        for i in range(3):
            V.eq('%s[%d,%d]' % (name, i, j), M, cols[j][i], idx=(i, j))


@scenario('C14', 'frames of a new turbine')
def _(V):
    v, s, c = frame(V)
    o = turbine(V, v, s)
    mat_eq(V, 'cylinder axes', V.attr(o, 'T_c2wt'), (c, v, s))
    mat_eq(V, 'FAST axes', V.attr(o, 'T_F2g'), (s, c, v))
    mat_eq(V, 'turbine axes', V.attr(o, 'T_wt2g'), [[ONE if i == j else ZERO for i in range(3)] for j in range(3)])
    vec_eq(V, 'shaft', V.attr(o, 'e_shaft_g'), s)
    V.eq('yaw', V.attr(o, 'yaw_pos'), ZERO)
    V.unmodified()


@scenario('C14', 'any yaw history')
def _(V):
    v, s, c = frame(V)
    y0, y = V.var('y0', sampler=uni(-3, 3)), V.var('y', sampler=uni(-3, 3))
    o = turbine(V, v, s, yaw=y0)
    V.method(o, 'update_wind', V.vec([ONE, ZERO, T(2)]))
    V.method(o, 'update_yaw_pos', V.num(y))
    s2 = tuple(cos(y) * a + sin(y) * b for a, b in zip(s, c))
    c2 = tuple(cos(y) * b - sin(y) * a for a, b in zip(s, c))
    vec_eq(V, 'shaft', V.attr(o, 'e_shaft_g'), s2)
    mat_eq(V, 'turbine axes', V.attr(o, 'T_wt2g'), [rodrigues(v, y, [ONE if i == j else ZERO for i in range(3)]) for j in range(3)])
    mat_eq(V, 'cylinder axes', V.attr(o, 'T_c2wt'), (c, v, s))
    V.eq('yaw', V.attr(o, 'yaw_pos'), y)
    for k, (a, b) in enumerate(zip((c, v, s), (c2, v, s2))):
        w = rodrigues(v, y, a)
        for i in range(3):
            V.eq('turned axis %d %d' % (k, i), w[i], b[i])


def wind(V, v, s, c):
    ph = V.var('ph', lo=Q(-314, 100), hi=Q(314, 100), sampler=lambda rng: rng.choice([0.0, rng.uniform(-3, 3)]))
    Uh, Uv = V.var('Uh', 'pos', sampler=uni(3, 20)), V.var('Uv', sampler=lambda rng: rng.choice([0, rng.uniform(-2, 2)]))
    return ph, Uh, Uv, tuple(Uh * (cos(ph) * a + sin(ph) * b) + Uv * d for a, b, d in zip(s, c, v))


@scenario('C14', 'wind angle about the vertical')
def _(V):
    v, s, c = frame(V)
    y = V.var('y', sampler=uni(-3, 3))
    ph, Uh, Uv, U = wind(V, v, s, c)
    o = turbine(V, v, s, yaw=y, U=U)
    g = V.val(V.attr(o, 'yaw_wind'))
    V.eq('cosine', cos(g), cos(ph), tol=1e-6, scale=T(100))
    V.eq('sine', sin(g), sin(ph), tol=1e-6, scale=T(100))
    V.true('in (-pi,pi]', and_(le(-PI, g), le(g, PI)))
    V.unmodified()


@scenario('C14', 'yaw error between the shaft and a horizontal wind')
def _(V):
    v, s, c = frame(V)
    d = V.var('d', lo=Q(-314, 100), hi=Q(314, 100), sampler=lambda rng: rng.choice([0.0, rng.uniform(-3, 3)]))
    y = V.var('y', sampler=uni(-3, 3))
    Uh = V.var('Uh', 'pos', sampler=uni(3, 20))
    U = tuple(Uh * (cos(y - d) * a + sin(y - d) * b) for a, b in zip(s, c))
    o = turbine(V, v, s, yaw=y, U=U)
    g = V.val(V.attr(o, 'yaw_error'))
    V.eq('cosine', cos(g), cos(d), tol=1e-6, scale=T(100))
    V.eq('sine', sin(g), sin(d), tol=1e-6, scale=T(100))
    V.true('in [-pi,pi]', and_(le(-PI, g), le(g, PI)))


@scenario('C14', 'to local axes and back')
def _(V):
    v, s, c = frame(V)
    x = [V.pvar(k, sampler=uni(-50, 50)) for k in ('x', 'y', 'z')]
    M = V.mat([[a[i] for a in (c, v, s)] for i in range(3)])
    P = [V.cp(t) for t in x]
    L = V.call(WT + 'transform_T', M, *P)
    for k, a in enumerate((c, v, s)):
        V.eq('local %d' % k, L[k], dot(a, x))
    W = V.call(WT + 'transform', M, *L)
    for k in range(3):
        V.eq('back %d' % k, W[k], x[k])
    V.unmodified()


@scenario('C14', 'a vector orthogonal to another')
def _(V):
    u = [V.var(k, sampler=lambda rng: rng.choice([1.0, -1.0, 0.1, 0.0, rng.uniform(-3, 3)])) for k in 'xyz']
    V.assume(lt(ZERO, dot(u, u)))
    w = V.call(WT + 'orth_vect', V.vec(u))
    k = [V.val(w, (i, 0)) for i in range(3)]
    V.eq('orthogonal', dot(k, u), ZERO)
    V.eq('unit', dot(k, k), ONE)
    V.unmodified()


@scenario('C14', 'rotor points on the rotor circle')
def _(V):
    v, s, c = frame(V)
    y = V.var('y', sampler=uni(-3, 3))
    hub = [V.var(k, sampler=uni(-200, 200)) for k in ('hx', 'hy', 'hz')]
    o = turbine(V, v, s, yaw=y, hub=hub)
    R = V.val(V.attr(o, 'R'))
    n = V.ivar('n', 2, 6)
    s2 = tuple(cos(y) * a + sin(y) * b for a, b in zip(s, c))
    c2 = tuple(cos(y) * b - sin(y) * a for a, b in zip(s, c))
    tau = V.var('tau', sampler=uni(-3, 3))

    def orth(b):    # orthogonal to the shaft: somewhere in the rotor plane
        for k in range(3):
            V.eq('argument of orth_vect', b['u'], s2[k], idx=(k, 0))
        return V.mat([[cos(tau) * c2[k] + sin(tau) * v[k]] for k in range(3)])
    V.contract(WT + 'orth_vect', orth)
    P = V.method(o, 'rotor_disk_points', V.inum(n))
    i = V.index('i', ZERO, n - 1)
    d = [V.val(P, (k, i)) - hub[k] for k in range(3)]
    V.eq('on the circle', dot(d, d), R ** 2)
    V.eq('in the rotor plane', dot(d, s2), ZERO)


@scenario('C14', 'a vector orthogonal to a diagonal')
def _(V):
    t = V.var('t', 'pos', sampler=logu(1e-3, 1e3))
    w = V.call(WT + 'orth_vect', V.vec([t, t, -t]))
    k = [V.val(w, (i, 0)) for i in range(3)]
    V.eq('orthogonal', dot(k, (ONE, ONE, -ONE)), ZERO)
    V.eq('unit', dot(k, k), ONE)
