"""C18: masking of the wake.  Local position (x, y, z): zero induction where
z >= -0.6 R and x^2 + y^2 < (1.001 R)^2, untouched everywhere else."""
from ._common import *
from .c14_pose import WT, dot
from .c15_turbine import Rig, local, multi, several, MEMBERS, GROUPS

TIDY = dict(tidy=True)


def masked(V, rig, w, free=True):
    x, y, z = rig.L
    tube = and_(le(-Q(6, 10) * rig.R, z), lt(sqrt(x * x + y * y), Q(1001, 1000) * rig.R))
    if V.symbolic:
        return rig.back([ZERO] * 3 if V.case(tube) else w, free)
    return rig.back([ite(tube, ZERO, c) for c in w], free)


def near(V, rig):
    """points on both sides of the limits of the wake"""
    s, psi = V.pvar('s', 'pos', sampler=lambda rng: rng.choice([0.001, 0.3, 0.9, 0.999, 1.0005, 1.0015, 1.01, 1.5, 3])), V.pvar('psi', sampler=uni(-3, 3))
    z = V.pvar('z', sampler=lambda rng: rng.choice([-5, -1, -0.61, -0.599, -0.3, -0.01, 0.01, 0.5, 3]))
    rig.L = [s * rig.R * cos(psi), s * rig.R * sin(psi), z * rig.R]
    rig.X = [rig.H[i] + sum((rig.L[k] * rig.axes[k][i] for k in range(3)), ZERO) for i in range(3)]
    return [V.cp(t) for t in rig.X]


for skewed in (False, True):
    for sel_ in ((True, False, False), (False, True, True)):
        for ground in (False, True):
            for ind in (False, True):
                @scenario('C18', '%s wake, %s%s%s' % ('skewed' if skewed else 'straight', '+'.join(n for n, b in zip(('tangential', 'longitudinal', 'root'), sel_) if b), ', ground' if ground else '', ', induction only' if ind else ''), contracts=MEMBERS, path=TIDY)
                def _(V, skewed=skewed, sel_=sel_, ground=ground, ind=ind):
                    rig = Rig(V, 'set' if skewed else 'zero')
                    for q in (rig.gt, rig.gl, rig.Gr):
                        V.assume(ne(q, ZERO))
                    if skewed:
                        V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
                    P = near(V, rig)
                    u = V.method(rig.o, 'compute_u', *P, tang=sel_[0], longi=sel_[1], root=sel_[2], ground=ground, only_ind=ind, no_wake=True)
                    w = local(rig, skewed, *sel_)
                    if ground:
                        w = [a + b for a, b in zip(w, local(rig, skewed, *sel_, yimg=2 * dot(rig.v, rig.H)))]
                    w = masked(V, rig, w, not ind)
                    for i in range(3):
                        V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-5, scale=T(10))
                        V.shape_is('shape', u[i], P[i])
                    V.unmodified()


for skewed in (False, True):
    @scenario('C18', 'several cylinders, %s wake' % ('skewed' if skewed else 'straight'), contracts=MEMBERS + GROUPS, path=TIDY)
    def _(V, skewed=skewed):
        rig = Rig(V, 'set' if skewed else 'zero')
        if skewed:
            V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
        n = several(V, rig)
        P = near(V, rig)
        u = V.method(rig.o, 'compute_u', *P, no_wake=True)
        w = masked(V, rig, multi(V, rig, n, skewed, True, False, False))
        for i in range(3):
            V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-5, scale=T(10))
            V.shape_is('shape', u[i], P[i])
        V.unmodified()
