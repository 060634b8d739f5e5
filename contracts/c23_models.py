"""C23: far-field switch of the cylinder and wake models of a turbine."""
from ._common import *
from .c14_pose import WT
from .c15_turbine import Rig, MEMBERS, GROUPS, several
from .c22_groups import member, field3, CART, TANG, LONGI, STANG, SLONGI, opaque, _a, _conc, cart_or_polar

FF, POL, LINE, SS = 'VortexCylinder.vc_tang_u_doublet', 'VortexDoublet.doublet_line_polar_u', 'VortexDoublet.doublet_line_u', 'SelfSimilar.ss_u'
opaque('vct_r', lambda get, x, y, z, R, e: get(TANG)(_a(x), _a(y), _a(z), 1, R, epsilon=e)[0])
opaque('vct_zz', lambda get, x, y, z, R, e: get(TANG)(_a(x), _a(y), _a(z), 1, R, epsilon=e)[1])


# contract of the axisymmetric doublet line (established by C06): strength x
# a field of (r, z);  requires r >= 0
@call_contract(POL)
def _(b):
    from pyvc.sym import lift2, Num, to_num
    from pyvc.npshim import np_asarray
    from pyvc.ctx import cur, ProgError
    r, z, s = np_asarray(b['rcp']), np_asarray(b['zcp']), to_num(b['dmz_dz']).t

    def one(c):
        def g(r, z):
            r, z = to_num(r), to_num(z)
            if r.t is tm.ABSENT or z.t is tm.ABSENT:
                return Num(tm.ABSENT)
            if cur().decide(lt(r.t, ZERO)):
                raise ProgError('precondition r>=0 of doublet_line_polar_u violated')
            return Num(s * f('dlp_' + c, r.t, z.t))
        return g
    return lift2(one('r'), r, z), lift2(one('z'), r, z)


opaque('dlp_r', lambda get, r, z: get(POL)(_a(r), _a(z), 1)[0])
opaque('dlp_z', lambda get, r, z: get(POL)(_a(r), _a(z), 1)[1])


# contract of the doublet line (C06), the default semi-infinite unskewed one
@call_contract(LINE)
def _(b):
    from pyvc.sym import to_num
    from pyvc.npshim import np_asarray
    from pyvc.ctx import Unsupported
    if to_num(b['m']).t is not ZERO or to_num(b['L']).t is not INF:
        raise Unsupported('skewed or finite line')
    s = to_num(b['dmz_dz']).t
    X, Y, Z = (np_asarray(b[k]) for k in ('Xcp', 'Ycp', 'Zcp'))
    return tuple(field3(lambda x, y, z: s * f('dll_' + c, x, y, z), X, Y, Z) for c in CART)


for k, c in enumerate(CART):
    opaque('dll_' + c, lambda get, x, y, z, k=k: get(LINE)(_a(x), _a(y), _a(z), 1)[k])


# contract of the self-similar model (C11)
@call_contract(SS)
def _(b):
    from pyvc.sym import to_num
    from pyvc.npshim import np_asarray
    s = to_num(b['gamma_t']).t
    X, Y, Z = (np_asarray(b[k]) for k in ('Xcp', 'Ycp', 'Zcp'))
    return field3(lambda x, y, z: s * f('ssu', x, y, z, *(to_num(b[k]).t for k in ('R', 'lambda_', 'eta'))), X, Y, Z)


opaque('ssu', lambda get, x, y, z, R, lam, eta: get(SS)(_a(x), _a(y), _a(z), 1, R, lambda_=lam, eta=eta))
FAR = [TANG, POL]


def beyond(x, y, z, R, cut):
    return lt(cut * R, sqrt(x * x + y * y + z * z))


for polar in (True, False):
    for default in (False, True):
        @scenario('C23', 'far-field cylinder, %s output%s' % ('polar' if polar else 'Cartesian', ', default radius, strength and cut' if default else ''), contracts=FAR)
        def _(V, polar=polar, default=default):
            r = V.pvar('r', 'pos', sampler=logu(0.05, 30))
            psi, z = V.pvar('psi', sampler=uni(-3.1, 3.1)), V.pvar('z', sampler=signed(0.05, 20))
            x, y = r * cos(psi), r * sin(psi)
            X = [V.cp(t) for t in (x, y, z)]
            kw = {} if polar else dict(polar_out=False)
            if default:
                g, R, cut = T(-1), ONE, T(6)
            else:
                g = V.var('g', sampler=uni(-3, 3))
                R, cut = V.var('R', 'pos', sampler=uni(0.3, 3)), V.var('cut', 'pos', sampler=uni(1, 8))
                kw.update(gamma_t=V.num(g), R=V.num(R), r_bar_Cut=V.num(cut))
            u = V.call(FF, *X, **kw)
            far = beyond(x, y, z, R, cut)
            M = PI * g * R * R
            ur = ite(far, M * f('dlp_r', r, z), g * f('vct_r', x, y, z, R, ZERO))
            uz = ite(far, M * f('dlp_z', r, z), g * f('vct_zz', x, y, z, R, ZERO))
            if V.symbolic:
                b = V.case(far)
                ur = M * f('dlp_r', r, z) if b else g * f('vct_r', x, y, z, R, ZERO)
                uz = M * f('dlp_z', r, z) if b else g * f('vct_zz', x, y, z, R, ZERO)
            want = (ur, uz) if polar else (ur * cos(psi), ur * sin(psi), uz)
            for k, w in enumerate(want):
                V.eq('u' + ('rz' if polar else 'xyz')[k], u[k], w)
                V.shape_is('shape', u[k], X[0])
            V.unmodified()


# ------------------------------------------------------- model of a turbine
MODELS = MEMBERS + [FF, LINE, SS]
member(FF, 'vff_', lambda b: cart_or_polar(b, ('r', 'zz')), ['R', 'r_bar_Cut'], 'gamma_t')
_conc('vff_', FF, lambda fn, x, y, z, R, c: fn(_a(x), _a(y), _a(z), 1, R, r_bar_Cut=c, polar_out=False))


def model_field(rig, model, y, cut):
    x, z, R, g = rig.L[0], rig.L[2], rig.R, rig.gt
    if model == 'VCFF':
        return [g * f('vff_' + c, x, y, z, R, cut) for c in CART]
    if model == 'VD':
        return [PI * g * R * R * f('dll_' + c, x, y, z) for c in CART]
    if model == 'SS':
        return [ZERO, ZERO, g * f('ssu', x, y, z, R, Q(587, 1000), Q(132, 100))]
    return [g * f('vct_' + c, x, y, z, R, ZERO) for c in CART]


for model in ('VC', 'VCFF', 'VD', 'SS'):
    for how in ('given to the turbine', 'asked for', 'asked for, with ground'):
        @scenario('C23', 'model %s, %s' % (model, how), contracts=MODELS)
        def _(V, model=model, how=how):
            other = 'SS' if model != 'SS' else 'VD'
            rig = Rig(V, 'zero', Model=model if how.startswith('given') else other)
            P = rig.point(V)
            cut = T(6)
            kw = {}
            if how.startswith('asked'):
                cut = V.var('cut', 'pos', sampler=uni(1, 8))
                kw = dict(Model=model, R_far_field=V.num(cut))
            ground = how.endswith('ground')
            if ground:
                kw['ground'] = True
            u = V.method(rig.o, 'compute_u', *P, **kw)
            ys = [rig.L[1]] + ([rig.L[1] + 2 * sum((a * b for a, b in zip(rig.v, rig.H)), ZERO)] if ground else [])
            w = [sum(t, ZERO) for t in zip(*(model_field(rig, model, y, cut) for y in ys))]
            w = rig.back(w)
            for i in range(3):
                V.eq('u' + 'xyz'[i], u[i], w[i], tol=1e-6, scale=T(10))
                V.shape_is('shape', u[i], P[i])
            V.unmodified()


# ---------------------------------------------------- unsupported options
def refuse(name, model, skewed, given=False, many=False, contracts=MODELS + GROUPS, **opts):
    @scenario('C23', name, contracts=contracts)
    def _(V):
        rig = Rig(V, 'set' if skewed else 'zero', **(dict(Model=model) if given else {}))
        for q in (rig.gt, rig.gl, rig.Gr):
            V.assume(ne(q, ZERO))
        if skewed:
            V.assume(or_(lt(Q(1, 10 ** 6), rig.chi), lt(rig.chi, Q(-1, 10 ** 6))))
        if many:
            several(V, rig)
        P = rig.point(V)
        kw = dict(opts)
        if not given:
            kw['Model'] = model
        V.raises('refused', Exception, lambda: V.method(rig.o, 'compute_u', *P, **kw))


for model in ('VCFF', 'VD', 'SS'):
    for given in (False, True):
        tag = ' (model of the turbine)' if given else ''
        refuse('%s of a skewed wake is refused%s' % (model, tag), model, True, given)
        for ground in (False, True):
            g = ', with ground' if ground else ''
            refuse('%s, longitudinal vorticity, straight wake is refused%s%s' % (model, g, tag), model, False, given, tang=False, longi=True, ground=ground)
            refuse('%s, longitudinal vorticity, skewed wake is refused%s%s' % (model, g, tag), model, True, given, tang=False, longi=True, ground=ground)
        refuse('%s with several cylinders is refused%s' % (model, tag), model, False, given, many=True)
        refuse('%s with several skewed cylinders is refused%s' % (model, tag), model, True, given, many=True)
for skewed in (False, True):
    refuse('unknown model is refused, %s wake' % ('skewed' if skewed else 'straight'), 'XYZ', skewed)
    refuse('unknown model is refused, %s longitudinal' % ('skewed' if skewed else 'straight'), 'XYZ', skewed, tang=False, longi=True)
