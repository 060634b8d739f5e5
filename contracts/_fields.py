"""the public velocity functions with their parameters, for the properties
that range over all of them"""
from ._common import *

VC, SV, VD, VR = 'VortexCylinder.', 'VortexCylinderSkewed.', 'VortexDoublet.', 'VortexRing.'


class Field:
    """pts: kind of point arguments (cart: x,y,z; cyl: r,psi,z; rz: r,z; r: r; xz)
    lens: parameters that are lengths; power: exponent of the velocity under a
    common scaling of all lengths; strength: name of the strength parameter;
    consts: further parameters; n: number of quadrature nodes; dom: region
    (where the function is defined)"""

    def __init__(self, qual, pts, power=0, strength=None, lens=(), consts=(), kw=(), n=None, tag='', dom=None, plane=None, opts=None, extent=None):
        self.qual, self.pts, self.power, self.strength, self.lens, self.consts, self.kw, self.n, self.tag, self.dom, self.plane = qual, pts, power, strength, lens, consts, dict(kw), n, tag, dom, plane
        self.opts = opts or {}
        self.key = qual.split('.')[1] + (' ' + tag if tag else '')


# samplers of the parameters
PAR = dict(gamma_t=uni(-3, 3), gamma_l=uni(-3, 3), Gamma_r=uni(-3, 3), Gamma=uni(-3, 3), dmz_dz=uni(-3, 3), m_z=uni(-3, 3), gamma_longi=uni(-3, 3),
           R=uni(0.3, 4), r0=uni(0.3, 4), epsilon=uni(0.05, 0.8), z0=uni(-2, 2), z1=uni(-4, -1), z2=uni(1, 4), L=uni(0.5, 5), zmax=uni(3, 40),
           m=lambda rng: rng.choice([0, rng.uniform(-1.2, 1.2)]), r_bar_Cut=uni(2, 7), lambda_=uni(0.3, 0.9), eta=uni(1, 1.6))
POSITIVE = ('R', 'r0', 'epsilon', 'L', 'zmax', 'r_bar_Cut', 'lambda_', 'eta')

FIELDS = []


def F_(*a, **k):
    FIELDS.append(Field(*a, **k))


for pol in (True, False):
    o = dict(polar_out=pol)
    t = 'polar output' if pol else 'Cartesian output'
    F_(VC + 'vc_tang_u_doublet', 'cart', 0, 'gamma_t', ('R',), ('r_bar_Cut',), kw=o, tag=t)
    F_(VC + 'vc_tang_u', 'cart', 0, 'gamma_t', ('R',), kw=o, tag=t)
    F_(VC + 'vc_tang_u', 'cart', 0, 'gamma_t', ('R', 'epsilon'), kw=o, tag='regularised, ' + t)
    F_(VC + 'vc_longi_u_polar', 'cyl', 0, 'gamma_l', ('R',), kw=o, tag=t)
    F_(VC + 'vc_longi_u', 'cart', 0, 'gamma_l', ('R',), kw=o, tag=t)
    F_(VC + 'vc_root_u', 'cart', -1, 'Gamma_r', kw=o, tag=t)
    F_(VC + 'cylinder_tang_u', 'cart', 0, 'gamma_t', ('R', 'z1', 'z2'), kw=o, tag=t)
    F_(SV + 'svc_tang_u_polar', 'cyl', 0, 'gamma_t', ('R',), ('m',), kw=o, n='ntheta', tag=t)
    F_(SV + 'svc_tang_u', 'cart', 0, 'gamma_t', ('R',), ('m',), kw=o, n='ntheta', tag=t)
    F_(SV + 'svc_longi_u_polar', 'cyl', 0, 'gamma_l', ('R',), ('m',), kw=o, n='ntheta', tag=t)
    F_(SV + 'svc_longi_u', 'cart', 0, 'gamma_l', ('R',), ('m',), kw=o, n='ntheta', tag=t)
    F_(SV + 'svc_root_u_polar', 'cyl', -1, 'Gamma_r', (), ('m',), kw=o, tag=t, dom='filament')
    F_(SV + 'svc_root_u', 'cart', -1, 'Gamma_r', (), ('m',), kw=o, tag=t, dom='filament')
    F_('VortexLine.vl_semiinf_straight_u_polar', 'cyl', -1, 'Gamma_r', kw=o, tag=t)
    F_('VortexLine.vl_semiinf_straight_u', 'cart', -1, 'Gamma_r', kw=o, tag=t)
    F_(VR + 'ring_u', 'cart', -1, 'Gamma', ('R',), kw=o, tag=t)
    F_(VR + 'ring_u', 'cart', -1, 'Gamma', ('R', 'epsilon'), kw=o, tag='regularised, ' + t)
F_(VC + 'cylinder_tang_semi_inf_u_raw', 'cart', 0, 'gamma_t', ('R',), dom='off axis and surface')
F_(VR + 'ring_u_polar_singular', 'rz', -1, 'Gamma', ('r0',), dom='off axis')
F_(VR + 'ring_u_polar_singularb', 'rz', -1, 'Gamma', ('r0',), dom='off axis')
F_(VR + 'ring_u_polar', 'rz', -1, 'Gamma', ('r0', 'z0'))
for meth in ('Saffman', 'linear'):
    F_(VR + 'ring_u_polar', 'rz', -1, 'Gamma', ('r0', 'z0', 'epsilon'), kw=dict(reg_method=meth), tag=meth)
F_(VD + 'doublet_u_polar', 'rz', -3, 'm_z', ('z0',), dom='point')
F_(VD + 'doublet_line_polar_u', 'rz', -2, 'dmz_dz', dom='point')
F_(VD + 'doublet_line_u', 'cart', -2, 'dmz_dz', (), ('m',), tag='infinite', dom='line')
F_(VD + 'doublet_line_u', 'cart', -2, 'dmz_dz', ('L',), ('m',), tag='finite', dom='line')
F_(VD + 'doublet_line_u_num', 'cart', -2, 'dmz_dz', ('zmax',), ('m',), n='nQuad', dom='line')
F_(VD + 'doublet_line_polar_u_num', 'rz', -2, 'dmz_dz', ('z0', 'zmax'), n='nQuad')
F_('SelfSimilar.ss_u', 'cart', 0, 'gamma_t', ('R',), ('lambda_', 'eta'))


REGIONS = ('outside', 'inside', 'axis', 'surface', 'rotor plane')
MARGIN = Q(1, 10 ** 3)


def regions(fd):
    if fd.dom == 'line':
        return ['beside the line', 'above or below the line']
    if fd.dom and fd.dom.startswith('off axis'):
        return ['outside', 'inside'] + (['surface'] if 'surface' not in fd.dom else []) + ['rotor plane']
    rad = [n for n in ('R', 'r0') if n in fd.lens]
    return [r for r in REGIONS if r not in ('surface', 'inside') or rad]


class Args:
    """symbolic arguments of a field function, at a point of a region"""

    def __init__(self, V, fd, region='regular', strength=True):
        self.V, self.fd = V, fd
        self.p = {}
        R = ONE
        for k in fd.lens + fd.consts:
            self.p[k] = V.var(k, 'pos' if k in POSITIVE else 'real', sampler=PAR[k])
            if k in ('R', 'r0'):
                R = self.p[k]
                V.assume(lt(MARGIN, R))
            elif k in fd.lens:
                self.p[k] = R * self.p[k]
        if fd.strength:
            self.g = V.var(fd.strength, sampler=PAR[fd.strength]) if strength else ONE
        if fd.n:
            self.n = V.ivar(fd.n, 2, 9)
        self.z0 = self.p.get('z0', ZERO)
        if 'epsilon' in self.p:
            V.assume(lt(MARGIN * R, self.p['epsilon']))
            V.assume(lt(self.p['epsilon'], (2 - MARGIN) * R))       # the core does not reach the axis
        if region is None:
            return                 # the caller chooses the points
        if fd.dom == 'line':
            d, y, z = (V.pvar(n, sampler=signed(0.05, 4)) for n in 'dyz')
            self.x, self.off = [self.p['m'] * z + d, y, z], (y if region == 'beside the line' else d)
            self.away(ONE)
            return
        self.psi = V.pvar('psi', sampler=uni(-3.1, 3.1)) if fd.pts != 'rz' else ZERO
        if region == 'axis':
            s = ZERO
        elif region == 'surface':
            s = ONE
        else:
            s = V.pvar('s', 'pos', sampler=(uni(0.05, 0.9) if region == 'inside' else uni(1.1, 6)))
            V.assume(lt(MARGIN, s))
            if R is not ONE:
                V.assume(lt(s, 1 - MARGIN) if region == 'inside' else lt(1 + MARGIN, s))
        self.r = s * R
        if region == 'rotor plane':
            self.z = ZERO
        else:
            self.z = V.pvar('zz', sampler=signed(0.05, 5)) * R
            V.assume(lt(MARGIN * R, absv(self.z)))
            for k in ('z1', 'z2', 'L', 'zmax'):
                if k in self.p:
                    V.assume(lt(MARGIN * R, absv(self.z - self.p[k])))
        self.away(ONE)

    def away(self, k):
        """off the singularities, with lengths multiplied by k"""
        V, fd = self.V, self.fd
        if fd.dom == 'line':
            V.assume(le(MARGIN, k * absv(self.off)))
            # lemma: a c > b as a^2 c^2 - b^2 = (x-mz)^2 + c^2 y^2 > 0
            (x, y, z), m = [k * t for t in self.x], self.p['m']
            b, c2, a2 = m * x + z, m ** 2 + 1, x ** 2 + y ** 2 + z ** 2
            V.eq('lemma a^2 c^2 - b^2', a2 * c2 - b ** 2, (x - m * z) ** 2 + c2 * y ** 2)
            V.assume(lt(ZERO, sqrt(a2) * sqrt(c2) - b))
        if fd.dom == 'filament':
            r, z, m, x = self.r, self.z, self.p['m'], self.r * cos(self.psi)
            c, a = sqrt(1 + m * m), sqrt(r * r + z * z)
            V.assume(le(MARGIN ** 2, k * k * a * (a - (m * x + z) / c)))
        if fd.dom in ('point', 'filament'):
            V.assume(le(MARGIN, k * k * (self.r ** 2 + self.z ** 2)))
            if self.r is not ZERO:
                V.assume(le(MARGIN, k * self.r))
        for n in ('R', 'r0', 'L'):
            if n in self.p:
                V.assume(lt(MARGIN, k * self.p[n]))

    def coords(self, k=ONE):
        fd = self.fd
        if fd.dom == 'line':
            return [k * t for t in self.x]
        if fd.pts == 'cart':
            return [k * self.r * cos(self.psi), k * self.r * sin(self.psi), k * (self.z + self.z0)]
        if fd.pts == 'cyl':
            return [k * self.r, self.psi, k * (self.z + self.z0)]
        return [k * self.r, k * (self.z + self.z0)]

    def call(self, P, k=ONE, g=None, **over):
        V, fd = self.V, self.fd
        kw = dict(fd.kw)
        for n in fd.lens:
            kw[n] = V.num(k * self.p[n])
        for n in fd.consts:
            kw[n] = V.num(self.p[n])
        if fd.strength:
            kw[fd.strength] = V.num(self.g if g is None else g)
        if fd.n:
            kw[fd.n] = V.inum(self.n)
        kw.update(over)
        u = V.call(fd.qual, *P, **kw)
        return u if isinstance(u, tuple) else (u,)
