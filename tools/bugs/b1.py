H = 'import numpy as np, sys\n'
BUGS = {}
BUGS['cyl-near-surface'] = dict(prop='C02', file='wiz/VortexCylinder.py',
  edits=[("    T1[r==R] = 1/2\n    T1[r<R]  = 1", "    T1[r<R]  = 1\n    T1[np.abs(r-R)<1e-4*R] = 1/2")],
  needs='a point closer than 1e-4 R to the sheet without being on it',
  breaks='the jump of the axial velocity across the sheet is smeared: points just inside or outside get the mean value',
  demo=H+"""
from wiz.VortexCylinder import vc_tang_u
g=-0.8; R=2.0
for z in [0.5,3.0]:
    ur,uz = vc_tang_u([R*(1-1e-5),R*(1+1e-5)],[0,0],[z,z],gamma_t=g,R=R)
    assert abs((uz[0]-uz[1])-g)<1e-3, uz
""")
BUGS['doublet-line-finite-tip'] = dict(prop='C06', file='wiz/VortexDoublet.py',
  edits=[("bOnLine = np.logical_and(bOnLine, Zcp<=L)", "bOnLine = np.logical_and(bOnLine, Zcp<=L*c)")],
  needs='a finite skewed line (m>0) and a point on its prolongation between its end and L*sqrt(1+m^2)',
  breaks='velocity forced to 0 at points beyond the end of the finite doublet line',
  demo=H+'''
from wiz.VortexDoublet import doublet_line_u, doublet_line_u_num
m=1.0; L=2.0
z=np.array([2.3,2.6]); x=m*z; y=z*0
u=doublet_line_u(x,y,z,0.7,m=m,L=L)
x2=x+1e-6
v=doublet_line_u(x2,y,z,0.7,m=m,L=L)
for a,b in zip(u,v):
    assert np.allclose(a,b,rtol=1e-3,atol=1e-6),(u,v)
''')
BUGS['root-rotor-plane-upstream'] = dict(prop='C08', file='wiz/VortexCylinderSkewed.py',
  edits=[("if (np.max(np.abs(vz)) > 0):", "if (np.max(vz) > 0):")],
  needs='a skewed root vortex and a set of control points that are all at z<=0',
  breaks='the rotor-plane formula is used for points upstream of the rotor',
  demo=H+'''
from wiz.VortexCylinderSkewed import svc_root_u_polar
m=0.6
r=np.array([0.4,0.9]); psi=np.array([0.3,2.1]); z=np.array([-0.5,-1.5])
a=svc_root_u_polar(r,psi,z,Gamma_r=-1.3,m=m)
b=svc_root_u_polar(np.append(r,1.),np.append(psi,1.),np.append(z,1.),Gamma_r=-1.3,m=m)
for x,y in zip(a,b):
    assert np.allclose(x,y[:2],atol=1e-10),(a,b)
''')
BUGS['rings-axis-offset'] = dict(prop='C04', file='wiz/VortexRing.py',
  edits=[("    Iz = r < (EPSILON * r0)\n    ur[Iz] = 0\n    uz[Iz] = Gamma/(2*r0)*(1.0/((1 +(z[Iz]/r0)**2)**(3.0/2.0)))",
          "    Iz = r < (EPSILON * r0)\n    ur[Iz] = 0\n    uz[Iz] = Gamma/(2*r0)*(1.0/((1 +((z[Iz]-z0)/r0)**2)**(3.0/2.0)))")],
  needs='a point on the axis of a ring which is not at z0=0',
  breaks='the axis velocity is computed with the ring offset applied twice',
  demo=H+'''
from wiz.VortexRing import ring_u_polar
z=np.array([-1.0,0.2,1.5])
ur,uz=ring_u_polar(np.zeros(3),z,Gamma=-1.3,r0=1.4,z0=0.7)
ur2,uz2=ring_u_polar(np.full(3,1e-4),z,Gamma=-1.3,r0=1.4,z0=0.7)
assert np.allclose(uz,uz2,atol=1e-6),(uz,uz2)
''')
BUGS['cyls-straight-mirror'] = dict(prop='C22', file='wiz/VortexCylinder.py',
  edits=[("                if np.abs(gamma_t[i,j]) > 0:", "                if np.abs(gamma_t[i,0]) > 0:")],
  needs='a cylinder group whose innermost cylinder has zero strength',
  breaks='all the concentric cylinders of a rotor are skipped when the innermost has zero strength',
  demo=H+'''
import io, contextlib
from wiz.VortexCylinder import vcs_tang_u, vc_tang_u
x=np.array([0.3,1.]);y=np.array([0.5,2.]);z=np.array([1.,-1.])
with contextlib.redirect_stdout(io.StringIO()):
    u=vcs_tang_u(x,y,z,np.array([[0,-0.5]]),np.array([[0.5,1.]]),np.array([0.]),np.array([0.]),np.array([0.]))
v=vc_tang_u(x,y,z,-0.5,1.,polar_out=False)
for a,b in zip(u,v):
    assert np.allclose(a,b,atol=1e-12),(u,v)
''')
BUGS['longi-height-sign'] = dict(prop='C09', file='wiz/VortexLine.py',
  edits=[("u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) ", "u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.maximum(np.sqrt(vr**2 + vz**2), 1e-3) ) ")],
  needs='a point within 1e-3 of the end of the straight semi-infinite line',
  breaks='the swirl near the end of the line is not that of a semi-infinite line',
  demo=H+'''
from wiz.VortexLine import vl_semiinf_straight_u_polar, vl_semiinf_u
r=3e-4; z=2e-4
u=vl_semiinf_straight_u_polar(r,0.4,z,-2.0)
v=vl_semiinf_u(r*np.cos(.4),r*np.sin(.4),z,0,0,1,-2.0,visc_model=0,t=0)
assert np.allclose(np.array(u,dtype=float),np.array(v,dtype=float),rtol=1e-8),(u,v)
''')
BUGS['tang-skew-negative-z'] = dict(prop='C07', file='wiz/VortexCylinderSkewed.py',
  edits=[("            ap, bp = R * z * np.sin(vtheta - psi), -R * np.sin(vtheta - psi)", "            ap, bp = R * z * np.sin(vtheta - psi), -R * np.sin(vtheta - psi)*np.sign(R**2+z**2-r**2)")],
  needs='polar output of the skewed tangential cylinder at a point with r^2 > R^2+z^2',
  breaks='the azimuthal velocity of the polar output is wrong far from the axis',
  demo=H+'''
from wiz.VortexCylinderSkewed import svc_tang_u_polar
r=np.array([0.5,2.5]); psi=np.array([0.7,1.1]); z=np.array([0.4,-0.3])
ur,up,uz=svc_tang_u_polar(r,psi,z,-0.9,R=1.1,m=0.5,polar_out=True)
ux,uy,uz2=svc_tang_u_polar(r,psi,z,-0.9,R=1.1,m=0.5,polar_out=False)
assert np.allclose(up,-ux*np.sin(psi)+uy*np.cos(psi),atol=1e-10)
assert np.allclose(ur, ux*np.cos(psi)+uy*np.sin(psi),atol=1e-10)
''')
