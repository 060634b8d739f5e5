#!/usr/bin/env python3
"""writes properties.jsonl (kept in a script so that the text stays readable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['observe_at'] = observe or ['return values of the listed functions']
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

VC, VCS, VD, VR, VL, VP = ['wiz/Vortex%s.py' % s for s in ('Cylinder', 'CylinderSkewed', 'Doublet', 'Ring', 'Line', 'Point')]
WT, WF, SO, SS, EL = 'wiz/WindTurbine.py', 'wiz/WindFarm.py', 'wiz/Solver.py', 'wiz/SelfSimilar.py', 'wiz/elliptic.py'

p('C01', 'Complete elliptic integral of the third kind',
  'The elliptic integral routine returns the complete elliptic integral of the third kind, integral over 0..pi/2 of 1/((1-n sin^2 t) sqrt(1-m sin^2 t)), to its convergence tolerance for every characteristic n<1 and parameter m<1 of either sign, for arrays of any shape. It returns infinity for n>=1, an empty array for empty input, and never changes its arguments.',
  ['inputs'], 'every n<1, every m<1 (negative included), every array length and shape, every mixture of n<1 and n>=1 in one array',
  'The tests compare with mpmath at a few dozen (n,m) pairs; the duplication recurrences and the series that ends them are not shown to be right at any other point.',
  [EL], [('Carlson RF / RJ duplication', 'wiz/elliptic.py ellipticPiCarlson')])

p('C02', 'Semi-infinite tangential vortex cylinder: closed form everywhere',
  'The velocity induced by a straight semi-infinite tangential vortex cylinder is, at every point, the closed-form elliptic-integral solution; on the axis it is gamma/2(1+z/sqrt(z^2+R^2)) with no radial part, on the cylinder surface the axial velocity is the mean of the inside and outside limits (gamma/4 on the rim), and it is finite at every point. Polar and Cartesian output describe the same vector, the unguarded variant agrees with the guarded one away from axis and surface, and the axial derivative of the field is that of a vortex ring.',
  ['inputs'], 'all control points (axis, interior, surface, rim, exterior, upstream and downstream), all strengths of either sign, all radii, all array shapes, both output frames',
  'Tests evaluate one radius and one strength on a few lines and never compare with the differential relations to the ring field.',
  [VC, EL], [('tangential cylinder', 'vc_tang_u'), ('unguarded variant', 'cylinder_tang_semi_inf_u_raw')])

p('C03', 'Finite tangential cylinder is a difference of two semi-infinite ones',
  'The velocity of a finite tangential vortex cylinder between z1 and z2 equals, at every point including the axis and the surface r=R away from the two rims, the velocity of the semi-infinite cylinder starting at z1 minus that of the one starting at z2. Polar and Cartesian output describe the same vector.',
  ['inputs'], 'all control points off the two rims, all z1<z2, all radii and strengths, array shapes, both output frames',
  'The tests never evaluate the finite cylinder on its axis or surface, nor compare it with the semi-infinite solution for general extents.',
  [VC], [('finite cylinder', 'cylinder_tang_u'), ('semi-infinite cylinder', 'vc_tang_u')])

p('C04', 'Vortex rings: closed form, axis value, equivalence of formulations',
  'Every vortex ring routine (polar or Cartesian input and output, the alternative formulation, any ring position and radius) gives, off the ring core, the closed-form Biot-Savart velocity of a circular vortex filament, with the axis value Gamma R^2/(2(R^2+z^2)^1.5) and zero radial part on the axis. A group of rings induces the sum of the velocities of its rings, and regularised velocities scale linearly with circulation and reduce to the singular ones away from the core.',
  ['inputs'], 'all control points off the core, all radii, circulations, ring positions, array shapes, number of rings',
  'Tests compare the formulations with each other on a few points for one ring; agreement of every formulation with Biot-Savart everywhere is not tested.',
  [VR], [('polar ring', 'ring_u_polar'), ('Cartesian ring', 'ring_u'), ('groups', 'rings_u')])

p('C05', 'Point doublet velocity field',
  'A point doublet of moment m at a given position induces (3(m.x)x/|x|^5 - m/|x|^3)/(4 pi) at every other point, and zero at its own position; the polar routine is the same field for an axial moment.',
  ['inputs'], 'all points, all moments, all doublet positions, array shapes, both output frames',
  'Tests evaluate one moment on one line of points.',
  [VD], [('Cartesian doublet', 'doublet_u'), ('polar doublet', 'doublet_u_polar')])

p('C06', 'Doublet lines are exact integrals of point doublets',
  'The velocity of a doublet line (any direction, finite or infinite length) is the line integral of the point doublet velocity: it vanishes for zero length, its derivative with respect to length is the velocity of the point doublet at the far end, and the infinite line is its limit. The axisymmetric routine is the infinite line along the axis in both output frames, points on the line itself give zero and the value is finite at every point.',
  ['inputs'], 'all control points, all moments and directions, all lengths including infinity, array shapes',
  'Tests compare with a quadrature on a few points for one length; neither limit nor exactness for all lengths is settled.',
  [VD], [('line', 'doublet_line_u'), ('axisymmetric line', 'doublet_line_polar_u'), ('integrals', 'doublet_line_u / integrals helper')])

p('C07', 'Skewed tangential vortex cylinder',
  'The velocity induced by a skewed semi-infinite tangential vortex cylinder is the skewed-cylinder integral over the azimuth evaluated with the requested number of intervals, in every output frame (Cartesian, polar, skew components), for any control point, skew angle, radius and strength. At zero skew the integrand is that of the straight cylinder.',
  ['inputs', 'configurations'], 'all control points off the surface, |skew|<90 deg, all radii, strengths, azimuthal resolutions, output frames, array shapes',
  'Tests look at one skew angle in the rotor plane.',
  [VCS], [('tangential', 'svc_tang_u_polar, svc_tang_u'), ('groups', 'svcs_tang_u'), ('frames', 'skew_components, polar_components')])

p('C08', 'Skewed longitudinal and root vorticity',
  'The skewed longitudinal cylinder returns the skewed-cylinder integral over the azimuth, and the skewed root vortex the Biot-Savart velocity of a straight semi-infinite filament along the skewed wake axis, for any point, skew angle and strength. In every output frame the same vector is described and all components have the shape of the control points.',
  ['inputs', 'configurations'], 'all control points off the vorticity, |skew|<90 deg, strengths, resolutions, output frames, shapes',
  'Tests exercise the Cartesian output of these routines in the rotor plane at one skew angle.',
  [VCS, VL], [('longitudinal', 'svc_longi_u_polar'), ('root', 'svc_root_u_polar'), ('all', 'svc_u_polar, svc_u')])

p('C09', 'Straight longitudinal cylinder, root vortex and semi-infinite line',
  'The straight longitudinal vortex cylinder, the straight root vortex and the general semi-infinite vortex filament return their closed-form Biot-Savart velocities off the vorticity, and the straight ones agree with the general filament. All return finite values (zero swirl on the axis; the surface mean at r=R) at every point, in Cartesian and polar output.',
  ['inputs'], 'all control points including axis and cylinder surface, all strengths, radii, filament directions and positions, array shapes, viscous models',
  'Tests evaluate the filament at a few points and the longitudinal cylinder only indirectly.',
  [VC, VL], [('longitudinal cylinder', 'vc_longi_u, vc_longi_u_polar'), ('root', 'vc_root_u'), ('filament', 'vl_semiinf_u, vl_semiinf_straight_u')])

p('C10', 'Two-dimensional vortex points',
  'A set of two-dimensional vortex points induces at each control point the sum over the points of the kernel Gamma/(2 pi) (-dy,dx)/r^2 times the chosen smoothing factor, a control point coinciding with a vortex receives nothing from it, and the result is linear in the strengths and independent of the order of the vortices.',
  ['inputs', 'configurations'], 'any number of vortices and control points, all positions, strengths, smoothing models, kernel orders and smoothing lengths',
  'No test covers this module at all.',
  [VP], [('single vortex', 'vp_u'), ('set of vortices', 'vps_u')])

p('C11', 'Self-similar induction model',
  'The self-similar induction is the published product of the centreline induction and the radial shape function, with the half-width, the near-rotor and far-upstream limits as published, for every thrust coefficient, radius and upstream position.',
  ['inputs'], 'all thrust coefficients, radii, upstream distances, array shapes, parameter sets',
  'Tests draw one curve.', [SS], [('induction', 'induction and its helper functions')])

p('C12', 'From rotor loading to a momentum-consistent wake',
  'The vorticity obtained from a discrete circulation distribution satisfies the model equations on every annulus: wake convection of the tangential vorticity consistent with the local thrust including swirl and the high-thrust correction, induced velocities that are the sums over the outer cylinders, conservation of circulation between bound, trailed and root vorticity. The same loading given as thrust coefficient or as circulation leads to the same wake.',
  ['inputs', 'configurations'], 'any number of radial stations, loading distributions, tip-speed ratios, with and without swirl, high-thrust correction on or off',
  'Tests compare one loading distribution with stored numbers.', [SO],
  [('discrete closure', 'WakeVorticityFromCirculation_Discr'), ('drivers', 'WakeVorticityFromCt, WakeVorticityFromGamma')])

p('C13', 'Prescribed thrust: circulation, cut-off and annular inductions',
  'The circulation found for a prescribed thrust distribution satisfies k(1+k/(4 lambda_r^2)) = Ct on every annulus (k=Ct without swirl), the root and tip cut-off only lowers the loading inside its cut zones, and the inductions from prescribed thrust and torque satisfy the one-dimensional momentum relations 4a(1-a)=Ct and 4a\'(1-a)lambda_r=Cq (with the high-thrust branch beyond the critical loading). The continuous closure returns the same inductions as the momentum relations it integrates.',
  ['inputs', 'configurations'], 'all thrust levels, radial grids, tip-speed ratios, cut-off fractions',
  'Tests use one constant thrust coefficient.', [SO],
  [('Ct to circulation', 'CirculationFromPrescribedCt'), ('cut-off', 'Ct_const_cutoff'), ('stream-tube inductions', 'InductionsFromPrescribedCtCq_ST'), ('continuous closure', 'InductionsFromCirculation_VC_Cont, WakeVorticityFromCirculation_Cont')])

p('C14', 'Turbine pose: orthonormal frames, yaw and wind geometry',
  'Whatever sequence of yaw, wind, position and skew settings is applied, the local-to-global frame of a turbine is a proper rotation taking the local axes to shaft, horizontal and vertical directions, its shaft lies at the set yaw angle in the horizontal plane about the vertical direction, and the wind angle, yaw error and skew angle are the signed angles between shaft and wind. Transforming to local coordinates and back is the identity, and rotor points lie on circles of the requested radii in the rotor plane.',
  ['inputs', 'histories'], 'all orientations of shaft and vertical, all yaw angles, winds, positions, radii; all call sequences',
  'Tests use two yaw angles with the standard axes.', [WT],
  [('frames', 'WindTurbine.set_yaw0_coord, update_yaw_pos, transform, RotMat_AxisAngle, orth_vect'), ('wind', 'update_wind, yaw_wind, yaw_error'), ('rotor', 'rotor_disk_points')],
  state=[('R_a2g / R_g2a', 'local to global rotation', 'WindTurbine'), ('yaw_pos', 'yaw angle', 'WindTurbine')])

p('C15', 'Turbine velocity field: sum of wake components in the turbine frame',
  'The velocity returned by a turbine is the velocity of its wake model (tangential, longitudinal and root components requested, with the straight or skewed wake) evaluated in the turbine frame, rotated back to global axes and shifted to the turbine position, plus the free stream unless only the induction is requested. Moving and rotating the turbine together with the wind and the control points moves and rotates the velocity.',
  ['inputs', 'configurations'], 'all poses, winds, control points, component selections, wake models, array shapes',
  'Tests use standard axes, a turbine at the origin and one yaw angle.', [WT, VC, VCS, VD, VR, SS],
  [('field', 'WindTurbine.compute_u')])

p('C16', 'Turbine results depend on the current settings only',
  'The velocity field of a turbine depends only on its current position, yaw, wind, loading and explicitly imposed skew angle: evaluating the field, at any point and any number of times, never changes what later evaluations return, and changing wind, yaw or position afterwards has the same effect as on a freshly built turbine.',
  ['histories'], 'all sequences of evaluations and setting changes',
  'Tests build a turbine and evaluate it once or twice without changing the wind in between.', [WT],
  [('cached skew angle', 'WindTurbine.compute_u, set_chi')], state=[('chi', 'wake skew angle', 'WindTurbine')],
  observe=['return value of compute_u', 'attributes of the turbine'])

p('C17', 'Ground effect: no flow through the ground',
  'With ground effect on, the velocity induced by the tangential vorticity of one or several rotors is that of the rotors plus their mirror images in the plane y=0, so the velocity normal to the ground vanishes at every point of it and the field is mirror-symmetric about it; rotors far above the ground are unaffected.',
  ['inputs'], 'all rotor positions above ground, radii, strengths, skew angles, numbers of rotors and cylinders, all ground points',
  'The test looks at one turbine and one line of points.', [WT, VC, VCS],
  [('mirror', 'vcs_tang_u, svcs_tang_u, WindTurbine.compute_u')])

p('C18', 'Wake masking touches exactly the wake',
  'Asking for the field without wake zeroes the induced velocity at points inside the wake tube of the turbine (downstream of just above the rotor, within the rotor radius) and leaves every other point exactly as without masking.',
  ['inputs', 'configurations'], 'all points, poses, wake models, array shapes',
  'No test uses it beyond plots.', [WT], [('masking', 'WindTurbine.compute_u no_wake')])

p('C19', 'Wind farm: superposition, layout and membership',
  'The velocity field of a wind farm is the free stream plus the sum of the inductions of its turbines with the requested options, for any number and order of turbines; setting a layout moves exactly the turbines to the given positions and reading it returns them; only turbines can be added, and generated grid layouts have the requested counts and spacings.',
  ['inputs', 'histories', 'configurations'], 'all farms, control points, layouts, grid sizes and spacings, sequences of appends',
  'Tests use one farm of a few identical turbines.', [WF, WT],
  [('farm', 'WindFarm.velocity_field, append, layout, nWT'), ('grids', 'gridLayout, windfarm_gridlayout_CTconst')])

p('C20', 'Inputs are never modified',
  'No routine of the library changes arrays or lists passed to it by the caller, nor keeps a reference through which a later change by the caller alters stored state.',
  ['inputs', 'configurations'], 'every public routine, every argument, all array contents including the special values handled separately (zero radius, zero strength)',
  'Tests never compare arguments after a call.', [VC, VCS, VD, VR, VL, VP, SO, SS, WT, WF, EL],
  [('frame condition', 'all public functions')], observe=['arguments after the call'])

p('C21', 'Fields are pointwise and shape preserving',
  'The velocity at a control point depends only on that point and the parameters, not on which other points are evaluated in the same call, and results have the shape of the control-point arrays for arrays of any dimension, contiguity or integer type, with one finite value per component and point off the singularities.',
  ['inputs'], 'all array shapes (empty, one, many points, matrices), integer and float coordinates, any mixture of axis, surface and regular points',
  'Tests use float vectors and matrices with regular points only.', [VC, VCS, VD, VR, VL, WT],
  [('elementwise evaluation', 'all velocity functions')])

p('C22', 'Groups of cylinders and rings are sums and linear in strength',
  'The field of a group of cylinders or rings, straight or skewed, with or without ground effect, is the sum of the fields of its members each placed at its own centre with its own radius, strength (and skew), members of zero strength contribute nothing, and the field is linear in the strengths.',
  ['inputs'], 'any number of rotors and of concentric cylinders per rotor, all strengths, radii, centres',
  'Tests use one or two rotors with one cylinder each.', [VC, VCS, VR],
  [('groups', 'vcs_tang_u, vcs_longi_u, svcs_tang_u, svcs_longi_u, rings_u')])

p('C23', 'Far-field and model switches choose the stated model',
  'The accelerated cylinder model returns the exact cylinder velocity within the cut radius and the doublet-line velocity of equal strength (moment gamma pi R^2 per unit length) beyond it, independent of other points. A turbine asked for a combination its wake model does not support refuses with an error instead of returning a field.',
  ['inputs', 'configurations'], 'all points on both sides of the cut radius, strengths, radii, cut factors; all option combinations',
  'Tests use neither mixed near and far points nor unsupported combinations.', [VC, WT],
  [('switch', 'vc_tang_u_doublet'), ('selection', 'WindTurbine.compute_u')])

p('C24', 'Dimensional consistency',
  'Scaling all lengths (control points, radii, positions, filament lengths) by a common factor leaves cylinder-induced velocities unchanged and scales ring and filament velocities by its inverse and point-doublet velocities by its inverse cube, and every induced velocity is proportional to the strength of its vorticity, zero strength giving zero.',
  ['inputs'], 'all scale factors, points, strengths for every elementary solution',
  'Tests use unit-size geometry.', [VC, VCS, VR, VL, VD],
  [('elementary solutions', 'all velocity functions')])

p('C25', 'Skewed-wake analytical rotor-plane functions',
  'The analytical rotor-plane functions of the skewed wake (in-plane flow expansion, its Taylor coefficients, and the velocity ratios K) are even in the skew angle where stated, satisfy K_z = sin(chi) K_xi relation to the tangent-half-angle forms, and reduce to the straight-wake values at zero skew, for arrays of any shape.',
  ['inputs'], 'all radii ratios inside and outside the rotor, all skew angles, output options',
  'No test covers them outside one plot.', [VCS], [('rotor-plane functions', 'fV_*, fKxit, fKzt')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
