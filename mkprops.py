import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
W="The existing tests draw a handful of random inputs and compare with a tolerance; they do not reach every sign pattern, degenerate direction, angle branch or leading dimension, and an error in a rarely taken branch passes them."
p("Q01","Quaternion and 3-vector algebra is exact","Quaternion sum, product, conjugate, inverse, relative quaternion, norm, normalisation, minimisation and left/right matrix forms, and the vector helpers (dot, norm, projection, cross-product and skew-symmetric matrices), compute exactly the Hamilton/Euclidean algebra. They write only their outputs, with the caller's leading dimension, and never divide by zero for nonzero arguments.",["inputs"],"all real quaternions and vectors (nonzero where an inverse or normalisation is asked)",W,
 ["src/tf/quat_ord.c","src/tf.c","src/tf/tfmatrix.c"],[("Hamilton product and its variants","src/tf/quat_ord.c aa_tf_qmul*"),("matrix forms","src/tf/quat_ord.c aa_tf_qmatrix_l/r")])
p("R01","Rotating points and composing rotations agree in every representation","Rotating a point by a unit quaternion, a rotation matrix or an axis-angle gives the rotated point; composing, inverting and taking relative rotations corresponds to doing the rotations one after the other, undoing them and relating them. Lengths are preserved, the quaternion and matrix paths give the same point, and the quaternion built from two directions turns the first onto the second by the shortest turn.",["inputs"],"all unit quaternions, all points, all rotation matrices and angles",W,
 ["src/tf/quat_ord.c","src/tf/tfmatrix.c","src/tf.c"],[("quaternion sandwich","src/tf/quat_ord.c aa_tf_qrot"),("matrix action and product","src/tf/tfmatrix.c aa_tf_rotmat_rot/mul")])
p("R02","Converting a rotation between representations keeps the rotation","Quaternion, rotation matrix, axis-angle, rotation vector and principal-axis forms convert into each other without changing the rotation they denote, including at very small angles and near half turns. Conversions that pick one of several equivalent encodings still denote the same rotation.",["inputs"],"all rotations, including every branch of the trace/largest-diagonal case split and the small-angle series",W,
 ["src/tf/conv.c","src/tf/tfmatrix.c","src/tf.c"],[("matrix to quaternion case split","src/tf.c aa_tf_rotmat2quat"),("small-angle series","include/amino/tf/spatial.h")])
p("R03","Euler-angle conversions denote the same rotation","For each of the twelve Euler-angle sequences, converting angles to a quaternion or to a rotation matrix yields the product of the three elementary rotations in the documented order. Extracting zyx angles from a quaternion or matrix and converting back yields the same rotation away from gimbal lock.",["inputs"],"all angle triples; all rotations away from gimbal lock for extraction",W,
 ["src/mac/euler.mac","src/mac/euler77.mac","src/mac/euler_f2c.c","src/tf.c","src/tf/conv.c"],[("generated closed forms","src/mac/euler77.mac"),("zyx extraction","src/tf.c aa_tf_rotmat2eulerzyx")])
p("R04","Rotation exponentials, logarithms and powers are inverse to each other","The quaternion exponential of a pure vector is the unit quaternion of twice that rotation vector, the logarithm inverts it, powers scale the logarithm, and angle queries return the rotation angle. The small-angle series agree with the closed forms to within rounding.",["inputs"],"all quaternions except the antipode of the identity for the logarithm; all magnitudes including below every series threshold",W,
 ["src/tf/quat_ord.c","include/amino/tf/spatial.h"],[("quaternion exp/log/pow","src/tf/quat_ord.c aa_tf_qexp, aa_tf_qln, aa_tf_qpow"),("sinc series","include/amino/tf/spatial.h")])
p("T01","Rigid transforms compose, invert and act consistently","For homogeneous matrices, quaternion-translation pairs and dual quaternions, composition is function composition on points, inversion undoes a transform, relative transforms satisfy their defining equation, and all three forms move every point to the same place.",["inputs"],"all rigid transforms and points",W,
 ["src/tf/quat_qutr.c","src/tf/quat_duqu.c","src/tf/tfmatrix.c","src/tf.c"],[("quaternion-translation chain","src/tf/quat_qutr.c"),("dual quaternion product","src/tf/quat_duqu.c"),("matrix chain","src/tf/tfmatrix.c")])
p("T02","Rigid-transform conversions and constructors denote the right transform","Converting among homogeneous matrix, quaternion-translation and dual quaternion keeps the transform; Denavit-Hartenberg constructors equal the product of their elementary rotations and translations; look-at constructors give a right-handed frame at the eye whose negative z axis points to the target.",["inputs"],"all transforms, all DH parameters, all eye/target/up with non-parallel viewing and up directions",W,
 ["src/tf/conv.c"],[("DH constructors","src/tf/conv.c aa_tf_dhprox2*/aa_tf_dhdist2*"),("look-at","src/tf/conv.c aa_tf_*mzlook"),("form conversions","src/tf/conv.c")])
p("T03","Rigid-motion exponentials and logarithms are correct and inverse","The exponential of a twist is the rigid motion it generates in each representation, and the logarithm of that motion returns the twist, for rotation angles from zero up to the branch limit and including the small-angle series. Dual-quaternion, quaternion-translation and matrix versions agree.",["inputs"],"all twists with rotation below the logarithm's branch limit, every series threshold",W,
 ["src/tf/quat_duqu.c","src/tf/quat_qutr.c","src/tf/tfmatrix.c"],[("dual quaternion exp/log","src/tf/quat_duqu.c"),("screw exponential","src/tf/tfmatrix.c aa_tf_tfmat_expv/lnv"),("quaternion-translation exp/log","src/tf/quat_qutr.c")])
p("V01","Velocity, derivative and twist conversions are mutually consistent","Converting a spatial velocity to the time derivative of a pose representation and back returns the velocity, the derivative is the true derivative of the pose moving with that velocity, and twists relate to velocities by the documented identity, in every representation.",["inputs"],"all poses, all velocities",W,
 ["src/tf/quat_ord.c","src/tf/quat_duqu.c","src/tf/quat_qutr.c","src/tf/tfmatrix.c"],[("velocity/derivative maps","src/tf/quat_duqu.c aa_tf_duqu_vel2diff/diff2vel"),("quaternion derivative","src/tf/quat_ord.c aa_tf_qvel2diff")])
p("V02","Analytic Jacobians match the functions they differentiate","The Jacobians and directional derivatives of the quaternion and dual-quaternion logarithm, exponential and conjugate equal the derivatives of the corresponding functions for every argument away from singularities, including in their small-angle series.",["inputs"],"all arguments in the functions' smooth domain",W,
 ["src/tf/quat_pde.c","src/tf/quat_ord.c","src/tf/quat_duqu.c"],[("log Jacobians","src/tf/quat_pde.c"),("exp/log directional derivatives","src/tf/quat_ord.c aa_tf_qduln, aa_tf_qdpexp")])
p("V03","Stepping a pose by a constant velocity follows the exact motion","Advancing an orientation or pose by a constant velocity, twist or derivative over a time step gives the pose composed with the exponential of that motion, stays on the rotation group, and gives the same result in every representation. Runge-Kutta steps use the stated weights.",["inputs"],"all poses, velocities and step lengths",W,
 ["src/tf/quat_ord.c","src/tf/quat_duqu.c","src/tf/quat_qutr.c","src/tf/tfmatrix.c"],[("exponential steps","src/tf/quat_ord.c aa_tf_qsvel, src/tf/quat_qutr.c aa_tf_qv_svel, src/tf/quat_duqu.c aa_tf_duqu_svel")])
p("S01","Spherical interpolation is a constant-speed shortest arc","Spherical linear interpolation starts at the first orientation, ends at the second (up to sign), stays a unit quaternion, moves along the shorter arc at constant rate, and its derivative functions return the derivative of the interpolated quaternion.",["inputs"],"all pairs of unit quaternions, all interpolation parameters",W,
 ["src/tf/quat_ord.c"],[("slerp","src/tf/quat_ord.c aa_tf_qslerp*"),("slerp derivatives","src/tf/quat_ord.c aa_tf_qslerpdiff*, aa_tf_qslerpchaindiff")])
p("P01","Planar rotations and transforms agree across representations","Planar rotations as complex numbers, matrices and angles, and planar transforms as complex-translation pairs and matrices, rotate, compose, invert, convert, exponentiate and take logarithms consistently.",["inputs"],"all angles, points and planar transforms",W,
 ["src/tf/tfp.c"],[("planar transforms","src/tf/tfp.c")])
p("A01","Angle normalisation and scalar helpers return the equivalent value in range","Angle normalisation returns an angle that differs from its argument by a whole number of turns and lies in the documented interval; angle differences, clamping, modular arithmetic, near-equality and statistics helpers return what their definitions say.",["inputs"],"all angles and scalars",W,
 ["include/amino/math.h","src/math.c","src/tf.c"],[("angle normalisation","include/amino/math.h"),("statistics","src/math.c")])
p("L01","Dense vector and matrix helpers compute their mathematical definition","Vector arithmetic, norms, transposition, products, traces, determinants, weighted dot products, interpolation and plane helpers compute their definitions and touch only the elements they are given.",["inputs"],"all element values; all sizes up to a stated bound",W,
 ["src/la.c","src/la2.c"],[("dense helpers","src/la.c")])
p("L02","Matrix and vector views respect their strides and reject size mismatches","Operations on strided vector views and on matrix views with a leading dimension read and write exactly the viewed elements, compute the named operation, and report incompatible sizes before touching data. Block, row, column and diagonal views alias the right elements.",["inputs"],"all element values, strides and leading dimensions up to a stated bound",W,
 ["src/mat.c","include/amino/mat.h"],[("views and size checks","src/mat.c")])
p("L03","Optimal assignment has minimum total cost","The assignment of rows to columns of a cost matrix matches every row or every column, whichever are fewer, to a different partner, the two returned maps describe the same matching with the unmatched marked -1, and no other matching has a smaller total cost (a larger total value after the maximisation conversion). The computation ends for every matrix of real costs, negative ones included.",["inputs"],"all real cost matrices; sizes and leading dimensions up to a stated bound",W,
 ["src/la_impl.c","include/amino/la_impl.h"],[("Hungarian algorithm","src/la_impl.c aa_la_d_assign_hungarian")])
p("C01","Collision checks report the frames in contact","A collision check reports a contact exactly when some shapes of two different frames, whose pair is not allowed, touch at the poses of the frames; the set it fills holds those pairs and no others. The shapes checked are those attached for collision, with their sizes times their scale. The pairs allowed for a scene graph, in either order, stay allowed by name as frames are added, replaced, removed or copied; a set of pairs is a symmetric relation, and merging or filling sets is their union. The distance between two frames is the least over their shapes, negative when they overlap, and comes with its nearest points.",["inputs","histories"],"all real poses, sizes, separations; scenes of a few frames and shapes, every outcome of the library for each pair",W,
 ["src/rx/collision_set.cpp","src/rx/amino_fcl.cpp","src/rx/sg_api.cpp","src/rx/scene_geom.c"],[("collision sets and checks","src/rx/collision_set.cpp aa_rx_cl_set_*, src/rx/amino_fcl.cpp aa_rx_cl_check, aa_rx_cl_get_set"),("allowed pairs of a scene","src/rx/sg_api.cpp aa_rx_sg_allow_collision*")])
p("N01","Linear programs reach the solver as stated","Whichever solver library is chosen and whether the matrix is given densely or by its stored elements, the program the library is asked to solve has the caller's variables, their kinds and bounds, objective, direction and constraints, and no others, both when it is created and after its parts are replaced; the library's status and solution are returned unchanged and the library's resources are given back.",["inputs","histories"],"all real coefficients and bounds, absent bounds included; sizes up to a stated bound",W,
 ["src/opt/opt.c","src/opt/opt_glpk.c","src/opt/opt_lpsolve.c","src/opt/opt_clp.cpp"],[("linear programs","src/opt/ aa_opt_*_gmcreate, aa_opt_*_crscreate, aa_opt_set_*")])
p("O01","Integration steps implement their Butcher tableaux","Each fixed-step and embedded integrator step evaluates the derivative at the stages of its published tableau and combines them with the published weights, for any right-hand side and dimension; the resulting step integrates polynomial right-hand sides up to the method's order exactly.",["inputs"],"all right-hand sides (uninterpreted), states and step sizes",W,
 ["src/diffeq.c","src/sigsys.c"],[("integrator steps","src/diffeq.c, src/sigsys.c")])
p("M01","Region allocation hands out disjoint aligned memory in stack order","Every allocation from a memory region is aligned, large enough, disjoint from every other live allocation, and keeps its contents until it is popped or released; popping to a pointer releases exactly what was allocated since, in any sequence of allocations and pops.",["histories","inputs"],"all histories of alloc, temporary alloc, realloc, pop and release, all sizes",
 "Tests run one fixed script of sizes; errors appear only when a request straddles a chunk boundary, when a saved pointer is the end of a chunk or when a chunk is grown between a save and a pop.",
 ["src/mem.c","include/amino/mem.h"],[("region chunks","src/mem.c aa_mem_region_*")])
p("M02","Pools, lists and vectors keep exactly the elements put in them","Memory pools, region-backed lists, cons cells, heaps, growable vectors and motion plan sequences return the elements that were stored, in the documented order, recycle only released storage, and never read or write outside their storage; destroying one, or a kinematic solver context or its parameters, gives back the storage it took.",["histories","inputs"],"all histories of insertions and removals up to a stated bound",
 "Element-order and recycling errors need particular sequences of inserts, releases and growth that a scripted test does not try.",
 ["src/mem.c","include/amino/mem.h","src/heap.c","src/rx/mp_seq.cpp"],[("pool and rlist","src/mem.c"),("heap","src/heap.c")])
p("B01","Bit sets, byte order and time arithmetic are exact on every word","Bit-set operations act on exactly the addressed bits and words and terminate; byte-order conversions round-trip and place bytes in the documented order; time sums, differences and comparisons agree with integer nanosecond arithmetic.",["inputs"],"all word values and bit indices, all representable times within range",
 "Boundary words, carries and negative nanosecond parts are rare in sampled inputs.",
 ["include/amino/mem.h","include/amino/time.h","src/time.c"],[("bit sets","include/amino/mem.h aa_bits_*"),("time","include/amino/time.h")])
p("J01","Generated trajectories hit their waypoints and respect their limits","A linear or trapezoidal joint trajectory passes through every waypoint in order, a parabolic blend starts at the first and stops at the last, and a slerp trajectory goes from the first pose to the second; the velocity reported at a time is the derivative of the position, trapezoidal profiles and blends start and stop at rest without jumps in position or velocity, and no joint exceeds its velocity or (trapezoid, blend) acceleration limits at any time. Evaluation gives the same answer whatever order times are asked in and which of the results are requested, and answers 'outside' exactly for times before the start or after the duration.",["inputs"],"all boundary conditions, durations and sample times",W,
 ["src/ct/traj.cpp","src/ct/state.c","src/rx/rx_ct.c"],[("segments and blends","src/ct/traj.cpp")])
p("G01","Scene-graph joint transforms equal the fixed part composed with the joint motion","For every frame type and configuration value, the relative transform of a frame is its fixed transform composed with the rotation or translation of the joint about its axis, and the dual-quaternion, quaternion-translation and matrix forms agree.",["inputs"],"all fixed transforms, joint axes, offsets and configurations",W,
 ["src/rx/scenegraph.cpp"],[("frame transforms","src/rx/scenegraph.cpp SceneFrame*::*_rel")])
p("G02","Forward kinematics composes relative transforms and Jacobians are its derivative","Absolute transforms are the product of relative transforms from the root, and the velocity Jacobian times the joint velocities equals the derivative of forward kinematics, for every chain.",["inputs"],"all scene graphs, configurations and joint velocities",W,
 ["src/rx/scene_kin.c","src/rx/scenegraph.cpp"],[("forward kinematics","src/rx/scenegraph.cpp"),("Jacobian","src/rx/scene_kin.c")])
p("G03","Configuration maps scatter, gather and bound exactly the named joints","Converting between full configuration vectors and sub-scene-graph vectors moves exactly the entries of the named joints, leaves the rest unchanged, and limit queries return the limits that were set for that joint.",["inputs","histories"],"all scene graphs and subsets",W,
 ["src/rx/scene_sub.cpp","src/rx/sg_api.cpp"],[("configuration maps","src/rx/scene_sub.cpp")])
p("W01","Workspace control and inverse kinematics do what they report","The joint velocity computed for a workspace velocity is the damped pseudo-inverse of the chain's velocity Jacobian applied to it plus the null-space part of the reference joint velocity; position-error feedback is the velocity along the rigid motion that carries the actual pose to the reference through the shorter rotation (with unit gains, half of that motion per unit of time), its rotational and translational parts scaled by their own gains and added to the given velocity; joint centering pulls each limited joint towards the middle of its range and leaves the others alone. Control under limits asks for the fastest approach to the reference velocity within the joints' position, velocity and acceleration limits, and applies the answer to every joint. The inverse-kinematics objectives return the squared pose error and its gradient, the search starts at the seed and is bounded by the joint limits, and a solve or check reports success exactly when the end-effector pose at the returned configuration is within the angle tolerance (compared with the angle of the error quaternion, half the rotation angle) and the translation tolerance.",["inputs"],"all poses, velocities, gains, tolerances, seeds, limits and points at which the external optimiser may stop",W,
 ["src/rx/scene_wk.c","src/rx/scene_ik.c","src/rx/ik_jacobian.c","src/rx/ik_nlopt.c","src/rx/ik_opt.c","src/rx/lc3.c"],[("workspace control","src/rx/scene_wk.c aa_rx_wk_*"),("success verdict","src/rx/scene_ik.c aa_rx_ik_check, s_check; src/rx/ik_jacobian.c kin_solve_check"),("objectives","src/rx/ik_nlopt.c aa_rx_ik_opt_err_*")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
