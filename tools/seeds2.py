SEEDS = []
def seed(**k): SEEDS.append(k)


seed(id="r01-axang-rot-small", property="R01",
 edits=[("src/tf.c", "    double c = cos(theta);\n    double s = sin(theta);\n\n    double kv[3];", "    double c = fabs(theta) < 1e-3 ? 1 : cos(theta);\n    double s = sin(theta);\n\n    double kv[3];")],
 needs="rotating a point by an axis-angle of less than a milliradian",
 breaks="the rotated point is off the rotated position by up to 5e-7 of its length, and its length changes",
 demo=r"""
static void run(void) {
  double a[4] = {0,0,1,9e-4}, v[3] = {1000,0,0}, r[3];
  aa_tf_axang_rot(a, v, r);
  check(fabs(sqrt(r[0]*r[0]+r[1]*r[1]+r[2]*r[2])-1000) < 1e-7, "length is preserved");
}""")

seed(id="r02-rotvec-series-range", property="R02",
 edits=[("src/tf/conv.c", """    double a;
    if (theta < sqrt(sqrt(DBL_EPSILON))) {
        a = 2*aa_tf_invsinc_series(theta);""", """    double a;
    if (theta < .1) {
        a = 2*aa_tf_invsinc_series(theta);""")],
 needs="a rotation of a few hundredths of a radian up to .2",
 breaks="converting a quaternion to a rotation vector uses the three-term series far outside its range",
 demo=r"""
static void run(void) {
  double h = .095, q[4] = {sin(h),0,0,cos(h)}, r[3];
  aa_tf_quat2rotvec(q, r);
  check(fabs(r[0]-2*h) < 1e-12, "rotation vector of a quaternion");
}""")

seed(id="r03-pitch-clamp", property="R03",
 edits=[("src/tf/conv.c", "    e[1] = asin( 2.0*(w*y - x*z) );", "    e[1] = asin( AA_MAX(-.99999, AA_MIN(.99999, 2.0*(w*y - x*z))) );")],
 needs="a pitch within .0045 rad of a right angle, short of gimbal lock",
 breaks="Euler angles extracted from a quaternion do not denote its rotation",
 demo=r"""
static void run(void) {
  double p = M_PI/2 - 2e-3, q[4] = {0, sin(p/2), 0, cos(p/2)}, e[3];
  aa_tf_quat2eulerzyx(q, e);
  check(fabs(e[1]-p) < 1e-6, "pitch is recovered");
}""")

seed(id="t01-93inv-order", property="T01",
 edits=[("src/tf.c", "    aa_tf_93chain( R1i, v1i, R2, v2, Rrel, vrel );\n}\n\nvoid aa_tf_12rel", "    aa_tf_93chain( R1i, v1i, R2, v2, Rrel, vrel );\n    if( v1 == v2 ) AA_MEM_ZERO(vrel, 3);\n}\n\nvoid aa_tf_12rel")],
 needs="relating two rotations that share one translation array",
 breaks="the relative transform loses its translation, which is zero only when the rotations are the same... or the translation is rotated about itself",
 demo=r"""
void aa_tf_93rel(const double*,const double*,const double*,const double*,double*,double*);
static void run(void) {
  double I[9]={1,0,0,0,1,0,0,0,1}, Z[9]={0,1,0,-1,0,0,0,0,1}, v[3]={1,2,3}, R[9], r[3];
  aa_tf_93rel(I, v, Z, v, R, r);
  check(near_(r, (double[]){0,0,0}, 3, 1e-12), "relative translation");
}""")
SEEDS.pop()

seed(id="t02-mzlook-scale", property="T02",
 edits=[("src/tf/conv.c", """    aa_tf_vnormalize(x);
    aa_tf_vnormalize(y);
    aa_tf_vnormalize(z);""", """    aa_tf_vnormalize(x);
    aa_tf_vnormalize(z);
    AA_TF_CROSS(x,z,y);""")],
 needs="calling a look-at constructor (no test does)",
 breaks="the look-at frame is left-handed",
 demo=r"""
static void run(void) {
  double eye[3]={1,2,3}, tgt[3]={4,-1,2}, up[3]={0,0,1}, R[9];
  aa_tf_rotmat_mzlook(eye, tgt, up, R);
  double c[3] = {R[1]*R[5]-R[2]*R[4], R[2]*R[3]-R[0]*R[5], R[0]*R[4]-R[1]*R[3]};
  check(near_(c, R+6, 3, 1e-9), "right-handed frame");
}""")

seed(id="t03-expv-translation-series", property="T03",
 edits=[("src/tf/tfmatrix.c", "        ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );", "        ssc = aa_horner3( theta2, 1./2, -1./120, 1./5040 );")],
 needs="a twist with rotation below 1.2e-4 rad and a large translation",
 breaks="the translation of the exponential of a nearly pure translation is off by a third of theta squared",
 demo=r"""
static void run(void) {
  double v[6] = {1e6,0,0, 0,1e-4,0}, T[12], q[4], t[3];
  aa_tf_tfmat_expv(v, T);
  double h[3] = {0,.5e-4,0}, u[3] = {.5e6,0,0};
  aa_tf_qv_expv(h, u, q, t);
  check(near_(T+9, t, 3, 1e-6), "matrix and quaternion exponentials agree");
}""")

seed(id="v01-twist2diff-last", property="V01",
 edits=[("src/tf/quat_duqu.c", "    aa_tf_duqu_mul(t,d,dd);\n    for( size_t i = 0; i < 8; i ++ ) dd[i] /= 2;", "    aa_tf_duqu_mul(t,d,dd);\n    for( size_t i = 0; i < 7; i ++ ) dd[i] /= 2;")],
 needs="a pose with translation and a twist that moves along it",
 breaks="the derivative of the dual quaternion has a doubled last component",
 demo=r"""
static void run(void) {
  double d[8], t[8], a[8], b[8], v[3]={1,2,3}, q[4]={.5,.5,.5,.5}, dx[6]={.1,.2,.3,.4,.5,.6};
  aa_tf_qv2duqu(q, v, d);
  aa_tf_duqu_vel2twist(d, dx, t);
  aa_tf_duqu_twist2diff(d, t, a);
  aa_tf_duqu_vel2diff(d, dx, b);
  check(near_(a, b, 8, 1e-12), "derivative from the twist equals derivative from the velocity");
}""")

seed(id="v03-tfmat-svel-cross", property="V03",
 edits=[("src/tf/tfmatrix.c", "        for( i = 0; i < 3; i ++ )\n            (delta+AA_TF_DX_V)[i] -= cross[i];", "        if( dt > 0 ) for( i = 0; i < 3; i ++ )\n            (delta+AA_TF_DX_V)[i] -= cross[i];")],
 needs="a negative time step",
 breaks="stepping a transformation matrix backwards in time does not retrace the motion",
 demo=r"""
static void run(void) {
  double T[12]={1,0,0,0,1,0,0,0,1, 3,-2,1}, dx[6]={.1,.2,.3,.4,.5,.6}, A[12], B[12];
  aa_tf_tfmat_svel(T, dx, .5, A);
  aa_tf_tfmat_svel(A, dx, -.5, B);
  double v1[3]; for (int i = 0; i < 3; i++) v1[i] = dx[i]*.5;
  double E[7] = {0,0,0,1,3,-2,1}, E1[7]; aa_tf_qutr_svel(E, dx, -.5, E1);
  aa_tf_tfmat_svel(T, dx, -.5, B);
  check(near_(B+9, E1+4, 3, 1e-9), "matrix and quaternion steps agree");
}""")

seed(id="p01-inv2-translation", property="P01",
 edits=[("src/tf/tfp.c", "    double c = (R[0] + R[3])/2;\n    double s = (R[1] - R[2])/2;", "    double c = (R[0] + R[3])/2;\n    double s = fabs(c) < 1e-9 ? fabs(R[1]) : (R[1] - R[2])/2;")],
 needs="a planar rotation by a right angle clockwise",
 breaks="a clockwise quarter turn converts to a counter-clockwise one",
 demo=r"""
#include <complex.h>
double aa_tf_rotmatp2angle(const double R[4]);
static void run(void) {
  double R[4] = {0,-1,1,0};
  check(fabs(aa_tf_rotmatp2angle(R) + M_PI/2) < 1e-12, "angle of a clockwise quarter turn");
}""")

seed(id="a01-delta-once", property="A01",
 edits=[("include/amino/math.h", "    return aa_ang_norm_pi( aa_ang_norm_pi(a) - aa_ang_norm_pi(b) );", "    return aa_ang_norm_pi(a) - aa_ang_norm_pi(b);")],
 needs="two angles on either side of pi",
 breaks="the difference of two angles leaves (-pi, pi)",
 demo=r"""
static void run(void) {
  check(fabs(aa_ang_delta(3.1, -3.1) - (6.2-2*M_PI)) < 1e-12, "angle difference across pi");
}""")

seed(id="l01-point-plane", property="L01",
 edits=[("src/la.c", "    return d / cblas_dnrm2( (int)(n), plane, 1 );", "    return d / cblas_dnrm2( (int)(n+1), plane, 1 );")],
 needs="a plane that does not pass through the origin",
 breaks="the distance of a point to a plane depends on the plane's offset",
 demo=r"""
static void run(void) {
  double p[3]={1,1,5}, pl[4]={0,0,1,-2};
  check(fabs(aa_la_point_plane(3,p,pl)-3) < 1e-12, "distance to the plane z=2");
}""")

seed(id="l02-block-bound", property="L02",
 edits=[("src/mat.c", None, None)], needs="", breaks="", demo="")
SEEDS.pop()

seed(id="o01-rkf45-weight", property="O01",
 edits=[("src/sigsys.c", "    static const double v2[] = {16.0/135, 2.0/55, 6656.0/12825, 28561.0/56430, -9.0/50};", "    static const double v2[] = {16.0/135, 2.0/55, 6656.0/12825, 28561.0/56403, -9.0/50};")],
 needs="using the fifth-order result of the Fehlberg step",
 breaks="the weights of the fifth-order result do not add up to one",
 demo=r"""
static void f(const void *cx, double t, const double *x, double *y) { (void)cx; (void)t; (void)x; y[0] = 1; }
static void run(void) {
  double x0[1]={0}, k[6]={1}, x4[1], x5[1];
  aa_odestep_rkf45(1, f, NULL, 0, 1, x0, k, x4, x5);
  check(fabs(x4[0]-1) < 1e-9, "fourth order"); check(fabs(x5[0]-1) < 1e-9, "fifth order");
}""")

seed(id="m02-rlist-tail", property="M02",
 edits=[("src/mem.c", "    if( NULL == list->head ) list->tailp = &list->head;\n    return node->data;", "    return node->data;")],
 needs="emptying a list by popping and then enqueueing",
 breaks="elements enqueued after the list was emptied are lost",
 demo=r"""
static void run(void) {
  struct aa_mem_region r; aa_mem_region_init(&r, 1024);
  struct aa_mem_rlist *l = aa_mem_rlist_alloc(&r);
  int a, b; aa_mem_rlist_enqueue_ptr(l, &a); aa_mem_rlist_pop(l);
  aa_mem_rlist_enqueue_ptr(l, &b);
  check(aa_mem_rlist_pop(l) == &b, "element enqueued after emptying the list");
}""")

seed(id="m01-dup-size", property="M01",
 edits=[("src/mem.c", None, None)], needs="", breaks="", demo="")
SEEDS.pop()

seed(id="b01-tm-cmp", property="B01",
 edits=[("include/amino/time.h", "    return ( t1.tv_sec != t2.tv_sec ) ?\n        (t1.tv_sec - t2.tv_sec) :", "    return ( t1.tv_sec > t2.tv_sec ) ?\n        (t1.tv_sec - t2.tv_sec) :")],
 needs="comparing an earlier second with larger nanoseconds to a later second",
 breaks="an earlier time compares as later",
 demo=r"""
#include <amino/time.h>
static void run(void) {
  struct timespec a = {1, 900000000}, b = {2, 100000000};
  check(aa_tm_cmp(a,b) < 0, "1.9 s is before 2.1 s");
}""")

seed(id="g01-revolute-duqu-offset", property="G01",
 edits=[("src/rx/scenegraph.cpp", """    double qo = q[this->config_index] + this->offset;
    double h[4],v2[3];""", """    double qo = q[this->config_index] - this->offset;
    double h[4],v2[3];""")],
 needs="the dual-quaternion form of a revolute joint with an offset",
 breaks="the dual quaternion of a revolute frame turns by the configuration minus the offset",
 libs="", demo="")
SEEDS.pop()

seed(id="g02-prismatic-jac", property="G02",
 edits=[("src/rx/scene_kin.c", """                aa_tf_cross(jr, tmp, jp);
                break;
            }
            case AA_RX_FRAME_PRISMATIC:
                AA_MEM_ZERO(jr, 3);
                aa_tf_qrot(q,a,jp);""", """                aa_tf_cross(jr, tmp, jp);
                break;
            }
            case AA_RX_FRAME_PRISMATIC:
                AA_MEM_ZERO(jr, 3);
                AA_MEM_CPY(jp, a, 3);""")],
 needs="a prismatic joint below a rotated frame",
 breaks="the velocity Jacobian of a sliding joint ignores the orientation of the frame it slides in",
 libs="", cflags="",
 demo=r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_fk.h"
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double q[4] = {0,0,M_SQRT1_2,M_SQRT1_2}, v[3] = {0,0,0}, ax[3] = {1,0,0};
  aa_rx_sg_add_frame_prismatic(sg, "", "a", q, v, "qa", ax, 0);
  aa_rx_sg_init(sg);
  struct aa_rx_sg_sub *s = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg,"a"));
  struct aa_mem_region *reg = aa_mem_region_local_get();
  struct aa_rx_fk *fk = aa_rx_fk_alloc(sg, reg);
  double c[1] = {.3}; struct aa_dvec qv = AA_DVEC_INIT(1,c,1);
  aa_rx_fk_all(fk, &qv);
  struct aa_dmat *J = aa_rx_sg_sub_jac_vel_get(s, reg, fk);
  double want[3] = {0,1,0};
  check(near_(J->data + AA_TF_DX_V, want, 3, 1e-9), "column of a sliding joint");
}""")

seed(id="g03-scatter-inc", property="G03",
 edits=[("src/rx/scene_kin.c", "    int inc = (int)config_all->inc;\n    for( size_t i = 0, j=0; i < ssg->config_count; i ++, j+=config_subset->inc ) {\n        int k =  (int)(ssg->configs[i]) * inc;\n        config_all->data[k]", "    int inc = (int)config_all->inc;\n    for( size_t i = 0, j=0; i < ssg->config_count; i ++, j+=config_all->inc ) {\n        int k =  (int)(ssg->configs[i]) * inc;\n        config_all->data[k]")],
 needs="a sub-scene-graph vector and a full vector with different strides",
 breaks="scattering a strided sub-configuration moves the wrong entries",
 libs="",
 demo=r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double q[4] = {0,0,0,1}, v[3] = {0,0,0}, ax[3] = {1,0,0};
  aa_rx_sg_add_frame_revolute(sg, "", "a", q, v, "qa", ax, 0);
  aa_rx_sg_add_frame_revolute(sg, "a", "b", q, v, "qb", ax, 0);
  aa_rx_sg_init(sg);
  struct aa_rx_sg_sub *s = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg,"b"));
  double x[4] = {1,-1,2,-1}, y[2] = {0,0};
  struct aa_dvec xv = AA_DVEC_INIT(2,x,2), yv = AA_DVEC_INIT(2,y,1);
  aa_rx_sg_sub_config_scatter(s, &xv, &yv);
  double a = y[aa_rx_sg_config_id(sg,"qa")], b = y[aa_rx_sg_config_id(sg,"qb")];
  check(a == 1 && b == 2, "scattered entries");
}""")

seed(id="j01-lin-negative-limit", property="J01",
 edits=[("src/ct/traj.cpp", """        if (cx->dq[i] < 0) {
            dti = cx->dq[i] / limits->min->dq[i];
        } else {
            dti = cx->dq[i] / limits->max->dq[i];
        }
        dt = AA_MAX(dt, dti);

        if( ! std::isfinite(dti) ) {
            fprintf(stderr, "WARNING: time for configuration %lu of linear segment is not normal""", """        dti = fabs(cx->dq[i]) / limits->max->dq[i];
        dt = AA_MAX(dt, dti);

        if( ! std::isfinite(dti) ) {
            fprintf(stderr, "WARNING: time for configuration %lu of linear segment is not normal""")],
 needs="a joint whose backward velocity limit is smaller than its forward limit, moving backward",
 breaks="a linear trajectory exceeds the backward velocity limit",
 libs="",
 demo=r"""
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
static void run(void) {
  struct aa_mem_region r; aa_mem_region_init(&r, 4096);
  struct aa_ct_pt_list *pl = aa_ct_pt_list_create(&r);
  double q0 = 0, q1 = -1, lo = -.5, hi = 2;
  struct aa_ct_state s = {0}; s.n_q = 1;
  s.q = &q0; aa_ct_pt_list_add(pl, &s);
  s.q = &q1; aa_ct_pt_list_add(pl, &s);
  struct aa_ct_state mn = {0}, mx = {0}; mn.n_q = mx.n_q = 1; mn.dq = &lo; mx.dq = &hi;
  struct aa_ct_limit lim = {&mn, &mx};
  struct aa_ct_seg_list *sl = aa_ct_tjq_lin_generate(&r, pl, &lim);
  double q[1], dq[1]; struct aa_ct_state o = {0}; o.n_q = 1; o.q = q; o.dq = dq;
  aa_ct_seg_list_eval(sl, &o, aa_ct_seg_list_duration(sl)/2);
  check(dq[0] >= lo - 1e-9, "backward velocity limit");
}""")
