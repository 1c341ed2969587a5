SEEDS = []
def seed(**k): SEEDS.append(k)


seed(id="q01-mulnorm-near-unit", property="Q01",
 edits=[("src/tf/quat_ord.c", "    aa_tf_qmul(a,b,c);\n    aa_tf_qnormalize(c);", "    aa_tf_qmul(a,b,c);\n    if( fabs(aa_tf_qdot(c,c) - 1) > 1e-6 ) aa_tf_qnormalize(c);")],
 needs="factors whose product has a length within 5e-7 of one, as drift gives",
 breaks="the normalised product is not of unit length, so drift is never removed",
 demo=r"""
static void run(void) {
  double a[4] = {.6*(1+2e-7),0,0,.8*(1+2e-7)}, b[4] = {0,0,0,1}, c[4];
  aa_tf_qmulnorm(a, b, c);
  check(fabs(sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]+c[3]*c[3])-1) < 1e-9, "product has unit length");
}""")

seed(id="t01-tf-near-identity", property="T01",
 edits=[("src/tf/quat_qutr.c", "    //aa_tf_qrot( quat, p0, p1 );\n", "    //aa_tf_qrot( quat, p0, p1 );\n    if( q[3] > 1 - 1e-13 ) {\n        FOR_VEC(i) p1[i] = p0[i] + v[i];\n        return;\n    }\n")],
 needs="a transform whose rotation is below about 9e-7 rad",
 breaks="points are translated but not rotated by quaternion-translation transforms",
 demo=r"""
static void run(void) {
  double h = 2e-7, E[7] = {0,0,sin(h),cos(h),1,2,3}, p[3] = {1,0,0}, r[3];
  aa_tf_qutr_tf(E, p, r);
  check(near_(r, (double[]){1+cos(2*h),2+sin(2*h),3}, 3, 1e-9), "transformed point");
}""")

seed(id="t02-dhprox-small-twist", property="T02",
 edits=[("src/tf/conv.c", "    v[0] = a;\n    v[1] = -d*sa2;\n    v[2] = d*ca2;", "    v[0] = a;\n    v[1] = fabs(sa2) < 1e-5 ? 0 : -d*sa2;\n    v[2] = d*ca2;")],
 needs="proximal Denavit-Hartenberg parameters with a link twist below 1e-5 rad and a link offset",
 breaks="the quaternion form of the transform differs from the matrix form by the offset times the twist",
 demo=r"""
static void run(void) {
  double E[7], T[12];
  aa_tf_dhprox2qutr(8e-6, .1, 10, .3, E);
  aa_tf_dhprox2tfmat(8e-6, .1, 10, .3, T);
  check(near_(E+4, T+9, 3, 1e-8), "translations of both forms");
}""")

seed(id="l01-colcov-first-column", property="L01",
 edits=[("src/la_impl.c", "        memcpy( t, A+j, sizeof(t[0])*m );\n        AA_CBLAS_NAME(axpy) ((int)m, -1.0, x, (int)1,", "        memcpy( t, A+(j/lda)*m + (lda > 2*m ? 0 : (j/lda)*(lda-m)), sizeof(t[0])*m );\n        AA_CBLAS_NAME(axpy) ((int)m, -1.0, x, (int)1,")],
 needs="the covariance of a narrow view, whose leading dimension is more than twice the rows",
 breaks="the covariance is that of consecutive elements, not of the columns",
 demo=r"""
static void run(void) {
  double A[12] = {1,99,99,3,99,99,8,99,99,0,99,99}, mu[1] = {3}, E[1];
  aa_la_d_colcov(1, 4, A, 3, mu, E, 1);
  check(fabs(E[0] - (4+0+25+9)/3.) < 1e-12, "variance of a row");
}""")

seed(id="l02-inc-padding", property="L02",
 edits=[("src/mat.c", "    if( m == ld ) {\n        s_inc(m*n, alpha, x, 1);", "    if( n == 1 || m == ld ) {\n        s_inc(ld*n, alpha, x, 1);")],
 needs="incrementing a one-column block of a larger matrix",
 breaks="elements below the block are incremented too",
 demo=r"""
static void run(void) {
  double x[6] = {1,2,3,4,5,6};
  struct aa_dmat A = {0};
  aa_dmat_view(&A, 2, 1, x+1, 3);
  aa_dmat_inc(&A, 10);
  check(near_(x, (double[]){1,12,13,4,5,6}, 6, 0), "only the block changes");
}""")

seed(id="m01-zalloc-tail", property="M01",
 edits=[("src/mem.c", "    void *p = aa_mem_region_alloc(region,size);\n    memset(p, 0, size );\n    return p;", "    void *p = aa_mem_region_alloc(region,size);\n    if( size < 4096 ) memset(p, 0, size );\n    else memset(p, 0, size & ~(size_t)0xF );\n    return p;")],
 needs="a zeroed allocation of over 4096 bytes, not a multiple of 16, on recycled memory",
 breaks="the last bytes of the allocation keep old contents",
 demo=r"""
static void run(void) {
  struct aa_mem_region reg;
  aa_mem_region_init(&reg, 8192);
  memset(aa_mem_region_alloc(&reg, 6000), 0xff, 6000);
  aa_mem_region_release(&reg);
  unsigned char *p = (unsigned char*)aa_mem_region_zalloc(&reg, 5003);
  int bad = 0;
  for (int i = 0; i < 5003; i++) bad |= p[i];
  check(!bad, "memory is zero");
}""")

seed(id="b01-set-truth", property="B01",
 edits=[("include/amino/mem.h", "    AA_BITS_JK(i,j,k);\n    if( val ) {\n        b[j] |=  0x1<<k;", "    AA_BITS_JK(i,j,k);\n    if( val & 0xff ) {\n        b[j] |=  0x1<<k;")],
 needs="setting a bit with a true value whose low byte is zero, as a flag test gives",
 breaks="the bit is cleared",
 demo=r"""
static void run(void) {
  aa_bits b[2] = {0,0};
  aa_bits_set(b, 5, 0x1000 & 0x3000);
  check(aa_bits_get(b, 5) != 0, "bit is set");
}""")

seed(id="g01-prismatic-rest", property="G01",
 edits=[("src/rx/scenegraph.cpp", "void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )\n{\n    double qo = q[this->config_index] + this->offset;", "void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )\n{\n    double qo = 0 == q[this->config_index] ? 0 : q[this->config_index] + this->offset;")],
 needs="the matrix form of a prismatic frame with an offset, at a joint value of exactly zero",
 breaks="the joint offset is ignored",
 lang="c", cflags="-Iinclude", demo=r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double qi[4] = {0,0,0,1}, v[3] = {0,0,0}, ax[3] = {1,0,0}, q[1] = {0}, T[12], Ta[12], E[7], Ea[7];
  aa_rx_sg_add_frame_prismatic(sg, "", "a", qi, v, "qa", ax, .5);
  aa_rx_sg_init(sg);
  aa_rx_sg_tf(sg, 1, q, 1, E, 7, Ea, 7);
  aa_rx_sg_tfmat(sg, 1, q, 1, T, 12, Ta, 12);
  check(fabs(E[4]-.5) < 1e-12, "quaternion form");
  check(fabs(T[9]-.5) < 1e-12, "matrix form");
}""")

seed(id="v01-vel2diff-deadband", property="V01",
 edits=[("src/tf/quat_ord.c", "    double w2[3];\n    FOR_VEC(i) w2[i] = w[i]/2;\n    aa_tf_qmul_vq(w2,q,dq);", "    double w2[3];\n    FOR_VEC(i) w2[i] = fabs(w[i]) < 1e-7 ? 0 : w[i]/2;\n    aa_tf_qmul_vq(w2,q,dq);")],
 needs="a component of angular velocity below 1e-7 rad/s",
 breaks="slow rotation has no quaternion derivative",
 demo=r"""
static void run(void) {
  double q[4] = {0,0,0,1}, w[3] = {9e-8,1,0}, dq[4];
  aa_tf_qvel2diff(q, w, dq);
  check(fabs(dq[0]-4.5e-8) < 1e-15, "derivative of a slow rotation");
}""")

seed(id="w01-center-asymmetric", property="W01",
 edits=[("src/rx/scene_wk.c", "            double c = (max + min)/2;\n            double d = (c - *xq) / (max - min);", "            double c = min > 0 ? (max - min)/2 : (max + min)/2;\n            double d = (c - *xq) / (max - min);")],
 needs="a joint whose limits are both positive",
 breaks="centering drives the joint away from the middle of its range",
 demo=r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_wk.h"
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double qi[4] = {0,0,0,1}, v[3] = {0,0,0}, ax[3] = {1,0,0}, q[1] = {2}, d[1];
  aa_rx_sg_add_frame_revolute(sg, "", "a", qi, v, "qa", ax, 0);
  aa_rx_sg_set_limit_pos(sg, "qa", 1, 3);
  aa_rx_sg_init(sg);
  struct aa_rx_sg_sub *ssg = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg, "a"));
  struct aa_rx_wk_opts *o = aa_rx_wk_opts_create();
  struct aa_dvec vq = AA_DVEC_INIT(1, q, 1), vd = AA_DVEC_INIT(1, d, 1);
  aa_rx_wk_dqcenter(ssg, o, &vq, &vd);
  check(fabs(d[0]) < 1e-12, "no motion in the middle of the range");
}""")

seed(id="l03-max2min-square", property="L03",
 edits=[("src/la_impl.c", "    AA_TYPE max = AA_NAME(la,mat_max)(m,n,A,lda,NULL,NULL);\n    for( size_t j = 0; j < n; j ++ ) {\n        for( size_t i = 0; i < m; i ++ ) {", "    AA_TYPE max = AA_NAME(la,mat_max)(m,n,A,lda,NULL,NULL);\n    for( size_t j = 0; j < n; j ++ ) {\n        if( AA_MATREF(A,lda,0,j) == max ) { AA_MATREF(A,lda,0,j) = 0; continue; }\n        for( size_t i = 0; i < m; i ++ ) {")],
 needs="a value matrix with its greatest value in the first row",
 breaks="the rest of that column is not converted, so the assignment found need not have the greatest value",
 demo=r"""
static void run(void) {
  double A[9] = {9,8,1, 2,7,3, 4,1,6}, B[9];
  ssize_t r[3], k[3];
  memcpy(B, A, sizeof A);
  aa_la_d_assign_hungarian_max2min(3, 3, B, 3);
  for (int i = 0; i < 9; i++) check(B[i] == 9 - A[i], "value is converted");
}""")

seed(id="a01-remquo-tie", property="A01",
 edits=[("include/amino/math.h", "    return aa_ang_norm_pi( aa_ang_norm_pi(a) - aa_ang_norm_pi(b) );", "    return fabs(a - b) < 2*M_PI ? remainder( a - b, 4*M_PI ) : aa_ang_norm_pi( aa_ang_norm_pi(a) - aa_ang_norm_pi(b) );")],
 needs="two angles more than half a turn and less than a turn apart",
 breaks="the difference goes the long way round",
 demo=r"""
static void run(void) {
  check(fabs(aa_ang_delta(3, -3) - (6-2*M_PI)) < 1e-12, "difference of angles");
}""")

seed(id="n01-glpk-zero-column", property="N01",
 edits=[("src/opt/opt_glpk.c", """    for( int j = 0; j < ni; j ++ ) {
        glp_set_mat_col( lp, j+1, mi,
                         rows-1, AA_MATCOL(A,ldA,(size_t)j) - 1 );
    }
""", """    for( int j = 0; j < ni; j ++ ) {
        const double *Aj = AA_MATCOL(A,ldA,(size_t)j);
        int nz = 0;
        for( int i = 0; i < mi; i ++ ) nz += (0 != Aj[i]);
        if( nz ) {
            glp_set_mat_col( lp, j+1, mi, rows-1, Aj - 1 );
        }
    }
""")],
 needs="replacing the constraints of a GLPK program by a matrix with a zero column where the old matrix had entries",
 breaks="the old coefficients of that column stay in the program",
 demo=r"""
#include "amino/opt/opt.h"
#include "amino/opt/lp.h"
static void run(void) {
  double A[4] = {1,0,0,1}, A2[4] = {0,0,0,1}, bl[2] = {-DBL_MAX,-DBL_MAX}, bu[2] = {1,1};
  double c[2] = {1,1}, xl[2] = {0,0}, xu[2] = {5,5}, x[2];
  struct aa_opt_cx *cx = aa_opt_glpk_gmcreate(2,2,A,2,bl,bu,c,xl,xu);
  aa_opt_set_cstr_gm(cx,2,2,A2,2,bl,bu);
  aa_opt_solve(cx,2,x); aa_opt_destroy(cx);
  check(fabs(x[0]-5) < 1e-9, "first variable is no longer constrained by a row");
}""")

seed(id="n01-glpk-narrow-bounds", property="N01",
 edits=[("src/opt/opt_glpk.c", "    if( aa_opt_is_eq(l,u) ) {\n        return GLP_FX;", "    if( aa_feq(l,u,1e-6) ) {\n        return GLP_FX;")],
 needs="a variable or constraint whose bounds differ by less than 1e-6",
 breaks="the range is taken to be its lower bound",
 demo=r"""
#include "amino/opt/opt.h"
#include "amino/opt/lp.h"
static void run(void) {
  double A[1] = {1}, bl[1] = {-10}, bu[1] = {10}, c[1] = {1}, xl[1] = {0}, xu[1] = {5e-7}, x[1];
  struct aa_opt_cx *cx = aa_opt_glpk_gmcreate(1,1,A,1,bl,bu,c,xl,xu);
  aa_opt_solve(cx,1,x); aa_opt_destroy(cx);
  check(fabs(x[0]-5e-7) < 1e-9, "maximum at the upper bound");
}""")

SCENE = r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_fk.h"
static const double qid[4] = {0,0,0,1};
static struct aa_rx_geom_opt *copt(double s) {
  struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
  aa_rx_geom_opt_set_collision(o, 1); aa_rx_geom_opt_set_scale(o, s); return o;
}
static struct aa_rx_fk *fk(struct aa_rx_sg *sg) {
  struct aa_rx_fk *f = aa_rx_fk_malloc(sg);
  struct aa_dvec qv = AA_DVEC_INIT(0,NULL,1);
  aa_rx_fk_all(f, &qv); return f;
}
"""
seed(id="c01-scaled-cylinder-height", property="C01",
 edits=[("src/rx/amino_fcl.cpp", "Cylinder(scale*shape->radius, scale*shape->height)", "Cylinder(scale*shape->radius, shape->height)")],
 needs="a cylinder with a scale other than one, and a contact near its end",
 breaks="the cylinder checked keeps its unscaled height",
 libs="-lamino-collision",
 demo=SCENE+r"""
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double v0[3] = {0}, v1[3] = {0,0,1.9};
  aa_rx_sg_add_frame_fixed(sg, "", "a", qid, v0);
  aa_rx_sg_add_frame_fixed(sg, "", "b", qid, v1);
  aa_rx_geom_attach(sg, "a", aa_rx_geom_cylinder(copt(2), 1, .5));
  aa_rx_geom_attach(sg, "b", aa_rx_geom_sphere(copt(1), .2));
  aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
  struct aa_rx_cl *cl = aa_rx_cl_create(sg);
  check(aa_rx_cl_check_fk(cl, fk(sg), NULL), "sphere inside the top of the cylinder");
}""")

seed(id="c01-deepest-of-several", property="C01",
 edits=[("src/rx/amino_fcl.cpp", "    if( ent->dist > min_dist ) {\n        ent->dist = min_dist;", "    if( ent->dist > 0 && ent->dist > min_dist ) {\n        ent->dist = min_dist;")],
 needs="a frame with several shapes, two of which overlap the same other frame, the shallower one met first",
 breaks="the distance reported is not the least over the shapes of the frames",
 libs="-lamino-collision",
 demo=SCENE+r"""
static double one(int order, double sy) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double v0[3] = {0}, v1[3] = {1.5*sy,0,0};
  aa_rx_sg_add_frame_fixed(sg, "", "a", qid, v0);
  aa_rx_sg_add_frame_fixed(sg, "", "b", qid, v1);
  double r0 = order ? 1 : .7, r1 = order ? .7 : 1;
  aa_rx_geom_attach(sg, "a", aa_rx_geom_sphere(copt(1), r0));
  aa_rx_geom_attach(sg, "a", aa_rx_geom_sphere(copt(1), r1));
  aa_rx_geom_attach(sg, "b", aa_rx_geom_sphere(copt(1), 1));
  aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
  struct aa_rx_cl *cl = aa_rx_cl_create(sg);
  struct aa_rx_cl_dist *d = aa_rx_cl_dist_create(cl);
  aa_rx_cl_dist_check(d, fk(sg));
  return aa_rx_cl_dist_get_dist(d, aa_rx_sg_frame_id(sg,"a"), aa_rx_sg_frame_id(sg,"b"));
}
static void run(void) {
  check(fabs(one(0,1)+.5) < 1e-3, "depth 1");
  check(fabs(one(1,1)+.5) < 1e-3, "depth 2");
  check(fabs(one(0,-1)+.5) < 1e-3, "depth 3");
  check(fabs(one(1,-1)+.5) < 1e-3, "depth 4");
}""")
