SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="r04-sinc-series", property="R04",
 edits=[("include/amino/tf/spatial.h", "AA_TF_DEF_SERIES( sinc, 1., -1./6, 1./120 )", "AA_TF_DEF_SERIES( sinc, 1., -1./3, 1./120 )")],
 needs="a rotation vector shorter than 2^-13 rad (the sinc series branch)",
 breaks="the quaternion exponential of a small vector is not a unit quaternion and not the rotation by that vector",
 demo=r"""
static void run(void) {
  double v[3] = {6e-5, -8e-5, 2e-5}, q[4], n;
  aa_tf_qpexp(v, q);
  n = sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]);
  check(fabs(n-1) < 1e-12, "exponential of a pure quaternion has unit length");
  double w[4] = {v[0],v[1],v[2],0}, r[4];
  aa_tf_qexp(w, r); aa_tf_qln(r, q);
  for (int i = 0; i < 3; i++) check(fabs(q[i]-v[i]) < 1e-14, "log inverts exp");
}""")

seed(id="s01-antipodal-eval", property="S01",
 edits=[("src/tf/quat_ord.c", """    *d1 = sin(*theta);
    if( *theta > M_PI_2 ) {
        *theta = M_PI - *theta;
        *d2 = -*d1;
    } else {""", """    *d1 = sin(*theta);
    if( *theta > M_PI_2 ) {
        *theta = M_PI - *theta;
        *d2 = (*theta < 1e-2) ? *d1 : -*d1;
    } else {""")],
 needs="two encodings of nearly the same orientation with opposite signs (arc within 1e-2 of a full antipode)",
 breaks="slerp between nearly antipodal encodings leaves the shortest arc and is no longer a unit quaternion",
 demo=r"""
static void run(void) {
  double q1[4] = {.5,.5,.5,.5}, v[3] = {1e-3,2e-3,-1e-3}, e[4], q2[4], r[4];
  aa_tf_qpexp(v, e); aa_tf_qmul(q1, e, q2);
  for (int i = 0; i < 4; i++) q2[i] = -q2[i];
  for (double t = 0; t <= 1; t += .25) {
    aa_tf_qslerp(t, q1, q2, r);
    double n = sqrt(r[0]*r[0]+r[1]*r[1]+r[2]*r[2]+r[3]*r[3]);
    check(fabs(n-1) < 1e-9, "slerp stays a unit quaternion");
  }
}""")

seed(id="r02-halfturn-axis", property="R02",
 edits=[("src/tf/tfmatrix.c", "        *q_w = (RREF(R,w,v) - RREF(R,v,w)) * t;\n", "        *q_w = fabs(RREF(R,w,v) - RREF(R,v,w)) * t;\n")],
 needs="a rotation within 1e-4 (in cosine) of a half turn about an axis whose largest component is negative",
 breaks="the rotation vector of a matrix just short of a half turn denotes the rotation just beyond it",
 demo=r"""
static void run(void) {
  double ax[2][3] = {{0.6,0.0,0.8},{-0.6,0,-0.8}};
  for (int k = 0; k < 2; k++) {
    double v[3], R[9], u[3], R2[9];
    for (int i = 0; i < 3; i++) v[i] = ax[k][i]*(M_PI-5e-3);
    aa_tf_rotvec2rotmat(v, R);
    aa_tf_rotmat2rotvec(R, u);
    aa_tf_rotvec2rotmat(u, R2);
    check(near_(R, R2, 9, 1e-9), "matrix -> rotation vector keeps the rotation");
  }
}""")

seed(id="t03-lnv-nearpi", property="T03",
 edits=[("src/tf/tfmatrix.c", "        double m_d = (2 - m_r)/phi2/4;", "        double m_d = (1 - m_r)/phi2/4;")],
 needs="a rigid motion within 1e-4 (in cosine) of a half turn with a translation along the axis",
 breaks="the logarithm of a rigid motion near a half turn does not return the twist",
 demo=r"""
static void run(void) {
  double w[6] = {0.3,-0.7,1.1, 0,0,0}, T[12], u[6];
  double a[3] = {2./3,-1./3,2./3};
  for (int i = 0; i < 3; i++) w[3+i] = a[i]*(M_PI-4e-3);
  aa_tf_tfmat_expv(w, T); aa_tf_tfmat_lnv(T, u);
  check(near_(w, u, 6, 1e-6), "log of exp of a twist near a half turn");
}""")

seed(id="v02-qduln-series", property="V02",
 edits=[("src/tf/quat_ord.c", "        beta = aa_horner3( phi*phi, -1.0/3, 2.0/15, -2.0/63 );", "        beta = aa_horner3( phi*phi, 1.0/3, 2.0/15, -2.0/63 );")],
 needs="a unit quaternion within 2^-13 rad of the identity",
 breaks="the derivative of the quaternion logarithm is wrong for small rotations",
 demo=r"""
static void run(void) {
  double e[3] = {6e-5,-8e-5,2e-5}, de[3] = {1,2,-.5}, q[4], dq[4], d[3];
  aa_tf_qpexp(e, q); aa_tf_qdpexp(e, de, dq);
  aa_tf_qduln(q, dq, d);
  check(near_(d, de, 3, 1e-11), "derivative of log inverts derivative of exp");
}""")

seed(id="t01-93rel-alias", property="T01",
 edits=[("src/tf/quat_duqu.c", """    if( S[AA_TF_DUQU_REAL_W] < 0 ) {
        FOR_DUQU(i) S[i] *= -1;""", """    if( S[AA_TF_DUQU_REAL_W] < 0 ) {
        FOR_QUAT(i) S[i] *= -1;""")],
 needs="a dual quaternion whose real scalar part is negative and whose translation is not zero",
 breaks="minimising a dual quaternion reverses its translation",
 demo=r"""
static void run(void) {
  double q[4] = {.5,-.5,.5,-.5}, v[3] = {1,2,3}, S[8], p[3] = {.1,.2,.3}, a[3], b[3], u[3];
  aa_tf_qv2duqu(q, v, S);
  aa_tf_tf_duqu(S, p, a);
  aa_tf_duqu_minimize(S);
  aa_tf_tf_duqu(S, p, b);
  check(near_(a, b, 3, 1e-12), "minimising keeps the transform");
}""")
