SEEDS = []
def seed(**k): SEEDS.append(k)


seed(id="w01-path-clamp-index", property="W01",
 edits=[("src/rx/rx_ct.c", "                           cx->limits->min->q[config_id],\n                           cx->limits->max->q[config_id]);", "                           cx->limits->min->q[i],\n                           cx->limits->max->q[config_id]);")],
 needs="a chain whose joints are not the first configurations of the scene, and a joint elsewhere with a lower limit",
 breaks="the joint path that follows a workspace trajectory is cut off at the limits of joints that are not in the chain",
 demo=r"""
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/rx_ct.h"
static void run(void) {
  struct aa_rx_sg *sg = aa_rx_sg_create();
  double qi[4] = {0,0,0,1}, v[3] = {1,0,0}, ax[3] = {0,0,1};
  const char *other[4] = {"a","b","y","z"};
  for( int i = 0; i < 4; i ++ ) {
    aa_rx_sg_add_frame_revolute(sg, "", other[i], qi, v, other[i], ax, 0);
    aa_rx_sg_set_limit_pos(sg, other[i], 7, 9);
  }
  aa_rx_sg_add_frame_revolute(sg, "", "m", qi, v, "m", ax, 0);
  aa_rx_sg_set_limit_pos(sg, "m", -9, 9);
  aa_rx_sg_add_frame_fixed(sg, "m", "tip", qi, v);
  aa_rx_sg_init(sg);
  struct aa_rx_sg_sub *ssg = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg, "tip"));
  double q[5] = {8,8,8,8,8};
  q[aa_rx_sg_config_id(sg, "m")] = .5;
  struct aa_dvec vq = AA_DVEC_INIT(5, q, 1);
  struct aa_rx_fk *fk = aa_rx_fk_malloc(sg);
  aa_rx_fk_all(fk, &vq);
  double E[7];
  aa_rx_fk_get_abs_qutr(fk, aa_rx_sg_frame_id(sg, "tip"), E);
  struct aa_mem_region *reg = aa_mem_region_create(4096);
  struct aa_ct_pt_list *pl = aa_ct_pt_list_create(reg);
  for( int i = 0; i < 2; i ++ ) {
    struct aa_ct_state *s = aa_ct_state_alloc(reg, 5, 0);
    s->q[0] = i;
    for( int j = 0; j < 7; j ++ ) s->X[j] = E[j];
    aa_ct_pt_list_add(pl, s);
  }
  struct aa_ct_seg_list *sl = aa_ct_tjx_slerp_generate(reg, pl);
  struct aa_rx_ik_parm *parm = aa_rx_ik_parm_create();
  size_t n = 0;
  double *path = NULL;
  aa_rx_ct_tjx_path(reg, parm, ssg, sl, 5, q, &n, &path);
  check(n > 1, "points");
  for( size_t i = 0; i < n; i ++ ) check(fabs(path[i] - .5) < 1e-3, "the joint stays in its place");
}""")


seed(id="j01-pose-near-first", property="J01",
 edits=[("src/ct/traj.cpp", "        p_pt = Xpt_list->list.back();", "        p_pt = Xpt_list->list.front();")],
 needs="a Cartesian blend through three or more poses whose turns add up to more than half a turn from the first",
 breaks="the pose trajectory unwinds through the whole turn between two poses",
 demo=r"""
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
static void run(void) {
  struct aa_mem_region *reg = aa_mem_region_create(4096);
  struct aa_ct_pt_list *pl = aa_ct_pt_list_create(reg);
  double h = .9;
  for( int k = 0; k < 4; k ++ ) {
    struct aa_ct_state *s = aa_ct_state_alloc(reg, 1, 0);
    double X[7] = {0, 0, sin(k*h), cos(k*h), k, 0, 0};
    s->q[0] = k;
    memcpy(s->X, X, sizeof(X));
    aa_ct_pt_list_add(pl, s);
  }
  struct aa_ct_limit lim;
  lim.min = aa_ct_state_alloc(reg, 1, 0);
  lim.max = aa_ct_state_alloc(reg, 1, 0);
  for( int i = 0; i < 6; i ++ ) {
    lim.min->dX[i] = lim.min->ddX[i] = -1;
    lim.max->dX[i] = lim.max->ddX[i] = 1;
  }
  struct aa_ct_seg_list *sl = aa_ct_tjX_pb_generate(reg, pl, &lim);
  double D = aa_ct_seg_list_duration(sl);
  struct aa_ct_state *s = aa_ct_state_alloc(reg, 1, 0);
  for( int f = 1; f < 100; f ++ ) {
    if( !aa_ct_seg_list_eval(sl, s, D*f/100) ) continue;
    double a = s->X[4]*h, w = sin(a)*s->X[2] + cos(a)*s->X[3];
    check(fabs(fabs(w) - 1) < 1e-6, "orientation goes with position");
  }
}""")

seed(id="j01-state-eq-acc", property="J01",
 edits=[("src/ct/state.c", "        if (!aa_veq(s1->n_q, s1->ddq, s2->ddq, AA_EPSILON))", "        if (!aa_veq(s1->n_q, s1->ddq, s2->dq ? s2->ddq : s1->ddq, AA_EPSILON))")],
 needs="two states with accelerations and no velocities",
 breaks="states that differ in their accelerations are taken for the same waypoint",
 demo=r"""
#include "amino/ct/state.h"
static void run(void) {
  double q[1] = {0}, a[1] = {1}, b[1] = {2};
  struct aa_ct_state x = {0}, y = {0};
  x.n_q = y.n_q = 1;
  x.q = y.q = q;
  x.ddq = a; y.ddq = b;
  check(!aa_ct_state_eq(&x, &y), "different accelerations");
  check(aa_ct_state_eq(&x, &x), "the same state");
}""")
