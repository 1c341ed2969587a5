/* builders for the solver's internal structures (fields are named, so the
 * layout comes from the library's own headers), and a stand-in for the
 * external optimiser that lands wherever the contract says */
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik_internal.h"

void *amv_wk_opts( double s2min, double k_dls, double np, double ga, double gt )
{
    struct aa_rx_wk_opts *o = (struct aa_rx_wk_opts*)malloc(sizeof(*o));
    o->s2min = s2min;
    o->k_dls = k_dls;
    o->gain_np = np;
    o->gain_angle = ga;
    o->gain_trans = gt;
    o->lp_solver = AA_OPT_LP_SOLVER_DEFAULT;
    return o;
}

void amv_ik_wk( struct aa_rx_ik_parm *p, double s2min, double k_dls, double ga, double gt )
{
    p->wk_opts.s2min = s2min;
    p->wk_opts.k_dls = k_dls;
    p->wk_opts.gain_angle = ga;
    p->wk_opts.gain_trans = gt;
}

void *amv_ik_solver( struct aa_mem_region *reg, const struct aa_rx_ik_cx *ik,
                     const struct aa_dmat *TF, struct aa_dvec *q_all,
                     struct aa_dvec *q_sub, struct aa_rx_fk *fk, long frame )
{
    struct kin_solve_cx *x = (struct kin_solve_cx*)malloc(sizeof(*x));
    x->reg = reg;
    x->ik_cx = ik;
    x->opts = ik->opts;
    x->ssg = ik->ssg;
    x->TF_ref = TF;
    x->iteration = 0;
    x->q_all = q_all;
    x->q_sub = q_sub;
    x->fk = fk;
    x->frame = frame;
    return x;
}

const double *amv_parm_q_ref( const struct aa_rx_ik_parm *p ) { return p->q_ref; }
const double *amv_parm_gain( const struct aa_rx_ik_parm *p ) { return p->dq_dt; }
const double *amv_parm_seed( const struct aa_rx_ik_parm *p ) { return p->q_all_seed; }
size_t amv_parm_count( const struct aa_rx_ik_parm *p, int i )
{
    return i == 0 ? p->n_q_ref : (i == 1 ? p->n_dq_dt : p->n_all_seed);
}

/* ---- the optimiser: reports the bounds it was given, evaluates the objective
 * at its starting point and ends at the point chosen by the contract */
struct amv_nlopt {
    unsigned n;
    double (*f)(unsigned, const double *, double *, void *);
    void *fd;
    const double *lb, *ub;
    double start[8], grad[8], lo[8], hi[8], value;
};
static struct amv_nlopt amv_opt;
static double amv_end[8];

double *amv_nlopt_end(void) { return amv_end; }
struct amv_nlopt *amv_nlopt_rec(void) { return &amv_opt; }
double *amv_nlopt_start(void) { return amv_opt.start; }
double *amv_nlopt_grad(void) { return amv_opt.grad; }
double *amv_nlopt_lo(void) { return amv_opt.lo; }
double *amv_nlopt_hi(void) { return amv_opt.hi; }
double *amv_nlopt_value(void) { return &amv_opt.value; }
unsigned amv_nlopt_n(void) { return amv_opt.n; }

void *nlopt_create( int alg, unsigned n ) { (void)alg; amv_opt.n = n; amv_opt.lb = amv_opt.ub = 0; return &amv_opt; }
void nlopt_destroy( void *o ) { (void)o; }
int nlopt_set_min_objective( void *o, double (*f)(unsigned, const double *, double *, void *), void *d )
{
    struct amv_nlopt *x = (struct amv_nlopt*)o;
    x->f = f;
    x->fd = d;
    return 1;
}
int nlopt_set_lower_bounds( void *o, const double *b ) { ((struct amv_nlopt*)o)->lb = b; return 1; }
int nlopt_set_upper_bounds( void *o, const double *b ) { ((struct amv_nlopt*)o)->ub = b; return 1; }
int nlopt_set_ftol_abs( void *o, double t ) { (void)o; (void)t; return 1; }
int nlopt_set_ftol_rel( void *o, double t ) { (void)o; (void)t; return 1; }
int nlopt_set_xtol_rel( void *o, double t ) { (void)o; (void)t; return 1; }
int nlopt_set_xtol_abs1( void *o, double t ) { (void)o; (void)t; return 1; }
int nlopt_add_equality_constraint( void *o, double (*f)(unsigned, const double *, double *, void *), void *d, double t )
{
    (void)o; (void)f; (void)d; (void)t;
    return 1;
}
int nlopt_optimize( void *o, double *x, double *minf )
{
    struct amv_nlopt *p = (struct amv_nlopt*)o;
    for( unsigned i = 0; i < p->n; i ++ ) {
        p->start[i] = x[i];
        p->lo[i] = p->lb[i];
        p->hi[i] = p->ub[i];
    }
    p->value = p->f( p->n, x, p->grad, p->fd );
    for( unsigned i = 0; i < p->n; i ++ ) x[i] = amv_end[i];
    *minf = p->value;
    return 4;
}

/* what aa_ode_path hands back */
void amv_path_out( size_t *n, double **p, size_t nn, double *data )
{
    *n = nn;
    *p = data;
}
