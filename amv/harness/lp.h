/* The assumed contract of the linear-programming libraries (GLPK, LP-Solve,
 * Clp): calls change a problem as their manuals say, and solving ends with any
 * status at any point.  The problem is read back by the contracts. */
#ifndef AMV_LP_H
#define AMV_LP_H
#ifdef __cplusplus
extern "C" {
#endif
#define AMV_LP_M 8
struct amv_lp {
    int m, n, max;              /* rows, columns, direction */
    int bad;                    /* calls outside the problem */
    int rel[AMV_LP_M];          /* LP-Solve: 0 free, 1 <=, 2 >=, 3 = */
    int kind[AMV_LP_M];         /* 0 real, 1 integer */
    double obj[AMV_LP_M], lo[AMV_LP_M], hi[AMV_LP_M], rlo[AMV_LP_M], rhi[AMV_LP_M], rh[AMV_LP_M], a[AMV_LP_M][AMV_LP_M];
};
extern struct amv_lp *amv_lp_last;
extern int amv_lp_live, amv_lp_solves, amv_lp_status;
extern double amv_lp_x[AMV_LP_M];
struct amv_lp *amv_lp_new( struct amv_lp *p, int m, int n );
void amv_lp_rows( struct amv_lp *p, int k, double lo, double hi );
void amv_lp_cols( struct amv_lp *p, int k, double lo, double hi );
int amv_lp_ok( struct amv_lp *p, int i, int j );
void amv_lp_ask( struct amv_lp *p );
#ifdef __cplusplus
}
#endif
#endif
