#include <stdlib.h>
#include <math.h>
#include "lp.h"

struct amv_lp *amv_lp_last;
int amv_lp_live, amv_lp_solves, amv_lp_status;
double amv_lp_x[AMV_LP_M];

/* ---- shared */
struct amv_lp *amv_lp_new( struct amv_lp *p, int m, int n )
{
    p->m = p->n = p->max = p->bad = 0;
    amv_lp_rows( p, m, -INFINITY, INFINITY );
    amv_lp_cols( p, n, 0, INFINITY );
    amv_lp_last = p;
    amv_lp_live ++;
    return p;
}
void amv_lp_rows( struct amv_lp *p, int k, double lo, double hi )
{
    for( int q = 0; q < k; q ++ ) {
        int i = p->m ++;
        p->rel[i] = 0;
        p->rlo[i] = lo;
        p->rhi[i] = hi;
        for( int j = 0; j < AMV_LP_M; j ++ ) p->a[i][j] = 0;
    }
}
void amv_lp_cols( struct amv_lp *p, int k, double lo, double hi )
{
    for( int q = 0; q < k; q ++ ) {
        int j = p->n ++;
        p->kind[j] = 0;
        p->lo[j] = lo;
        p->hi[j] = hi;
        p->obj[j] = 0;
        for( int i = 0; i < AMV_LP_M; i ++ ) p->a[i][j] = 0;
    }
}
int amv_lp_ok( struct amv_lp *p, int i, int j )
{
    if( i < 0 || i >= p->m || j < 0 || j >= p->n ) { p->bad ++; return 0; }
    return 1;
}
void amv_lp_ask( struct amv_lp *p ) { amv_lp_last = p; amv_lp_solves ++; }

/* ---- read back by the contracts */
void amv_lp_reset( int status, const double *x, int n )
{
    amv_lp_last = 0;
    amv_lp_live = amv_lp_solves = 0;
    amv_lp_status = status;
    for( int i = 0; i < n; i ++ ) amv_lp_x[i] = x[i];
}
struct amv_lp *amv_lp_get( void ) { return amv_lp_last; }
int amv_lp_int( int w )
{
    struct amv_lp *p = amv_lp_last;
    return w == 0 ? p->m : w == 1 ? p->n : w == 2 ? p->max : w == 3 ? p->bad : w == 4 ? amv_lp_live : amv_lp_solves;
}
int amv_lp_kind( int j ) { return amv_lp_last->kind[j]; }
const double *amv_lp_obj( void ) { return amv_lp_last->obj; }
/* w = 0: lower, 1: upper; an absent bound is reported as flag 0 */
int amv_lp_col( int j, int w, double *v )
{
    double x = w ? amv_lp_last->hi[j] : amv_lp_last->lo[j];
    if( !isfinite(x) ) return 0;
    *v = x;
    return 1;
}
/* the tightest bound the problem puts on the product of coef with the
 * variables; the rows that count are marked */
int amv_lp_row( const double *coef, int *mark, int w, double *v )
{
    struct amv_lp *p = amv_lp_last;
    int have = 0;
    for( int i = 0; i < p->m; i ++ ) {
        int eq = 1;
        for( int j = 0; j < p->n; j ++ )
            if( !(p->a[i][j] == coef[j]) ) { eq = 0; break; }
        if( !eq ) continue;
        mark[i] = 1;
        double x = w ? p->rhi[i] : p->rlo[i];
        if( !isfinite(x) ) continue;
        if( !have || (w ? x < *v : x > *v) ) *v = x;
        have = 1;
    }
    return have;
}
/* unmarked rows that say something */
int amv_lp_extra( const int *mark )
{
    struct amv_lp *p = amv_lp_last;
    int k = 0;
    for( int i = 0; i < p->m; i ++ )
        if( !mark[i] && (isfinite(p->rlo[i]) || isfinite(p->rhi[i])) ) k ++;
    return k;
}

/* ---- GLPK: numbering from 1 */
int glp_term_out( int f ) { (void)f; return 1; }
void *glp_create_prob( void ) { return amv_lp_new( (struct amv_lp*)malloc(sizeof(struct amv_lp)), 0, 0 ); }
void glp_delete_prob( struct amv_lp *p ) { amv_lp_live --; free(p); }
void glp_set_obj_dir( struct amv_lp *p, int d ) { p->max = d == 2; }
int glp_add_rows( struct amv_lp *p, int k ) { amv_lp_rows( p, k, -INFINITY, INFINITY ); return p->m - k + 1; }
int glp_add_cols( struct amv_lp *p, int k ) { amv_lp_cols( p, k, 0, 0 ); return p->n - k + 1; }
void glp_set_obj_coef( struct amv_lp *p, int j, double c ) { if( amv_lp_ok(p, 0, p->m ? j-1 : -1) ) p->obj[j-1] = c; }
static void amv_glp_bnd( double *lo, double *hi, int type, double l, double u )
{
    *lo = type == 1 || type == 3 ? -INFINITY : l;                     /* GLP_FR 1, LO 2, UP 3, DB 4, FX 5 */
    *hi = type == 1 || type == 2 ? INFINITY : type == 5 && l != u ? l : u;
}
void glp_set_col_bnds( struct amv_lp *p, int j, int type, double l, double u )
{
    if( amv_lp_ok(p, 0, j-1) ) amv_glp_bnd( &p->lo[j-1], &p->hi[j-1], type, l, u );
}
void glp_set_row_bnds( struct amv_lp *p, int i, int type, double l, double u )
{
    if( amv_lp_ok(p, i-1, 0) ) amv_glp_bnd( &p->rlo[i-1], &p->rhi[i-1], type, l, u );
}
void glp_set_mat_col( struct amv_lp *p, int j, int len, const int *ind, const double *val )
{
    for( int i = 0; i < p->m; i ++ ) p->a[i][j-1] = 0;
    for( int k = 1; k <= len; k ++ )
        if( amv_lp_ok(p, ind[k]-1, j-1) ) p->a[ind[k]-1][j-1] = val[k];
}
void glp_set_mat_row( struct amv_lp *p, int i, int len, const int *ind, const double *val )
{
    for( int j = 0; j < p->n; j ++ ) p->a[i-1][j] = 0;
    for( int k = 1; k <= len; k ++ )
        if( amv_lp_ok(p, i-1, ind[k]-1) ) p->a[i-1][ind[k]-1] = val[k];
}
void glp_set_col_kind( struct amv_lp *p, int j, int kind )
{
    if( ! amv_lp_ok(p, 0, j-1) ) return;
    p->kind[j-1] = kind != 1;                                          /* GLP_CV 1, IV 2, BV 3 */
    if( kind == 3 ) { p->lo[j-1] = 0; p->hi[j-1] = 1; }
}
int glp_get_num_rows( struct amv_lp *p ) { return p->m; }
int glp_get_num_cols( struct amv_lp *p ) { return p->n; }
int glp_get_num_int( struct amv_lp *p )
{
    int k = 0;
    for( int j = 0; j < p->n; j ++ ) k += p->kind[j];
    return k;
}
int glp_get_num_bin( struct amv_lp *p ) { (void)p; return 0; }
static int amv_glp_mip;
int glp_simplex( struct amv_lp *p, const void *o ) { (void)o; amv_lp_ask(p); amv_glp_mip = 0; return amv_lp_status; }
int glp_intopt( struct amv_lp *p, const void *o ) { (void)o; amv_lp_ask(p); amv_glp_mip = 1; return amv_lp_status; }
double glp_get_col_prim( struct amv_lp *p, int j ) { (void)p; return amv_glp_mip ? -1e9 : amv_lp_x[j-1]; }
double glp_mip_col_val( struct amv_lp *p, int j ) { (void)p; return amv_glp_mip ? amv_lp_x[j-1] : -1e9; }

/* ---- LP-Solve: numbering from 1, row 0 is the objective */
void *make_lp( int m, int n )
{
    struct amv_lp *p = amv_lp_new( (struct amv_lp*)malloc(sizeof(struct amv_lp)), 0, 0 );
    amv_lp_rows( p, m, -INFINITY, 0 );
    for( int i = 0; i < m; i ++ ) { p->rel[i] = 1; p->rh[i] = 0; }
    amv_lp_cols( p, n, 0, INFINITY );
    return p;
}
void delete_lp( struct amv_lp *p ) { amv_lp_live --; free(p); }
void set_verbose( struct amv_lp *p, int v ) { (void)p; (void)v; }
unsigned char set_add_rowmode( struct amv_lp *p, unsigned char v ) { (void)p; (void)v; return 1; }
void set_maxim( struct amv_lp *p ) { p->max = 1; }
void set_minim( struct amv_lp *p ) { p->max = 0; }
unsigned char set_obj( struct amv_lp *p, int j, double v )
{
    if( j < 1 || j > p->n ) { p->bad ++; return 0; }
    p->obj[j-1] = v;
    return 1;
}
unsigned char set_mat( struct amv_lp *p, int i, int j, double v )
{
    if( i == 0 ) return set_obj( p, j, v );
    if( ! amv_lp_ok(p, i-1, j-1) ) return 0;
    p->a[i-1][j-1] = v;
    return 1;
}
static void amv_lps_row( struct amv_lp *p, int i, int rel, double v )
{
    p->rel[i] = rel;
    p->rh[i] = v;
    p->rlo[i] = rel & 2 ? v : -INFINITY;
    p->rhi[i] = rel & 1 ? v : INFINITY;
}
unsigned char set_constr_type( struct amv_lp *p, int i, int rel )
{
    if( ! amv_lp_ok(p, i-1, 0) ) return 0;
    amv_lps_row( p, i-1, rel, p->rh[i-1] );
    return 1;
}
unsigned char set_rh( struct amv_lp *p, int i, double v )
{
    if( ! amv_lp_ok(p, i-1, 0) ) return 0;
    amv_lps_row( p, i-1, p->rel[i-1], v );
    return 1;
}
unsigned char set_bounds( struct amv_lp *p, int j, double lo, double hi )
{
    if( j < 1 || j > p->n ) { p->bad ++; return 0; }
    p->lo[j-1] = lo;
    p->hi[j-1] = hi;
    return 1;
}
unsigned char set_int( struct amv_lp *p, int j, unsigned char v )
{
    if( j < 1 || j > p->n ) { p->bad ++; return 0; }
    p->kind[j-1] = v != 0;
    return 1;
}
unsigned char set_binary( struct amv_lp *p, int j, unsigned char v )
{
    return set_int( p, j, v ) && ( !v || set_bounds( p, j, 0, 1 ) );
}
unsigned char add_constraintex( struct amv_lp *p, int k, double *val, int *col, int rel, double v )
{
    amv_lp_rows( p, 1, 0, 0 );
    for( int q = 0; q < k; q ++ )
        if( amv_lp_ok(p, p->m-1, col[q]-1) ) p->a[p->m-1][col[q]-1] = val[q];
    amv_lps_row( p, p->m-1, rel, v );
    return 1;
}
int solve( struct amv_lp *p ) { amv_lp_ask(p); return amv_lp_status; }
int get_Ncolumns( struct amv_lp *p ) { return p->n; }
int get_Nrows( struct amv_lp *p ) { return p->m; }
unsigned char get_variables( struct amv_lp *p, double *x )
{
    for( int j = 0; j < p->n; j ++ ) x[j] = amv_lp_x[j];
    return 1;
}
unsigned char del_constraint( struct amv_lp *p, int i )
{
    if( ! amv_lp_ok(p, i-1, 0) ) return 0;
    p->m --;
    for( int r = i-1; r < p->m; r ++ ) {
        p->rel[r] = p->rel[r+1];
        p->rlo[r] = p->rlo[r+1];
        p->rhi[r] = p->rhi[r+1];
        p->rh[r] = p->rh[r+1];
        for( int j = 0; j < p->n; j ++ ) p->a[r][j] = p->a[r+1][j];
    }
    return 1;
}
/* row i of the problem held last: coefficients and bounds (w = 0: lower, 1: upper) */
const double *amv_lp_a( int i ) { return amv_lp_last->a[i]; }
int amv_lp_rowb( int i, int w, double *v )
{
    double x = w ? amv_lp_last->rhi[i] : amv_lp_last->rlo[i];
    if( !isfinite(x) ) return 0;
    *v = x;
    return 1;
}
