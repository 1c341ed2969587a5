#include "fcl.h"
struct amv_fcl_pair amv_fcl_pairs[AMV_FCL_N][AMV_FCL_N];
struct amv_fcl_shape amv_fcl_shapes[AMV_FCL_N];
int amv_fcl_bad, amv_fcl_calls, amv_fcl_geoms, amv_fcl_rev;

void amv_fcl_reset( int rev )
{
    for( int i = 0; i < AMV_FCL_N; i ++ ) {
        amv_fcl_shapes[i].kind = amv_fcl_shapes[i].objects = amv_fcl_shapes[i].managed = amv_fcl_shapes[i].nv = amv_fcl_shapes[i].nt = 0;
        for( int j = 0; j < AMV_FCL_N; j ++ ) amv_fcl_pairs[i][j].near = amv_fcl_pairs[i][j].contacts = 0;
    }
    amv_fcl_bad = amv_fcl_calls = amv_fcl_geoms = 0;
    amv_fcl_rev = rev;
}
void amv_fcl_order( int rev ) { amv_fcl_rev = rev; amv_fcl_calls = 0; }
/* shapes i < j: offered, contacts, separation, nearest points, contacts' depth, position, normal (7 each) */
void amv_fcl_pair( int i, int j, int near, int contacts, double dist, const double *p, const double *con )
{
    struct amv_fcl_pair *r = &amv_fcl_pairs[i][j];
    r->near = near; r->contacts = contacts; r->dist = dist;
    for( int k = 0; k < 3; k ++ ) { r->p[0][k] = p[k]; r->p[1][k] = p[3+k]; }
    for( int c = 0; c < contacts; c ++ ) {
        r->depth[c] = con[7*c];
        for( int k = 0; k < 3; k ++ ) { r->pos[c][k] = con[7*c+1+k]; r->nrm[c][k] = con[7*c+4+k]; }
    }
}
int amv_fcl_int( int i, int w )
{
    struct amv_fcl_shape *s = &amv_fcl_shapes[i];
    switch( w ) {
    case 0: return s->kind;
    case 1: return s->objects;
    case 2: return s->managed;
    case 3: return s->nv;
    case 4: return s->nt;
    case 5: return amv_fcl_bad;
    case 6: return amv_fcl_calls;
    default: return amv_fcl_geoms;
    }
}
void amv_fcl_dim( int i, double *x ) { for( int k = 0; k < 3; k ++ ) x[k] = amv_fcl_shapes[i].dim[k]; }
void amv_fcl_tf( int i, double *x ) { for( int k = 0; k < 12; k ++ ) x[k] = amv_fcl_shapes[i].tf[k]; }
void amv_fcl_vert( int i, double *x ) { for( int k = 0; k < 3*amv_fcl_shapes[i].nv; k ++ ) x[k] = amv_fcl_shapes[i].v[k]; }
int amv_fcl_tri( int i, int k ) { return (int)amv_fcl_shapes[i].t[k]; }
