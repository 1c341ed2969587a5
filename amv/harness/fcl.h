/* The assumed contract of the collision library (FCL): what amino_fcl.cpp
 * gives it is recorded, and what it answers about a pair of shapes is any
 * value the caller of the contract states.  Shapes are told apart by their
 * first dimension (a whole number). */
#ifndef AMV_FCL_H
#define AMV_FCL_H
#ifdef __cplusplus
extern "C" {
#endif
#define AMV_FCL_N 6
#define AMV_FCL_C 3
struct amv_fcl_pair {
    int near, contacts;         /* broad phase offers the pair; number of contacts */
    double dist, p[2][3];       /* separation and nearest points, lower shape first */
    double depth[AMV_FCL_C], pos[AMV_FCL_C][3], nrm[AMV_FCL_C][3];
};
struct amv_fcl_shape {
    int kind;                   /* 1 box, 2 sphere, 3 cylinder, 4 mesh */
    int objects, managed;
    double dim[3], tf[12];
    int nv, nt;
    double v[12];
    unsigned long t[12];
};
extern struct amv_fcl_pair amv_fcl_pairs[AMV_FCL_N][AMV_FCL_N];
extern struct amv_fcl_shape amv_fcl_shapes[AMV_FCL_N];
extern int amv_fcl_bad, amv_fcl_calls, amv_fcl_geoms, amv_fcl_rev;
#ifdef __cplusplus
}
#endif
#endif
