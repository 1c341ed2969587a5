/* stands in for FCL's headers: the assumed contract of the calls amino makes */
#ifndef AMV_FCL_HPP
#define AMV_FCL_HPP
#include <memory>
#include <vector>
#include <cfloat>
#include <Eigen/Core>
#include "../../fcl.h"

namespace fcl {
template<typename S> using Vector3 = Eigen::Matrix<S,3,1>;
template<typename S> using Transform3 = Eigen::Transform<S,3,Eigen::Isometry>;
enum amv_kind { AMV_NONE, AMV_BOX, AMV_SPHERE, AMV_CYLINDER, AMV_MESH };

template<typename S> struct CollisionGeometry {
    void *amv_user;
    int amv_kind, amv_nv, amv_nt, amv_open;
    S amv_dim[3], amv_v[12];
    size_t amv_t[12];
    CollisionGeometry( int k = 0, S a = 0, S b = 0, S c = 0 ) : amv_user(0), amv_kind(k), amv_nv(0), amv_nt(0), amv_open(0)
    { amv_dim[0] = a; amv_dim[1] = b; amv_dim[2] = c; amv_fcl_geoms ++; for( int i = 0; i < 12; i ++ ) { amv_v[i] = 0; amv_t[i] = 0; } }
    ~CollisionGeometry() { amv_fcl_geoms --; }
    void setUserData( void *p ) { amv_user = p; }
    void *getUserData() const { return amv_user; }
    void computeLocalAABB() {}
    int amv_key() const
    {
        int k = (int)amv_dim[0];
        if( k >= 0 && k < AMV_FCL_N ) return k;
        amv_fcl_bad ++;
        return 0;
    }
};
template<typename S> struct ShapeBase : CollisionGeometry<S> {
    using CollisionGeometry<S>::CollisionGeometry;
};
template<typename S> struct Box : ShapeBase<S> {
    Box( S x, S y, S z ) : ShapeBase<S>(AMV_BOX, x, y, z) {}
    Box( const Vector3<S> &v ) : ShapeBase<S>(AMV_BOX, v[0], v[1], v[2]) {}
};
template<typename S> struct Sphere : ShapeBase<S> { Sphere( S r ) : ShapeBase<S>(AMV_SPHERE, r) {} };
template<typename S> struct Cylinder : ShapeBase<S> { Cylinder( S r, S h ) : ShapeBase<S>(AMV_CYLINDER, r, h) {} };
template<typename S> struct OBBRSS { typedef S amv_scalar; };
struct Triangle {
    size_t v[3];
    Triangle() {}
    Triangle( size_t a, size_t b, size_t c ) { v[0] = a; v[1] = b; v[2] = c; }
    size_t operator[]( int i ) const { return v[i]; }
};
template<typename B> struct BVHModel : CollisionGeometry<typename B::amv_scalar> {
    typedef typename B::amv_scalar S;
    BVHModel() : CollisionGeometry<S>(AMV_MESH) {}
    int beginModel( int = 0, int = 0 ) { this->amv_open = 1; return 0; }
    int addSubModel( const std::vector<Vector3<S>> &v, const std::vector<Triangle> &t )
    {
        if( this->amv_open != 1 || v.size() > 4 || t.size() > 4 ) { amv_fcl_bad ++; return -1; }
        for( size_t i = 0; i < v.size(); i ++ ) for( int k = 0; k < 3; k ++ ) this->amv_v[3*i+k] = v[i][k];
        for( size_t i = 0; i < t.size(); i ++ ) for( int k = 0; k < 3; k ++ ) this->amv_t[3*i+k] = t[i][k];
        this->amv_nv = (int)v.size();
        this->amv_nt = (int)t.size();
        return 0;
    }
    int endModel() { if( this->amv_open != 1 || !this->amv_nv ) amv_fcl_bad ++; this->amv_open = 2; this->amv_dim[0] = this->amv_v[0]; return 0; }
};

template<typename S> struct CollisionObject {
    std::shared_ptr<CollisionGeometry<S>> amv_g;
    Transform3<S> amv_t;
    void *amv_user;
    int amv_box;                /* the bounding box is that of the pose */
    CollisionObject( const std::shared_ptr<CollisionGeometry<S>> &g ) : amv_g(g), amv_t(Transform3<S>::Identity()), amv_user(0), amv_box(1)
    {
        struct amv_fcl_shape *s = &amv_fcl_shapes[g->amv_key()];
        s->objects ++;
        s->kind = g->amv_kind;
        s->nv = g->amv_nv;
        s->nt = g->amv_nt;
        for( int k = 0; k < 3; k ++ ) s->dim[k] = g->amv_dim[k];
        for( int k = 0; k < 12; k ++ ) { s->v[k] = g->amv_v[k]; s->t[k] = g->amv_t[k]; }
    }
    CollisionObject( const std::shared_ptr<CollisionGeometry<S>> &g, const Transform3<S> &t ) : CollisionObject(g) { amv_t = t; }
    ~CollisionObject() { amv_fcl_shapes[amv_g->amv_key()].objects --; }
    void setUserData( void *p ) { amv_user = p; }
    void *getUserData() const { return amv_user; }
    void setTransform( const Transform3<S> &t ) { amv_t = t; amv_box = 0; }
    const Transform3<S> &getTransform() const { return amv_t; }
    void computeAABB() { amv_box = 1; }
    const std::shared_ptr<const CollisionGeometry<S>> collisionGeometry() const { return amv_g; }
};

template<typename S> struct Contact { S penetration_depth; Vector3<S> pos, normal; };
template<typename S> struct CollisionRequest {
    size_t num_max_contacts;
    bool enable_contact;
    size_t num_max_cost_sources;
    bool enable_cost;
    CollisionRequest( size_t n = 1, bool contact = false, size_t cost = 1, bool ec = false ) :
        num_max_contacts(n), enable_contact(contact), num_max_cost_sources(cost), enable_cost(ec) {}
};
template<typename S> struct CollisionResult {
    size_t amv_n;
    Contact<S> amv_c[AMV_FCL_C];
    CollisionResult() : amv_n(0) {}
    bool isCollision() const { return amv_n > 0; }
    size_t numContacts() const { return amv_n; }
    const Contact<S> &getContact( size_t i ) const { return amv_c[i]; }
};
template<typename S> struct DistanceRequest {
    bool enable_nearest_points, enable_signed_distance;
    DistanceRequest( bool near_ = false, bool sign = false ) : enable_nearest_points(near_), enable_signed_distance(sign) {}
};
template<typename S> struct DistanceResult {
    S min_distance;
    Vector3<S> nearest_points[2];
    DistanceResult() : min_distance(DBL_MAX) {}
};

template<typename S> inline struct amv_fcl_pair *amv_pair( const CollisionObject<S> *a, const CollisionObject<S> *b, int *swap )
{
    int i = a->amv_g->amv_key(), j = b->amv_g->amv_key();
    amv_fcl_calls ++;
    *swap = i > j;
    return i < j ? &amv_fcl_pairs[i][j] : &amv_fcl_pairs[j][i];
}
template<typename S> size_t collide( const CollisionObject<S> *a, const CollisionObject<S> *b, const CollisionRequest<S> &q, CollisionResult<S> &r )
{
    int sw;
    struct amv_fcl_pair *p = amv_pair( a, b, &sw );
    if( !q.num_max_contacts ) amv_fcl_bad ++;
    for( int c = 0; c < p->contacts && r.amv_n < q.num_max_contacts; c ++ ) {
        Contact<S> &k = r.amv_c[r.amv_n ++];
        k.penetration_depth = q.enable_contact ? p->depth[c] : 0;
        for( int d = 0; d < 3; d ++ ) {
            k.pos[d] = q.enable_contact ? p->pos[c][d] : 0;
            k.normal[d] = !q.enable_contact ? 0 : sw ? -p->nrm[c][d] : p->nrm[c][d];
        }
    }
    return r.amv_n;
}
template<typename S> S distance( const CollisionObject<S> *a, const CollisionObject<S> *b, const DistanceRequest<S> &q, DistanceResult<S> &r )
{
    int sw;
    struct amv_fcl_pair *p = amv_pair( a, b, &sw );
    if( p->dist < r.min_distance ) {
        r.min_distance = p->dist;
        if( q.enable_nearest_points ) for( int d = 0; d < 3; d ++ ) {
            r.nearest_points[0][d] = p->p[sw][d];
            r.nearest_points[1][d] = p->p[!sw][d];
        }
    }
    return r.min_distance;
}

template<typename S> using CollisionCallBack = bool (*)( CollisionObject<S> *, CollisionObject<S> *, void * );
template<typename S> using DistanceCallBack = bool (*)( CollisionObject<S> *, CollisionObject<S> *, void *, S & );

template<typename S> struct BroadPhaseCollisionManager {
    CollisionObject<S> *amv_o[AMV_FCL_N];
    int amv_fresh[AMV_FCL_N];   /* the manager knows the object's bounding box at its pose */
    int amv_n, amv_set;
    BroadPhaseCollisionManager() : amv_n(0), amv_set(0) {}
    void registerObject( CollisionObject<S> *o )
    {
        if( amv_n >= AMV_FCL_N ) { amv_fcl_bad ++; return; }
        amv_o[amv_n] = o;
        amv_fresh[amv_n ++] = 0;
        amv_set = 0;
        amv_fcl_shapes[o->amv_g->amv_key()].managed ++;
    }
    void setup() { if( !amv_set ) { for( int i = 0; i < amv_n; i ++ ) amv_fresh[i] = amv_o[i]->amv_box; } amv_set = 1; }
    void update() { amv_set = 0; setup(); }
    void clear() { amv_n = 0; }
    size_t size() const { return amv_n; }
    void amv_note()
    {
        for( int i = 0; i < amv_n; i ++ ) {
            struct amv_fcl_shape *s = &amv_fcl_shapes[amv_o[i]->amv_g->amv_key()];
            for( int k = 0; k < 12; k ++ ) s->tf[k] = amv_o[i]->amv_t.d[k];
            if( !amv_set || !amv_fresh[i] || !amv_o[i]->amv_box ) amv_fcl_bad ++;
        }
    }
    void collide( void *cx, CollisionCallBack<S> f )
    {
        amv_note();
        for( int a = 0; a < amv_n; a ++ ) for( int b = a+1; b < amv_n; b ++ ) {
            int i = amv_fcl_rev & 1 ? amv_n-1-a : a, j = amv_fcl_rev & 1 ? amv_n-1-b : b, sw;
            if( amv_pair( amv_o[i], amv_o[j], &sw )->near && ( amv_fcl_rev & 2 ? f( amv_o[j], amv_o[i], cx ) : f( amv_o[i], amv_o[j], cx ) ) ) return;
        }
    }
    void distance( void *cx, DistanceCallBack<S> f )
    {
        amv_note();
        S m = DBL_MAX;
        for( int a = 0; a < amv_n; a ++ ) for( int b = a+1; b < amv_n; b ++ ) {
            int i = amv_fcl_rev & 1 ? amv_n-1-a : a, j = amv_fcl_rev & 1 ? amv_n-1-b : b, sw;
            /* pairs whose boxes are farther apart than the distance found so far are left out */
            if( m < DBL_MAX && !(amv_pair( amv_o[i], amv_o[j], &sw )->dist < m) ) continue;
            if( amv_fcl_rev & 2 ? f( amv_o[j], amv_o[i], cx, m ) : f( amv_o[i], amv_o[j], cx, m ) ) return;
        }
    }
};
template<typename S> struct DynamicAABBTreeCollisionManager : BroadPhaseCollisionManager<S> {};
}
#endif
