"""refactors.py DIR [batch]: applies behaviour-preserving rewrites to a copy of the repository in DIR,
to see that the checks stay quiet on them (AMV_REPO=DIR python3-vt -m amv.run ID)."""
import sys
R = []
def r(f, old, new, batch=1): R.append((batch, f, old, new))

TF, TM = "src/tf.c", "src/tf/tfmatrix.c"
r(TF, """    double inv[4];
    aa_tf_qinv(q2,inv);
    aa_tf_qmul(q1,inv,q_rel);
}""", """    double c[4], n = 0;
    aa_tf_qconj(q2, c);
    for( const double *p = q2; p != q2 + 4; ++p ) n += *p * *p;
    n = 1.0 / n;
    for( int i = 3; i >= 0; i-- ) c[i] *= n;
    aa_tf_qmul(q1, c, q_rel);
}""")
r(TF, """    for( size_t i = 0; i < 4; i ++ ) c[i] = a[i] + b[i];
}""", """    size_t i = 4;
    while( i-- ) { double s = a[i]; s += b[i]; c[i] = s; }
}""")
r(TF, """    a->angle = aa_ang_norm_pi(a->angle);
    double n = sqrt( aa_tf_vdot(v,v) );
    if( a->angle < 0 ) {
        n *= -1;
        a->angle *= -1;
    }
    FOR_VEC(i) v[i] /= n;""", """    double ang = aa_ang_norm_pi(a->angle);
    double m = aa_tf_vnorm(v);
    double sgn = copysign(1, ang);
    a->angle = fabs(ang);
    FOR_VEC(i) v[i] *= sgn / m;""")
r(TF, """    double c = cos(theta);
    double s = sin(theta);

    double kv[3];
    aa_tf_cross(k,v,kv);
    double y = aa_tf_vdot(k,v)*(1-c);

    FOR_VEC(i) q[i] = v[i]*c + kv[i]*s + k[i]*y;""", """    double s, c;
    sincos(theta, &s, &c);
    const double d = k[0]*v[0] + k[1]*v[1] + k[2]*v[2];
    const double y = d - d*c;
    aa_tf_cross(k, v, q);
    for( int i = 0; i < 3; ++i ) q[i] = fma(q[i], s, fma(v[i], c, k[i]*y));""")
r(TF, """    AA_MEM_CPY( aa_plus, aa, 3 );
    aa_plus[3] = aa[3] + 2*M_PI;
    AA_MEM_CPY( aa_minus, aa, 3 );
    aa_minus[3] = aa[3] - 2*M_PI;""", """    aa_tf_axang_permute( aa, 1, aa_plus );
    aa_tf_axang_permute( aa, -1, aa_minus );""")
r(TF, """    AA_MEM_CPY(arv[0],rv,3);
    aa_tf_rotvec_permute( rv, 1, arv[1] );
    aa_tf_rotvec_permute( rv, 2, arv[2] );
    aa_tf_rotvec_permute( rv, 3, arv[3] );
    aa_tf_rotvec_permute( rv, -1, arv[4] );
    aa_tf_rotvec_permute( rv, -2, arv[5] );
    aa_tf_rotvec_permute( rv, -3, arv[6] );
""", """    memcpy(arv[0],rv,3*sizeof(double));
    for( int i = 1; i <= 3; i ++ ) {
        aa_tf_rotvec_permute( rv, i, arv[i] );
        aa_tf_rotvec_permute( rv, -i, arv[3+i] );
    }
""")
r(TF, """    if( trace > 0 ) {
        double r = sqrt(trace + 1);
        q[3] = r / 2;  // always positive
        double s = 0.5 / r;
        q[0] = (AA_MATREF(R,3,2,1) - AA_MATREF(R,3,1,2))*s;
        q[1] = (AA_MATREF(R,3,0,2) - AA_MATREF(R,3,2,0))*s;
        q[2] = (AA_MATREF(R,3,1,0) - AA_MATREF(R,3,0,1))*s;
    } else {
        size_t u = (x < y) ?
            ( (y < z) ? 2 : 1 ) :
            ( (x < z) ? 2 : 0 );
        size_t v = (u + 1) % 3;
        size_t w = (u + 2) % 3;""", """    if( trace > 0 ) {
        const double r = sqrt(1.0 + trace), s = 1 / (2*r);
        for( size_t i = 0; i < 3; i ++ ) {
            size_t j = (i+1)%3, k = (i+2)%3;
            q[i] = s*(R[3*j+k] - R[3*k+j]);
        }
        q[3] = .5 * r;  // always positive
    } else {
        size_t u = 0;
        if( x < y ) u = 1;
        if( R[4*u] < z ) u = 2;
        static const size_t next[3] = {1, 2, 0};
        size_t v = next[u];
        size_t w = next[v];""")
r(TF, """    double a2 = dot3(rotvec,rotvec);
    if (a2 < AA_TF_EPSILON * AA_TF_EPSILON) {
        /* Singularity around small angles. */
        double q[4];
        aa_tf_rotvec2quat(rotvec, q);
        aa_tf_quat2axang(q, axang);
    } else {
        axang[3] = sqrt(a2);
        FOR_VEC(i) axang[i] = rotvec[i] / axang[3];
    }""", """    double a2 = dot3(rotvec,rotvec);
    if (a2 >= AA_TF_EPSILON * AA_TF_EPSILON) {
        double a = sqrt(a2), ia = 1/a;
        FOR_VEC(i) axang[i] = ia * rotvec[i];
        axang[3] = a;
        return;
    }
    /* Singularity around small angles. */
    double q[4];
    aa_tf_rotvec2quat(rotvec, q);
    aa_tf_quat2axang(q, axang);""")
r(TM, """    double n = sqrt( x[0]*x[0] + x[1]*x[1] + x[2]*x[2] );
    for( size_t i = 0; i < 3; i ++ ) x_norm[i] = x[i] / n;""", """    double n2 = 0;
    for( size_t i = 3; i > 0; i -- ) n2 += x[i-1]*x[i-1];
    double in = 1 / sqrt(n2);
    for( size_t i = 0; i < 3; i ++ ) x_norm[i] = in * x[i];""")
r(TM, """    p1[0] =  R[0]*p0[0] + R[3]*p0[1] + R[6]*p0[2];
    p1[1] =  R[1]*p0[0] + R[4]*p0[1] + R[7]*p0[2];
    p1[2] =  R[2]*p0[0] + R[5]*p0[1] + R[8]*p0[2];
}""", """    static const double zero[3] = {0, 0, 0};
    aa_tf_tfmat2_tf( R, zero, p0, p1 );
}""")
r(TM, """    p1[0] = v[0] + R[0]*p0[0] + R[3]*p0[1] + R[6]*p0[2];
    p1[1] = v[1] + R[1]*p0[0] + R[4]*p0[1] + R[7]*p0[2];
    p1[2] = v[2] + R[2]*p0[0] + R[5]*p0[1] + R[8]*p0[2];
""", """    for( int i = 0; i < 3; i ++ ) {
        double s = v[i];
        for( int j = 0; j < 3; j ++ ) s += R[3*j+i] * p0[j];
        p1[i] = s;
    }
""")
r(TM, """    const double *p0 = R2;

    R3[0] =  R1[0]*p0[0] + R1[3]*p0[1] + R1[6]*p0[2];
    R3[1] =  R1[1]*p0[0] + R1[4]*p0[1] + R1[7]*p0[2];
    R3[2] =  R1[2]*p0[0] + R1[5]*p0[1] + R1[8]*p0[2];

    p0 = R2+3;
    R3[3] =  R1[0]*p0[0] + R1[3]*p0[1] + R1[6]*p0[2];
    R3[4] =  R1[1]*p0[0] + R1[4]*p0[1] + R1[7]*p0[2];
    R3[5] =  R1[2]*p0[0] + R1[5]*p0[1] + R1[8]*p0[2];

    p0 = R2+6;
    R3[6] =  R1[0]*p0[0] + R1[3]*p0[1] + R1[6]*p0[2];
    R3[7] =  R1[1]*p0[0] + R1[4]*p0[1] + R1[7]*p0[2];
    R3[8] =  R1[2]*p0[0] + R1[5]*p0[1] + R1[8]*p0[2];
""", """    cblas_dgemm( CblasColMajor, CblasNoTrans, CblasNoTrans,
                 3, 3, 3,
                 1.0, R1, 3, R2, 3,
                 0, R3, 3 );
""")
r(TM, """    double theta2 = dot3(v+3, v+3);
    double theta = sqrt(theta2);
    double sc, cc, ssc;
    if( theta2*theta2 < DBL_EPSILON ) {""", """    const double *w = v+3;
    double theta2 = w[0]*w[0] + w[1]*w[1] + w[2]*w[2];
    double theta = sqrt(theta2);
    double sc, cc, ssc;
    const int is_small = (theta2*theta2 < DBL_EPSILON);
    if( is_small ) {""")
r(TM, """        double s = sin(theta), c = cos(theta);
        sc = s/theta;
        cc = (1-c)/theta2;
        ssc = (1-sc)/theta2;
    }

    double K[9];
    aa_tf_skewsym_scal2( sc, cc, v+3, T );""", """        double c = cos(theta), it2 = 1/theta2;
        sc = sin(theta)/theta;
        cc = (1-c)*it2;
        ssc = (1-sc)*it2;
    }

    double K[9];
    aa_tf_skewsym_scal2( sc, cc, v+3, T );""")
r(TM, """        double s = sqrt(dot3(u, u)) / 2;
        double theta = atan2(s, c);
        double theta2 = theta*theta;
        double a,b;
        if( theta2 < DBL_EPSILON ) {""", """        double s = aa_tf_vnorm(u) * .5;
        double theta = atan2(s, c);
        double theta2 = theta*theta;
        double a,b;
        if( theta2 < DBL_EPSILON ) {""")
r(TM, """            a = theta/s;
            b = (2*s - theta*(1+c)) / (2*theta2*s);
        }

        FOR_VEC(i) w[i] = a / 2 * u[i];
""", """            a = theta/s;
            b = 1/theta2 - (1+c) / (2*theta*s);
        }

        double ha = .5*a;
        w[2] = ha*u[2];
        w[1] = ha*u[1];
        w[0] = ha*u[0];
""")

MH = "include/amino/math.h"
r(MH, "    return fmod(fmod(a, b) + b,  b);", "    double m = fmod(a, b);\n    if( m * b < 0 ) m += b;\n    return m;")
r(MH, "    return aa_fmodulo( an, 2*M_PI );", "    double r = an - 2*M_PI*floor(an/(2*M_PI));\n    return r;")
r(MH, "    return remainder( an, 2*M_PI );", "    return an - 2*M_PI*rint(an/(2*M_PI));")


ME, HP = "src/mem.c", "src/heap.c"
r(ME, """    n = AA_ALIGN2(n, (size_t)AA_MEMREG_ALIGN);
    struct aa_mem_region_node *p =
        (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
    p->end = p->d + n + AA_MEMREG_ALIGN;
    p->next = next;
    p->next = next;
    return p;""", """    const size_t payload = AA_ALIGN2(n, (size_t)AA_MEMREG_ALIGN) + AA_MEMREG_ALIGN;
    struct aa_mem_region_node *p = malloc(payload + sizeof(*p));
    p->next = next;
    p->end = &p->d[payload];
    return p;""", 2)
r(ME, """    struct aa_mem_region_node *p = region->node;
    while (p) { p = aa_mem_region_node_free(p); }
    if( region->free_on_destroy ) {
        free(region);
    } else {
        region->node = NULL;
    }""", """    for( struct aa_mem_region_node *p = region->node, *next; NULL != p; p = next ) {
        next = p->next;
        free(p);
    }
    region->node = NULL;
    if( region->free_on_destroy ) free(region);""", 2)
r(ME, """    return (region->head >= region->node->end) ?
        0 : (size_t)(region->node->end - region->head);""", """    const uint8_t *end = region->node->end;
    if( region->head < end ) return (size_t)(end - region->head);
    return 0;""", 2)
r(ME, """    uint8_t *ptr8 = (uint8_t*)ptr;
    if( aa_mem_region_pop_in_node( ptr8, reg->node ) ){
        // fast path, in the top node
        aa_mem_region_align( reg, ptr8 );
    } else {
        // ugly case, iterate through nodes
        ptrdiff_t n = reg->node->end - reg->node->d;
        struct aa_mem_region_node *p = aa_mem_region_node_free( reg->node );
        // free old nodes
        while( p && !aa_mem_region_pop_in_node(ptr8, p) ) {
            n += (p->end - p->d);
            p = aa_mem_region_node_free( p );
        }
""", """    uint8_t *ptr8 = (uint8_t*)ptr;
    if( aa_mem_region_pop_in_node( ptr8, reg->node ) ){
        // fast path, in the top node
        reg->head = aa_mem_region_alignptr( ptr8 );
        return;
    }
    {
        // ugly case, iterate through nodes
        ptrdiff_t n = 0;
        struct aa_mem_region_node *p = reg->node;
        // free old nodes
        do {
            n += (p->end - p->d);
            p = aa_mem_region_node_free( p );
        } while( p && !aa_mem_region_pop_in_node(ptr8, p) );
""", 2)
r(ME, """    uint8_t *nhead = region->head + size;
    if( nhead > region->node->end ) {
        // slow path
        aa_mem_region_grow(region, size);
        nhead = region->head + size;
    }
    // fast path
    void *p = region->head;
    aa_mem_region_align( region, nhead );
    return p;""", """    uint8_t *p = (uint8_t*)aa_mem_region_tmpalloc( region, size );
    aa_mem_region_align( region, p + size );
    return p;""", 2)
r(ME, """    if( region->head + size > region->node->end ) {
        // slow path
        aa_mem_region_grow(region, size );
    }""", """    size_t room = (size_t)(region->node->end - region->head);
    if( size > room ) aa_mem_region_grow(region, size );""", 2)
r(ME, """    size_t i = 1;
    for( struct aa_mem_region_node *p = region->node; p->next; p = p->next )
        i++;
    return i;""", """    size_t i = 0;
    struct aa_mem_region_node *p = region->node;
    do { i++; p = p->next; } while( p );
    return i;""", 2)
r(ME, """    if( pool->top ) {
        // allocate from freed pool
        void *p = pool->top;
        pool->top = *((void**)p);
        return p;
    } else {
        // allocate from region
        return aa_mem_region_alloc( &pool->region, pool->size );
    }""", """    void **p = (void**)pool->top;
    if( NULL == p ) return aa_mem_region_alloc( &pool->region, pool->size );
    memcpy( &pool->top, p, sizeof(void*) );
    return p;""", 2)
r(ME, """    list->head = node;
    if( &list->head == list->tailp )
        list->tailp = &node->next;""", """    const int was_empty = (list->tailp == &list->head);
    list->head = node;
    if( was_empty ) list->tailp = &node->next;""", 2)
r(ME, """    if( NULL == list->head ) return NULL;

    struct aa_mem_cons *node = list->head;
    list->head = node->next;

    if( NULL == list->head ) list->tailp = &list->head;
    return node->data;
""", """    void *data = NULL;
    struct aa_mem_cons *node = list->head;
    if( node ) {
        data = node->data;
        if( ! (list->head = node->next) ) list->tailp = &list->head;
    }
    return data;
""", 2)
r(ME, """    for( struct aa_mem_cons *c = list->head; c; c = c->next ) {
        function(cx,c->data);
    }""", """    struct aa_mem_cons *c = list->head;
    while( c ) {
        struct aa_mem_cons *n = c->next;
        function(cx,c->data);
        c = n;
    }""", 2)
r(HP, """        size_t i_top = i;
        if( i_l < nmemb &&
            0 > compar(&base[i*size], &base[i_l*size]) )
        {
            i_top = i_l;
        } else {
            i_top = i;
        }
        if( i_r < nmemb &&
            0 > compar(&base[i_top*size], &base[i_r*size]) )
        {
            i_top = i_r;
        }

        if( i_top != i ) {
            aa_memswap( &base[i*size], &base[i_top*size], size );

            //assert( 0 < compar(&base[i*size], &base[i_l*size]) );
            //assert( i_r >= nmemb || 0 < compar(&base[i*size], &base[i_r*size]) );

            i = i_top;
        } else {
            break;
        }""", """        size_t i_top = i;
        for( size_t c = i_l; c <= i_r && c < nmemb; c ++ ) {
            if( compar(base + i_top*size, base + c*size) < 0 ) i_top = c;
        }
        if( i_top == i ) return;
        aa_memswap( base + i*size, base + i_top*size, size );
        i = i_top;""", 2)
r(HP, """    size_t i = nmemb / 2 + 1;
    do {
        i--;
        aa_aheap_heapify( base, nmemb, size, i, compar );
    } while( i > 0 );""", """    for( size_t i = nmemb / 2 + 1; i > 0; i-- )
        aa_aheap_heapify( base, nmemb, size, i-1, compar );""", 2)


# ---- collision checking and linear programs
FC, CS, SA = "src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp", "src/rx/sg_api.cpp"
GL, LS, CL = "src/opt/opt_glpk.c", "src/opt/opt_lpsolve.c", "src/opt/opt_clp.cpp"
r(CS, """    size_t i = (size_t)ii;
    size_t j = (size_t)jj;

    size_t r = (i < j) ?
        (set->n*j + i) :
        (set->n*i + j);
""", """    size_t hi = (size_t)std::max(ii,jj), lo = (size_t)std::min(ii,jj);
    size_t r = lo + hi*set->n;
""", 3)
r(CS, """    for (aa_rx_frame_id i = 0; i<n_f; i++){
        for (aa_rx_frame_id j=0; j<=i; j++){
            if (aa_rx_cl_set_get(from, i, j)) {
                aa_rx_cl_set_set(into, i, j, 1);
            }
        }
    }""", """    for (aa_rx_frame_id j = n_f; j > 0; ) {
        j--;
        for (aa_rx_frame_id i = j; i < n_f; ++i) {
            if ( 0 == aa_rx_cl_set_get(from, j, i) ) continue;
            CLSET_REF(into,j,i) = true;
        }
    }""", 3)
r(CS, "    set->v->assign( set->v->size(), 0 );", "    std::fill( set->v->begin(), set->v->end(), false );", 3)
r(CS, "    CLSET_REF(cl_set, i, j) = is_colliding ? 1 : 0;", "    if( is_colliding ) CLSET_REF(cl_set, j, i) = true;\n    else CLSET_REF(cl_set, j, i) = false;", 3)
r(CS, """    for (auto &pair : sg->sg->allowed){
        aa_rx_cl_set_set(set,
                         aa_rx_sg_frame_id(sg, pair.first.c_str()),
                         aa_rx_sg_frame_id(sg, pair.second.c_str()),
                         1);
    }""", """    auto itr = sg->sg->allowed.begin();
    while( itr != sg->sg->allowed.end() ) {
        aa_rx_frame_id b = aa_rx_sg_frame_id(sg, itr->second.c_str());
        aa_rx_frame_id a = aa_rx_sg_frame_id(sg, itr->first.c_str());
        ++itr;
        CLSET_REF(set,a,b) = 1;
    }""", 3)
r(FC, """        for( unsigned i = 0, j=0; i < n; i++ ) {
            unsigned x=j++;
            unsigned y=j++;
            unsigned z=j++;
            vertices.push_back( ::amino::fcl::Vec3( scale*v[x],
                                                    scale*v[y],
                                                    scale*v[z]) );
        }""", """        vertices.reserve(n);
        for( const float *p = v, *e = v + 3*n; p != e; p += 3 ) {
            vertices.emplace_back( p[0]*scale, p[1]*scale, p[2]*scale );
        }""", 3)
r(FC, """        for( unsigned i=0, j=0; i < n; i++ ) {
            unsigned x=j++;
            unsigned y=j++;
            unsigned z=j++;
            //printf("tri: %u, %u, %u, (%u)\\n", x,y,z, 3*mesh->n_indices);
            triangles.push_back( fcl::Triangle(f[x], f[y], f[z]) );
        }""", """        triangles.reserve(n);
        for( size_t i=0; i < n; i++ )
            triangles.push_back( fcl::Triangle(f[3*i], f[3*i+1], f[3*i+2]) );""", 3)
r(FC, """    for( ::amino::fcl::CollisionObject *o : *cl->objects ) {
        delete o;
    }

    delete cl->manager;
    delete cl->objects;
    aa_rx_cl_set_destroy( cl->allowed );
""", """    aa_rx_cl_set_destroy( cl->allowed );
    delete cl->manager;
    while( ! cl->objects->empty() ) {
        delete cl->objects->back();
        cl->objects->pop_back();
    }
    delete cl->objects;
""", 3)
r(FC, """    /* Skip geometry in the same frame */
    if( id1 == id2 ) return false;

    /* Check if allowed collision */
    if( aa_rx_cl_set_get(data->cl->allowed,id1,id2) ) {
        return false;
    }

""", """    if( id1 == id2 || aa_rx_cl_set_get(data->cl->allowed,id2,id1) ) return false;

""", 3)
r(FC, """        data->result = 1;

        /* Short Circuit? */
        if( data->cl_set ) {
            // printf("Filling collision\\n");
            aa_rx_cl_set_set( data->cl_set, id1, id2, 1 );
        } else {
            // printf("Short circuit\\n");
            return true;
        }
    }

    return false;""", """        data->result = 1;
        if( NULL == data->cl_set ) return true;
        aa_rx_cl_set_set( data->cl_set, id2, id1, 1 );
    }

    return false;""", 3)
r(FC, """    for( auto itr = cl->objects->begin();
         itr != cl->objects->end();
         itr++ )
    {
        ::amino::fcl::CollisionObject *obj = *itr;
        aa_rx_frame_id id""", """    for( auto obj : *cl->objects )
    {
        aa_rx_frame_id id""", 3)
r(FC, """        if( AA_RX_CYLINDER == shape_type ) {
            struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
            double scale = aa_rx_geom_opt_get_scale( aa_rx_geom_get_opt(geom) );
            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
            double E1[7];
            aa_tf_qutr_mul(TF_obj, E, E1);
            obj->setTransform(amino::fcl::qutr2fcltf(E1));
        } else {
            obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );
        }""", """        if( AA_RX_CYLINDER == shape_type ) {
            double s = aa_rx_geom_opt_get_scale( aa_rx_geom_get_opt(geom) );
            double p0[3] = {0, 0, .5 * ((struct aa_rx_shape_cylinder *)shape_)->height * s}, p1[3];
            aa_tf_qutr_tf(TF_obj, p0, p1);
            AA_MEM_CPY(TF_obj+AA_TF_QUTR_V, p1, 3);
        }
        obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );""", 3)
r(FC, """    // Normalize ID order
    if( id1 < id2 ) {
        aa_rx_frame_id tmpid = id1;
        id1 = id2;
        id2 = tmpid;

        ::amino::fcl::CollisionObject *tmpo = o1;
        o1 = o2;
        o2 = tmpo;
    } else if( id1 == id2 ) { // no same-frame collisions
        return false;
    }
""", """    if( id1 == id2 ) return false; // no same-frame collisions
    if( id1 < id2 ) {
        std::swap(id1, id2);
        std::swap(o1, o2);
    }
""", 3)
r(FC, """        for( size_t i = 0; i < 3; i ++ ) {
            ent->point0[i] = p0[i];
            ent->point1[i] = p1[i];
        }
""", """        AA_MEM_CPY(ent->point1, p1, 3);
        AA_MEM_CPY(ent->point0, p0, 3);
""", 3)
r(FC, """            if ( point_arr ){
                double p0[3], p1[3];
                aa_rx_cl_dist_get_points(cl_dist, id0, tmp_id, p0, p1);
                for( size_t j = 0; j<3; j++){
                    point_arr[j] = p0[j];
                    point_arr[j+3] = p1[j];
                }
            }
""", """            if ( NULL != point_arr )
                aa_rx_cl_dist_get_points(cl_dist, id0, tmp_id, point_arr, point_arr + 3);
""", 3)
r(SA, """    bool order = strcmp(frame0, frame1) <0;
    std::pair<std::string, std::string> p(order ? frame0 : frame1,
                                          order ? frame1 : frame0);
    if (allowed){""", """    if( strcmp(frame0, frame1) > 0 ) std::swap(frame0, frame1);
    auto p = std::make_pair(std::string(frame0), std::string(frame1));
    if (allowed){""", 3)
r(GL, """    for( int i = 0; i < mi; i ++ ) rows[i] = i+1;
    for( int j = 0; j < ni; j ++ ) {
        glp_set_mat_col( lp, j+1, mi,
                         rows-1, AA_MATCOL(A,ldA,(size_t)j) - 1 );
    }
""", """    int k = 0;
    while( k < mi ) { rows[k] = k + 1; k++; }
    for( int j = ni; j > 0; j -- ) {
        const double *col = A + ldA*(size_t)(j-1);
        glp_set_mat_col( lp, j, mi, &rows[-1], col - 1 );
    }
""", 3)
r(GL, """    if( nb + ni > 0 ) {
        glp_simplex( lp, NULL );
        r = glp_intopt( lp, NULL );
        /* Result */
        for( int j = 0; j < (int)n; j ++ ) {
            x[j] = glp_mip_col_val( lp, j+1 );
        }
    } else {
        r = glp_simplex( lp, NULL );
        /* Result */
        for( int j = 0; j < (int)n; j ++ ) {
            x[j] = glp_get_col_prim( lp, j+1 );
        }
    }
""", """    const int is_mip = (nb > 0) || (ni > 0);
    r = glp_simplex( lp, NULL );
    if( is_mip ) r = glp_intopt( lp, NULL );
    for( int j = 1; j <= (int)n; j ++ )
        x[j-1] = is_mip ? glp_mip_col_val( lp, j ) : glp_get_col_prim( lp, j );
""", 3)
r(GL, """        int inds[count];
        for( int j = 0; j < count; j ++ ) {
            inds[j] = raw_inds[j] + 1;
        }
        glp_set_mat_row(lp, i+1, count, inds-1, vals-1);
""", """        int inds[count+1];
        double v[count+1];
        for( int j = 1; j <= count; j ++ ) {
            v[j] = vals[j-1];
            inds[j] = 1 + raw_inds[j-1];
        }
        glp_set_mat_row(lp, i+1, count, inds, v);
""", 3)
r(LS, """            if( aa_opt_is_bound(lb,ub) && !aa_opt_is_eq(b_lower[i], b_upper[i]) ) {
                row_count += 2;
            } else {
                row_count ++;
            }
""", """            row_count += 1 + (aa_opt_is_bound(lb,ub) && !aa_opt_is_eq(b_lower[i], b_upper[i]));
""", 3)
r(LS, """    for( size_t j = 0; j < n; j ++ ) {
        double v = A[j*incA];
        int col = 1 + (int)j;
        set_mat( lp, ilp, col, v );
    }
""", """    const double *a = A;
    for( int col = 1; col <= (int)n; col ++, a += incA ) set_mat( lp, ilp, col, *a );
""", 3)
r(CL, """    for( int j = 0; j < ni; j ++ ) {
        for( int i = 0; i < mi; i ++ ) {
            M->modifyCoefficient( i, j, AA_MATREF(A,lda, i,j) );
        }
    }
""", """    for( int i = 0; i < mi; i ++ ) {
        const double *a = A + i;
        for( int j = 0; j < ni; j ++, a += lda ) M->modifyCoefficient( i, j, *a );
    }
""", 3)
r(CL, """    s_set_bnd( cx, n, x_lower, x_upper );
    s_set_obj( cx, n, c );

    s_set_cstr_bnd( cx, m, b_lower, b_upper );


    M.setOptimizationDirection( -1 );
""", """    s_set_direction( cx, AA_OPT_MAXIMIZE );
    s_set_cstr_bnd( cx, m, b_lower, b_upper );
    s_set_obj( cx, n, c );
    s_set_bnd( cx, n, x_lower, x_upper );
""", 3)


if __name__ == "__main__":
    d = sys.argv[1]
    batch = [int(x) for x in sys.argv[2:]]
    for b, f, old, new in R:
        if batch and b not in batch: continue
        p = d + "/" + f
        t = open(p).read()
        if t.count(old) < 1: print("MISSING", f, old[:60]); continue
        if t.count(old) > 1: print("MULTI", f, t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new, 1))
