From 4eadebe9c6529ee5a1f9038ef128c0b2d5f18517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 01/57] fix: small-angle series of the rotation-matrix and
 rigid-motion exponentials

(1-cos t)/t^2 tends to 1/2; the series was multiplied by t, so exp of a
small rotation vector was off by t^2/2 and the translation of a small
screw by up to t/2.
---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From f6272daf41d1da18417ce51a145e7b0489a2a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:25 +0000
Subject: [PATCH 02/57] fix: aa_tf_qexp_n dropped the scalar part when the
 vector part is zero

---
 src/tf/quat_ord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..ea5c258 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -426,7 +426,7 @@ aa_tf_qexp_n( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 4] )
                                 q[AA_TF_QUAT_Z] );
     if( phi < DBL_EPSILON ) {
         FOR_VEC(i) r_v[i] = 0;
-        r[AA_TF_QUAT_W] = 1;
+        r[AA_TF_QUAT_W] = exp(q[AA_TF_QUAT_W]);
     } else {
         double s = sin(phi);
         double c = cos(phi);
-- 
2.43.0


From 4fe29df9fa349f216243898e2278160c0a729e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:09 +0000
Subject: [PATCH 03/57] fix: dual part of the dual-quaternion vector norm
 counted the scalar components

---
 src/tf/quat_duqu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tf/quat_duqu.c b/src/tf/quat_duqu.c
index 71deacf..5c3c901 100644
--- a/src/tf/quat_duqu.c
+++ b/src/tf/quat_duqu.c
@@ -181,7 +181,7 @@ aa_tf_duqu_vnorm( const double S[AA_RESTRICT 8],
                  double * AA_RESTRICT nreal, double * AA_RESTRICT  ndual )
 {
     *nreal = aa_tf_qvnorm(S+AA_TF_DUQU_REAL);
-    *ndual = aa_tf_qdot(S+AA_TF_DUQU_REAL_X, S+AA_TF_DUQU_DUAL_X) / *nreal;
+    *ndual = aa_tf_vdot(S+AA_TF_DUQU_REAL_X, S+AA_TF_DUQU_DUAL_X) / *nreal;
 }
 
 AA_API void
-- 
2.43.0


From 2b35b00b076698ab628f585ab3b5b96fa697b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 04/57] fix: bitwise AND, OR and XOR of bit sets never
 terminated and indexed one word too far

---
 include/amino/mem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..fdefc4a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,7 +698,7 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] &= b[n_words];
     }
 }
@@ -710,7 +710,7 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] |= b[n_words];
     }
 }
@@ -722,7 +722,7 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] ^= b[n_words];
     }
 }
-- 
2.43.0


From 774b4597fd876e2747cce47fd5f0b7da8b6b73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 05/57] fix: popping a memory region to the end of a full chunk
 freed that chunk with its live data

---
 src/mem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..bfecb84 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -65,6 +65,8 @@ AA_API void aa_flexbuf_free(aa_flexbuf_t *p) {
 static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
                                                     struct aa_mem_region_node *next) {
     // FIXME: maybe we should use mmap instead of malloc()
+    // keep the end aligned, so that the aligned head never passes it
+    n = AA_ALIGN2(n, (size_t)AA_MEMREG_ALIGN);
     struct aa_mem_region_node *p =
         (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
     p->end = p->d + n + AA_MEMREG_ALIGN;
@@ -129,7 +131,8 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // the head of a full chunk is its end
+    return ptr >= node->d  && ptr <= node->end;
 }
 
 
-- 
2.43.0


From 0989b6e7fc5d3b1d85b4d7c753d7e1bf53d87799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 06/57] fix: growing a memory region freed the chunk a saved
 mark or temporary data was in

---
 src/mem.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index bfecb84..a76d704 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -172,11 +172,9 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    // keep the old chunk even when its head is at its start: a caller may hold
+    // the head as a mark to pop, or have temporary data there
+    reg->node = aa_mem_region_node_alloc( nsize, reg->node );
     aa_mem_region_align(reg, reg->node->d);
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
-- 
2.43.0


From 1040bfc5d441173cb5b0d607a8e100f21e6684f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:03 +0000
Subject: [PATCH 07/57] fix: aa_mem_region_vprintf no longer loops forever when
 the top chunk has 2 GB or more free

---
 src/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.c b/src/mem.c
index a76d704..31608ba 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -265,7 +265,7 @@ char* aa_mem_region_vprintf(aa_mem_region_t *reg, const char *fmt, va_list ap )
         r = vsnprintf((char*)aa_mem_region_ptr(reg), aa_mem_region_freesize(reg),
                       fmt, ap1);
         va_end(ap1);
-    }while( (r >= (int)aa_mem_region_freesize(reg) ) &&
+    }while( r >= 0 && ((size_t)r >= aa_mem_region_freesize(reg) ) &&
             aa_mem_region_tmpalloc( reg, (size_t)r + 1) );
     return (char*)aa_mem_region_alloc(reg,(size_t)r + 1);
 }
-- 
2.43.0


From 978182d61370dfde976fe3f4999e35aed2d44cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 08/57] fix: integer modulo no longer overflows for large
 divisors

---
 include/amino/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/amino/math.h b/include/amino/math.h
index 1b3c03d..555b488 100644
--- a/include/amino/math.h
+++ b/include/amino/math.h
@@ -125,7 +125,9 @@ static inline double aa_fsq( double a ) {
 }
 
 /// Fortran modulo, Ada mod
-#define AA_MODULO(a,b) (((a) % (b)) + (b)) % (b);
+#define AA_MODULO(a,b)                                          \
+    ( ((a) % (b) != 0 && ((a) % (b) < 0) != ((b) < 0)) ?        \
+      ((a) % (b)) + (b) : ((a) % (b)) )
 
 /// Fortran modulo, Ada mod
 static inline int aa_imodulo( int a, int b ) {
-- 
2.43.0


From 65f1c20069d364eaad3dc649f98108ed7f2a9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 09/57] fix: aa_la_trace sums signed diagonal elements

---
 src/la.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..bf8fb08 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,10 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double a = 0;
+    for( size_t i = 0; i < n; i++ )
+        a += AA_MATREF(A,n,i,i);
+    return a;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From 9faf1aecbfa0f8211a17697fd617adab96c8ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 10/57] fix: derivative of the quadratic term in
 aa_la_quadterp_dx

---
 src/la.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index bf8fb08..294177a 100644
--- a/src/la.c
+++ b/src/la.c
@@ -485,7 +485,7 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
+    double ti_2 = 2*ti;
 
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
-- 
2.43.0


From 7d036153ea125223463037074114d7cca1466d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 11/57] fix: use the leading dimension of the packed copy in la
 qr, svd and eev

---
 src/la_impl.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..4733181 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -552,12 +552,14 @@ AA_API int AA_NAME(la,svd)
         /* Simple */
         const char *jobu = (U && ldu > 0) ? "A" : "N";
         const char *jobvt = (Vt && ldvt > 0) ? "A" : "N";
+        int ldui = (U && ldu > 0) ? (int)ldu : 1;
+        int ldvti = (Vt && ldvt > 0) ? (int)ldvt : 1;
 
         LA_WORK( reg, work, lwork,
                  AA_LAPACK_NAME(gesvd)( jobu, jobvt, &mi, &ni,
                                         Ap, &mi,
-                                        S, U, &mi,
-                                        Vt, &ni,
+                                        S, U, &ldui,
+                                        Vt, &ldvti,
                                         &work[0], &lwork, &info ) );
     }
 
@@ -577,7 +579,6 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
@@ -590,7 +591,7 @@ AA_API int AA_NAME(la,eev)
 
     LA_WORK( reg, work, lwork,
              AA_LAPACK_NAME(geev)( jobvl, jobvr,
-                                   &ni, Ap, &ldai,
+                                   &ni, Ap, &ni,
                                    wr, wi,
                                    Vl, &ldvli,
                                    Vr, &ldvri,
-- 
2.43.0


From 0ed28c7bcc30df75ae7db538bd696d3ac11d066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 12/57] fix: la colcov honours the leading dimension of the
 covariance

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 4733181..0213ac4 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -422,13 +422,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From 93a4e9034cd0fc22b5dca7e8b3224c2c09940110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 13/57] fix: compare single-precision elements as floats in la
 compar

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 0213ac4..42ce654 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -631,8 +631,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(const AA_TYPE*)_a;
+    AA_TYPE b = *(const AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From 1e6c86df3bcbd6478671d14a7aa8a3a53bdea7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 14/57] fix: aa_dmat_inc touched the gaps of square views with
 a larger leading dimension

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..9233732 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -504,7 +504,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From b57e5dffa35680344d38cbb8c5fb547098a9661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 15/57] fix: aa_dmat_pinv and aa_dmat_dzdpinv honour the
 leading dimension of the result

---
 src/mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 9233732..5bf7043 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -646,7 +646,7 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -833,7 +833,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
@@ -843,7 +843,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)(As->ld)
             );
     }
 
-- 
2.43.0


From 45ab3e2b39f3dc863252696a47846287b2b4db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 16/57] fix: aa_dmat_gemm checks and passes the sizes of the
 transposed operands

---
 src/mat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 5bf7043..32e5f0c 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,15 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    /* dimensions of op(A) and op(B) */
+    const size_t m  = (CblasNoTrans == transA) ? A->rows : A->cols;
+    const size_t k  = (CblasNoTrans == transA) ? A->cols : A->rows;
+    const size_t kb = (CblasNoTrans == transB) ? B->rows : B->cols;
+    const size_t n  = (CblasNoTrans == transB) ? B->cols : B->rows;
+
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( k, kb );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +412,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)k,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From 6f66357cdcf55defdf847d6f746b57a77fdff36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 17/57] fix: Dormand-Prince stage at 8/9 used an integer
 division

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..82db3d6 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From c99de2724af1fa1d69a8bdb5d87aab7944cb47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 18/57] fix: embedded Cash-Karp weights of the fifth and sixth
 stage were exchanged

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 82db3d6..1485335 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -441,7 +441,7 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
                  dt, k, (int)n,
                  v1, 1,
                  1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+    static const double v2[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
                  (int)n, (int)5,
                  dt, k, (int)n,
-- 
2.43.0


From e9bff162ccedfa9db7f403a9232791a27b61cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:59 +0000
Subject: [PATCH 19/57] fix: adaptive integration in aa_ode_sol advances time
 and restarts from the derivative at the new state

---
 src/sigsys.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 1485335..3863d51 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -650,9 +650,11 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
         sys( sys_cx, t0, x0, k );
 
         for(;;) {
+            double h; /* size of the accepted step */
             for(;;) { /* adaptive loop */
+                h = dt;
                 adaptive_integrator( n, sys, sys_cx,
-                                     t, dt,
+                                     t, h,
                                      px0, k, px1, px2 );
                 double err = aa_la_ssd( n, px1, px2 );
                 // adapt the step size
@@ -665,13 +667,17 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             }
 
+            /* Derivative at the new state */
+            t += h;
+            sys( sys_cx, t, px2, kn );
+
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
                 AA_MEM_CPY(x1, px2, n);
                 break;
             } else {
                 double *tmp = px0; px0 = px2; px2 = tmp;
-                AA_MEM_CPY(k, kn, n); // extract dx to k0
+                sys( sys_cx, t, px0, k ); // check may have changed the state
             }
         }
     } else {
-- 
2.43.0


From 811e7e84ffdbf3032766683eb481e7a4bb789a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:20 +0000
Subject: [PATCH 20/57] fix: fixed-frame matrix transform copied nine
 translation elements

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..9b434bf 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -164,7 +164,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From 0ca25f2acfcda0a800786966b8198679fcc4e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:20 +0000
Subject: [PATCH 21/57] fix: prismatic matrix and dual-quaternion transforms
 slide along the rotated axis and fill the output

---
 src/rx/scenegraph.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 9b434bf..5866fc9 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -192,21 +192,29 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
     double qo = q[this->config_index] + this->offset;
+    double x[3];
+    for( size_t i = 0; i < 3; i ++ ) {
+        x[i] = qo*this->axis[i];
+    }
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
-
+    aa_tf_rotmat_rot( R, x, _T+AA_TF_TFMAT_V );
     for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        _T[AA_TF_TFMAT_V+i] += E[AA_TF_QUTR_V+i];
     }
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
     double qo = q[this->config_index] + this->offset;
-    double v[3];
+    double x[3], v[3];
+    for( size_t i = 0; i < 3; i ++ ) {
+        x[i] = qo*this->axis[i];
+    }
+    aa_tf_qrot(E+AA_TF_QUTR_Q, x, v);
     for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        v[i] += E[AA_TF_QUTR_V+i];
     }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,_S);
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From 35de8fc061489970775afd992b5f0418f333da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:20 +0000
Subject: [PATCH 22/57] fix: frames without a rotation or translation
 dereferenced a null pointer

---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 5866fc9..52e8aac 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From e2316c331f7f4371f68ebe35c35a595359637504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:58 +0000
Subject: [PATCH 23/57] fix: aa_rx_fk_get_abs_qutr read past the table for the
 first invalid frame id

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..a5e311a 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -896,7 +896,7 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
         fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
         abort();
         exit(EXIT_FAILURE);
-- 
2.43.0


From f70573237b7de262c2f6e67a46e27b8f0cd0f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:48 +0000
Subject: [PATCH 24/57] fix: aa_rx_fk_all honours the increment of the
 configuration vector

---
 src/rx/sg_api.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index a5e311a..af218b9 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -964,15 +964,27 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    /* Frames index a contiguous configuration */
+    struct aa_mem_region *reg = aa_mem_region_local_get();
+    void *ptrtop = aa_mem_region_ptr(reg);
+    const double *q_data = q->data;
+    if( 1 != q->inc ) {
+        struct aa_dvec *qp = aa_dvec_alloc(reg,q->len);
+        aa_dvec_copy(q,qp);
+        q_data = qp->data;
+    }
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
          i_frame++, E_abs += AA_RX_FK_LD )
     {
         amino::SceneFrame *f = sg->frames[i_frame];
-        f->tf_rel( q->data, E_rel );
+        f->tf_rel( q_data, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
+
+    aa_mem_region_pop(reg,ptrtop);
 }
 
 
-- 
2.43.0


From 0be44eea6ddbc4f50ed0bdfca07ce1085c29f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 25/57] fix: a new scene graph has no configuration variables
 and clean flags

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 52e8aac..42b23a3 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -275,8 +275,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(0),
+      dirty_gl(0)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From c89ba2f5bffac3f551379e1d5ea646efc70a7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 26/57] fix: aa_rx_sg_config_name compares with the number of
 configurations, not frames

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index af218b9..47e7618 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From a4d69dc437e02a1b940b9b1a8550afee0cc8dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 27/57] fix: reparenting a frame also updates its matrix and
 dual-quaternion transforms

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 47e7618..0c235fd 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -733,6 +733,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat(f->E+AA_TF_QUTR_Q, f->R);
+    aa_tf_qv2duqu(f->E+AA_TF_QUTR_Q, f->E+AA_TF_QUTR_V, f->S);
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From 1bd3c8931a0850625c07d937cedc2699c05a8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 28/57] fix: limits first set after aa_rx_sg_init were not
 found

---
 src/rx/sg_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 0c235fd..c0c0672 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -554,6 +554,11 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        /* Already indexed */
+        auto itr = sg->config_map.find(config_name);
+        if( sg->config_map.end() != itr ) {
+            sg->limits[(size_t)itr->second] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From 7b60377afc31b1411a6a8f53edaf4dff8abf6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 29/57] fix: limits of a copied scene graph were allocated with
 new and released with free

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index c0c0672..a44efee 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -791,7 +791,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW(aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From 268e881be2fac347067827e9df5dba82333186db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 30/57] fix: sub-scenegraphs of several chains contained no
 frames and no end-effectors

---
 src/rx/scene_kin.c   | 4 ++++
 src/rx/scene_sub.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..d3b39c3 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -359,6 +359,7 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     ssg->frame_count = aa_rx_sg_chain_multiple_frames( sg, root, n_tips,
                                                        tips, tmp, tmp_arr);
     ssg->frames = AA_MEM_DUP(aa_rx_frame_id, tmp_arr, ssg->frame_count);
+    free(tmp_arr);
 
 
     ssg->config_count = aa_rx_sg_chain_config_count( sg,
@@ -368,6 +369,9 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
     return ssg;
 }
 
diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From cdc917c6a8f1bca558ad73e972e297d67c2546a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 31/57] fix: constant-acceleration segment evaluated with the
 sign of the acceleration reversed

---
 src/ct/traj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..e7f293a 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -491,14 +491,14 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
     if( t >= cx->t0 && t <= cx->t1 ) {
         size_t n = AA_MIN( cx->n_q, state->n_q );
         double tt = t - cx->t0;
-        double q, dq, ddq, q0, dq0;
+        double q, dq, ddq;
         for( size_t i = 0; i < n; i ++ ) {
             ddq = cx->ddq[i];
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            if( state->dq ) state->dq[i] = dq + tt * ddq;
+            if( state->q ) state->q[i] = q + tt * dq + tt * tt * ddq/2;
         }
         return AA_CT_SEG_IN;
     } else {
-- 
2.43.0


From 023d62be29077deec79db4ea915228abaaf976f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 32/57] fix: trapezoidal profile combining several joints could
 exceed velocity limits

---
 src/ct/traj.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index e7f293a..4220470 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -520,8 +520,8 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
 {
 
     /* Compute segment time */
-    double dt = 0;
-    double ta = 0;
+    double tc = 0; // time before decelerating
+    double ta = 0; // time accelerating
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
     double dqmax, ddqmax, dti, q0, q1;
     double sign;
@@ -557,9 +557,10 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
             dti = 2*tai;
         }
 
-        dt = AA_MAX(dt, dti);
+        tc = AA_MAX(tc, dti - tai);
         ta = AA_MAX(ta, tai);
     }
+    double dt = ta + tc;
 
     /* Allocate */
     /* Accelearation segment */
-- 
2.43.0


From 2ae3a8230c96572e1073b24029b792e4e1bed864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 33/57] fix: leak in trapezoidal trajectory generation

---
 src/ct/traj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 4220470..5a34ec7 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -665,7 +665,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From 9dd802930ef468030e9398e4292513f68c9c112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 34/57] fix: trajectory evaluation failed when going back in
 time

---
 src/ct/traj.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 5a34ec7..624048d 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -209,20 +209,22 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
-        list->it = list->list.begin();
-        list->it_on = 1;
+    // Continue from the segment of the previous evaluation
+    if (list->it_on) {
+        for( ; list->it != list->list.end(); list->it++ ) {
+            struct aa_ct_seg *seg = *list->it;
+            int r = seg->eval(seg, state, t);
+            if( r ) return r;
+        }
     }
 
-    do {
+    // Search all segments, the time may be before the previous evaluation
+    list->it_on = 1;
+    for( list->it = list->list.begin(); list->it != list->list.end(); list->it++ ) {
         struct aa_ct_seg *seg = *list->it;
-
-        int r;
-        if ((r = seg->eval(seg, state, t)))
-            return r;
-
-        list->it++;
-    } while (list->it != list->list.end());
+        int r = seg->eval(seg, state, t);
+        if( r ) return r;
+    }
 
     list->it_on = 0;
     return AA_CT_SEG_OUT;
-- 
2.43.0


From e1fd17e578b6064ae9a70ae4614384e72f2004df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 35/57] fix: parabolic blend evaluation wrote velocities and
 accelerations that were not requested

---
 src/ct/traj.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 624048d..4d5f0f4 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -736,19 +736,22 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
         for (size_t i = 0; i < c_cx->n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
-                c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if( state->q )
+                state->q[i] = c_cx->q[i] + p_dq * dt + \
+                    c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
+            if( state->dq )
+                state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if( state->ddq )
+                state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
         for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+            if( state->q ) state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if( state->dq ) state->dq[i] = c_cx->dq[i];
+            if( state->ddq ) state->ddq[i] = 0;
         }
 
     } else {
-- 
2.43.0


From f4bfecea9a69048e8b38b20fc7b9520f4c8b2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 36/57] fix: slerp trajectory always evaluated as outside its
 segment

---
 src/ct/traj.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 4d5f0f4..b142e85 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1157,8 +1157,8 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    if( state->eff ) AA_MEM_ZERO(state->eff,state->n_q);
+    return (t >= 0 && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
@@ -1197,6 +1197,7 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
 
     struct aa_ct_seg_list *segs  = new(reg) aa_ct_seg_list(reg);
     aa_ct_seg_list_add_cx(segs, aa_ct_seg_slerp_eval,  s);
+    segs->n_q = 0;
     segs->duration = 1;
 
     return segs;
-- 
2.43.0


From 730df6aa5bf8ebb8d5b61766ba52e59c3c18ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 37/57] fix: trajectory continuity check did not release its
 temporary states

---
 src/ct/traj.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index b142e85..e2f34fb 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1048,6 +1048,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *temp;
+    void *const mark = state0; // first allocation, states are swapped below
 
     aa_ct_seg_list_eval(segs, state1, dt);
     for( double t0 = 0, t1 = dt; aa_ct_seg_list_eval(segs, state1, t1); t0 += dt, t1 += dt )
@@ -1065,6 +1066,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
             fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
+            aa_mem_region_pop(reg, mark);
             return 1;
         }
 
@@ -1095,6 +1097,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         else
         {
             // Why does the segment have a weird type?
+            aa_mem_region_pop(reg, mark);
             return 3;
         }
         double state_diff = 0.0;
@@ -1108,12 +1111,12 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             // Max distance between two segment endpoints exceed the given epsilon.
             fprintf(stderr, "WARNING: trajectory segment endpoints don't match for seg type %d: "
                     "%f, %f.\n", c_seg->type, state_diff, eps);
+            aa_mem_region_pop(reg, mark);
             return 2;
         }
     }
 
-    aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
+    aa_mem_region_pop(reg, mark);
 
     // All good!
     return 0;
-- 
2.43.0


From 3d40ff5516c87571a68ade9e047f6587937ee2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:37 +0000
Subject: [PATCH 38/57] fix: aa_tf_qslerpchaindiff used the wrong derivative of
 the arc

---
 src/tf/quat_ord.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index ea5c258..0d247aa 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -890,8 +890,11 @@ AA_API void aa_tf_qslerpchaindiff(
     double theta, d1, d2;
     aa_tf_qslerp_param(q1, q2, &theta, &d1, &d2);
     if( aa_feq(theta, 0, 0) ) {
-        AA_MEM_ZERO(dq, 4);
-        AA_MEM_CPY(q, q1, 4);
+        const double s = (aa_tf_qdot(q1,q2) < 0) ? -u : u;
+        FOR_QUAT(i) {
+            dq[i] = (1-u)*dq1[i] + s*dq2[i];
+            q[i] = q1[i];
+        }
         return;
     }
     //const double s = sin(theta);
@@ -901,8 +904,8 @@ AA_API void aa_tf_qslerpchaindiff(
     const double sb = sin(u*theta);
     const double cb = cos(u*theta);
 
-    const double dtheta_c = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
-    const double dtheta =  dtheta_c / c;
+    const double dtheta = - (aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2)) / d2;
+    const double dtheta_c = dtheta * c;
 
     const double a = sa / d1;
     const double b = sb / d2;
-- 
2.43.0


From 78ba21c1eb3a8f0306e74a13f624560adaad6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:37 +0000
Subject: [PATCH 39/57] fix: aa_tf_vecs2quat was wrong for nearly parallel or
 short vectors

---
 src/tf/quat_ord.c | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 0d247aa..78d17b4 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -960,7 +960,8 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
 
     double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
 
-    if( cc / nuv < sqrt_epsilon ) {
+    if( uv < 0 && cc < DBL_EPSILON*nu*nv ) {
+        /* Opposite vectors: half turn about any perpendicular axis */
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -975,31 +976,9 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
             (fy > fz ? a_z : a_y) :
             (fx > fz ? a_z : a_x);
 
-        /* Get the quaternion axis */
-        /* TODO: verify axis direction */
-        double au[3];
-        double av[3];
-        aa_tf_cross( u, ar, au);
-        if( uv > 0 ) {
-            aa_tf_cross( v, ar, av);
-        } else {
-            aa_tf_cross( ar, v, av);
-        }
-        /* average axis from u and v */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
-
-        /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
-        double qtheta = theta/2;
-
-        double s = sin( qtheta );
-        double m = s / sqrt(aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]));
-
-        /* scale axis by sign / magnitude */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] *= m;
-
-        q[AA_TF_QUAT_W] = cos(qtheta);
-
+        aa_tf_cross( u, ar, &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = 0;
+        aa_tf_qnormalize(q);
     } else {
         q[AA_TF_QUAT_W] = uv + nuv;
         aa_tf_qnormalize(q);
-- 
2.43.0


From a2ecb38d64a8665708455adb0d327b590fbd3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:32 +0000
Subject: [PATCH 40/57] fix: circular standard deviation used the squared
 resultant length

---
 src/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..19bdd0c 100644
--- a/src/math.c
+++ b/src/math.c
@@ -131,7 +131,7 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     }
     as = as / (double)n;
     ac = ac / (double)n;
-    double r = (as*as + ac*ac);
+    double r = sqrt(as*as + ac*ac);
     return sqrt( -2 * log(r) );
 }
 
@@ -197,7 +197,7 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         as /= (double)j;
         ac /= (double)j;
         mu = atan2(as,ac);
-        double r = (as*as + ac*ac);
+        double r = sqrt(as*as + ac*ac);
         sigma = sqrt( -2 * log(r) );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
-- 
2.43.0


From c2cf8f6dff592dfc2caec9aaba3f6c3b3626e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 41/57] fix: take the quaternion logarithm of a quaternion in
 the pose error helper

s_nlobj_qv_fd_helper passed two four-element arrays to aa_tf_duqu_ln, which reads
and writes eight elements.
---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..11022e1 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -323,7 +323,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From e785da6b957e140e1d3f7b4a15f9fae7e60aadb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 42/57] fix: start the pose check from the context's frames

aa_rx_ik_check computed the frames of the chain on top of an uninitialised table,
so the pose was arbitrary for a chain that does not start at the root.
---
 src/rx/scene_ik.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..62d236d 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -398,6 +398,7 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
 
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
+    aa_rx_fk_cpy(fk, cx->fk);
     aa_rx_fk_sub(fk, cx->ssg, q_sub);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
-- 
2.43.0


From bf77dd3013204a965ee12899147386fcc8be2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 43/57] fix: check the number of reference frames before
 allocating the solver context

aa_rx_ik_solve returned without releasing its allocation from the thread's region.
---
 src/rx/scene_ik.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 62d236d..c32dc31 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -223,6 +223,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
 {
     if( aa_rx_sg_sub_config_count(context->ssg) != q->len
         || AA_RX_TF_LEN != TF->rows
+        || 1 != TF->cols /* only chains */
         )
     {
         return AA_RX_INVALID_PARAMETER;
@@ -232,10 +233,6 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
     struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
                                                      aa_mem_region_local_get() );
 
-    if( 1 != TF->cols )
-    {   /* only chains */
-        return AA_RX_INVALID_PARAMETER;
-    }
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From 272d462d4cdb91d09766836e5b5e80d8f884eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 44/57] fix: search the uncovered costs without a bound in the
 Hungarian algorithm

The bound was the greatest cost of the remaining matrix; with costs that are
not positive the step subtracted nothing and the loop did not end.
---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 42ce654..bfb0f05 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -256,7 +254,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From ccb62b2dd30c39d7758154ba13f53a8831beef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 45/57] fix: count equality rows once and leave out free rows
 with LP-Solve

The number of rows did not match the rows that were filled: a problem in
general matrix form with a free or an equality row ended in an assertion.
---
 src/opt/opt_lpsolve.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..2d563d0 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -189,7 +189,7 @@ static int s_count_rows( size_t m,
         int lb = aa_opt_is_lbound(b_lower[i]);
         int ub = aa_opt_is_ubound(b_upper[i]);
         if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
+            if( aa_opt_is_bound(lb,ub) && !aa_opt_is_eq(b_lower[i], b_upper[i]) ) {
                 row_count += 2;
             } else {
                 row_count ++;
@@ -233,7 +233,9 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
             double l=b_lower[i], u=b_upper[i];
             int lb = aa_opt_is_lbound(l);
             int ub = aa_opt_is_ubound(u);
-            if( !aa_opt_is_free(lb,ub) ) {
+            if( aa_opt_is_free(lb,ub) ) {
+                continue;
+            } else {
                 if( aa_feq(l,u,0) ) {
                     // equality
                     rh = u;
-- 
2.43.0


From dc712e00af504296d002f896a8e7d3a813b01f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 46/57] fix: export aa_opt_lp_clp under its C name

---
 src/opt/opt_clp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..6b61291 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -347,7 +347,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 
 
 
-int aa_opt_lp_clp (
+AA_API int aa_opt_lp_clp (
     size_t m, size_t n,
     const double *A, size_t ldA,
     const double *b_lower, const double *b_upper,
-- 
2.43.0


From c8a4dad6387cf1024a0dbc67d775a714bb90cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 47/57] fix: do not leak the first context of a linear program

---
 src/opt/opt_glpk.c    | 2 +-
 src/opt/opt_lpsolve.c | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..4b81480 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -347,7 +347,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 2d563d0..d50d6bb 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -342,8 +342,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
 
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
-- 
2.43.0


From cd207b34d4f407544d69805e26c0198d31fc75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 48/57] fix: keep LP-Solve's rows in step with the bounds when
 constraints are replaced

A bound that appears, disappears or becomes an equality changes the number of
rows; the constraints were shifted against the rows or left stale.
---
 src/opt/opt_lpsolve.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index d50d6bb..0a30d30 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -224,6 +224,15 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
     lprec *lp = (lprec*)cx->data;
     int row_count = s_count_rows(m, b_lower, b_upper);
 
+    // the number of rows depends on the bounds
+    while( get_Nrows(lp) > row_count ) {
+        if( ! del_constraint(lp, get_Nrows(lp)) ) goto ERROR;
+    }
+    while( get_Nrows(lp) < row_count ) {
+        double v = 0;
+        int col = 1;
+        if( ! add_constraintex(lp, 1, &v, &col, LE, 0) ) goto ERROR;
+    }
 
     int ilp = 1;
     for( size_t i = 0; i < m; i ++ ) {
-- 
2.43.0


From d06833ff418d2ff4b13bd5ef533888d8adacdb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 49/57] fix: add the null-space motion of every joint in
 aa_rx_wk_dx2dq_lc3

The number of workspace variables was used for the number of joints: memory
past the end was read and written for fewer than six joints, and joints past
the sixth got no null-space motion.
---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From 54d3c4a0d11cdd493e21e1f8fb30c987dbae1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 50/57] fix: move the bounding boxes of collision objects along
 with them

---
 src/rx/amino_fcl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..63da876 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -408,6 +408,8 @@ s_update_tf( const struct aa_rx_cl *cl,
         } else {
             obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );
         }
+        /* FCL does not update the bounding box with the transform */
+        obj->computeAABB();
     }
     cl->manager->update();
 
-- 
2.43.0


From 803473bebde10082de5ff3ca542776fbc20b2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 51/57] fix: place scaled collision cylinders by their scaled
 height

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 63da876..b3bd7fa 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -401,7 +401,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale( aa_rx_geom_get_opt(geom) );
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 9356f05d742e9c252a270a7da9e6b4842613baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 52/57] fix: merge collision sets including the pairs of a
 frame with itself

---
 src/rx/collision_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..a47525f 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -131,7 +131,7 @@ aa_rx_cl_set_merge(struct aa_rx_cl_set* into, const struct aa_rx_cl_set* from){
     assert(n_f == (aa_rx_frame_id)from->n);
 
     for (aa_rx_frame_id i = 0; i<n_f; i++){
-        for (aa_rx_frame_id j=0; j<i; j++){
+        for (aa_rx_frame_id j=0; j<=i; j++){
             if (aa_rx_cl_set_get(from, i, j)) {
                 aa_rx_cl_set_set(into, i, j, 1);
             }
-- 
2.43.0


From af155f809bb4214a286454f70eee9d98c43689f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 53/57] fix: filling a collision set keeps its entries

---
 src/rx/collision_set.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index a47525f..fe9c6eb 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,7 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    aa_rx_cl_set_merge( dst, src );
 }
 
 AA_API int
-- 
2.43.0


From cce7596f19b0e75d4a7ca3d28d552f652c357cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 54/57] fix: keep allowed collisions by name when frames are
 added, replaced or removed

---
 include/amino/rx/scenegraph_internal.h |  6 +-----
 src/rx/amino_fcl.cpp                   |  9 ---------
 src/rx/collision_set.cpp               |  6 +++---
 src/rx/sg_api.cpp                      | 25 +++++++++++++------------
 4 files changed, 17 insertions(+), 29 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..94ef05f 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,11 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
-
-    /** List of allowable collisions by indices */
-    std::vector<size_t> allowed_indices1;
-    std::vector<size_t> allowed_indices2;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     void (*destructor)(void *);
     void *destructor_context;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index b3bd7fa..ab7a3a3 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -225,15 +225,6 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
 
     aa_rx_sg_map_geom( scene_graph, &cl_init_helper, scene_graph );
 
-    amino::SceneGraph *sg = scene_graph->sg;
-    sg->allowed_indices1.clear();
-    sg->allowed_indices2.clear();
-
-    for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
-    }
-
     aa_rx_sg_clean_collision(scene_graph);
 }
 
diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index fe9c6eb..9b5dd83 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -115,10 +115,10 @@ aa_rx_cl_set_get( const struct aa_rx_cl_set *cl_set,
 
 AA_API void
 aa_rx_sg_cl_set_copy(const struct aa_rx_sg* sg, struct aa_rx_cl_set * set){
-    for (size_t i=0; i<sg->sg->allowed_indices1.size(); i++){
+    for (auto &pair : sg->sg->allowed){
         aa_rx_cl_set_set(set,
-                         (aa_rx_frame_id)sg->sg->allowed_indices1[i],
-                         (aa_rx_frame_id)sg->sg->allowed_indices2[i],
+                         aa_rx_sg_frame_id(sg, pair.first.c_str()),
+                         aa_rx_sg_frame_id(sg, pair.second.c_str()),
                          1);
     }
 }
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index a44efee..6034476 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -202,13 +202,21 @@ AA_API void aa_rx_sg_rm_frame
     amino::SceneGraph *sg = scene_graph->sg;
     sg->dirty_indices = 1;
 
+    /* forget the allowed collisions of the frame */
+    for( auto itr = sg->allowed.begin(); itr != sg->allowed.end(); ) {
+        if( itr->first == name || itr->second == name ) {
+            itr = sg->allowed.erase(itr);
+        } else {
+            itr++;
+        }
+    }
+
     auto itr = sg->frame_map.find(name);
     if( sg->frame_map.end() != itr ) {
         amino::SceneFrame *f = itr->second;
+        sg->frame_map.erase(itr);
         delete f;
     }
-
-    sg->frame_map.erase(name);
 }
 
 // AA_API void
@@ -807,7 +815,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
     // initialize sg
@@ -831,15 +839,8 @@ aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
                                const char* frame0, const char* frame1, const int allowed )
 {
     bool order = strcmp(frame0, frame1) <0;
-    const char *string0, *string1;
-    if (strcmp(frame0, frame1)<0){
-        string0 = scene_graph->sg->frame_map[frame0]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame1]->name.c_str();
-    } else {
-        string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
-    }
-    std::pair<const char*, const char*> p(string0, string1);
+    std::pair<std::string, std::string> p(order ? frame0 : frame1,
+                                          order ? frame1 : frame0);
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From 4343d960143653ca990a302f91b711e70611bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:43 +0000
Subject: [PATCH 55/57] fix: give back the elements of a motion plan sequence

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From b94a6a8a50a03af1fb2d0f92910c9708b59dd512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:55 +0000
Subject: [PATCH 56/57] fix: joints without limits are unlimited in
 aa_rx_ct_sg_limits

---
 src/rx/rx_ct.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..24e1199 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -292,24 +292,7 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
 AA_API struct aa_ct_limit *
 aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
 {
-    struct aa_ct_limit *lim = AA_MEM_REGION_NEW(region, struct aa_ct_limit);
-    size_t n_q = aa_rx_sg_config_count(sg);
-
-    lim->min = aa_ct_state_alloc(region, n_q, 0);
-    lim->max = aa_ct_state_alloc(region, n_q, 0);
-
-    for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
-    }
-
-    return lim;
+    return aa_rx_ct_limits(region, sg);
 }
 
 /* AA_API int */
-- 
2.43.0


From a5f9c63e6bdacc95a36c208362a00ed1c3a2d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:14 +0000
Subject: [PATCH 57/57] fix: free the copied seed of inverse kinematics
 parameters

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..571b7cd 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0

