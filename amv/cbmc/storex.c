/* Contracts stated around the call (assume / call / assert), with tracked ghost bytes. */
#include "region.h"
#include <assert.h>
#include <string.h>
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURES(c, s) __CPROVER_assert(c, s)
#define REACH __CPROVER_assert(0, "vacuity probe")
size_t g_cap, g_off, g_i;
#ifdef STUB_MEMCPY
static void *stub_memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memcpy ranges are valid");
    if (g_i < n) ((uint8_t*)d)[g_i] = ((const uint8_t*)s)[g_i];
    return d;
}
#define memcpy(d, s, n) stub_memcpy(d, s, n)
#endif
#include "src/mem.c"
typedef struct aa_mem_region_node node_t;
static void mkregion(aa_mem_region_t *r, size_t lim) {
    size_t cap = nondet_size(), off = nondet_size();
    ASSUME(cap >= AL && cap % AL == 0 && cap <= lim && off % AL == 0 && off <= cap);
    node_t *n = malloc(HDR + cap);
    n->end = n->d + cap; n->next = NULL;
    r->node = n; r->head = n->d + off; r->reserved = 0;
}
/* contract of aa_mem_region_alloc seen by its callers: a fresh block, disjoint from everything else (proved in region.alloc) */
void *stub_region_alloc(aa_mem_region_t *r, size_t n) { (void)r; return malloc(n); }
long nondet_long(void);
AA_VECTOR_DEF(long, lvec)

#ifdef H_DUP
void h(void) {
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n > 0 && n <= MAXREQ && i < n);
    uint8_t *src = malloc(n), v = src[i];
    uint8_t *p = aa_mem_dup(src, n);
    ENSURES(__CPROVER_OBJECT_SIZE(p) == n && !__CPROVER_same_object(p, src) && OFF(p) == 0, "fresh block of the right size");
    ENSURES(p[i] == v && src[i] == v, "copied");
    REACH;
}
#endif
#ifdef H_MALLOC0
void h(void) {
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n > 0 && n <= MAXREQ && i < n);
    uint8_t *p = aa_malloc0(n);
    ENSURES(__CPROVER_OBJECT_SIZE(p) == n && p[i] == 0, "zeroed block of the right size");
    REACH;
}
#endif
#ifdef H_CONS_CPY
void h(void) {
    aa_mem_region_t r; mkregion(&r, MAXCAP);
    node_t *n0 = r.node; uint8_t *h0 = r.head;
    size_t gi = nondet_size(); ASSUME(gi < (size_t)(h0 - n0->d)); uint8_t *gp = n0->d + gi, gv = *gp;
    size_t n = nondet_size(); ASSUME(n > 0 && n <= MAXREQ); g_i = nondet_size(); ASSUME(g_i < n);
    uint8_t *src = malloc(n), v = src[g_i]; struct aa_mem_cons *next = (void*)nondet_size();
    struct aa_mem_cons *c = aa_mem_cons_cpy(&r, src, n, next);
    ENSURES(TOP_INV(&r) && PLACED(&r, c, sizeof(*c) + n, n0, h0) && *gp == gv, "placed");
    ENSURES(c->next == next && __CPROVER_same_object(c->data, c) && OFF(c->data) >= OFF(c) + sizeof(*c) && OFF(c->data) + n <= OFF(r.head), "cell");
    ENSURES(((uint8_t*)c->data)[g_i] == v, "copied");
    REACH;
}
#endif
#ifdef H_VEC_PUSH
void h(void) {
    lvec v; v.max = nondet_size(); v.size = nondet_size(); ASSUME(v.size <= v.max && v.max <= LIM);
    v.data = malloc(v.max * sizeof(long));
    size_t i = nondet_size(), s0 = v.size; ASSUME(i < s0); long old = v.data[i], x = nondet_long();
    lvec_push(&v, x);
    ENSURES(v.size == s0 + 1 && v.size <= v.max && __CPROVER_OBJECT_SIZE(v.data) >= v.max * sizeof(long), "size");
    ENSURES(v.data[i] == old && v.data[s0] == x, "elements");
    REACH;
}
#endif
#ifdef H_VEC_EMPTY
void h(void) {
    lvec v; lvec_init(&v, nondet_int() ? 0 : 1);
    long x = nondet_long(), y = nondet_long(), z = nondet_long();
    lvec_push(&v, x); lvec_push(&v, y); lvec_push(&v, z);
    ENSURES(v.size == 3 && v.max >= 3 && v.data[0] == x && v.data[1] == y && v.data[2] == z, "three pushes");
    REACH;
}
#endif
#ifdef H_LIST
/* any history of NOPS list operations against a sequence model */
void h(void) {
    aa_mem_region_t r;
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(&r);
    void *q[NOPS]; size_t a = NOPS, b = NOPS; void *model[2 * NOPS];   /* model[a..b) */
    int buf[NOPS];
    for (int k = 0; k < NOPS; k++) {
        int op = nondet_int(); void *p = &buf[k];
        if (op == 0) { aa_mem_rlist_push_ptr(l, p); model[--a] = p; }
        else if (op == 1) { aa_mem_rlist_enqueue_ptr(l, p); model[b++] = p; }
        else { void *x = aa_mem_rlist_pop(l); void *y = a < b ? model[a++] : NULL; ENSURES(x == y, "pop returns the first element, or NULL when empty"); }
    }
    for (int k = 0; k < NOPS + 1; k++) { void *x = aa_mem_rlist_pop(l); void *y = a < b ? model[a++] : NULL; ENSURES(x == y, "the remaining elements come out in order"); }
    REACH;
}
#endif
#ifdef H_MAP
static void *seen[4]; static int ns; static void *cx0;
static void rec(void *cx, void *e) { ENSURES(cx == cx0, "context passed"); if (ns < 4) seen[ns] = e; ns++; }
void h(void) {
    aa_mem_region_t r;
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(&r);
    int b[3]; int n = nondet_int(); ASSUME(n >= 0 && n <= 3);
    for (int k = 0; k < n; k++) aa_mem_rlist_enqueue_ptr(l, &b[k]);
    cx0 = &ns;
    aa_mem_rlist_map(l, rec, cx0);
    ENSURES(ns == n, "each element visited once");
    for (int k = 0; k < n; k++) ENSURES(seen[k] == &b[k], "in order");
    REACH;
}
#endif
#ifdef H_LISTCPY
void h(void) {
    aa_mem_region_t r;
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(&r);
    int a = nondet_int(), b = nondet_int(); int a0 = a, b0 = b;
    aa_mem_rlist_push_cpy(l, &a, sizeof a); aa_mem_rlist_enqueue_cpy(l, &b, sizeof b);
    a = 0; b = 0;
    int *x = aa_mem_rlist_pop(l), *y = aa_mem_rlist_pop(l);
    ENSURES(x != &a && y != &b && *x == a0 && *y == b0 && aa_mem_rlist_pop(l) == NULL, "copies come out in order");
    REACH;
}
#endif
#ifdef H_POOL
/* any history of NOPS pool operations: live blocks stay distinct and keep their contents */
void h(void) {
    aa_mem_pool_t p; p.size = PSIZE; p.top = NULL;
    uint8_t *live[NOPS]; uint8_t val[NOPS]; int n = 0;
    for (int k = 0; k < NOPS; k++) {
        int op = nondet_int();
        if (op || !n) {
            uint8_t *b = aa_mem_pool_alloc(&p), v = nondet_u8();
                        for (int i = 0; i < n; i++) ENSURES(!__CPROVER_same_object(b, live[i]) || OFF(b) + PSIZE <= OFF(live[i]) || OFF(live[i]) + PSIZE <= OFF(b), "live blocks are disjoint");
            b[0] = v; b[PSIZE - 1] = v; live[n] = b; val[n] = v; n++;
        } else {
            int j = nondet_int(); ASSUME(j >= 0 && j < n);
            aa_mem_pool_free(&p, live[j]); n--; live[j] = live[n]; val[j] = val[n];
        }
        for (int i = 0; i < n; i++) ENSURES(live[i][0] == val[i] && live[i][PSIZE - 1] == val[i], "live blocks keep their contents");
    }
    REACH;
}
#endif
#ifdef H_POOL_RELEASE
void h(void) {
    aa_mem_pool_t p; mkregion(&p.region, 4096); p.size = 16;
    if (nondet_int()) { node_t *x = malloc(HDR + 64); x->end = x->d + 64; x->next = NULL; p.region.node->next = x; }
    p.top = (void*)p.region.head;
    aa_mem_pool_release(&p);
    ENSURES(p.top == NULL, "released blocks are not handed out from the free list");
    ENSURES(TOP_INV(&p.region) && p.region.node->next == NULL && p.region.head == D(p.region.node), "one empty chunk");
    REACH;
}
#endif
#ifdef H_MEMSWAP
void h(void) {
    uint8_t a[LIM], b[LIM], a0[LIM], b0[LIM];
    for (int i = 0; i < LIM; i++) { a0[i] = a[i]; b0[i] = b[i]; }
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n <= LIM && i < LIM);
    aa_memswap(a, b, n);
    ENSURES(a[i] == (i < n ? b0[i] : a0[i]) && b[i] == (i < n ? a0[i] : b0[i]), "exactly the first n bytes are exchanged");
    REACH;
}
#endif
#ifdef H_REF
#undef HAVE_STDATOMIC_H
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
#include "src/refcount.c"
void h(void) {
    unsigned c = (unsigned)nondet_int(), c0 = c;
    unsigned o = aa_mem_ref_inc_mutex(&c);
    ENSURES(o == c0 && c == c0 + 1, "increment returns the old count");
    o = aa_mem_ref_dec_mutex(&c);
    ENSURES(o == c0 + 1 && c == c0, "decrement returns the old count");
    REACH;
}
#endif
#ifdef H_SORT
#include "src/heap.c"
/* elements are SIZE bytes, ordered by their first byte */
static int cmp(const void *a, const void *b) { return (int)*(const uint8_t*)a - (int)*(const uint8_t*)b; }
void h(void) {
    size_t n = NMEMB;
    uint8_t buf[NMEMB * SIZE + 1], old[NMEMB * SIZE + 1];
    for (int i = 0; i < NMEMB * SIZE + 1; i++) old[i] = buf[i];
    aa_aheap_sort(buf, n, SIZE, cmp);
    for (size_t i = 0; i + 1 < n; i++) ENSURES(buf[i * SIZE] <= buf[(i + 1) * SIZE], "sorted");
    ENSURES(buf[NMEMB * SIZE] == old[NMEMB * SIZE], "nothing beyond the array is touched");
    /* an arbitrary record occurs as often after as before */
    uint8_t x[SIZE]; int c0 = 0, c1 = 0;
    for (size_t i = 0; i < n; i++) {
        int e0 = 1, e1 = 1;
        for (int j = 0; j < SIZE; j++) { if (old[i * SIZE + j] != x[j]) e0 = 0; if (buf[i * SIZE + j] != x[j]) e1 = 0; }
        c0 += e0; c1 += e1;
    }
    ENSURES(c0 == c1, "the same records, moved whole");
    REACH;
}
#endif
