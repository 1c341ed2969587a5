/* Native search for failing histories of pools, lists, vectors, swaps and heaps. */
#include "amino.h"
#include <stdarg.h>
#include <stddef.h>
#include "src/mem.c"
#include "src/heap.c"
#include <stdio.h>
static char hist[20000]; static size_t hl; static unsigned long long st;
static unsigned rnd(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(st >> 33); }
static void H(const char *f, ...) { va_list a; va_start(a, f); if (hl < sizeof hist - 80) hl += (size_t)vsnprintf(hist + hl, 80, f, a); va_end(a); }
static void breach(const char *m) { printf("BREACH %s\n%s\n", m, hist); exit(1); }
AA_VECTOR_DEF(long, lvec)
static void pools(void) {
    aa_mem_pool_t p; size_t sz = 1 + rnd() % 60, cnt = rnd() % 5; aa_mem_pool_init(&p, sz, cnt); hl = 0; H("pool_init(%zu,%zu)\n", sz, cnt);
    uint8_t *l[64], v[64]; int n = 0;
    for (int k = 0; k < 40; k++) {
        if ((rnd() % 3 || !n) && n < 60) { H("alloc\n"); uint8_t *b = aa_mem_pool_alloc(&p);
            for (int i = 0; i < n; i++) if (b < l[i] + sz && l[i] < b + sz) breach("live pool blocks overlap");
            v[n] = (uint8_t)rnd(); memset(b, v[n], sz); l[n++] = b; }
        else if (n && rnd() % 12 == 0) { H("release\n"); aa_mem_pool_release(&p); n = 0; }
        else if (n) { int j = rnd() % n; H("free(%d)\n", j); aa_mem_pool_free(&p, l[j]); n--; l[j] = l[n]; v[j] = v[n]; }
        for (int i = 0; i < n; i++) for (size_t j = 0; j < sz; j++) if (l[i][j] != v[i]) breach("pool block changed");
    }
    aa_mem_pool_destroy(&p);
}
static int ns; static void *seen[200];
static void rec(void *cx, void *e) { if (cx != &ns) breach("map context"); if (ns < 200) seen[ns] = e; ns++; }
static void lists(void) {
    aa_mem_region_t r; aa_mem_region_init(&r, 64); struct aa_mem_rlist *l = aa_mem_rlist_alloc(&r); hl = 0;
    static int val[100]; int m[200], a = 100, b = 100;
    for (int k = 0; k < 60; k++) { int x = (int)rnd() % 1000; val[k] = x; int *e;
        switch (rnd() % 6) {
        case 0: H("push_ptr\n"); aa_mem_rlist_push_ptr(l, &val[k]); m[--a] = x; break;
        case 1: H("push_cpy\n"); aa_mem_rlist_push_cpy(l, &x, sizeof x); m[--a] = x; break;
        case 2: H("enqueue_ptr\n"); aa_mem_rlist_enqueue_ptr(l, &val[k]); m[b++] = x; break;
        case 3: H("enqueue_cpy\n"); aa_mem_rlist_enqueue_cpy(l, &x, sizeof x); m[b++] = x; break;
        default: H("pop\n"); e = aa_mem_rlist_pop(l); if (a < b ? (!e || *e != m[a++]) : e != NULL) breach("list pop"); }
        ns = 0; aa_mem_rlist_map(l, rec, &ns); if (ns != b - a) breach("list length"); for (int i = 0; i < ns; i++) if (*(int*)seen[i] != m[a + i]) breach("list order");
        if (a < 5 || b > 195) break; }
    aa_mem_region_destroy(&r);
}
static size_t esz; static int cmpf(const void *a, const void *b) { return memcmp(a, b, esz); }
static int cmpq(const void *a, const void *b) { return memcmp(a, b, esz); }
int main(int argc, char **argv) {
    st = strtoull(argc > 1 ? argv[1] : "1", 0, 0) * 104729 + 7;
    for (int i = 0; i < 3000; i++) { pools(); lists(); }
    for (int i = 0; i < 20000; i++) {
        hl = 0; lvec v; size_t mx = rnd() % 5, n = rnd() % 40; lvec_init(&v, mx); H("vector max=%zu pushes=%zu\n", mx, n);
        for (size_t k = 0; k < n; k++) lvec_push(&v, (long)(k * 77 + mx)); if (v.size != n || v.max < n) breach("vector size");
        for (size_t k = 0; k < n; k++) if (v.data[k] != (long)(k * 77 + mx)) breach("vector element"); free(v.data);
        uint8_t A[64], B[64], a[64], b[64]; for (int j = 0; j < 64; j++) { A[j] = a[j] = (uint8_t)rnd(); B[j] = b[j] = (uint8_t)rnd(); }
        size_t s = rnd() % 60; hl = 0; H("memswap %zu bytes\n", s); aa_memswap(a, b, s); if (memcmp(a, B, s) || memcmp(b, A, s) || memcmp(a + s, A + s, 64 - s) || memcmp(b + s, B + s, 64 - s)) breach("memswap");
        uint8_t x[1200], y[1200]; size_t nm = rnd() % 24; esz = 1 + rnd() % 20; for (size_t j = 0; j < nm * esz; j++) x[j] = y[j] = (uint8_t)(rnd() % 4 ? rnd() : rnd() % 3);
        hl = 0; H("heapsort n=%zu size=%zu\n", nm, esz); aa_aheap_sort(x, nm, esz, cmpf); qsort(y, nm, esz, cmpq); if (memcmp(x, y, nm * esz)) breach("heapsort");
        size_t fn = rnd() % 100; aa_flexbuf_t *fb = aa_flexbuf_alloc(fn + 8); if (fb->n != fn + 8) breach("flexbuf"); memset(fb->d, 1, fn + 8); aa_flexbuf_free(fb);
        uint8_t *d = aa_mem_dup(A, 33); if (memcmp(d, A, 33) || d == A) breach("dup"); free(d);
        d = aa_malloc0(17); for (int j = 0; j < 17; j++) if (d[j]) breach("malloc0"); free(d);
    }
    return 0;
}
