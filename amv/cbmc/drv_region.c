/* Native search for a concrete failing history of the region allocator: random
 * alloc / temporary alloc / mark / pop / release histories against a shadow model. */
#include "amino.h"
#include <stdarg.h>
#include <stddef.h>
#undef NDEBUG
#include "src/mem.c"
#include <stdio.h>
#define MAXB 400
static struct { uint8_t *p; size_t n; uint8_t v; } b[MAXB];
static int nb; static char hist[20000]; static size_t hl;
static unsigned long long st;
static unsigned rnd(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(st >> 33); }
static void H(const char *f, ...) { va_list a; va_start(a, f); if (hl < sizeof hist - 80) hl += (size_t)vsnprintf(hist + hl, 80, f, a); va_end(a); }
static void breach(const char *m) { printf("BREACH %s\n%s\n", m, hist); exit(1); }
static void chk(aa_mem_region_t *r) {
    if ((uintptr_t)r->head % 16) breach("head not aligned");
    if (r->head < r->node->d || r->head > r->node->end) breach("head outside the top chunk");
    if (aa_mem_region_freesize(r) != (size_t)(r->node->end - r->head)) breach("free size");
    if (aa_mem_region_ptr(r) != r->head) breach("region pointer");
    size_t c = 0; for (struct aa_mem_region_node *p = r->node; p; p = p->next) c++;
    if (c != aa_mem_region_chunk_count(r)) breach("chunk count");
    for (int i = 0; i < nb; i++)
        for (size_t j = 0; j < b[i].n; j += (b[i].n > 64 && j > 8 && j + 9 < b[i].n) ? 7 : 1)
            if (b[i].p[j] != b[i].v) breach("live data changed");
    for (int i = 0; i < nb; i++) if (b[i].n && r->head >= b[i].p && r->head < b[i].p + b[i].n) breach("head inside a live block");
}
static void add(uint8_t *p, size_t n, aa_mem_region_t *r) {
    if ((uintptr_t)p % 16) breach("block not aligned");
    for (int i = 0; i < nb; i++) if (p < b[i].p + b[i].n && b[i].p < p + n) breach("blocks overlap");
    int in = 0; for (struct aa_mem_region_node *q = r->node; q; q = q->next) in |= p >= q->d && p + n <= q->end;
    if (!in) breach("block outside every chunk");
    b[nb].p = p; b[nb].n = n; b[nb].v = (uint8_t)rnd(); memset(p, b[nb].v, n); nb++;
}
int main(int argc, char **argv) {
    st = strtoull(argc > 1 ? argv[1] : "1", 0, 0) * 7919 + 13;
    for (int round = 0; round < 4000; round++) {
        hl = 0; nb = 0;
        aa_mem_region_t R, *r = &R;
        size_t is = rnd() % 3 ? rnd() % 200 : 16 * (rnd() % 8);
        int cr = rnd() % 2;
        if (cr) r = aa_mem_region_create(is); else aa_mem_region_init(r, is);
        H("%s(%zu)\n", cr ? "create" : "init", is);
        if (aa_mem_region_freesize(r) < is) breach("initial free size");
        int steps = 1 + rnd() % 30;
        for (int s = 0; s < steps && nb < MAXB - 2; s++) {
            size_t f = aa_mem_region_freesize(r);
            size_t n = rnd() % 5 == 0 ? f : rnd() % 5 == 0 ? f + 1 + rnd() % 17 : rnd() % 9 == 0 ? rnd() % 3000 : rnd() % 70;
            switch (rnd() % 9) {
            case 0: case 1: case 2: H("alloc(%zu)\n", n); add(aa_mem_region_alloc(r, n), n, r); break;
            case 3: { H("zalloc(%zu)\n", n); uint8_t *p = aa_mem_region_zalloc(r, n); for (size_t j = 0; j < n; j++) if (p[j]) breach("zalloc not zero"); add(p, n, r); } break;
            case 4: { uint8_t *src = malloc(n + 1); for (size_t j = 0; j < n; j++) src[j] = (uint8_t)(1 + rnd() % 255); src[n] = 0; H("dup/strdup/printf(%zu)\n", n);
                int w = rnd() % 3;
                uint8_t *p = w == 0 ? aa_mem_region_dup(r, src, n + 1) : w == 1 ? (uint8_t*)aa_mem_region_strdup(r, (char*)src) : (uint8_t*)aa_mem_region_printf(r, "%s", (char*)src);
                if (memcmp(p, src, n + 1)) breach("copy differs"); free(src); add(p, n + 1, r); } break;
            case 5: { H("tmpalloc(%zu)\n", n); uint8_t *p = aa_mem_region_tmpalloc(r, n); if (p != r->head || p + n > r->node->end) breach("temporary block"); memset(p, 0x5a, n);
                if (rnd() % 2) { size_t m = n + rnd() % 100; H("tmprealloc(%zu)\n", m); uint8_t *q = aa_mem_region_tmprealloc(r, m); if (q != r->head || q + m > r->node->end) breach("temporary block");
                    for (size_t j = 0; j < n; j++) if (q[j] != 0x5a) breach("temporary data lost"); } } break;
            case 6: case 7: if (nb) { int k = rnd() % nb; H("pop(block %d)\n", k); void *p = b[k].p; nb = k; aa_mem_region_pop(r, p); } break;
            case 8: if (rnd() % 6 == 0) { H("release\n"); aa_mem_region_release(r); nb = 0; if (aa_mem_region_chunk_count(r) != 1) breach("release"); }
                else { H("mark, "); uint8_t *m = aa_mem_region_ptr(r); int k = nb; int c = 1 + rnd() % 4;
                    for (int j = 0; j < c; j++) { size_t q = rnd() % 300; H("alloc(%zu) ", q); add(aa_mem_region_alloc(r, q), q, r); } H("pop(mark)\n"); nb = k; aa_mem_region_pop(r, m); } break;
            }
            chk(r);
        }
        aa_mem_region_destroy(r);
    }
    return 0;
}
