/* Region operations that walk the chunk list or move data: the contract is
 * stated around the call (assume INV and the precondition, call the function of
 * src/mem.c, assert the postcondition); a ghost byte stands for every live byte. */
#include <stdlib.h>
/* every call of free() in the code under contract is recorded (and performed) */
#define NREC 4
extern void *g_rec[NREC]; extern int g_freed[NREC];
static inline void amv_free(void *p) {
    for (int i = 0; i < NREC; i++) if (p && p == g_rec[i]) g_freed[i]++;
    free(p);
}
#define free(p) amv_free(p)
#include "region.h"
#include <assert.h>
void *g_rec[NREC]; int g_freed[NREC];
#ifdef STUB_VSNPRINTF
/* assumed contract of vsnprintf: the text has g_len characters; at most n-1 of
 * them and a terminator are written; returns g_len.  Character g_i is tracked. */
#include <stdio.h>
size_t g_len, g_i; char g_ch;
int stub_vsnprintf(char *buf, size_t n) {
    if (n > 0) {
        __CPROVER_assert(__CPROVER_w_ok(buf, n), "vsnprintf destination is writable");
        if (g_len < n) { if (g_i < g_len) buf[g_i] = g_ch; buf[g_len] = 0; }
    }
    return (int)g_len;
}
#define vsnprintf(b, n, f, a) stub_vsnprintf(b, n)
#endif
#ifdef STUB_MEMCPY
/* contract of memcpy, seen at one tracked offset g_i: both ranges must be valid and disjoint */
#include <string.h>
size_t g_i;
static void *stub_memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memcpy ranges are valid");
    __CPROVER_assert(!__CPROVER_same_object(d, s) || (uint8_t*)d + n <= (uint8_t*)s || (uint8_t*)s + n <= (uint8_t*)d, "memcpy ranges are disjoint");
    if (g_i < n) ((uint8_t*)d)[g_i] = ((const uint8_t*)s)[g_i];
    return d;
}
#define memcpy(d, s, n) stub_memcpy(d, s, n)
#endif
#include "src/mem.c"
size_t g_cap, g_off;
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURES(c, s) __CPROVER_assert(c, s)
#ifndef NCH
#define NCH 3
#endif
#ifndef LIM
#define LIM MAXCAP
#endif
typedef struct aa_mem_region_node node_t;
static node_t *mknode(node_t *next) {
    size_t cap = nondet_size();
    ASSUME(cap >= AL && cap % AL == 0 && cap <= LIM);
    node_t *n = malloc(HDR + cap);
    n->end = n->d + cap; n->next = next;
    return n;
}
/* a region of k chunks, ch[0] on top; the head anywhere aligned in the top chunk */
static void mkregion(aa_mem_region_t *r, node_t **ch, size_t k) {
    node_t *p = NULL;
    for (size_t i = k; i-- > 0;) g_rec[i] = p = ch[i] = mknode(p);
    size_t off = nondet_size();
    ASSUME(off % AL == 0 && off <= CAP(p));
    r->node = p; r->head = p->d + off; r->reserved = 0; r->free_on_destroy = 0;
}
static size_t chain(node_t *p) { size_t n = 0; for (; p; p = p->next) n++; return n; }

#ifdef H_POP
/* pop to a mark in chunk m of k */
void h(void) {
    aa_mem_region_t r; node_t *ch[NCH];
    const size_t k = NCH; size_t m = POPM;
    mkregion(&r, ch, k);
    size_t off = nondet_size();
    uint8_t *lim = m == 0 ? r.head : ch[m]->end;
    ASSUME(off % AL == 0 && off <= (size_t)(lim - ch[m]->d));
    uint8_t *mark = ch[m]->d + off;
    /* ghost byte: any live byte older than the mark */
    size_t gc = nondet_size(), gi = nondet_size();
    ASSUME(gc >= m && gc < k && gi < (gc == m ? off : CAP(ch[gc])));
    uint8_t *gp = ch[gc]->d + gi, gv = *gp;
    aa_mem_region_pop(&r, mark);
    ENSURES(TOP_INV(&r), "pop keeps the top-chunk invariant");
    ENSURES(__CPROVER_r_ok(gp, 1) && *gp == gv, "older data stays allocated and unchanged");
    if (m == 0) ENSURES(r.node == ch[0] && r.head == mark, "pop in the top chunk resets the head");
    else {
        ENSURES(!__CPROVER_same_object(r.head, gp), "new space is disjoint from live data");
        ENSURES(r.head == D(r.node), "new top chunk is empty");
        if (off) ENSURES(r.node->next == ch[m] && chain(r.node) == k - m + 1, "live chunks stay in the chain, newer ones leave");
        else ENSURES(r.node->next == (m + 1 < k ? ch[m + 1] : NULL) && chain(r.node) == k - m, "live chunks stay in the chain, newer ones leave (mark at chunk start)");
        for (size_t i = 0; i < NCH; i++)
            ENSURES(g_freed[i] == (i < m || (i == m && !off)), "exactly the popped chunks are freed, once");
    }
}
#endif
#ifdef H_POPAGAIN
/* nested users save the same mark (nothing allocated in between): both pops must respect older data */
void h(void) {
    aa_mem_region_t r; node_t *ch[NCH];
    const size_t k = NCH; size_t m = POPM;
    mkregion(&r, ch, k);
    size_t off = nondet_size();
    ASSUME(off % AL == 0 && off <= (size_t)((m == 0 ? r.head : ch[m]->end) - ch[m]->d));
    ASSUME(START ? off == 0 : off > 0);
    uint8_t *mark = ch[m]->d + off;
    size_t gc = nondet_size(), gi = nondet_size();
    ASSUME(gc >= m && gc < k && gi < (gc == m ? off : CAP(ch[gc])));
    aa_mem_region_pop(&r, mark);
    aa_mem_region_pop(&r, mark);
    ENSURES(g_freed[gc] == 0, "popping to the same mark twice keeps older data");
}
#endif
#ifdef H_RELEASE
void h(void) {
    aa_mem_region_t r; node_t *ch[NCH];
    size_t tot = 0;
    mkregion(&r, ch, NCH);
    for (size_t i = 0; i < NCH; i++) tot += CAP(ch[i]);
    aa_mem_region_release(&r);
    ENSURES(TOP_INV(&r) && r.node->next == NULL && r.head == D(r.node), "release leaves one empty chunk");
    ENSURES(CAP(r.node) >= tot, "release keeps the total capacity");
    for (size_t i = 0; i < NCH; i++) ENSURES(g_freed[i] == (r.node != ch[i]), "chunks that leave the region are freed once");
}
#endif
#ifdef H_DESTROY
void h(void) {
    aa_mem_region_t *r = malloc(sizeof *r); node_t *ch[NCH];
    mkregion(r, ch, NCH); g_rec[NREC - 1] = r;
    r->free_on_destroy = nondet_int() & 1;
    int f = r->free_on_destroy;
    aa_mem_region_destroy(r);
    for (size_t i = 0; i < NCH; i++) ENSURES(g_freed[i] == 1, "every chunk is freed once");
    if (f) ENSURES(g_freed[NREC - 1] == 1, "created regions free themselves");
    else ENSURES(g_freed[NREC - 1] == 0 && r->node == NULL, "initialised regions stay with the caller");
}
#endif
#ifdef H_COUNT
void h(void) {
    aa_mem_region_t r; node_t *ch[NCH];
    mkregion(&r, ch, NCH);
    ENSURES(aa_mem_region_chunk_count(&r) == NCH, "chunk count");
}
#endif
/* the remaining operations touch only the top chunk: one chunk over an arbitrary rest */
#define TOP_ONLY aa_mem_region_t r; node_t *ch[1]; mkregion(&r, ch, 1); \
    uint8_t *h0 = r.head; node_t *n0 = r.node; \
    size_t gi = nondet_size(); ASSUME(gi < (size_t)(h0 - n0->d)); uint8_t *gp = n0->d + gi, gv = *gp;
#define LIVE ENSURES(__CPROVER_r_ok(gp, 1) && *gp == gv, "live data stays allocated and unchanged")
#ifdef H_ZALLOC
void h(void) {
    TOP_ONLY
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n <= LIM && i < n);
    uint8_t *p = aa_mem_region_zalloc(&r, n);
    LIVE; ENSURES(TOP_INV(&r) && PLACED(&r, p, n, n0, h0) && OFF(p) + n <= OFF(r.head), "placed");
    ENSURES(p[i] == 0, "zeroed");
}
#endif
#ifdef H_DUP
void h(void) {
    TOP_ONLY
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n <= LIM && i < n);
    uint8_t *src = malloc(n); uint8_t v = src[i];
    uint8_t *p = aa_mem_region_dup(&r, src, n);
    LIVE; ENSURES(TOP_INV(&r) && PLACED(&r, p, n, n0, h0) && OFF(p) + n <= OFF(r.head), "placed");
    ENSURES(p[i] == v && src[i] == v, "copied");
}
#endif
#ifdef H_STRDUP
void h(void) {
    TOP_ONLY
    size_t i = nondet_size();
    char *src = malloc(STRMAX); ASSUME(src[STRMAX - 1] == 0);
    size_t n = strlen(src); ASSUME(i <= n); char v = src[i];
    char *p = aa_mem_region_strdup(&r, src);
    LIVE; ENSURES(TOP_INV(&r) && PLACED(&r, p, n + 1, n0, h0) && OFF(p) + n + 1 <= OFF(r.head), "placed");
    ENSURES(p[i] == v, "copied with its terminator");
}
#endif
#ifdef H_TMPREALLOC
void h(void) {
    TOP_ONLY
    size_t n = nondet_size(), i = nondet_size(); ASSUME(n <= LIM && i < n && i < (size_t)(n0->end - h0));
#ifdef STUB_MEMCPY
    g_i = i;
#endif
    uint8_t v = h0[i];
    uint8_t *p = aa_mem_region_tmprealloc(&r, n);
    LIVE; ENSURES(TOP_INV(&r) && PLACED(&r, p, n, n0, h0) && p == r.head, "placed at the head");
    ENSURES(p[i] == v, "temporary data is kept");
}
#endif
#ifdef H_VPRINTF
void h(void) {
    TOP_ONLY
    g_len = nondet_size(); g_i = nondet_size(); g_ch = (char)nondet_u8();
    ASSUME(g_len < 0x7fffffff && g_i < g_len && g_ch != 0);
    va_list ap;
    char *p = aa_mem_region_vprintf(&r, "", ap);
    LIVE; ENSURES(TOP_INV(&r) && PLACED(&r, p, g_len + 1, n0, h0) && OFF(p) + g_len + 1 <= OFF(r.head), "placed");
    ENSURES(p[g_i] == g_ch && p[g_len] == 0, "text is complete and terminated");
}
#endif
