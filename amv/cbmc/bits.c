/* Bit sets, byte order, time, integer modulo: contracts stated around the call of the header's functions. */
#include "amino.h"
#include <endian.h>
#include "amino/endconv.h"
#include "amino/time.h"
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURES(c, s) __CPROVER_assert(c, s)
#define REACH __CPROVER_assert(0, "vacuity probe")
size_t nondet_size(void); int nondet_int(void); long nondet_long(void); int64_t nondet_i64(void); uint64_t nondet_u64(void); double nondet_d(void); float nondet_f(void);
#define BIT(b, i) (((unsigned)(b)[(i) / 32] >> ((i) % 32)) & 1u)
#define MAXW ((size_t)1 << 30)

#ifdef H_WORDS
void h(void) {
    size_t n = nondet_size(); ASSUME(n <= ((size_t)1 << 60));
    size_t w = aa_bits_words(n);
    ENSURES(32 * w >= n && (w == 0 || 32 * (w - 1) < n), "the fewest words that hold n bits");
    ENSURES(aa_bits_size(n) == 4 * w, "size in bytes");
    REACH;
}
#endif
#ifdef H_GETSET
void h(void) {
    size_t w = nondet_size(); ASSUME(w >= 1 && w <= MAXW);
    aa_bits *b = malloc(w * sizeof(aa_bits));
    size_t i = nondet_size(), j = nondet_size(); ASSUME(i < 32 * w && j < 32 * w);
    unsigned oj = BIT(b, j); int val = nondet_int();
    ENSURES(aa_bits_get(b, j) == (int)oj, "get returns the addressed bit");
    aa_bits_set(b, i, val);
    ENSURES(BIT(b, j) == (i == j ? (val != 0) : oj), "set changes exactly the addressed bit");
    ENSURES(aa_bits_get(b, i) == (val != 0), "get returns what set stored");
    size_t n = nondet_size(), k = nondet_size(); ASSUME(n <= 4 * w && k < ((size_t)1 << 40));
    int g = aa_bits_getn(b, n, k);
    ENSURES(g == (k / 32 * 4 + 4 <= n ? (int)BIT(b, k) : 0), "bits beyond the set read as zero");
    REACH;
}
#endif
#ifdef H_OPS
void h(void) {
    aa_bits a[NW + 1], b[NW + 1], a0[NW + 1], b0[NW + 1];
    for (int i = 0; i <= NW; i++) { a0[i] = a[i]; b0[i] = b[i]; }
    size_t n = nondet_size(); ASSUME(n <= 32 * NW);
    OP(a, b, n);
    size_t i = nondet_size(); ASSUME(i < 32 * (NW + 1));
    unsigned x = BIT(a0, i), y = BIT(b0, i);
    if (i < n) ENSURES(BIT(a, i) == (x CC y), "each bit of the set is combined");
    if (i / 32 >= aa_bits_words(n)) ENSURES(BIT(a, i) == x, "words beyond the set are untouched");
    ENSURES(BIT(b, i) == y, "the second operand is untouched");
    REACH;
}
#endif
#ifdef H_END
#define T(type, sfx, nb) { \
    type v = (type)nondet_u64(), w = v; uint8_t m[nb + 1], m1[nb + 1]; m[nb] = m1[nb] = 0x5a; \
    aa_endconv_st_le_##sfx(m, v); aa_endconv_st_be_##sfx(m1, v); \
    for (int i = 0; i < nb; i++) { ENSURES(m[i] == (uint8_t)((uint64_t)v >> (8 * i)), "little-endian byte order " #sfx); \
        ENSURES(m1[i] == (uint8_t)((uint64_t)v >> (8 * (nb - 1 - i))), "big-endian byte order " #sfx); } \
    ENSURES(m[nb] == 0x5a && m1[nb] == 0x5a, "stores stay in range " #sfx); \
    ENSURES(aa_endconv_ld_le_##sfx(m) == v && aa_endconv_ld_be_##sfx(m1) == v, "loads invert stores " #sfx); \
    ENSURES(aa_endconv_le_to_h_##sfx(aa_endconv_h_to_le_##sfx(v)) == v && aa_endconv_be_to_h_##sfx(aa_endconv_h_to_be_##sfx(v)) == v, "value conversions round-trip " #sfx); \
    w = aa_endconv_h_to_be_##sfx(v); ENSURES(((uint8_t*)&w)[0] == (uint8_t)((uint64_t)v >> (8 * (nb - 1))) && ((uint8_t*)&w)[nb - 1] == (uint8_t)v, "host to big endian " #sfx); \
    w = aa_endconv_h_to_le_##sfx(v); ENSURES(((uint8_t*)&w)[0] == (uint8_t)v, "host to little endian " #sfx); }
void h(void) { TYPES REACH; }
#endif
#ifdef H_ENDF
void h(void) {
    union { double d; uint64_t u; uint8_t b[8]; } v, x, y; union { float s; uint32_t u; uint8_t b[4]; } f, g, k; uint8_t m[9]; m[8] = 0x5a;
    v.u = nondet_u64(); f.u = (uint32_t)nondet_u64(); ASSUME(v.d == v.d && f.s == f.s);
    aa_endconv_st_le_d(m, v.d); for (int i = 0; i < 8; i++) ENSURES(m[i] == v.b[i], "little-endian double");
    x.d = aa_endconv_ld_le_d(m); ENSURES(x.u == v.u, "load inverts store (le double)");
    aa_endconv_st_be_d(m, v.d); for (int i = 0; i < 8; i++) ENSURES(m[i] == v.b[7 - i], "big-endian double");
    x.d = aa_endconv_ld_be_d(m); ENSURES(x.u == v.u, "load inverts store (be double)");
    aa_endconv_st_le_s(m, f.s); for (int i = 0; i < 4; i++) ENSURES(m[i] == f.b[i], "little-endian float");
    g.s = aa_endconv_ld_le_s(m); ENSURES(g.u == f.u, "load inverts store (le float)");
    aa_endconv_st_be_s(m, f.s); for (int i = 0; i < 4; i++) ENSURES(m[i] == f.b[3 - i], "big-endian float");
    g.s = aa_endconv_ld_be_s(m); ENSURES(g.u == f.u, "load inverts store (be float)");
    ENSURES(m[8] == 0x5a, "in range");
    REACH;
}
#endif
#ifdef H_MOD
void h(void) {
    MT a = (MT)nondet_i64(), b = (MT)nondet_i64(); ASSUME(b != 0 && b != -1);
    MT q = a % b;
    /* what ISO C says about % (6.5.5) */
    ASSUME(b > 0 ? (q < b && q > -b) : (q > b && -(__int128)q > b)); ASSUME(a >= 0 ? q >= 0 : q <= 0);
    MT r = MF(a, b);
    ENSURES(b > 0 ? (r >= 0 && r < b) : (r <= 0 && r > b), "modulo has the sign of the divisor and is smaller");
    ENSURES(r == q || (q > 0) == (b < 0) && (q != 0) && (__int128)r == (__int128)q + b, "modulo differs from the remainder by zero or one divisor");
    REACH;
}
#endif
#ifdef H_REM
void h(void) {
    int a = nondet_int(), b = nondet_int(); ASSUME(b != 0 && b != -1);
    int r = aa_iremainder(a, b);
    ENSURES(r == a % b, "remainder truncates towards zero");
    REACH;
}
#endif
#define BIL 1000000000L
#ifdef H_TM_NORM
void h(void) {
    long s = nondet_long(), n = nondet_long();
    ASSUME(s >= -(1L << 60) && s <= (1L << 60) && n >= NLO && n <= NHI);
    struct timespec t = aa_tm_make_norm(s, n);
    ENSURES(t.tv_nsec >= 0 && t.tv_nsec < BIL, "normalised nanoseconds");
    ENSURES((t.tv_sec - s) * BIL + t.tv_nsec == n, "same instant");
    REACH;
}
#endif
#ifdef H_TM_ADDSUB
void h(void) {
    struct timespec a, b; a.tv_sec = nondet_long(); b.tv_sec = nondet_long(); a.tv_nsec = nondet_long(); b.tv_nsec = nondet_long();
    ASSUME(a.tv_nsec >= 0 && a.tv_nsec < BIL && b.tv_nsec >= 0 && b.tv_nsec < BIL && a.tv_sec > -(1L << 60) && a.tv_sec < (1L << 60) && b.tv_sec > -(1L << 60) && b.tv_sec < (1L << 60));
    struct timespec t = aa_tm_add(a, b);
    long n = a.tv_nsec + b.tv_nsec, s = a.tv_sec + b.tv_sec;
    ENSURES(n < BIL ? (t.tv_sec == s && t.tv_nsec == n) : (t.tv_sec == s + 1 && t.tv_nsec == n - BIL), "sum with carry");
    t = aa_tm_sub(a, b); n = a.tv_nsec - b.tv_nsec; s = a.tv_sec - b.tv_sec;
    ENSURES(n >= 0 ? (t.tv_sec == s && t.tv_nsec == n) : (t.tv_sec == s - 1 && t.tv_nsec == n + BIL), "difference with borrow");
    REACH;
}
#endif
#ifdef H_TM_CMP
void h(void) {
    struct timespec a, b; a.tv_sec = nondet_long(); b.tv_sec = nondet_long(); a.tv_nsec = nondet_long(); b.tv_nsec = nondet_long();
    ASSUME(a.tv_nsec >= 0 && a.tv_nsec < BIL && b.tv_nsec >= 0 && b.tv_nsec < BIL && a.tv_sec > -(1L << 60) && a.tv_sec < (1L << 60) && b.tv_sec > -(1L << 60) && b.tv_sec < (1L << 60));
    int lt = a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec), eq = a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec;
    long c = aa_tm_cmp(a, b);
    ENSURES((c < 0) == lt && (c == 0) == eq, "comparison is chronological");
    struct timespec t = aa_tm_min(a, b), e = lt ? a : b; ENSURES(t.tv_sec == e.tv_sec && t.tv_nsec == e.tv_nsec, "earlier");
    t = aa_tm_max(a, b); e = lt ? b : a; ENSURES(t.tv_sec == e.tv_sec && t.tv_nsec == e.tv_nsec, "later");
    t = aa_tm_make(a.tv_sec, a.tv_nsec); ENSURES(t.tv_sec == a.tv_sec && t.tv_nsec == a.tv_nsec, "make");
    REACH;
}
#endif
#ifdef H_TM_USEC
void h(void) {
    struct timespec a; a.tv_sec = nondet_long(); a.tv_nsec = nondet_long();
    ASSUME(a.tv_nsec >= 0 && a.tv_nsec < BIL && a.tv_sec > -(1L << 40) && a.tv_sec < (1L << 40));
    ENSURES(aa_tm_timespec2usec(a) == a.tv_sec * (BIL / 1000) + a.tv_nsec / 1000, "whole units");
    REACH;
}
#endif
#ifdef H_TM_MSEC
void h(void) {
    struct timespec a; a.tv_sec = nondet_long(); a.tv_nsec = nondet_long();
    ASSUME(a.tv_nsec >= 0 && a.tv_nsec < BIL && a.tv_sec > -(1L << 40) && a.tv_sec < (1L << 40));
    ENSURES(aa_tm_timespec2msec(a) == a.tv_sec * (BIL / 1000000) + a.tv_nsec / 1000000, "whole units");
    REACH;
}
#endif
