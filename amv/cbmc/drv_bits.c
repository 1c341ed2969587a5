/* Native search for failing inputs of bit sets, byte order, time and integer modulo. */
#include "amino.h"
#include <endian.h>
#include "amino/endconv.h"
#include "amino/time.h"
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
static unsigned long long st; static char ctx[300];
static uint64_t r64(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; uint64_t a = st >> 33; st = st * 6364136223846793005ull + 1442695040888963407ull; return (a << 33) ^ (st >> 31); }
static void breach(const char *m) { printf("BREACH %s: %s\n", m, ctx); exit(1); }
static void stuck(int s) { printf("BREACH does not terminate: %s\n", ctx); fflush(stdout); _exit(1); }
static int64_t edge(void) { int64_t v = (int64_t)r64(); switch (r64() % 6) { case 0: return v % 5; case 1: return (int64_t)(v >> (r64() % 63)); case 2: return INT64_MAX - (int64_t)(r64() % 4); case 3: return INT64_MIN + (int64_t)(r64() % 4); case 4: return v % 3000000000ll; default: return v; } }
#define BIT(b, i) ((((unsigned)(b)[(i) / 32]) >> ((i) % 32)) & 1u)
#define E(type, sfx, nb) { type v = (type)edge(), w; uint8_t m[9], m1[9]; m[nb] = m1[nb] = 0x5a; snprintf(ctx, 300, #sfx " value 0x%llx", (unsigned long long)v); \
    aa_endconv_st_le_##sfx(m, v); aa_endconv_st_be_##sfx(m1, v); for (int i = 0; i < nb; i++) if (m[i] != (uint8_t)((uint64_t)v >> (8 * i)) || m1[i] != (uint8_t)((uint64_t)v >> (8 * (nb - 1 - i)))) breach("byte order"); \
    if (m[nb] != 0x5a || m1[nb] != 0x5a) breach("store out of range"); if (aa_endconv_ld_le_##sfx(m) != v || aa_endconv_ld_be_##sfx(m1) != v) breach("load does not invert store"); \
    w = aa_endconv_h_to_be_##sfx(v); if (memcmp(&w, m1, nb)) breach("host to big endian"); if (aa_endconv_be_to_h_##sfx(w) != v) breach("big endian to host"); w = aa_endconv_h_to_le_##sfx(v); if (memcmp(&w, m, nb) || aa_endconv_le_to_h_##sfx(w) != v) breach("little endian"); }
#define M(t, f) { t a = (t)edge(), b = (t)edge(); if (b != 0 && b != -1) { snprintf(ctx, 300, #f "(%lld, %lld)", (long long)a, (long long)b); __int128 q = (__int128)a % b; if (q && (q < 0) != (b < 0)) q += b; if ((__int128)f(a, b) != q) breach("modulo"); } }
int main(int argc, char **argv) {
    st = strtoull(argc > 1 ? argv[1] : "1", 0, 0) * 15485863 + 5; signal(SIGALRM, stuck); signal(SIGSEGV, stuck);
    for (int it = 0; it < 100000; it++) {
        if (it % 1000 == 0) alarm(10);
        E(int16_t, i16, 2) E(uint16_t, u16, 2) E(int32_t, i32, 4) E(uint32_t, u32, 4) E(int64_t, i64, 8) E(uint64_t, u64, 8)
        { union { double d; uint8_t b[8]; } v, x; union { float f; uint8_t b[4]; } s, y; uint8_t m[8]; v.d = (double)edge() / 7; s.f = (float)v.d; snprintf(ctx, 300, "float %a", v.d);
          aa_endconv_st_le_d(m, v.d); x.d = aa_endconv_ld_le_d(m); if (memcmp(m, v.b, 8) || x.d != v.d) breach("le double"); aa_endconv_st_be_d(m, v.d); x.d = aa_endconv_ld_be_d(m); if (m[0] != v.b[7] || m[3] != v.b[4] || m[7] != v.b[0] || x.d != v.d) breach("be double");
          aa_endconv_st_le_s(m, s.f); y.f = aa_endconv_ld_le_s(m); if (memcmp(m, s.b, 4) || y.f != s.f) breach("le float"); aa_endconv_st_be_s(m, s.f); y.f = aa_endconv_ld_be_s(m); if (m[0] != s.b[3] || m[3] != s.b[0] || y.f != s.f) breach("be float"); }
        M(int, aa_imodulo) M(long, aa_lmodulo) M(int64_t, aa_imodulo64)
        { int a = (int)edge(), b = (int)edge(); if (b && b != -1 && aa_iremainder(a, b) != a % b) { snprintf(ctx, 300, "%d %d", a, b); breach("remainder"); } }
        aa_bits a[6], b[6], a0[6], b0[6]; for (int i = 0; i < 6; i++) { a0[i] = a[i] = (int)r64(); b0[i] = b[i] = (int)r64(); }
        size_t n = r64() % 161, i = r64() % 192, o = r64() % 3; int val = (int)(r64() % 5) - 1;
        snprintf(ctx, 300, "bits n=%zu i=%zu op=%zu val=%d", n, i, o, val);
        size_t w = aa_bits_words(n); if (w != (n + 31) / 32 || aa_bits_size(n) != 4 * w) breach("words");
        { size_t big = (size_t)r64() >> (4 + r64() % 50); if (aa_bits_words(big) != big / 32 + (big % 32 != 0)) breach("words of a large set"); }
        if (o == 0) aa_bits_and(a, b, n); else if (o == 1) aa_bits_or(a, b, n); else aa_bits_xor(a, b, n);
        for (size_t j = 0; j < 192; j++) { unsigned x = BIT(a0, j), y = BIT(b0, j), e = o == 0 ? (x & y) : o == 1 ? (x | y) : (x ^ y); if (j < n && BIT(a, j) != e) breach("bit operation"); if (j / 32 >= w && BIT(a, j) != x) breach("bits beyond the set changed"); if (BIT(b, j) != y) breach("operand changed"); }
        memcpy(a0, a, sizeof a); aa_bits_set(a, i, val); for (size_t j = 0; j < 192; j++) { if (BIT(a, j) != (j == i ? val != 0 : BIT(a0, j))) breach("set"); if (aa_bits_get(a, j) != (int)BIT(a, j)) breach("get"); }
        { size_t nn = r64() % 25; if (aa_bits_getn(a, nn, i) != (i / 32 * 4 + 4 <= nn ? (int)BIT(a, i) : 0)) breach("getn"); }
        long s0 = edge() >> 4, s1 = r64() % 2 ? s0 + (long)(r64() % 3) - 1 : edge() >> 4, n0 = (long)(r64() % 1000000000), n1 = r64() % 3 ? (long)(r64() % 1000000000) : n0;
        if (r64() % 5 == 0) n0 = 0; if (r64() % 5 == 0) n1 = 999999999; if (r64() % 5 == 0) n0 = 1000000000 - n1 == 1000000000 ? 0 : 1000000000 - n1;
        struct timespec t0 = { s0, n0 }, t1 = { s1, n1 }, t; snprintf(ctx, 300, "times %ld.%09ld %ld.%09ld", s0, n0, s1, n1);
        __int128 B = 1000000000, A0 = (__int128)s0 * B + n0, A1 = (__int128)s1 * B + n1;
        t = aa_tm_add(t0, t1); if ((__int128)t.tv_sec * B + t.tv_nsec != A0 + A1 || t.tv_nsec < 0 || t.tv_nsec >= B) breach("time sum");
        t = aa_tm_sub(t0, t1); if ((__int128)t.tv_sec * B + t.tv_nsec != A0 - A1 || t.tv_nsec < 0 || t.tv_nsec >= B) breach("time difference");
        long c = aa_tm_cmp(t0, t1); if ((c < 0) != (A0 < A1) || (c == 0) != (A0 == A1)) breach("time comparison");
        t = aa_tm_min(t0, t1); if ((__int128)t.tv_sec * B + t.tv_nsec != (A0 < A1 ? A0 : A1)) breach("time minimum"); t = aa_tm_max(t0, t1); if ((__int128)t.tv_sec * B + t.tv_nsec != (A0 > A1 ? A0 : A1)) breach("time maximum");
        long nn = edge() / 4; t = aa_tm_make_norm(s0, nn); if ((__int128)t.tv_sec * B + t.tv_nsec != (__int128)s0 * B + nn || t.tv_nsec < 0 || t.tv_nsec >= B) { snprintf(ctx, 300, "norm %ld %ld", s0, nn); breach("normalised time"); }
        struct timespec u = { s0 >> 20, n0 }; if (aa_tm_timespec2usec(u) != u.tv_sec * 1000000 + n0 / 1000 || aa_tm_timespec2msec(u) != u.tv_sec * 1000 + n0 / 1000000) breach("time units");
        { double x = (double)(edge() % 2000000000) + (double)(r64() % 4096) / 4096; t = aa_tm_sec2timespec(x); snprintf(ctx, 300, "seconds %.17g", x); if (fabs(((double)t.tv_sec - floor(x)) + (double)t.tv_nsec / 1e9 - (x - floor(x))) > 2e-9 || t.tv_nsec < 0 || t.tv_nsec >= B) breach("seconds to time"); struct timespec z = { (long)(edge() % 1000000), n0 }; if (fabs(aa_tm_timespec2sec(z) - ((double)z.tv_sec + n0 * 1e-9)) > 1e-9) breach("time to seconds"); }
    }
    return 0;
}
