/* exported entry points for static inline functions of the public headers:
 * each calls the header function with its own arguments and nothing else */
#include <math.h>
#include "amino.h"
#define D double
D amv_clamp(D a, D b) { return aa_clamp(a, b); }
D amv_fclamp(D a, D b, D c) { return aa_fclamp(a, b, c); }
D amv_fdeadzone(D a, D b, D c, D d) { return aa_fdeadzone(a, b, c, d); }
void amv_vclamp(size_t n, D *v, D a, D b) { aa_vclamp(n, v, a, b); }
D amv_sign(D a) { return aa_sign(a); }
int amv_feq(D a, D b, D t) { return aa_feq(a, b, t); }
D amv_fsq(D a) { return aa_fsq(a); }
D amv_fmodulo(D a, D b) { return aa_fmodulo(a, b); }
D amv_fremainder(D a, D b) { return aa_fremainder(a, b); }
D amv_horner3(D x, D a, D b, D c) { return aa_horner3(x, a, b, c); }
void amv_sincos(D x, D *s, D *c) { aa_sincos(x, s, c); }
D amv_z2x(D z, D m, D s) { return aa_stat_z2x(z, m, s); }
D amv_x2z(D x, D m, D s) { return aa_stat_x2z(x, m, s); }
D amv_rad2deg(D a) { return aa_ang_rad2deg(a); }
D amv_deg2rad(D a) { return aa_ang_deg2rad(a); }
D amv_norm_2pi(D a) { return aa_ang_norm_2pi(a); }
D amv_norm_pi(D a) { return aa_ang_norm_pi(a); }
D amv_ang_delta(D a, D b) { return aa_ang_delta(a, b); }
unsigned long amv_d_minloc(unsigned long n, D *x, unsigned long inc) { return aa_la_d_minloc(n, x, inc); }
unsigned long amv_d_maxloc(unsigned long n, D *x, unsigned long inc) { return aa_la_d_maxloc(n, x, inc); }
