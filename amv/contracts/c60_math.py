"""A01: angles, scalar helpers, statistics (include/amino/math.h, src/math.c)"""
from ..spec import item, fun
from ..ops import *
from ..ops import log as ln
from fractions import Fraction

P = "A01"


@item("aa_ang_norm_pi", P, "amv_norm_pi")
def _(c):
    a = c.scalar("a")
    r = c.call("amv_norm_pi", a, ret="d")
    c.whole("whole turns", r, a, 2 * c.pi)
    c.cmp("at least -pi", r + c.pi, ">=")
    c.cmp("at most pi", c.pi - r, ">=")


@item("aa_ang_norm_2pi", P, "amv_norm_2pi")
def _(c):
    a = c.scalar("a")
    r = c.call("amv_norm_2pi", a, ret="d")
    c.whole("whole turns", r, a, 2 * c.pi)
    c.cmp("at least 0", r, ">=")
    c.cmp("below a turn", 2 * c.pi - r, ">")


@item("aa_ang_delta", P, "amv_ang_delta")
def _(c):
    a, b = c.scalar("a"), c.scalar("b")
    r = c.call("amv_ang_delta", a, b, ret="d")
    c.whole("whole turns from a - b", r, a - b, 2 * c.pi)
    c.cmp("at least -pi", r + c.pi, ">=")
    c.cmp("at most pi", c.pi - r, ">=")


@item("aa_fmodulo", P, "amv_fmodulo")
def _(c):
    for s in (1, -1):
        a, b = c.scalar("a"), s * c.scalar("b", pos=True)
        r = c.call("amv_fmodulo", a, b, ret="d")
        c.whole("whole multiples", r, a, b)
        c.cmp("sign of the modulus", s * r, ">=")
        c.cmp("below the modulus", s * (b - r), ">")


@item("aa_fremainder", P, "amv_fremainder")
def _(c):
    a, b = c.scalar("a"), c.scalar("b", pos=True)
    r = c.call("amv_fremainder", a, b, ret="d")
    c.whole("whole multiples", r, a, b)
    c.cmp("below", b - r, ">")
    c.cmp("above", b + r, ">")
    c.cmp("sign of the dividend", r * a, ">=")


@item("aa_ang_rad2deg", P, "amv_rad2deg amv_deg2rad")
def _(c):
    a = c.scalar("a")
    c.eq("degrees", c.call("amv_rad2deg", a, ret="d"), a * 180 / c.pi)
    c.eq("radians", c.call("amv_deg2rad", a, ret="d"), a * c.pi / 180)


def clamp_goals(c, r, v, lo, hi):
    c.cmp("not below the minimum", r - lo, ">=")
    c.cmp("not above the maximum", hi - r, ">=")
    c.eq("nearest admissible value", (r - v) * (r - lo) * (r - hi), 0)
    c.cmp("moved up only from below", (r - v) * (lo - v), ">=" )
    c.cmp("moved down only from above", (r - v) * (hi - v), ">=")


@item("aa_fclamp", P, "amv_fclamp")
def _(c):
    v, lo, d = c.scalar("v"), c.scalar("lo"), c.scalar("d", nonneg=True)
    clamp_goals(c, c.call("amv_fclamp", v, lo, lo + d, ret="d"), v, lo, lo + d)


@item("aa_clamp", P, "amv_clamp")
def _(c):
    v, d = c.scalar("v"), c.scalar("d", nonneg=True)
    clamp_goals(c, c.call("amv_clamp", v, d, ret="d"), v, -d, d)


@item("aa_fdeadzone", P, "amv_fdeadzone", note="strictly inside the zone: the dead value; elsewhere unchanged")
def _(c):
    v, lo, d, z = c.scalar("v"), c.scalar("lo"), c.scalar("d", pos=True), c.scalar("z")
    k = c.scalar("k", pos=True)
    # v strictly inside: v = lo + d k/(1+k)
    c.eq("inside", c.call("amv_fdeadzone", lo + d * k / (1 + k), lo, lo + d, z, ret="d"), z)
    for s, x in ((1, lo + d), (-1, lo)):
        n = c.scalar("n", nonneg=True)
        c.eq("outside %+d" % s, c.call("amv_fdeadzone", x + s * n, lo, lo + d, z, ret="d"), x + s * n)


@item("aa_sign", P, "amv_sign")
def _(c):
    k = c.scalar("k", pos=True)
    c.eq("positive", c.call("amv_sign", k, ret="d"), 1)
    c.eq("negative", c.call("amv_sign", -k, ret="d"), -1)
    c.eq("zero", c.call("amv_sign", 0 * k, ret="d"), 0)


@item("aa_feq", P, "amv_feq")
def _(c):
    a, t, k = c.scalar("a"), c.scalar("t", nonneg=True), c.scalar("k", pos=True)
    for s in (1, -1):
        c.isint("beyond the tolerance %+d" % s, c.call("amv_feq", a, a + s * (t + k), t, ret="i"), 0)
        c.isint("within the tolerance %+d" % s, c.call("amv_feq", a, a + s * t / (1 + k), t, ret="i"), 1)
        c.isint("at the tolerance %+d" % s, c.call("amv_feq", 0, s * t, t, ret="i"), 1)


@item("scalar-formulas", P, "amv_fsq amv_horner3 amv_sincos amv_z2x amv_x2z aa_stat_box_muller")
def _(c):
    x, a, b, d = [c.scalar(n) for n in "xabd"]
    s = c.scalar("s", pos=True)
    c.eq("square", c.call("amv_fsq", x, ret="d"), x * x)
    c.eq("horner", c.call("amv_horner3", x, a, b, d, ret="d"), a + b * x + d * x * x)
    o, p = c.out(1), c.out(1)
    c.call("amv_sincos", x, o, p)
    c.eq("sincos", o.get() + p.get(), [sin(x), cos(x)])
    c.eq("z2x", c.call("amv_z2x", x, a, s, ret="d"), a + x * s)
    c.eq("x2z inverts z2x", c.call("amv_x2z", a + x * s, a, s, ret="d"), x)


@item("aa_stat_box_muller", P, "aa_stat_box_muller")
def _(c):
    k, t = c.scalar("k", pos=True), c.scalar("t")
    o, p = c.out(1), c.out(1)
    c.call("aa_stat_box_muller", exp(-k * k / 2), t / (2 * c.pi), o, p)
    c.eq("polar pair", o.get() + p.get(), [k * cos(t), k * sin(t)])


@item("aa_frand_minmax", "A01", "aa_frand_minmax", note="whatever the generator draws in [0,1]")
def _(c):
    lo = c.scalar("lo")
    w = c.scalar("w", nonneg=True)
    x, y = c.scalar("t", nonneg=True), c.scalar("tc", pos=True)
    t = x / (x + y)
    c.abstract("aa_frand", lambda: t)
    r = c.call("aa_frand_minmax", lo, lo + w)
    c.cmp("at least the minimum", r - lo)
    c.cmp("at most the maximum", lo + w - r)
    if c.symbolic:
        c.anyof("the whole range can be drawn", [([r], [lo + t * w]), ([r], [lo + w - t * w])])
