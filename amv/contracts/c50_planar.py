"""Planar rotations and transforms (src/tf/tfp.c).  A complex number is passed
as two doubles and returned as the pair [re, im]."""
from ..spec import item, fun
from ..ops import *
from fractions import Fraction

P = "P01"


def cm(a, b): return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
def rmat(c): return [c[0], c[1], -c[1], c[0]]
def mv(R, v): return [R[0] * v[0] + R[2] * v[1], R[1] * v[0] + R[3] * v[1]]
def mm(A, B): return mv(A, B[:2]) + mv(A, B[2:])
def tfm(T, p): return add(T[4:], mv(T, p))


@item("aa_tf_crot", P, "aa_tf_crot", note="rotating a point by a planar rotation keeps its length and turns it by the angle")
def _(c):
    z, v = c.vec("z", 2), c.vec("v", 2)
    c.eq("z v", c.call("aa_tf_crot", *z, *v), cm(z, v))
    u = c.unit("u", 2)
    r = c.call("aa_tf_crot", *u, *v)
    c.eq("length", dot(r, r), dot(v, v))


@item("aa_tf_rotmatp_rot", P, "aa_tf_rotmatp_rot")
def _(c):
    R, v = c.vec("R", 4), c.vec("v", 2)
    c.eq("R v", c.call("aa_tf_rotmatp_rot", c.inp(R), *v), mv(R, v))


@item("aa_tf_cconj", P, "aa_tf_cconj")
def _(c):
    z = c.vec("z", 2)
    c.eq("conjugate", c.call("aa_tf_cconj", *z), [z[0], -z[1]])
    u, v = c.unit("u", 2), c.vec("v", 2)
    w = c.call("aa_tf_cconj", *u)
    c.eq("undoes the rotation", cm(w, cm(u, v)), v)


@item("aa_tf_cmul", P, "aa_tf_cmul")
def _(c):
    a, b, v = c.vec("a", 2), c.vec("b", 2), c.vec("v", 2)
    r = c.call("aa_tf_cmul", *a, *b)
    c.eq("product", r, cm(a, b))
    c.eq("acts as composition", cm(r, v), cm(a, cm(b, v)))


@item("aa_tf_rotmatp_mul", P, "aa_tf_rotmatp_mul")
def _(c):
    a, b, v = c.vec("a", 4), c.vec("b", 4), c.vec("v", 2)
    o = c.out(4)
    c.call("aa_tf_rotmatp_mul", c.inp(a), c.inp(b), o)
    c.eq("acts as composition", mv(o.get(), v), mv(a, mv(b, v)))


@item("aa_tf_rotmatp_inv2", P, "aa_tf_rotmatp_inv2")
def _(c):
    u, v = c.unit("u", 2), c.vec("v", 2)
    o = c.out(4)
    c.call("aa_tf_rotmatp_inv2", c.inp(rmat(u)), o)
    c.eq("undoes the rotation", mv(o.get(), mv(rmat(u), v)), v)
    R = c.vec("R", 4)
    o = c.out(4)
    c.call("aa_tf_rotmatp_inv2", c.inp(R), o)
    c.eq("transpose", o.get(), [R[0], R[2], R[1], R[3]])


for _n in ("aa_tf_cpexp", "aa_tf_angle2cmplx"):
    @item(_n, P, [_n])
    def _(c, n=_n):
        t = c.scalar("t")
        c.eq("(cos t, sin t)", c.call(n, t), [cos(t), sin(t)])


for _n in ("aa_tf_culn", "aa_tf_cmplx2angle"):
    @item(_n, P, [_n])
    def _(c, n=_n):
        t, k = c.angle("t", -1, 1), c.scalar("k", pos=True)
        c.req(t + c.pi, ">")
        c.req(c.pi - t, ">")
        c.eq("angle of any multiple", c.call(n, k * cos(t), k * sin(t), ret="d"), t)


for _n in ("aa_tf_rotmatp2angle", "aa_tf_rotmatp_uln"):
    @item(_n, P, [_n])
    def _(c, n=_n):
        t = c.angle("t", -1, 1)
        c.req(t + c.pi, ">")
        c.req(c.pi - t, ">")
        c.eq("angle", c.call(n, c.inp(rmat([cos(t), sin(t)])), ret="d"), t)


@item("aa_tf_cmplx2rotmatp", P, "aa_tf_cmplx2rotmatp")
def _(c):
    z, v = c.vec("z", 2), c.vec("v", 2)
    o = c.out(4)
    c.call("aa_tf_cmplx2rotmatp", *z, o)
    c.eq("same rotation", mv(o.get(), v), cm(z, v))


for _n in ("aa_tf_angle2rotmatp", "aa_tf_rotmatp_pexp"):
    @item(_n, P, [_n])
    def _(c, n=_n):
        t, v = c.scalar("t"), c.vec("v", 2)
        o = c.out(4)
        c.call(n, t, o)
        c.eq("same rotation", mv(o.get(), v), cm([cos(t), sin(t)], v))


@item("aa_tf_rotmatp2cmplx", P, "aa_tf_rotmatp2cmplx")
def _(c):
    u = c.vec("u", 2)
    c.eq("same rotation", c.call("aa_tf_rotmatp2cmplx", c.inp(rmat(u))), u)


@item("aa_tf_cv_tf", P, "aa_tf_cv_tf")
def _(c):
    z, v, p = c.vec("z", 2), c.vec("v", 2), c.vec("p", 2)
    c.eq("v + z p", c.call("aa_tf_cv_tf", *z, *v, *p), add(v, cm(z, p)))


@item("aa_tf_tfmatp_tf", P, "aa_tf_tfmatp_tf")
def _(c):
    T, p = c.vec("T", 6), c.vec("p", 2)
    c.eq("v + R p", c.call("aa_tf_tfmatp_tf", c.inp(T), *p), tfm(T, p))


@item("aa_tf_cv2tfmatp", P, "aa_tf_cv2tfmatp")
def _(c):
    z, v, p = c.vec("z", 2), c.vec("v", 2), c.vec("p", 2)
    o = c.out(6)
    c.call("aa_tf_cv2tfmatp", *z, *v, o)
    c.eq("same transform", tfm(o.get(), p), add(v, cm(z, p)))


@item("aa_tf_tfmatp2cv", P, "aa_tf_tfmatp2cv")
def _(c):
    z, v = c.vec("z", 2), c.vec("v", 2)
    a, b = c.out(2), c.out(2)
    c.call("aa_tf_tfmatp2cv", c.inp(rmat(z) + v), a, b)
    c.eq("rotation", a.get(), z)
    c.eq("translation", b.get(), v)


@item("aa_tf_cv_mul", P, "aa_tf_cv_mul")
def _(c):
    z, v, y, w, p = [c.vec(n, 2) for n in "zvywp"]
    a, b = c.out(2), c.out(2)
    c.call("aa_tf_cv_mul", *z, *v, *y, *w, a, b)
    c.eq("acts as composition", add(b.get(), cm(a.get(), p)), add(v, cm(z, add(w, cm(y, p)))))
    c.eq("rotation", a.get(), cm(z, y))


@item("aa_tf_tfmatp_mul", P, "aa_tf_tfmatp_mul")
def _(c):
    T, U, p = c.vec("T", 6), c.vec("U", 6), c.vec("p", 2)
    o = c.out(6)
    c.call("aa_tf_tfmatp_mul", c.inp(T), c.inp(U), o)
    c.eq("acts as composition", tfm(o.get(), p), tfm(T, tfm(U, p)))


@item("aa_tf_cv_inv", P, "aa_tf_cv_inv")
def _(c):
    z, v, p = c.unit("z", 2), c.vec("v", 2), c.vec("p", 2)
    a, b = c.out(2), c.out(2)
    c.call("aa_tf_cv_inv", *z, *v, a, b)
    c.eq("undoes the transform", add(b.get(), cm(a.get(), add(v, cm(z, p)))), p)


@item("aa_tf_tfmatp_inv2", P, "aa_tf_tfmatp_inv2")
def _(c):
    z, v, p = c.unit("z", 2), c.vec("v", 2), c.vec("p", 2)
    o = c.out(6)
    c.call("aa_tf_tfmatp_inv2", c.inp(rmat(z) + v), o)
    c.eq("undoes the transform", tfm(o.get(), tfm(rmat(z) + v, p)), p)
