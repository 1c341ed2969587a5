"""Quaternions and rotations: algebra, action, conversions."""
from ..spec import fun, item
from ..ops import *
from .. import ops
from fractions import Fraction

Q, RA, RC = "Q01", "R01", "R02"

# ------------------------------------------------------------------ algebra
fun("aa_tf_qdot", "v4 v4", dot, Q, ret="d")
fun("aa_tf_vdot", "v3 v3", dot, Q, ret="d")
fun("aa_tf_qnorm", "v4", norm, Q, ret="d")
fun("aa_tf_vnorm", "v3", norm, Q, ret="d")
fun("aa_tf_qvnorm", "v4", lambda q: norm(q[:3]), Q, ret="d")
fun("aa_tf_vssd", "v3 v3", lambda a, b: norm(sub(a, b)), Q, ret="d")
fun("aa_tf_qssd", "v4 v4", lambda a, b: norm(sub(a, b)), Q, ret="d")
fun("aa_tf_qscal", "io4 s", lambda q, a: scale(a, q), Q)
fun("aa_tf_qadd", "v4 v4 o4", add, Q)
fun("aa_tf_qsub", "v4 v4 o4", sub, Q)
fun("aa_tf_qiadd", "io4 v4", add, Q)
fun("aa_tf_qisub", "io4 v4", sub, Q)
fun("aa_tf_qmul", "v4 v4 o4", qmul, Q)
fun("aa_tf_qmul_a", "v4 v4 io4", lambda a, b, c: add(c, qmul(a, b)), Q)
fun("aa_tf_qconj", "v4 o4", qconj, Q)
fun("aa_tf_qconj1", "io4", qconj, Q)
fun("aa_tf_qcmul", "v4 v4 o4", lambda a, b: qmul(qconj(a), b), Q)
fun("aa_tf_qmulc", "v4 v4 o4", lambda a, b: qmul(a, qconj(b)), Q)
fun("aa_tf_qmulc_v", "v4 v4 o3", lambda a, b: qmul(a, qconj(b))[:3], Q)
fun("aa_tf_qmul_vq", "v3 v4 o4", lambda v, q: qmul(pure(v), q), Q)
fun("aa_tf_qmul_qv", "v4 v3 o4", lambda q, v: qmul(q, pure(v)), Q)
fun("aa_tf_qmul_qv_v", "v4 v3 o3", lambda q, v: qmul(q, pure(v))[:3], Q)


def normalized(q):
    n = norm(q)
    return [x / n for x in q]


fun("aa_tf_qinv", "z4 o4", qinv, Q)
fun("aa_tf_qrel", "v4 z4 o4", lambda a, b: qmul(a, qinv(b)), Q)
fun("aa_tf_qnormalize2", "z4 o4", normalized, Q)
fun("aa_tf_normalize2", "z4 o4", normalized, Q)


@item("aa_tf_qnormalize", Q, "aa_tf_qnormalize")
def _(c):
    q = c.vec("q", 4); c.req(dot(q, q), ">")
    b = c.inout(q)
    c.call("aa_tf_qnormalize", b)
    r = b.get()
    c.eq("unit length", dot(r, r), 1)
    c.eq("direction", scale(norm(q), r), q)


def draws(c, n, off=None):
    """n values of the generator, each in [0,1]; not all one half (off)"""
    t = [c.scalar("t%d" % i, nonneg=True) for i in range(n)]
    t = [x / (x + c.scalar("t%dc" % i, pos=True)) for i, x in enumerate(t)]
    if off:
        c.req(sum_([(x - half(1)) * (x - half(1)) for x in map(c.lift, t[:off])]), ">")
    k = iter(t)
    c.abstract("aa_frand", lambda: next(k))
    return t


for _f, _n, _o in (("aa_tf_qurand", 4, "aa_tf_qurand aa_vrand"), ("aa_tf_qutr_rand", 7, "aa_tf_qutr_rand aa_vrand")):
    @item(_f, Q, _o, note="whatever the generator draws, except exactly one half each time")
    def _(c, _f=_f, _n=_n):
        draws(c, _n, 4)
        o = c.out(_n)
        c.call(_f, o)
        r = o.get()
        c.eq("unit length", dot(r[:4], r[:4]), 1)
        if c.symbolic:
            c.true("every entry is set", len(r) == _n)


@item("aa_tf_vnormalize", Q, "aa_tf_vnormalize")
def _(c):
    q = c.vec("v", 3); c.req(dot(q, q), ">")
    b = c.inout(q)
    c.call("aa_tf_vnormalize", b)
    r = b.get()
    c.eq("unit length", dot(r, r), 1)
    c.eq("direction", scale(norm(q), r), q)


@item("aa_tf_qmulnorm", Q, "aa_tf_qmulnorm")
def _(c):
    a, b = c.vec("a", 4), c.vec("b", 4)
    c.req(dot(a, a), ">"); c.req(dot(b, b), ">")
    p = qmul(a, b)
    c.req(dot(p, p), ">")        # implied: |ab| = |a||b|
    o = c.out(4)
    c.call("aa_tf_qmulnorm", c.inp(a), c.inp(b), o)
    r = o.get()
    c.eq("direction", scale(norm(p), r), p)


for _n in ("aa_tf_qminimize", "aa_tf_qminimize2"):
    @item(_n, Q, _n)
    def _(c, _n=_n):
        q = c.vec("q", 4)
        if _n.endswith("2"):
            b = c.out(4); c.call(_n, c.inp(q), b)
        else:
            b = c.inout(q); c.call(_n, b)
        r = b.get()
        c.anyof("equal up to sign", [(r, q), (r, scale(-1, q))])
        c.cmp("nonnegative scalar part", r[3], ">=")


for _n, _l in (("aa_tf_qmatrix_l", True), ("aa_tf_qmatrix_r", False)):
    @item(_n, Q, [_n])
    def _(c, _n=_n, _l=_l):
        for ld in (4, 6):
            q, p = c.vec("q", 4), c.vec("p", 4)
            M = c.out(3 * ld + 4)
            c.call(_n, c.inp(q), M, ld)
            m = [M.get(j * ld + i, 1)[0] for j in range(4) for i in range(4)]
            c.eq("matrix form, ld=%d" % ld, mv(m, p, 4, 4), qmul(q, p) if _l else qmul(p, q))

    _m = _n.replace("qmatrix", "qmat")

    @item(_m, Q, [_m])
    def _(c, _n=_m, _l=_l):
        q, p = c.vec("q", 4), c.vec("p", 4)
        M = c.out(16)
        c.call(_n, c.inp(q), c.dmat(4, 4, M, 4, ro=True))
        c.eq("matrix form", mv(M.get(), p, 4, 4), qmul(q, p) if _l else qmul(p, q))


# ------------------------------------------------------------------ vectors
fun("aa_tf_proj", "v3 z3 o3", lambda a, b: scale(dot(a, b) / dot(b, b), b), Q)
fun("aa_tf_proj_orth", "v3 z3 o3", lambda a, b: sub(a, scale(dot(a, b) / dot(b, b), b)), Q)
fun("aa_tf_skew_sym", "v3 o9", skew, Q)
fun("aa_tf_skew_sym1", "s v3 o9", lambda a, u: skew(scale(a, u)), Q)
fun("aa_tf_unskewsym_scal", "s v9 o3", lambda k, R: [k * (R[5] - R[7]), k * (R[6] - R[2]), k * (R[1] - R[3])], Q)
fun("aa_tf_skewsym_scal2", "s s v3 o9",
    lambda a, b, u: add(add(eye(3), skew(scale(a, u))), scale(b, mmul(skew(u), skew(u)))), Q)


@item("aa_tf_unskewsym", Q, "aa_tf_unskewsym")
def _(c):
    u = c.vec("u", 3)
    o = c.out(3)
    c.call("aa_tf_unskewsym", c.inp(skew(u)), o)
    c.eq("inverse of skew", o.get(), u)


for _n, _l in (("aa_tf_cross_matrix_l", True), ("aa_tf_cross_matrix_r", False)):
    @item(_n, Q, [_n])
    def _(c, _n=_n, _l=_l):
        for ld in (3, 5):
            a, b = c.vec("a", 3), c.vec("b", 3)
            M = c.out(2 * ld + 3)
            c.call(_n, c.inp(a), M, ld)
            m = [M.get(j * ld + i, 1)[0] for j in range(3) for i in range(3)]
            c.eq("cross product matrix, ld=%d" % ld, mv(m, b), cross(a, b) if _l else cross(b, a))

    _m = _n.replace("matrix", "mat")

    @item(_m, Q, [_m])
    def _(c, _n=_m, _l=_l):
        a, b = c.vec("a", 3), c.vec("b", 3)
        M = c.out(9)
        c.call(_n, c.inp(a), c.dmat(3, 3, M, 3, ro=True))
        c.eq("cross product matrix", mv(M.get(), b), cross(a, b) if _l else cross(b, a))

# ------------------------------------------------------------------ action
fun("aa_tf_qrot", "u4 v3 o3", qrot, RA)


@item("aa_tf_qrot1", RA, "aa_tf_qrot1")
def _(c):
    q, v = c.unit("q", 4), c.vec("v", 3)
    b = c.inout(v)
    c.call("aa_tf_qrot1", c.inp(q), b)
    c.eq("rotation", b.get(), qrot(q, v))


fun("aa_tf_rotmat_rot", "v9 v3 o3", mv, RA)
fun("aa_tf_9", "v9 v3 o3", mv, RA)
fun("aa_tf_9rot", "v9 v3 o3", mv, RA)
fun("aa_tf_rotmat_mul", "v9 v9 o9", mmul, RA)
fun("aa_tf_9mul", "v9 v9 o9", mmul, RA)
fun("aa_tf_9rel", "v9 v9 o9", lambda a, b: mmul(a, mT(b)), RA)
fun("aa_tf_rotmat_inv2", "v9 o9", mT, RA)
fun("aa_tf_rotmat_inv1", "io9", mT, RA)


@item("aa_tf_v9mul", RA, "aa_tf_v9mul", bounded="2 to 5 factors of the variadic product")
def _(c):
    Rs = [c.vec("R%d_" % i, 9) for i in range(5)]
    for n in (2, 3, 4, 5):
        o = c.out(9)
        c.call("aa_tf_v9mul", o, *([c.inp(r) for r in Rs[:n]] + [c.null()]))
        w = Rs[0]
        for r in Rs[1:n]:
            w = mmul(w, r)
        c.eq("product of %d" % n, o.get(), w)


@item("rotation-composition", RA, "aa_tf_qmul aa_tf_qrot aa_tf_qconj aa_tf_quat2rotmat aa_tf_rotmat_mul aa_tf_rotmat_rot")
def _(c):
    """the laws that tie the operations together, over the verified functions"""
    a, b, p = c.unit("a", 4), c.unit("b", 4), c.vec("p", 3)
    ab, x, y, z = c.out(4), c.out(3), c.out(3), c.out(3)
    c.call("aa_tf_qmul", c.inp(a), c.inp(b), ab)
    c.call("aa_tf_qrot", c.inp(b), c.inp(p), x)
    c.call("aa_tf_qrot", c.inp(a), c.inp(x.get()), y)
    c.call("aa_tf_qrot", c.inp(ab.get()), c.inp(p), z)
    c.eq("rotate by the product = rotate twice", z.get(), y.get())
    c.eq("products of unit quaternions are unit", dot(ab.get(), ab.get()), 1)
    ai, w = c.out(4), c.out(3)
    c.call("aa_tf_qconj", c.inp(a), ai)
    c.call("aa_tf_qrot", c.inp(ai.get()), c.inp(y.get()), w)
    c.eq("the conjugate undoes the rotation", w.get(), x.get())
    c.eq("length is preserved", dot(x.get(), x.get()), dot(p, p))
    Ra, Rb, R, v = c.out(9), c.out(9), c.out(9), c.out(3)
    c.call("aa_tf_quat2rotmat", c.inp(a), Ra)
    c.call("aa_tf_quat2rotmat", c.inp(b), Rb)
    c.call("aa_tf_rotmat_mul", c.inp(Ra.get()), c.inp(Rb.get()), R)
    c.call("aa_tf_rotmat_rot", c.inp(R.get()), c.inp(p), v)
    c.eq("matrix product agrees with quaternion product", v.get(), z.get())


@item("aa_tf_axang_rot", RA, "aa_tf_axang_rot")
def _(c):
    u, t, v = c.unit("u", 3), c.scalar("t"), c.vec("v", 3)
    o = c.out(3)
    c.call("aa_tf_axang_rot", c.inp(u + [t]), c.inp(v), o)
    q = [sin(t / 2) * x for x in u] + [cos(t / 2)]
    c.eq("rotation", o.get(), qrot(q, v))


# ------------------------------------------------------------------ conversions
def aaq(u, t): return [sin(t / 2) * x for x in u] + [cos(t / 2)]


def qqT(q): return [q[i] * q[j] for i in range(4) for j in range(i, 4)]


fun("aa_tf_quat2rotmat", "u4 o9", rotmat, RC)


@item("aa_tf_rotmat2quat", RC, "aa_tf_rotmat2quat")
def _(c):
    q = c.unit("q", 4)
    o = c.out(4)
    c.call("aa_tf_rotmat2quat", c.inp(rotmat(q)), o)
    p = o.get()
    c.eq("same rotation (q up to sign)", qqT(p), qqT(q))
    c.cmp("scalar part nonnegative", p[3], ">=")


for _a, _u in (("x", [1, 0, 0]), ("y", [0, 1, 0]), ("z", [0, 0, 1])):
    fun("aa_tf_%sangle2quat" % _a, "s o4", lambda t, _u=_u: [sin(t / 2) * x for x in _u] + [cos(t / 2)], RC)
    fun("aa_tf_%sangle2rotmat" % _a, "s o9", lambda t, _u=_u: rotmat([sin(t / 2) * x for x in _u] + [cos(t / 2)]), RC)
    fun("aa_tf_%sangle2axang" % _a, "s o4", lambda t, _u=_u: _u + [t], RC)


@item("aa_tf_axang2quat", RC, "aa_tf_axang2quat aa_tf_axang2quat2")
def _(c):
    u, t = c.unit("u", 3), c.scalar("t")
    o, o2 = c.out(4), c.out(4)
    c.call("aa_tf_axang2quat", c.inp(u + [t]), o)
    c.eq("quaternion", o.get(), aaq(u, t))
    c.call("aa_tf_axang2quat2", c.inp(u), t, o2)
    c.eq("quaternion (2)", o2.get(), aaq(u, t))


@item("aa_tf_axang2rotmat", RC, "aa_tf_axang2rotmat aa_tf_axang2rotmat2 aa_tf_rotmat_exp_aa")
def _(c):
    u, t = c.unit("u", 3), c.scalar("t")
    for n in ("aa_tf_axang2rotmat", "aa_tf_rotmat_exp_aa"):
        o = c.out(9)
        c.call(n, c.inp(u + [t]), o)
        c.eq(n, o.get(), rotmat(aaq(u, t)))
    o = c.out(9)
    c.call("aa_tf_axang2rotmat2", c.inp(u), t, o)
    c.eq("axang2rotmat2", o.get(), rotmat(aaq(u, t)))


fun("aa_tf_axang2rotvec", "v4 o3", lambda a: scale(a[3], a[:3]), RC)


def rv(c, tmax=None):
    """rotation vector as (unit direction, magnitude t >= 0)"""
    u = c.unit("u", 3)
    t = c.scalar("t", nonneg=True)
    return u, t, scale(t, u)


@item("aa_tf_rotvec2quat", RC, "aa_tf_rotvec2quat")
def _(c):
    u, t, r = rv(c)
    o = c.out(4)
    c.call("aa_tf_rotvec2quat", c.inp(r), o)
    c.eq("quaternion", o.get(), aaq(u, t), small="t")


@item("aa_tf_rotvec2rotmat", RC, "aa_tf_rotvec2rotmat aa_tf_rotmat_expv")
def _(c):
    u, t, r = rv(c)
    for n in ("aa_tf_rotvec2rotmat", "aa_tf_rotmat_expv"):
        o = c.out(9)
        c.call(n, c.inp(r), o)
        c.eq(n, o.get(), rotmat(aaq(u, t)), small="t")


@item("aa_tf_rotvec2axang", RC, "aa_tf_rotvec2axang", partial="quaternion of a tiny rotation: scalar part is near 1")
def _(c):
    u, t, r = rv(c)
    c.req(t, ">")
    o = c.out(4)
    c.call("aa_tf_rotvec2axang", c.inp(r), o)
    a = o.get()
    c.eq("rotation vector is recovered", scale(a[3], a[:3]), r, small="t")


def pol(c, name="q"):
    u, p = c.unit(name + "u", 3), c.angle(name + "p", 0, 1)
    return u, p, [sin(p) * x for x in u] + [cos(p)]


@item("aa_tf_quat2axang", RC, "aa_tf_quat2axang")
def _(c):
    u, p, q = pol(c)
    c.req(sin(p), ">")
    o = c.out(4)
    c.call("aa_tf_quat2axang", c.inp(q), o)
    c.eq("axis-angle", o.get(), u + [2 * p])


@item("aa_tf_quat2axang-identity", RC, "aa_tf_quat2axang")
def _(c):
    o = c.out(4)
    c.call("aa_tf_quat2axang", c.inp([0, 0, 0, 1]), o)
    c.eq("zero angle", o.get()[3], 0)


@item("aa_tf_quat2rotvec", RC, "aa_tf_quat2rotvec")
def _(c):
    u, p, q = pol(c)
    c.req(c.pi - p, ">")
    o = c.out(3)
    c.call("aa_tf_quat2rotvec", c.inp(q), o)
    c.eq("rotation vector", o.get(), scale(2 * p, u), small="qp")


@item("aa_tf_rotmat2rotvec", RC, "aa_tf_rotmat2rotvec aa_tf_rotmat_lnv")
def _(c):
    # rotation angle 2p in (0,pi)
    u, p = c.unit("u", 3), c.angle("p", 0, "1/2")
    c.req(c.pi / 2 - p, ">")
    c.req(p, ">")
    q = [sin(p) * x for x in u] + [cos(p)]
    for n in ("aa_tf_rotmat2rotvec", "aa_tf_rotmat_lnv"):
        o = c.out(3)
        c.call(n, c.inp(rotmat(q)), o)
        c.anyof(n + ": same rotation", same(c, o.get(), u, p), small="p")


@item("aa_tf_rotmat2axang", RC, "aa_tf_rotmat2axang", note="rotation angle at least 1e-3; smaller ones are covered by rotmat2rotvec and rotvec2axang separately")
def _(c):
    u, p = c.unit("u", 3), c.angle("p", 0, "1/2")
    c.req(c.pi / 2 - p, ">")
    c.req(p - Fraction(1, 2000), ">=")
    q = [sin(p) * x for x in u] + [cos(p)]
    o = c.out(4)
    c.call("aa_tf_rotmat2axang", c.inp(rotmat(q)), o)
    a = o.get()
    c.anyof("same rotation", same(c, scale(a[3], a[:3]), u, p), small="p")


def same(c, r, u, p):
    """r is the rotation vector 2p*u up to a full turn"""
    return [(r, scale(2 * p, u)), (r, scale(2 * p - 2 * c.pi, u))]


fun("aa_tf_axang_permute2", "v4 o4 o4", lambda a: (a[:3] + [a[3] + 2 * PI(a)], a[:3] + [a[3] - 2 * PI(a)]), RC)


@item("aa_tf_axang_permute", RC, "aa_tf_axang_permute")
def _(c):
    u, t = c.unit("u", 3), c.scalar("t")
    for k in (-3, -2, -1, 0, 1, 2, 3):
        o = c.out(4)
        c.call("aa_tf_axang_permute", c.inp(u + [t]), k, o)
        a = o.get()
        c.eq("k=%d" % k, a, u + [t + 2 * k * c.pi])
        c.eq("k=%d same rotation" % k, rotmat(aaq(a[:3], a[3])), rotmat(aaq(u, t)))


@item("aa_tf_rotmat_xy", RC, "aa_tf_rotmat_xy aa_tf_rotmat_yz aa_tf_rotmat_zx")
def _(c):
    q = c.unit("q", 4)
    R = rotmat(q)
    k, l = c.scalar("k", pos=True), c.scalar("l", pos=True)
    col = [R[0:3], R[3:6], R[6:9]]
    for n, i, j in (("xy", 0, 1), ("yz", 1, 2), ("zx", 2, 0)):
        o = c.out(9)
        c.call("aa_tf_rotmat_" + n, c.inp(scale(k, col[i])), c.inp(scale(l, col[j])), o)
        c.eq("frame from axes " + n, o.get(), R)
