"""T01 rigid transforms: composition, inverse, action.  T02 conversions and
constructors.  T03 exponentials and logarithms."""
from fractions import Fraction
from ..spec import item, fun
from ..ops import *

TA, TC, TE = "T01", "T02", "T03"


# ------------------------------------------------------------- T01: tfmat
def tm_mul(A, B):
    return mmul(A[:9], B[:9]) + add(mv(A[:9], B[9:]), A[9:])


def tm_apply(A, p):
    return add(mv(A[:9], p), A[9:])


def tm_inv(A):
    Rt = mT(A[:9])
    return Rt + scale(-1, mv(Rt, A[9:]))


def tm(q, v): return rotmat(q) + list(v)


fun("aa_tf_tfmat_tf", "v12 v3 o3", tm_apply, TA)
fun("aa_tf_12", "v12 v3 o3", tm_apply, TA)
fun("aa_tf_tfmat2_tf", "v9 v3 v3 o3", lambda R, v, p: add(mv(R, p), v), TA)
fun("aa_tf_93", "v9 v3 v3 o3", lambda R, v, p: add(mv(R, p), v), TA)
fun("aa_tf_tfmat_mul", "v12 v12 o12", tm_mul, TA)
fun("aa_tf_12chain", "v12 v12 o12", tm_mul, TA)
fun("aa_tf_tfmat2_mul", "v9 v3 v9 v3 o9 o3", lambda A, a, B, b: (mmul(A, B), add(mv(A, b), a)), TA)
fun("aa_tf_93chain", "v9 v3 v9 v3 o9 o3", lambda A, a, B, b: (mmul(A, B), add(mv(A, b), a)), TA)
fun("aa_tf_tfmat_inv2", "v12 o12", tm_inv, TA)
fun("aa_tf_tfmat_inv1", "io12", tm_inv, TA)
fun("aa_tf_12inv", "v12 o12", tm_inv, TA)
fun("aa_tf_93inv", "v9 v3 o9 o3", lambda R, v: (mT(R), scale(-1, mv(mT(R), v))), TA)
fun("aa_tf_12rel", "v12 v12 o12", lambda A, B: tm_mul(tm_inv(A), B), TA)
fun("aa_tf_93rel", "v9 v3 v9 v3 o9 o3",
    lambda A, a, B, b: (mmul(mT(A), B), mv(mT(A), sub(b, a))), TA)


@item("aa_tf_v12chain", TA, "aa_tf_v12chain", bounded="2 to 5 factors of the variadic product")
def _(c):
    A = [c.vec("A%d_" % i, 12) for i in range(5)]
    for n in (2, 3, 4, 5):
        o = c.out(12)
        c.call("aa_tf_v12chain", o, *([c.inp(A[i]) for i in range(n)] + [c.null()]))
        w = A[0]
        for i in range(1, n):
            w = tm_mul(w, A[i])
        c.eq("chain of %d" % n, o.get(), w)


# ------------------------------------------------------------- T01: quaternion-translation
def qv_(E): return E[:4], E[4:]
def qt_mul(A, B):
    q, v = tf_mul(qv_(A), qv_(B))
    return q + v
def qt_inv(A):
    q, v = tf_inv(qv_(A))
    return q + v


class Q:
    """unit-quaternion inputs of an item"""
    def __init__(self, c, n="", lin=False):
        self.q, self.v = c.unit("q" + n, 4), c.vec("v" + n, 3, **({"lin": True} if lin else {}))
        self.E = self.q + self.v
        self.S = qv2dq(self.q, self.v)
        self.T = rotmat(self.q) + self.v


@item("aa_tf_qutr_tf", TA, "aa_tf_qutr_tf aa_tf_tf_qv")
def _(c):
    A, p = Q(c), c.vec("p", 3)
    o, o2 = c.out(3), c.out(3)
    c.call("aa_tf_qutr_tf", c.inp(A.E), c.inp(p), o)
    c.eq("moved point", o.get(), tf_apply(A.q, A.v, p))
    c.call("aa_tf_tf_qv", c.inp(A.q), c.inp(A.v), c.inp(p), o2)
    c.eq("moved point (q,v)", o2.get(), tf_apply(A.q, A.v, p))


@item("aa_tf_qutr_mul", TA, "aa_tf_qutr_mul aa_tf_qv_chain aa_tf_tf_qv")
def _(c):
    A, B, p = Q(c, "1"), Q(c, "2"), c.vec("p", 3)
    o = c.out(7)
    c.call("aa_tf_qutr_mul", c.inp(A.E), c.inp(B.E), o)
    c.eq("product", o.get(), qt_mul(A.E, B.E))
    q3, v3 = c.out(4), c.out(3)
    c.call("aa_tf_qv_chain", c.inp(A.q), c.inp(A.v), c.inp(B.q), c.inp(B.v), q3, v3)
    r = qt_mul(A.E, B.E)
    c.eq("chain q", q3.get(), r[:4]); c.eq("chain v", v3.get(), r[4:])
    c.eq("action is composition", tf_apply(o.get()[:4], o.get()[4:], p), tf_apply(A.q, A.v, tf_apply(B.q, B.v, p)))


@item("aa_tf_qutr_mulnorm", TA, "aa_tf_qutr_mulnorm aa_tf_qv_chainnorm aa_tf_qmulnorm")
def _(c):
    A, B = Q(c, "1"), Q(c, "2")
    o = c.out(7)
    c.call("aa_tf_qutr_mulnorm", c.inp(A.E), c.inp(B.E), o)
    r = qt_mul(A.E, B.E)
    g = o.get()
    c.anyof("product up to sign of the quaternion", [(g, r), (g[:4] + g[4:], scale(-1, r[:4]) + r[4:])])
    c.eq("translation", g[4:], r[4:])
    q3, v3 = c.out(4), c.out(3)
    c.call("aa_tf_qv_chainnorm", c.inp(A.q), c.inp(A.v), c.inp(B.q), c.inp(B.v), q3, v3)
    c.anyof("chain q", [(q3.get(), r[:4]), (q3.get(), scale(-1, r[:4]))]); c.eq("chain v", v3.get(), r[4:])


@item("aa_tf_qutr_conj", TA, "aa_tf_qutr_conj aa_tf_qv_conj")
def _(c):
    A = Q(c)
    o = c.out(7)
    c.call("aa_tf_qutr_conj", c.inp(A.E), o)
    c.eq("inverse", o.get(), qt_inv(A.E))
    q3, v3 = c.out(4), c.out(3)
    c.call("aa_tf_qv_conj", c.inp(A.q), c.inp(A.v), q3, v3)
    c.eq("inverse q", q3.get(), qt_inv(A.E)[:4]); c.eq("inverse v", v3.get(), qt_inv(A.E)[4:])
    c.eq("undoes the transform", qt_mul(o.get(), A.E), [0, 0, 0, 1, 0, 0, 0])


@item("aa_tf_qutr_cmul", TA, "aa_tf_qutr_cmul aa_tf_qutr_mulc")
def _(c):
    A, B = Q(c, "1"), Q(c, "2")
    o, o2 = c.out(7), c.out(7)
    c.call("aa_tf_qutr_cmul", c.inp(A.E), c.inp(B.E), o)
    c.eq("A^-1 B", o.get(), qt_mul(qt_inv(A.E), B.E))
    c.call("aa_tf_qutr_mulc", c.inp(A.E), c.inp(B.E), o2)
    c.eq("A B^-1", o2.get(), qt_mul(A.E, qt_inv(B.E)))


# ------------------------------------------------------------- T01: dual quaternions
fun("aa_tf_duqu_mul", "v8 v8 o8", dmul, TA)
fun("aa_tf_duqu_smul", "s v8 o8", lambda a, x: scale(a, x), TA)
fun("aa_tf_duqu_add", "v8 v8 o8", add, TA)
fun("aa_tf_duqu_sub", "v8 v8 o8", sub, TA)
fun("aa_tf_duqu_conj", "v8 o8", dconj, TA)
fun("aa_tf_duqu_conj1", "io8", dconj, TA)
fun("aa_tf_duqu_cmul", "v8 v8 o8", lambda a, b: dmul(dconj(a), b), TA)
fun("aa_tf_duqu_mulc", "v8 v8 o8", lambda a, b: dmul(a, dconj(b)), TA)
fun("aa_tf_duqu_trans", "v8 o3", lambda S: scale(2, qmul(S[4:], qconj(S[:4]))[:3]), TA)
fun("aa_tf_duqu2pure", "v8 o6", lambda S: S[4:7] + S[0:3], TC)
fun("aa_tf_pure2duqu", "v6 o8", lambda v: v[3:6] + [0] + v[0:3] + [0], TC)


@item("aa_tf_duqu_norm", TA, "aa_tf_duqu_norm aa_tf_duqu_normalize")
def _(c):
    S = c.vec("S", 8)
    c.req(dot(S[:4], S[:4]), ">")
    r, d = c.out(1), c.out(1)
    c.call("aa_tf_duqu_norm", c.inp(S), r, d)
    n = norm(S[:4])
    c.eq("real part", r.get(), [n])
    c.eq("dual part", scale(n, d.get()), [dot(S[:4], S[4:])])
    b = c.inout(S)
    c.call("aa_tf_duqu_normalize", b)
    c.eq("normalised", scale(n, b.get()), S)


@item("aa_tf_duqu_vnorm", TA, "aa_tf_duqu_vnorm")
def _(c):
    S = c.vec("S", 8)
    c.req(dot(S[:3], S[:3]), ">")
    r, d = c.out(1), c.out(1)
    c.call("aa_tf_duqu_vnorm", c.inp(S), r, d)
    n = norm(S[:3])
    c.eq("real part", r.get(), [n])
    c.eq("dual part", scale(n, d.get()), [dot(S[:3], S[4:7])])


@item("aa_tf_duqu_minimize", TA, "aa_tf_duqu_minimize")
def _(c):
    S = c.vec("S", 8)
    b = c.inout(S)
    c.call("aa_tf_duqu_minimize", b)
    g = b.get()
    c.anyof("same up to sign", [(g, S), (g, scale(-1, S))])
    c.cmp("nonnegative scalar part", g[3], ">=")


def dmat_l(S):
    cols = []
    for j in range(8):
        e = [1 if i == j else 0 for i in range(8)]
        cols.append(dmul(S, e))
    return cols


def dmat_r(S):
    return [dmul([1 if i == j else 0 for i in range(8)], S) for j in range(8)]


for _s, _f in (("l", dmat_l), ("r", dmat_r)):
    @item("aa_tf_duqu_matrix_%s" % _s, TA, ["aa_tf_duqu_matrix_" + _s, "aa_tf_duqu_mat_" + _s],
          note="leading dimensions 8 and 11")
    def _(c, s=_s, f=_f):
        S = c.vec("S", 8)
        w = f(S)
        for ld in (8, 11):
            fill = [c.scalar("f%d" % i) for i in range(ld * 8)] if ld > 8 else [0] * 64
            for n in ("matrix", "mat"):
                b = c.inout(fill)
                if n == "matrix":
                    c.call("aa_tf_duqu_matrix_" + s, c.inp(S), b, ld)
                else:
                    c.call("aa_tf_duqu_mat_" + s, c.inp(S), c.dmat(8, 8, b, ld=ld))
                g = b.get()
                for j in range(8):
                    c.eq("%s ld=%d column %d" % (n, ld, j), g[ld * j:ld * j + 8], w[j])
                    c.eq("%s ld=%d rest of column %d untouched" % (n, ld, j), g[ld * j + 8:ld * j + ld], fill[ld * j + 8:ld * j + ld])


@item("aa_tf_duqu_tf", TA, "aa_tf_duqu_tf aa_tf_tf_duqu")
def _(c):
    A, p = Q(c), c.vec("p", 3)
    for n in ("aa_tf_duqu_tf", "aa_tf_tf_duqu"):
        o = c.out(3)
        c.call(n, c.inp(A.S), c.inp(p), o)
        c.eq(n, o.get(), tf_apply(A.q, A.v, p))


@item("transform-forms-agree", TA, "aa_tf_duqu_tf aa_tf_qutr_tf aa_tf_tfmat_tf aa_tf_duqu_mul aa_tf_qutr_mul aa_tf_tfmat_mul aa_tf_duqu_conj aa_tf_qutr_conj aa_tf_tfmat_inv2")
def _(c):
    A, B, p = Q(c, "1"), Q(c, "2"), c.vec("p", 3)
    want = tf_apply(A.q, A.v, tf_apply(B.q, B.v, p))
    for n, k in (("duqu", "S"), ("qutr", "E"), ("tfmat", "T")):
        a, b = getattr(A, k), getattr(B, k)
        m, o, i, z = c.out(len(a)), c.out(3), c.out(len(a)), c.out(3)
        c.call("aa_tf_%s_mul" % n, c.inp(a), c.inp(b), m)
        c.call("aa_tf_%s_tf" % n, m, c.inp(p), o)
        c.eq(n + ": composition acts as composition", o.get(), want)
        c.call("aa_tf_%s" % {"duqu": "duqu_conj", "qutr": "qutr_conj", "tfmat": "tfmat_inv2"}[n], c.inp(a), i)
        y = c.out(3)
        c.call("aa_tf_%s_tf" % n, i, c.inp(tf_apply(A.q, A.v, p)), z)
        c.eq(n + ": inverse undoes the transform", z.get(), p)


@item("aa_tf_tfmat_normalize", TA, "aa_tf_tfmat_normalize aa_tf_rotmat_normalize")
def _(c):
    A = Q(c)
    b = c.inout(A.T)
    c.call("aa_tf_tfmat_normalize", b)
    c.eq("a rotation is left alone", b.get(), A.T)


# ------------------------------------------------------------- T02
@item("aa_tf_qv2duqu", TC, "aa_tf_qv2duqu aa_tf_qutr2duqu")
def _(c):
    A = Q(c)
    o, o2 = c.out(8), c.out(8)
    c.call("aa_tf_qv2duqu", c.inp(A.q), c.inp(A.v), o)
    c.eq("qv2duqu", o.get(), A.S)
    c.call("aa_tf_qutr2duqu", c.inp(A.E), o2)
    c.eq("qutr2duqu", o2.get(), A.S)


@item("aa_tf_duqu2qutr", TC, "aa_tf_duqu2qv aa_tf_duqu2qutr")
def _(c):
    A = Q(c)
    o, q, v = c.out(7), c.out(4), c.out(3)
    c.call("aa_tf_duqu2qutr", c.inp(A.S), o)
    c.eq("duqu2qutr", o.get(), A.E)
    c.call("aa_tf_duqu2qv", c.inp(A.S), q, v)
    c.eq("duqu2qv", q.get() + v.get(), A.E)


@item("aa_tf_duqu2tfmat", TC, "aa_tf_duqu2tfmat aa_tf_qutr2tfmat aa_tf_qv2tfmat")
def _(c):
    A = Q(c)
    o, o2, o3 = c.out(12), c.out(12), c.out(12)
    c.call("aa_tf_duqu2tfmat", c.inp(A.S), o)
    c.eq("duqu2tfmat", o.get(), A.T)
    c.call("aa_tf_qutr2tfmat", c.inp(A.E), o2)
    c.eq("qutr2tfmat", o2.get(), A.T)
    c.call("aa_tf_qv2tfmat", c.inp(A.q), c.inp(A.v), o3)
    c.eq("qv2tfmat", o3.get(), A.T)


def upto(g, w):
    return [(g, w), (g, scale(-1, w[:4]) + w[4:])]


@item("aa_tf_tfmat2qutr", TC, "aa_tf_tfmat2qv aa_tf_tfmat2qutr aa_tf_rotmat2quat")
def _(c):
    A = Q(c)
    o, q, v = c.out(7), c.out(4), c.out(3)
    c.call("aa_tf_tfmat2qutr", c.inp(A.T), o)
    c.anyof("tfmat2qutr", upto(o.get(), A.E))
    c.call("aa_tf_tfmat2qv", c.inp(A.T), q, v)
    c.anyof("tfmat2qv", upto(q.get() + v.get(), A.E))


@item("aa_tf_tfmat2duqu", TC, "aa_tf_tfmat2duqu aa_tf_rotmat2quat")
def _(c):
    A = Q(c)
    o = c.out(8)
    c.call("aa_tf_tfmat2duqu", c.inp(A.T), o)
    c.anyof("tfmat2duqu", [(o.get(), A.S), (o.get(), scale(-1, A.S))])


@item("aa_tf_xyz2duqu", TC, "aa_tf_xyz2duqu")
def _(c):
    v = [c.scalar(k) for k in "xyz"]
    o = c.out(8)
    c.call("aa_tf_xyz2duqu", v[0], v[1], v[2], o)
    c.eq("pure translation", o.get(), qv2dq([0, 0, 0, 1], v))


def rx(t): return [sin(t / 2), 0, 0, cos(t / 2)]
def rz(t): return [0, 0, sin(t / 2), cos(t / 2)]


def dh_prox(al, a, d, ph):
    I = [0, 0, 0, 1]
    r = (rx(al), [0, 0, 0])
    for x in ((I, [a, 0, 0]), (rz(ph), [0, 0, 0]), (I, [0, 0, d])):
        r = tf_mul(r, x)
    return r


def dh_dist(al, a, d, ph):
    I = [0, 0, 0, 1]
    r = (rz(ph), [0, 0, 0])
    for x in ((I, [0, 0, d]), (I, [a, 0, 0]), (rx(al), [0, 0, 0])):
        r = tf_mul(r, x)
    return r


for _n, _f in (("prox", dh_prox), ("dist", dh_dist)):
    @item("aa_tf_dh%s" % _n, TC, ["aa_tf_dh%s2%s" % (_n, k) for k in ("tfmat", "duqu", "qutr", "qv")])
    def _(c, n=_n, f=_f):
        p = [c.scalar(k) for k in ("alpha", "a", "d", "phi")]
        q, v = f(*p)
        o = c.out(12)
        c.call("aa_tf_dh%s2tfmat" % n, *(p + [o]))
        c.eq("matrix", o.get(), rotmat(q) + v)
        o = c.out(7)
        c.call("aa_tf_dh%s2qutr" % n, *(p + [o]))
        c.eq("quaternion-translation", o.get(), q + v)
        oq, ov = c.out(4), c.out(3)
        c.call("aa_tf_dh%s2qv" % n, *(p + [oq, ov]))
        c.eq("quaternion and vector", oq.get() + ov.get(), q + v)
        o = c.out(8)
        c.call("aa_tf_dh%s2duqu" % n, *(p + [o]))
        c.eq("dual quaternion", o.get(), qv2dq(q, v))


def look(c):
    """eye and up chosen freely in the frame R: eye - target = k z, up = l x' + m z"""
    q = c.unit("q", 4)
    eye = c.vec("eye", 3)
    k, l, m = c.scalar("k", pos=True), c.scalar("l", pos=True), c.scalar("m")
    R = rotmat(q)
    x, y, z = R[:3], R[3:6], R[6:]
    target = sub(eye, scale(k, z))
    up = add(scale(l, y), scale(m, z))
    return q, eye, target, up, R


@item("aa_tf_rotmat_mzlook", TC, "aa_tf_rotmat_mzlook aa_tf_tfmat_mzlook")
def _(c):
    q, eye, target, up, R = look(c)
    o = c.out(9)
    c.call("aa_tf_rotmat_mzlook", c.inp(eye), c.inp(target), c.inp(up), o)
    c.eq("camera frame", o.get(), R)
    o = c.out(12)
    c.call("aa_tf_tfmat_mzlook", c.inp(eye), c.inp(target), c.inp(up), o)
    c.eq("camera pose", o.get(), R + eye)


@item("aa_tf_qutr_mzlook", TC, "aa_tf_qutr_mzlook aa_tf_qv_mzlook aa_tf_qmzlook aa_tf_rotmat2quat aa_tf_rotmat_mzlook")
def _(c):
    q, eye, target, up, R = look(c)
    o = c.out(7)
    c.call("aa_tf_qutr_mzlook", c.inp(eye), c.inp(target), c.inp(up), o)
    c.anyof("camera pose", upto(o.get(), q + eye))
    o = c.out(4)
    c.call("aa_tf_qmzlook", c.inp(eye), c.inp(target), c.inp(up), o)
    c.anyof("camera orientation", upto(o.get(), q))
    oq, ov = c.out(4), c.out(3)
    c.call("aa_tf_qv_mzlook", c.inp(eye), c.inp(target), c.inp(up), oq, ov)
    c.anyof("camera pose (q,v)", upto(oq.get() + ov.get(), q + eye))


# ------------------------------------------------------------- T03
def screw(u, d, th):
    """translation of exp of the twist (rotation th*u, translation th*d)"""
    s, k = sin(th), cos(th)
    return add(add(scale(s, d), scale(1 - k, cross(u, d))), scale((th - s) * dot(u, d), u))


def twist_in(c):
    """half-angle twist (w,dv) = (t*u, t*d), and the motion it generates"""
    u, d = c.unit("u", 3), c.vec("d", 3, lin=True)
    t = c.scalar("t", nonneg=True)
    q = [sin(t) * x for x in u] + [cos(t)]
    return u, d, t, q, screw(u, d, 2 * t)


@item("lemma-screw-is-exponential", TE, "", replay=False,
      note="the closed form used as the specification of every exponential satisfies T(0)=I and dT/dt = twist T")
def _(c):
    u, d = c.unit("u", 3), c.vec("d", 3, lin=True)
    t = c.scalar("t")
    q = lambda t: [sin(t / 2) * x for x in u] + [cos(t / 2)]
    c.eq("rotation rate", c.deriv(lambda t: q(t), t, "t"), scale(Fraction(1, 2), qmul(pure(u), q(t))))
    c.eq("translation rate", c.deriv(lambda t: screw(u, d, t), t, "t"), add(cross(u, screw(u, d, t)), d))
    c.eq("start", q(c.lift(0)) + screw(u, d, c.lift(0)), [0, 0, 0, 1, 0, 0, 0])


@item("aa_tf_qutr_expv", TE, "aa_tf_qutr_expv aa_tf_qv_expv")
def _(c):
    u, d, t, q, v = twist_in(c)
    o = c.out(7)
    c.call("aa_tf_qutr_expv", c.inp(scale(t, d) + scale(t, u)), o)
    c.eq("rigid motion", o.get(), q + v, small="t")
    oq, ov = c.out(4), c.out(3)
    c.call("aa_tf_qv_expv", c.inp(scale(t, u)), c.inp(scale(t, d)), oq, ov)
    c.eq("rigid motion (q,v)", oq.get() + ov.get(), q + v, small="t")


@item("aa_tf_duqu_exp", TE, "aa_tf_duqu_exp")
def _(c):
    u, d, t, q, v = twist_in(c)
    o = c.out(8)
    c.call("aa_tf_duqu_exp", c.inp(scale(t, u) + [0] + scale(t, d) + [0]), o)
    c.eq("rigid motion", o.get(), qv2dq(q, v), small="t")


@item("aa_tf_duqu_exp-general", TE, "aa_tf_duqu_exp")
def _(c):
    # exp of a general dual quaternion: exp(a + e b) factor
    u, d, t, q, v = twist_in(c)
    a, b = c.scalar("a"), c.scalar("b", lin=True)
    o = c.out(8)
    c.call("aa_tf_duqu_exp", c.inp(scale(t, u) + [a] + scale(t, d) + [b]), o)
    E = qv2dq(q, v)
    r = scale(exp(a), E[:4])
    c.eq("exp", o.get(), r + add(scale(exp(a), E[4:]), scale(b, r)), small="t")


@item("aa_tf_tfmat_expv", TE, "aa_tf_tfmat_expv")
def _(c):
    u, d = c.unit("u", 3), c.vec("d", 3, lin=True)
    t = c.scalar("t", nonneg=True)
    o = c.out(12)
    c.call("aa_tf_tfmat_expv", c.inp(scale(t, d) + scale(t, u)), o)
    c.eq("rigid motion", o.get(), rotmat([sin(t / 2) * x for x in u] + [cos(t / 2)]) + screw(u, d, t), small="t")


@item("exp-of-pure-translation", TE, "aa_tf_tfmat_expv aa_tf_qutr_expv aa_tf_duqu_exp")
def _(c):
    v = c.vec("v", 3)
    o = c.out(12)
    c.call("aa_tf_tfmat_expv", c.inp(v + [0, 0, 0]), o)
    c.eq("matrix", o.get(), eye(3) + v)
    o = c.out(7)
    c.call("aa_tf_qutr_expv", c.inp(v + [0, 0, 0]), o)
    c.eq("quaternion-translation", o.get(), [0, 0, 0, 1] + scale(2, v))
    o = c.out(8)
    c.call("aa_tf_duqu_exp", c.inp([0, 0, 0, 0] + v + [0]), o)
    c.eq("dual quaternion", o.get(), [0, 0, 0, 1] + v + [0])


@item("log-of-pure-translation", TE, "aa_tf_tfmat_lnv aa_tf_qutr_lnv aa_tf_duqu_ln")
def _(c):
    v = c.vec("v", 3)
    o = c.out(6)
    c.call("aa_tf_tfmat_lnv", c.inp(eye(3) + v), o)
    c.eq("matrix", o.get(), v + [0, 0, 0])
    o = c.out(6)
    c.call("aa_tf_qutr_lnv", c.inp([0, 0, 0, 1] + scale(2, v)), o)
    c.eq("quaternion-translation", o.get(), v + [0, 0, 0])
    o = c.out(8)
    c.call("aa_tf_duqu_ln", c.inp([0, 0, 0, 1] + v + [0]), o)
    c.eq("dual quaternion", o.get(), [0, 0, 0, 0] + v + [0])


def pose_in(c):
    u, d, p = c.unit("u", 3), c.vec("d", 3, lin=True), c.angle("p", 0, 1)
    c.req(p, ">")
    c.req(c.pi - p, ">")
    q = [sin(p) * x for x in u] + [cos(p)]
    return u, d, p, q, screw(u, d, 2 * p)


@item("aa_tf_qutr_lnv", TE, "aa_tf_qutr_lnv aa_tf_qv_lnv")
def _(c):
    u, d, p, q, v = pose_in(c)
    o = c.out(6)
    c.call("aa_tf_qutr_lnv", c.inp(q + v), o)
    c.eq("twist", o.get(), scale(p, d) + scale(p, u), small="p")
    w, dv = c.out(3), c.out(3)
    c.call("aa_tf_qv_lnv", c.inp(q), c.inp(v), w, dv)
    c.eq("twist (w,v)", w.get() + dv.get(), scale(p, u) + scale(p, d), small="p")


@item("aa_tf_duqu_ln", TE, "aa_tf_duqu_ln aa_tf_duqu_lnv")
def _(c):
    u, d, p, q, v = pose_in(c)
    o = c.out(8)
    S = qv2dq(q, v)
    c.call("aa_tf_duqu_ln", c.inp(S), o)
    c.eq("twist", o.get(), scale(p, u) + [0] + scale(p, d) + [0], small="p")
    o = c.out(6)
    c.call("aa_tf_duqu_lnv", c.inp(S), o)
    c.eq("twist (vector)", o.get(), scale(p, d) + scale(p, u), small="p")


@item("aa_tf_tfmat_lnv", TE, "aa_tf_tfmat_lnv")
def _(c):
    u, d, p = c.unit("u", 3), c.vec("d", 3, lin=True), c.angle("p", 0, "1/2")
    c.req(p, ">")
    c.req(c.pi / 2 - p, ">")
    q = [sin(p) * x for x in u] + [cos(p)]
    o = c.out(6)
    c.call("aa_tf_tfmat_lnv", c.inp(rotmat(q) + screw(u, d, 2 * p)), o)
    t2 = 2 * c.pi - 2 * p
    alt = add(scale(-1 * t2, d), scale(2 * c.pi * dot(u, d), u)) + scale(-1 * t2, u)
    c.anyof("twist", [(o.get(), scale(2 * p, d) + scale(2 * p, u)), (o.get(), alt)], small="p")
