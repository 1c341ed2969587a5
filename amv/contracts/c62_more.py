"""Further contracts: statistics (A01), rotations near a reference, from pairs of
directions and means (R01, R02), chained slerp derivative (S01)."""
from ..spec import item, fun
from ..ops import *
from ..ops import log as ln
from fractions import Fraction as F
from .c40_explog import arc, slerp_spec


P = "A01"


def tot(l):
    r = 0
    for x in l:
        r = r + x
    return r


for _n in (1, 2, 3, 4):
    def _mk(n):
        @item("aa_stat_mean.%d" % n, P, "aa_stat_mean", bounded="%d values" % n)
        def _(c):
            x = c.vec("x", n)
            c.eq("mean", c.call("aa_stat_mean", n, c.inp(x), ret="d"), tot(x) / n)

        if n > 1:
            @item("aa_stat_std.%d" % n, P, "aa_stat_std", bounded="%d values" % n)
            def _(c):
                x = c.vec("x", n)
                r = c.call("aa_stat_std", n, c.inp(x), ret="d")
                m = tot(x) / n
                c.eq("variance", r * r * (n - 1), tot([(y - m) * (y - m) for y in x]))
                c.cmp("sign", r)
    _mk(_n)


@item("aa_stat_circ_mean", P, "aa_stat_circ_mean", bounded="two to three values")
def _(c):
    m, d = c.angle("m", -1, 1), c.angle("d", 0, "1/2")
    c.req(c.pi / 2 - d, ">")
    c.req(cos(d), ">")
    for off in ((1, -1), (-1, 0, 1)):
        r = c.call("aa_stat_circ_mean", len(off), c.inp([m + k * d for k in off]), ret="d")
        if len(off) == 3:
            c.req(2 * cos(d) + 1, ">")
        c.eq("sine of the mean", sin(r), sin(m))
        c.eq("cosine of the mean", cos(r), cos(m))
        c.cmp("at least -pi", r + c.pi)
        c.cmp("at most pi", c.pi - r)


@item("aa_stat_circ_std", P, "aa_stat_circ_std", bounded="two values")
def _(c):
    m, d = c.angle("m", -1, 1), c.angle("d", 0, "1/2")
    c.req(c.pi / 2 - d, ">")
    c.req(cos(d), ">")
    r = c.call("aa_stat_circ_std", 2, c.inp([m + d, m - d]), ret="d")
    # the length of the mean direction is cos(d)
    c.eq("variance", r * r, -2 * ln(cos(d)), ntol=1e-6)


@item("aa_stat_excluded.mean", P, "aa_stat_excluded_mean_std", bounded="fixed patterns of values, scaled and shifted")
def _(c):
    m, d = c.scalar("m"), c.scalar("d", pos=True)
    for pat, keep, it in (((-1, 0, 1), 3, 1), ((0, 1, -1, 1, -1, 0, 20), 6, 1)):
        mu, sg = c.out(1), c.out(1)
        x = c.inp([m + d * k for k in pat])
        r = c.call("aa_stat_excluded_mean_std", len(pat), x, mu, sg, -2.0, 2.0, 10)
        c.isint("iterations", r, it)
        k = pat[:keep]
        c.eq("mean of the values kept", mu.get(), [m + d * F(sum(k), keep)])
        v = sum((F(y) - F(sum(k), keep)) ** 2 for y in k) / (keep - 1)
        c.eq("variance of the values kept", sg.get()[0] * sg.get()[0], d * d * v)
        c.cmp("sign", sg.get()[0])


def median(*a, **k):
    from .c80_la import median as f
    return f(*a, **k)


for _m, _n in ((1, 2), (2, 2), (2, 3), (3, 2)):
    def _mk(m, n):
        @item("aa_stat_vmean.%d%d" % (m, n), P, "aa_stat_vmean aa_stat_vmean_cov", bounded="%d vectors of %d" % (n, m))
        def _(c):
            x = c.vec("x", m * n)
            o, o2, E = c.out(m), c.out(m), c.out(m * m)
            c.call("aa_stat_vmean", m, n, c.inp(x), o)
            mu = [tot([x[i + m * k] for k in range(n)]) / n for i in range(m)]
            c.eq("mean", o.get(), mu)
            c.call("aa_stat_vmean_cov", m, n, c.inp(x), o2, E)
            c.eq("mean with covariance", o2.get(), mu)
            c.eq("covariance", E.get(), [tot([(x[i + m * k] - mu[i]) * (x[j + m * k] - mu[j]) for k in range(n)]) / (n - 1) for j in range(m) for i in range(m)])
    _mk(_m, _n)

for _n in (1, 2, 3):
    def _mk(n):
        @item("aa_stat_mahalanobis.%d" % n, P, "aa_stat_mahalanobis", bounded="size %d" % n)
        def _(c):
            x, mu = c.vec("x", n), c.vec("mu", n)
            # a positive semidefinite weight: B'B
            B = c.vec("B", n * n)
            A = [tot([B[k + n * i] * B[k + n * j] for k in range(n)]) for j in range(n) for i in range(n)]
            r = c.call("aa_stat_mahalanobis", n, c.inp(x), c.inp(mu), c.inp(A), ret="d")
            t = sub(x, mu)
            Bt = [tot([B[k + n * i] * t[i] for i in range(n)]) for k in range(n)]
            c.req(dot(Bt, Bt))
            c.eq("squared distance", r * r, dot(Bt, Bt))
            c.cmp("sign", r)

        @item("aa_fminloc.%d" % n, P, "aa_fminloc aa_fmaxloc", bounded="size %d" % n)
        def _(c):
            v = c.vec("v", n)
            k = c.call("aa_fminloc", n, c.inp(v))
            for a in v:
                c.cmp("smallest", a - v[k])
            k = c.call("aa_fmaxloc", n, c.inp(v))
            for a in v:
                c.cmp("largest", v[k] - a)

        @item("aa_vclamp.%d" % n, P, "amv_vclamp", bounded="size %d" % n)
        def _(c):
            from .c60_math import clamp_goals
            v, lo, d, z = c.vec("v", n), c.scalar("lo"), c.scalar("d", nonneg=True), c.scalar("z")
            b = c.inout(v + [z])
            c.call("amv_vclamp", n, b, lo, lo + d)
            r = b.get()
            for i in range(n):
                clamp_goals(c, r[i], v[i], lo, lo + d)
            c.eq("beyond the end", r[n], z)

        @item("aa_veq.%d" % n, P, "aa_veq", bounded="size %d" % n)
        def _(c):
            a, d, t, k = c.vec("a", n), c.vec("d", n), c.scalar("t", pos=True), c.scalar("k", pos=True)
            for y in d:
                c.req(t - y); c.req(t + y)
            c.isint("all within", c.call("aa_veq", n, c.inp(a), c.inp(add(a, d)), t, ret="i"), 1)
            for i in range(n):
                for s in (1, -1):
                    e = add(a, d)
                    e[i] = a[i] + s * (t + k)
                    c.isint("one beyond", c.call("aa_veq", n, c.inp(a), c.inp(e), t, ret="i"), 0)
    _mk(_n)


# ------------------------------------------------------------------ R02: equivalent encodings
@item("aa_tf_axang_normalize", "R02", "aa_tf_axang_normalize aa_tf_axang_make")
def _(c):
    u, k, t = c.unit("u", 3), c.scalar("k", pos=True), c.scalar("t")
    b = c.inout(scale(k, u) + [t])
    c.call("aa_tf_axang_normalize", b)
    o = c.out(4)
    c.call("aa_tf_axang_make", *(scale(k, u) + [t, o]))
    for r in (b.get(), o.get()):
        c.eq("unit axis", dot(r[:3], r[:3]), 1)
        c.eq("axis on the same line", cross(r[:3], u), [0, 0, 0])
        c.cmp("angle at least 0", r[3])
        c.cmp("angle at most pi", c.pi - r[3])
        c.whole("same rotation", dot(r[:3], u) * r[3], t, 2 * c.pi)


@item("aa_tf_rotvec_permute", "R02", "aa_tf_rotvec_permute", note="rotation angle at least 1e-4")
def _(c):
    u, t = c.unit("u", 3), c.scalar("t", pos=True)
    c.req(t - F(1, 1000))
    for k in (-3, -2, -1, 0, 1, 2, 3):
        o = c.out(3)
        c.call("aa_tf_rotvec_permute", c.inp(scale(t, u)), k, o)
        c.eq("k=%d" % k, o.get(), scale(t + 2 * k * c.pi, u))


@item("aa_tf_rotvec_near", "R02", "aa_tf_rotvec_near", note="rotation angle at least 1e-3", replay=False)
def _(c):
    u, t = c.unit("u", 3), c.angle("t", 0, 1)
    c.req(t - F(1, 1000))
    # a reference on the line of the rotation axis, within three turns
    for j in (-3, -2, -1, 0, 1, 2, 3):
        d = c.angle("d", "-1/2", "1/2")
        o = c.out(3)
        c.call("aa_tf_rotvec_near", c.inp(scale(t, u)), c.inp(scale(t + 2 * j * c.pi + d, u)), o)
        c.eq("nearest, %d turns" % j, o.get(), scale(t + 2 * j * c.pi, u))


# ------------------------------------------------------------------ R01: rotation between directions
def mk_v2q(name, lo, hi):
    @item("aa_tf_vecs2quat.%s" % name, "R01", "aa_tf_vecs2quat")
    def _(c):
        a, b = c.scalar("a", pos=True), c.scalar("b", pos=True)
        if name == "opposite":
            U = c.unit("U", 3)
            V = scale(-1, U)
        else:
            R = rotmat(c.unit("f", 4))
            U, W = R[:3], R[3:6]
            t = c.angle("t", lo, hi)
            V = add(scale(cos(t), U), scale(sin(t), W))
            if name == "acute":
                c.req(cos(t)); c.req(sin(t))
            else:
                c.req(-cos(t), ">"); c.req(sin(t) - F(1, 10 ** 4))
        o = c.out(4)
        c.call("aa_tf_vecs2quat", c.inp(scale(a, U)), c.inp(scale(b, V)), o)
        q = o.get()
        c.eq("unit quaternion", dot(q, q), 1)
        c.eq("takes the first direction to the second", qrot(q, U), V)
        if name != "opposite":
            # the shortest rotation: about the common perpendicular
            c.eq("axis perpendicular to the first", dot(q[:3], U), 0)
            c.eq("axis perpendicular to the second", dot(q[:3], V), 0)


mk_v2q("acute", 0, "1/2")
mk_v2q("obtuse", "1/2", 1)
mk_v2q("opposite", 0, 1)


# ------------------------------------------------------------------ R01: relative positions, means
for _n in (1, 2, 3):
    def _mk(n):
        @item("aa_tf_relx.%d" % n, "T01", "aa_tf_relx aa_tf_relx_mean", bounded="%d points" % n)
        def _(c):
            R = c.vec("R", 9)
            X, Y, Z = c.vec("X", 4 * n), c.vec("Y", 5 * n), c.vec("Z", 3 * n + n)
            z = c.inout(Z)
            c.call("aa_tf_relx", n, c.inp(R), c.inp(X), 4, c.inp(Y), 5, z, 4)
            w = [sub(Y[5 * j:5 * j + 3], mv(R, X[4 * j:4 * j + 3])) for j in range(n)]
            g = z.get()
            for j in range(n):
                c.eq("offset of point %d" % j, g[4 * j:4 * j + 3], w[j])
                c.eq("padding", g[4 * j + 3], Z[4 * j + 3])
            o = c.out(3)
            c.call("aa_tf_relx_mean", n, c.inp(R), c.inp(X), 4, c.inp(Y), 5, o)
            c.eq("mean offset", o.get(), [tot([x[i] for x in w]) / n for i in range(3)])

        def medit(i):
            @item("aa_tf_relx_median.%d.%d" % (n, i), "T01", "aa_tf_relx_median", bounded="%d points" % n)
            def _(c):
                # one coordinate arbitrary, the others fixed
                y = c.vec("y", n, bound=10 ** 6)
                Y = [y[j] if k == i else k for j in range(n) for k in range(5)]
                o = c.out(3)
                x = [3, 1, 2]
                c.call("aa_tf_relx_median", n, c.inp([0, 1, 0, 0, 0, 1, 1, 0, 0]), c.inp([1, 2, 3, 5] * n), 4, c.inp(Y), 5, o)
                for k in range(3):
                    if k == i:
                        median(c, o.get()[k], [e - x[k] for e in y])
                    else:
                        c.eq("fixed coordinate", o.get()[k], k - x[k])
        for i in range(3):
            medit(i)

        @item("aa_tf_quat_davenport_matrix.%d" % n, "R01", "aa_tf_quat_davenport_matrix", bounded="%d quaternions" % n)
        def _(c):
            for ld in (4, 5):
                q, w = c.vec("q%d" % ld, ld * n), c.vec("w%d" % ld, n)
                o = c.out(16)
                c.call("aa_tf_quat_davenport_matrix", n, c.inp(w), c.inp(q), ld, o)
                c.eq("weighted outer products", o.get(), [tot([w[k] * q[ld * k + i] * q[ld * k + j] for k in range(n)]) for j in range(4) for i in range(4)])
    _mk(_n)


@item("aa_tf_quat_davenport.trivial", "R01", "aa_tf_quat_davenport")
def _(c):
    q, w = c.unit("q", 4), c.scalar("w")
    o = c.out(4)
    c.call("aa_tf_quat_davenport", 0, c.inp([w]), c.inp(q), 4, o)
    c.eq("no rotations", o.get(), [0, 0, 0, 1])
    o = c.out(4)
    c.call("aa_tf_quat_davenport", 1, c.inp([w]), c.inp(q), 4, o)
    c.eq("one rotation", o.get(), q)


# ------------------------------------------------------------------ S01
def mk_chain(s):
    @item("aa_tf_qslerpchaindiff.%s" % ("p" if s > 0 else "n"), "S01", "aa_tf_qslerpchaindiff aa_tf_qslerp_param", note="both orientations move")
    def _(c):
        q, e, p, q2 = arc(c, "1/2")
        c.req(c.pi / 2 - p, ">")
        u, du = c.scalar("tau"), c.scalar("dtau")
        a, b = c.vec("a", 3), c.vec("b", 3)
        dq, dq2 = qmul(q, pure(a)), qmul(q2, pure(b))
        r, dr = c.out(4), c.out(4)
        c.call("aa_tf_qslerpchaindiff", u, du, c.inp(q), c.inp(dq), c.inp(scale(s, q2)), c.inp(scale(s, dq2)), r, dr)
        c.eq("point of the arc", r.get(), slerp_spec(q, e, p, u))
        # derivative of (q sin((1-u)p) + q2 sin(u p)) / sin p with cos p = q.q2
        dp = -(dot(dq, q2) + dot(q, dq2)) / sin(p)
        A, B = sin((1 - u) * p) / sin(p), sin(u * p) / sin(p)
        dA = (cos((1 - u) * p) * ((1 - u) * dp - du * p) - A * cos(p) * dp) / sin(p)
        dB = (cos(u * p) * (u * dp + du * p) - B * cos(p) * dp) / sin(p)
        c.eq("its derivative", dr.get(), add(add(scale(A, dq), scale(B, dq2)), add(scale(dA, q), scale(dB, q2))))


mk_chain(1)
mk_chain(-1)


@item("aa_tf_qslerpchaindiff.same", "S01", "aa_tf_qslerpchaindiff")
def _(c):
    q, a, b, u, du = c.unit("q", 4), c.vec("a", 3), c.vec("b", 3), c.scalar("u"), c.scalar("du")
    dq, dq2 = qmul(q, pure(a)), qmul(q, pure(b))
    for s in (1, -1):
        r, dr = c.out(4), c.out(4)
        c.call("aa_tf_qslerpchaindiff", u, du, c.inp(q), c.inp(dq), c.inp(scale(s, q)), c.inp(scale(s, dq2)), r, dr)
        c.eq("equal orientations", r.get(), q)
        c.eq("derivative", dr.get(), add(scale(1 - u, dq), scale(u, dq2)))


# ------------------------------------------------------------------ V02: second derivative of the logarithm
@item("aa_tf_duqu_ln_jac", "V02", "aa_tf_duqu_ln_jac", note="leading dimensions 8 and 9", cost=20)
def _(c):
    from .c40_explog import dirq, qexpu, dln
    u, p, k = dirq(c)
    q = scale(k, qexpu(u, p))
    d = c.vec("d", 4, lin=True)
    v, w = q[:3], q[3]
    qq, vv = k * k, k * k * sin(p) * sin(p)
    f = p / (k * sin(p))
    z = (w / qq - f) / vv
    for ld in (8, 9):
        b = c.out(ld * 8)
        c.call("aa_tf_duqu_ln_jac", c.inp(q + d), c.dmat(8, 8, b, ld=ld))
        for j in range(4):
            e = [1 if i == j else 0 for i in range(4)]
            Dl = dln(u, p, k, e)
            kw = dict(small="p", tol=F(1, 10 ** 10), ntol=1e-5)
            c.eq("ld %d real by real %d" % (ld, j), scale(k, b.get(ld * j, 4)), scale(k, Dl), **kw)
            c.eq("ld %d dual by dual %d" % (ld, j), scale(k, b.get(ld * (4 + j) + 4, 4)), scale(k, Dl), **kw)
            c.eq("ld %d real by dual %d" % (ld, j), b.get(ld * (4 + j), 4), [0, 0, 0, 0])
            # D f[e], D zeta[e], D^2 f[e,d] of ln = f v + log|q|
            ve, vd, qe, qd = dot(v, e[:3]), dot(v, d[:3]), dot(q, e), dot(q, d)
            Dfe, Dfd = z * ve - e[3] / qq, z * vd - d[3] / qq
            Dz = (e[3] / qq - 2 * w * qe / (qq * qq) - Dfe) / vv - 2 * z * ve / vv
            D2 = Dz * vd + z * dot(e[:3], d[:3]) + 2 * d[3] * qe / (qq * qq)
            want = add(add(scale(Dfe, d[:3]), scale(D2, v)), scale(Dfd, e[:3])) + [dot(e, d) / qq - 2 * qd * qe / (qq * qq)]
            c.eq("ld %d dual by real %d" % (ld, j), scale(k * k, b.get(ld * j + 4, 4)), scale(k * k, want), small="p", tol=F(1, 10 ** 6), ntol=1e-3)


# ------------------------------------------------------------------ half turns, angles of matrices
@item("rotmat_lnv.half_turn", "R04 R02", "aa_tf_rotmat_lnv aa_tf_rotmat2rotvec")
def _(c):
    u = c.unit("u", 3)
    for n in ("aa_tf_rotmat_lnv", "aa_tf_rotmat2rotvec"):
        o = c.out(3)
        c.call(n, c.inp(rotmat(u + [0])), o)
        c.anyof(n, [(o.get(), scale(s * c.pi, u)) for s in (1, -1)])


@item("aa_tf_rotmat_angle", "R04", "aa_tf_rotmat_sincos aa_tf_rotmat_angle")
def _(c):
    u, p = c.unit("u", 3), c.angle("p", 0, "1/2")
    c.req(sin(p)); c.req(cos(p))
    R = rotmat(scale(sin(p), u) + [cos(p)])
    s, k = c.out(1), c.out(1)
    c.call("aa_tf_rotmat_sincos", c.inp(R), s, k)
    c.eq("sine", s.get(), [sin(2 * p)])
    c.eq("cosine", k.get(), [cos(2 * p)])
    s, k, t = c.out(1), c.out(1), c.out(1)
    c.call("aa_tf_rotmat_angle", c.inp(R), k, s, t)
    c.eq("sine", s.get(), [sin(2 * p)])
    c.eq("cosine", k.get(), [cos(2 * p)])
    c.eq("angle", t.get(), [2 * p])


def mk_isrot(ax):
    @item("aa_tf_isrotmat.%d" % ax, "R02", "aa_tf_isrotmat", bounded="rotations about a coordinate axis")
    def _(c):
        t = c.angle("t", -1, 1)
        R = [0] * 9
        i, j = (ax + 1) % 3, (ax + 2) % 3
        R[ax + 3 * ax] = 1
        R[i + 3 * i] = R[j + 3 * j] = cos(t)
        R[j + 3 * i], R[i + 3 * j] = sin(t), -sin(t)
        c.isint("a rotation", c.call("aa_tf_isrotmat", c.inp(R), ret="i"), 1)
        c.isint("a point reflection", c.call("aa_tf_isrotmat", c.inp(scale(-1, R)), ret="i"), 0)
        M = list(R)
        M[ax + 3 * ax] = -1
        c.isint("a reflection", c.call("aa_tf_isrotmat", c.inp(M), ret="i"), 0)
        M[ax + 3 * ax] = 2
        c.isint("a stretching", c.call("aa_tf_isrotmat", c.inp(M), ret="i"), 0)
        M[ax + 3 * ax] = M[i + 3 * i] = M[j + 3 * j] = 1
        M[j + 3 * i], M[i + 3 * j] = 0, F(1, 10)
        c.isint("a shear", c.call("aa_tf_isrotmat", c.inp(M), ret="i"), 0)


for _a in range(3):
    mk_isrot(_a)


@item("aa_tf_quat2rotvec_near", "R02", "aa_tf_quat2rotvec_near", note="rotation angle at least 1e-3", replay=False)
def _(c):
    u, p = c.unit("u", 3), c.angle("p", 0, 1)
    c.req(p - F(1, 1000)); c.req(sin(p), ">")
    q = scale(sin(p), u) + [cos(p)]
    for j in (-2, -1, 0, 1, 2):
        d = c.angle("d", "-1/2", "1/2")
        o = c.out(3)
        c.call("aa_tf_quat2rotvec_near", c.inp(q), c.inp(scale(2 * p + 2 * j * c.pi + d, u)), o)
        c.eq("nearest, %d turns" % j, o.get(), scale(2 * p + 2 * j * c.pi, u))
