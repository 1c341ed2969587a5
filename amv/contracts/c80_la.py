"""L01: dense linear algebra on plain arrays (src/la.c, src/la_impl.c through
src/la2.c, double instances).  Element values are arbitrary; the loops over the
size are unrolled for the sizes given in each item (bounded)."""
from ..spec import item, fun
from ..ops import *
from fractions import Fraction

P = "L01"


def S(l):
    r = 0
    for x in l:
        r = r + x
    return r


def sizes(t): return "vector sizes " + t


def col(A, ld, i, j): return A[i + ld * j]


def vit(iid, fn, f, ns=(0, 1, 2, 3), inplace=True, scal=False, two=True, acc=False):
    """elementwise function fn(n,[alpha,]x[,y],r): r[i] = f(alpha,x[i],y[i](,r[i]))"""
    @item(iid, P, fn, bounded="sizes 0..3")
    def _(c):
        al = c.scalar("alpha") if scal else None
        for n in ns:
            x = c.vec("x%d_" % n, n + 1)
            y = c.vec("y%d_" % n, n + 1) if two else [0] * (n + 1)
            r0 = c.vec("r%d_" % n, n + 1)
            bx = c.inp(x)
            br = c.inout(r0)
            a = [n] + ([al] if scal else []) + [bx] + ([c.inp(y)] if two else []) + [br]
            c.call(fn, *a)
            c.eq("result (n=%d)" % n, br.get()[:n], [f(al, x[i], y[i], r0[i]) for i in range(n)])
            c.eq("past the end untouched", br.get()[n], r0[n])
            if inplace:
                bx = c.inout(x)
                c.call(fn, *([n] + ([al] if scal else []) + [bx] + ([c.inp(y)] if two else []) + [bx]))
                c.eq("in place (n=%d)" % n, bx.get()[:n], [f(al, x[i], y[i], x[i]) for i in range(n)])


vit("aa_la_vadd", "aa_la_vadd", lambda a, x, y, r: x + y)
vit("aa_la_vsub", "aa_la_vsub", lambda a, x, y, r: x - y)
vit("aa_la_vmul", "aa_la_vmul", lambda a, x, y, r: x * y)
vit("aa_la_sadd", "aa_la_sadd", lambda a, x, y, r: a + x, scal=True, two=False)
vit("aa_la_ssub", "aa_la_ssub", lambda a, x, y, r: a - x, scal=True, two=False)
vit("aa_la_smul", "aa_la_smul", lambda a, x, y, r: a * x, scal=True, two=False)
vit("aa_la_axpy", "aa_la_axpy", lambda a, x, y, r: r + a * x, scal=True, two=False, inplace=False)
vit("aa_la_axpy3", "aa_la_axpy3", lambda a, x, y, r: a * x + y, scal=True)
vit("aa_la_vinc", "aa_la_vinc", lambda a, x, y, r: r + x, two=False, inplace=False)


@item("aa_la_vdiv", P, "aa_la_vdiv aa_la_sdiv", bounded="sizes 0..3")
def _(c):
    al = c.scalar("alpha")
    for n in range(4):
        x, y, z = c.vec("x%d_" % n, n), c.vec("y%d_" % n, n), c.vec("z%d_" % n, n)
        for v in y + z:
            c.req(v, "!=")
        r = c.out(n)
        c.call("aa_la_vdiv", n, c.inp(x), c.inp(y), r)
        c.eq("x/y", r.get(), [a / b for a, b in zip(x, y)])
        r = c.out(n)
        c.call("aa_la_sdiv", n, al, c.inp(z), r)
        c.eq("a/z", r.get(), [al / b for b in z])


def scalit(fn, f):
    @item(fn, P, fn, bounded="sizes 0..3")
    def _(c):
        al = c.scalar("alpha")
        for n in range(4):
            x = c.vec("x%d_" % n, n + 1)
            b = c.inout(x)
            c.call(fn, n, al, b)
            c.eq("result", b.get(), [f(al, v) for v in x[:n]] + [x[n]])


scalit("aa_la_sinc", lambda a, v: v + a)
scalit("aa_la_scal", lambda a, v: v * a)


def extremum(fn, sgn, n):
    @item("%s.n%d" % (fn, n), P, fn, bounded="size %d" % n)
    def _(c):
        x = c.vec("x", n, bound=10 ** 6)
        r = c.call(fn, n, c.inp(x), ret="d")
        for v in x:
            c.cmp("bound", sgn * (r - v), ">=")
        t = 1
        for v in x:
            t = t * (r - v)
        c.eq("attained", t, 0)


for _n in (1, 2, 3):
    extremum("aa_la_max", 1, _n)
    extremum("aa_la_min", -1, _n)


@item("aa_la_dot", P, "aa_la_dot aa_la_norm", bounded="sizes 0..3")
def _(c):
    for n in range(4):
        x, y = c.vec("x%d_" % n, n), c.vec("y%d_" % n, n)
        c.eq("dot", c.call("aa_la_dot", n, c.inp(x), c.inp(y), ret="d"), S([a * b for a, b in zip(x, y)]))
        r = c.call("aa_la_norm", n, c.inp(x), ret="d")
        c.eq("norm squared", r * r, S([a * a for a in x]))
        c.cmp("norm sign", r, ">=")


@item("aa_la_dist", P, "aa_la_ssd aa_la_dist aa_la_d_ssd", bounded="sizes 0..3")
def _(c):
    for n in range(4):
        x, y = c.vec("x%d_" % n, n), c.vec("y%d_" % n, n)
        w = S([(a - b) * (a - b) for a, b in zip(x, y)])
        c.eq("ssd", c.call("aa_la_ssd", n, c.inp(x), c.inp(y), ret="d"), w)
        r = c.call("aa_la_dist", n, c.inp(x), c.inp(y), ret="d")
        c.eq("dist squared", r * r, w)
        c.cmp("dist sign", r, ">=")
        for ix, iy in ((1, 2), (3, 1), (2, 2)):
            X_, Y_ = c.vec("X%d%d%d_" % (n, ix, iy), n * ix + 1), c.vec("Y%d%d%d_" % (n, ix, iy), n * iy + 1)
            c.eq("strided ssd", c.call("aa_la_d_ssd", n, c.inp(X_), ix, c.inp(Y_), iy, ret="d"),
                 S([(X_[i * ix] - Y_[i * iy]) * (X_[i * ix] - Y_[i * iy]) for i in range(n)]))


@item("aa_la_cross", P, "aa_la_cross")
def _(c):
    a, b = c.vec("a", 3), c.vec("b", 3)
    r = c.out(3)
    c.call("aa_la_cross", c.inp(a), c.inp(b), r)
    c.eq("a x b", r.get(), cross(a, b))


@item("aa_la_normalize", P, "aa_la_normalize", bounded="sizes 1..3")
def _(c):
    for n in (1, 2, 3):
        x = c.vec("x%d_" % n, n)
        c.req(dot(x, x), ">")
        b = c.inout(x)
        c.call("aa_la_normalize", n, b)
        r = b.get()
        c.eq("unit length", dot(r, r), 1)
        c.eq("direction", scale(norm(x), r), x)


@item("aa_la_transpose2", P, "aa_la_transpose2 aa_la_transpose aa_la_d_transpose", bounded="sizes up to 3x3")
def _(c):
    for m in (0, 1, 2, 3):
        for n in (0, 1, 2, 3):
            A = c.vec("A%d%d_" % (m, n), m * n)
            b = c.out(m * n)
            c.call("aa_la_transpose2", m, n, c.inp(A), b)
            c.eq("transpose %dx%d" % (m, n), b.get(), [col(A, m, i, j) for i in range(m) for j in range(n)])
            if m == n:
                b = c.inout(A)
                c.call("aa_la_transpose", n, b)
                c.eq("in place %d" % n, b.get(), [col(A, m, i, j) for i in range(m) for j in range(n)])
            for la, lb in ((m, n + 1), (m + 2, n), (m + 1, n + 2), (2 * m + 1, 2 * n + 1)):
                A2 = c.vec("B%d%d%d%d_" % (m, n, la, lb), la * n)
                o0 = c.vec("O%d%d%d%d_" % (m, n, la, lb), lb * m)
                b = c.inout(o0)
                c.call("aa_la_d_transpose", m, n, c.inp(A2), la, b, lb)
                c.eq("strided transpose %dx%d" % (m, n), b.get(),
                     [col(A2, la, i, j) if j < n else o0[j + lb * i] for i in range(m) for j in range(lb)])


@item("aa_la_trace", P, "aa_la_trace", bounded="sizes 0..4")
def _(c):
    for n in range(5):
        A = c.vec("A%d_" % n, n * n)
        c.eq("trace %d" % n, c.call("aa_la_trace", n, c.inp(A), ret="d"), S([A[i * (n + 1)] for i in range(n)]))


@item("aa_la_wdot", P, "aa_la_wdot", bounded="sizes 0..3")
def _(c):
    for n in range(4):
        A, x, y = c.vec("A%d_" % n, n * n), c.vec("x%d_" % n, n), c.vec("y%d_" % n, n)
        c.eq("x'Ay", c.call("aa_la_wdot", n, c.inp(x), c.inp(A), c.inp(y), ret="d"),
             S([x[i] * A[i + n * j] * y[j] for i in range(n) for j in range(n)]))


@item("aa_la_det3x3", P, "aa_la_det3x3")
def _(c):
    A = c.vec("A", 9)
    c.eq("det", c.call("aa_la_det3x3", c.inp(A), ret="d"), dot(A[:3], cross(A[3:6], A[6:9])))


def matm(A, B, m, k, n):
    return [S([A[i + m * p] * B[p + k * j] for p in range(k)]) for j in range(n) for i in range(m)]


def Tm(A, m, n): return [A[i + m * j] for i in range(m) for j in range(n)]


SH = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]


@item("aa_la_inv", P, "aa_la_inv aa_la_inv_", bounded="sizes 1..3")
def _(c):
    for n in (1, 2, 3):
        A = c.vec("A%d_" % n, n * n)
        d = A[0] if n == 1 else A[0] * A[3] - A[1] * A[2] if n == 2 else dot(A[:3], cross(A[3:6], A[6:9]))
        c.req(d, "!=")
        if not c.symbolic and abs(d) < 1e-3:
            continue
        b = c.inout(A)
        c.isint("info", c.call("aa_la_inv", n, b, ret="i"), 0)
        c.eq("A inv", matm(A, b.get(), n, n, n), eye(n), ntol=1e-5)
        b = c.inout(A)
        c.isint("info", c.call("aa_la_inv_", c.ints([n], size=4), b, ret="i"), 0)
        c.eq("A inv (Fortran)", matm(A, b.get(), n, n, n), eye(n), ntol=1e-5)


def gram(A, m, n): return matm(A, Tm(A, m, n), m, n, m)


def psd(c, A, m, n, k):
    """the damped Gram matrix is positive definite; stated as the facts its
    Cholesky factorisation needs"""
    return [g + (k if i == j else 0) for (i, j, g) in [(q % m, q // m, v) for q, v in enumerate(gram(A, m, n))]]


for _m, _n in SH:
    def _mk(m, n):
        @item("aa_la_dpinv.%dx%d" % (m, n), P, "aa_la_dpinv aa_la_dls", bounded="%dx%d" % (m, n), cost=4,
              partial="the divisor is the determinant of A A' + k I with k > 0, positive definite by construction")
        def _(c):
            A, k, b = c.vec("A", m * n), c.scalar("k", pos=True), c.vec("b", m)
            o = c.out(n * m)
            c.call("aa_la_dpinv", m, n, k, c.inp(A), o)
            G = psd(c, A, m, n, k)
            c.eq("A* (A A' + k I) = A'", matm(o.get(), G, n, m, m), Tm(A, m, n), ntol=1e-5)
            y = c.out(n)
            c.call("aa_la_dls", m, n, k, c.inp(A), c.inp(b), y)
            c.eq("y = A* b", y.get(), matm(o.get(), b, n, m, 1), ntol=1e-5)

        @item("aa_la_xlsnp.%dx%d" % (m, n), P, "aa_la_np aa_la_xlsnp", bounded="%dx%d" % (m, n))
        def _(c):
            A, As, x, yp = c.vec("A", m * n), c.vec("As", m * n), c.vec("x", m), c.vec("yp", n)
            B = c.out(n * n)
            c.call("aa_la_np", m, n, c.inp(A), c.inp(As), B)
            N_ = [v - (1 if q % n == q // n else 0) for q, v in enumerate(matm(As, A, n, m, n))]
            c.eq("A*A - I", B.get(), N_)
            y = c.out(n)
            c.call("aa_la_xlsnp", m, n, c.inp(A), c.inp(As), c.inp(x), c.inp(yp), y)
            c.eq("A*x - (A*A - I) yp", y.get(), sub(matm(As, x, n, m, 1), matm(N_, yp, n, n, 1)))
    _mk(_m, _n)


@item("aa_la_dlsnp", P, "aa_la_dlsnp", bounded="1x2, 2x2", cost=3,
      partial="the divisor is the determinant of A A' + k I with k > 0, positive definite by construction")
def _(c):
    for m, n in ((1, 2), (2, 2)):
        t = "%d%d" % (m, n)
        A, k, x, yp = c.vec("A" + t, m * n), c.scalar("k" + t, pos=True), c.vec("x" + t, m), c.vec("yp" + t, n)
        o, y = c.out(n * m), c.out(n)
        c.call("aa_la_dpinv", m, n, k, c.inp(A), o)
        c.call("aa_la_dlsnp", m, n, k, c.inp(A), c.inp(x), c.inp(yp), y)
        As = o.get()
        N_ = [v - (1 if q % n == q // n else 0) for q, v in enumerate(matm(As, A, n, m, n))]
        c.eq("A*x + (I - A*A) yp", y.get(), sub(matm(As, x, n, m, 1), matm(N_, yp, n, n, 1)), ntol=1e-5)


def rot2(c, nm):
    u = c.unit(nm, 2)
    return [[u[0], -u[1]], [u[1], u[0]]]


def orth(c, nm, n):
    if n == 1:
        return [[1]]
    if n == 2:
        return rot2(c, nm)
    q = c.unit(nm, 4)
    R = rotmat(q)
    return [[R[i + 3 * j] for j in range(3)] for i in range(3)]


def svdin(c, m, n, pos=False, dmin=None):
    """(A column-major list, U rows, s, Vt rows) for an arbitrary matrix given by its decomposition"""
    U, Vt = orth(c, "U", m), orth(c, "V", n)
    k = min(m, n)
    s = []
    x = c.scalar("s%d" % (k - 1), **({"pos": True} if pos else {"nonneg": True}))
    s = [x]
    for i in range(k - 2, -1, -1):
        x = x + c.scalar("s%d" % i, nonneg=True)
        s = [x] + s
    A = [S([U[i][p] * s[p] * Vt[p][j] for p in range(k)]) for j in range(n) for i in range(m)]
    return A, U, s, Vt


def flat(M): return [M[i][j] for j in range(len(M[0])) for i in range(len(M))]


for _m, _n in SH:
    def _mk(m, n):
        k = min(m, n)

        @item("aa_la_svd.%dx%d" % (m, n), P, "aa_la_svd aa_la_d_svd", bounded="%dx%d" % (m, n))
        def _(c):
            A, U, s, Vt = svdin(c, m, n)
            for ld in (m, m + 1):
                full = []
                pad = c.vec("pad%d" % ld, n) if ld > m else []
                for j in range(n):
                    full += A[m * j:m * j + m] + ([pad[j]] if ld > m else [])
                c.ghost("svd", (U, s, Vt))
                bu, bs, bv = c.out(m * m), c.out(k), c.out(n * n)
                if ld == m:
                    r = c.call("aa_la_svd", m, n, c.inp(full), bu, bs, bv, ret="i")
                else:
                    r = c.call("aa_la_d_svd", m, n, c.inp(full), ld, bu, m, bs, bv, n, ret="i")
                c.isint("info", r, 0)
                u, sv, v = bu.get(), bs.get(), bv.get()
                c.eq("singular values", sv, s)
                c.eq("U S V'", [S([u[i + m * p] * sv[p] * v[p + n * j] for p in range(k)]) for j in range(n) for i in range(m)], A)
                c.eq("U orthogonal", matm(Tm(u, m, m), u, m, m, m), eye(m))
                c.eq("V orthogonal", matm(Tm(v, n, n), v, n, n, n), eye(n))
            bs = c.out(k)
            c.isint("info", c.call("aa_la_d_svd", m, n, c.inp(full), m + 1, c.null(), 0, bs, c.null(), 0, ret="i"), 0)
            c.eq("singular values only", bs.get(), s)

        @item("aa_la_dzdpinv.%dx%d" % (m, n), P, "aa_la_dzdpinv", bounded="%dx%d" % (m, n))
        def _(c):
            A, U, s, Vt = svdin(c, m, n)
            mn = c.scalar("s2min", pos=True)
            c.ghost("svd", (U, s, Vt))
            o = c.out(n * m)
            c.call("aa_la_dzdpinv", m, n, mn, c.inp(A), o)
            r = o.get()
            # V' A* U is diagonal with s / max(s^2, min)
            for p in range(n):
                for q in range(m):
                    e = S([Vt[p][j] * r[j + n * i] * U[i][q] for i in range(m) for j in range(n)])
                    if p != q:
                        c.eq("off-diagonal", e, 0, ntol=1e-6)
                    else:
                        c.eq("s/s2 or s/min", (e * s[p] - 1) * (e * mn - s[p]), 0, ntol=1e-5)
                        c.cmp("not more than the undamped inverse", 1 - e * s[p], ">=", ntol=1e-6)
                        c.cmp("not more than the floor allows", s[p] - e * mn, ">=", ntol=1e-6)
    _mk(_m, _n)


for _m, _n in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 2)):
    def _mk(m, n):
        @item("aa_la_d_lls.%dx%d" % (m, n), P, "aa_la_lls aa_la_d_lls", bounded="%dx%d, 2 right-hand sides" % (m, n),
              partial="full rank is the contract's precondition")
        def _(c):
            p = 2
            A, b = c.vec("A", (m + 1) * n), c.vec("b", (m + 1) * p)
            A0 = [A[i + (m + 1) * j] for j in range(n) for i in range(m)]
            b0 = [b[i + (m + 1) * j] for j in range(p) for i in range(m)]
            G = matm(Tm(A0, m, n), A0, n, m, n) if m >= n else gram(A0, m, n)
            w = min(m, n)
            d = G[0] if w == 1 else G[0] * G[3] - G[1] * G[2]
            c.req(d, "!=")
            if not c.symbolic and abs(d) < 1e-2:
                return
            x0 = c.vec("x", (n + 1) * p)
            ox = c.inout(x0)
            c.isint("info", c.call("aa_la_d_lls", m, n, p, c.inp(A), m + 1, c.inp(b), m + 1, ox, n + 1, ret="i"), 0)
            x1 = ox.get()
            x = [x1[i + (n + 1) * j] for j in range(p) for i in range(n)]
            c.eq("gap", [x1[n + (n + 1) * j] for j in range(p)], [x0[n + (n + 1) * j] for j in range(p)])
            r = sub(matm(A0, x, m, n, p), b0)
            c.eq("normal equations", matm(Tm(A0, m, n), r, n, m, p), [0] * (n * p), ntol=1e-5)
            o2 = c.out(n * p)
            c.call("aa_la_lls", m, n, p, c.inp(A0), c.inp(b0), o2)
            c.eq("packed", o2.get(), x, ntol=1e-6)
    _mk(_m, _n)


@item("aa_la_d_qr", P, "aa_la_d_qr", bounded="2x2, 3x2, 2x3")
def _(c):
    for m, n in ((2, 2), (3, 2), (2, 3)):
        t = "%d%d" % (m, n)
        Q = orth(c, "Q" + t, m)
        R = [[c.scalar("r%s%d%d" % (t, i, j)) if i <= j else 0 for j in range(n)] for i in range(m)]
        A = [S([Q[i][p] * R[p][j] for p in range(m)]) for j in range(n) for i in range(m)]
        for ld in (m, m + 1):
            full = []
            for j in range(n):
                full += A[m * j:m * j + m] + [7] * (ld - m)
            c.ghost("qr", (Q, R))
            q0, r0 = c.vec("q0%s%d_" % (t, ld), m * ld), c.vec("r0%s%d_" % (t, ld), n * ld)
            bq, br = c.inout(q0), c.inout(r0)
            c.isint("info", c.call("aa_la_d_qr", m, n, c.inp(full), ld, bq, ld, br, ld, ret="i"), 0)
            q, r = bq.get(), br.get()
            qq = [q[i + ld * j] for j in range(m) for i in range(m)]
            rr = [r[i + ld * j] for j in range(n) for i in range(m)]
            c.eq("Q R = A", matm(qq, rr, m, m, n), A)
            c.eq("Q orthogonal", matm(Tm(qq, m, m), qq, m, m, m), eye(m))
            c.eq("R upper triangular", [rr[i + m * j] for j in range(n) for i in range(j + 1, m)], [0] * len([1 for j in range(n) for i in range(j + 1, m)]))
            c.eq("gap", [q[m + ld * j] for j in range(m) if ld > m] + [r[m + ld * j] for j in range(n) if ld > m],
                 [q0[m + ld * j] for j in range(m) if ld > m] + [r0[m + ld * j] for j in range(n) if ld > m])


@item("aa_la_linterp", P, "aa_la_linterp aa_la_d_lerp", bounded="sizes 0..3")
def _(c):
    t0, dt, ti, u = c.scalar("t0"), c.scalar("dt"), c.scalar("ti"), c.scalar("u")
    c.req(dt, "!=")
    for n in range(4):
        X0, X1 = c.vec("X%d_" % n, n), c.vec("Y%d_" % n, n)
        o = c.out(n)
        c.call("aa_la_linterp", n, t0, c.inp(X0), t0 + dt, c.inp(X1), ti, o)
        c.eq("line through both points", o.get(), [a + (b - a) * (ti - t0) / dt for a, b in zip(X0, X1)], ntol=1e-5)
        for i1, i2, i3 in ((2, 1, 3), (1, 3, 2)):
            t = "%d%d%d%d" % (n, i1, i2, i3)
            A, B, O = c.vec("A" + t, n * i1 + 1), c.vec("B" + t, n * i2 + 1), c.vec("O" + t, n * i3 + 1)
            b = c.inout(O)
            c.call("aa_la_d_lerp", n, u, c.inp(A), i1, c.inp(B), i2, b, i3)
            c.eq("strided", b.get(), [(1 - u) * A[i // i3 * i1] + u * B[i // i3 * i2] if i % i3 == 0 and i // i3 < n else O[i]
                                      for i in range(n * i3 + 1)])


def quad_t(c):
    t0, d1, d2, ti = c.scalar("t0"), c.scalar("d1"), c.scalar("d2"), c.scalar("ti")
    for e in (d1, d2, d1 - d2):
        c.req(e, "!=")
        if not c.symbolic and abs(e) < .1:
            from ..num import Skip
            raise Skip()
    return t0, t0 + d1, t0 + d2, ti


@item("aa_la_quadterp", P, "aa_la_quadterp", bounded="sizes 0..2")
def _(c):
    t0, t1, t2, ti = quad_t(c)
    for n in range(3):
        A = c.vec("A%d_" % n, 3 * n)
        q = lambda t: [A[3 * i] + A[3 * i + 1] * t + A[3 * i + 2] * t * t for i in range(n)]
        o = c.out(n)
        c.call("aa_la_quadterp", n, t0, c.inp(q(t0)), t1, c.inp(q(t1)), t2, c.inp(q(t2)), ti, o)
        c.eq("parabola through the three points", o.get(), q(ti), ntol=1e-3)


@item("aa_la_quadterp_dx", P, "aa_la_quadterp_dx", bounded="sizes 0..2")
def _(c):
    t0, t1, t2, ti = quad_t(c)
    for n in range(3):
        A = c.vec("A%d_" % n, 3 * n)
        q = lambda t: [A[3 * i] + A[3 * i + 1] * t + A[3 * i + 2] * t * t for i in range(n)]
        o = c.out(n)
        c.call("aa_la_quadterp_dx", n, t0, c.inp(q(t0)), t1, c.inp(q(t1)), t2, c.inp(q(t2)), ti, o)
        c.eq("derivative of the parabola", o.get(), [A[3 * i + 1] + 2 * A[3 * i + 2] * ti for i in range(n)], ntol=1e-3)


@item("aa_la_point_plane", P, "aa_la_point_plane aa_la_plane_hessian", bounded="spaces of dimension 1..3")
def _(c):
    for n in (1, 2, 3):
        p, pl = c.vec("p%d_" % n, n), c.vec("h%d_" % n, n + 1)
        nn = dot(pl[:n], pl[:n])
        c.req(nn, ">")
        if not c.symbolic and nn < 1e-4:
            continue
        d = c.call("aa_la_point_plane", n, c.inp(p), c.inp(pl), ret="d")
        c.eq("signed distance", d * norm(pl[:n]), dot(p, pl[:n]) + pl[n], ntol=1e-6)
        b = c.inout(pl)
        c.call("aa_la_plane_hessian", n + 1, b)
        h = b.get()
        c.eq("unit normal", dot(h[:n], h[:n]), 1)
        c.eq("same plane", scale(norm(pl[:n]), h), pl, ntol=1e-6)


@item("aa_la_plane_fit", P, "aa_la_plane_fit aa_la_d_colfit", bounded="2 points in the plane",
      partial="points in general position (full rank) is the precondition")
def _(c):
    A = c.vec("A", 6)
    pts = [A[0], A[1], A[3], A[4]]
    d = pts[0] * pts[3] - pts[1] * pts[2]
    c.req(d, "!=")
    if not c.symbolic and abs(d) < 1e-2:
        return
    for ld, buf in ((2, pts), (3, A)):
        o = c.out(3)
        if ld == 2:
            c.call("aa_la_plane_fit", 2, 2, c.inp(buf), o)
        else:
            c.call("aa_la_d_colfit", 2, 2, c.inp(buf), 3, o)
        h = o.get()
        c.eq("unit normal", dot(h[:2], h[:2]), 1)
        c.eq("first point on the plane", dot(h[:2], pts[:2]) + h[2], 0)
        c.eq("second point on the plane", dot(h[:2], pts[2:]) + h[2], 0)


@item("aa_la_d_colmean", P, "aa_la_d_colmean aa_la_d_rowmean", bounded="sizes up to 3x3")
def _(c):
    for m, n in SH + [(3, 3)]:
      for ld in (m, m + 1, 2 * m + 1):
        A = c.vec("A%d%d%d_" % (m, n, ld), ld * n)
        x, y = c.out(m), c.out(n)
        c.call("aa_la_d_colmean", m, n, c.inp(A), ld, x)
        c.eq("mean of columns", x.get(), [S([A[i + ld * j] for j in range(n)]) / n for i in range(m)])
        c.call("aa_la_d_rowmean", m, n, c.inp(A), ld, y)
        c.eq("mean of rows", y.get(), [S([A[i + ld * j] for i in range(m)]) / m for j in range(n)])


@item("aa_la_d_colcov", P, "aa_la_d_colcov", bounded="sizes up to 3x3")
def _(c):
    for m, n in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2)):
        for lda, lde in ((m, m), (m + 1, m + 1), (m, 2 * m + 1), (2 * m + 1, m), (3 * m + 2, m + 1)):
            t = "%d%d%d%d" % (m, n, lda, lde)
            A, x, E0 = c.vec("A" + t, lda * n), c.vec("x" + t, m), c.vec("E" + t, lde * m)
            e = c.inout(E0)
            c.call("aa_la_d_colcov", m, n, c.inp(A), lda, c.inp(x), e, lde)
            c.eq("covariance %dx%d" % (m, n), e.get(), [S([(A[i + lda * k] - x[i]) * (A[j + lda * k] - x[j]) for k in range(n)]) / (n - 1)
                 if i < m else E0[i + lde * j] for j in range(m) for i in range(lde)])


@item("aa_la_d_vecstd", P, "aa_la_d_vecstd", bounded="sizes 2..4")
def _(c):
    for n, inc in ((2, 1), (3, 2), (4, 1)):
        x, mu = c.vec("x%d_" % n, n * inc), c.scalar("mu%d" % n)
        r = c.call("aa_la_d_vecstd", n, c.inp(x), inc, mu, ret="d")
        c.eq("variance", r * r * (n - 1), S([(x[i * inc] - mu) * (x[i * inc] - mu) for i in range(n)]))
        c.cmp("sign", r, ">=")


for _n in (2, 3):
    def _mk(n):
        @item("aa_la_d_angle.%d" % n, P, "aa_la_d_angle", bounded="size %d" % n)
        def _(c):
            x, y = c.vec("x", n), c.vec("y", n)
            c.req(dot(x, x), ">"); c.req(dot(y, y), ">")
            r = c.call("aa_la_d_angle", n, c.inp(x), 1, c.inp(y), 1, ret="d")
            c.eq("cosine", norm(x) * norm(y) * cos(r), dot(x, y), ntol=1e-6)
            c.cmp("at least 0", r, ">=")
            c.cmp("at most a half turn", c.pi - r, ">=")
    _mk(_n)


for _n in (0, 1, 2, 3):
    def _mk(n):
        @item("aa_la_d_median.%d" % n, P, "aa_la_d_median aa_la_d_nmedian", bounded="size %d" % n)
        def _(c):
            x = c.vec("x", 2 * n, bound=10 ** 6)
            v = x[::2]
            r = c.call("aa_la_d_median", n, c.inp(x), 2, ret="d")
            median(c, r, v)

        if n:
            @item("aa_la_d_mad.%d" % n, P, "aa_la_d_mad aa_la_d_mad2", bounded="size %d" % n)
            def _(c):
                x, u = c.vec("x", 2 * n, bound=10 ** 6), c.scalar("u", bound=10 ** 6)
                v = x[::2]
                r = c.call("aa_la_d_mad", n, u, c.inp(x), 2, ret="d")
                c.cmp("sign", r, ">=")
                if n < 3:
                    m = [c.vec("m%d_" % j, 2, bound=10 ** 3) for j in range(n)]
                    w = c.vec("w", 2, bound=10 ** 3)
                    r2 = c.call("aa_la_d_mad2", 2, n, c.inp(w), c.inp([e for j in m for e in j + [0]]), 3, ret="d")
                    c.cmp("sign, vectors", r2, ">=")
                    if n == 1:
                        c.eq("distance", r2 * r2, (w[0] - m[0][0]) * (w[0] - m[0][0]) + (w[1] - m[0][1]) * (w[1] - m[0][1]), ntol=1e-5)
                # the median of |u - x| squared is the median of (u - x)^2
                if n != 2:
                    median(c, r * r, [(u - a) * (u - a) for a in v], ntol=1e-5)
    _mk(_n)


def median(c, r, v, **kw):
    n = len(v)
    if n == 0:
        c.eq("empty", r, 0)
        return
    if n == 2:
        c.eq("midpoint", 2 * r, v[0] + v[1], **kw)
        return
    t = 1
    for a in v:
        t = t * (r - a)
    c.eq("one of the values", t, 0, ntol=1)
    if n == 3:
        d = [r - a for a in v]
        c.cmp("between the others", -(d[0] * d[1] + d[1] * d[2] + d[0] * d[2]), ">=", **kw)


@item("aa_la_d_minloc", P, "amv_d_minloc amv_d_maxloc", bounded="size 3, strides 1 and 2")
def _(c):
    for inc in (1, 2):
        x = c.vec("x%d_" % inc, 3 * inc)
        v = x[::inc]
        k = c.call("amv_d_minloc", 3, c.inp(x), inc)
        for a in v:
            c.cmp("smallest", a - v[k], ">=")
        k = c.call("amv_d_maxloc", 3, c.inp(x), inc)
        for a in v:
            c.cmp("largest", v[k] - a, ">=")


def compit(fn, mk):
    @item(fn, P, fn)
    def _(c):
        a, b = c.scalar("a"), c.scalar("b")
        if not c.symbolic and abs(a - b) < 1e-5 * (abs(a) + abs(b)):
            b = a
        r = c.call(fn, mk(c)([a]), mk(c)([b]), ret="i")
        c.true("three-way result", r in (-1, 0, 1))
        if r == 0:
            c.cmp("not above", b - a, ">=")
            c.cmp("not below", a - b, ">=")
        else:
            c.cmp("order", r * (a - b), ">")


compit("aa_la_d_compar", lambda c: c.inp)
compit("aa_la_s_compar", lambda c: c.finp)


# ---------------------------------------------------------------- optimal assignment
BIG = 10 ** 300                                  # costs are far from the overflow threshold


def mk_assign(m, n, lda, limit=300, maximise=False, base=None, nm=""):
    from itertools import permutations

    @item("L03.%s.%dx%d.ld%d%s" % ("max" if maximise else "min", m, n, lda, nm), "L03",
          "aa_la_d_assign_hungarian" + (" aa_la_d_assign_hungarian_max2min" if maximise else ""),
          bounded="%d by %d, leading dimension %d%s" % (m, n, lda, "" if base is None else ", costs %s plus a real shift, x and y any reals" % base), timeout=limit)
    def _(c):
        """every row or every column, whichever are fewer, is matched to a different partner, at the least total cost"""
        if base is None:
            A = c.vec("a", lda * n)
            for v in A:
                c.req(BIG - v, ">")
                c.req(BIG + v, ">")
        else:                                    # base is given by rows
            sh, xy = c.scalar("shift"), {}
            A = c.vec("pad", lda * n)
            for i, row in enumerate(base.split("/")):
                for j, e in enumerate(row.split()):
                    A[i + lda * j] = sh + (int(e) if e[-1].isdigit() else xy.setdefault(e, c.scalar(e)))
            for v in [sh] + list(xy.values()):
                c.req(BIG - v, ">")
                c.req(BIG + v, ">")
        C = lambda i, j: A[i + lda * j]
        r, k = c.ints([77] * m, ro=False), c.ints([77] * n, ro=False)
        if maximise:
            b = c.inout(A)
            c.call("aa_la_d_assign_hungarian_max2min", m, n, b, lda)
            c.eq("padding rows keep their values", [b.get()[i + lda * j] for j in range(n) for i in range(m, lda)], [A[i + lda * j] for j in range(n) for i in range(m, lda)])
        else:
            b = c.inp(A)
        c.call("aa_la_d_assign_hungarian", m, n, b, lda, r, k)
        rs, ks = r.ints(), k.ints()
        rs, ks = [[x - 2 ** 64 if x >= 2 ** 63 else x for x in v] for v in (rs, ks)]
        q = min(m, n)
        c.true("matched pairs agree", sum(1 for x in rs if x != -1) == q and sum(1 for x in ks if x != -1) == q and
               all(x == -1 or 0 <= x < n and ks[x] == i for i, x in enumerate(rs)))
        cost = sum((C(i, x) for i, x in enumerate(rs) if 0 <= x < n), c.lift(0))
        for p in permutations(range(max(m, n)), q):
            other = sum((C(i, j) if m <= n else C(j, i) for i, j in enumerate(p)), c.lift(0))
            c.cmp("no assignment is better", cost - other if maximise else other - cost, ">=")


for m, n, lda in ((1, 1, 1), (1, 2, 1), (2, 1, 3), (2, 2, 2), (2, 2, 3)):
    mk_assign(m, n, lda)
mk_assign(2, 2, 3, maximise=True)
for k, (m, n, lda, b) in enumerate((
        (3, 3, 3, "0 0 0/0 1 x/0 2 4"),       # one cover step
        (3, 3, 4, "0 0 0/0 x 2/0 3 4"),
        (3, 3, 3, "x 0 0/0 1 2/0 2 4"),
        (3, 3, 3, "1 2 3/2 4 6/3 6 x"),       # several cover steps
        (3, 3, 3, "7 5 9/8 x 3/2 4 6"),
        (4, 4, 4, "1 2 3 4/2 4 6 8/3 6 9 12/4 8 12 x"),
        (4, 4, 4, "0 0 1 1/0 0 1 1/x 5 0 2/5 3 0 4"),
        (2, 3, 2, "5 2 3/4 x 1"),
        (2, 3, 3, "-5 -2 x/-4 -1 -1"),
        (3, 2, 3, "1 2/3 x/-2 -3"),
        (1, 3, 1, "1 x 3"),
        (3, 1, 4, "1/x/-4"))):
    mk_assign(m, n, lda, base=b, nm=".%d" % k)
mk_assign(3, 3, 3, maximise=True, base="7 5 9/8 x 3/2 4 6", nm=".m")
