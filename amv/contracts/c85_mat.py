"""L02: vector and matrix views (src/mat.c, include/amino/mat.h)"""
from ..spec import item
from ..ops import *
from .c80_la import S, matm, Tm, orth, svdin, SH, gram

P = "L02"


class V:
    """a strided view over a buffer with gaps; every buffer element is arbitrary"""
    def __init__(self, c, nm, n, inc, ro=False, extra=1):
        self.c = c; self.n = n; self.inc = inc
        self.all = c.vec(nm, n * inc + extra)
        self.buf = (c.inp if ro else c.inout)(self.all)
        self.d = c.dvec(n, self.buf, inc, ro=True)

    def vals(self): return [self.all[i * self.inc] for i in range(self.n)]

    def now(self):
        b = self.buf.get()
        return [b[i * self.inc] for i in range(self.n)]

    def want(self, label, vals, **kw):
        """elements equal vals; everything else in the buffer untouched"""
        w = list(self.all)
        for i, v in enumerate(vals):
            w[i * self.inc] = v
        self.c.eq(label, self.buf.get(), w, **kw)


class M:
    def __init__(self, c, nm, m, n, ld, ro=False, extra=1, vals=None):
        self.c = c; self.m = m; self.n = n; self.ld = ld
        self.all = list(c.vec(nm, ld * n + extra))
        if vals is not None:
            for j in range(n):
                for i in range(m):
                    self.all[i + ld * j] = vals[i + m * j]
        self.buf = (c.inp if ro else c.inout)(self.all)
        self.d = c.dmat(m, n, self.buf, ld, ro=True)

    def vals(self): return [self.all[i + self.ld * j] for j in range(self.n) for i in range(self.m)]

    def now(self):
        b = self.buf.get()
        return [b[i + self.ld * j] for j in range(self.n) for i in range(self.m)]

    def want(self, label, vals, **kw):
        w = list(self.all)
        for j in range(self.n):
            for i in range(self.m):
                w[i + self.ld * j] = vals[i + self.m * j]
        self.c.eq(label, self.buf.get(), w, **kw)

    def want2(self, label):
        """gaps untouched"""
        b = self.buf.get()
        g = [k for k in range(len(self.all)) if k % self.ld >= self.m or k >= self.ld * self.n]
        self.c.eq(label, [b[k] for k in g], [self.all[k] for k in g])


VB = "lengths 0..3 and 5, strides 1..3 and 5"
MB = "sizes up to 3x3 and some up to 5, leading dimensions up to twice the rows + 2"
VS = [(n, a, b) for n in (0, 1, 2, 3) for a, b in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 3), (5, 1), (1, 5))] + [(5, 1, 1), (5, 2, 1), (5, 1, 3)]


def vbin(fn, f, scal=False, io2=True):
    @item(fn, P, fn, bounded=VB)
    def _(c):
        al = c.scalar("alpha")
        for n, ix, iy in VS:
            t = "%d%d%d_" % (n, ix, iy)
            x, y = V(c, "x" + t, n, ix), V(c, "y" + t, n, iy)
            c.call(fn, *(([al] if scal else []) + [x.d, y.d]))
            wx, wy = f(al, x.vals(), y.vals())
            x.want("first operand", wx)
            y.want("second operand", wy)
        x, y = V(c, "mx", 2, 1), V(c, "my", 3, 2)
        c.reports("sizes differ", fn, *(([al] if scal else []) + [x.d, y.d]), unchanged=[x.buf, y.buf])


vbin("aa_dvec_swap", lambda a, x, y: (y, x))
vbin("aa_dvec_copy", lambda a, x, y: (x, x))
vbin("aa_dvec_axpy", lambda a, x, y: (x, [a * p + q for p, q in zip(x, y)]), scal=True)


def vone(fn, f, order=0):
    @item(fn, P, fn, bounded=VB)
    def _(c):
        al = c.scalar("alpha")
        for n, ix, iy in VS:
            x = V(c, "x%d%d_" % (n, ix), n, ix)
            a = [al, x.d] if order == 0 else [x.d, al] if order == 1 else [x.d]
            c.call(fn, *a)
            x.want("elements", [f(al, v) for v in x.vals()])


vone("aa_dvec_scal", lambda a, v: a * v)
vone("aa_dvec_inc", lambda a, v: a + v)
vone("aa_dvec_set", lambda a, v: a, 1)
vone("aa_dvec_zero", lambda a, v: 0, 2)


@item("aa_dvec_dot", P, "aa_dvec_dot aa_dvec_nrm2 aa_dvec_ssd", bounded=VB)
def _(c):
    for n, ix, iy in VS:
        t = "%d%d%d_" % (n, ix, iy)
        x, y = V(c, "x" + t, n, ix, ro=True), V(c, "y" + t, n, iy, ro=True)
        xv, yv = x.vals(), y.vals()
        c.eq("dot", c.call("aa_dvec_dot", x.d, y.d, ret="d"), S([a * b for a, b in zip(xv, yv)]))
        c.eq("ssd", c.call("aa_dvec_ssd", x.d, y.d, ret="d"), S([(a - b) * (a - b) for a, b in zip(xv, yv)]))
        r = c.call("aa_dvec_nrm2", x.d, ret="d")
        c.eq("norm squared", r * r, S([a * a for a in xv]))
        c.cmp("norm sign", r, ">=")
    x, y = V(c, "mx", 3, 1), V(c, "my", 2, 2)
    c.reports("dot sizes differ", "aa_dvec_dot", x.d, y.d)
    c.reports("ssd sizes differ", "aa_dvec_ssd", x.d, y.d)


# ---- views
def rdv(c, s):
    """(len, data address as element index into buf, inc)"""
    return c.field(s, 0), c.field(s, 8), c.field(s, 16)


def viewgoal(c, label, s, buf, off, n, inc, n2=None):
    """the vector descriptor s views elements off, off+inc, ... of buf"""
    ln, p, ic = rdv(c, s)
    c.isint(label + " length", ln, n)
    c.true(label + " data", c.sameptr(p, buf, 8 * off))
    if n > 1:
        c.isint(label + " stride", ic, inc)


@item("aa_dvec_slice", P, "aa_dvec_slice aa_dvec_view", bounded=VB)
def _(c):
    x = V(c, "x", 6, 2, ro=True)
    for a in range(7):
        for b in range(a, 7):
            for st in (1, 2, 3):
                if (b - a) % st:
                    continue
                d = c.raw(24)
                c.call("aa_dvec_slice", x.d, a, b, st, d)
                viewgoal(c, "slice %d:%d:%d" % (a, b, st), d, x.buf, 2 * a, (b - a) // st, 2 * st)
    d = c.raw(24)
    c.reports("beyond the end", "aa_dvec_slice", x.d, 0, 7, 1, d, unchanged=[d])
    c.reports("reversed", "aa_dvec_slice", x.d, 3, 2, 1, d, unchanged=[d])
    c.call("aa_dvec_view", d, 3, x.buf, 2)
    viewgoal(c, "view", d, x.buf, 0, 3, 2)


@item("aa_dmat_views", P, "aa_dmat_row_vec aa_dmat_col_vec aa_dmat_diag_vec aa_dmat_block aa_dmat_view_block aa_dmat_view", bounded=MB)
def _(c):
    for m, n, ld in ((1, 1, 1), (2, 3, 2), (3, 2, 5), (3, 3, 4)):
        A = M(c, "A%d%d%d_" % (m, n, ld), m, n, ld, ro=True)
        for i in range(m):
            d = c.raw(24)
            c.call("aa_dmat_row_vec", A.d, i, d)
            viewgoal(c, "row %d" % i, d, A.buf, i, n, ld)
        for j in range(n):
            d = c.raw(24)
            c.call("aa_dmat_col_vec", A.d, j, d)
            viewgoal(c, "column %d" % j, d, A.buf, ld * j, m, 1)
        d = c.raw(24)
        c.call("aa_dmat_diag_vec", A.d, d)
        viewgoal(c, "diagonal", d, A.buf, 0, min(m, n), ld + 1)
        d = c.raw(24)
        c.reports("row out of range", "aa_dmat_row_vec", A.d, m, d, unchanged=[d])
        c.reports("column out of range", "aa_dmat_col_vec", A.d, n, d, unchanged=[d])
        for i in range(m):
            for j in range(n):
                for i2 in range(i + 1, m + 1):
                    for j2 in range(j + 1, n + 1):
                        for fn, args in (("aa_dmat_block", lambda d: (A.d, i, j, i2, j2, d)),
                                         ("aa_dmat_view_block", lambda d: (d, A.d, i, j, i2 - i, j2 - j))):
                            d = c.raw(32)
                            c.call(fn, *args(d))
                            lab = "block [%d:%d,%d:%d]" % (i, i2, j, j2)
                            c.isint(lab + " rows", c.field(d, 0), i2 - i)
                            c.isint(lab + " columns", c.field(d, 8), j2 - j)
                            c.true(lab + " data", c.sameptr(c.field(d, 16), A.buf, 8 * (i + ld * j)))
                            if j2 - j > 1:
                                c.isint(lab + " leading dimension", c.field(d, 24), ld)
        d = c.raw(32)
        for bad in ((0, 0, m + 1, n), (0, 0, m, n + 1), (m, 0, m, n), (0, n, m, n), (0, 0, 0, n), (0, 0, m, 0)):
            c.reports("block out of range", "aa_dmat_block", A.d, *bad, d, unchanged=[d])
        c.call("aa_dmat_view", d, m, n, A.buf, ld)
        c.true("view", [c.field(d, 0), c.field(d, 8), c.field(d, 24)] == [m, n, ld] and c.sameptr(c.field(d, 16), A.buf, 0))


@item("aa_dvec_alloc", P, "aa_dvec_malloc aa_dmat_malloc aa_dvec_mdup aa_dmat_mdup aa_dvec_dup aa_dmat_dup", bounded="lengths 0..3")
def _(c):
    reg = c.call("aa_mem_region_local_get")
    for n in range(4):
        p = c.call("aa_dvec_malloc", n)
        c.isint("length", c.ptrfield(p, 0), n)
        c.isint("stride", c.ptrfield(p, 16), 1)
        c.true("room for the elements", c.room(c.ptrfield(p, 8), 8 * n))
        x = V(c, "x%d_" % n, n, 2, ro=True)
        for fn, a in (("aa_dvec_mdup", (x.d,)), ("aa_dvec_dup", (reg, x.d))):
            p = c.call(fn, *a)
            c.isint("length", c.ptrfield(p, 0), n)
            c.isint("stride", c.ptrfield(p, 16), 1)
            c.eq("copy", c.deref(c.ptrfield(p, 8), n), x.vals())
    for m, n, ld in ((1, 1, 2), (2, 3, 3), (3, 2, 3)):
        A = M(c, "A%d%d" % (m, n), m, n, ld, ro=True)
        p = c.call("aa_dmat_malloc", m, n)
        c.true("room for the elements", c.room(c.ptrfield(p, 16), 8 * m * n))
        for fn, a in (("aa_dmat_mdup", (A.d,)), ("aa_dmat_dup", (reg, A.d))):
            p = c.call(fn, *a)
            c.true("shape", [c.ptrfield(p, k) for k in (0, 8, 24)] == [m, n, m])
            c.eq("copy", c.deref(c.ptrfield(p, 16), m * n), A.vals())


# ---- elementwise matrix operations
MS = [(m, n, m + a, m + b) for m in (1, 2, 3) for n in (1, 2, 3) for a, b in ((0, 0), (0, 2), (1, 0), (2, 1), (m + 1, m + 2))] + \
     [(5, 1, 7, 5), (1, 5, 1, 3), (4, 5, 4, 6), (5, 4, 6, 5)]


def mone(fn, f, args=1):
    @item(fn, P, fn, bounded=MB)
    def _(c):
        al, be = c.scalar("alpha"), c.scalar("beta")
        for m, n, la, lb in MS:
            A = M(c, "A%d%d%d_" % (m, n, la), m, n, la)
            c.call(fn, *([A.d] + [al, be][:args]))
            v = A.vals()
            A.want("elements %dx%d ld %d" % (m, n, la), [f(al, be, v[i + m * j], i == j) for j in range(n) for i in range(m)])


mone("aa_dmat_set", lambda a, b, v, d: b if d else a, 2)
mone("aa_dmat_zero", lambda a, b, v, d: 0, 0)
mone("aa_dmat_scal", lambda a, b, v, d: a * v)
mone("aa_dmat_inc", lambda a, b, v, d: a + v)


def mtwo(fn, f, args, shape=lambda m, n: (m, n), bad=((2, 3), (3, 2))):
    @item(fn, P, fn, bounded=MB)
    def _(c):
        al = c.scalar("alpha")
        for m, n, la, lb in MS:
            t = "%d%d%d%d_" % (m, n, la, lb)
            p, q = shape(m, n)
            A, B = M(c, "A" + t, m, n, la), M(c, "B" + t, p, q, lb + p - min(m, p))
            c.call(fn, *args(al, A.d, B.d))
            A.want("source unchanged", A.vals())
            B.want("result %dx%d" % (m, n), f(al, A.vals(), B.vals(), m, n))
        for (m, n) in bad:
            t = "%d%d_" % (m, n)
            p, q = shape(2, 2)
            A, B = M(c, "E" + t, m, n, 3), M(c, "F" + t, p, q, 3)
            c.reports("sizes differ", fn, *args(al, A.d, B.d), unchanged=[A.buf, B.buf])


mtwo("aa_dmat_copy", lambda a, A, B, m, n: A, lambda a, A, B: (A, B))
mtwo("aa_dmat_axpy", lambda a, A, B, m, n: [a * x + y for x, y in zip(A, B)], lambda a, A, B: (a, A, B))
mtwo("aa_dmat_trans", lambda a, A, B, m, n: Tm(A, m, n), lambda a, A, B: (A, B), shape=lambda m, n: (n, m))


@item("aa_dmat_lacpy", P, "aa_dmat_lacpy", bounded=MB)
def _(c):
    for u, keep in (("U", lambda i, j: i <= j), ("L", lambda i, j: i >= j), ("G", lambda i, j: True)):
        for m, n, la, lb in MS:
            t = "%s%d%d%d%d_" % (u, m, n, la, lb)
            A, B = M(c, "A" + t, m, n, la, ro=True), M(c, "B" + t, m, n, lb)
            c.call("aa_dmat_lacpy", c.ints([ord(u)], size=1), A.d, B.d)
            av, bv = A.vals(), B.vals()
            B.want("triangle " + u, [av[i + m * j] if keep(i, j) else bv[i + m * j] for j in range(n) for i in range(m)])


@item("aa_dmat_ssd", P, "aa_dmat_ssd aa_dmat_nrm2", bounded=MB)
def _(c):
    for m, n, la, lb in MS:
        t = "%d%d%d%d_" % (m, n, la, lb)
        A, B = M(c, "A" + t, m, n, la, ro=True), M(c, "B" + t, m, n, lb, ro=True)
        c.eq("ssd", c.call("aa_dmat_ssd", A.d, B.d, ret="d"), S([(a - b) * (a - b) for a, b in zip(A.vals(), B.vals())]))
        r = c.call("aa_dmat_nrm2", A.d, ret="d")
        c.eq("norm squared", r * r, S([a * a for a in A.vals()]))
        c.cmp("norm sign", r, ">=")
    for m, n in ((2, 3), (3, 2)):
        A, B = M(c, "E%d%d" % (m, n), m, n, 3), M(c, "F%d%d" % (m, n), 2, 2, 3)
        c.reports("sizes differ", "aa_dmat_ssd", A.d, B.d)


NT, TR = 111, 112


@item("aa_dmat_gemv", P, "aa_dmat_gemv", bounded=MB)
def _(c):
    al, be = c.scalar("alpha"), c.scalar("beta")
    for m, n, la, lb in MS:
        for tr in (NT, TR):
            t = "%d%d%d%d%d_" % (m, n, la, lb, tr)
            p, q = (m, n) if tr == NT else (n, m)
            A = M(c, "A" + t, m, n, la, ro=True)
            x, y = V(c, "x" + t, q, 2, ro=True), V(c, "y" + t, p, 3)
            c.call("aa_dmat_gemv", tr, al, A.d, x.d, be, y.d)
            op = A.vals() if tr == NT else Tm(A.vals(), m, n)
            y.want("alpha op(A) x + beta y", [al * u + be * v for u, v in zip(matm(op, x.vals(), p, q, 1), y.vals())])
    A = M(c, "E", 2, 3, 3, ro=True)
    for k, (tr, q, p) in enumerate(((NT, 2, 2), (NT, 3, 3), (TR, 3, 3), (TR, 2, 2))):
        x, y = V(c, "ex%d" % k, q, 1, ro=True), V(c, "ey%d" % k, p, 1)
        c.reports("sizes differ (%d)" % k, "aa_dmat_gemv", tr, al, A.d, x.d, be, y.d, unchanged=[y.buf])


@item("aa_dmat_gemm", P, "aa_dmat_gemm", bounded="sizes up to 3")
def _(c):
    al, be = c.scalar("alpha"), c.scalar("beta")
    for m, k, n in ((1, 1, 1), (2, 2, 2), (2, 3, 1), (1, 2, 3), (3, 1, 2)):
        for ta in (NT, TR):
            for tb in (NT, TR):
                t = "%d%d%d%d%d_" % (m, k, n, ta, tb)
                ra, ca = (m, k) if ta == NT else (k, m)
                rb, cb = (k, n) if tb == NT else (n, k)
                A, B = M(c, "A" + t, ra, ca, ra + 1, ro=True), M(c, "B" + t, rb, cb, rb + 2, ro=True)
                C = M(c, "C" + t, m, n, m + 1)
                c.call("aa_dmat_gemm", ta, tb, al, A.d, B.d, be, C.d)
                a = A.vals() if ta == NT else Tm(A.vals(), ra, ca)
                b = B.vals() if tb == NT else Tm(B.vals(), rb, cb)
                C.want("alpha op(A) op(B) + beta C %s" % t, [al * u + be * v for u, v in zip(matm(a, b, m, k, n), C.vals())])
    for kk, (ta, tb, a, b, cc) in enumerate(((NT, NT, (2, 3), (2, 2), (2, 2)), (NT, NT, (2, 3), (3, 2), (3, 2)), (NT, NT, (2, 3), (3, 2), (2, 3)),
                                             (TR, NT, (2, 3), (3, 1), (3, 1)), (TR, NT, (2, 3), (3, 1), (2, 1)),
                                             (NT, TR, (2, 3), (3, 2), (2, 2)), (TR, TR, (2, 3), (3, 2), (2, 2)))):
        A, B = M(c, "EA%d" % kk, a[0], a[1], 3, ro=True), M(c, "EB%d" % kk, b[0], b[1], 3, ro=True)
        C = M(c, "EC%d" % kk, cc[0], cc[1], 3)
        c.reports("sizes differ (%d)" % kk, "aa_dmat_gemm", ta, tb, al, A.d, B.d, be, C.d, unchanged=[C.buf])


@item("aa_dmat_inv", P, "aa_dmat_inv", bounded="sizes 1..3")
def _(c):
    for n, ld in ((1, 1), (1, 3), (2, 2), (2, 3), (2, 5), (3, 3), (3, 4)):
        A = M(c, "A%d%d_" % (n, ld), n, n, ld)
        v = A.vals()
        d = v[0] if n == 1 else v[0] * v[3] - v[1] * v[2] if n == 2 else dot(v[:3], cross(v[3:6], v[6:9]))
        c.req(d, "!=")
        if not c.symbolic and abs(d) < 1e-3:
            continue
        c.isint("info", c.call("aa_dmat_inv", A.d, ret="i"), 0)
        r = A.now()
        c.eq("A inv", matm(v, r, n, n, n), eye(n), ntol=1e-5)
        A.want("gaps", r)
    A = M(c, "E", 2, 3, 3)
    c.reports("not square", "aa_dmat_inv", A.d, unchanged=[A.buf])


for _m, _n in SH:
    def _mk(m, n):
        k = min(m, n)

        @item("aa_dmat_dpinv.%dx%d" % (m, n), P, "aa_dmat_dpinv", bounded="%dx%d" % (m, n),
              partial="the divisor is the determinant of a damped Gram matrix with k > 0, positive definite by construction")
        def _(c):
            k_ = c.scalar("k", pos=True)
            A, As = M(c, "A", m, n, m + 1, ro=True), M(c, "As", n, m, n + 2)
            c.isint("info", c.call("aa_dmat_dpinv", A.d, k_, As.d, ret="i"), 0)
            a = A.vals()
            G = [v + (k_ if q % m == q // m else 0) for q, v in enumerate(gram(a, m, n))]
            r = As.now()
            c.eq("A* (A A' + k I) = A'", matm(r, G, n, m, m), Tm(a, m, n), ntol=1e-5)
            As.want2("gaps")

        def pin(c, fn, par, goal):
            A0, U, s, Vt = svdin(c, m, n)
            c.ghost("svd", (U, s, Vt))
            A, As = M(c, "A", m, n, m + 1, ro=True, vals=A0), M(c, "As", n, m, n + 1)
            c.call(fn, A.d, par, As.d)
            r = As.now()
            As.want2("gaps")
            for p in range(n):
                for q in range(m):
                    e = S([Vt[p][j] * r[j + n * i] * U[i][q] for i in range(m) for j in range(n)])
                    if p != q:
                        c.eq("off-diagonal", e, 0, ntol=1e-6)
                    else:
                        goal(e, s[p])

        @item("aa_dmat_pinv.%dx%d" % (m, n), P, "aa_dmat_pinv", bounded="%dx%d" % (m, n))
        def _(c):
            tol = c.scalar("tol", pos=True)

            def goal(e, s):
                c.eq("inverse or zero", e * (e * s - 1), 0, ntol=1e-6)
                c.cmp("only small singular values are dropped", tol * (1 - e * s) - s * (1 - e * s), ">=", ntol=1e-6)
                c.cmp("small singular values are dropped", (s - tol) * e, ">=", ntol=1e-6)
            pin(c, "aa_dmat_pinv", tol, goal)

        @item("aa_dmat_dzdpinv.%dx%d" % (m, n), P, "aa_dmat_dzdpinv", bounded="%dx%d" % (m, n))
        def _(c):
            mn = c.scalar("smin", pos=True)

            def goal(e, s):
                c.eq("inverse or damped", (e * s - 1) * (e * mn * mn - s), 0, ntol=1e-5)
                c.cmp("not more than the undamped inverse", 1 - e * s, ">=", ntol=1e-6)
                c.cmp("not more than the floor allows", s - e * mn * mn, ">=", ntol=1e-6)
            pin(c, "aa_dmat_dzdpinv", mn, goal)
    _mk(_m, _n)


for _f in ("aa_dmat_pinv", "aa_dmat_dpinv", "aa_dmat_dzdpinv"):
    def _mk(fn):
        @item(fn + ".sizes", P, fn, bounded="sizes 2 and 3")
        def _(c):
            for k, (a, b) in enumerate((((2, 3), (2, 2)), ((2, 3), (3, 3)), ((2, 2), (3, 2)))):
                A, B = M(c, "A%d" % k, *a, 3, ro=True), M(c, "B%d" % k, *b, 3)
                c.reports("sizes differ (%d)" % k, fn, A.d, 1, B.d, unchanged=[B.buf])
    _mk(_f)


# ---- finite differences (src/diffeq.c)
