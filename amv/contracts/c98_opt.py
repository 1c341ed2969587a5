"""N01: linear programs (src/opt/opt.c, opt_glpk.c, opt_lpsolve.c, opt_clp.cpp).

The solver libraries enter as assumed contracts of their interfaces
(amv/harness/lp.c and clp/): a call changes the problem as the library's manual
says, and solving ends with any status at any point.  The contracts compare the
problem a library holds with the one the caller stated."""
from ..spec import item
from ..ops import *

P = "N01"
INF = 2 ** 1024
BIG = 10 ** 20                                   # below the libraries' thresholds of infinity (1e27, 1e30)
BACK = ("glpk", "lpsolve", "clp")
BS = "one to three rows and columns; each row and column free, bounded below, above, both or fixed (the combination is in the name)"


def bounds(c, kinds, nm, strict):
    """bounds of the stated kinds: f(ree), l(ower), u(pper), b(oth), e(qual)"""
    lo, hi = [], []
    for i, k in enumerate(kinds):
        l, u = -INF, INF
        if k in "lb":
            l = c.scalar("%sl%d" % (nm, i))
        if k in "ub":
            u = c.scalar("%su%d" % (nm, i))
        if k == "e":
            l = u = c.scalar("%se%d" % (nm, i))
        if k == "b":
            c.req(u - l, ">" if strict else ">=")
        for v in {"f": (), "l": (l,), "u": (u,), "b": (l, u), "e": (l,)}[k]:
            c.req(BIG - v, ">")
            c.req(BIG + v, ">")
        lo.append(l)
        hi.append(u)
    return lo, hi


class Prob:
    def __init__(self, c, rows, cols, lda=None, tag="", shape=None):
        m, n = len(rows), len(cols)
        self.c, self.m, self.n, self.lda = c, m, n, lda or m
        self.rows, self.cols = rows, cols
        self.A = c.vec("A" + tag, self.lda * n)
        self.a = lambda i, j: self.A[i + self.lda * j]
        for v in self.A:
            c.req(BIG - v, ">")
            c.req(BIG + v, ">")
        for i in range(m - 1):                   # rows can be told apart
            c.req(self.a(i + 1, 0) - self.a(i, 0), ">")
        self.bl, self.bu = bounds(c, rows, "b" + tag, m > 1)
        self.xl, self.xu = bounds(c, cols, "x" + tag, m > 1)
        self.obj = c.vec("c" + tag, n)
        self.sp = None
        if shape:                                # the stored elements of each row
            self.sp = [[j for j in range(n) if shape[i][j] != "."] for i in range(m)]
            full = self.a
            self.a = lambda i, j: full(i, j) if j in self.sp[i] else c.lift(0)

    def args(self):
        c = self.c
        if self.sp is None:
            mat = [c.inp(self.A), self.lda]
        else:
            val = [self.a(i, j) for i in range(self.m) for j in self.sp[i]]
            ptr = [0]
            for r in self.sp:
                ptr.append(ptr[-1] + len(r))
            mat = [c.inp(val), c.ints([j for r in self.sp for j in r], 4), c.ints(ptr, 4)]
        return [self.m, self.n] + mat + [c.inp(self.bl), c.inp(self.bu), c.inp(self.obj), c.inp(self.xl), c.inp(self.xu)]

    def check(self, maxim=1, kinds=None):
        c, g = self.c, lambda w: c.call("amv_lp_int", w, ret="i")
        c.isint("calls stay inside the problem", g(3), 0)
        c.isint("variables", g(1), self.n)
        c.isint("direction", g(2), maxim)
        c.eq("objective", c.deref(c.call("amv_lp_obj"), self.n), self.obj)
        for j in range(self.n):
            c.isint("kind of variable %d" % j, c.call("amv_lp_kind", j, ret="i"), kinds[j] if kinds else 0)
            for w, want in ((0, self.xl[j]), (1, self.xu[j])):
                v = c.out(1)
                nm = "%s bound of variable %d" % (("upper", "lower")[1 - w], j)
                have = self.cols[j] in (("l", "b", "e"), ("u", "b", "e"))[w]
                c.isint(nm + " present", c.call("amv_lp_col", j, w, v, ret="i"), int(have))
                if have:
                    c.eq(nm, v.get(), [want])
        mark = c.ints([0] * 8, 4, ro=False)
        for i in range(self.m):
            coef = c.inp([self.a(i, j) for j in range(self.n)])
            for w, want in ((0, self.bl[i]), (1, self.bu[i])):
                v = c.out(1)
                nm = "%s bound of row %d" % (("upper", "lower")[1 - w], i)
                have = self.rows[i] in (("l", "b", "e"), ("u", "b", "e"))[w]
                c.isint(nm + " present", c.call("amv_lp_row", coef, mark, w, v, ret="i"), int(have))
                if have:
                    c.eq(nm, v.get(), [want])
        c.isint("no other constraints", c.call("amv_lp_extra", mark, ret="i"), 0)


def mk(back, rows, cols, lda=None):
    @item("N01.%s.gm.%s.%s" % (back, rows, cols), P, "aa_opt_%s_gmcreate aa_opt_gmcreate aa_opt_solve aa_opt_destroy" % back, cxx=True, bounded=BS)
    def _(c):
        """the problem the library holds is the caller's; the solution and the status come back; the problem is given back"""
        pr = Prob(c, rows, cols, lda)
        live = c.live()
        x = c.vec("sol", pr.n)
        c.call("amv_lp_reset", 7, c.inp(x), pr.n)
        cx = c.call("aa_opt_%s_gmcreate" % back, *pr.args())
        pr.check()
        out = c.out(pr.n)
        c.isint("status of the solver", c.call("aa_opt_solve", cx, pr.n, out, ret="i"), 7)
        c.eq("solution of the solver", out.get(), x)
        c.isint("destroyed", c.call("aa_opt_destroy", cx, ret="i"), 0)
        c.isint("no problem is left behind", c.call("amv_lp_int", 4, ret="i"), 0)
        c.freed("memory is given back", live)


def mk_crs(back, rows, cols, shape):
    @item("N01.%s.crs.%s.%s" % (back, rows, cols), P, "aa_opt_%s_crscreate" % back, cxx=True, bounded=BS)
    def _(c):
        """the same for a matrix given by its stored elements"""
        pr = Prob(c, rows, cols, None, shape=shape)
        live = c.live()
        c.call("amv_lp_reset", 0, c.inp(c.vec("sol", pr.n)), pr.n)
        cx = c.call("aa_opt_%s_crscreate" % back, *pr.args())
        pr.check()
        c.call("aa_opt_destroy", cx)
        c.isint("no problem is left behind", c.call("amv_lp_int", 4, ret="i"), 0)
        c.freed("memory is given back", live)


def mk_set(back, rows, cols, rows2, cols2, maxim):
    @item("N01.%s.set.%s.%s" % (back, rows, rows2), P, "aa_opt_set_obj aa_opt_set_bnd aa_opt_set_cstr_gm aa_opt_set_direction", cxx=True, bounded=BS)
    def _(c):
        """a problem that is changed is the problem last stated"""
        pr = Prob(c, rows, cols, len(rows))
        c.call("amv_lp_reset", 0, c.inp(c.vec("sol", pr.n)), pr.n)
        cx = c.call("aa_opt_%s_gmcreate" % back, *pr.args())
        p2 = Prob(c, rows2, cols2, len(rows) + 1, "2")
        c.isint("direction accepted", c.call("aa_opt_set_direction", cx, 0 if maxim else 1, ret="i"), 0)
        c.isint("objective accepted", c.call("aa_opt_set_obj", cx, p2.n, c.inp(p2.obj), ret="i"), 0)
        c.isint("bounds accepted", c.call("aa_opt_set_bnd", cx, p2.n, c.inp(p2.xl), c.inp(p2.xu), ret="i"), 0)
        c.isint("constraints accepted", c.call("aa_opt_set_cstr_gm", cx, p2.m, p2.n, c.inp(p2.A), p2.lda, c.inp(p2.bl), c.inp(p2.bu), ret="i"), 0)
        p2.check(maxim)


for bk in BACK:
    for i, (r, cc, lda) in enumerate((("f", "f", 1), ("l", "lb", 2), ("u", "uf", 1), ("b", "be", 1), ("e", "e", 3),
                                      ("fb", "lu", 2), ("bf", "bb", 3), ("el", "fe", 2), ("ue", "b", 2), ("lu", "fl", 2), ("bb", "ub", 2), ("ef", "lf", 4),
                                      ("feb", "bl", 3), ("lbu", "feu", 3))):
        mk(bk, r, cc, lda)
    for r, cc, sh in (("l", "bf", ("xx",)), ("be", "lu", ("x.", "xx")), ("uf", "fb", ("xx", "x.")), ("fb", "eb", ("x.", "x.")), ("ebl", "bbf", ("x.x", "xx.", "xxx"))):
        mk_crs(bk, r, cc, sh)
    for r, cc, r2, c2, mx in (("l", "b", "l", "f", 0), ("b", "u", "b", "b", 0), ("bu", "lu", "bu", "ul", 1), ("eb", "bf", "eb", "fb", 0), ("fl", "e", "fl", "b", 1),
                            ("be", "lu", "eb", "ul", 0), ("ff", "b", "bl", "e", 1), ("bb", "u", "fe", "f", 0)):
        mk_set(bk, r, cc, r2, c2, mx)


def mk_back(s):
    @item("N01.back.%d" % s, P, "aa_opt_gmcreate", cxx=True)
    def _(c):
        """the chosen library gets the problem"""
        pr = Prob(c, "lb", "bf", 2)
        c.call("amv_lp_reset", 0, c.inp(c.vec("sol", 2)), 2)
        cx = c.call("aa_opt_gmcreate", s, *pr.args())
        pr.check()
        c.call("aa_opt_destroy", cx)


for s in range(4):
    mk_back(s)


@item("N01.back.unknown", P, "aa_opt_gmcreate", cxx=True)
def _(c):
    """an unknown library is refused"""
    c.true("unknown library", c.isnull(c.call("aa_opt_gmcreate", 9, *Prob(c, "l", "f").args())))


for bk in ("glpk", "lpsolve"):
    @item("N01.%s.kinds" % bk, P, "aa_opt_set_type aa_opt_solve", cxx=True, bounded=BS)
    def _(c, bk=bk):
        """integer and binary variables; the answer is that of the integer problem"""
        pr = Prob(c, "b", "bfl", 1)
        x = c.vec("sol", 3)
        c.call("amv_lp_reset", 5, c.inp(x), 3)
        cx = c.call("aa_opt_%s_gmcreate" % bk, *pr.args())
        c.isint("continuous", c.call("aa_opt_set_type", cx, 0, 0, ret="i"), 0)
        c.isint("binary", c.call("aa_opt_set_type", cx, 1, 1, ret="i"), 0)
        c.isint("integer", c.call("aa_opt_set_type", cx, 2, 2, ret="i"), 0)
        c.isint("unknown kind", c.call("aa_opt_set_type", cx, 2, 9, ret="i"), -1)
        pr.cols = "bbl"
        pr.xl[1], pr.xu[1] = 0, 1
        pr.check(kinds=(0, 1, 1))
        out = c.out(3)
        c.isint("status of the solver", c.call("aa_opt_solve", cx, 3, out, ret="i"), 5)
        c.eq("solution of the solver", out.get(), x)
        c.call("aa_opt_set_type", cx, 1, 0)
        c.call("aa_opt_set_type", cx, 2, 0)
        for k in range(3):
            # a single variable that is not continuous
            for j in range(3):
                c.call("aa_opt_set_type", cx, j, 2 if j == k else 0)
            out = c.out(3)
            c.isint("status of the solver, integer variable %d" % k, c.call("aa_opt_solve", cx, 3, out, ret="i"), 5)
            c.eq("solution of the solver, integer variable %d" % k, out.get(), x)
        c.call("aa_opt_set_type", cx, 2, 0)
        c.isint("continuous again", c.call("amv_lp_kind", 1, ret="i") + c.call("amv_lp_kind", 2, ret="i"), 0)


for bk in BACK:
    for crs in (0, 1):
        @item("N01.%s.lp%s" % (bk, "crs" if crs else ""), P, "aa_opt_lp_%s%s" % ("crs_" if crs else "", bk), cxx=True, bounded=BS)
        def _(c, bk=bk, crs=crs):
            """one call: the problem is stated, solved and given back"""
            pr = Prob(c, "lb", "bf", 2, shape=("xx", "xx") if crs else None)
            live = c.live()
            x = c.vec("sol", 2)
            c.call("amv_lp_reset", 3, c.inp(x), 2)
            out = c.out(2)
            c.isint("status", c.call("aa_opt_lp_%s%s" % ("crs_" if crs else "", bk), *(pr.args() + [out]), ret="i"), 3)
            c.eq("solution", out.get(), x)
            c.isint("one solution was asked for", c.call("amv_lp_int", 5, ret="i"), 1)
            c.isint("no problem is left behind", c.call("amv_lp_int", 4, ret="i"), 0)
            c.freed("memory is given back", live)
