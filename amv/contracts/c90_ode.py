"""O01: integration steps, linear simulation, ODE solver, finite differences
(src/sigsys.c, src/diffeq.c).

The right-hand side is a function supplied by the caller.  In these contracts it
is an arbitrary one: every call returns fresh unconstrained values, and the
arguments of every call are recorded, so a postcondition over the recorded
arguments and the returned values holds for all right-hand sides."""
from ..spec import item
from ..ops import *
from fractions import Fraction as F

P = "O01"
DIMS = (1, 2, 3)
BD = "state dimension n = %d"


class Rhs:
    """an arbitrary right-hand side that records its calls"""
    def __init__(self, c, n, limit=None, f=None, cx=None):
        self.c = c; self.n = n; self.rec = []; self.k = []; self.limit = limit; self.f = f
        self.cx = cx if cx is not None else c.inp([c.scalar("cxdata")])
        self.fn = c.callback("vpdpp", self.call)

    def call(self, cx, t, x, dx):
        c = self.c
        i = len(self.rec)
        if self.limit is not None and i >= self.limit and c.cut():
            c.poke(dx, [0] * self.n)
            return
        c.true("the caller's context reaches the right-hand side (call %d)" % i, c.sameptr(cx, self.cx, 0))
        xs = c.deref(x, self.n)
        self.rec.append((t, xs))
        k = self.f(t, xs) if self.f else c.vec("k%d_" % i, self.n)
        self.k.append(k)
        c.poke(dx, k)


def lin(x0, dt, ks, w):
    return [x0[i] + dt * sum((q(a) * k[i] for a, k in zip(w, ks) if a), q(0)) for i in range(len(x0))]


TAB = {   # published tableaux: nodes c, matrix a, weights (first output, second output), first-same-as-last derivative
 "aa_odestep_rk1": dict(c=[0], a=[[]], out=[[1]], p=[1]),
 "aa_odestep_rk2": dict(c=[0, 1], a=[[], [1]], out=[["1/2", "1/2"]], p=[2]),
 "aa_odestep_rk4": dict(c=[0, "1/2", "1/2", 1], a=[[], ["1/2"], [0, "1/2"], [0, 0, 1]], out=[["1/6", "1/3", "1/3", "1/6"]], p=[4]),
 "aa_odestep_rkf45": dict(
     c=[0, "1/4", "3/8", "12/13", 1, "1/2"],
     a=[[], ["1/4"], ["3/32", "9/32"], ["1932/2197", "-7200/2197", "7296/2197"], ["439/216", -8, "3680/513", "-845/4104"],
        ["-8/27", 2, "-3544/2565", "1859/4104", "-11/40"]],
     out=[["25/216", 0, "1408/2565", "2197/4104", "-1/5", 0], ["16/135", 0, "6656/12825", "28561/56430", "-9/50", "2/55"]], p=[4, 5], kcols=5),
 "aa_odestep_rkck45": dict(
     c=[0, "1/5", "3/10", "3/5", 1, "7/8"],
     a=[[], ["1/5"], ["3/40", "9/40"], ["3/10", "-9/10", "6/5"], ["-11/54", "5/2", "-70/27", "35/27"],
        ["1631/55296", "175/512", "575/13824", "44275/110592", "253/4096"]],
     out=[["37/378", 0, "250/621", "125/594", 0, "512/1771"], ["2825/27648", 0, "18575/48384", "13525/55296", "277/14336", "1/4"]], p=[5, 4], kcols=5),
 "aa_odestep_dorpri45": dict(
     c=[0, "1/5", "3/10", "4/5", "8/9", 1, 1],
     a=[[], ["1/5"], ["3/40", "9/40"], ["44/45", "-56/15", "32/9"], ["19372/6561", "-25360/2187", "64448/6561", "-212/729"],
        ["9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656"], ["35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84"]],
     out=[["35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84", 0],
          ["5179/57600", 0, "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40"]], p=[5, 4], kcols=6, fsal=True),
 "aa_odestep_rkbs23": dict(
     c=[0, "1/2", "3/4", 1], a=[[], ["1/2"], [0, "3/4"], ["2/9", "1/3", "4/9"]],
     out=[["2/9", "1/3", "4/9", 0], ["7/24", "1/4", "1/3", "1/8"]], p=[3, 2], kcols=4, fsal=True),
}


def q(a): return F(a) if not isinstance(a, F) else a


def step(c, fn, n, f=None, t0=None, dt=None, k0=None, x0=None):
    """call the step under contract; returns rhs, list of outputs, k buffer"""
    T = TAB[fn]
    r = Rhs(c, n, f=f)
    t0 = c.scalar("t") if t0 is None else t0
    dt = c.scalar("h") if dt is None else dt
    x0 = c.vec("x", n) if x0 is None else x0
    X0 = c.inp(x0)
    if "kcols" in T:
        k0 = c.vec("k0_", n) if k0 is None else k0
        kb = c.inout(list(k0) + list(c.vec("g", n * (T["kcols"] - 1))))
        o = [c.out(n), c.out(n)]
        c.call(fn, n, r.fn, r.cx, t0, dt, X0, kb, o[0], o[1])
        r.k.insert(0, list(k0)); r.rec.insert(0, (t0, list(x0)))
    else:
        kb = None
        o = [c.out(n)]
        c.call(fn, n, r.fn, r.cx, t0, dt, X0, o[0])
    return r, [b.get() for b in o], kb, t0, dt, x0


def ksym(c, n): pass


def mk_step(fn, n):
    T = TAB[fn]

    @item("O01.%s.n%d" % (fn, n), P, fn, bounded=BD % n)
    def _(c):
        # the recorded k vectors of an embedded step start at k1
        r, outs, kb, t0, dt, x0 = step(c, fn, n)
        c.isint("number of derivative evaluations", len(r.rec), len(T["c"]))
        for i, (t, xs) in enumerate(r.rec):
            c.eq("stage %d time" % i, t, t0 + q(T["c"][i]) * dt)
            c.eq("stage %d state" % i, xs, lin(x0, dt, r.k, T["a"][i]))
        for j, w in enumerate(T["out"]):
            c.eq("step %d" % j, outs[j], lin(x0, dt, r.k, w))
        if kb is not None:
            c.eq("first column of k is unmodified", kb.get(0, n), r.k[0])
        if T.get("fsal"):
            c.eq("last column of k is the derivative at the first output", kb.get(n * (T["kcols"] - 1), n), r.k[-1])
            c.eq("evaluated at the first output", r.rec[-1][1], outs[0])


def mk_poly(fn, d):
    """x' = t^d, x' = x^... : quadrature exactness up to the order of the method"""
    T = TAB[fn]

    @item("O01.%s.quadrature%d" % (fn, d), P, fn, bounded="right-hand side t^%d" % d)
    def _(c):
        t = c.scalar("t"); h = c.scalar("h"); s = c.scalar("s")
        r, outs, kb, t0, dt, x0 = step(c, fn, 1, f=lambda t, x: [s * t ** d], t0=t, dt=h, k0=[s * t ** d])
        for j, (p, o) in enumerate(zip(T["p"], outs)):
            if d < p:
                c.eq("integral of t^%d exact (output %d)" % (d, j), o[0] - x0[0], s * ((t + h) ** (d + 1) - t ** (d + 1)) / (d + 1))


def mk_lin(fn):
    """x' = L x: the step agrees with exp(h L) up to the order of the method"""
    T = TAB[fn]

    @item("O01.%s.linear" % fn, P, fn, replay=False, bounded="scalar linear right-hand side")
    def _(c):
        h = c.scalar("h"); L = c.scalar("L"); x = c.scalar("x")
        r, outs, kb, t0, dt, x0 = step(c, fn, 1, f=lambda t, y: [L * y[0]], t0=c.scalar("t"), dt=h, k0=[L * x], x0=[x])
        for p, o in zip(T["p"], outs):
            e = o[0]
            for k in range(p + 1):
                c.eq("derivative %d of the step at h = 0" % k, c.subst(e, {"h": c.lift(0)}), L ** k * x)
                e = c.diff(e, "h")


for fn in TAB:
    for n in DIMS:
        mk_step(fn, n)
    for d in range(max(TAB[fn]["p"])):
        mk_poly(fn, d)
    mk_lin(fn)


for n in DIMS:
    def mk(n):
        @item("O01.euler.n%d" % n, P, "aa_odestep_euler", bounded=BD % n)
        def _(c):
            h = c.scalar("h"); x = c.vec("x", n); d = c.vec("d", n)
            o = c.out(n)
            c.call("aa_odestep_euler", n, h, c.inp(d), c.inp(x), o)
            c.eq("x0 + dt dx", o.get(), [a + h * b for a, b in zip(x, d)])

        @item("O01.affine.n%d" % n, P, "aa_sys_affine", bounded=BD % n)
        def _(c):
            A = c.vec("A", n * n); D = c.vec("D", n); x = c.vec("x", n)
            o = c.out(n)
            s = c.struct([(0, n), (8, c.inp(A)), (16, c.inp(D))], ro=True, size=24)
            c.call("aa_sys_affine", s, c.scalar("t"), c.inp(x), o)
            c.eq("A x + D", o.get(), [sum((A[i + n * j] * x[j] for j in range(n)), D[i]) for i in range(n)])
    mk(n)


def mk_lsim(m, n):
    BDL = "m = %d states, n = %d inputs" % (m, n)

    def setup(c):
        A = c.vec("A", m * m); B = c.vec("B", m * n); x = c.vec("x", m); u = c.vec("u", n)
        return A, B, x, u, c.inp(A), c.inp(B), c.inp(x), c.inp(u), c.out(m)

    def f(A, B, u, x):
        return [sum((A[i + m * j] * x[j] for j in range(m)), sum((B[i + m * j] * u[j] for j in range(n)), u[0] * 0)) for i in range(m)]

    @item("O01.lsim.dstep.%d_%d" % (m, n), P, "aa_lsim_dstep", bounded=BDL)
    def _(c):
        A, B, x, u, a, b, xx, uu, o = setup(c)
        c.call("aa_lsim_dstep", m, n, a, b, xx, uu, o)
        c.eq("A x + B u", o.get(), f(A, B, u, x))

    @item("O01.lsim.estep.%d_%d" % (m, n), P, "aa_lsim_estep", bounded=BDL)
    def _(c):
        A, B, x, u, a, b, xx, uu, o = setup(c)
        h = c.scalar("h")
        c.call("aa_lsim_estep", m, n, h, a, b, xx, uu, o)
        c.eq("x + dt (A x + B u)", o.get(), [p + h * d for p, d in zip(x, f(A, B, u, x))])

    @item("O01.lsim.rk4step.%d_%d" % (m, n), P, "aa_lsim_rk4step", bounded=BDL)
    def _(c):
        A, B, x, u, a, b, xx, uu, o = setup(c)
        h = c.scalar("h")
        c.call("aa_lsim_rk4step", m, n, h, a, b, xx, uu, o)
        k1 = f(A, B, u, x)
        k2 = f(A, B, u, [p + h / 2 * k for p, k in zip(x, k1)])
        k3 = f(A, B, u, [p + h / 2 * k for p, k in zip(x, k2)])
        k4 = f(A, B, u, [p + h * k for p, k in zip(x, k3)])
        c.eq("classical Runge-Kutta step", o.get(), [x[i] + h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) for i in range(m)])


for m, n in ((1, 1), (2, 1), (2, 3), (3, 2)):
    mk_lsim(m, n)


# ---- aa_ode_sol / aa_ode_path

INTEG = [("aa_odestep_rk1", 0), ("aa_odestep_rk2", 1), ("aa_odestep_rk4", 2), ("aa_odestep_rkf45", 3),
         ("aa_odestep_rkck45", 4), ("aa_odestep_dorpri45", 5), ("aa_odestep_rkbs23", 6)]
DEC, INC = F(1, 2), F(3)


def ref(fn, f, t, h, x):
    """the published step for right-hand side f from (t, x)"""
    T = TAB[fn]
    ks = []
    for ci, ai in zip(T["c"], T["a"]):
        ks.append(f(t + q(ci) * h, lin(x, h, ks, ai)))
    return [lin(x, h, ks, w) for w in T["out"]]


def solver(c, fn, n, steps, code, modify, path=False, retries=1):
    """run the solver against a linear time-varying right-hand side; the goal
    check records its arguments, may move the state, and ends the run at the
    given step with the given code"""
    a = c.vec("a", n); b = c.vec("b", n); g = c.scalar("g")
    f = lambda t, x: [a[i] + b[i] * t + g * x[(i + 1) % n] for i in range(n)]
    t0 = c.scalar("t"); emb = "kcols" in TAB[fn]; h0 = c.scalar("h", pos=emb); x0 = c.vec("x", n)
    tol = [c.scalar("toldec", nonneg=True), c.scalar("tolinc", nonneg=True)]
    opts = c.struct([(0, tol[0]), (8, tol[1]), (16, c.lift(DEC)), (24, c.lift(INC))], ro=True, size=32)
    r = Rhs(c, n, f=f, limit=3 + steps * (len(TAB[fn]["c"]) + 1) + (retries * (len(TAB[fn]["c"]) - 1) if emb else 0))
    seen = []
    ccx = c.inp([c.scalar("checkdata")])

    def check(cx, t, x, y):
        c.true("the goal check gets its context", c.sameptr(cx, ccx, 0))
        i = len(seen)
        rec = [t, c.deref(x, n), c.deref(y, n)]
        seen.append(rec)
        if modify:
            z = c.vec("z%d_" % i, n)
            c.poke(x, z)
            rec.append(z)
        else:
            rec.append(rec[1])
        return code if i >= steps - 1 or getattr(c, "cutflag", False) else 0
    ck = c.callback("ipdpp", check)
    X0 = c.inp(x0)
    return a, f, t0, h0, x0, emb, tol, opts, r, seen, ccx, ck, X0


def follows(c, fn, f, n, t0, h0, x0, emb, tol, seen, retries):
    """the recorded checks are at the end of accepted steps"""
    t, x, h = t0, x0, h0
    for i, (tc, xc, yc, xn) in enumerate(seen):
        acc = None
        if not emb:
            acc = h
            c.eq("time of step %d" % i, tc, t + h)
            c.eq("state after step %d" % i, xc, ref(fn, f, t, h, x)[0])
        else:
            alts = [(hh, a) for a in range(8) for hh in ([h] if i == 0 else [h, h * INC])]
            j = c.pick(tc, [t + hh * DEC ** a for hh, a in alts])
            if j is not None:
                hh, a = alts[j]
                acc = hh * DEC ** a
            c.true("step %d ends one accepted step size after the last" % i, acc is not None)
            if acc is None:
                return
            o = ref(fn, f, t, acc, x)
            c.eq("state after step %d" % i, xc, o[1])
            if n > 1:
                pass
            elif i == 0:      # the tolerances that led here
                for k in range(a):
                    p = ref(fn, f, t, h * DEC ** k, x)
                    c.cmp("the step was retried because its error was too large", sum((u - v) ** 2 for u, v in zip(*p)) - tol[0], ">")
                e = sum((u - v) ** 2 for u, v in zip(*o))
                c.cmp("the error of an accepted step is within tolerance", tol[0] - e, ">=")
            else:
                gotinc = hh is not h
                c.cmp("step size grows exactly when the error was small", (tol[1] - eprev) if gotinc else (eprev - tol[1]), ">" if gotinc else ">=")
            eprev = sum((u - v) ** 2 for u, v in zip(*o))
            h = acc
        c.eq("derivative given to the check, step %d" % i, yc, f(tc, xc))
        t, x = tc, xn


def mk_sol(fn, k, n, steps, code, modify, quick=True):
    emb = "kcols" in TAB[fn]
    R = 1 if emb else 0
    if n > 1 or steps > (1 if fn in ("aa_odestep_rkf45", "aa_odestep_rkck45", "aa_odestep_dorpri45") else 2):
        R = 0

    @item("O01.sol.%s.n%d.s%d%s%s" % (fn[10:], n, steps, "m" if modify else "", "f" if code < 0 else ""), P, "aa_ode_sol",
          bounded="%d accepted steps, at most %d retries, n = %d, right-hand sides a + b t + g x" % (steps, R, n), timeout=200)
    def _(c):
        a, f, t0, h0, x0, emb, tol, opts, r, seen, ccx, ck, X0 = solver(c, fn, n, steps, code, modify, retries=R)
        o = c.out(n)
        res = c.call("aa_ode_sol", k, opts, n, r.fn, r.cx, ck, ccx, t0, h0, X0, o, ret="i")
        c.isint("number of goal checks", len(seen), steps)
        c.isint("result", res, 0 if code > 0 else code)
        follows(c, fn, f, n, t0, h0, x0, emb, tol, seen, R)
        c.eq("solution is the state the last check left", o.get(), seen[-1][3])


for fn, k in INTEG:
    emb = "kcols" in TAB[fn]
    mk_sol(fn, k, 1, 1, 1, False)
    mk_sol(fn, k, 1, 2, -3, True)
    if fn not in ("aa_odestep_rkf45", "aa_odestep_rkck45", "aa_odestep_dorpri45"):
        mk_sol(fn, k, 2, 2, 1, False)
        mk_sol(fn, k, 1, 3, 1, True)
    mk_sol(fn, k, 3, 1, 1, False)


def mk_path(fn, k, n, steps, same_region):
    @item("O01.path.%s.n%d.s%d%s" % (fn[10:], n, steps, ".local" if same_region else ""), P, "aa_ode_path",
          bounded="%d accepted steps, no retries, n = %d, right-hand sides a + b t + g x" % (steps, n), timeout=200)
    def _(c):
        a, f, t0, h0, x0, emb, tol, opts, r, seen, ccx, ck, X0 = solver(c, fn, n, steps, 1, False, retries=0)
        reg = c.local_region() if same_region else c.new_region()
        np_ = c.ints([77], ro=False)
        pp = c.struct([(0, 0)], size=8)
        res = c.call("aa_ode_path", k, opts, n, r.fn, r.cx, ck, ccx, t0, h0, X0, reg, np_, pp, ret="i")
        c.isint("result", res, 0)
        c.isint("number of goal checks", len(seen), steps)
        c.isint("number of points", np_.ints(1)[0], steps + 1)
        follows(c, fn, f, n, t0, h0, x0, emb, tol, seen, 0)
        p = c.ptrfield_of(pp, 0)
        c.eq("path: the start and the state at each check", c.deref(p, n * (steps + 1)), list(x0) + [v for s in seen for v in s[1]])


# ---- finite differences

def mk_fd(n, inc):
    @item("O01.grad_fd.n%d.i%d" % (n, inc), P, "aa_de_grad_fd", bounded="n = %d, result stride %d" % (n, inc))
    def _(c):
        x = c.vec("x", n); e = c.scalar("e", pos=True)
        H = [[c.scalar("H%d%d" % (i, j)) for j in range(i + 1)] for i in range(n)]
        g = c.vec("g", n)
        cxd = c.inp([c.scalar("cx")])

        def fun(cx, v):
            c.true("context", c.sameptr(cx, cxd, 0))
            d = c.deref(c.ptrfield(v, 8), n)
            return sum((H[i][j] * d[i] * d[j] for i in range(n) for j in range(i + 1)), q(0)) + sum(a * b for a, b in zip(g, d))
        xv = c.dvec(n, c.inp(x), 1, ro=True)
        y0 = c.vec("y", n * inc)
        yb = c.inout(y0)
        c.call("aa_de_grad_fd", c.callback("dpp", fun), cxd, xv, e, c.dvec(n, yb, inc, ro=True))
        w = list(y0)
        for i in range(n):
            w[i * inc] = g[i] + sum((H[max(i, j)][min(i, j)] * x[j] * (2 if i == j else 1) for j in range(n)), q(0))
        c.eq("gradient of a quadratic is exact", yb.get(), w, ntol=1e-3)


def mk_jac(m, n, ld, xinc):
    @item("O01.jac_fd.%d_%d.ld%d.i%d" % (m, n, ld, xinc), P, "aa_de_jac_fd", bounded="%d functions of %d variables, ld %d, stride %d" % (m, n, ld, xinc))
    def _(c):
        xa = c.vec("x", n * xinc); x = [xa[i * xinc] for i in range(n)]
        e = c.scalar("e", pos=True)
        A = [c.vec("A%d" % i, n) for i in range(m)]
        B = [c.vec("B%d" % i, n) for i in range(m)]
        cxd = c.inp([c.scalar("cx")])

        def fun(cx, v, y):
            c.true("context", c.sameptr(cx, cxd, 0))
            d = c.deref(c.ptrfield(v, 8), n)
            c.isint("contiguous result vector of the right length", (c.intfield(y, 0), c.intfield(y, 16), c.intfield(v, 0), c.intfield(v, 16)), (m, 1, n, 1))
            c.poke(c.ptrfield(y, 8), [sum((A[i][j] * d[j] + B[i][j] * d[j] * d[(j + 1) % n] for j in range(n)), q(0)) for i in range(m)])
        J0 = c.vec("J", ld * n)
        Jb = c.inout(J0)
        c.call("aa_de_jac_fd", c.callback("vppp", fun), cxd, c.dvec(n, c.inp(xa), xinc, ro=True), e, c.dmat(m, n, Jb, ld, ro=True))
        w = list(J0)
        for i in range(m):
            for j in range(n):
                w[i + ld * j] = A[i][j] + (B[i][j] * x[(j + 1) % n] + B[i][(j - 1) % n] * x[(j - 1) % n])
        c.eq("Jacobian of a quadratic is exact; gaps untouched", Jb.get(), w, ntol=1e-3)


for n, inc in ((1, 1), (2, 1), (3, 2)):
    mk_fd(n, inc)
for a in ((1, 1, 1, 1), (2, 2, 2, 1), (2, 3, 4, 1), (3, 2, 3, 2)):
    mk_jac(*a)


@item("O01.grad_fd.size", P, "aa_de_grad_fd", bounded="lengths 3 and 2")
def _(c):
    yb = c.inout(c.vec("y", 3))
    c.reports("result of another length", "aa_de_grad_fd", c.callback("dpp", lambda cx, v: q(0)), c.inp([0]), c.dvec(3, c.inp(c.vec("x", 3)), ro=True), c.scalar("e", pos=True), c.dvec(2, yb, ro=True), unchanged=[yb])


@item("O01.jac_fd.size", P, "aa_de_jac_fd", bounded="3 columns, 2 variables")
def _(c):
    yb = c.inout(c.vec("y", 9))
    c.reports("point of another length", "aa_de_jac_fd", c.callback("vppp", lambda cx, v, y: None), c.inp([0]), c.dvec(2, c.inp(c.vec("x", 3)), ro=True), c.scalar("e", pos=True), c.dmat(3, 3, yb, 3, ro=True), unchanged=[yb])


for fn, k, n, st, loc in (("aa_odestep_rk1", 0, 2, 2, True), ("aa_odestep_rk1", 0, 1, 3, False), ("aa_odestep_rk4", 2, 1, 2, False), ("aa_odestep_rkbs23", 6, 2, 2, True)):
    mk_path(fn, k, n, st, loc)
