"""W01: workspace control and inverse kinematics
(src/rx/scene_wk.c, scene_ik.c, ik_jacobian.c, ik_nlopt.c, ik_opt.c).

Frame tables are arbitrary: aa_rx_fk_sub is represented by its contract (G02)
where it appears below, i.e. the poses of the chain are any poses."""
from ..spec import item
from ..ops import *
from .c95_sg import G, FIX, REV, PRI, build, order, path, sgn, pair, tf_mul, tf_inv, setlim, sub_, BG
from .c40_explog import qexpu
from .c30_tf import screw
from .c80_la import S
from fractions import Fraction as F

P = "W01"
SH = {
    "rp": ([("z", FIX, ""), ("r", REV, "z"), ("p", PRI, "r"), ("t", FIX, "p")], "z", "t"),
    "r": ([("r", REV, ""), ("t", FIX, "r")], "", "t"),
    "prr": ([("x", REV, ""), ("p", PRI, ""), ("q", REV, "p"), ("r", REV, "q")], "", "r"),
}


class Chain:
    """a chain with arbitrary poses of its frames"""
    def __init__(self, c, nm, tab=True):
        shape, root, tip = SH[nm]
        self.c = c
        self.g, n, self.cid = build(c, shape)
        self.ids = order(self.g)
        self.k = len(shape)
        self.sub = c.call("aa_rx_sg_chain_create", self.g.sg, self.ids[root] if root else -1, self.ids[tip])
        self.fr = [f for f in path(self.g, root, tip)]
        self.joints = [f for f in self.fr if self.g.f[f]["kind"] != FIX]
        self.cf = [self.cid[self.g.f[f]["config"]] for f in self.joints]
        self.m = len(self.joints)
        self.n = n
        self.tip = self.ids[tip]
        self.fk = c.call("aa_rx_fk_malloc", self.g.sg)
        self.given = {i: c.unit("Q%d" % i, 4) + c.vec("P%d" % i, 3) for i in range(self.k)}
        self.pose(self.fk)
        self.subs = []

    def pose(self, fk):
        for i in range(self.k):
            self.c.poke(self.c.call("aa_rx_fk_ref", fk, i), self.given[i])

    def abstract_fk(self):
        """forward kinematics may put any poses into the table; its arguments are recorded"""
        c = self.c

        def f(fk, sub, q):
            n, inc = c.intfield(q, 0), c.intfield(q, 16)
            d = c.deref(c.ptrfield(q, 8), (n - 1) * inc + 1)[::inc]
            self.subs.append((fk, sub, d))
            self.pose(fk)
        c.abstract("aa_rx_fk_sub", f)

    def at(self, x):
        """the table at configuration x of the chain"""
        self.c.call("aa_rx_fk_sub", self.fk, self.sub, self.c.dvec(self.m, self.c.inp(x), 1, ro=True))
        return self.table()

    def table(self):
        if self.c.symbolic:
            return self.given
        return {i: list(self.c.deref(self.c.call("aa_rx_fk_ref", self.fk, i), 7)) for i in range(self.k)}

    def jac(self, tab):
        """velocity Jacobian columns (v, w)"""
        r = []
        pe = tab[self.tip][4:]
        for f in self.joints:
            t = tab[self.ids[f]]
            a = qrot(t[:4], self.g.f[f]["axis"])
            r.append(list(cross(a, sub_(pe, t[4:]))) + list(a) if self.g.f[f]["kind"] == REV else list(a) + [0, 0, 0])
        return r

    def done(self):
        self.c.call("aa_rx_fk_destroy", self.fk)
        self.c.call("aa_rx_sg_sub_destroy", self.sub)
        self.c.call("aa_rx_sg_destroy", self.g.sg)


class Pinv:
    """the three pseudo-inverses, under their contracts (L01): whatever matrix they produce"""
    FNS = ("aa_dmat_dzdpinv", "aa_dmat_dpinv", "aa_dmat_pinv")

    def __init__(self, c):
        self.c = c
        self.rec = []
        for fn in self.FNS:
            c.abstract(fn, lambda A, k, As, fn=fn: self.hit(fn, A, k, As))

    def hit(self, fn, A, k, As):
        c = self.c
        m, n, ld, lds = (c.intfield(A, 0), c.intfield(A, 8), c.intfield(A, 24), c.intfield(As, 24))
        a = c.deref(c.ptrfield(A, 16), ld * (n - 1) + m)
        a = [a[ld * j + i] for j in range(n) for i in range(m)]
        out = c.vec("Jstar%d" % len(self.rec), m * n)
        c.true("size of the pseudo-inverse", c.intfield(As, 0) == n and c.intfield(As, 8) == m)
        p = c.ptrfield(As, 16)
        for j in range(m):
            c.poke(c.ptrat(p, 8 * lds * j), out[n * j:n * j + n])
        self.rec.append((fn, a, k, out))
        return 0

    def of(self, fn, J, k):
        """J*: the result of fn on the columns J with parameter k"""
        c = self.c
        flat = [x for col in J for x in col]
        n = len(J)
        if c.symbolic:
            c.isint("one pseudo-inverse is taken", len(self.rec), 1)
            f, a, kk, out = self.rec.pop()
            c.isint("kind of pseudo-inverse", f, fn)
            c.eq("matrix inverted", a, flat)
            c.eq("damping", kk, k)
            return out
        o = c.out(6 * n)
        c.call(fn, c.dmat(6, n, c.inp(flat), 6, ro=True), k, c.dmat(n, 6, o, n, ro=True))
        return o.get()


MODES = {"svd": "aa_dmat_dzdpinv", "lu": "aa_dmat_dpinv", "plain": "aa_dmat_pinv"}


def mode_par(c, mode, sfx=""):
    """(s2min, k_dls) and the parameter of the pseudo-inverse"""
    if mode == "svd":
        s = c.scalar("s" + sfx, pos=True)
        return s * s, c.scalar("kd" + sfx), s
    k = c.scalar("kd" + sfx, pos=True)
    if mode == "lu":
        return -c.scalar("s" + sfx, nonneg=True), k, k
    return -c.scalar("s" + sfx, nonneg=True), -k, c.lift(-1)


def mul_js(Js, n, x): return [S([Js[i + n * j] * x[j] for j in range(6)]) for i in range(n)]


def mk_dx2dq(nm, mode):
    @item("W01.dx2dq.%s.%s" % (nm, mode), P, "aa_rx_wk_dx2dq aa_rx_wk_dx2dq_np", cxx=True, bounded=BG % nm)
    def _(c):
        ch = Chain(c, nm)
        n = ch.m
        s2, kd, par = mode_par(c, mode)
        J = ch.jac(ch.table())
        opts = c.call("amv_wk_opts", s2, kd, c.scalar("np"), c.scalar("ga"), c.scalar("gt"))
        for inc in (1, 2):
            dx, r = c.vec("dx%d" % inc, 6 * inc), c.vec("r%d" % inc, n * inc)
            g0 = c.vec("g%d" % inc, n * inc)
            pv = Pinv(c)
            o = c.inout(g0)
            c.isint("result", c.call("aa_rx_wk_dx2dq", ch.sub, opts, ch.fk, c.dvec(6, c.inp(dx), inc, ro=True), c.dvec(n, o, inc, ro=True), ret="i"), 0)
            Js = pv.of(MODES[mode], J, par)
            w = list(g0)
            w[::inc] = mul_js(Js, n, dx[::inc])
            c.eq("joint velocity, stride %d" % inc, o.get(), w, ntol=1e-5)
            o = c.inout(g0)
            c.isint("result", c.call("aa_rx_wk_dx2dq_np", ch.sub, opts, ch.fk, c.dvec(6, c.inp(dx), inc, ro=True),
                                     c.dvec(n, c.inp(r), inc, ro=True), c.dvec(n, o, inc, ro=True), ret="i"), 0)
            Js = pv.of(MODES[mode], J, par)
            rr = r[::inc]
            Jr = [S([J[j][i] * rr[j] for j in range(n)]) for i in range(6)]
            w = list(g0)
            w[::inc] = add(mul_js(Js, n, dx[::inc]), sub_(rr, mul_js(Js, n, Jr)))
            c.eq("joint velocity with null-space part, stride %d" % inc, o.get(), w, ntol=1e-5)
        c.call("aa_rx_wk_opts_destroy", opts)
        ch.done()


for nm in SH:
    for mode in MODES:
        mk_dx2dq(nm, mode)


@item("W01.dx2dq.sizes", P, "aa_rx_wk_dx2dq aa_rx_wk_dx2dq_np aa_rx_wk_dqcenter aa_rx_wk_dx_pos", cxx=True, bounded=BG % "rp")
def _(c):
    ch = Chain(c, "rp")
    n = ch.m
    opts = c.call("amv_wk_opts", 1, 1, 1, 1, 1)
    v = {k: c.dvec(k, c.inp(c.vec("v%d" % k, k)), 1, ro=True) for k in (1, 2, 3, 5, 6, 7)}
    for a, b in ((5, n), (7, n), (6, n - 1), (6, n + 1)):
        o = c.inout(c.vec("o", b))
        c.reports("sizes %d, %d" % (a, b), "aa_rx_wk_dx2dq", ch.sub, opts, ch.fk, v[a], c.dvec(b, o), unchanged=[o])
    for a, r, b in ((5, n, n), (6, n + 1, n), (6, n, n + 1)):
        o = c.inout(c.vec("o", b))
        c.reports("sizes %d, %d, %d" % (a, r, b), "aa_rx_wk_dx2dq_np", ch.sub, opts, ch.fk, v[a], v[r], c.dvec(b, o), unchanged=[o])
    for a, b in ((n - 1, n), (n, n + 1)):
        o = c.inout(c.vec("o", b))
        c.reports("sizes %d, %d" % (a, b), "aa_rx_wk_dqcenter", ch.sub, opts, v[a], c.dvec(b, o), unchanged=[o])
    o = c.inout(c.vec("o7", 7))
    c.reports("seven velocities", "aa_rx_wk_dx_pos", opts, c.inp([0, 0, 0, 1, 0, 0, 0]), c.inp([0, 0, 0, 1, 0, 0, 0]), c.dvec(7, o), unchanged=[o])


@item("W01.dqcenter", P, "aa_rx_wk_dqcenter aa_rx_ik_parm_center_configs aa_rx_ik_parm_center_seed aa_rx_ik_parm_take_config aa_rx_ik_parm_take_gain_config aa_rx_ik_parm_take_seed aa_rx_wk_opts_create", cxx=True, bounded=BG % "prr")
def _(c):
    ch = Chain(c, "prr")
    n = ch.m
    npg = c.scalar("np")
    opts = c.call("amv_wk_opts", 1, 1, npg, 1, 1)
    parm = c.call("aa_rx_ik_parm_create")
    lim = {}
    for stage in range(3):
        if stage:
            cn = ("q", "p")[stage - 1]
            lo, rg = c.scalar("lo_" + cn), c.scalar("rg_" + cn, pos=True)
            c.call("aa_rx_sg_set_limit_pos", ch.g.sg, c.cstr(cn), lo, lo + rg)
            lim[cn] = (lo, rg)
        for inc in (1, 2):
            x, g0 = c.vec("x%d%d" % (stage, inc), n * inc), c.vec("g%d%d" % (stage, inc), n * inc)
            o = c.inout(g0)
            c.call("aa_rx_wk_dqcenter", ch.sub, opts, c.dvec(n, c.inp(x), inc, ro=True), c.dvec(n, o, inc, ro=True))
            w = list(g0)
            for i, j in enumerate(ch.joints):
                w[i * inc] = npg * (lim[j][0] + lim[j][1] / 2 - x[i * inc]) / lim[j][1] if j in lim else 0
            c.eq("velocity towards the middle of the range", o.get(), w)
        k = c.scalar("gain%d" % stage)
        c.call("aa_rx_ik_parm_center_configs", parm, ch.sub, k)
        c.isint("sizes", (c.call("amv_parm_count", parm, 0), c.call("amv_parm_count", parm, 1)), (n, n))
        c.eq("reference configuration", c.deref(c.call("amv_parm_q_ref", parm), n), [lim[j][0] + lim[j][1] / 2 if j in lim else 0 for j in ch.joints])
        c.eq("gains", c.deref(c.call("amv_parm_gain", parm), n), [2 * c.pi * k / lim[j][1] if j in lim else 0 for j in ch.joints])
        c.call("aa_rx_ik_parm_center_seed", parm, ch.sub)
        c.isint("size of the seed", c.call("amv_parm_count", parm, 2), ch.n)
        w = [0] * ch.n
        for i, j in enumerate(ch.joints):
            w[ch.cf[i]] = lim[j][0] + lim[j][1] / 2 if j in lim else 0
        c.eq("seed", c.deref(c.call("amv_parm_seed", parm), ch.n), w)
    c.call("aa_rx_ik_parm_destroy", parm)
    c.call("aa_rx_wk_opts_destroy", opts)
    ch.done()



@item("W01.dx_pos", P, "aa_rx_wk_dx_pos", cxx=True)
def _(c):
    """moving at the feedback velocity of unit gains for two units of time leads from the actual pose to the reference"""
    A, V = c.unit("A", 4), c.vec("V", 3, lin=True)
    u, p, d = c.unit("u", 3), c.angle("p", 0, "1/2"), c.vec("d", 3, lin=True)
    c.req(c.pi / 2 - p, ">")
    w, tv = scale(p, u), scale(p, d)
    ref = tf_mul((qexpu(u, p), screw(u, d, 2 * p)), (A, V))
    ga, gt = c.scalar("ga", lin=True), c.scalar("gt", lin=True)
    opts = c.call("amv_wk_opts", 1, 1, 1, ga, gt)
    vel = add(tv, cross(w, V))
    for s in (1, -1):
        for inc in (1, 2):
            g0 = c.vec("g%d" % inc, 6 * inc)
            o = c.inout(g0)
            c.call("aa_rx_wk_dx_pos", opts, c.inp(A + V), c.inp(scale(s, ref[0]) + list(ref[1])), c.dvec(6, o, inc, ro=True))
            want = list(g0)
            for i in range(3):
                want[i * inc] = g0[i * inc] + gt * vel[i]
                want[(i + 3) * inc] = g0[(i + 3) * inc] + ga * w[i]
            c.eq("feedback added (%+d, stride %d)" % (s, inc), o.get(), want, small="p")
    c.call("aa_rx_wk_opts_destroy", opts)


# ---------------------------------------------------------------- inverse kinematics
class IK:
    """a solver context whose frame tables hold arbitrary poses"""
    def __init__(self, c, nm, parm=None, frame=None):
        self.c = c
        self.ch = ch = Chain(c, nm)
        self.parm = c.call("aa_rx_ik_parm_create")
        if frame:
            c.call("aa_rx_ik_parm_set_frame", self.parm, ch.ids[frame])
            ch.tip = ch.ids[frame]
        self.cx = c.call("aa_rx_ik_cx_create", ch.sub, self.parm)
        self.outside = [i for f, i in ch.ids.items() if f not in ch.fr]
        self.last = None
        if c.symbolic:
            c.abstract("aa_rx_fk_all", lambda fk, q: ch.pose(fk))
            c.abstract("aa_rx_sg_fill_tf_abs", lambda sg, q, m: None)
            c.abstract("aa_rx_fk_sub", self._sub)
        self.qs = c.vec("qstart", ch.n)
        self.seed = c.vec("qseed", ch.m)
        c.call("aa_rx_ik_set_start", self.cx, c.dvec(ch.n, c.inp(self.qs), 1, ro=True))
        c.call("aa_rx_ik_set_seed", self.cx, c.dvec(ch.m, c.inp(self.seed), 1, ro=True))

    def _sub(self, fk, sub, q):
        c, ch = self.c, self.ch
        n, inc = c.intfield(q, 0), c.intfield(q, 16)
        self.last = c.deref(c.ptrfield(q, 8), (n - 1) * inc + 1)[::inc]
        for i in self.outside:
            c.eq("frame %d outside the chain has its pose at the start configuration" % i, c.deref(c.call("aa_rx_fk_ref", fk, i), 7), ch.given[i])
        ch.pose(fk)

    def at(self, x):
        """poses with the chain at x and the other joints at the start configuration"""
        c, ch = self.c, self.ch
        if not c.symbolic:
            c.call("aa_rx_fk_all", ch.fk, c.dvec(ch.n, c.inp(self.qs), 1, ro=True))
            c.call("aa_rx_fk_sub", ch.fk, ch.sub, c.dvec(ch.m, c.inp(x), 1, ro=True))
        return ch.table()

    def used(self, label, x):
        if self.c.symbolic:
            self.c.eq(label, self.last, x)

    def solver(self, TF):
        """the state the solver's callbacks work on"""
        c, ch = self.c, self.ch
        self.reg = c.new_region()
        fk = c.call("aa_rx_fk_malloc", ch.g.sg)
        if c.symbolic:
            ch.pose(fk)
        else:
            c.call("aa_rx_fk_all", fk, c.dvec(ch.n, c.inp(self.qs), 1, ro=True))
        qa, qs = c.dvec(ch.n, c.inout(self.qs)), c.dvec(ch.m, c.inout(self.seed))
        return c.call("amv_ik_solver", self.reg, self.cx, TF, qa, qs, fk, ch.tip)

    def tol(self, a, t):
        self.c.call("aa_rx_ik_parm_set_tol_angle", self.parm, a)
        self.c.call("aa_rx_ik_parm_set_tol_trans", self.parm, t)

    def done(self):
        self.c.call("aa_rx_ik_cx_destroy", self.cx)
        self.c.call("aa_rx_ik_parm_destroy", self.parm)


def tfref(c, E): return c.dmat(7, 1, c.inp(E), 7, ro=True)


def off_ref(c, E, sgn=1):
    """a reference that differs from the pose E by the rotation 2p about u and the translation n x, in E's frame"""
    u, p = c.unit("u", 3), c.angle("p", 0, "1/2")
    c.req(c.pi / 2 - p, ">")
    x, n = c.unit("xd", 3), c.scalar("n", nonneg=True)
    r = tf_mul(pair(E), (qexpu(u, p), scale(n, x)))
    return scale(sgn, r[0]) + list(r[1]), p, n       # the error angle is the angle of the quaternion


CASES = [(a, t, s) for a in (1, -1, 0) for t in (1, -1, 0) for s in (1, -1) if a == 1 or t == 1]


def tols(c, ik, a, t, ang, n):
    """tolerances above (1), below (-1) or equal (0) to the error"""
    ik.tol(ang + a * c.scalar("ea", pos=True) if a else ang, n + t * c.scalar("et", pos=True) if t else n)


def tag(*k): return "".join("-=+"[x + 1] for x in k)


def mk_check(nm, a, t, s, frame=None):
    @item("W01.check.%s%s.%s" % (nm, frame or "", tag(a, t, s)), P, "aa_rx_ik_check aa_rx_ik_cx_create aa_rx_ik_set_start aa_rx_ik_parm_set_tol_angle aa_rx_ik_parm_set_tol_trans", cxx=True, bounded=BG % nm)
    def _(c):
        """the check accepts exactly the configurations whose pose is within both tolerances"""
        ik = IK(c, nm, frame=frame)
        x = c.vec("x", ik.ch.m)
        E = ik.at(x)[ik.ch.tip]
        ref, ang, n = off_ref(c, E, s)
        tols(c, ik, a, t, ang, n)
        if not c.symbolic and 0 in (a, t):
            return
        r = c.call("aa_rx_ik_check", ik.cx, tfref(c, ref), c.dvec(ik.ch.m, c.inp(x), 1, ro=True), ret="i")
        c.true("accepted" if a > 0 and t > 0 else "rejected", (r == 0) == (a > 0 and t > 0))
        ik.used("configuration checked", x)
        ik.done()


for a, t, s in CASES:
    mk_check("rp", a, t, s)
mk_check("r", 1, 1, 1)
mk_check("rp", 1, 1, 1, "p")
mk_check("rp", 1, -1, 1, "p")


def mk_solve(nm, a, t, lims):
    @item("W01.solve.%s.%s.%s" % (nm, tag(a, t), lims), P, "aa_rx_ik_solve aa_rx_ik_set_seed aa_rx_ik_parm_set_obj aa_rx_ik_jac_solve aa_rx_ik_jac_cx_create aa_rx_ik_jac_fun", cxx=True, bounded=BG % nm)
    def _(c):
        """wherever the optimiser ends, the solver returns that configuration and claims success only for a pose within tolerance"""
        ik = IK(c, nm)
        ch = ik.ch
        lo, hi = [-1.7976931348623157e308] * ch.m, [1.7976931348623157e308] * ch.m
        for i, j in enumerate(ch.joints):
            if lims[i] == "l":
                lo[i], hi[i] = c.scalar("lo%d" % i), c.scalar("hi%d" % i)
                c.call("aa_rx_sg_set_limit_pos", ch.g.sg, c.cstr(j), lo[i], hi[i])
        c.call("aa_rx_ik_parm_set_obj", ik.parm, c.fnptr("aa_rx_ik_opt_err_trans"))
        x = c.vec("x", ch.m)
        c.poke(c.call("amv_nlopt_end"), x)
        E = ik.at(x)[ch.tip]
        ref, ang, n = off_ref(c, E)
        tols(c, ik, a, t, ang, n)
        for way in range(2):
            g0 = c.vec("q0", ch.m)
            q = c.inout(g0)
            if way:
                r = c.call("aa_rx_ik_jac_solve", ik.cx, 1, c.inp(ref), 7, ch.m, q, ret="i")
            else:
                r = c.call("aa_rx_ik_solve", ik.cx, tfref(c, ref), c.dvec(ch.m, q, 1, ro=True), ret="i")
            c.true("accepted" if a > 0 and t > 0 else "rejected", (r == 0) == (a > 0 and t > 0))
            c.eq("configuration returned", q.get(), x)
            ik.used("configuration checked", x)
            c.isint("number of variables", c.call("amv_nlopt_n"), ch.m)
            c.eq("search starts at the seed", c.deref(c.call("amv_nlopt_start"), ch.m), ik.seed)
            c.eq("lower bounds", c.deref(c.call("amv_nlopt_lo"), ch.m), lo)
            c.eq("upper bounds", c.deref(c.call("amv_nlopt_hi"), ch.m), hi)
        ik.done()


mk_solve("rp", 1, 1, "ll")
mk_solve("rp", 1, 1, "l-")
mk_solve("rp", 1, -1, "-l")
mk_solve("rp", -1, 1, "--")
mk_solve("r", 1, 1, "l")


@item("W01.solve.invalid", P, "aa_rx_ik_solve", cxx=True, bounded=BG % "rp")
def _(c):
    ik = IK(c, "rp")
    b = c.inp(c.vec("E", 16))
    for rows, cols, n in ((7, 1, 1), (7, 1, 3), (6, 1, 2), (8, 1, 2), (7, 2, 2), (7, 0, 2)):
        g0 = c.vec("q%d" % n, n)
        q = c.inout(g0)
        r = c.call("aa_rx_ik_solve", ik.cx, c.dmat(rows, cols, b, 8, ro=True), c.dvec(n, q, 1, ro=True), ret="i")
        c.true("invalid sizes are refused", r != 0)
        c.eq("configuration untouched", q.get(), g0)
    ik.done()


def mk_term(nm, a, t, d, it, clamp=None):
    @item("W01.term.%s.%s%s" % (nm, tag(a, t, d, it), clamp or ""), P, "kin_solve_check", cxx=True, bounded=BG % nm)
    def _(c):
        """the iterative solver stops successfully only within both tolerances and at rest, at a configuration inside the limits"""
        ik = IK(c, nm)
        ch = ik.ch
        x = c.vec("x", ch.m)
        w = list(x)
        if clamp:
            for i, j in enumerate(ch.joints):
                e, rg = c.scalar("e%d" % i, pos=True), c.scalar("rg%d" % i, pos=True)
                k = clamp[i]
                lo = x[i] + e if k == "l" else x[i] - e - rg if k == "h" else x[i] - e
                hi = lo + rg if k != "i" else x[i] + rg
                w[i] = lo if k == "l" else hi if k == "h" else x[i]
                c.call("aa_rx_sg_set_limit_pos", ch.g.sg, c.cstr(j), lo, hi)
        E = ik.at(w)[ch.tip]
        ref, ang, n = off_ref(c, E)
        tols(c, ik, a, t, ang, n)
        y = c.vec("y", ch.m)
        ed = c.scalar("ed", pos=True)
        c.call("aa_rx_ik_parm_set_tol_dq", ik.parm, dot(y, y) + d * ed)
        c.call("aa_rx_ik_parm_set_max_iterations", ik.parm, 5 if it > 0 else 0)
        st = ik.solver(tfref(c, ref))
        xb = c.inout(x)
        r = c.call("kin_solve_check", st, c.scalar("time"), xb, c.inp(y), ret="i")
        c.isint("verdict", r, 1 if a > 0 and t > 0 and d > 0 else 0 if it > 0 else -1)
        c.eq("configuration clamped to the limits", xb.get(), w)
        ik.used("configuration checked", w)
        ik.done()


for k in [(1, 1, 1, 1), (1, 1, 1, -1), (-1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, 1), (1, 1, -1, -1), (-1, 1, 1, -1)]:
    mk_term("rp", *k)
for cl in ("ll", "hi", "ih", "li"):
    mk_term("rp", 1, 1, 1, 1, cl)


JPINV = 1


def mk_jpinv(nm, a, t, its):
    @item("W01.jpinv.%s.%s.%d" % (nm, tag(a, t), its), P, "aa_rx_ik_solve kin_solve_check aa_rx_ik_parm_set_ik_algo", cxx=True, bounded=BG % nm)
    def _(c):
        """wherever the integrator's states go, the iterative solver claims success only at a configuration within tolerance;
        the integrator (O01) asks the check after each step and returns the state the check left once it says to stop"""
        ik = IK(c, nm)
        ch = ik.ch
        x = c.vec("x", ch.m)
        E = ik.at(x)[ch.tip]
        ref, ang, n = off_ref(c, E)
        tols(c, ik, a, t, ang, n)
        y, x0 = c.vec("y", ch.m), c.vec("xearlier", ch.m)
        c.call("aa_rx_ik_parm_set_ik_algo", ik.parm, JPINV)
        c.call("aa_rx_ik_parm_set_tol_dq", ik.parm, dot(y, y) + c.scalar("ed", pos=True))
        c.call("aa_rx_ik_parm_set_max_iterations", ik.parm, its)
        rec = []
        q = c.inout(c.vec("q0", ch.m))
        if c.symbolic:
            def integrate(kind, opts, nn, fun, fcx, chk, kcx, t0, dt, xs, out):
                c.isint("dimension", nn, ch.m)
                c.eq("integration starts at the seed", c.deref(xs, ch.m), ik.seed)
                for k in range(4):
                    b = c.inout(x)
                    v = c.call(chk.name, kcx, c.scalar("time%d" % k), b, c.inp(y), ret="i")
                    rec.append(v)
                    c.poke(out, b.get())
                    if v:
                        return 0 if v > 0 else -1
                c.true("the check ends the search", False)
                return -1
            c.abstract("aa_ode_sol", integrate)
        r = c.call("aa_rx_ik_solve", ik.cx, tfref(c, ref), c.dvec(ch.m, q, 1, ro=True), ret="i")
        ok = a > 0 and t > 0
        if c.symbolic:
            c.true("accepted" if ok else "rejected", (r == 0) == ok)
            c.isint("the search ends at the first verdict", rec, [1] if ok else [0] * its + [-1])
            c.eq("configuration returned", q.get(), x)
            ik.used("configuration checked", x)
        elif r == 0:
            chk = c.call("aa_rx_ik_check", ik.cx, tfref(c, ref), c.dvec(ch.m, q, 1, ro=True), ret="i")
            c.isint("a solution passes the check", chk, 0)
        ik.done()


for k in [(1, 1, 2), (-1, 1, 2), (1, -1, 1), (-1, -1, 0)]:
    mk_jpinv("rp", *k)
mk_jpinv("r", 1, 1, 1)


def mk_sys(nm, null, mode):
    @item("W01.sys.%s.%s.%s" % (nm, "null" if null else "plain", mode), P, "kin_solve_sys aa_rx_ik_parm_take_config aa_rx_ik_parm_take_gain_config", cxx=True, bounded=BG % nm)
    def _(c):
        """the iterative solver moves the joints with the velocity that reduces the pose error"""
        ik = IK(c, nm)
        ch = ik.ch
        n = ch.m
        s2, kd, par = mode_par(c, mode)
        ga, gt = c.scalar("ga"), c.scalar("gt")
        c.call("amv_ik_wk", ik.parm, s2, kd, ga, gt)
        x = c.vec("x", n)
        tab = ik.at(x)
        J = ch.jac(tab)
        E = tab[ch.tip]
        ref = c.unit("refq", 4) + c.vec("refv", 3)
        if null:
            qr, gn = c.vec("qr", n), c.vec("gn", n)
            c.call("aa_rx_ik_parm_take_config", ik.parm, n, c.inp(qr), 1)
            c.call("aa_rx_ik_parm_take_gain_config", ik.parm, n, c.inp(gn), 1)
        st = ik.solver(tfref(c, ref))
        fb = c.vec("fb", 6)
        hits = []

        def pos(o, a, b, dx):
            hits.append((c.deref(a, 7), c.deref(b, 7), c.deref(c.ptrfield(dx, 8), 6)))
            c.poke(c.ptrfield(dx, 8), add(hits[-1][2], fb))
        c.abstract("aa_rx_wk_dx_pos", pos)
        pv = Pinv(c)
        o = c.out(n)
        c.call("kin_solve_sys", st, c.scalar("time"), c.inp(x), o)
        if c.symbolic:
            c.isint("one feedback term", len(hits), 1)
            c.eq("actual pose", hits[0][0], E)
            c.eq("reference pose", hits[0][1], ref)
            c.eq("nothing else is added", hits[0][2], [0] * 6)
        else:
            op = c.call("amv_wk_opts", s2, kd, 1, ga, gt)
            b = c.inout([0] * 6)
            c.call("aa_rx_wk_dx_pos", op, c.inp(E), c.inp(ref), c.dvec(6, b, 1, ro=True))
            fb = b.get()
        ik.used("configuration", x)
        Js = pv.of(MODES[mode], J, par)
        w = mul_js(Js, n, fb)
        if null:
            r = [-gn[i] * (x[i] - qr[i]) for i in range(n)]
            w = add(w, sub_(r, mul_js(Js, n, [S([J[j][i] * r[j] for j in range(n)]) for i in range(6)])))
        c.eq("joint velocity", o.get(), w, ntol=1e-5)
        ik.done()


for nm, null, mode in (("rp", 0, "svd"), ("rp", 1, "svd"), ("rp", 1, "lu"), ("r", 0, "plain")):
    mk_sys(nm, null, mode)


RK4, NOFRAME = 2, -2


def mk_tjx(nm, frame=None):
    @item("W01.tjx.%s%s" % (nm, "." + frame if frame else ""), P, "aa_rx_ct_tjx_path path_sys path_check aa_rx_ct_sg_limits", cxx=True, bounded=BG % nm + ", three points")
    def _(c):
        """tracking a workspace trajectory: the integrator (O01) is given the joint velocity that follows the trajectory's pose and
        velocity at each instant (aa_rx_ik_jac_x2dq, W01.jac_dx2dq), stops once the trajectory is over, and the
        path is cut off at the limits of the joints that have any"""
        ch = Chain(c, nm)
        m, n, k = ch.m, ch.n, ch.k
        g = ch.g
        lim, joint = {}, {}
        for f in g.f.values():
            if f["kind"] != FIX:
                joint[f["config"]] = len(joint)
        own = [g.f[f]["config"] for f in ch.joints]
        lo, wd = c.scalar("lo"), c.scalar("wd", pos=True)
        last = own[-1]
        c.call("aa_rx_sg_set_limit_pos", g.sg, c.cstr(last), lo, lo + wd)
        for o in joint:
            if o not in own:
                c.call("aa_rx_sg_set_limit_pos", g.sg, c.cstr(o), 7, 9)      # of joints that do not move
        parm = c.call("aa_rx_ik_parm_create")
        c.call("aa_rx_ik_parm_set_frame", parm, ch.ids[frame] if frame else NOFRAME)
        tip = ch.ids[frame] if frame else ch.tip
        s2, ga, gt = c.scalar("s2", pos=True) + 1, c.scalar("ga", bound=1), c.scalar("gt", bound=1)
        c.call("amv_ik_wk", parm, s2, 1, ga, gt)
        dt = F(1, 4)
        c.call("aa_rx_ik_parm_set_dt", parm, dt)
        qs = c.vec("qs", n)
        if c.symbolic:                       # the first point of the path is beyond the limit, the second within, the third below
            qs = list(qs)
            qs[ch.cf[-1]] = lo + wd + c.scalar("beyond", pos=True)
        x1 = c.vec("x1", m - 1) + [lo + wd * F(1, 2)]
        x2 = c.vec("x2", m - 1) + [lo - c.scalar("below", pos=True)]
        for v in [qs[i] for i in ch.cf[:-1]] + x1[:-1] + x2[:-1]:
            for y in (1, -1):
                c.req(c.lift(2 ** 1024) - y * v, ">")     # an unlimited joint is at a finite position
        T = c.scalar("T", pos=True)
        E, D = c.unit("E", 4) + c.vec("Ev", 3), c.vec("D", 6)
        reg = c.new_region()
        pts = []
        if c.symbolic:
            segs = c.struct([(0, 0)], size=8)
            st0 = {i: c.unit("S%d" % i, 4) + c.vec("T%d" % i, 3) for i in range(k)}
            rel = c.vec("rel", 7 * k)
            asked, used, vel = [], [], []
            tb = [F(0), T * F(1, 2), T]
            v = [c.vec("v%d" % i, m) for i in range(2)]

            def evl(s, state, t):
                c.true("the trajectory", c.sameptr(s, segs, 0))
                asked.append(t)
                c.poke(c.ptrfield(state, 48), E)
                c.poke(c.ptrfield(state, 56), D)
                return 1

            def tf(sg, nq, q, nf, r, ldr, a, lda):
                c.eq("frames of the start configuration", c.deref(q, n), qs)
                c.isint("sizes", (nq, nf), (n, k))
                for i in range(k):
                    c.poke(c.ptrat(r, 8 * ldr * i), rel[7 * i:7 * i + 7])
                    c.poke(c.ptrat(a, 8 * lda * i), st0[i])

            def upd(sg, nq, q0, q, nf, r0, l0, a0, la0, r, lr, a, la):
                c.isint("sizes", (nq, nf), (n, k))
                c.eq("start configuration", c.deref(q0, n), qs)
                for i in range(k):
                    c.eq("frames at the start", c.deref(c.ptrat(r0, 8 * l0 * i), 7) + c.deref(c.ptrat(a0, 8 * la0 * i), 7), rel[7 * i:7 * i + 7] + st0[i])
                    c.poke(c.ptrat(a, 8 * la * i), ch.given[i])
                used.append(c.deref(q, n))

            def x2dq(p, nn, q, a, r, dx, J, dq):
                c.true("parameters", c.sameptr(p, parm, 0))
                c.isint("joints", nn, m)
                c.eq("actual pose", c.deref(a, 7), ch.given[tip])
                c.eq("pose and velocity asked for", c.deref(r, 7) + c.deref(dx, 6), E + D)
                c.eq("Jacobian", c.deref(J, 6 * m), [x for col in ch.jac(ch.given) for x in col])
                vel.append(c.deref(q, m))
                c.poke(dq, v[len(vel) - 1])
                return 0

            def path_(kind, o, nn, fun, fcx, chk, kcx, t0, h, x0, region, np_, pp):
                c.isint("scheme, dimension", (kind, nn), (RK4, m))
                c.eq("start time and step", [t0, h], [0, dt])
                c.eq("the start is the chain's part of the start configuration", c.deref(x0, m), [qs[i] for i in ch.cf])
                c.true("the path is made in the caller's region", c.sameptr(region, reg, 0))
                for i, x in enumerate((x1, x2)):
                    b = c.out(m)
                    t = c.scalar("time%d" % i)
                    c.call(fun.name, fcx, t, c.inp(x), b)
                    c.eq("joint velocity", b.get(), v[i])
                    c.eq("instant", asked[-1], t)
                    w = list(qs)
                    for a_, b_ in zip(ch.cf, x):
                        w[a_] = b_
                    c.eq("configuration", used[-1], w)
                    c.eq("chain configuration", vel[-1], x)
                e = c.scalar("eps", pos=True)
                for t, w in ((T - e, 0), (T, 1), (T + e, 1)):
                    r = c.call(chk.name, kcx, t, c.inp(x1), c.inp(x2), ret="i")
                    c.isint("ends when the trajectory ends", r != 0, w != 0)
                c.call("amv_path_out", np_, pp, 3, c.inout(pts[0] + x1 + x2))
                return 5
            c.abstract("aa_ct_seg_list_eval", evl)
            c.abstract("aa_ct_seg_list_duration", lambda s: T)
            c.abstract("aa_rx_sg_tf", tf)
            c.abstract("aa_rx_sg_tf_update", upd)
            c.abstract("aa_rx_ik_jac_x2dq", x2dq)
            c.abstract("aa_ode_path", path_)
        else:
            ik = IK.__new__(IK)
            ik.c, ik.ch, ik.qs = c, ch, qs
        pts.append([qs[i] for i in ch.cf])
        np_, pp = c.ints([0], ro=False), c.struct([(0, 0)], size=8)
        if not c.symbolic:
            pl = c.call("aa_ct_pt_list_create", reg)
            for i, e in enumerate((E, c.unit("E2", 4) + c.vec("Ev2", 3))):
                c.call("aa_ct_pt_list_add", pl, c.struct([(0, 1), (16, c.inp([i])), (48, c.inp(e))], size=88))
            segs = c.call("aa_ct_tjx_slerp_generate", reg, pl)

            def f(t, x):
                X, dX = c.out(7), c.out(6)
                c.call("aa_ct_seg_list_eval", segs, c.struct([(48, X), (56, dX)], size=88), t, ret="i")
                tab = ik.at(x)
                o = c.out(m)
                c.call("aa_rx_ik_jac_x2dq", parm, m, c.inp(x), c.inp(tab[tip]), X, dX, c.inp([v for col in ch.jac(tab) for v in col]), o, ret="i")
                return o.get()
        r = c.call("aa_rx_ct_tjx_path", reg, parm, ch.sub, segs, n, c.inp(qs), np_, pp, ret="i")
        if c.symbolic:
            c.isint("result of the integrator", r, 5)
            want = [pts[0][:-1] + [lo + wd], x1, x2[:-1] + [lo]]
        else:
            x, t, want = pts[0], 0.0, [pts[0]]
            h = float(dt)
            while len(want) < 50:
                k1 = f(t, x)
                k2 = f(t + h / 2, [a + h / 2 * b for a, b in zip(x, k1)])
                k3 = f(t + h / 2, [a + h / 2 * b for a, b in zip(x, k2)])
                k4 = f(t + h, [a + h * b for a, b in zip(x, k3)])
                x = [a + h / 6 * (p_ + 2 * q_ + 2 * r_ + s_) for a, p_, q_, r_, s_ in zip(x, k1, k2, k3, k4)]
                t += h
                want.append(x)
                if t >= 1:
                    break
            want = [w[:-1] + [min(max(w[-1], lo), lo + wd)] for w in want]
        c.isint("points", np_.ints(1)[0], len(want))
        c.eq("path", c.deref(c.ptrfield_of(pp, 0), m * len(want)), [x for w in want for x in w], ntol=1e-4)
        for a in ((0, c.inp(qs)), (n, c.null())):
            c.true("a start configuration is needed", c.call("aa_rx_ct_tjx_path", reg, parm, ch.sub, segs, a[0], a[1], np_, pp, ret="i") != 0)
        c.call("aa_rx_ik_parm_destroy", parm)
        ch.done()


SH["abc"] = ([("a", REV, ""), ("b", PRI, ""), ("c", REV, "b")], "", "c")     # the chain's joints are not the first ones
for a in (("rp",), ("rp", "t"), ("prr",), ("abc",)):
    mk_tjx(*a)


def mk_jacdq(n, null):
    @item("W01.jac_dx2dq.%d.%d" % (n, null), P, "aa_rx_ik_jac_dx2dq aa_rx_ik_jac_x2dq", cxx=True, bounded="%d joints" % n)
    def _(c):
        parm = c.call("aa_rx_ik_parm_create")
        s2 = c.scalar("s2", pos=True)
        ga, gt = c.scalar("ga"), c.scalar("gt")
        c.call("amv_ik_wk", parm, s2, 1, ga, gt)
        J, x = c.vec("J", 6 * n), c.vec("x", n)
        if null:
            qr, gn = c.vec("qr", n), c.vec("gn", n)
            c.call("aa_rx_ik_parm_take_config", parm, n, c.inp(qr), 1)
            c.call("aa_rx_ik_parm_take_gain_config", parm, n, c.inp(gn), 1)
        rec = []
        if c.symbolic:
            Js = c.vec("Jstar", 6 * n)

            def pinv(m, nn, k, A, As):
                rec.append((m, nn, k, c.deref(A, 6 * n)))
                c.poke(As, Js)
            c.abstract("aa_la_dzdpinv", pinv)
        else:
            o = c.out(6 * n)
            c.call("aa_la_dzdpinv", 6, n, s2, c.inp(J), o)
            Js = o.get()

        def want(dx):
            w = mul_js(Js, n, dx)
            if null:
                r = [-gn[i] * (x[i] - qr[i]) for i in range(n)]
                w = add(w, sub_(r, mul_js(Js, n, [S([J[6 * j + i] * r[j] for j in range(n)]) for i in range(6)])))
            return w
        dx = c.vec("dx", 6)
        o = c.out(n)
        c.isint("result", c.call("aa_rx_ik_jac_dx2dq", parm, n, c.inp(x), c.inp(dx), c.inp(J), o, ret="i"), 0)
        c.eq("joint velocity", o.get(), want(dx), ntol=1e-5)
        A, B = c.unit("A", 4) + c.vec("V", 3), c.unit("B", 4) + c.vec("W", 3)
        if c.symbolic:
            fb = c.vec("fb", 6)

            def pos(op, a, b, d):
                c.eq("actual pose", c.deref(a, 7), A)
                c.eq("reference pose", c.deref(b, 7), B)
                c.poke(c.ptrfield(d, 8), add(c.deref(c.ptrfield(d, 8), 6), fb))
            c.abstract("aa_rx_wk_dx_pos", pos)
        else:
            op = c.call("amv_wk_opts", s2, 1, 1, ga, gt)
            b = c.inout([0] * 6)
            c.call("aa_rx_wk_dx_pos", op, c.inp(A), c.inp(B), c.dvec(6, b, 1, ro=True))
            fb = b.get()
        for v in (dx, None):
            o = c.out(n)
            c.isint("result", c.call("aa_rx_ik_jac_x2dq", parm, n, c.inp(x), c.inp(A), c.inp(B), c.inp(v) if v else c.null(), c.inp(J), o, ret="i"), 0)
            c.eq("joint velocity with feedback", o.get(), want(add(v, fb) if v else fb), ntol=1e-5)
        for m, nn, k, a in rec:
            c.isint("size", (m, nn), (6, n))
            c.eq("damping", k, s2)
            c.eq("Jacobian", a, J)
        c.call("aa_rx_ik_parm_destroy", parm)


for n in (1, 2, 3):
    for null in (0, 1):
        mk_jacdq(n, null)


# ---------------------------------------------------------------- objectives
def mk_qlnpv(nm, s):
    @item("W01.obj.qlnpv.%s.%s" % (nm, tag(s)), P, "aa_rx_ik_opt_err_qlnpv", cxx=True, bounded=BG % nm)
    def _(c):
        """squared angle (half-turn units) and squared distance to the reference, and its gradient"""
        ik = IK(c, nm)
        ch = ik.ch
        x = c.vec("x", ch.m)
        tab = ik.at(x)
        J, E = ch.jac(tab), tab[ch.tip]
        u, p, v = c.unit("u", 3), c.angle("p", 0, "1/2"), c.vec("refv", 3)
        c.req(c.pi / 2 - p, ">")
        ref = scale(s, qmul(E[:4], qexpu(u, p))) + v
        st = ik.solver(tfref(c, ref))
        e = sub_(E[4:], v)
        val = p * p + dot(e, e)
        c.eq("value", c.call("aa_rx_ik_opt_err_qlnpv", st, c.inp(x), c.null(), ret="d"), val, small="p")
        o = c.out(ch.m)
        c.eq("value", c.call("aa_rx_ik_opt_err_qlnpv", st, c.inp(x), o, ret="d"), val, small="p")
        ub = qrot(E[:4], u)
        c.eq("gradient", o.get(), [2 * dot(e, j[:3]) - p * dot(ub, j[3:]) for j in J], small="p")
        ik.used("configuration", x)
        ik.done()


def mk_trans(nm):
    @item("W01.obj.trans.%s" % nm, P, "aa_rx_ik_opt_err_trans", cxx=True, bounded=BG % nm)
    def _(c):
        ik = IK(c, nm)
        ch = ik.ch
        x = c.vec("x", ch.m)
        tab = ik.at(x)
        J, E = ch.jac(tab), tab[ch.tip]
        ref = c.unit("refq", 4) + c.vec("refv", 3)
        st = ik.solver(tfref(c, ref))
        e = sub_(E[4:], ref[4:])
        c.eq("value", c.call("aa_rx_ik_opt_err_trans", st, c.inp(x), c.null(), ret="d"), dot(e, e))
        o = c.out(ch.m)
        c.eq("value", c.call("aa_rx_ik_opt_err_trans", st, c.inp(x), o, ret="d"), dot(e, e))
        c.eq("gradient", o.get(), [2 * dot(e, j[:3]) for j in J])
        ik.used("configuration", x)
        ik.done()


@item("W01.obj.fd", P, "aa_rx_ik_opt_err_trans_fd aa_rx_ik_opt_err_qlnpv_fd", cxx=True, bounded=BG % "rp")
def _(c):
    ik = IK(c, "rp")
    ch = ik.ch
    x = c.vec("x", ch.m)
    E = ik.at(x)[ch.tip]
    u, p, v = c.unit("u", 3), c.angle("p", 0, "1/2"), c.vec("refv", 3)
    c.req(c.pi / 2 - p, ">")
    e = sub_(E[4:], v)
    for s in (1, -1):
        st = ik.solver(tfref(c, scale(s, qmul(E[:4], qexpu(u, p))) + v))
        c.eq("translation", c.call("aa_rx_ik_opt_err_trans_fd", st, c.inp(x), c.null(), ret="d"), dot(e, e))
        c.eq("angle and translation", c.call("aa_rx_ik_opt_err_qlnpv_fd", st, c.inp(x), c.null(), ret="d"), p * p + dot(e, e), small="p")
    ik.done()


@item("W01.obj.jcenter", P, "aa_rx_ik_opt_err_jcenter", cxx=True, bounded=BG % "prr")
def _(c):
    ik = IK(c, "prr")
    ch = ik.ch
    x = c.vec("x", ch.m)
    ctr = [0] * ch.m
    for j in ("q", "p"):
        i = ch.joints.index(j)
        lo, hi = c.scalar("lo" + j), c.scalar("hi" + j)
        c.call("aa_rx_sg_set_limit_pos", ch.g.sg, c.cstr(j), lo, hi)
        ctr[i] = (lo + hi) / 2
    st = ik.solver(tfref(c, [0, 0, 0, 1, 0, 0, 0]))
    d = sub_(x, ctr)
    c.eq("value", c.call("aa_rx_ik_opt_err_jcenter", st, c.inp(x), c.null(), ret="d"), dot(d, d) / 2)
    o = c.out(ch.m)
    c.eq("value", c.call("aa_rx_ik_opt_err_jcenter", st, c.inp(x), o, ret="d"), dot(d, d) / 2)
    c.eq("gradient", o.get(), d)
    ik.done()


def mk_dqln(nm, s):
    @item("W01.obj.dqln.%s.%s" % (nm, tag(s)), P, "aa_rx_ik_opt_err_dqln aa_rx_ik_opt_err_dqln_fd", cxx=True, bounded=BG % nm)
    def _(c):
        """squared logarithm of the relative pose; gradient through the derivative of the logarithm (R04, V02)"""
        ik = IK(c, nm)
        ch = ik.ch
        x = c.vec("x", ch.m)
        tab = ik.at(x)
        J, E = ch.jac(tab), tab[ch.tip]
        err = c.unit("errq", 4)
        c.req(err[3], ">")
        ve = c.vec("errv", 3)
        ref = tf_mul(pair(E), (err, ve))
        st = ik.solver(tfref(c, scale(s, ref[0]) + list(ref[1])))
        De = qv2dq(err, ve)                  # the error, taken with nonnegative scalar part
        if c.symbolic:
            L, Jr, Jd = c.vec("L", 8), c.vec("Jr", 16), c.vec("Jd", 16)

            def ln(a, r):
                c.eq("logarithm of the error", c.deref(a, 8), De)
                c.poke(r, L)

            def jac(a, m):
                c.eq("derivative taken at the error", c.deref(a, 8), De)
                d, ld = c.ptrfield(m, 16), c.intfield(m, 24)
                for j in range(4):
                    c.poke(c.ptrat(d, 8 * ld * j), Jr[4 * j:4 * j + 4] + Jd[4 * j:4 * j + 4])
                    c.poke(c.ptrat(d, 8 * ld * (j + 4)), [0] * 4 + Jr[4 * j:4 * j + 4])
            c.abstract("aa_tf_duqu_ln", ln)
            c.abstract("aa_tf_duqu_ln_jac", jac)
        else:
            o, m = c.out(8), c.out(64)
            c.call("aa_tf_duqu_ln", c.inp(De), o)
            c.call("aa_tf_duqu_ln_jac", c.inp(De), c.dmat(8, 8, m, 8, ro=True))
            L, M = o.get(), m.get()
            Jr, Jd = [M[8 * j + i] for j in range(4) for i in range(4)], [M[8 * j + i + 4] for j in range(4) for i in range(4)]
        val = dot(L, L)
        c.eq("value", c.call("aa_rx_ik_opt_err_dqln", st, c.inp(x), c.null(), ret="d"), val)
        c.eq("value", c.call("aa_rx_ik_opt_err_dqln_fd", st, c.inp(x), c.null(), ret="d"), val)
        o = c.out(ch.m)
        c.eq("value", c.call("aa_rx_ik_opt_err_dqln", st, c.inp(x), o, ret="d"), val)
        got = o.get()
        Dr = qv2dq(*ref)
        Da = qv2dq(E[:4], E[4:])
        for k, j in enumerate(J):
            tw = pure(j[3:]) + pure(sub_(j[:3], cross(j[3:], E[4:])))     # twist of the tip per unit joint velocity
            dDa = scale(F(1, 2), dmul(tw, Da))
            dDe = dmul(dconj(dDa), Dr)
            a = [S([Jr[4 * q + i] * dDe[q] for q in range(4)]) for i in range(4)]
            b = [S([Jd[4 * q + i] * dDe[q] + Jr[4 * q + i] * dDe[4 + q] for q in range(4)]) for i in range(4)]
            c.eq("gradient %d" % k, got[k], 2 * dot(L, a + b))
        ik.done()


for nm in ("rp", "r"):
    mk_trans(nm)
    for s in (1, -1):
        mk_qlnpv(nm, s)
        mk_dqln(nm, s)


@item("W01.gradient", P, "", replay=False)
def _(c):
    """the specified gradient of the orientation error is its derivative: the angle between a body turning with
    angular velocity w and a fixed reference changes at the rate -(w . u)/2"""
    q, u, p, w = c.unit("q", 4), c.unit("u", 3), c.angle("p", 0, "1/2"), c.vec("w", 3, lin=True)
    ref = qmul(q, qexpu(u, p))
    dq = scale(F(1, 2), qmul(pure(w), q))
    de = qmul(qconj(dq), ref)
    # cos p is the scalar part of the error; -sin p dp is its derivative
    c.eq("rate of the scalar part", de[3], sin(p) * dot(qrot(q, u), w) / 2)


# ---------------------------------------------------------------- workspace control under limits
def mk_lc3(nm, mode, pat, lims, status=0):
    @item("W01.lc3.%s.%s.%s.%d" % (nm, mode, "_".join("%s%s" % (k, "".join(v)) for k, v in lims.items()) or "free", status) + "." + pat, P,
          "aa_rx_wk_dx2dq_lc3 aa_rx_wk_lc3_create", cxx=True, bounded=BG % nm + "; limits as in the name; signs of the six velocity errors %s" % pat)
    def _(c):
        """the program solved maximises progress towards the reference within the limits, and its solution is applied"""
        big = lambda v: (c.req(10 ** 20 - v, ">"), c.req(10 ** 20 + v, ">"))
        ch = Chain(c, nm)
        n = ch.m
        s2, kd, par = mode_par(c, mode)
        dt = c.scalar("dt", pos=True)
        opts = c.call("amv_wk_opts", s2, kd, c.scalar("np"), c.scalar("ga"), c.scalar("gt"))
        c.abstract("aa_rx_fk_all", lambda fk, q: None)
        pv = Pinv(c)
        x = c.vec("sol", 7)
        c.call("amv_lp_reset", status, c.inp(x), 7)
        if c.symbolic:                           # the table may hold any poses: those of the chain
            mal = lambda sg, reg: c.call("aa_rx_fk_malloc", sg)

            def al(sg, reg):
                fk = c.call("aa_rx_fk_malloc", sg)
                ch.pose(fk)
                return fk
            c.abstract("aa_rx_fk_alloc", al)
        lc = c.call("aa_rx_wk_lc3_create", ch.sub, opts)
        pv.rec.clear()
        L = {}
        for cn, ws in lims.items():
            for w in ws:
                w = {"p": "pos", "v": "vel", "a": "acc"}[w]
                setlim(c, ch.g, L, cn, w)
                for v in L[cn, w]:
                    big(v)
        J = ch.jac(ch.table())
        q, da, dr = c.vec("q", n), c.vec("da", n), c.vec("dr", n)
        g = [{"+": 1, "-": -1, "0": 0}[k] * c.scalar("g%d" % i, pos=True) for i, k in enumerate(pat)]
        for k, v in zip(pat, g):
            if k != "0":
                big(v)
        va = [S([J[j][i] * da[j] for j in range(n)]) for i in range(6)]

        def cands(i, w):
            """what limits the change of velocity of joint i from below (w = 0) or above (w = 1)"""
            cn, o_, r = ch.g.f[ch.joints[i]]["config"], 1 - w, []
            if (cn, "vel") in L:
                r.append(L[cn, "vel"][w] - da[i])
            if (cn, "acc") in L:
                r.append(L[cn, "acc"][w] * dt)
            if (cn, "acc") in L and (cn, "pos") in L:
                r.append((L[cn, "pos"][w] - q[i]) / dt - L[cn, "acc"][o_] * dt / 2 - da[i])
            return r
        for i in range(n):
            for v in cands(i, 0) + cands(i, 1):
                big(v)
        o = c.inout(c.vec("old", n))
        old = o.get()
        vec = lambda v: c.dvec(len(v), c.inp(v), 1, ro=True)
        dx = [a + dt * b for a, b in zip(va, g)]
        c.isint("status of the solver", c.call("aa_rx_wk_dx2dq_lc3", lc, dt, ch.fk, vec(dx), vec(q), vec(da), vec(dr), c.dvec(n, o), ret="i"), status)
        Js = pv.of(MODES[mode], J, par)
        e = sub_(da, dr)
        Je = [S([J[j][i] * e[j] for j in range(n)]) for i in range(6)]
        N = sub_(mul_js(Js, n, Je), e)
        num = dict(ntol=1e-5)
        li = lambda w: c.call("amv_lp_int", w, ret="i")
        c.isint("rows, columns, direction", (li(0), li(1), li(2), li(3)), (n, 7, 1, 0))
        c.eq("objective", c.deref(c.call("amv_lp_obj"), 7), g + [1], **num)
        for j in range(7):
            for w in (0, 1):
                v = c.out(1)
                c.isint("bounds of variable %d" % j, c.call("amv_lp_col", j, w, v, ret="i"), 1)
                want = w if j == 6 else (g[j] if pat[j] == ("-", "+")[w] else 0)
                c.eq("%s bound of variable %d" % (("lower", "upper")[w], j), v.get(), [want], **num)
        for i in range(n):
            c.eq("row %d" % i, c.deref(c.call("amv_lp_a", i), 7), [dt * Js[i + n * j] for j in range(6)] + [N[i]], **num)
            for w, sg in ((0, -1), (1, 1)):
                cand = cands(i, w)
                v = c.out(1)
                nme = "%s bound of row %d" % (("lower", "upper")[w], i)
                c.isint(nme + " present", c.call("amv_lp_rowb", i, w, v, ret="i"), int(bool(cand)))
                if cand:
                    c.anyof(nme, [(v.get(), [k]) for k in cand])
                    for k in cand:
                        c.cmp(nme + " is the tightest", sg * (k - v.get()[0]), ">=", **num)
        if status:
            c.eq("no answer: joint velocities are left alone", o.get(), old)
        else:
            c.eq("joint velocities", o.get(), [da[i] + dt * a + x[6] * N[i] for i, a in enumerate(mul_js(Js, n, x[:6]))], **num)
        c.isint("a step that is not positive is refused", c.call("aa_rx_wk_dx2dq_lc3", lc, 0 * dt, ch.fk, vec(dx), vec(q), vec(da), vec(dr), c.dvec(n, o), ret="i"), -1)


for nm, mode, pat, lims, st in (("rp", "plain", "+-0+-0", {}, 0), ("r", "svd", "-0+-0+", {"r": "v"}, 0), ("prr", "lu", "0+-0+-", {"p": "a"}, 0),
                                ("rp", "svd", "0+--+0", {"r": "va"}, 0), ("r", "lu", "+0--0+", {"r": "pva"}, 0), ("rp", "plain", "++++++", {"p": "pa", "r": "p"}, 4),
                                ("r", "plain", "------", {"r": "p"}, 0), ("abc", "plain", "+-0+-0", {"a": "pva", "c": "va"}, 0), ("rp", "lu", "000000", {"r": "v", "p": "v"}, 0)):
    mk_lc3(nm, mode, pat, lims, st)


@item("M02.ik", "M02", "aa_rx_ik_cx_create aa_rx_ik_cx_destroy aa_rx_ik_set_frame_id aa_rx_ik_set_frame_name aa_rx_ik_parm_create aa_rx_ik_parm_destroy aa_rx_ik_parm_take_config aa_rx_ik_parm_take_gain_config aa_rx_ik_parm_take_seed aa_rx_wk_opts_create aa_rx_wk_opts_destroy aa_rx_sg_sub_destroy", cxx=True, bounded=BG % "rp")
def _(c):
    """a kinematic solver and its parameters give back all they took, the vectors copied or handed over included, also when these are given again"""
    ch = Chain(c, "rp")
    n = ch.m
    c.abstract("aa_rx_fk_all", lambda fk, q: None)
    c.abstract("aa_rx_sg_fill_tf_abs", lambda sg, q, m: None)
    live = c.live()
    o = c.call("aa_rx_wk_opts_create")
    c.call("aa_rx_wk_opts_destroy", o)
    c.freed("workspace control options", live)
    sub = c.call("aa_rx_sg_chain_create", ch.g.sg, ch.ids["z"], ch.ids["t"])
    for what in ("one vector", "several"):
        parm = c.call("aa_rx_ik_parm_create")
        for k in (0,) if what == "one vector" else (0, 0, 1):         # copied; copied again, borrowed
            for f, m in (("config", n), ("gain_config", n), ("seed", ch.n)):
                c.call("aa_rx_ik_parm_take_" + f, parm, m, c.inp(c.vec("%s_%d_%s" % (f, k, what), m)), k)
        cx = c.call("aa_rx_ik_cx_create", sub, parm)
        for k in range(2):
            c.call("aa_rx_ik_set_frame_id", cx, ch.ids["r"])
            c.call("aa_rx_ik_set_frame_name", cx, c.cstr("p"))
        c.call("aa_rx_ik_cx_destroy", cx)
        c.call("aa_rx_ik_parm_destroy", parm)
    c.call("aa_rx_sg_sub_destroy", sub)
    c.freed("memory is given back", live)
    ch.done()


@item("W01.context", P, "aa_rx_ik_cx_create aa_rx_ik_get_start aa_rx_ik_get_seed aa_rx_ik_set_start aa_rx_ik_set_seed aa_rx_ik_set_seed_center aa_rx_ik_set_seed_rand aa_rx_ik_set_restart_time aa_rx_ik_get_restart_time", cxx=True, bounded=BG % "prr")
def _(c):
    """the start and the seed of a solver are those given last: the zero start and the middle of the ranges at first, copies of the vectors set, or random values within the limits"""
    ch = Chain(c, "prr")
    j = ch.joints[0]
    lo, rg = c.scalar("lo"), c.scalar("rg", pos=True)
    c.call("aa_rx_sg_set_limit_pos", ch.g.sg, c.cstr(ch.g.f[j]["config"]), lo, lo + rg)
    if c.symbolic:
        c.abstract("aa_rx_fk_all", lambda fk, q: None)
        c.abstract("aa_rx_sg_fill_tf_abs", lambda sg, q, m: None)
    parm = c.call("aa_rx_ik_parm_create")
    cx = c.call("aa_rx_ik_cx_create", ch.sub, parm)

    def held(f, n):
        v = c.call("aa_rx_ik_get_" + f, cx)
        inc = c.intfield(v, 16)
        c.isint("length of the " + f, c.intfield(v, 0), n)
        return c.deref(c.ptrfield(v, 8), (n - 1) * inc + 1)[::inc]

    mid = [lo + rg / 2] + [0] * (ch.m - 1)
    c.eq("first start", held("start", ch.n), [0] * ch.n)
    c.eq("first seed", held("seed", ch.m), mid)
    for inc in (1, 2):
        qs, sd = c.vec("qs%d" % inc, ch.n * inc), c.vec("sd%d" % inc, ch.m * inc)
        c.call("aa_rx_ik_set_start", cx, c.dvec(ch.n, c.inp(qs), inc, ro=True))
        c.call("aa_rx_ik_set_seed", cx, c.dvec(ch.m, c.inp(sd), inc, ro=True))
        c.eq("start set", held("start", ch.n), qs[::inc])
        c.eq("seed set", held("seed", ch.m), sd[::inc])
    t = [c.scalar("t%d" % i, nonneg=True) for i in range(ch.m)]
    k = iter([x / (x + c.scalar("t%dc" % i, pos=True)) for i, x in enumerate(t)])
    c.abstract("aa_frand", lambda: next(k))
    c.call("aa_rx_ik_set_seed_rand", cx)
    r = held("seed", ch.m)
    for i in range(ch.m):
        a, b = (lo, lo + rg) if not i else (-c.pi, c.pi)
        c.cmp("random seed %d not below its range" % i, r[i] - a)
        c.cmp("random seed %d not above its range" % i, b - r[i])
    c.eq("start kept", held("start", ch.n), qs[::2])
    c.call("aa_rx_ik_set_seed_center", cx)
    c.eq("seed in the middle", held("seed", ch.m), mid)
    x = c.scalar("time")
    c.call("aa_rx_ik_set_restart_time", cx, x)
    c.eq("restart time", [c.call("aa_rx_ik_get_restart_time", cx, ret="d")], [x])
    c.call("aa_rx_ik_cx_destroy", cx)
    c.call("aa_rx_ik_parm_destroy", parm)
    ch.done()
