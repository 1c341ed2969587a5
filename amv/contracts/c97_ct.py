"""J01: trajectories through waypoints (src/ct/traj.cpp, src/ct/state.c).

Trajectories are generated and evaluated through the public interface by the real
code, for arbitrary waypoints, velocity and acceleration limits and times."""
from ..spec import item
from ..ops import *
from fractions import Fraction as F

P = "J01"
# struct aa_ct_state
N_Q, N_TF, Q_, DQ, DDQ, EFF, X_, DX, DDX, TFA, TFR = [8 * i for i in range(11)]


def state(c, n, q=None, dq=None, ddq=None, X=None, dX=None, ddX=None, ro=True):
    z = c.null()
    return c.struct([(N_Q, n), (N_TF, 0), (Q_, q or z), (DQ, dq or z), (DDQ, ddq or z), (EFF, z), (X_, X or z), (DX, dX or z), (DDX, ddX or z), (TFA, z), (TFR, z)], ro=ro)


class T:
    """a trajectory through the points pts (lists of n_q values)"""
    def __init__(self, c, gen, pts, vmax=None, vmin=None, amax=None, amin=None):
        self.c = c
        self.n = n = len(pts[0])
        self.reg = c.new_region()
        pl = c.call("aa_ct_pt_list_create", self.reg)
        for p in pts:
            c.call("aa_ct_pt_list_add_q", pl, n, c.inp(p))
        c.isint("points", c.call("aa_ct_pt_list_size", pl), len(pts))
        i = lambda x: c.inp(x) if x else None
        lim = c.struct([(0, state(c, n, dq=i(vmin), ddq=i(amin))), (8, state(c, n, dq=i(vmax), ddq=i(amax)))], ro=True)
        self.s = c.call(gen, self.reg, pl, lim)
        self.pl = pl
        c.isint("configurations", c.call("aa_ct_seg_list_n_q", self.s), n)
        self.D = c.call("aa_ct_seg_list_duration", self.s)

    def eval(self, t, dq=True, ddq=True):
        c = self.c
        o = [c.out(self.n), c.out(self.n) if dq else None, c.inout([0] * self.n) if ddq else None]
        r = c.call("aa_ct_seg_list_eval", self.s, state(c, self.n, *o), t, ret="i")
        self.ddq = o[2].get() if ddq else None
        return r, o[0].get(), o[1].get() if dq else None

    def end(self):
        c = self.c
        c.call("aa_ct_seg_list_destroy", self.s)
        c.call("aa_ct_pt_list_destroy", self.pl)
        c.call("aa_mem_region_destroy", self.reg)


EPS = F(1, 1000)   # consecutive points within AA_EPSILON are one point


def pts(c, k, n, sg):
    """k+1 points; sg[j][i] in +1, -1: at least EPS apart; +2, -2: any distance; 0: equal"""
    p = [c.vec("p", n)]
    for j in range(k):
        d = []
        for i in range(n):
            s = sg[j][i]
            nm = "d%d%d" % (j, i)
            d.append(0 if s == 0 else s * (EPS + c.scalar(nm, pos=True)) if abs(s) == 1 else (s // 2) * c.scalar(nm, nonneg=True))
        p.append([x + y for x, y in zip(p[-1], d)])
    return p


def lims(c, n):
    v = [c.scalar("v%d" % i, pos=True) for i in range(n)]
    w = [-c.scalar("w%d" % i, pos=True) for i in range(n)]
    return v, w


def mk_lin(sg):
    k, n = len(sg), len(sg[0])
    tag = "_".join("".join("0pnPN"[{0: 0, 1: 1, -1: 2, 2: 3, -2: 4}[x]] for x in r) for r in sg)
    for seg in range(k):
        @item("J01.lin.%s.s%d" % (tag, seg), P, "aa_ct_tjq_lin_generate aa_ct_seg_list_eval aa_ct_seg_list_duration aa_ct_pt_list_add_q", cxx=True, bounded="%d points, %d joints, signs %s, segment %d" % (k + 1, n, tag, seg))
        def _(c, seg=seg):
            p = pts(c, k, n, sg)
            v, w = lims(c, n)
            # the duration of the trajectory through a prefix of the points is the time of its last point
            D = [0]
            for m in range(2, seg + 3):
                t = T(c, "aa_ct_tjq_lin_generate", p[:m], vmax=v, vmin=w)
                D.append(t.D)
                if m < k + 1:
                    t.end()
            if seg + 2 < k + 1:
                t = T(c, "aa_ct_tjq_lin_generate", p, vmax=v, vmin=w)
            a, b = D[seg], D[seg + 1]
            c.cmp("later points are reached later", b - a, ">")
            s = c.scalar("s", pos=True)
            c.req(1 - s, ">")
            # forwards and back again
            for x in (0, s, 1, s):
                r, q, dq = t.eval(a + x * (b - a))
                c.isint("within the trajectory", r, 1)
                c.eq("position at fraction %s of the segment" % x, q, [p[seg][i] + x * (p[seg + 1][i] - p[seg][i]) for i in range(n)])
                if x is s:
                    c.eq("velocity", [d * (b - a) for d in dq], sub(p[seg + 1], p[seg]))
                    for i in range(n):
                        c.cmp("velocity of joint %d below its maximum" % i, v[i] - dq[i])
                        c.cmp("velocity of joint %d above its minimum" % i, dq[i] - w[i])
            t.end()


for sg in ([[1]], [[-1]], [[1], [-1]], [[1, 2]], [[-2, 1]], [[-1, -2]], [[1, 0], [-2, -1]]):
    mk_lin(sg)


def mk_trap(sg, gen="trap", mag=None):
    k, n = len(sg), len(sg[0])
    tag = "_".join("".join("0pn"[x] for x in r) for r in sg)
    for seg in range(k):
        for ph in ("ends", "up", "flat", "down"):
            @item("J01.%s.%s.s%d.%s" % (gen, tag, seg, ph), P, "aa_ct_tjq_%s_generate aa_ct_seg_list_eval aa_ct_seg_list_duration aa_ct_pt_list_add_q" % gen, cxx=True, bounded="%d points, %d joints, signs %s, segment %d" % (k + 1, n, tag, seg))
            def _(c, seg=seg, ph=ph):
                a = [c.scalar("a%d" % i, pos=True) for i in range(n)]
                v = [c.scalar("v%d" % i, pos=True) for i in range(n)]
                for x in a + v if mag else ():
                    c.req(mag - x)
                    c.req(x * mag - 1)
                p = [c.vec("p", n)]
                for j in range(k):
                    d = []
                    for i in range(n):
                        # the square of the time to cover half the distance accelerating
                        x = c.scalar("t%d%d" % (j, i), pos=True)
                        d.append(sg[j][i] * a[i] * x * x)
                        if sg[j][i] and all(not y for y in sg[j][:i]):
                            c.req(a[i] * x * x - EPS, ">")
                    p.append([x + y for x, y in zip(p[-1], d)])
                lim = dict(vmax=v, vmin=[-x for x in v], amax=a, amin=[-x for x in a])
                D = [0]
                for m in range(seg + 1 if seg else 2, seg + 3):
                    t = T(c, "aa_ct_tjq_%s_generate" % gen, p[:m], **lim)
                    D.append(t.D)
                    if m < k + 1:
                        t.end()
                if seg + 2 < k + 1:
                    t = T(c, "aa_ct_tjq_%s_generate" % gen, p, **lim)
                b, e = D[-2], D[-1]
                L = e - b
                c.cmp("takes time", L, ">")
                r, _, vm = t.eval(b + L / 2)
                c.isint("within the trajectory", r, 1)
                dl = sub(p[seg + 1], p[seg])
                j = [i for i in range(n) if sg[seg][i]][0]
                ta = L - dl[j] / vm[j]
                if ph == "ends":
                    c.cmp("accelerates", ta, ">")
                    c.cmp("decelerates after accelerating", L - 2 * ta)
                    for i in range(n):
                        c.cmp("velocity of joint %d below its maximum" % i, v[i] - vm[i])
                        c.cmp("velocity of joint %d above its minimum" % i, v[i] + vm[i])
                        c.cmp("acceleration of joint %d below its maximum" % i, a[i] * ta - vm[i])
                        c.cmp("acceleration of joint %d above its minimum" % i, a[i] * ta + vm[i])
                    c.eq("joints move together", scale(L - ta, vm), dl)
                    for x in (1, 0):
                        r, q, dq = t.eval(b + x * L)
                        c.isint("within the trajectory", r, 1)
                        c.eq("position at waypoint %d" % (seg + x), q, p[seg + x])
                        c.eq("velocity at waypoint %d" % (seg + x), dq, [0] * n)
                    return t.end()
                s = c.scalar("s", pos=True)
                c.req(1 - s, ">")
                tt = {"up": s * ta, "flat": ta + s * (L - 2 * ta), "down": L - s * ta}[ph]
                r, q, dq = t.eval(b + tt)
                c.isint("within the trajectory", r, 1)
                for i in range(n):
                    al = vm[i] / ta
                    if ph == "up":
                        q_, d_ = p[seg][i] + al * tt * tt / 2, al * tt
                    elif ph == "flat":
                        q_, d_ = p[seg][i] + vm[i] * (tt - ta / 2), vm[i]
                    else:
                        q_, d_ = p[seg + 1][i] - al * (L - tt) * (L - tt) / 2, al * (L - tt)
                    c.eq("position of joint %d" % i, q[i], q_, ntol=1e-6)
                    c.eq("velocity of joint %d" % i, dq[i], d_, ntol=1e-6)
                    if gen == "pb":
                        if ph == "flat":
                            c.eq("acceleration of joint %d" % i, t.ddq[i] * (L - 2 * ta), 0)
                        else:
                            c.eq("acceleration of joint %d" % i, t.ddq[i], al if ph == "up" else -al)
                t.end()


for sg in ([[1]], [[-1]], [[1], [-1]], [[1, -1]], [[0, 1]]):
    mk_trap(sg)

for sg in ([[1]], [[-1]], [[1, -1]], [[0, 1]]):
    mk_trap(sg, "pb", 1000)


def mk_blend(sg, what, sym=False):
    """any two times of a blend through several points: limits, and velocity and
    acceleration are the derivatives of position and velocity (no jumps)"""
    k = len(sg)
    tag = "".join("0pn"[x] for x in sg)

    @item("J01.blend%s.%s.%s" % ("eq" if sym else "", tag, what), P, "aa_ct_tjq_pb_generate aa_ct_seg_list_eval aa_ct_seg_list_duration aa_ct_pt_list_add_q", cxx=True, bounded="%d points, one joint, signs %s, %s" % (k + 1, tag, "equal distances, any overlap" if sym else "blends that do not overlap"))
    def _(c):
        a = c.scalar("a", pos=True)
        v = c.scalar("v", pos=True)
        for x in (a, v):
            c.req(1000 - x)
            c.req(x * 1000 - 1)
        p = [[c.scalar("p")]]
        for j in range(k):
            if sym:
                y = c.scalar("y", pos=True)
                d = 2 * a * y * y
            else:
                d = c.scalar("d%d" % j, pos=True)
                c.req(d * a - 2 * v * v)
            c.req(d - EPS, ">")
            p.append([p[-1][0] + sg[j] * d])
        t = T(c, "aa_ct_tjq_pb_generate", p, vmax=[v], vmin=[-v], amax=[a], amin=[-a])
        if what == "ends":
            for x, q_ in ((0, p[0]), (t.D, p[-1])):
                r, q, dq = t.eval(x)
                c.isint("within the trajectory", r, 1)
                c.eq("position at the end", q, q_)
                c.eq("at rest at the end", dq, [0])
            c.cmp("duration", t.D, ">")
            return t.end()
        x = c.scalar("x", nonneg=True)
        h = c.scalar("h", pos=True)
        c.req(t.D - x - h)
        r, q, dq = t.eval(x)
        ddq = t.ddq
        c.isint("within the trajectory", r, 1)
        if what == "limits":
            c.cmp("velocity below its maximum", v - dq[0])
            c.cmp("velocity above its minimum", dq[0] + v)
            c.cmp("acceleration below its maximum", a - ddq[0])
            c.cmp("acceleration above its minimum", ddq[0] + a)
            return t.end()
        r, q2, dq2 = t.eval(x + h)
        c.isint("within the trajectory", r, 1)
        if what == "vel":
            c.cmp("velocity follows acceleration from above", a * h - (dq2[0] - dq[0]))
            c.cmp("velocity follows acceleration from below", a * h + (dq2[0] - dq[0]))
        if what == "pos":
            e = q2[0] - q[0] - h * dq[0]
            c.cmp("position follows velocity from above", a * h * h - 2 * e)
            c.cmp("position follows velocity from below", a * h * h + 2 * e)
        t.end()


for what in ("ends", "limits", "vel", "pos"):
    mk_blend([1, -1], what)
    mk_blend([-1, -1], what)
    mk_blend([1, -1], what, True)
    mk_blend([1, 1, -1], what)
    mk_blend([1, -1, 1], what)


def simple(c, gen):
    """a trajectory between two points of two joints"""
    a = [c.scalar("a%d" % i, pos=True) for i in range(2)]
    v = [c.scalar("v%d" % i, pos=True) for i in range(2)]
    x = c.scalar("x", pos=True)
    for y in a + v:
        c.req(1000 - y)
        c.req(y * 1000 - 1)
    p = [c.vec("p", 2)]
    c.req(a[0] * x * x - EPS, ">")
    p.append([p[0][0] + a[0] * x * x, p[0][1]])
    return p, T(c, "aa_ct_tjq_%s_generate" % gen, p, vmax=v, vmin=[-y for y in v], amax=a, amin=[-y for y in a])


def mk_req(gen):
    @item("J01.requests.%s" % gen, P, "aa_ct_tjq_%s_generate aa_ct_seg_list_eval aa_ct_seg_list_eval_q aa_ct_seg_list_eval_dq" % gen, cxx=True, bounded="2 points, 2 joints")
    def _(c):
        p, t = simple(c, gen)
        s = c.scalar("s", nonneg=True)
        c.req(1 - s)
        r, q, dq = t.eval(s * t.D)
        c.isint("within the trajectory", r, 1)
        o, d = c.out(2), c.out(2)
        c.isint("within the trajectory (positions only)", c.call("aa_ct_seg_list_eval_q", t.s, s * t.D, 2, o, ret="i"), 1)
        c.eq("positions only", o.get(), q)
        o = c.out(2)
        c.isint("within the trajectory (positions and velocities)", c.call("aa_ct_seg_list_eval_dq", t.s, s * t.D, 2, o, d, ret="i"), 1)
        c.eq("positions with velocities", o.get(), q)
        c.eq("velocities", d.get(), dq)
        t.end()

    @item("J01.outside.%s" % gen, P, "aa_ct_tjq_%s_generate aa_ct_seg_list_eval" % gen, cxx=True, bounded="2 points, 2 joints")
    def _(c):
        p, t = simple(c, gen)
        s = c.scalar("s", pos=True)
        for x in (0, t.D):
            c.isint("an end is within the trajectory", t.eval(x)[0], 1)
            c.isint("before the start", c.call("aa_ct_seg_list_eval_q", t.s, -s, 2, c.inout([0, 0]), ret="i"), 0)
            c.isint("after the end", c.call("aa_ct_seg_list_eval_q", t.s, t.D + s, 2, c.inout([0, 0]), ret="i"), 0)
        t.end()


for g in ("lin", "trap", "pb"):
    mk_req(g)


def st(c, ptr, off, n): return c.deref(c.ptrfield(ptr, off), n)


@item("J01.points", P, "aa_ct_pt_list_create aa_ct_pt_list_add aa_ct_pt_list_add_front aa_ct_pt_list_add_q aa_ct_pt_list_size aa_ct_pt_list_start_state aa_ct_pt_list_final_state aa_ct_state_clone aa_ct_state_eq", cxx=True)
def _(c):
    reg = c.new_region()
    pl = c.call("aa_ct_pt_list_create", reg)
    c.isint("no points", c.call("aa_ct_pt_list_size", pl), 0)
    p = pts(c, 2, 2, [[1, 2], [1, -1]])
    b = [c.inout(x) for x in p]
    c.call("aa_ct_pt_list_add_q", pl, 2, b[0])
    c.call("aa_ct_pt_list_add_q", pl, 2, b[1])
    c.isint("two points", c.call("aa_ct_pt_list_size", pl), 2)
    c.call("aa_ct_pt_list_add_front", pl, state(c, 2, b[2]))
    c.isint("three points", c.call("aa_ct_pt_list_size", pl), 3)
    # a repeated point is not added
    c.call("aa_ct_pt_list_add_q", pl, 2, c.inp(p[1]))
    c.call("aa_ct_pt_list_add_front", pl, state(c, 2, c.inp(p[2])))
    c.isint("repeated points", c.call("aa_ct_pt_list_size", pl), 3)
    # the list has its own copies
    for x in b:
        x.set([0, 0])
    for nm, w in (("start", p[2]), ("final", p[1])):
        s = c.call("aa_ct_pt_list_%s_state" % nm, pl)
        c.isint("%s: joints" % nm, c.intfield(s, N_Q), 2)
        c.eq("%s state" % nm, st(c, s, Q_, 2), w)
        for o in (DQ, DDQ, EFF, X_, DX, DDX):
            c.true("%s: nothing else" % nm, c.isnull(c.ptrfield(s, o)))
    c.call("aa_ct_pt_list_destroy", pl)
    c.call("aa_mem_region_destroy", reg)


@item("J01.state", P, "aa_ct_state_clone aa_ct_state_alloc aa_ct_pt_list_add", cxx=True)
def _(c):
    reg = c.new_region()
    pl = c.call("aa_ct_pt_list_create", reg)
    f = [(Q_, 2), (DQ, 2), (DDQ, 2), (EFF, 2), (X_, 7), (DX, 6), (DDX, 6)]
    v = [c.vec("v%d" % o, n) for o, n in f]
    s = c.struct([(N_Q, 2), (N_TF, 0)] + [(o, c.inp(x)) for (o, n), x in zip(f, v)] + [(TFA, c.null()), (TFR, c.null())], ro=True)
    c.call("aa_ct_pt_list_add", pl, s)
    r = c.call("aa_ct_pt_list_final_state", pl)
    for (o, n), x in zip(f, v):
        c.eq("copy of field %d" % o, st(c, r, o, n), x)
    a = c.call("aa_ct_state_alloc", reg, 3, 0)
    c.isint("joints", c.intfield(a, N_Q), 3)
    for o, n in ((Q_, 3), (DQ, 3), (DDQ, 3), (EFF, 3), (X_, 7), (DX, 6), (DDX, 6)):
        c.true("room for field %d" % o, c.room(c.ptrfield(a, o), 8 * n))
    for o in (Q_, DQ, DDQ):
        c.eq("field %d starts at zero" % o, st(c, a, o, 3), [0] * 3)
    c.call("aa_ct_pt_list_destroy", pl)
    c.call("aa_mem_region_destroy", reg)


@item("J01.check", P, "aa_ct_seg_list_check aa_ct_tjq_lin_generate", cxx=True, bounded="2 points, steps of half the duration")
def _(c):
    p, t = simple(c, "lin")
    seen = []

    def f(ret):
        def g(cx, x, s):
            seen.append((x, st(c, s, Q_, 2)))
            return ret if len(seen) == 2 else 0
        return g
    reg = c.local_region()
    r = c.call("aa_ct_seg_list_check", t.s, t.D / 2, c.callback("ipdp", f(0)), c.null(), ret="i")
    c.isint("no objection", r, 0)
    c.isint("times checked", len(seen), 3)
    for i, (x, q) in enumerate(seen):
        c.eq("time", x, t.D * i / 2)
        c.eq("position at that time", q, [(p[0][j] * (2 - i) + p[1][j] * i) / 2 for j in range(2)])
    del seen[:]
    r = c.call("aa_ct_seg_list_check", t.s, t.D / 2, c.callback("ipdp", f(5)), c.null(), ret="i")
    c.isint("objection reported", r, 5)
    c.isint("no more checks after an objection", len(seen), 2)
    t.end()


def arc(c):
    """two unit quaternions less than a quarter turn (of the sphere) apart"""
    q = c.unit("q", 4)
    u = c.unit("u", 3)
    h = c.angle("h", 0, "1/4")
    c.req(h - F(1, 1000), ">")
    c.req(c.pi / 4 - h, ">")
    c.req(cos(2 * h), ">")
    p = 2 * h
    e = qmul(pure(u), q)
    return q, u, p, add(scale(cos(p), q), scale(sin(p), e)), e


def mk_slerp(sg):
    @item("J01.slerp%s" % "pn"[sg < 0], P, "aa_ct_tjx_slerp_generate aa_ct_seg_list_eval aa_ct_pt_list_add", cxx=True)
    def _(c):
        q, u, p, q2, e = arc(c)
        v, w = c.vec("v", 3), c.vec("w", 3)
        reg = c.new_region()
        pl = c.call("aa_ct_pt_list_create", reg)
        for k, E in enumerate((q + v, scale(sg, q2) + w)):
            c.call("aa_ct_pt_list_add", pl, state(c, 1, q=c.inp([k]), X=c.inp(E)))
        s = c.call("aa_ct_tjx_slerp_generate", reg, pl)
        c.eq("duration", c.call("aa_ct_seg_list_duration", s), 1)
        t = c.scalar("t", pos=True)
        c.req(1 - t, ">")

        def ev(x):
            X, D = c.out(7), c.out(6)
            r = c.call("aa_ct_seg_list_eval", s, state(c, 0, X=X, dX=D), x, ret="i")
            return r, X.get(), D.get()
        r, X, D = ev(t)
        c.isint("within the trajectory", r, 1)
        c.eq("orientation", X[:4], add(scale(cos(t * p), q), scale(sin(t * p), e)))
        c.eq("position", X[4:], [a + t * (b - a) for a, b in zip(v, w)])
        c.eq("velocity", D[:3], sub(w, v))
        c.eq("angular velocity", D[3:], scale(2 * p, u))
        for x, y in ((0, q + v), (1, scale(sg, q2) + w)):
            r, X, D = ev(x)
            c.isint("an end is within the trajectory", r, 1)
            c.eq("end pose", X, y)
        for x in (-t, 1 + t):
            r, X, D = ev(x)
            c.isint("outside the trajectory", r, 0)
        c.call("aa_ct_seg_list_destroy", s)
        c.call("aa_ct_pt_list_destroy", pl)
        c.call("aa_mem_region_destroy", reg)


mk_slerp(1)
mk_slerp(-1)


def mk_tjX(ax, sg, wh):
    @item("J01.tjX.%d%s.%s" % (ax, "pn"[sg < 0], wh), P, "aa_ct_tjX_pb_generate aa_ct_tjX_pb_eval aa_ct_seg_list_eval", cxx=True, bounded="2 poses that differ in one coordinate")
    def _(c):
        """blended poses: position and rotation vector (R02) are the coordinates of a blend (J01.pb)"""
        a = [c.scalar("a%d" % i, pos=True) for i in range(6)]
        v = [c.scalar("v%d" % i, pos=True) for i in range(6)]
        x = c.scalar("x", pos=True)
        for y in a + v:
            c.req(1000 - y)
            c.req(y * 1000 - 1)
        d = a[ax] * x * x
        c.req(d - EPS, ">")
        c.req(1 - d, ">")
        p0 = c.vec("v", 3) + [c.scalar("r%d" % i, bound=1) for i in range(3)]
        p1 = [p0[i] + (sg * d if i == ax else 0) for i in range(6)]
        if c.symbolic:
            X = [c.unit("q0", 4) + p0[:3], c.unit("q1", 4) + p1[:3]]
            quat = c.unit("q2", 4)
            asked = []

            def ln(q, o):
                c.eq("orientation of the first pose", c.deref(q, 4), X[0][:4])
                c.poke(o, p0[3:])

            def near(q, r, o):
                c.eq("orientation of the second pose", c.deref(q, 4), X[1][:4])
                c.eq("near the rotation vector before it", c.deref(r, 3), p0[3:])
                c.poke(o, p1[3:])

            def ex(r, o):
                asked.append(c.deref(r, 3))
                c.poke(o, quat)
            c.abstract("aa_tf_quat2rotvec", ln)
            c.abstract("aa_tf_quat2rotvec_near", near)
            c.abstract("aa_tf_rotvec2quat", ex)
        else:
            X = []
            for y in (p0, p1):
                o = c.out(4)
                c.call("aa_tf_rotvec2quat", c.inp(y[3:]), o)
                X.append(list(o.get()) + y[:3])
        reg = c.new_region()
        pl = c.call("aa_ct_pt_list_create", reg)
        for k, E in enumerate(X):
            c.call("aa_ct_pt_list_add", pl, state(c, 1, q=c.inp([k]), X=c.inp(E)))
        n_ = lambda y: c.inp([-z for z in y])
        lim = c.struct([(0, state(c, 0, dX=n_(v), ddX=n_(a))), (8, state(c, 0, dX=c.inp(v), ddX=c.inp(a)))], ro=True)
        s = c.call("aa_ct_tjX_pb_generate", reg, pl, lim)
        D = c.call("aa_ct_seg_list_duration", s)
        c.cmp("takes time", D, ">")
        f = {"start": 0, "mid": F(1, 2), "end": 1}[wh]
        X_o = c.out(7)
        jq = c.inout([5])
        c.isint("within the trajectory", c.call("aa_ct_seg_list_eval", s, state(c, 1, q=jq, X=X_o, ro=False), D * f, ret="i"), 1)
        w = [(1 - f) * y + f * z for y, z in zip(p0, p1)]
        if c.symbolic:
            c.isint("one orientation", len(asked), 1)
            c.eq("rotation vector", asked[0], w[3:])
            c.eq("orientation", X_o.get()[:4], quat)
        else:
            o = c.out(4)
            c.call("aa_tf_rotvec2quat", c.inp(w[3:]), o)
            c.eq("orientation", X_o.get()[:4], o.get(), ntol=1e-6)
        c.eq("position", X_o.get()[4:], w[:3], ntol=1e-6)
        c.eq("the joints of the state are left alone", jq.get(), [5])
        for f in ("aa_ct_seg_list_destroy", "aa_ct_pt_list_destroy"):
            c.call(f, s if "seg" in f else pl)
        c.call("aa_mem_region_destroy", reg)


for ax, sg in ((1, 1), (2, -1), (3, 1), (5, -1)):
    for wh in ("start", "mid", "end"):
        mk_tjX(ax, sg, wh)


@item("J01.tjX.points", P, "aa_ct_tjX_pb_generate", cxx=True, bounded="4 poses")
def _(c):
    """each pose's rotation vector is the one nearest to that of the pose before it"""
    n = 4
    reg = c.new_region()
    pl = c.call("aa_ct_pt_list_create", reg)
    vv = [c.inp(c.vec("lim%d" % i, 6)) for i in range(4)] if c.symbolic else [c.inp([s] * 6) for s in (-1, -1, 1, 1)]
    lim = c.struct([(0, state(c, 0, dX=vv[0], ddX=vv[1])), (8, state(c, 0, dX=vv[2], ddX=vv[3]))], ro=True)
    if c.symbolic:
        E = [c.unit("q%d" % i, 4) + c.vec("v%d" % i, 3) for i in range(n)]
        for i in range(1, n):
            E[i][4] = E[i - 1][4] + EPS + c.scalar("apart%d" % i, pos=True)
        r = [c.vec("r%d" % i, 3) for i in range(n)]
        seen = []

        def ln(q, o):
            c.eq("first orientation", c.deref(q, 4), E[0][:4])
            seen.append(0)
            c.poke(o, r[0])

        def near(q, x, o):
            q = c.deref(q, 4)
            k = [k for k in range(1, n) if all(c.same(a, b) for a, b in zip(q, E[k][:4]))]
            c.isint("an orientation after the first", len(k), 1)
            k = k[0]
            c.eq("near the rotation vector before it", c.deref(x, 3), r[k - 1])
            seen.append(k)
            c.poke(o, r[k])

        def gen(g, p, l):
            c.isint("poses", c.call("aa_ct_pt_list_size", p), n)
            for nm, k in (("start", 0), ("final", n - 1)):
                s = c.call("aa_ct_pt_list_%s_state" % nm, p)
                c.isint("coordinates", c.intfield(s, N_Q), 6)
                c.eq("%s coordinates" % nm, st(c, s, Q_, 6), E[k][4:] + r[k])
            for i, (a, b) in enumerate(((0, DQ), (0, DDQ), (8, DQ), (8, DDQ))):
                c.eq("limits of pose are those of the coordinates", st(c, c.ptrfield(l, a), b, 6), vv[i].get())
            c.true("made in the caller's region", c.sameptr(g, reg, 0))
            z = c.call("aa_ct_pt_list_create", reg)
            for k in range(2):
                c.call("aa_ct_pt_list_add_q", z, 1, c.inp([k]))
            return c.call("aa_ct_tjq_lin_generate", reg, z, c.struct([(0, state(c, 1, dq=c.inp([-1]))), (8, state(c, 1, dq=c.inp([1])))]))
        c.abstract("aa_tf_quat2rotvec", ln)
        c.abstract("aa_tf_quat2rotvec_near", near)
        c.abstract("aa_ct_tjq_pb_generate", gen)
    else:      # turning on and on about one axis
        u = c.unit("u", 3)
        h = c.angle("h", "1/4", "1/3")
        c.req(c.pi / 3 - F(1, 50) - h)
        E = [[sin(k * h) * x for x in u] + [cos(k * h)] + [k, 0, 0] for k in range(n)]
    for k, e in enumerate(E):
        c.call("aa_ct_pt_list_add", pl, state(c, 1, q=c.inp([k]), X=c.inp(e)))
    s = c.call("aa_ct_tjX_pb_generate", reg, pl, lim)
    if c.symbolic:
        c.isint("all poses", sorted(set(seen)), list(range(n)))
        return
    D = c.call("aa_ct_seg_list_duration", s)
    for f in range(1, 100):                  # the turn never leaves that axis, nor goes back
        o = c.out(7)
        c.isint("within the trajectory", c.call("aa_ct_seg_list_eval", s, state(c, 1, X=o, ro=False), D * f / 100, ret="i"), 1)
        x = o.get()
        a = x[4] * h
        w = [sin(a) * y for y in u] + [cos(a)]
        if dot(w, x[:4]) < 0:
            w = scale(-1, w)
        c.eq("orientation goes with position", x[:4], w, ntol=1e-4)
    c.call("aa_ct_seg_list_destroy", s)
    c.call("aa_ct_pt_list_destroy", pl)
    c.call("aa_mem_region_destroy", reg)


ST_FIELDS = (("q", Q_, 2), ("dq", DQ, 2), ("ddq", DDQ, 2), ("X", X_, 7), ("dX", DX, 6), ("ddX", DDX, 6))


def mk_steq(nm):
    @item("J01.state_eq.%s" % nm, P, "aa_ct_state_eq", cxx=True)
    def _(c):
        """states are the same exactly when they have the same parts and these agree"""
        val = {f: c.vec(f, n) for f, _, n in ST_FIELDS}
        e = c.scalar("e", pos=True)

        def eq(a, b):
            mk = lambda v: state(c, 2, **{k: c.inp(x) for k, x in v.items()})
            return c.call("aa_ct_state_eq", mk(a), mk(b), ret="i") != 0
        n = dict((f, n) for f, _, n in ST_FIELDS)[nm]
        only = {nm: val[nm]}
        rest = {k: v for k, v in val.items() if k != nm}
        c.true("equal to itself", eq(val, val) and eq(only, only) and eq({}, {}))
        c.true("a part is missing", not eq(val, rest) and not eq(rest, val) and not eq(only, {}))
        c.true("other parts are missing", eq(rest, rest))
        for i in range(n):
            for sg in (1, -1):
                w = list(val[nm])
                w[i] = w[i] + sg * (EPS + e)
                for k in ST_FIELDS:
                    less = {x: y for x, y in val.items() if x == nm or x != k[0]}
                    c.true("element %d differs" % i, not eq(less, dict(less, **{nm: w})))
                c.true("element %d differs" % i, not eq(only, {nm: w}))
        for a, b in ((1, 2), (2, 1)):
            c.true("different numbers of joints", not c.call("aa_ct_state_eq", state(c, a), state(c, b), ret="i"))


for f, _, _ in ST_FIELDS:
    mk_steq(f)


@item("J01.state_set_qutr", P, "aa_ct_state_set_qutr", cxx=True)
def _(c):
    E, o = c.vec("E", 7), c.out(7)
    c.call("aa_ct_state_set_qutr", state(c, 2, X=o), c.inp(E))
    c.eq("pose", o.get(), E)


INF = {-1: -F(2) ** 1024, 1: F(2) ** 1024}


@item("J01.rx.limits", P, "aa_rx_ct_limits aa_rx_ct_sg_limits", cxx=True, bounded="three joints", replay=False)
def _(c):
    from .c95_sg import G, REV, PRI, LIM, angles, setlim
    g = G(c)
    lim = {}
    for nm, k in (("a", REV), ("b", PRI), ("d", REV)):
        g.add(k, nm, "")
    for w in LIM:
        setlim(c, g, lim, "a", w)
    setlim(c, g, lim, "b", "vel")
    setlim(c, g, lim, "d", "acc")
    c.isint("init", g.init(), 0)
    n, cid = angles(c, g, None)
    reg = c.new_region()
    for fn in ("aa_rx_ct_limits", "aa_rx_ct_sg_limits"):
        l = c.call(fn, reg, g.sg)
        for k, sd in ((0, -1), (1, 1)):
            s = c.ptrfield(l, 8 * k)
            c.isint("joints", c.intfield(s, N_Q), n)
            for w, o in (("pos", Q_), ("vel", DQ), ("acc", DDQ), ("eff", EFF)):
                v = st(c, s, o, n)
                for cn, i in cid.items():
                    c.eq("%s limit of %s" % (w, cn), v[i], lim[cn, w][k] if (cn, w) in lim else INF[sd])
    c.call("aa_rx_sg_destroy", g.sg)
    c.call("aa_mem_region_destroy", reg)


@item("J01.rx.points", P, "aa_rx_ct_pt_list", cxx=True, bounded="three points")
def _(c):
    reg = c.new_region()
    p = pts(c, 2, 2, [[1, 2], [-2, -1]])
    pl = c.call("aa_rx_ct_pt_list", reg, 2, 3, c.inp(p[0] + p[1] + p[2]))
    c.isint("points", c.call("aa_ct_pt_list_size", pl), 3)
    for nm, w in (("start", p[0]), ("final", p[2])):
        s = c.call("aa_ct_pt_list_%s_state" % nm, pl)
        c.isint("%s: joints" % nm, c.intfield(s, N_Q), 2)
        c.eq("%s state" % nm, st(c, s, Q_, 2), w)
    c.call("aa_ct_pt_list_destroy", pl)
    c.call("aa_mem_region_destroy", reg)


@item("J01.points.qutr", P, "aa_ct_pt_list_add_qutr", cxx=True, bounded="two poses")
def _(c):
    reg = c.new_region()
    E = [c.vec("E%d" % i, 7) for i in range(2)]
    E[1][0] = E[0][0] + EPS + c.scalar("apart", pos=True)
    pl = c.call("aa_ct_pt_list_create", reg)
    bufs = []
    for k in range(2):
        bufs.append(c.inp(E[k]))
        c.call("aa_ct_pt_list_add_qutr", pl, bufs[-1])
    c.isint("points", c.call("aa_ct_pt_list_size", pl), 2)
    for nm, k in (("start", 0), ("final", 1)):
        s = c.call("aa_ct_pt_list_%s_state" % nm, pl)
        c.eq("%s pose" % nm, st(c, s, X_, 7), E[k])
        c.true("the pose is a copy", not c.sameptr(c.ptrfield(s, X_), bufs[k], 0))
        for o in (Q_, DQ, DDQ, DX, DDX):
            c.true("nothing else is given", c.isnull(c.ptrfield(s, o)))
        c.isint("no joints", c.intfield(s, N_Q), 0)
    c.call("aa_ct_pt_list_destroy", pl)
    c.call("aa_mem_region_destroy", reg)
