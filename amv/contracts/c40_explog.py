"""R04: quaternion exponential, logarithm, power, angles.
V01: velocities and derivatives.  V02: Jacobians.  V03: steps.  S01: slerp."""
from fractions import Fraction
from ..spec import item, fun
from ..ops import *
from .c30_tf import Q, screw, qt_mul

EL, VD, VJ, VS, SL = "R04", "V01", "V02", "V03", "S01"
H = Fraction(1, 2)


def axis_t(c, u="u", t="t"):
    u = c.unit(u, 3)
    t = c.scalar(t, nonneg=True)
    return u, t


def qexpu(u, t): return [sin(t) * x for x in u] + [cos(t)]


@item("aa_tf_qpexp", EL, "aa_tf_qpexp")
def _(c):
    u, t = axis_t(c)
    o = c.out(4)
    c.call("aa_tf_qpexp", c.inp(scale(t, u)), o)
    c.eq("exp of a pure quaternion", o.get(), qexpu(u, t), small="t")


for _n in ("aa_tf_qexp", "aa_tf_qexp_n"):
    @item(_n, EL, [_n])
    def _(c, n=_n):
        u, t = axis_t(c)
        w = c.scalar("w")
        o = c.out(4)
        c.call(n, c.inp(scale(t, u) + [w]), o)
        c.eq("exp", o.get(), scale(exp(w), qexpu(u, t)), small="t")


@item("aa_tf_qln", EL, "aa_tf_qln", note="the vector part of q and the scalar part are not both such that q is a negative real")
def _(c):
    u, p, k = c.unit("u", 3), c.angle("p", 0, 1), c.scalar("k", pos=True)
    c.req(c.pi - p, ">")
    o = c.out(4)
    c.call("aa_tf_qln", c.inp(scale(k, qexpu(u, p))), o)
    c.eq("log", o.get(), scale(p, u) + [log(k)], small="p")


@item("aa_tf_qpow", EL, "aa_tf_qpow")
def _(c):
    # exponent s/p
    u, p, s = c.unit("u", 3), c.angle("p", 0, 1), c.scalar("s", nonneg=True)
    c.req(c.pi - p, ">")
    c.req(p - Fraction(1, 1000), ">=")
    for g in (1, -1):
        o = c.out(4)
        c.call("aa_tf_qpow", c.inp(qexpu(u, p)), g * s / p, o)
        c.eq("power", o.get(), qexpu(u, g * s), small="s")


@item("aa_tf_qangle", EL, "aa_tf_qangle aa_tf_qangle_rel")
def _(c):
    u, p = c.unit("u", 3), c.angle("p", 0, 1)
    k = c.scalar("k", pos=True)
    c.eq("angle", c.call("aa_tf_qangle", c.inp(scale(k, qexpu(u, p))), ret="d"), p)
    q = c.unit("q", 4)
    r = c.call("aa_tf_qangle_rel", c.inp(q), c.inp(qmul(q, qexpu(u, p))), ret="d")
    c.anyof("relative angle", [([r], [p]), ([r], [c.pi - p])])
    c.cmp("relative angle is the short one", cos(r), ">=")


@item("aa_tf_quhypangle2", EL, "aa_tf_quhypangle2")
def _(c):
    u, h = c.unit("u", 3), c.angle("h", 0, "1/2")
    q = c.unit("q", 4)
    r = c.call("aa_tf_quhypangle2", c.inp(q), c.inp(qmul(q, qexpu(u, 2 * h))), ret="d")
    c.eq("angle between the quaternions", r, 2 * h)


# ------------------------------------------------------------------ V01
fun("aa_tf_qdiff2vel", "v4 v4 o3", lambda q, dq: scale(2, qmul(dq, qconj(q))[:3]), VD)
fun("aa_tf_qvel2diff", "v4 v3 o4", lambda q, w: scale(H, qmul(pure(w), q)), VD)
fun("aa_tf_rotmat_vel2diff", "v9 v3 o9", lambda R, w: mmul(skew(w), R), VD)
fun("aa_tf_qv_vel2twist", "v4 v3 v3 v3 o3 o3", lambda q, v, w, dv: (w, add(dv, cross(v, w))), VD)
fun("aa_tf_qv_twist2vel", "v4 v3 v3 v3 o3 o3", lambda q, v, tw, tv: (tw, add(tv, cross(tw, v))), VD)


@item("velocity-derivative-inverse", VD, "aa_tf_qvel2diff aa_tf_qdiff2vel aa_tf_rotmat_vel2diff aa_tf_rotmat_diff2vel aa_tf_tfmat_vel2diff aa_tf_tfmat_diff2vel aa_tf_qutr_vel2diff aa_tf_qutr_diff2vel")
def _(c):
    A, dx = Q(c), c.vec("dx", 6)
    w, dv = dx[3:], dx[:3]
    dq = scale(H, qmul(pure(w), A.q))
    o = c.out(4); c.call("aa_tf_qvel2diff", c.inp(A.q), c.inp(w), o)
    c.eq("quaternion rate", o.get(), dq)
    z = c.out(3); c.call("aa_tf_qdiff2vel", c.inp(A.q), o, z)
    c.eq("angular velocity back", z.get(), w)
    o = c.out(9); c.call("aa_tf_rotmat_vel2diff", c.inp(rotmat(A.q)), c.inp(w), o)
    dR = mmul(skew(w), rotmat(A.q))
    c.eq("matrix rate", o.get(), dR)
    z = c.out(3); c.call("aa_tf_rotmat_diff2vel", c.inp(rotmat(A.q)), o, z)
    c.eq("angular velocity back from matrix", z.get(), w)
    o = c.out(12); c.call("aa_tf_tfmat_vel2diff", c.inp(A.T), c.inp(dx), o)
    c.eq("transform rate", o.get(), dR + dv)
    z = c.out(6); c.call("aa_tf_tfmat_diff2vel", c.inp(A.T), o, z)
    c.eq("velocity back from transform", z.get(), dx)
    o = c.out(7); c.call("aa_tf_qutr_vel2diff", c.inp(A.E), c.inp(dx), o)
    c.eq("quaternion-translation rate", o.get(), dq + dv)
    z = c.out(6); c.call("aa_tf_qutr_diff2vel", c.inp(A.E), o, z)
    c.eq("velocity back from quaternion-translation", z.get(), dx)


def ddq(A, w, dv):
    """derivative of the dual quaternion of the pose moving with (w,dv)"""
    dq = scale(H, qmul(pure(w), A.q))
    return dq + add(scale(H, qmul(pure(dv), A.q)), scale(H, qmul(pure(A.v), dq)))


@item("duqu-velocity", VD, "aa_tf_duqu_vel2diff aa_tf_duqu_diff2vel aa_tf_duqu_vel2twist aa_tf_duqu_twist2vel aa_tf_duqu_twist2diff aa_tf_duqu_diff2twist")
def _(c):
    A, dx = Q(c), c.vec("dx", 6)
    w, dv = dx[3:], dx[:3]
    d = ddq(A, w, dv)
    tw = w + [0] + add(dv, cross(A.v, w)) + [0]
    o = c.out(8); c.call("aa_tf_duqu_vel2diff", c.inp(A.S), c.inp(dx), o)
    c.eq("rate", o.get(), d)
    z = c.out(6); c.call("aa_tf_duqu_diff2vel", c.inp(A.S), c.inp(d), z)
    c.eq("velocity back", z.get(), dx)
    o = c.out(8); c.call("aa_tf_duqu_vel2twist", c.inp(A.S), c.inp(dx), o)
    c.eq("twist", o.get(), tw)
    z = c.out(6); c.call("aa_tf_duqu_twist2vel", c.inp(A.S), c.inp(tw), z)
    c.eq("velocity from twist", z.get(), dx)
    o = c.out(8); c.call("aa_tf_duqu_twist2diff", c.inp(A.S), c.inp(tw), o)
    c.eq("rate from twist", o.get(), d)
    o = c.out(8); c.call("aa_tf_duqu_diff2twist", c.inp(A.S), c.inp(d), o)
    c.eq("twist from rate", o.get(), tw)


@item("lemma-rates-are-derivatives", VD, "", replay=False,
      note="the rates used as specification are the derivatives of the pose moved by exp(t twist)")
def _(c):
    q0, v0 = c.unit("q", 4), c.vec("v", 3)
    u, d, t = c.unit("u", 3), c.vec("d", 3), c.scalar("t")
    P = lambda t: qt_mul(qexpu(u, t / 2) + screw(u, d, t), q0 + v0)
    p = P(t)
    r = c.deriv(P, t, "t")
    c.eq("rotation", r[:4], scale(H, qmul(pure(u), p[:4])))
    c.eq("translation velocity is twist plus w x v", r[4:], add(d, cross(u, p[4:])))


@item("aa_tf_qutr_twist2vel", VD, "aa_tf_qutr_twist2vel")
def _(c):
    A, w = Q(c), c.vec("w", 6)
    o = c.out(6)
    c.call("aa_tf_qutr_twist2vel", c.inp(A.E), c.inp(w), o)
    c.eq("velocity", o.get(), add(w[:3], cross(w[3:], A.v)) + w[3:])


@item("aa_tf_duqu_jac_vel2diff", VD, "aa_tf_duqu_jac_vel2diff", bounded="Jacobians with 1 and 2 columns")
def _(c):
    A = Q(c)
    for n in (1, 2):
        J = c.vec("J%d_" % n, 6 * n)
        o = c.out(8 * n)
        c.call("aa_tf_duqu_jac_vel2diff", c.inp(A.S), c.dmat(6, n, c.inp(J)), c.dmat(8, n, o))
        w = []
        for j in range(n):
            w += ddq(A, J[6 * j + 3:6 * j + 6], J[6 * j:6 * j + 3])
        c.eq("%d columns" % n, o.get(), w)


# ------------------------------------------------------------------ V02
def qln_f(q):
    """closed-form quaternion logarithm away from the reals"""
    s = norm(q[:3])
    a = atan2(s, q[3]) / s
    return scale(a, q[:3]) + [log(norm(q))]


def dirq(c):
    """general quaternion k(sin p u, cos p) away from the reals, and a direction"""
    u, p, k = c.unit("u", 3), c.angle("p", 0, 1), c.scalar("k", pos=True)
    c.req(p, ">")
    c.req(c.pi - p, ">")
    return u, p, k


def dln(u, p, k, dq):
    """derivative of ln at k(sin p u, cos p) in direction dq"""
    # polar components of dq: along u, along w, perpendicular
    a = dot(u, dq[:3])
    perp = sub(dq[:3], scale(a, u))
    dk = a * sin(p) + dq[3] * cos(p)
    dp = (a * cos(p) - dq[3] * sin(p)) / k
    return add(scale(dp, u), scale(p / (k * sin(p)), perp)) + [dk / k]


@item("lemma-dln", VJ, "", replay=False, note="the specified derivative of the logarithm is its derivative")
def _(c):
    # curve q(t) = k(t)(sin p(t) u(t), cos p(t)) with u turning about a perpendicular axis
    u, w = c.unit("u", 3), c.vec("w", 3)
    p, k, t = c.angle("p", 0, 1), c.scalar("k", pos=True), c.scalar("t")
    dp, dk = c.scalar("dp"), c.scalar("dk")
    c.req(sin(p), ">")
    du = cross(w, u)
    # dq by the product rule
    dq = add(scale(dk * sin(p) + k * dp * cos(p), u), scale(k * sin(p), du)) + [dk * cos(p) - k * dp * sin(p)]
    # ln q = p u + log k, so d ln q = dp u + p du, dk/k
    c.eq("derivative", dln(u, p, k, dq), add(scale(dp, u), scale(p, du)) + [dk / k])


@item("aa_tf_qln_jac", VJ, "aa_tf_qln_jac", note="leading dimensions 4 and 6")
def _(c):
    u, p, k = dirq(c)
    q = scale(k, qexpu(u, p))
    for ld in (4, 6):
        b = c.out(ld * 4)
        c.call("aa_tf_qln_jac", c.inp(q), c.dmat(4, 4, b, ld=ld))
        for j in range(4):
            e = [1 if i == j else 0 for i in range(4)]
            c.eq("ld %d column %d" % (ld, j), scale(k, b.get(ld * j, 4)), scale(k, dln(u, p, k, e)), small="p", tol=Fraction(1, 10 ** 10), ntol=1e-5)


for _n in ("aa_tf_qduln", "aa_tf_qdulnj"):
    @item(_n, VJ, [_n])
    def _(c, n=_n):
        u, p = c.unit("u", 3), c.angle("p", 0, 1)
        c.req(p, ">")
        c.req(c.pi - p, ">")
        q = qexpu(u, p)
        w = c.vec("w", 3, lin=True)       # dq tangent: dq = w q
        dq = qmul(pure(w), q)
        o = c.out(3)
        c.call(n, c.inp(q), c.inp(dq), o)
        c.eq("derivative of ln", o.get(), dln(u, p, 1, dq)[:3], small="p")


def dexp(u, t, de):
    """derivative of exp at t u (pure) in direction de"""
    a = dot(u, de)
    perp = sub(de, scale(a, u))
    return add(scale(a * cos(t), u), scale(sin(t) / t, perp)) + [-a * sin(t)]


for _n in ("aa_tf_qdpexp", "aa_tf_qdpexpj"):
    @item(_n, VJ, [_n])
    def _(c, n=_n):
        u, t = axis_t(c)
        c.req(t, ">")
        de = c.vec("de", 3, lin=True)
        o = c.out(4)
        c.call(n, c.inp(scale(t, u)), c.inp(de), o)
        c.eq("derivative of exp", o.get(), dexp(u, t, de), small="t")


@item("aa_tf_duqu_conj_jac", VJ, "aa_tf_duqu_conj_jac")
def _(c):
    S = c.vec("S", 8)
    for ld in (8, 10):
        b = c.out(8 * ld)
        c.call("aa_tf_duqu_conj_jac", c.dmat(8, 8, b, ld=ld))
        r = [0] * 8
        for j in range(8):
            r = add(r, scale(S[j], b.get(ld * j, 8)))
        c.eq("ld %d" % ld, r, dconj(S))


# ------------------------------------------------------------------ V03
def step_in(c, sg):
    """pose, and a velocity whose twist over dt is 2t(u; d)"""
    A, u, d = Q(c, "0", lin=True), c.unit("u", 3), c.vec("d", 3, lin=True)
    t, dt = c.scalar("t", nonneg=True), sg * c.scalar("dt", pos=True)
    k = 2 * t / dt
    w, tv = scale(k, u), scale(k, d)
    dv = add(tv, cross(w, A.v))
    want = qt_mul(qexpu(u, t) + screw(u, d, 2 * t), A.E)
    return A, u, d, t, dt, w, tv, dv, want


def mk_step(tag, sg):
    @item("aa_tf_qsvel" + tag, VS, "aa_tf_qsvel aa_tf_qsdiff")
    def _(c):
        q0, u, t, dt = c.unit("q", 4), c.unit("u", 3), c.scalar("t", nonneg=True), sg * c.scalar("dt", pos=True)
        # angular velocity 2 t u / dt
        w = scale(2 * t / dt, u)
        o = c.out(4)
        c.call("aa_tf_qsvel", c.inp(q0), c.inp(w), dt, o)
        c.eq("step by velocity", o.get(), qmul(qexpu(u, t), q0), small="t")
        o = c.out(4)
        c.call("aa_tf_qsdiff", c.inp(q0), c.inp(scale(H, qmul(pure(w), q0))), dt, o)
        c.eq("step by derivative", o.get(), qmul(qexpu(u, t), q0), small="t")


    @item("aa_tf_qsacc" + tag, VS, "aa_tf_qsacc")
    def _(c):
        q0, u, t, dt, a = c.unit("q", 4), c.unit("u", 3), c.scalar("t", nonneg=True), sg * c.scalar("dt", pos=True), c.vec("a", 3)
        # v chosen so that v dt + a dt^2/2 = 2 t u
        v = sub(scale(2 * t / dt, u), scale(dt / 2, a))
        o = c.out(4)
        c.call("aa_tf_qsacc", c.inp(q0), c.inp(v), c.inp(a), dt, o)
        c.eq("step by mean velocity", o.get(), qmul(qexpu(u, t), q0), small="t")


    @item("aa_tf_rotmat_svel" + tag, VS, "aa_tf_rotmat_svel")
    def _(c):
        q0, u, t, dt = c.unit("q", 4), c.unit("u", 3), c.scalar("t", nonneg=True), sg * c.scalar("dt", pos=True)
        o = c.out(9)
        c.call("aa_tf_rotmat_svel", c.inp(rotmat(q0)), c.inp(scale(t / dt, u)), dt, o)
        c.eq("step", o.get(), mmul(rotmat(qexpu(u, t / 2)), rotmat(q0)), small="t")


    @item("aa_tf_qutr_svel" + tag, VS, "aa_tf_qutr_svel aa_tf_qv_svel aa_tf_qutr_sdiff aa_tf_qv_sdiff")
    def _(c):
        A, u, d, t, dt, w, tv, dv, want = step_in(c, sg)
        o = c.out(7)
        c.call("aa_tf_qutr_svel", c.inp(A.E), c.inp(dv + w), dt, o)
        c.eq("step by velocity", o.get(), want, small="t")
        oq, ov = c.out(4), c.out(3)
        c.call("aa_tf_qv_svel", c.inp(A.q), c.inp(A.v), c.inp(w), c.inp(dv), dt, oq, ov)
        c.eq("step by velocity (q,v)", oq.get() + ov.get(), want, small="t")
        o = c.out(7)
        dq = scale(H, qmul(pure(w), A.q))
        c.call("aa_tf_qutr_sdiff", c.inp(A.E), c.inp(dq + dv), dt, o)
        c.eq("step by derivative", o.get(), want, small="t")


    @item("aa_tf_duqu_svel" + tag, VS, "aa_tf_duqu_svel aa_tf_duqu_stwist aa_tf_duqu_sdiff")
    def _(c):
        A, u, d, t, dt, w, tv, dv, want = step_in(c, sg)
        S = qv2dq(want[:4], want[4:])
        o = c.out(8)
        c.call("aa_tf_duqu_stwist", c.inp(A.S), c.inp(w + [0] + tv + [0]), dt, o)
        c.eq("step by twist", o.get(), S, small="t")
        o = c.out(8)
        c.call("aa_tf_duqu_svel", c.inp(A.S), c.inp(dv + w), dt, o)
        c.eq("step by velocity", o.get(), S, small="t")
        o = c.out(8)
        c.call("aa_tf_duqu_sdiff", c.inp(A.S), c.inp(ddq(A, w, dv)), dt, o)
        c.eq("step by derivative", o.get(), S, small="t")


    @item("aa_tf_tfmat_svel" + tag, VS, "aa_tf_tfmat_svel")
    def _(c):
        A, u, d, t, dt, w, tv, dv, want = step_in(c, sg)
        o = c.out(12)
        c.call("aa_tf_tfmat_svel", c.inp(A.T), c.inp(dv + w), dt, o)
        c.eq("step by velocity", o.get(), rotmat(want[:4]) + want[4:], small="t")


mk_step("", 1)
mk_step("-back", -1)


@item("steps-zero", VS, "aa_tf_qsvel aa_tf_qsdiff aa_tf_qsacc aa_tf_rotmat_svel aa_tf_qutr_svel aa_tf_qv_svel aa_tf_qutr_sdiff aa_tf_duqu_svel aa_tf_duqu_stwist aa_tf_duqu_sdiff aa_tf_tfmat_svel")
def _(c):
    """no time, no motion"""
    A, w, v = Q(c, "0"), c.vec("w", 3), c.vec("v", 3)
    dq = scale(H, qmul(pure(w), A.q))
    for fn, x, dx, n in (("aa_tf_qsvel", A.q, w, 4), ("aa_tf_qsdiff", A.q, dq, 4), ("aa_tf_rotmat_svel", rotmat(A.q), w, 9),
                         ("aa_tf_qutr_svel", A.E, v + w, 7), ("aa_tf_qutr_sdiff", A.E, dq + v, 7), ("aa_tf_duqu_stwist", A.S, w + [0] + v + [0], 8),
                         ("aa_tf_duqu_svel", A.S, v + w, 8), ("aa_tf_duqu_sdiff", A.S, ddq(A, w, v), 8), ("aa_tf_tfmat_svel", A.T, v + w, 12)):
        o = c.out(n)
        c.call(fn, c.inp(x), c.inp(dx), 0.0, o)
        c.eq(fn, o.get(), x)


fun("aa_tf_qrk1", "v4 v4 s o4", lambda q, dq, dt: add(q, scale(dt, dq)), VS)
fun("aa_tf_qvelrk1", "v4 v3 s o4", lambda q, v, dt: add(q, scale(dt / 2, qmul(pure(v), q))), VS)


def rk4(q, v, dt):
    f = lambda x: scale(H, qmul(pure(v), x))
    k1 = f(q)
    k2 = f(add(q, scale(dt / 2, k1)))
    k3 = f(add(q, scale(dt / 2, k2)))
    k4 = f(add(q, scale(dt, k3)))
    return add(q, scale(dt / 6, add(add(k1, k4), scale(2, add(k2, k3)))))


fun("aa_tf_qvelrk4", "v4 v3 s o4", rk4, VS)


# ------------------------------------------------------------------ S01
def arc1(c):
    """as arc, short side, with the arc itself as the variable"""
    q, u, p = c.unit("q", 4), c.unit("u", 3), c.angle("p", 0, "1/2")
    c.req(p - Fraction(1, 1000), ">=")
    c.req(c.pi / 2 - p, ">")
    e = qmul(q, pure(u))
    return q, e, p, add(scale(cos(p), q), scale(sin(p), e))


def arc(c, hi=1):
    """q1 unit, q2 = q1 turned by the arc p in (0,pi) towards the unit e orthogonal to q1"""
    q, u, h = c.unit("q", 4), c.unit("u", 3), c.angle("h", 0, Fraction(hi) / 2)
    c.req(h, ">")
    p = 2 * h
    e = qmul(q, pure(u))
    q2 = add(scale(cos(p), q), scale(sin(p), e))
    return q, e, p, q2


def slerp_spec(q, e, p, tau):
    return add(scale(cos(tau * p), q), scale(sin(tau * p), e))


@item("aa_tf_qslerp-short", SL, "aa_tf_qslerp aa_tf_qslerp_param aa_tf_qslerp_eval")
def _(c):
    q, e, p, q2 = arc(c, "1/2")
    c.req(c.pi / 2 - p, ">")
    tau = c.scalar("tau")
    o = c.out(4)
    c.call("aa_tf_qslerp", tau, c.inp(q), c.inp(q2), o)
    c.eq("point of the arc", o.get(), slerp_spec(q, e, p, tau))
    # the other hemisphere: -q2 is the same rotation, reached by the same short arc
    o = c.out(4)
    c.call("aa_tf_qslerp", tau, c.inp(q), c.inp(scale(-1, q2)), o)
    c.eq("shorter way to the opposite sign", o.get(), slerp_spec(q, e, p, tau))


@item("aa_tf_qslerp-ends", SL, "aa_tf_qslerp aa_tf_qslerp_param aa_tf_qslerp_eval")
def _(c):
    q, e, p, q2 = arc(c)
    c.req(c.pi - p, ">")
    o = c.out(4)
    c.call("aa_tf_qslerp", 0.0, c.inp(q), c.inp(q2), o)
    c.eq("start", o.get(), q)
    o = c.out(4)
    c.call("aa_tf_qslerp", 1.0, c.inp(q), c.inp(q2), o)
    c.anyof("end", [(o.get(), q2), (o.get(), scale(-1, q2))])
    tau = c.scalar("tau")
    for z in (q, scale(-1, q)):
        o = c.out(4)
        c.call("aa_tf_qslerp", tau, c.inp(q), c.inp(z), o)
        c.eq("equal orientations", o.get(), q)


@item("aa_tf_qslerpalg", SL, "aa_tf_qslerpalg", note="arc between 1e-3 and a quarter turn")
def _(c):
    q, e, p, q2 = arc1(c)
    k = c.scalar("k", nonneg=True)       # tau = k/p
    for s in (1, -1):
        o = c.out(4)
        c.call("aa_tf_qslerpalg", k / p, c.inp(q), c.inp(scale(s, q2)), o)
        c.eq("point of the arc (%+d)" % s, o.get(), add(scale(cos(k), q), scale(sin(k), e)), small="k")


@item("aa_tf_qslerpdiff", SL, "aa_tf_qslerpdiff")
def _(c):
    q, e, p, q2 = arc(c, "1/2")
    c.req(c.pi / 2 - p, ">")
    tau = c.scalar("tau", bound=1, nonneg=True)
    c.req(1 - tau, ">=")
    d = c.deriv(lambda t: slerp_spec(q, e, p, t), tau, "tau")
    for s in (1, -1):
        o = c.out(4)
        c.call("aa_tf_qslerpdiff", tau, c.inp(q), c.inp(scale(s, q2)), o)
        c.eq("derivative (%+d)" % s, o.get(), d, small="h")


@item("aa_tf_qslerpdiffalg", SL, "aa_tf_qslerpdiffalg", note="arc between 1e-3 and a quarter turn")
def _(c):
    q, e, p, q2 = arc1(c)
    k = c.scalar("k", nonneg=True)       # tau = k/p
    d = scale(p, add(scale(-sin(k), q), scale(cos(k), e)))
    for s in (1, -1):
        o = c.out(4)
        c.call("aa_tf_qslerpdiffalg", k / p, c.inp(q), c.inp(scale(s, q2)), o)
        c.eq("derivative (%+d)" % s, o.get(), d, small="k")


@item("lemma-slerp", SL, "", replay=False, note="the specified arc stays unit and has constant speed")
def _(c):
    q, e, p, q2 = arc(c)
    tau = c.scalar("tau")
    r = slerp_spec(q, e, p, tau)
    d = c.deriv(lambda t: slerp_spec(q, e, p, t), tau, "tau")
    c.eq("unit", dot(r, r), 1)
    c.eq("constant speed", dot(d, d), p * p)
    c.eq("end", slerp_spec(q, e, p, c.lift(1)), q2)
    c.eq("angular velocity is constant", qmul(d, qconj(r)), qmul(qmul(q, [p * x for x in qmul(qconj(q), e)]), qconj(q)))
