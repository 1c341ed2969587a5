"""G01-G03: scene graph frames, forward kinematics, configuration maps
(src/rx/scenegraph.cpp, sg_api.cpp, scene_sub.cpp, scene_kin.c).

The scene graphs are built through the public interface by the real code; the
transforms, axes, offsets, configurations and limits are arbitrary."""
from ..spec import item
from ..ops import *
from fractions import Fraction as F

FIX, REV, PRI = "fixed", "revolute", "prismatic"


class G:
    """a scene graph under construction, with its specification alongside"""
    def __init__(self, c):
        self.c = c
        self.sg = c.call("aa_rx_sg_create")
        self.f = {}

    def add(self, kind, name, parent="", q=None, v=None, config=None, axis=None, offset=None, unitaxis=True):
        c = self.c
        f = dict(kind=kind, parent=parent, name=name)
        f["q"] = q if q is not None else c.unit("q_" + name, 4)
        f["v"] = v if v is not None else c.vec("v_" + name, 3)
        Q, V = c.inp(f["q"]), c.inp(f["v"])
        nm, pn = c.cstr(name), c.cstr(parent)
        if kind == FIX:
            c.call("aa_rx_sg_add_frame_fixed", self.sg, pn, nm, Q, V)
        else:
            f["axis"] = axis if axis is not None else (c.unit if kind == REV else c.vec)("a_" + name, 3)
            f["off"] = offset if offset is not None else (c.angle("o_" + name, -1, 1) if kind == REV else c.scalar("o_" + name))
            f["config"] = config or name
            c.call("aa_rx_sg_add_frame_%s" % kind, self.sg, pn, nm, Q, V,
                   c.cstr(config) if config else c.null(), c.inp(f["axis"]), f["off"])
        self.f[name] = f
        return self

    def init(self): return self.c.call("aa_rx_sg_init", self.sg, ret="i")

    def id(self, name):
        r = self.c.call("aa_rx_sg_frame_id", self.sg, self.c.cstr(name))
        return r - (1 << 64) if r >> 63 else r

    def cid(self, name):
        r = self.c.call("aa_rx_sg_config_id", self.sg, self.c.cstr(name))
        return r - (1 << 64) if r >> 63 else r



    def rel(self, name, x):
        """specification: the fixed transform followed by the joint motion at configuration x"""
        f = self.f[name]
        q, v = f["q"], f["v"]
        if f["kind"] == REV:
            a = x + f["off"]
            return qmul(q, scale(sin(a / 2), f["axis"]) + [cos(a / 2)]), v
        if f["kind"] == PRI:
            return q, add(v, qrot(q, scale(x + f["off"], f["axis"])))
        return q, v

    def conf(self, cid, qs, name):
        f = self.f[name]
        return None if f["kind"] == FIX else qs[cid[f["config"]]]


def tfm(tf): return rotmat(tf[0]) + list(tf[1])
def pair(E): return E[:4], E[4:7]


KINDS = (FIX, REV, PRI)


def angles(c, g, names):
    """one configuration value per configuration variable"""
    n = c.call("aa_rx_sg_config_count", g.sg)
    cid = {}
    for f in g.f.values():
        if f["kind"] != FIX:
            cid[f["config"]] = g.cid(f["config"])
    c.isint("configuration indices are 0..n-1", sorted(set(cid.values())), list(range(n)))
    return n, cid


def build(c, shape, **kw):
    """shape: list of (name, kind, parent[, config])"""
    g = G(c)
    for s in shape:
        g.add(s[1], s[0], s[2], config=s[3] if len(s) > 3 else None, **kw)
    c.isint("initialised", g.init(), 0)
    n, cid = angles(c, g, None)
    return g, n, cid


def mk_rel(kind, parent):
    tag = "%s.%s" % (kind, "child" if parent else "root")

    @item("G01." + tag, "G01", "aa_rx_sg_tf aa_rx_sg_tfmat aa_rx_sg_duqu", cxx=True)
    def _(c):
        shape = [("m", kind, "z" if parent else "")]
        if parent:
            shape = [("z", FIX, "")] + shape
        g, n, cid = build(c, shape)
        x = [c.angle("x", -1, 1) if kind == REV else c.scalar("x")] if n else []
        i = g.id("m")
        k = len(shape)
        Q = c.inp(x)
        pad = c.vec("pad", 8 * k)
        rel, ab = c.inout(pad), c.out(9 * k)
        c.call("aa_rx_sg_tf", g.sg, n, Q, k, rel, 8, ab, 9)
        rm, am = c.out(13 * k), c.out(12 * k)
        c.call("aa_rx_sg_tfmat", g.sg, n, Q, k, rm, 13, am, 12)
        rd, ad = c.out(8 * k), c.out(8 * k)
        c.call("aa_rx_sg_duqu", g.sg, n, Q, k, rd, 8, ad, 8)
        want = g.rel("m", x[0] if x else None)
        c.eq("quaternion-translation form", rel.get(8 * i, 7), list(want[0]) + list(want[1]))
        c.eq("matrix form", rm.get(13 * i, 12), tfm(want))
        c.eq("dual-quaternion form", rd.get(8 * i, 8), qv2dq(*want))
        c.eq("padding of the relative transforms untouched", rel.get(8 * i + 7, 1), pad[8 * i + 7:8 * i + 8])
        if parent:
            j = g.id("z")
            c.isint("the parent precedes", j, 0)
            P = pair(ab.get(0, 7))
            M, R = am.get(0, 12), rm.get(13 * i, 12)
            c.eq("absolute matrix", am.get(12 * i, 12), mmul(M[:9], R[:9]) + add(mv(M[:9], R[9:]), M[9:]))
            T = tf_mul(P, pair(rel.get(8 * i, 7)))
            c.eq("absolute quaternion-translation", ab.get(9 * i, 7), T[0] + T[1])
            c.eq("absolute dual quaternion", ad.get(8 * i, 8), dmul(ad.get(0, 8), rd.get(8 * i, 8)))
        else:
            c.eq("root frame: absolute is relative", ab.get(9 * i, 7), rel.get(8 * i, 7))
            c.eq("root frame: absolute is relative (matrix)", am.get(12 * i, 12), rm.get(13 * i, 12))
            c.eq("root frame: absolute is relative (dual quaternion)", ad.get(8 * i, 8), rd.get(8 * i, 8))
        c.call("aa_rx_sg_destroy", g.sg)


for kind in KINDS:
    for parent in (0, 1):
        mk_rel(kind, parent)


def mk_tree(tag, shape):
    @item("G01.tree." + tag, "G01", "aa_rx_sg_tf aa_rx_sg_tfmat aa_rx_sg_duqu", cxx=True)
    def _(c):
        g, n, cid = build(c, shape)
        k = len(shape)
        ids = {s[0]: g.id(s[0]) for s in shape}
        c.isint("frame indices are 0..n-1", sorted(ids.values()), list(range(k)))
        for s in shape:
            if s[2]:
                c.isint("the parent of %s precedes it" % s[0], int(ids[s[2]] < ids[s[0]]), 1)
        Q = c.inp([])
        rel, ab = c.out(7 * k), c.out(9 * k)
        c.call("aa_rx_sg_tf", g.sg, n, Q, k, rel, 7, ab, 9)
        rm, am = c.out(13 * k), c.out(14 * k)
        c.call("aa_rx_sg_tfmat", g.sg, n, Q, k, rm, 13, am, 14)
        rd, ad = c.out(9 * k), c.out(10 * k)
        c.call("aa_rx_sg_duqu", g.sg, n, Q, k, rd, 9, ad, 10)
        for s in shape:
            i = ids[s[0]]
            want = g.rel(s[0], None)
            c.eq(s[0] + ": relative", rel.get(7 * i, 7), list(want[0]) + list(want[1]))
            R = rm.get(13 * i, 12)
            if not s[2]:
                c.eq(s[0] + ": absolute is relative", ab.get(9 * i, 7), rel.get(7 * i, 7))
                c.eq(s[0] + ": absolute is relative (matrix)", am.get(14 * i, 12), R)
                c.eq(s[0] + ": absolute is relative (dual quaternion)", ad.get(10 * i, 8), rd.get(9 * i, 8))
                continue
            j = ids[s[2]]
            M = am.get(14 * j, 12)
            c.eq(s[0] + ": absolute matrix is its parent's times its own", am.get(14 * i, 12),
                 mmul(M[:9], R[:9]) + add(mv(M[:9], R[9:]), M[9:]))
            T = tf_mul(pair(ab.get(9 * j, 7)), pair(rel.get(7 * i, 7)))
            c.eq(s[0] + ": absolute transform is its parent's times its own", ab.get(9 * i, 7), T[0] + T[1])
            c.eq(s[0] + ": absolute dual quaternion is its parent's times its own", ad.get(10 * i, 8),
                 dmul(ad.get(10 * j, 8), rd.get(9 * i, 8)))
        c.call("aa_rx_sg_destroy", g.sg)


# every parent index other than the first is exercised, in both orders of insertion, with a second root between
mk_tree("deep", [("a", FIX, ""), ("b", FIX, "a"), ("d", FIX, "b")])
mk_tree("reversed", [("p", FIX, "q"), ("q", FIX, "r"), ("r", FIX, "")])
mk_tree("forest", [("a", FIX, ""), ("b", FIX, ""), ("d", FIX, "b"), ("e", FIX, "a")])


@item("G01.null", "G01", "aa_rx_sg_tf aa_rx_sg_tfmat aa_rx_sg_duqu", cxx=True)
def _(c):
    """omitted rotation and translation mean identity"""
    sg = c.call("aa_rx_sg_create")
    a, o = c.unit("a", 3), c.scalar("o")
    c.call("aa_rx_sg_add_frame_fixed", sg, c.cstr(""), c.cstr("a"), c.null(), c.null())
    c.call("aa_rx_sg_add_frame_prismatic", sg, c.cstr("a"), c.cstr("b"), c.null(), c.null(), c.null(), c.inp(a), o)
    c.isint("init", c.call("aa_rx_sg_init", sg, ret="i"), 0)
    x = c.scalar("x")
    Q = c.inp([x])
    E, M, S = c.out(14), c.out(24), c.out(16)
    for fn, b, n in (("aa_rx_sg_tf", E, 7), ("aa_rx_sg_tfmat", M, 12), ("aa_rx_sg_duqu", S, 8)):
        ab = c.out(2 * n)
        c.call(fn, sg, 1, Q, 2, b, n, ab, n)
        c.eq("chain", ab.get(n, n), b.get(n, n))
    one = [0, 0, 0, 1]
    t = scale(x + o, a)
    c.eq("identity", E.get(), one + [0] * 3 + one + t)
    c.eq("identity matrix", M.get(), eye(3) + [0] * 3 + eye(3) + t)
    c.eq("identity dual quaternion", S.get(), one + [0] * 4 + qv2dq(one, t))
    c.call("aa_rx_sg_destroy", sg)


@item("G01.joint_zero", "G01", "aa_rx_sg_tf", cxx=True)
def _(c):
    """a joint at minus its offset leaves the fixed transform"""
    g, n, cid = build(c, [("r", REV, ""), ("p", PRI, "r")])
    q = [None, None]
    for nm in "rp":
        q[cid[nm]] = -g.f[nm]["off"]
    E, A = c.out(14), c.out(14)
    c.call("aa_rx_sg_tf", g.sg, 2, c.inp(q), 2, E, 7, A, 7)
    for nm in "rp":
        c.eq("fixed transform", E.get(7 * g.id(nm), 7), list(g.f[nm]["q"]) + list(g.f[nm]["v"]))
    c.call("aa_rx_sg_destroy", g.sg)


# ------------------------------------------------------------------ G02
SHAPES = {
    "single": [("a", REV, "")],
    "chain3": [("c", REV, ""), ("b", PRI, "c"), ("a", REV, "b")],
    "fixedtip": [("b", REV, ""), ("a", FIX, "b"), ("c", PRI, "a"), ("aa", FIX, "c")],
    "tree": [("z", FIX, ""), ("l1", REV, "z"), ("r1", PRI, "z"), ("l2", REV, "l1"), ("r2", FIX, "r1"), ("top", PRI, "")],
    "shared": [("b", REV, "", "s"), ("a", PRI, "b", "s"), ("c", REV, "a")],
}
BG = "scene graph shape: %s"


def conf(c, g, n, cid, tag="x"):
    ang = {}
    for f in g.f.values():
        if f["kind"] == REV:
            ang[cid[f["config"]]] = 1
    return [c.angle("%s%d" % (tag, i), -1, 1) if i in ang and False else c.scalar("%s%d" % (tag, i)) for i in range(n)]


def order(g):
    """ids by name; parents first"""
    return {nm: g.id(nm) for nm in g.f}


def spec_abs(c, g, ids, ab, rel, what, off=lambda i: 7 * i, roff=lambda i: 7 * i):
    for nm, f in g.f.items():
        i = ids[nm]
        R = rel.get(roff(i), 7)
        if f["parent"]:
            T = tf_mul(pair(ab.get(off(ids[f["parent"]]), 7)), pair(R))
            c.eq("%s of %s is the parent's times the relative one" % (what, nm), ab.get(off(i), 7), T[0] + T[1])
        else:
            c.eq("%s of %s is the relative one" % (what, nm), ab.get(off(i), 7), R)


def mk_fk(nm, shape):
    @item("G02.fk.%s" % nm, "G02", "aa_rx_sg_tf aa_rx_fk_all aa_rx_sg_fill_tf_abs aa_rx_sg_get_tf_abs aa_rx_fk_malloc aa_rx_fk_alloc aa_rx_fk_cpy aa_rx_fk_destroy aa_rx_fk_cnt aa_rx_fk_get_abs_qutr", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        k = len(shape)
        ids = order(g)
        c.isint("frame indices are 0..n-1", sorted(ids.values()), list(range(k)))
        x = conf(c, g, n, cid)
        rel, ab = c.out(7 * k), c.out(7 * k)
        c.call("aa_rx_sg_tf", g.sg, n, c.inp(x), k, rel, 7, ab, 7)
        spec_abs(c, g, ids, ab, rel, "absolute transform")
        for f in g.f.values():
            w = g.rel(f["name"], g.conf(cid, x, f["name"]))
            c.eq("relative transform of " + f["name"], rel.get(7 * ids[f["name"]], 7), list(w[0]) + list(w[1]))
        reg = c.new_region()
        for inc in (1, 2):
            xs = c.vec("gap%d" % inc, n * inc)
            for i in range(n):
                xs[i * inc] = x[i]
            qv = c.dvec(n, c.inp(xs), inc, ro=True)
            fk = c.call("aa_rx_fk_malloc" if inc == 1 else "aa_rx_fk_alloc", g.sg, *([] if inc == 1 else [reg]))
            c.call("aa_rx_fk_all", fk, qv)
            c.isint("count", c.call("aa_rx_fk_cnt", fk), k)
            ld = c.call("aa_rx_fk_ld", fk)
            D = c.call("aa_rx_fk_data", fk)
            D = c.deref(D, ld * (k - 1) + 7)
            for i in range(k):
                c.eq("aa_rx_fk_all, stride %d" % inc, D[ld * i:ld * i + 7], ab.get(7 * i, 7))
                E = c.out(7)
                c.call("aa_rx_fk_get_abs_qutr", fk, i, E)
                c.eq("aa_rx_fk_get_abs_qutr", E.get(), ab.get(7 * i, 7))
                c.eq("aa_rx_fk_ref", c.deref(c.call("aa_rx_fk_ref", fk, i), 7), ab.get(7 * i, 7))
            f2 = c.call("aa_rx_fk_malloc", g.sg)
            c.call("aa_rx_fk_cpy", f2, fk)
            c.eq("aa_rx_fk_cpy", c.deref(c.call("aa_rx_fk_data", f2), ld * (k - 1) + 7), D)
            c.call("aa_rx_fk_destroy", f2)
            if inc == 1:
                c.call("aa_rx_fk_destroy", fk)
            pad = c.vec("pad%d" % inc, 9 * k)
            tb = c.inout(pad)
            c.call("aa_rx_sg_fill_tf_abs", g.sg, qv, c.dmat(7, k, tb, 9, ro=True))
            w = list(pad)
            for i in range(k):
                w[9 * i:9 * i + 7] = ab.get(7 * i, 7)
            c.eq("aa_rx_sg_fill_tf_abs, stride %d" % inc, tb.get(), w)
            m = c.call("aa_rx_sg_get_tf_abs", g.sg, reg, qv)
            c.isint("size of the table", (c.intfield(m, 0), c.intfield(m, 8), c.intfield(m, 24)), (7, k, 7))
            c.eq("aa_rx_sg_get_tf_abs", c.deref(c.ptrfield(m, 16), 7 * k), ab.get())
        c.call("aa_mem_region_destroy", reg)
        c.call("aa_rx_sg_destroy", g.sg)


def mk_fkbound(nm, shape):
    @item("G02.fk_get.%s" % nm, "G02", "aa_rx_fk_get_abs_qutr", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        fk = c.call("aa_rx_fk_malloc", g.sg)
        E = c.inout(c.vec("E", 7))
        c.reports("frame index equal to the number of frames", "aa_rx_fk_get_abs_qutr", fk, len(shape), E, unchanged=[E])


def mk_rel_tf(nm, shape):
    @item("G02.reltf.%s" % nm, "G02", "aa_rx_sg_rel_tf aa_rx_fk_get_rel_qutr aa_rx_fk_set_rel aa_rx_fk_rot_abs", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        k = len(shape)
        ids = order(g)
        tab = [c.unit("Q%d" % i, 4) + c.vec("P%d" % i, 3) for i in range(k)]
        T = c.inp([x for t in tab for x in t + [q0(c)]])
        fk = c.call("aa_rx_fk_malloc", g.sg)
        for i in range(k):
            c.poke(c.call("aa_rx_fk_ref", fk, i), tab[i])
        ld = c.call("aa_rx_fk_ld", fk)
        for a in [-1] + list(range(k)):
            for b in [-1] + list(range(k)):
                E = c.out(7)
                c.call("aa_rx_sg_rel_tf", g.sg, a, b, T, 8, E)
                A = pair(tab[a]) if a >= 0 else ([0, 0, 0, 1], [0, 0, 0])
                B = pair(tab[b]) if b >= 0 else ([0, 0, 0, 1], [0, 0, 0])
                w = tf_mul(tf_inv(A), B)
                c.eq("transform from %d to %d" % (a, b), E.get(), list(w[0]) + list(w[1]))
                E = c.out(7)
                c.call("aa_rx_fk_get_rel_qutr", fk, a, b, E)
                c.eq("fk transform from %d to %d" % (a, b), E.get(), list(w[0]) + list(w[1]))
        names = {i: s for s, i in ids.items()}
        rel = c.unit("rq", 4) + c.vec("rv", 3)
        for i in range(k):
            c.call("aa_rx_fk_set_rel", fk, i, c.inp(rel))
            p = g.f[names[i]]["parent"]
            w = tf_mul(pair(tab[ids[p]]), pair(rel)) if p else pair(rel)
            for j in range(k):
                c.eq("after setting %d: transform %d" % (i, j), c.deref(c.call("aa_rx_fk_ref", fk, j), 7), w[0] + w[1] if i == j else tab[j])
            c.poke(c.call("aa_rx_fk_ref", fk, i), tab[i])
        c.call("aa_rx_fk_destroy", fk)
        c.call("aa_rx_sg_destroy", g.sg)


def q0(c): return c.lift(0)


def mk_upd(nm, shape, chg, first):
    @item("G02.update.%s.%s" % (nm, "".join(map(str, chg)) + ("n" if first < 0 else "p")), "G02", "aa_rx_sg_tf_update", cxx=True, bounded=BG % nm)
    def _(c):
        """joints in chg move by an arbitrary nonzero amount, the others keep their value"""
        g, n, cid = build(c, shape)
        k = len(shape)
        x0 = conf(c, g, n, cid)
        x = [x0[i] + first * c.scalar("d%d" % i, pos=True) if i in chg else x0[i] for i in range(n)]
        r0, a0 = c.out(7 * k), c.out(7 * k)
        c.call("aa_rx_sg_tf", g.sg, n, c.inp(x0), k, r0, 7, a0, 7)
        r1, a1 = c.out(7 * k), c.out(7 * k)
        c.call("aa_rx_sg_tf", g.sg, n, c.inp(x), k, r1, 7, a1, 7)
        rel, ab = c.out(8 * k), c.out(9 * k)
        c.call("aa_rx_sg_tf_update", g.sg, n, c.inp(x0), c.inp(x), k, r0, 7, a0, 7, rel, 8, ab, 9)
        for i in range(k):
            c.eq("relative transform %d" % i, rel.get(8 * i, 7), r1.get(7 * i, 7))
            c.eq("absolute transform %d" % i, ab.get(9 * i, 7), a1.get(7 * i, 7))
        c.call("aa_rx_sg_destroy", g.sg)


def path(g, root, tip):
    """names from below root to tip"""
    r = []
    while tip and tip != root:
        r.insert(0, tip)
        tip = g.f[tip]["parent"]
    return r


def sub_check(c, g, cid, ids, sub, fr, tip, distinct=True):
    c.isint("frames of the chain", [sgn(c.call("aa_rx_sg_sub_frame", sub, i)) for i in range(c.call("aa_rx_sg_sub_frame_count", sub))], [ids[f] for f in fr])
    cf = [cid[g.f[f]["config"]] for f in fr if g.f[f]["kind"] != FIX]
    c.isint("configurations of the chain", [sgn(c.call("aa_rx_sg_sub_config", sub, i)) for i in range(c.call("aa_rx_sg_sub_config_count", sub))], cf)
    c.isint("all configurations", c.call("aa_rx_sg_sub_all_config_count", sub), len(cid))
    c.isint("all frames", c.call("aa_rx_sg_sub_all_frame_count", sub), len(g.f))
    return cf


def sgn(r): return r - (1 << 64) if r >> 63 else r


def mk_sub(nm, shape, root, tip):
    @item("G02.sub.%s.%s_%s" % (nm, root or "root", tip), "G02", "aa_rx_sg_chain_create aa_rx_fk_sub aa_rx_sg_sub_jac_vel_fill aa_rx_sg_sub_jac_twist_fill aa_rx_sg_chain_jacobian aa_rx_sg_sub_get_jacobian aa_rx_sg_sub_jac_vel_get aa_rx_sg_sub_jac_twist_get", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        k = len(shape)
        ids = order(g)
        sub = c.call("aa_rx_sg_chain_create", g.sg, ids[root] if root else -1, ids[tip])
        fr = path(g, root, tip)
        cf = sub_check(c, g, cid, ids, sub, fr, tip)
        m = len(cf)
        c.isint("end effectors", c.call("aa_rx_sg_sub_frame_ee_count", sub), 1)
        c.isint("end effector", sgn(c.call("aa_rx_sg_sub_frame_ee", sub)), ids[tip])
        # any table of absolute transforms
        tab = {i: c.unit("Q%d" % i, 4) + c.vec("P%d" % i, 3) for i in range(k)}
        fk = c.call("aa_rx_fk_malloc", g.sg)
        for i in range(k):
            c.poke(c.call("aa_rx_fk_ref", fk, i), tab[i])
        vel, tw = [], []
        pe = tab[ids[tip]][4:]
        for f in fr:
            if g.f[f]["kind"] == FIX:
                continue
            t = tab[ids[f]]
            a = qrot(t[:4], g.f[f]["axis"])
            z = [0, 0, 0]
            vel += (cross(a, sub_(pe, t[4:])) + a) if g.f[f]["kind"] == REV else (a + z)
            tw += (cross(t[4:], a) + a) if g.f[f]["kind"] == REV else (a + z)
        reg = c.new_region()
        TM = c.dmat(7, k, c.inp([x for i in range(k) for x in tab[i] + [q0(c)]]), 8, ro=True)
        for what, w in (("vel", vel), ("twist", tw)):
            g0 = c.vec("g_" + what, 8 * m)
            jb = c.inout(g0)
            c.call("aa_rx_sg_sub_jac_%s_fill" % what, sub, fk, c.dmat(6, m, jb, 8, ro=True))
            for j in range(m):
                c.eq("%s Jacobian, column %d" % (what, j), jb.get(8 * j, 6), w[6 * j:6 * j + 6])
                c.eq("gap of the Jacobian", jb.get(8 * j + 6, 2), g0[8 * j + 6:8 * j + 8])
            J = c.call("aa_rx_sg_sub_jac_%s_get" % what, sub, reg, fk)
            c.isint("size of the Jacobian", (c.intfield(J, 0), c.intfield(J, 8), c.intfield(J, 24)), (6, m, 6))
            c.eq("allocated %s Jacobian" % what, c.deref(c.ptrfield(J, 16), 6 * m), w)
        J = c.call("aa_rx_sg_sub_get_jacobian", sub, reg, TM)
        c.isint("size of the Jacobian", (c.intfield(J, 0), c.intfield(J, 8), c.intfield(J, 24)), (6, m, 6))
        c.eq("Jacobian from a transform table", c.deref(c.ptrfield(J, 16), 6 * m), vel)
        # partial update from the sub-scenegraph configuration
        xs = c.vec("xs", 2 * m)
        if len(set(cf)) == m:
            x = {cf[j]: xs[2 * j] for j in range(m)}
            c.call("aa_rx_fk_sub", fk, sub, c.dvec(m, c.inp(xs), 2, ro=True))
            for f, i in ids.items():
                got = c.deref(c.call("aa_rx_fk_ref", fk, i), 7)
                if f not in fr:
                    c.eq("frame %s outside the chain is untouched" % f, got, tab[i])
                else:
                    R = g.rel(f, x.get(cid.get(g.f[f].get("config"))))
                    p = g.f[f]["parent"]
                    w = tf_mul(pair(c.deref(c.call("aa_rx_fk_ref", fk, ids[p]), 7)), R) if p else R
                    c.eq("frame %s of the chain" % f, got, list(w[0]) + list(w[1]))
        c.call("aa_mem_region_destroy", reg)
        c.call("aa_rx_fk_destroy", fk)
        c.call("aa_rx_sg_sub_destroy", sub)
        c.call("aa_rx_sg_destroy", g.sg)


def sub_(a, b): return [x - y for x, y in zip(a, b)]


for nm, sh in SHAPES.items():
    mk_fk(nm, sh)
mk_fkbound("chain3", SHAPES["chain3"])
mk_rel_tf("chain3", SHAPES["chain3"])
mk_rel_tf("tree2", [("z", FIX, ""), ("a", REV, "z"), ("b", PRI, "z")])
for nm, chgs in (("chain3", [(), (0,), (1,), (2,), (0, 2), (0, 1, 2)]), ("tree", [(0,), (1,), (2,), (3,), (0, 3)]), ("shared", [(0,), (1,)]), ("fixedtip", [(0,), (1,)])):
    for ch in chgs:
        mk_upd(nm, SHAPES[nm], ch, 1)
        mk_upd(nm, SHAPES[nm], ch, -1)
for nm, root, tip in (("single", "", "a"), ("chain3", "", "a"), ("chain3", "c", "a"), ("chain3", "", "b"), ("fixedtip", "", "aa"), ("fixedtip", "b", "aa"), ("tree", "", "l2"), ("tree", "z", "r2"), ("tree", "", "top")):
    mk_sub(nm, SHAPES[nm], root, tip)


def mk_jd(kind):
    @item("G02.derivative.%s" % kind, "G02", "", replay=False)
    def _(c):
        """the Jacobian column of a joint is the derivative of the tip's transform: frame = parent o rel(x), tip = frame o rest"""
        PQ, PV = c.unit("PQ", 4), c.vec("PV", 3)
        RQ, RV = c.unit("RQ", 4), c.vec("RV", 3)
        Q, V = c.unit("Q", 4), c.vec("V", 3)
        a = c.unit("a", 3)
        x, o = c.scalar("x"), c.scalar("o")
        if kind == REV:
            rel = (qmul(Q, scale(sin((x + o) / 2), a) + [cos((x + o) / 2)]), V)
        else:
            rel = (Q, add(V, qrot(Q, scale(x + o, a))))
        fr = tf_mul((PQ, PV), rel)
        tip = tf_mul(fr, (RQ, RV))
        # d/dx of the joint's own transform; parent and rest do not depend on x
        dq = [c.diff(e, "x") for e in rel[0]]
        dv = [c.diff(e, "x") for e in rel[1]]
        dfq = qmul(PQ, dq)
        dfv = qrot(PQ, dv)
        dtq = qmul(dfq, RQ)
        w2 = add(qmul(qmul(dfq, pure(RV)), qconj(fr[0])), qmul(qmul(fr[0], pure(RV)), qconj(dfq)))
        dtv = add(dfv, w2[:3])
        A = qrot(fr[0], a)
        if kind == REV:
            w = A; v = cross(A, sub_(tip[1], fr[1]))
        else:
            w = [0, 0, 0]; v = A
        c.eq("velocity of the tip", dtv, v)
        c.eq("rotation of the tip", dtq, scale(F(1, 2), qmul(pure(w), tip[0])))
        tv = sub_(v, cross(w, tip[1]))
        c.eq("twist column", tv, cross(fr[1], A) if kind == REV else A)


for kind in (REV, PRI):
    mk_jd(kind)


# ------------------------------------------------------------------ G03
def mk_names(nm, shape):
    @item("G03.names.%s" % nm, "G03", "aa_rx_sg_init aa_rx_sg_frame_id aa_rx_sg_frame_name aa_rx_sg_frame_parent aa_rx_sg_frame_type aa_rx_sg_config_id aa_rx_sg_config_name aa_rx_sg_config_names aa_rx_sg_config_indices aa_rx_sg_frame_config aa_rx_sg_frame_axis", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        names_check(c, g, n, cid)
        c.call("aa_rx_sg_destroy", g.sg)


def names_check(c, g, n, cid):
    k = len(g.f)
    sg = g.sg
    ids = order(g)
    c.isint("number of frames", c.call("aa_rx_sg_frame_count", sg), k)
    c.isint("number of configuration variables", n, len({f["config"] for f in g.f.values() if f["kind"] != FIX}))
    c.isint("frame indices", sorted(ids.values()), list(range(k)))
    for nm, f in g.f.items():
        i = ids[nm]
        c.isint("name of frame", c.text(c.call("aa_rx_sg_frame_name", sg, i)), nm)
        p = ids[f["parent"]] if f["parent"] else -1
        c.isint("parent of " + nm, sgn(c.call("aa_rx_sg_frame_parent", sg, i)), p)
        c.true("parents come first", p < i)
        c.isint("type of " + nm, c.call("aa_rx_sg_frame_type", sg, i), KINDS.index(f["kind"]))
        c.isint("configuration of " + nm, sgn(c.call("aa_rx_sg_frame_config", sg, i)), cid[f["config"]] if f["kind"] != FIX else -1)
        if f["kind"] != FIX:
            c.eq("axis of " + nm, c.deref(c.call("aa_rx_sg_frame_axis", sg, i), 3), f["axis"])
    for cn, i in cid.items():
        c.isint("name of configuration", c.text(c.call("aa_rx_sg_config_name", sg, i)), cn)
    for i in (n, n + 1, k, k + 1):
        if i >= n:
            c.isint("no such configuration", c.text(c.call("aa_rx_sg_config_name", sg, i)), "NONE")
    c.isint("no configuration", c.text(c.call("aa_rx_sg_config_name", sg, -1)), "NONE")
    c.isint("several configurations", c.text(c.call("aa_rx_sg_config_name", sg, -2)), "MULTI")
    c.isint("root name", c.text(c.call("aa_rx_sg_frame_name", sg, -1)), "")
    for i in (-2, k, -3):
        c.isint("no such frame", c.text(c.call("aa_rx_sg_frame_name", sg, i)), "?")
    c.isint("root index", g.id(""), -1)
    c.isint("unknown frame", g.id("no such frame"), -2)
    c.isint("unknown configuration", g.cid("no such configuration"), -1)
    c.isint("parent of the root", sgn(c.call("aa_rx_sg_frame_parent", sg, -1)), -2)
    c.isint("asking for an unknown name adds none", (c.call("aa_rx_sg_frame_count", sg), c.call("aa_rx_sg_config_count", sg)), (k, n))
    inv = {i: s for s, i in cid.items()}
    for m in {max(n - 1, 0), n, n + 2}:
        buf = c.raw(8 * (n + 2))
        w = min(m, n)
        c.isint("names filled", c.call("aa_rx_sg_config_names", sg, m, buf), w)
        for i in range(w):
            c.isint("name %d" % i, c.text(c.ptrfield_of(buf, 8 * i)), inv[i])
    strs = [c.cstr(s) for s in list(cid) + ["none such"]]
    arr = c.struct([(8 * i, s) for i, s in enumerate(strs)], ro=True)
    o = c.raw(8 * len(strs))
    c.call("aa_rx_sg_config_indices", sg, len(strs), arr, o)
    c.isint("indices by name", [sgn(x) for x in o.ints(len(strs))], list(cid.values()) + [-1])


LIM = ("pos", "vel", "acc", "eff")


def limits_check(c, sg, cid, lim):
    """lim: {(config, what): (min, max)}"""
    n = len(cid)
    for cn, i in cid.items():
        for w in LIM:
            o0 = c.vec("u_%s%s%d" % (cn, w, len(c.called)), 2)
            a, b = c.inout(o0[:1]), c.inout(o0[1:])
            r = c.call("aa_rx_sg_get_limit_" + w, sg, i, a, b, ret="i")
            if (cn, w) in lim:
                c.isint("%s limit of %s is set" % (w, cn), r, 0)
                c.eq("%s limit of %s" % (w, cn), a.get() + b.get(), lim[cn, w])
            else:
                c.true("%s limit of %s is not set" % (w, cn), r != 0)
                c.eq("arguments untouched", a.get() + b.get(), o0)
        ctr = (lim[cn, "pos"][0] + lim[cn, "pos"][1]) / 2 if (cn, "pos") in lim else 0
        c.eq("centre of " + cn, c.call("aa_rx_sg_config_center", sg, i), ctr)
    inv = {i: s for s, i in cid.items()}
    for m in {max(n - 1, 0), n, n + 1}:
        g0 = c.vec("ctr%d_%d" % (m, len(c.called)), n + 2)
        q = c.inout(g0)
        c.call("aa_rx_sg_center_configs", sg, m, q)
        w = list(g0)
        for i in range(min(m, n)):
            l = lim.get((inv[i], "pos"))
            w[i] = (l[0] + l[1]) / 2 if l else 0
        c.eq("centre configuration", q.get(), w)


def setlim(c, g, lim, cn, w, tag=""):
    lim[cn, w] = [c.scalar("min_%s_%s%s" % (cn, w, tag)), c.scalar("max_%s_%s%s" % (cn, w, tag))]
    c.call("aa_rx_sg_set_limit_" + w, g.sg, c.cstr(cn), *lim[cn, w])


def mk_limits(when):
    @item("G03.limits.%s" % when, "G03", " ".join("aa_rx_sg_set_limit_%s aa_rx_sg_get_limit_%s" % (w, w) for w in LIM) + " aa_rx_sg_config_center aa_rx_sg_center_configs", cxx=True, bounded="two joints sharing a configuration and a third joint")
    def _(c):
        g = G(c)
        lim = {}
        shape = [("a", REV, "", "s"), ("b", PRI, "a", "s"), ("c", REV, "a", "t"), ("d", PRI, "b", "u")]
        if when == "before":
            setlim(c, g, lim, "t", "vel")
        for s in shape:
            g.add(s[1], s[0], s[2], config=s[3])
        if when == "between":
            for w in LIM:
                setlim(c, g, lim, "s", w)
            setlim(c, g, lim, "t", "acc")
            setlim(c, g, lim, "t", "pos")
        c.isint("init", g.init(), 0)
        n, cid = angles(c, g, None)
        if when == "after":
            setlim(c, g, lim, "s", "pos")
            setlim(c, g, lim, "t", "eff")
            setlim(c, g, lim, "t", "vel")
        limits_check(c, g.sg, cid, lim)
        # change one of them
        if lim:
            cn, w = sorted(lim)[0]
            setlim(c, g, lim, cn, w, "_2")
        setlim(c, g, lim, "not a joint", "pos")
        limits_check(c, g.sg, cid, {k: v for k, v in lim.items() if k[0] in cid})
        # re-initialise with a further frame
        g.add(PRI, "0", "", config="new")
        c.isint("init again", g.init(), 0)
        n, cid = angles(c, g, None)
        limits_check(c, g.sg, cid, {k: v for k, v in lim.items() if k[0] in cid})
        # a copy has the same limits, and they are its own
        cp = c.call("aa_rx_sg_copy", g.sg)
        o = G.__new__(G); o.c = c; o.sg = cp; o.f = g.f
        n, cid2 = angles(c, o, None)
        c.isint("same configuration indices", cid2, cid)
        old = dict(lim)
        setlim(c, g, lim, "s", "pos", "_3")
        limits_check(c, cp, cid, {k: v for k, v in old.items() if k[0] in cid})
        c.call("aa_rx_sg_destroy", g.sg)
        limits_check(c, cp, cid, {k: v for k, v in old.items() if k[0] in cid})
        c.call("aa_rx_sg_destroy", cp)


def mk_map(nm, shape, root, tip, si, ai):
    @item("G03.map.%s.%s_%s.i%d_%d" % (nm, root or "root", tip, si, ai), "G03", "aa_rx_sg_chain_create aa_rx_sg_sub_config_scatter aa_rx_sg_sub_config_gather aa_rx_sg_sub_config_get aa_rx_sg_sub_config_set aa_rx_sg_config_get aa_rx_sg_config_set aa_rx_sg_sub_expand_path aa_rx_sg_sub_center_configs aa_rx_sg_sub_center_configv aa_rx_sg_sub_rand_config", cxx=True, bounded=BG % nm + ", strides %d, %d" % (si, ai))
    def _(c):
        g = G(c)
        for s in shape:
            g.add(s[1], s[0], s[2], config=s[3] if len(s) > 3 else None)
        lim = {}
        joints = [f["config"] for f in g.f.values() if f["kind"] != FIX]
        for cn in joints[::2]:
            lo = c.scalar("min_" + cn)
            lim[cn, "pos"] = [lo, lo + c.scalar("range_" + cn, nonneg=True)]
            c.call("aa_rx_sg_set_limit_pos", g.sg, c.cstr(cn), *lim[cn, "pos"])
        g.init()
        n, cid = angles(c, g, None)
        ids = order(g)
        sub = c.call("aa_rx_sg_chain_create", g.sg, ids[root] if root else -1, ids[tip])
        fr = path(g, root, tip)
        cf = sub_check(c, g, cid, ids, sub, fr, tip)
        m = len(cf)
        map_check(c, g, sub, cf, n, si, ai, lim, cid)
        c.call("aa_rx_sg_sub_destroy", sub)
        c.call("aa_rx_sg_destroy", g.sg)


def map_check(c, g, sub, cf, n, si, ai, lim, cid):
    m = len(cf)
    S0, A0 = c.vec("s", max(m * si, 1)), c.vec("a", n * ai)
    S, A = c.inout(S0), c.inout(A0)
    c.call("aa_rx_sg_sub_config_scatter", sub, c.dvec(m, S, si, ro=True), c.dvec(n, A, ai, ro=True))
    w = list(A0)
    for j, i in enumerate(cf):
        w[i * ai] = S0[j * si]
    c.eq("scatter", A.get(), w)
    c.eq("scatter leaves the subset", S.get(), S0)
    A1 = c.inp(A0); S1 = c.inout(S0)
    c.call("aa_rx_sg_sub_config_gather", sub, c.dvec(n, A1, ai, ro=True), c.dvec(m, S1, si, ro=True))
    w = list(S0)
    for j, i in enumerate(cf):
        w[j * si] = A0[i * ai]
    c.eq("gather", S1.get(), w)
    full = c.vec("f", n); part = c.vec("p", max(m, 1))
    o = c.inout(part)
    c.call("aa_rx_sg_sub_config_get", sub, n, c.inp(full), m, o)
    c.eq("get", o.get(0, m), [full[i] for i in cf])
    o = c.inout(full)
    c.call("aa_rx_sg_sub_config_set", sub, m, c.inp(part), n, o)
    w = list(full)
    for j, i in enumerate(cf):
        w[i] = part[j]
    c.eq("set", o.get(), w)
    pts = 3
    ps = c.vec("path", max(m * pts, 1)); st = c.vec("start", n); pa = c.vec("all", n * pts)
    for start in (True, False):
        o = c.inout(pa)
        c.call("aa_rx_sg_sub_expand_path", sub, pts, c.inp(st) if start else c.null(), c.inp(ps), o)
        w = list(st) * pts if start else list(pa)
        for t in range(pts):
            for j, i in enumerate(cf):
                w[t * n + i] = ps[t * m + j]
        c.eq("expanded path (%s)" % ("from a start" if start else "in place"), o.get(), w)
    inv = {i: s for s, i in cid.items()}
    ctr = [(lim[inv[i], "pos"][0] + lim[inv[i], "pos"][1]) / 2 if (inv[i], "pos") in lim else 0 for i in cf]
    o = c.inout(part)
    c.call("aa_rx_sg_sub_center_configs", sub, m, o)
    c.eq("centre", o.get(0, m), ctr)
    o = c.inout(S0)
    c.call("aa_rx_sg_sub_center_configv", sub, c.dvec(m, o, si, ro=True))
    w = list(S0)
    for j in range(m):
        w[j * si] = ctr[j]
    c.eq("centre, stride", o.get(), w)
    if m:
        # random configurations: any value of the generator in [0,1]
        t = [c.scalar("t%d" % i, nonneg=True) for i in range(m)]
        t = [x / (x + c.scalar("t%dc" % i, pos=True)) for i, x in enumerate(t)]
        k = iter(t)
        c.abstract("aa_frand", lambda: next(k))
        o = c.inout(S0)
        c.call("aa_rx_sg_sub_rand_config", sub, c.dvec(m, o, si, ro=True))
        r = o.get()
        for j, i in enumerate(cf):
            lo, hi = lim[inv[i], "pos"] if (inv[i], "pos") in lim else (-c.pi, c.pi)
            c.cmp("random value of joint %d above its lower limit" % j, r[j * si] - lo)
            c.cmp("random value of joint %d below its upper limit" % j, hi - r[j * si])
            if c.symbolic:
                c.anyof("the whole range of joint %d can be drawn" % j, [([r[j * si]], [lo + t[j] * (hi - lo)]), ([r[j * si]], [hi - t[j] * (hi - lo)])])
            for p in range(1, si):
                c.eq("random configuration leaves the padding", r[j * si + p], S0[j * si + p])


def mk_mapsize():
    @item("G03.map.size", "G03", "aa_rx_sg_sub_config_scatter", cxx=True, bounded="lengths one off")
    def _(c):
        g, n, cid = build(c, SHAPES["chain3"])
        sub = c.call("aa_rx_sg_chain_create", g.sg, -1, g.id("b"))
        S, A = c.inout(c.vec("s", 3)), c.inout(c.vec("a", 4))
        c.reports("subset vector of another length", "aa_rx_sg_sub_config_scatter", sub, c.dvec(3, S, 1, ro=True), c.dvec(3, A, 1, ro=True), unchanged=[S, A])

    @item("G03.map.size2", "G03", "aa_rx_sg_sub_config_gather", cxx=True, bounded="lengths one off")
    def _(c):
        g, n, cid = build(c, SHAPES["chain3"])
        sub = c.call("aa_rx_sg_chain_create", g.sg, -1, g.id("b"))
        S, A = c.inout(c.vec("s", 3)), c.inout(c.vec("a", 4))
        c.reports("configuration vector of another length", "aa_rx_sg_sub_config_gather", sub, c.dvec(4, A, 1, ro=True), c.dvec(2, S, 1, ro=True), unchanged=[S, A])


def mk_multi(nm, shape, root, tips):
    @item("G03.multi.%s.%s" % (nm, "_".join(tips)), "G03", "aa_rx_sg_multiple_chain_create aa_rx_sg_chain_multiple_frames", cxx=True, bounded=BG % nm)
    def _(c):
        g, n, cid = build(c, shape)
        ids = order(g)
        t = c.ints([ids[x] for x in tips])
        sub = c.call("aa_rx_sg_multiple_chain_create", g.sg, ids[root] if root else -1, len(tips), t)
        fr = set()
        for x in tips:
            fr |= set(path(g, root, x))
        fr = sorted(fr, key=lambda f: ids[f])
        cf = sub_check(c, g, cid, ids, sub, fr, None)
        map_check(c, g, sub, cf, n, 1, 1, {}, cid)
        c.isint("end effectors", c.call("aa_rx_sg_sub_frame_ee_count", sub), len(tips))
        e = c.call("aa_rx_sg_sub_frame_ees", sub)
        c.isint("end effector frames", [sgn(c.intfield(e, 8 * i)) for i in range(len(tips))], [ids[x] for x in tips])
        c.call("aa_rx_sg_sub_destroy", sub)
        c.call("aa_rx_sg_destroy", g.sg)


def tf_all(c, g, tag):
    """all three forms of the transforms follow the specification"""
    n, cid = angles(c, g, None)
    k = len(g.f)
    x = [c.scalar("%s%d" % (tag, i)) for i in range(n)]
    Q = c.inp(x)
    ids = order(g)
    E, A = c.out(7 * k), c.out(7 * k)
    c.call("aa_rx_sg_tf", g.sg, n, Q, k, E, 7, A, 7)
    M, B = c.out(12 * k), c.out(12 * k)
    c.call("aa_rx_sg_tfmat", g.sg, n, Q, k, M, 12, B, 12)
    S, D = c.out(8 * k), c.out(8 * k)
    c.call("aa_rx_sg_duqu", g.sg, n, Q, k, S, 8, D, 8)
    for nm in g.f:
        i = ids[nm]
        w = g.rel(nm, g.conf(cid, x, nm))
        c.eq("%s: transform of %s" % (tag, nm), E.get(7 * i, 7), list(w[0]) + list(w[1]))
        c.eq("%s: matrix of %s" % (tag, nm), M.get(12 * i, 12), tfm(w))
        c.eq("%s: dual quaternion of %s" % (tag, nm), S.get(8 * i, 8), qv2dq(*w))
    spec_abs(c, g, ids, A, E, "absolute")


@item("G01.reparent", "G01 G03", "aa_rx_sg_reparent_name aa_rx_sg_reparent_id aa_rx_sg_init", cxx=True, bounded="three frames")
def _(c):
    """moving a frame to another parent with a new fixed transform"""
    g, n, cid = build(c, [("b", REV, ""), ("a", PRI, "b"), ("c", FIX, "b")])
    for i, (nm, par, byid) in enumerate((("c", "a", False), ("a", "", True), ("b", "c", False))):
        nq, nv = c.unit("nq" + nm, 4), c.vec("nv" + nm, 3)
        E1 = c.inp(nq + nv)
        if byid:
            c.call("aa_rx_sg_reparent_id", g.sg, g.id(par), g.id(nm), E1)
        else:
            c.call("aa_rx_sg_reparent_name", g.sg, c.cstr(par), c.cstr(nm), E1)
        g.f[nm].update(parent=par, q=nq, v=nv)
        c.isint("init", g.init(), 0)
        tf_all(c, g, "step%d" % i)
        n, cid = angles(c, g, None)
        names_check(c, g, n, cid)
    c.call("aa_rx_sg_destroy", g.sg)


@item("G01.replace", "G01 G03", "aa_rx_sg_add_frame_fixed aa_rx_sg_add_frame_revolute aa_rx_sg_add_frame_prismatic aa_rx_sg_rm_frame aa_rx_sg_init", cxx=True, bounded="three frames")
def _(c):
    """adding a frame again replaces it, removing one removes it"""
    g, n, cid = build(c, [("b", REV, ""), ("a", PRI, "b"), ("c", FIX, "b")])
    g.add(FIX, "b", "", q=c.unit("q2", 4), v=c.vec("v2", 3))
    c.isint("init", g.init(), 0)
    tf_all(c, g, "fixed")
    names_check(c, g, *angles(c, g, None))
    g.add(REV, "c", "a", q=c.unit("q3", 4), v=c.vec("v3", 3), config="j")
    c.isint("init", g.init(), 0)
    tf_all(c, g, "revolute")
    names_check(c, g, *angles(c, g, None))
    c.call("aa_rx_sg_rm_frame", g.sg, c.cstr("c"))
    c.call("aa_rx_sg_rm_frame", g.sg, c.cstr("never added"))
    del g.f["c"]
    c.isint("init", g.init(), 0)
    tf_all(c, g, "removed")
    names_check(c, g, *angles(c, g, None))
    c.call("aa_rx_sg_destroy", g.sg)


@item("G03.copy", "G03 G01", "aa_rx_sg_copy", cxx=True, bounded="three frames")
def _(c):
    g, n, cid = build(c, [("b", REV, "", "s"), ("a", PRI, "b"), ("c", FIX, "b")])
    cp = c.call("aa_rx_sg_copy", g.sg)
    c.call("aa_rx_sg_destroy", g.sg)
    g.sg = cp
    names_check(c, g, *angles(c, g, None))
    tf_all(c, g, "copy")
    c.call("aa_rx_sg_destroy", cp)


@item("G03.invalid_parent", "G03", "aa_rx_sg_init", cxx=True, bounded="two frames")
def _(c):
    g = G(c).add(REV, "a", "").add(PRI, "b", "missing")
    c.true("a missing parent is reported", g.init() != 0)
    c.true("and again", g.init() != 0)
    g.add(FIX, "missing", "a")
    c.isint("adding it mends the graph", g.init(), 0)
    names_check(c, g, *angles(c, g, None))
    c.call("aa_rx_sg_destroy", g.sg)


@item("G03.empty", "G03", "aa_rx_sg_create aa_rx_sg_config_count aa_rx_sg_frame_count", cxx=True)
def _(c):
    g = G(c)
    for i in range(2):
        c.isint("no frames", c.call("aa_rx_sg_frame_count", g.sg), 0)
        c.isint("no configuration variables", c.call("aa_rx_sg_config_count", g.sg), 0)
        c.isint("init", g.init(), 0)
    c.isint("unknown configuration", g.cid("x"), -1)
    g.add(REV, "a", "")
    c.isint("init", g.init(), 0)
    names_check(c, g, *angles(c, g, None))
    c.call("aa_rx_sg_rm_frame", g.sg, c.cstr("a"))
    c.isint("init", g.init(), 0)
    c.isint("no frames", c.call("aa_rx_sg_frame_count", g.sg), 0)
    c.isint("no configuration variables", c.call("aa_rx_sg_config_count", g.sg), 0)
    c.call("aa_rx_sg_destroy", g.sg)


@item("G03.dirty", "G03", "aa_rx_sg_ensure_clean_frames", cxx=True, bounded="one frame")
def _(c):
    g = G(c).add(REV, "a", "")
    o = c.inout([0])
    c.reports("indices used before initialisation", "aa_rx_sg_config_count", g.sg, unchanged=[o])


@item("G03.inertial", "G03", "aa_rx_sg_frame_set_inertial aa_rx_sg_frame_get_mass aa_rx_sg_frame_get_inertia", cxx=True, bounded="two frames")
def _(c):
    g, n, cid = build(c, [("b", REV, ""), ("a", PRI, "b")])
    for r in range(2):
        m, I = c.scalar("m%d" % r), c.vec("I%d_" % r, 9)
        c.call("aa_rx_sg_frame_set_inertial", g.sg, c.cstr("a"), m, c.inp(I))
        c.eq("mass", c.call("aa_rx_sg_frame_get_mass", g.sg, g.id("a")), m)
        c.eq("inertia", c.deref(c.call("aa_rx_sg_frame_get_inertia", g.sg, g.id("a")), 9), I)
    c.isint("none set", c.isnull(c.call("aa_rx_sg_frame_get_inertia", g.sg, g.id("b"))), True)
    c.call("aa_rx_sg_destroy", g.sg)


@item("G03.destructor", "G03", "aa_rx_sg_set_destructor aa_rx_sg_destroy", cxx=True, bounded="one frame")
def _(c):
    g, n, cid = build(c, [("b", REV, "")])
    cx = c.inp([c.scalar("cx")])
    seen = []
    c.call("aa_rx_sg_set_destructor", g.sg, c.callback("vp", lambda p: seen.append(c.sameptr(p, cx, 0))), cx)
    c.isint("not yet", seen, [])
    c.call("aa_rx_sg_destroy", g.sg)
    c.isint("called once with its context", seen, [True])


for nm, sh in SHAPES.items():
    mk_names(nm, sh)
for w in ("before", "between", "after"):
    mk_limits(w)
for nm, root, tip, si, ai in (("single", "", "a", 1, 1), ("chain3", "", "a", 1, 1), ("chain3", "c", "a", 2, 1), ("chain3", "", "b", 1, 2), ("fixedtip", "b", "aa", 1, 1), ("tree", "", "l2", 1, 1), ("tree", "z", "r2", 2, 3), ("tree", "", "top", 1, 1), ("tree", "z", "z", 1, 1)):
    mk_map(nm, SHAPES[nm], root, tip, si, ai)
mk_mapsize()
for nm, root, tips in (("tree", "", ["l2", "r2"]), ("tree", "z", ["l2", "l1", "top"]), ("chain3", "", ["a"]), ("fixedtip", "b", ["aa", "c"])):
    mk_multi(nm, SHAPES[nm], root, tips)


# ---- sequences of motion plans (M02)
@item("M02.planseq", "M02", "aa_rx_mp_seq_create aa_rx_mp_seq_append_all aa_rx_mp_seq_count aa_rx_mp_seq_point_count aa_rx_mp_seq_elt aa_rx_mp_seq_destroy", cxx=True, bounded="up to 4 plans of up to 3 points on two scene graphs")
def _(c):
    """a sequence returns copies of the plans appended, in order, with their scene graphs"""
    sgs = []
    for t, js in (("u", "ab"), ("w", "abc")):
        g = G(c)
        for j in js:
            g.add(REV, j + t, "", q=[0, 0, 0, 1], v=[0, 0, 0], axis=[0, 0, 1], offset=0)
        g.init()
        sgs.append((g.sg, len(js)))
    live = c.live()
    sq = c.call("aa_rx_mp_seq_create")
    want = []
    pts = 0
    for k, (w, n) in enumerate(((0, 2), (1, 3), (1, 1), (0, 1))):
        sg, nq = sgs[w]
        path = c.vec("p%d" % k, n * nq)
        buf = c.inout(path)
        c.call("aa_rx_mp_seq_append_all", sq, sg, n, buf)
        c.eq("the plan given is not changed", buf.get(), path)
        want.append((sg, n, path, buf))
        pts += n
        c.isint("plans", c.call("aa_rx_mp_seq_count", sq), len(want))
        c.isint("points", c.call("aa_rx_mp_seq_point_count", sq), pts)
        for i in range(len(want) + 2):
            a, k, d = c.raw(8), c.raw(8), c.raw(8)
            c.call("aa_rx_mp_seq_elt", sq, i, a, k, d)
            pa, pd, kn = c.ptrfield_of(a, 0), c.ptrfield_of(d, 0), c.ptrfield_of(k, 0)
            if i >= len(want):
                c.true("no such plan", c.isnull(pa) and c.isnull(pd))
                c.isint("no points", kn, 0)
            else:
                sg, n, path, buf = want[i]
                c.true("scene graph of plan %d" % i, (pa.o is sg.o and pa.off == sg.off) if c.symbolic else pa == sg)
                c.isint("points of plan %d" % i, kn, n)
                c.eq("values of plan %d" % i, c.deref(pd, len(path)), path)
                c.true("the values are a copy", not c.sameptr(pd, buf, 0))
    c.call("aa_rx_mp_seq_destroy", sq)
    c.freed("memory is given back", live)
    for sg, _ in sgs:
        c.call("aa_rx_sg_destroy", sg)
