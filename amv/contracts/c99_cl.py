"""C01: collision sets and checks (src/rx/collision_set.cpp, amino_fcl.cpp).

The collision library (FCL) enters as an assumed contract of its interface
(amv/harness/fcl*): what it is given is recorded, and its answer about a pair of
shapes is any value.  Shapes are told apart by their first dimension."""
from fractions import Fraction as F
from itertools import product
from ..spec import item
from ..ops import *
from .c95_sg import G, FIX, REV, PRI

P = "C01"


def frames(c, n):
    g = G(c)
    for i in range(n):
        g.add(FIX, "abcdef"[i], "", q=[0, 0, 0, 1], v=[0, 0, 0])
    c.isint("initialised", g.init(), 0)
    return g


def read(c, s, n):
    return [[c.call("aa_rx_cl_set_get", s, i, j, ret="i") & 1 for j in range(n)] for i in range(n)]


def rel(pairs, n): return [[int((i, j) in pairs or (j, i) in pairs) for j in range(n)] for i in range(n)]


def newset(c, g, pairs, flip=0):
    s = c.call("aa_rx_cl_set_create", g.sg)
    for k, (i, j) in enumerate(pairs):
        a = (i, j) if (k + flip) % 2 == 0 else (j, i)
        c.call("aa_rx_cl_set_set", s, a[0], a[1], (1, 5, -1)[k % 3])
    return s


CB = "up to 4 frames"
ALLP = lambda n: [(i, j) for i in range(n) for j in range(i + 1)]


@item("C01.set.value", P, "aa_rx_cl_set_create aa_rx_cl_set_set aa_rx_cl_set_get aa_rx_cl_set_clear aa_rx_cl_set_destroy", cxx=True, bounded=CB)
def _(c):
    """a set holds, for each unordered pair, the value last given"""
    for n in (1, 2, 3, 4):
        g = frames(c, n)
        live = c.live()
        s = c.call("aa_rx_cl_set_create", g.sg)
        c.isint("a new set is empty", read(c, s, n), rel([], n))
        have = set()
        for k, (i, j) in enumerate(ALLP(n)):
            a = (i, j) if k % 2 else (j, i)
            c.call("aa_rx_cl_set_set", s, a[0], a[1], (1, 2, -1, 1 << 8)[k % 4])
            have.add((i, j))
            c.isint("set %d" % k, read(c, s, n), rel(have, n))
        for k, (i, j) in enumerate(ALLP(n)):
            if k % 3 != 1:
                a = (j, i) if k % 2 else (i, j)
                c.call("aa_rx_cl_set_set", s, a[0], a[1], 0)
                have.discard((i, j))
                c.isint("reset %d" % k, read(c, s, n), rel(have, n))
        c.call("aa_rx_cl_set_clear", s)
        c.isint("cleared", read(c, s, n), rel([], n))
        c.call("aa_rx_cl_set_destroy", s)
        c.freed("the set is given back", live)


for _fn, _nm in (("aa_rx_cl_set_merge", "merge"), ("aa_rx_cl_set_fill", "fill")):
    def _mk(fn, nm):
        @item("C01.set." + nm, P, fn, cxx=True, bounded="3 frames, all pairs of sets over three pairs; 4 frames, some")
        def _(c):
            """the union of both sets; the source stays as it was"""
            g, h = frames(c, 3), frames(c, 4)
            P3 = [(0, 2), (1, 2), (1, 1)]
            for a in product((0, 1), repeat=3):
                for b in product((0, 1), repeat=3):
                    A, B = ([p for p, x in zip(P3, y) if x] for y in (a, b))
                    s, t = newset(c, g, A), newset(c, g, B, 1)
                    c.call(fn, s, t)
                    c.isint("union", read(c, s, 3), rel(A + B, 3))
                    c.isint("source", read(c, t, 3), rel(B, 3))
                    for x in (s, t):
                        c.call("aa_rx_cl_set_destroy", x)
            for p in ALLP(4):
                s, t = newset(c, h, [(3, 2), (1, 0)]), newset(c, h, [p])
                c.call(fn, s, t)
                c.isint("union of 4 frames", read(c, s, 4), rel([(3, 2), (1, 0), p], 4))
    _mk(_fn, _nm)


# ---- checks
BOX, SPH, CYL, MESH = 1, 2, 3, 4
FB = "a scene of up to 5 frames and shapes, every answer of the collision library about each pair"


def flt(c, v):
    import struct
    return c.ints([struct.unpack("<I", struct.pack("<f", x))[0] for x in v], 4, ro=True)


class Scene:
    """frames (name, parent) with their shapes [(frame, kind, key)]; keys are the shapes' first dimensions"""
    def __init__(self, c, fr, shapes, rev=0, pose=None, scale=None, dims=None, init=True):
        self.c, self.fr, self.shapes = c, fr, shapes
        c.call("amv_fcl_reset", rev)
        c.addresses(-1 if rev % 2 else 1)
        self.g = g = G(c)
        for nm, par in fr:
            q, v = (pose or {}).get(nm, ([0, 0, 0, 1], [0, 0, 0]))
            g.add(FIX, nm, par, q=q, v=v)
        self.sg = g.sg
        self.dims = {}
        for k, s in enumerate(shapes):
            self.attach(s, (scale or {}).get(s[2], 1), (dims or {}).get(s[2]))
        if init:
            c.isint("initialised", g.init(), 0)
            c.call("aa_rx_sg_cl_init", g.sg)
            self.id = {nm: g.id(nm) for nm, _ in fr}

    def attach(self, s, scale=1, dims=None, collide=1):
        c = self.c
        f, kind, key = s
        d = dims or [1, 1]
        o = c.call("aa_rx_geom_opt_create")
        if scale != 1:
            c.call("aa_rx_geom_opt_set_scale", o, scale)
        if not collide:
            c.call("aa_rx_geom_opt_set_collision", o, 0)
        if kind == BOX:
            g = c.call("aa_rx_geom_box", o, c.inp([c.lift(key) / scale] + list(d)))
        elif kind == SPH:
            g = c.call("aa_rx_geom_sphere", o, c.lift(key) / scale)
        elif kind == CYL:
            g = c.call("aa_rx_geom_cylinder", o, d[0], c.lift(key) / scale)
        else:
            m = c.call("aa_rx_mesh_create")
            v, t = d
            c.call("aa_rx_mesh_set_vertices", m, len(v) // 3, flt(c, v), 1)
            c.call("aa_rx_mesh_set_indices", m, len(t) // 3, c.ints(t, 4), 1)
            g = c.call("aa_rx_geom_mesh", o, m)
            c.call("aa_rx_mesh_destroy", m)
        c.call("aa_rx_geom_opt_destroy", o)
        c.call("aa_rx_geom_attach", self.sg, c.cstr(f), g)

    def pair(self, i, j, touch, near, dist=None, p=None, con=()):
        i, j = min(i, j), max(i, j)
        z = [0] * 6
        self.c.call("amv_fcl_pair", i, j, int(near), int(touch), (-1 if touch else 1) if dist is None else dist,
                    self.c.inp(p or z), self.c.inp(con or [1] + z))

    def table(self, ld=7, pose=None):
        n = len(self.fr)
        T = [self.c.lift(0)] * (ld * n)
        for nm, _ in self.fr:
            q, v = (pose or {}).get(nm, ([0, 0, 0, 1], [0, 0, 0]))
            T[ld * self.id[nm]:ld * self.id[nm] + 7] = list(q) + list(v)
        return self.c.inp(T)

    def hit(self, touch, allowed):
        """frame pairs (as indices) in contact and not allowed"""
        fr = {k: f for f, _, k in self.shapes}
        al = {frozenset(p) for p in allowed}
        return {tuple(sorted((self.id[fr[i]], self.id[fr[j]]))) for i, j in touch
                if fr[i] != fr[j] and frozenset((fr[i], fr[j])) not in al}

    def set(self): return self.c.call("aa_rx_cl_set_create", self.sg)
    def read(self, s): return read(self.c, s, len(self.fr))
    def clean(self): self.c.isint("the library is called as its manual says", self.c.call("amv_fcl_int", 0, 5, ret="i"), 0)

    def finish(self, cl=None):
        c = self.c
        if cl is not None:
            c.call("aa_rx_cl_destroy", cl)
        c.isint("objects given back", [c.call("amv_fcl_int", k, 1, ret="i") for _, _, k in self.shapes], [0] * len(self.shapes))
        c.call("aa_rx_sg_destroy", self.sg)
        c.isint("shapes given back", c.call("amv_fcl_int", 0, 7, ret="i"), 0)
        self.clean()


FR3 = [("b", ""), ("a", ""), ("c", "b")]
SCENES = {
    "two": (FR3[:2], [("a", BOX, 1), ("b", SPH, 2)]),
    "three": (FR3, [("a", BOX, 1), ("b", SPH, 2), ("c", CYL, 3)]),
    "shared": (FR3, [("a", BOX, 1), ("a", SPH, 2), ("b", CYL, 3), ("c", BOX, 4)]),
}


def subsets(l):
    for m in product((0, 1), repeat=len(l)):
        yield [x for x, k in zip(l, m) if k]


def low(c, s, n): return [[c.call("aa_rx_cl_set_get", s, i, j, ret="i") & 1 for j in range(i + 1)] for i in range(n)]


def mk_check(nm, rev, part=None):
    @item("C01.check.%s.order%d%s" % (nm, rev, "" if part is None else ".%d" % part), P, "aa_rx_cl_check aa_rx_cl_create aa_rx_cl_allow aa_rx_cl_destroy", cxx=True, bounded=FB, timeout=300)
    def _(c):
        """contacts of pairs of different frames that are not allowed, and no others"""
        fr, sh = SCENES[nm]
        s = Scene(c, fr, sh, rev)
        keys = [k for _, _, k in sh]
        prs = [(i, j) for i in keys for j in keys if i < j]
        n = len(fr)
        fp = [("a", "b"), ("c", "a"), ("c", "b")][:1 if n == 2 else 3]
        T = s.table()
        for q, al in enumerate(subsets(fp)):
            if part is not None and q != part:
                continue
            cl = c.call("aa_rx_cl_create", s.sg)
            for k, p in enumerate(fp):
                if p in al or k % 2:
                    c.call("aa_rx_cl_allow", cl, s.id[p[0]], s.id[p[1]], 1)
            for p in fp:
                if p not in al:
                    c.call("aa_rx_cl_allow", cl, s.id[p[1]], s.id[p[0]], 0)
            for w, touch in enumerate(subsets(prs)):
                if len(prs) > 3 and 2 < len(touch) < len(prs) - 1:
                    continue
                for p in prs:
                    s.pair(p[0], p[1], p in touch, p in touch or w % 3)
                want = s.hit(touch, al)
                st = s.set()
                c.isint("a contact is reported %r %r" % (al, touch), c.call("aa_rx_cl_check", cl, n, T, 7, c.null(), ret="i"), int(bool(want)))
                c.isint("and reported along with the set", c.call("aa_rx_cl_check", cl, n, T, 7, st, ret="i"), int(bool(want)))
                c.isint("the frames in contact", low(c, st, n), [r[:k + 1] for k, r in enumerate(rel(want, n))])
                c.call("aa_rx_cl_set_destroy", st)
            s.clean()
            c.call("aa_rx_cl_destroy", cl)
        s.finish()


for _rev in range(4):
    mk_check("two", _rev)
    mk_check("three", _rev)
    for _p in range(8):
        if _p % 4 == _rev or _p == 0:
            mk_check("shared", _rev, _p)


# ---- what the library is given
DIMS = {1: ("u", "v"), 3: ("h",)}
PB = "one shape of each kind; every pose and size, scales 1, 1/4 and 2"
MV = [5, 0, 1, 2, 3, 4, -1, -2, 6, 8, 9, 7]
MT = [0, 1, 2, 3, 2, 1, 0, 3, 1]


def tfx(tf, z=None):
    q, v = tf
    return rotmat(q) + (list(v) if z is None else add(list(v), qrot(q, [0, 0, z])))


for _sc in (1, F(1, 4), 2):
    def _mk(sc):
        @item("C01.shapes.scale%s" % str(sc).replace("/", "_"), P, "aa_rx_sg_cl_init aa_rx_cl_create aa_rx_cl_check aa_rx_cl_check_fk aa_rx_geom_box aa_rx_geom_sphere aa_rx_geom_cylinder aa_rx_geom_mesh aa_rx_mesh_set_vertices aa_rx_mesh_set_indices aa_rx_cl_geom_destroy", cxx=True, bounded=PB)
        def _(c):
            """shapes have the stated sizes times the scale, at the poses of their frames; a cylinder starts at its frame"""
            u, v, h = c.scalar("u", pos=True), c.scalar("v", pos=True), c.scalar("h", pos=True)
            fr = [("m", ""), ("b", ""), ("s", "b"), ("z", "m")]
            ks = [F(k) / sc for k in MV]
            sh = [("b", BOX, 1), ("s", SPH, 2), ("z", CYL, 3), ("m", MESH, 5), ("b", CYL, 4)]
            s = Scene(c, fr, sh, scale={k: sc for k in range(1, 6)}, dims={1: (u, v), 3: (h,), 4: (h,), 5: (ks, MT)})
            c.call("aa_rx_sg_cl_init", s.sg)
            cl = c.call("aa_rx_cl_create", s.sg)
            g = lambda k, w: c.call("amv_fcl_int", k, w, ret="i")

            def vec(fn, k, n):
                o = c.out(n)
                c.call(fn, k, o)
                return o.get()
            c.isint("kinds", [g(k, 0) for _, _, k in sh], [k for _, k, _ in sh])
            c.isint("one object each", [g(k, 1) for _, _, k in sh], [1] * 5)
            c.isint("each known to the manager", [g(k, 2) for _, _, k in sh], [1] * 5)
            c.eq("box", vec("amv_fcl_dim", 1, 3), [1, sc * u, sc * v])
            c.eq("sphere", vec("amv_fcl_dim", 2, 3)[0], 2)
            for k in (3, 4):
                c.eq("cylinder", vec("amv_fcl_dim", k, 3)[:2], [k, sc * h])
            c.isint("mesh size", [g(5, 3), g(5, 4)], [4, 3])
            c.eq("vertices", vec("amv_fcl_vert", 5, 12), MV)
            c.isint("triangles", [c.call("amv_fcl_tri", 5, k, ret="i") for k in range(9)], MT)
            fk = c.call("aa_rx_fk_malloc", s.sg)
            for rd, by in enumerate(("table", "fk", "table")):
                pose = {nm: (c.unit("q%d%s" % (rd, nm), 4), c.vec("v%d%s" % (rd, nm), 3)) for nm, _ in fr}
                if by == "fk":
                    for nm, _ in fr:
                        c.poke(c.call("aa_rx_fk_ref", fk, s.id[nm]), list(pose[nm][0]) + list(pose[nm][1]))
                    c.isint("no contact", c.call("aa_rx_cl_check_fk", cl, fk, c.null(), ret="i"), 0)
                else:
                    ld = 7 + rd
                    c.isint("no contact", c.call("aa_rx_cl_check", cl, 4, s.table(ld, pose), ld, c.null(), ret="i"), 0)
                for f, kind, k in sh:
                    c.eq("pose of shape %d by %s" % (k, by), vec("amv_fcl_tf", k, 12), tfx(pose[f], sc * h / 2 if kind == CYL else None))
                s.clean()
            c.call("aa_rx_fk_destroy", fk)
            s.finish(cl)
    _mk(_sc)


@item("C01.shapes.none", P, "aa_rx_sg_cl_init aa_rx_geom_opt_set_collision aa_rx_cl_create", cxx=True, bounded="three shapes")
def _(c):
    """shapes that are not for collision stay out; shapes added later come in"""
    s = Scene(c, FR3, [("a", BOX, 1)], init=False)
    s.attach(("b", SPH, 2), collide=0)
    s.attach(("a", CYL, 3), collide=0)
    s.shapes = s.shapes + [("c", BOX, 4)]
    s.attach(("c", BOX, 4))
    c.isint("initialised", s.g.init(), 0)
    c.call("aa_rx_sg_cl_init", s.sg)
    cl = c.call("aa_rx_cl_create", s.sg)
    c.isint("objects", [c.call("amv_fcl_int", k, 1, ret="i") for k in (1, 2, 3, 4)], [1, 0, 0, 1])
    c.isint("shapes", c.call("amv_fcl_int", 0, 7, ret="i"), 2)
    c.call("aa_rx_cl_destroy", cl)
    s.shapes = s.shapes + [("b", SPH, 5)]
    s.attach(("b", SPH, 5))
    c.isint("initialised again", s.g.init(), 0)
    c.call("aa_rx_sg_cl_init", s.sg)
    cl = c.call("aa_rx_cl_create", s.sg)
    c.isint("objects", [c.call("amv_fcl_int", k, 1, ret="i") for k in (1, 2, 3, 4, 5)], [1, 0, 0, 1, 1])
    c.isint("shapes", c.call("amv_fcl_int", 0, 7, ret="i"), 3)
    s.finish(cl)


# ---- allowed pairs
def mk_allowed(rev):
    @item("C01.allowed.graph.%d" % rev, P, "aa_rx_sg_allow_collision aa_rx_sg_allow_collision_name aa_rx_sg_cl_set_copy aa_rx_sg_cl_init aa_rx_cl_create aa_rx_cl_allow_set aa_rx_cl_allow_name aa_rx_sg_copy", cxx=True, bounded="3 and 4 frames, every set of allowed pairs of three")
    def _(c):
        """the pairs last allowed for the graph, in either order, are allowed in its checks, in its copies and after frames are added"""
        sh = [("a", BOX, 1), ("b", SPH, 2), ("c", CYL, 3)]
        prs = [(1, 2), (1, 3), (2, 3)]
        s = Scene(c, FR3, sh, rev)
        nm = {1: "a", 2: "b", 3: "c"}
        fp = [("a", "b"), ("c", "a"), ("c", "b")]

        def say(a, b, v, by):
            if (by + rev) % 2:
                a, b = b, a
            if by % 2:
                c.call("aa_rx_sg_allow_collision", s.sg, s.id[a], s.id[b], v)
            else:
                c.call("aa_rx_sg_allow_collision_name", s.sg, c.cstr(a), c.cstr(b), v)

        def sees(sg, ids, al, lab):
            n = len(ids)
            want = {(ids[a], ids[b]) for a, b in al}
            st = c.call("aa_rx_cl_set_create", sg)
            c.call("aa_rx_sg_cl_set_copy", sg, st)
            c.isint(lab + ": the set", low(c, st, n), [r[:k + 1] for k, r in enumerate(rel(want, n))])
            c.call("aa_rx_cl_set_destroy", st)
            cl = c.call("aa_rx_cl_create", sg)
            T = [0] * (7 * n)
            for k in range(n):
                T[7 * k + 3] = 1
            T = c.inp(T)
            for p in prs:
                for o in prs:
                    s.pair(o[0], o[1], o == p, True)
                a, b = nm[p[0]], nm[p[1]]
                c.isint(lab + ": contact of %s and %s" % (a, b), c.call("aa_rx_cl_check", cl, n, T, 7, c.null(), ret="i"), int((a, b) not in al and (b, a) not in al))
            c.call("aa_rx_cl_destroy", cl)
        for q, al in enumerate(subsets(fp)):
            for k, (a, b) in enumerate(fp):
                if (a, b) in al:
                    say(a, b, 1, q + k)
                else:
                    say(a, b, 1, q + k + 1)
                    say(a, b, 0, q + k)
            c.call("aa_rx_sg_cl_init", s.sg)
            sees(s.sg, s.id, al, "allowed %r" % al)
        last = [fp[rev % 3]]
        for p in fp:
            say(p[0], p[1], int(p in last), rev)
        cp = c.call("aa_rx_sg_copy", s.sg)
        c.isint("copy initialised", c.call("aa_rx_sg_init", cp, ret="i"), 0)
        c.call("aa_rx_sg_cl_init", cp)
        ids = {f: c.call("aa_rx_sg_frame_id", cp, c.cstr(f)) for f in "abc"}
        sees(cp, ids, last, "copy")
        c.call("aa_rx_sg_destroy", cp)
        s.g.add(FIX, "aa", "", q=[0, 0, 0, 1], v=[0, 0, 0])
        s.fr = s.fr + [("aa", "")]
        c.isint("initialised again", s.g.init(), 0)
        c.call("aa_rx_sg_cl_init", s.sg)
        s.id = {f: s.g.id(f) for f in ("a", "b", "c", "aa")}
        sees(s.sg, s.id, last, "frame added")
        # further pairs for one context: in addition to those of the graph
        more = [p for p in fp if p not in last]
        for k in range(3):
            cl = c.call("aa_rx_cl_create", s.sg)
            if k == 0:
                st = s.set()
                c.call("aa_rx_cl_set_set", st, s.id[more[0][0]], s.id[more[0][1]], 1)
                c.call("aa_rx_cl_allow_set", cl, st)
                c.call("aa_rx_cl_set_destroy", st)
            elif k == 1:
                c.call("aa_rx_cl_allow_name", cl, c.cstr(more[0][0]), c.cstr(more[0][1]), 1)
            else:
                c.call("aa_rx_cl_allow", cl, s.id[more[0][1]], s.id[more[0][0]], 1)
            for o in prs:
                s.pair(o[0], o[1], True, True)
            st = s.set()
            T = s.table()
            c.isint("contact", c.call("aa_rx_cl_check", cl, 4, T, 7, st, ret="i"), 1)
            want = {(s.id[a], s.id[b]) for a, b in more[1:]}
            c.isint("only the remaining pair", low(c, st, 4), [r[:q + 1] for q, r in enumerate(rel(want, 4))])
            c.call("aa_rx_cl_set_destroy", st)
            c.call("aa_rx_cl_destroy", cl)
        s.finish()


for _rev in (0, 1, 2):
    mk_allowed(_rev)


@item("C01.config", P, "aa_rx_sg_get_collision aa_rx_sg_allow_config", cxx=True, bounded="three frames with a joint each, every configuration, every set of contacts")
def _(c):
    """the contacts at a configuration are those at its frames' poses; allowing them allows just them"""
    c.call("amv_fcl_reset", 0)
    c.addresses(1)
    s = Scene.__new__(Scene)
    s.c, s.fr, s.shapes, s.dims = c, FR3, [("a", BOX, 1), ("b", SPH, 2), ("c", CYL, 3)], {}
    s.g = g = G(c)
    s.sg = g.sg
    g.add(REV, "b", "", config="qb").add(PRI, "a", "", config="qa").add(REV, "c", "b", config="qc")
    for x in s.shapes:
        s.attach(x)
    c.isint("initialised", g.init(), 0)
    c.call("aa_rx_sg_cl_init", s.sg)
    s.id = {f: g.id(f) for f in "abc"}
    prs = [(1, 2), (1, 3), (2, 3)]
    x = {"qb": c.angle("xb", -1, 1), "qa": c.scalar("xa"), "qc": c.angle("xc", -1, 1)}
    q = [None] * 3
    for k in x:
        q[g.cid(k)] = x[k]
    Q = c.inp(q)
    rl, ab = c.out(21), c.out(21)
    c.call("aa_rx_sg_tf", s.sg, 3, Q, 3, rl, 7, ab, 7)
    for w, touch in enumerate(subsets(prs)):
        for p in prs:
            s.pair(p[0], p[1], p in touch, True)
        st = s.set()
        c.call("aa_rx_sg_get_collision", s.sg, 3, Q, st)
        c.isint("contacts", low(c, st, 3), [r[:k + 1] for k, r in enumerate(rel(s.hit(touch, []), 3))])
        c.call("aa_rx_cl_set_destroy", st)
        if w == 0:
            for f, kind, k in s.shapes:
                o = c.out(12)
                c.call("amv_fcl_tf", k, o)
                E = ab.get(7 * s.id[f], 7)
                c.eq("pose of %s" % f, o.get(), tfx((E[:4], E[4:]), c.lift(1) / 2 if kind == CYL else None), ntol=1e-6)
    for w, (touch, was) in enumerate((([(1, 2)], []), ([(2, 3)], [(1, 2)]), ([(1, 2)], [(1, 2), (2, 3)]))):
        for p in prs:
            s.pair(p[0], p[1], p in touch, True)
        c.call("aa_rx_sg_allow_config", s.sg, 3, Q)
        c.call("aa_rx_sg_cl_init", s.sg)
        st = s.set()
        c.call("aa_rx_sg_cl_set_copy", s.sg, st)
        c.isint("allowed", low(c, st, 3), [r[:k + 1] for k, r in enumerate(rel(s.hit(touch + was, []), 3))])
        c.call("aa_rx_cl_set_destroy", st)
    s.finish()


# ---- distances
BIG = 10 ** 20


def mk_dist(nm, rev, allowed=(), cons=()):
    tag = "%s.order%d%s%s" % (nm, rev, "".join("." + a + b for a, b in allowed), "".join(".hit%d%d" % p for p in cons))

    @item("C01.dist." + tag, P, "aa_rx_cl_dist_create aa_rx_cl_dist_check aa_rx_cl_dist_get_dist aa_rx_cl_dist_get_points aa_rx_cl_dist_get_min_dist aa_rx_cl_dist_destroy", cxx=True, timeout=300,
          bounded="2 or 3 frames with up to 4 shapes; every separation, penetration and nearest point; which pairs overlap is in the name")
    def _(c):
        """separation of frames is the least over their shapes, negative when they overlap; nearest points go with it"""
        fr, sh = SCENES[nm]
        s = Scene(c, fr, sh, rev)
        frame = {k: f for f, _, k in sh}
        keys = sorted(frame)
        n = len(fr)
        val = {}
        for i in keys:
            for j in keys:
                if i < j:
                    t = "%d%d" % (i, j)
                    p = c.vec("p" + t, 6)
                    if (i, j) in cons:
                        d, dep, pos, nr = -c.scalar("o" + t, nonneg=True), c.scalar("d" + t, pos=True), c.vec("c" + t, 3), c.unit("n" + t, 3)
                        s.pair(i, j, True, True, d, p, [dep] + pos + nr)
                        c.req(BIG - dep, ">")
                        a = add(pos, scale(dep, nr))
                        b = add(pos, scale(-dep, nr))
                        val[i, j] = (-dep, [(pos + a), (a + pos), (pos + b), (b + pos)])
                    else:
                        d = c.scalar("d" + t, pos=True)
                        c.req(BIG - d, ">")
                        s.pair(i, j, False, True, d, p)
                        val[i, j] = (d, [p])
        cl = c.call("aa_rx_cl_create", s.sg)
        for a, b in allowed:
            c.call("aa_rx_cl_allow", cl, s.id[a], s.id[b], 1)
        fk = c.call("aa_rx_fk_malloc", s.sg)
        pose = {f: (c.unit("q" + f, 4), c.vec("v" + f, 3)) for f, _ in fr}
        for f, _ in fr:
            c.poke(c.call("aa_rx_fk_ref", fk, s.id[f]), list(pose[f][0]) + list(pose[f][1]))
        al = {frozenset(x) for x in allowed}
        ds = c.call("aa_rx_cl_dist_create", cl)
        bad = any(frame[i] != frame[j] and frozenset((frame[i], frame[j])) not in al for i, j in cons)
        for rd in range(2):
            c.isint("overlap", c.call("aa_rx_cl_dist_check", ds, fk, ret="i"), int(bad))
        for f, kind, k in sh:
            o = c.out(12)
            c.call("amv_fcl_tf", k, o)
            c.eq("pose of shape %d" % k, o.get(), tfx(pose[f], c.lift(1) / 2 if kind == CYL else None))
        s.clean()
        D = {}
        for f, _ in fr:
            for h, _ in fr:
                if f == h:
                    c.eq("a frame and itself", c.call("aa_rx_cl_dist_get_dist", ds, s.id[f], s.id[f], ret="d"), 0)
                    continue
                d = c.call("aa_rx_cl_dist_get_dist", ds, s.id[f], s.id[h], ret="d")
                D[f, h] = d
                alts = [k for k in val if {frame[k[0]], frame[k[1]]} == {f, h}]
                if frozenset((f, h)) in al or not alts:
                    c.cmp("allowed pairs are far apart", d - BIG, ">")
                    continue
                p0, p1 = c.out(3), c.out(3)
                c.eq("separation with the points", c.call("aa_rx_cl_dist_get_points", ds, s.id[f], s.id[h], p0, p1, ret="d"), d)
                c.anyof("separation and nearest points of %s and %s" % (f, h),
                        [([d] + p0.get() + p1.get(), [val[k][0]] + (list(w) if frame[k[0]] == f else list(w[3:]) + list(w[:3]))) for k in alts for w in val[k][1]])
                for k in alts:
                    c.cmp("least of %s and %s" % (f, h), val[k][0] - d, ">=")
        for f, _ in fr:
            oth = [h for h, _ in fr if h != f and frozenset((f, h)) not in al and (f, h) in D]
            if not oth:
                continue
            i1, pt = c.ints([9], 8, ro=False), c.out(6)
            m = c.call("aa_rx_cl_dist_get_min_dist", ds, s.id[f], i1, pt, ret="d")
            c.eq("least without the frame and points", c.call("aa_rx_cl_dist_get_min_dist", ds, s.id[f], c.null(), c.null(), ret="d"), m)
            h = [x for x in s.id if s.id[x] == i1.ints()[0]]
            c.true("the nearest of %s is another frame" % f, len(h) == 1 and h[0] in oth)
            if len(h) == 1 and h[0] in oth:
                p0, p1 = c.out(3), c.out(3)
                c.eq("separation of the nearest", [m, m], [D[f, h[0]], c.call("aa_rx_cl_dist_get_points", ds, s.id[f], s.id[h[0]], p0, p1, ret="d")])
                c.eq("nearest points", pt.get(), p0.get() + p1.get())
            for x in oth:
                c.cmp("least over the frames", D[f, x] - m, ">=")
        c.call("aa_rx_cl_dist_destroy", ds)
        c.call("aa_rx_fk_destroy", fk)
        s.finish(cl)


for _a in (("two", 0), ("two", 3), ("two", 0, [("a", "b")]), ("two", 2, (), [(1, 2)]), ("two", 1, (), [(1, 2)]), ("two", 0, [("b", "a")], [(1, 2)]),
           ("three", 0), ("three", 1, [("a", "b")]), ("three", 2, (), [(1, 3)]), ("three", 3, [("c", "a")], [(1, 3)]), ("three", 0, [("b", "c")], [(1, 2)]), ("three", 1, (), [(1, 2), (2, 3)]),
           ("shared", 0, [("b", "c")]), ("shared", 3, [("c", "b")]), ("shared", 1, [("b", "c")], [(1, 3)]), ("shared", 2, [("b", "c")], [(1, 3), (2, 3)]), ("shared", 0, [("b", "c")], [(1, 2), (2, 4)])):
    mk_dist(*_a)


@item("C01.dist.touching", P, "aa_rx_cl_dist_check aa_rx_cl_dist_get_dist aa_rx_cl_dist_get_min_dist", cxx=True, bounded="2 frames with a shape each; any separation of zero or less, with a contact of depth zero")
def _(c):
    """touching without overlap: the separation is zero, whatever negative number the library gives"""
    fr, sh = SCENES["two"]
    s = Scene(c, fr, sh, 0)
    s.pair(1, 2, True, True, -c.scalar("o", nonneg=True), c.vec("p", 6), [0] + c.vec("c", 3) + c.unit("n", 3))
    cl = c.call("aa_rx_cl_create", s.sg)
    fk = c.call("aa_rx_fk_malloc", s.sg)
    for f, _ in fr:
        c.poke(c.call("aa_rx_fk_ref", fk, s.id[f]), [0, 0, 0, 1, 0, 0, 0])
    ds = c.call("aa_rx_cl_dist_create", cl)
    c.isint("touch", c.call("aa_rx_cl_dist_check", ds, fk, ret="i"), 1)
    c.eq("separation", c.call("aa_rx_cl_dist_get_dist", ds, s.id["a"], s.id["b"], ret="d"), 0)
    c.eq("least separation", c.call("aa_rx_cl_dist_get_min_dist", ds, s.id["b"], c.null(), c.null(), ret="d"), 0)
    c.call("aa_rx_cl_dist_destroy", ds)
    c.call("aa_rx_fk_destroy", fk)
    s.finish(cl)


@item("C01.allowed.removed", P, "aa_rx_sg_rm_frame aa_rx_sg_frame_name aa_rx_sg_allow_collision_name aa_rx_sg_cl_set_copy aa_rx_sg_copy", cxx=True, bounded="three frames, one removed and added again, one replaced")
def _(c):
    """pairs with a removed frame are forgotten; the others stay"""
    for rev in (0, 1):
        s = Scene(c, FR3, [("a", BOX, 1), ("b", SPH, 2), ("c", CYL, 3)], rev)
        for a, b in (("a", "b"), ("c", "b"), ("a", "c")):
            c.call("aa_rx_sg_allow_collision_name", s.sg, c.cstr(a), c.cstr(b), 1)
        c.call("aa_rx_sg_cl_init", s.sg)
        c.call("aa_rx_sg_rm_frame", s.sg, c.call("aa_rx_sg_frame_name", s.sg, s.id["a"]))
        for rd, names in enumerate(("bc", "abc", "abc")):
            if rd:
                s.g.add(FIX, "ab"[rd - 1], "", q=[0, 0, 0, 1], v=[0, 0, 0])
            c.isint("initialised again", s.g.init(), 0)
            c.call("aa_rx_sg_cl_init", s.sg)
            for cp in (0, 1):
                sg = c.call("aa_rx_sg_copy", s.sg) if cp else s.sg
                if cp:
                    c.isint("copy initialised", c.call("aa_rx_sg_init", sg, ret="i"), 0)
                    c.call("aa_rx_sg_cl_init", sg)
                st = c.call("aa_rx_cl_set_create", sg)
                c.call("aa_rx_sg_cl_set_copy", sg, st)
                ids = {f: c.call("aa_rx_sg_frame_id", sg, c.cstr(f)) for f in names}
                n = len(names)
                c.isint("allowed", read(c, st, n), rel({(ids["b"], ids["c"])}, n))
                c.call("aa_rx_cl_set_destroy", st)
                if cp:
                    c.call("aa_rx_sg_destroy", sg)
        s.finish()
