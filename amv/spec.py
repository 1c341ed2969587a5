"""Contract items and their symbolic (proof) and numeric (replay) evaluation."""
import ctypes, math, random, time, traceback
from fractions import Fraction
from . import expr as X, prove as PV, irexec as IX, ops, cxxlib
from .expr import E

ITEMS = {}      # item id -> Item
FUNCS = {}      # modular functional contracts: name -> FunContract


class Item:
    def __init__(self, iid, props, fn, funcs, note="", maxpaths=4000, bounded=None, timeout=None, partial=None,
                 kind="ir", cxx=False, replay=True, cost=1, verifies=None):
        self.id = iid; self.props = props; self.fn = fn; self.funcs = funcs; self.note = note
        self.maxpaths = maxpaths; self.bounded = bounded; self.timeout = timeout
        # partial: reason why divisions by zero are possible inside the precondition
        self.partial = partial
        self.kind = kind; self.cxx = cxx; self.replay = replay; self.cost = cost; self.verifies = verifies


def item(iid, props, funcs=(), **kw):
    if isinstance(props, str):
        props = props.split()
    if isinstance(funcs, str):
        funcs = funcs.split()

    def deco(f):
        assert iid not in ITEMS, iid
        ITEMS[iid] = Item(iid, list(props), f, list(funcs), **kw)
        return f
    return deco


class FunContract:
    """A precondition-free functional contract: outputs = post(inputs).
    params: list of 'v<n>' (input array), 'o<n>' (output array), 'io<n>'
    (in/out array), 's' (scalar double); ret: None or 'd'."""
    def __init__(self, name, params, post, ret=None):
        self.name = name; self.params = params; self.post = post; self.ret = ret

    def applicable(self, args):
        """the contract was proved for outputs that overlap nothing else; a call
        where they do is checked against the callee's body instead"""
        spans = []
        for p, a in zip(self.params, args):
            if p != "s":
                if not isinstance(a, IX.Ptr):
                    return False
                spans.append((a.o, a.off, a.off + 8 * int(p.lstrip("iovuz")), p[0] in "io"))
        for i, x in enumerate(spans):
            for y in spans[:i]:
                if (x[3] or y[3]) and x[0] is y[0] and x[1] < y[2] and y[1] < x[2]:
                    return False
        return True

    def apply(self, ex, args):
        ins = []
        for p, a in zip(self.params, args):
            if p == "s":
                ins.append(ex.fl(a))
            elif p.startswith("io"):
                ins.append(rd(ex, a, int(p[2:])))
            elif p[0] in "vuz":
                v = rd(ex, a, int(p[1:]))
                ins.append(v)
                if p[0] == "u":
                    ex.obl.append(Goal("precondition of %s: unit argument" % self.name, "eq", X.lift(ops.dot(v, v)), X.ONE))
                elif p[0] == "z":
                    ex.obl.append(Goal("precondition of %s: nonzero argument" % self.name, ">", X.lift(ops.dot(v, v))))
        res = self.post(*ins)
        outs = [(p, a) for p, a in zip(self.params, args) if p[0] in "io"]
        if self.ret:
            if not outs:
                return X.lift(res)
            ret, res = res[0], res[1:]
        if len(outs) == 1 and not self.ret:
            res = [res]
        for (p, a), vals in zip(outs, res):
            n = int(p.lstrip("io"))
            for i in range(n):
                ex.store(IX.Ptr(a.o, a.off + 8 * i), 8, X.lift(vals[i]))
        return X.lift(ret) if self.ret else None


def rd(ex, p, n):
    return [ex.fl(ex.loadt(IX.Ptr(p.o, p.off + 8 * i), _D)) for i in range(n)]


from .irparse import Type
_D = Type("double")


def fun(name, params, post, props, ret=None, modular=True, iid=None, **kw):
    """declare a functional contract and its verification item"""
    params = params.split()
    fc = FunContract(name, params, post, ret)
    if modular:
        FUNCS[name] = fc

    def body(c):
        ins = []
        args = []
        outs = []
        for k, p in enumerate(params):
            if p == "s":
                v = c.scalar("s%d" % k); ins.append(v); args.append(v)
            elif p.startswith("io"):
                v = c.vec("a%d_" % k, int(p[2:])); ins.append(v); b = c.inout(v); args.append(b); outs.append(b)
            elif p[0] in "vuz":
                v = (c.unit if p[0] == "u" else c.vec)("a%d_" % k, int(p[1:])); ins.append(v); args.append(c.inp(v))
                if p[0] == "z":
                    c.req(ops.dot(v, v), ">")
            else:
                b = c.out(int(p[1:])); args.append(b); outs.append(b)
        r = c.call(name, *args, ret=ret)
        res = post(*ins)
        if ret and not outs:
            c.eq("result", r, res)
            return
        if ret:
            c.eq("result", r, res[0]); res = res[1:]
        if len(outs) == 1 and not ret:
            res = [res]
        for k, (b, v) in enumerate(zip(outs, res)):
            c.eq("output%s" % (k if len(outs) > 1 else ""), b.get(), v)
    item(iid or name, props, [name], verifies=name, **kw)(body)
    return fc


# ------------------------------------------------------------------ symbolic
class Goal:
    __slots__ = ("label", "kind", "a", "b", "opt")

    def __init__(self, label, kind, a, b=None, opt=None):
        self.label = label; self.kind = kind; self.a = a; self.b = b; self.opt = opt or {}


class SBuf:
    def __init__(self, c, p, n, es=8):
        self.c = c; self.p = p; self.n = n; self.es = es

    def at(self, k):
        """pointer to element k"""
        return SBuf(self.c, IX.Ptr(self.p.o, self.p.off + self.es * k), self.n - k, self.es)

    def set(self, vals):
        """the caller changes the contents"""
        self.c.poke(self.p, vals)

    def get(self, k=None, n=None):
        n = self.n if n is None else n
        k = k or 0
        return [self.c.ex.fl(self.c.ex.loadt(IX.Ptr(self.p.o, self.p.off + 8 * (k + i)), _D)) for i in range(n)]

    def peek(self):
        """like get but None for cells never written"""
        out = []
        for i in range(self.n):
            c = self.p.o.cells.get(self.p.off + 8 * i)
            out.append(None if c is None else c[1])
        return out

    def ints(self, n=None, size=8):
        n = self.n if n is None else n
        return [self.c.ex.load(IX.Ptr(self.p.o, self.p.off + size * i), size) for i in range(n)]


class SymC:
    symbolic = True

    def __init__(self, mod, path, decl, contracts, self_names):
        self.mod = mod; self.path = path; self.decl = decl
        self.ex = IX.Exec(mod, contracts, path=path)
        self.self_names = self_names
        self.goals = []
        self.called = []
        self.pi = X.PI

    # inputs
    def vec(self, name, n, **kw): return self._mk(name, lambda: self.decl.vec(name, n, **kw), ("vec", name, n, kw))
    def unit(self, name, n): return self._mk(name, lambda: self.decl.unit(name, n), ("unit", name, n, {}))
    def scalar(self, name, **kw): return self._mk(name, lambda: self.decl.var(name, **kw), ("scalar", name, 1, kw))

    def angle(self, name, lo=0, hi=1):
        """angle in [lo*pi, hi*pi]"""
        r = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        return self._mk(name, lambda: self.decl.var(name, rng=r), ("angle", name, 1, {"rng": r}))

    def _mk(self, name, f, kind):
        k = "@" + name
        if not hasattr(self.decl, "made"):
            self.decl.made = {}
            self.decl.kinds = []
        if k not in self.decl.made:
            self.decl.made[k] = f()
            self.decl.kinds.append(kind)
        return self.decl.made[k]

    def deriv(self, f, x, name, h=None):
        """derivative of the vector function f at the variable x (called name)"""
        return [X.diff(X.lift(e), name) for e in f(x)]

    def req(self, e, op=">="):
        e = X.lift(e)
        if X.isc(e):
            return
        self.decl_fact(e, op)

    def decl_fact(self, e, op):
        if (e, op) not in [(a, b) for a, b in self.decl.facts]:
            self.decl.facts.append((e, op))

    # memory
    def inp(self, vals): return SBuf(self, self.ex.doubles("input", [X.lift(v) for v in vals], ro=True), len(vals))
    def inout(self, vals): return SBuf(self, self.ex.doubles("in-out", [X.lift(v) for v in vals]), len(vals))
    def out(self, n): return SBuf(self, self.ex.alloc("output", 8 * n), n)
    def finp(self, vals):
        """single-precision input array"""
        p = self.ex.alloc("input", 4 * len(vals))
        for i, v in enumerate(vals):
            p.o.cells[4 * i] = (4, X.lift(v))
        p.o.ro = True
        return SBuf(self, p, len(vals), 4)

    def raw(self, nbytes): return SBuf(self, self.ex.alloc("output", nbytes), nbytes, 1)
    def null(self): return SBuf(self, IX.NULL, 0)

    def ints(self, vals, size=8, ro=True):
        p = self.ex.alloc("ints", size * len(vals))
        for i, v in enumerate(vals):
            p.o.cells[size * i] = (size, v & ((1 << (8 * size)) - 1))
        p.o.ro = ro
        return SBuf(self, p, len(vals), size)

    def struct(self, fields, ro=False, size=None):
        """fields: list of (offset, value) with value int/SBuf/E"""
        sz = size or max(o for o, v in fields) + 8
        p = self.ex.alloc("struct", sz)
        for o, v in fields:
            p.o.cells[o] = (8, self._val(v))
        p.o.ro = ro
        return SBuf(self, p, sz // 8)

    def field(self, s, off, n=1):
        """read n doubles / one value at byte offset through struct"""
        return self.ex.load(IX.Ptr(s.p.o, s.p.off + off), 8)

    def ptrfield(self, ptr, off):
        return self.ex.load(IX.Ptr(ptr.o, ptr.off + off), 8)

    def intfield(self, ptr, off):
        return self.ex.load(IX.Ptr(ptr.o, ptr.off + off), 8)

    def ptrfield_of(self, buf, off): return self.ex.load(IX.Ptr(buf.p.o, buf.p.off + off), 8)

    def sameptr(self, ptr, buf, off):
        """ptr is the address off bytes into buf"""
        b = getattr(buf, "p", buf)
        return isinstance(ptr, IX.Ptr) and ptr.o is b.o and ptr.off == b.off + off

    def isnull(self, ptr): return isinstance(ptr, IX.Ptr) and ptr.o is None and ptr.off == 0

    def room(self, ptr, n):
        """n bytes starting at ptr lie within one live object"""
        return isinstance(ptr, IX.Ptr) and not ptr.o.dead and ptr.off >= 0 and ptr.off + n <= ptr.o.size

    def deref(self, ptr, n):
        return [self.ex.fl(self.ex.loadt(IX.Ptr(ptr.o, ptr.off + 8 * i), _D)) for i in range(n)]

    def ptrat(self, ptr, off): return IX.Ptr(ptr.o, ptr.off + off)

    def dmat(self, rows, cols, buf, ld=None, ro=False):
        return self.struct([(0, rows), (8, cols), (16, buf), (24, ld or rows)], ro=ro, size=32)

    def dvec(self, n, buf, inc=1, ro=False):
        return self.struct([(0, n), (8, buf), (16, inc)], ro=ro, size=24)

    def fnptr(self, name): return IX.FnRef(name)

    def callback(self, sig, fn):
        """a caller-supplied function for the code to call.  sig: return kind
        then argument kinds (v void, i int, d double, p pointer, z size)"""
        nm = "callback:%d" % len(self.ex.cb)

        def f(args):
            a = [self.ex.fl(x) if k == "d" else x for k, x in zip(sig[1:], args)]
            r = fn(*a)
            return X.lift(r) if sig[0] == "d" else (r & 0xffffffff if sig[0] == "i" else None)
        self.ex.cb[nm] = f
        return IX.FnRef(nm)

    def abstract(self, name, fn):
        """calls of the named function are replaced by fn(args), which stands
        for its contract: it may only record the arguments and produce results
        that are otherwise arbitrary.  Replay runs the real function."""
        def f(args):
            self.ex.used_contracts.add(name)
            return fn(*args)
        self.ex.cb[name] = f

    def poke(self, ptr, vals):
        """what the caller's function stores through a pointer it was given"""
        for i, v in enumerate(vals):
            self.ex.storet(IX.Ptr(ptr.o, ptr.off + 8 * i), _D, X.lift(v))

    def same(self, a, b):
        """a and b are the same function of the inputs (used to find out which
        of the alternatives allowed by the contract the code took)"""
        return discharge_eq(self.decl, [], X.lift(a), X.lift(b), {})[0]

    def cstr(self, t):
        t = t.encode() + b"\0"
        p = self.ex.alloc("text", len(t))
        for i, ch in enumerate(t):
            p.o.cells[i] = (1, ch)
        p.o.ro = True
        return SBuf(self, p, len(t), 1)

    def text(self, ptr): return cxxlib.cstr(self.ex, ptr).decode()

    def local_region(self): return SBuf(self, self.ex.call("aa_mem_region_local_get", []), 8)
    def new_region(self): return SBuf(self, self.ex.call("aa_mem_region_create", [4096]), 8)

    def pick(self, v, alts):
        """index of the alternative v is, or None"""
        for i, a in enumerate(alts):
            if self.same(v, a):
                return i
        return None

    def cut(self): raise IX.Cut("beyond the bound")

    def addresses(self, order):
        """blocks come in the order in which they are first compared (1) or its reverse (-1) in memory"""
        self.ex.order = order

    def live(self): return sum(1 for o in self.ex.heap if not o.dead)

    def freed(self, label, before):
        """no more heap blocks are live than before"""
        self.true(label, self.live() <= before)

    def ghost(self, key, val):
        """ghost data for an assumed contract (e.g. the factors of a decomposition)"""
        if not hasattr(self.ex, "ghost"):
            self.ex.ghost = {}
        self.ex.ghost[key] = val

    def reports(self, label, name, *args, unchanged=()):
        """the call reports an error (ends in the default error handler, which
        aborts) and has not touched the given buffers before doing so"""
        bufs = list(unchanged)
        before = [dict(b.p.o.cells) for b in bufs]
        try:
            self.call(name, *args)
        except IX.AssertFail:
            ok = all(dict(b.p.o.cells) == x for b, x in zip(bufs, before))
            self.true(label + ": operands untouched when the error is reported", ok)
            for L in self.ex.regions.values():
                L.clear()
            return
        self.goals.append(Goal(label + ": no error is reported", "false", None))

    def _val(self, a):
        if isinstance(a, SBuf):
            return a.p
        if isinstance(a, (IX.FnRef, IX.Ptr)):
            return a
        if isinstance(a, bool):
            return int(a)
        if isinstance(a, E):
            return a
        if isinstance(a, int):
            return a & ((1 << 64) - 1)
        if isinstance(a, (float, Fraction)):
            return X.lift(a)
        raise TypeError(a)

    def call(self, name, *args, ret=None):
        self.called.append(name)
        vals = []
        f = self.mod.fns.get(name)
        if f is None:
            raise IX.Unsup("function %s not found in the sources" % name)
        for (t, nm), a in zip(f.params, args):
            v = self._val(a)
            if t.k == "int" and isinstance(v, int):
                v &= (1 << t.a) - 1
            if t.k in ("double", "float") and isinstance(v, int):
                v = X.const(a)
            vals.append(v)
        if f.vararg:
            vals += [self._val(a) for a in args[len(f.params):]]
        elif len(args) != len(f.params):
            raise IX.Unsup("function %s takes %d parameters, its contract gives %d" % (name, len(f.params), len(args)))
        self.ex.depth = 0
        r = self.ex.call(name, vals)
        if ret == "d":
            return self.ex.fl(r)
        if ret == "i":
            return IX.sgn(r, 32)
        return r

    # goals
    def eq(self, label, a, b, **opt):
        if isinstance(a, (list, tuple)):
            a, b = list(a), list(b)
            assert len(a) == len(b), (label, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.goals.append(Goal("%s[%d]" % (label, i), "eq", X.lift(x), X.lift(y), opt))
        else:
            self.goals.append(Goal(label, "eq", X.lift(a), X.lift(b), opt))

    def cmp(self, label, e, op=">=", **opt):
        self.goals.append(Goal(label, op, X.lift(e), None, opt))

    def isint(self, label, got, want):
        if got != want:
            self.goals.append(Goal("%s: got %r, want %r" % (label, got, want), "false", None))
        else:
            self.goals.append(Goal(label, "true", None))

    def true(self, label, b):
        self.goals.append(Goal(label, "true" if b else "false", None))

    def whole(self, label, a, b, period):
        """a - b is a whole multiple of period"""
        self.goals.append(Goal(label, "whole", X.lift(a - b) / X.lift(period)))

    def anyof(self, label, alts, **opt):
        """alts: list of (list a, list b): at least one alternative holds (pathwise)"""
        self.goals.append(Goal(label, "anyof", [([X.lift(x) for x in a], [X.lift(y) for y in b]) for a, b in alts], opt=opt))

    def lift(self, x): return X.lift(x)
    def diff(self, e, name, env=None): return X.diff(X.lift(e), name, env)
    def subst(self, e, m): return X.subst(X.lift(e), m)


class Result:
    def __init__(self, iid):
        self.id = iid; self.ok = True; self.fails = []; self.ngoals = 0; self.nproved = 0
        self.paths = 0; self.infeasible = 0; self.contracts = set(); self.builtins = set(); self.inlined = set()
        self.z3 = 0; self.z3t = 0.0; self.wall = 0.0; self.how = {}; self.divs = 0; self.divs_ok = 0
        self.undef = []; self.called = []; self.vacuous = False
        self.bounded = None


def verify(mod, it, contracts, quick=True):
    from . import smt
    res = Result(it.id)
    res.bounded = it.bounded
    t0 = time.time()
    s0, st0 = smt.STATS["calls"], smt.STATS["time"]
    decl = PV.Decl()
    # contracts of callees are used except for the functions this item verifies
    cons = {k: v for k, v in contracts.items() if k not in it.funcs}
    cache = {}

    def oracle(path, d, op):
        key = (tuple((f.id, o) for f, o in path.facts), d.id, op)
        if key in cache:
            return cache[key]
        old = smt.TIMEOUT
        smt.TIMEOUT = 250
        r = None
        try:
            ok, _ = PV.prove_cmp(decl, path.facts, d, op)
            if ok:
                r = True
            else:
                nd, nop = {">": (X.neg(d), ">="), ">=": (X.neg(d), ">"), "==": (d, "!=")}[op]
                if op == "==":
                    ok = False
                else:
                    ok, _ = PV.prove_cmp(decl, path.facts, nd, nop)
                if ok:
                    r = False
        finally:
            smt.TIMEOUT = old
        cache[key] = r
        return r

    cell = []

    def run(path):
        c = SymC(mod, path, decl, cons, it.funcs)
        cell.append(c)
        it.fn(c)
        return c

    deadline = t0 + (it.timeout or 600)
    feas = 0
    try:
        for path, r in IX.explore(run, oracle, it.maxpaths):
            res.paths += 1
            if time.time() > deadline:
                raise IX.Unsup("time limit")
            c = cell.pop()
            res.contracts |= c.ex.used_contracts; res.builtins |= c.ex.used_builtins; res.inlined |= c.ex.inlined
            res.called = c.called
            if isinstance(r, IX.Cut):
                if not it.bounded:
                    res.fails.append(("bound", "an unbounded item was cut", []))
                continue
            if isinstance(r, Exception):
                res.ngoals += 1
                if PV.prove_path_infeasible(decl, path.facts):
                    res.infeasible += 1
                    res.nproved += 1
                    continue
                res.fails.append(("%s" % type(r).__name__, str(r), path.facts))
                continue
            feas += 1
            for g in c.goals + c.ex.obl:
                res.ngoals += 1
                ok, how = discharge(decl, path.facts, g)
                if ok:
                    res.nproved += 1
                    how = how.split()[0] if how else "nf"
                    res.how[how] = res.how.get(how, 0) + 1
                else:
                    res.fails.append((g.label, how, path.facts))
                    if len(res.fails) > 12:
                        raise StopIteration
            # definedness of divisions
            seen = set()
            for nf_, d in c.ex.divs:
                if d.id in seen:
                    continue
                seen.add(d.id)
                res.divs += 1
                fs = path.facts[:nf_]
                ok, how = PV.prove_cmp(decl, fs, d, "!=")
                if ok:
                    res.divs_ok += 1
                else:
                    res.undef.append((X.show(d, 4)))
                    if not it.partial:
                        res.ngoals += 1
                        res.fails.append(("definedness", "a divisor may be zero: %s; %s" % (X.show(d, 4), how), fs))
        if feas == 0 and not res.fails:
            res.vacuous = True
            res.fails.append(("vacuity", "no feasible path through the contract", []))
    except StopIteration:
        pass
    except IX.Unsup as u:
        res.fails.append(("out of reach", str(u), []))
    except RecursionError:
        res.fails.append(("out of reach", "recursion", []))
    res.ok = not res.fails
    res.decl = decl
    res.z3 = smt.STATS["calls"] - s0
    res.z3t = smt.STATS["time"] - st0
    res.wall = time.time() - t0
    return res


EPSC = [Fraction(1, 2 ** 52), Fraction(1, 2 ** 50), Fraction(1, 10 ** 12), Fraction(1, 2 ** 26), Fraction(1, 10 ** 6), Fraction(1, 2 ** 13), Fraction(1, 10 ** 3), Fraction(1, 2 ** 6)]


def zeros(decl, facts):
    """variables forced to zero by a pair of path facts v>=0, -v>=0"""
    ge = {f.id for f, o in facts if o in (">=", "==")}
    out = {}
    for f, o in facts:
        if f.op == "var" and (o == "==" or (f.id in ge and X.neg(f).id in ge)) and f.args[0] in decl.order:
            out[f.args[0]] = X.ZERO
    return out


def discharge(decl, facts, g):
    z = zeros(decl, facts)
    if z and not any(n in z for n, _ in decl.rels):
        if g.kind == "eq" or (g.kind not in ("true", "false", "anyof")):
            g = Goal(g.label, g.kind, X.subst(g.a, z), X.subst(g.b, z) if g.b is not None else None, g.opt)
    return discharge1(decl, facts, g)


def discharge1(decl, facts, g):
    if g.kind == "true":
        return True, "trivial"
    if g.kind == "false":
        if PV.prove_path_infeasible(decl, facts):
            return True, "infeasible"
        return False, "the result is wrong on a feasible path"
    if g.kind == "whole":
        return PV.prove_whole(decl, facts, g.a)
    if g.kind == "eq":
        return discharge_eq(decl, facts, g.a, g.b, g.opt)
    if g.kind == "anyof":
        ok, how = PV.prove_any(decl, facts, g.a)
        if ok:
            return ok, how
        b = small_bounds(decl, facts, g.opt)
        if b:
            ok, how = PV.prove_any(decl, facts, g.a, b, Fraction(g.opt.get("tol", SMALL_TOL)))
            if ok:
                return ok, how
        if PV.prove_path_infeasible(decl, facts):
            return True, "infeasible"
        return False, how
    return PV.prove_cmp(decl, facts, g.a, g.kind)


def discharge_eq(decl, facts, a, b, opt):
    ok, how = PV.prove_eq(decl, facts, a, b)
    if ok:
        return ok, how
    bounds = small_bounds(decl, facts, opt)
    if bounds:
        ok, how2 = PV.prove_small(decl, facts, bounds, a, b, Fraction(opt.get("tol", SMALL_TOL)))
        if ok:
            return ok, how2
        how = how2 + " (small-angle branch: %s)" % {k: float(v) for k, v in bounds.items()}
    return False, how


_sb = {}
SMALL_TOL = Fraction(1, 10 ** 15)     # a few units in the last place of numbers near 1


def small_bounds(decl, facts, opt):
    sv = opt.get("small")
    if not sv:
        return None
    if isinstance(sv, str):
        sv = [sv]
    key = (id(decl), tuple((f.id, o) for f, o in facts), tuple(sv))
    if key in _sb:
        return _sb[key]
    bounds = {}
    for v in sv:
        e = X.var(v)
        for eps in EPSC:
            o1, _ = PV.prove_cmp(decl, facts, X.const(eps) - e, ">=")
            if not o1:
                continue
            o2, _ = PV.prove_cmp(decl, facts, X.const(eps) + e, ">=")
            if o2:
                bounds[v] = eps
                break
    _sb[key] = bounds
    return bounds
