"""Symbolic execution of LLVM IR with real-valued doubles, concrete integers and
pointers, exact object bounds.  Every feasible path is enumerated; floating
comparisons on symbolic values fork the path and become path facts."""
import math, struct
from fractions import Fraction
from . import expr as X
from .expr import E
from .irparse import Type, get_block


class MemErr(Exception):
    """memory-safety / frame obligation fails"""


class AssertFail(Exception):
    pass


class Cut(Exception):
    """the path goes beyond the stated bound of a bounded item"""


class Unsup(Exception):
    pass


class Obj:
    __slots__ = ("name", "size", "cells", "ro", "dead", "tag", "wr", "lo")
    n = 0

    def __init__(self, name, size, ro=False, tag=None):
        self.name = name; self.size = size; self.cells = {}; self.ro = ro; self.dead = False; self.tag = tag
        self.wr = set()
        self.lo = 0


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o; self.off = off

    def __eq__(self, b): return isinstance(b, Ptr) and self.o is b.o and self.off == b.off
    def __hash__(self): return hash((id(self.o), self.off))
    def __repr__(self): return "&%s+%d" % (self.o.name if self.o else "null", self.off)


NULL = Ptr(None, 0)


class Part:
    """a byte with undefined bits (read-modify-write of an uninitialised bit-field unit)"""
    def __init__(self, v, und): self.v = v; self.und = und

    def __repr__(self): return "value with undefined bits"


def part(v, und): return Part(v & ~und, und) if und else v


class FnRef:
    __slots__ = ("name",)

    def __init__(self, name): self.name = name
    def __eq__(self, b): return isinstance(b, FnRef) and self.name == b.name
    def __hash__(self): return hash(self.name)


class Undef:
    pass


UNDEF = Undef()


class Layout:
    def __init__(self, types):
        self.types = types

    def size(self, t): return self.sa(t)[0]

    def sa(self, t):
        if t.sz is not None:
            return t.sz, t.al
        k = t.k
        if k == "int":
            b = (t.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == "double" or k == "ptr" or k == "fn":
            r = (8, 8)
        elif k == "float":
            r = (4, 4)
        elif k == "x86_fp80":
            r = (16, 16)
        elif k == "named":
            if t.a not in self.types:
                raise Unsup("opaque type " + t.a)
            r = self.sa(self.types[t.a])
        elif k == "arr":
            n, e = t.a
            s, a = self.sa(e)
            r = (n * s, a)
        elif k == "vec":
            n, e = t.a
            s, a = self.sa(e)
            r = (n * s, n * s)
        elif k in ("struct", "pstruct"):
            off = 0
            al = 1
            for e in t.a:
                s, a = self.sa(e)
                if k == "pstruct":
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise Unsup("size of " + k)
        t.sz, t.al = r
        return r

    def field(self, t, i):
        """(offset, type) of element i"""
        if t.k == "named":
            return self.field(self.types[t.a], i)
        if t.k in ("arr", "vec"):
            return i * self.size(t.a[1]), t.a[1]
        off = 0
        for j, e in enumerate(t.a):
            s, a = self.sa(e)
            if t.k == "pstruct":
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsup("field")

    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


class Path:
    """facts gathered on the current path; fork decisions"""
    def __init__(self, forced, oracle=None):
        self.forced = forced
        self.taken = []
        self.facts = []
        self.oracle = oracle
        self.seen = {}

    def decide(self, d, op):
        """is  d op 0 ?  op in '>','>=','==' """
        if X.isc(d):
            c = d.args[0]
            return {">": c > 0, ">=": c >= 0, "==": c == 0}[op]
        key = (d.id, op)
        if key in self.seen:
            return self.seen[key]
        nd = X.neg(d)
        # complementary query already answered?
        if op == ">" and (nd.id, ">=") in self.seen:
            return not self.seen[(nd.id, ">=")]
        if op == ">=" and (nd.id, ">") in self.seen:
            return not self.seen[(nd.id, ">")]
        k = len(self.taken)
        if k < len(self.forced):
            r = self.forced[k]
        else:
            r = self.oracle(self, d, op) if self.oracle else None
            if r is None:
                r = (True, True)     # (value, other side open)
            elif r is True or r is False:
                r = (r, False)
        self.taken.append(r)
        v = r[0]
        self.seen[key] = v
        if v:
            self.facts.append((d, op))
        else:
            if op == ">":
                self.facts.append((X.neg(d), ">="))
            elif op == ">=":
                self.facts.append((X.neg(d), ">"))
            else:
                self.facts.append((d, "!="))
        return v


class Exec:
    MAXSTEPS = 3000000

    def __init__(self, mod, contracts=None, builtins=None, path=None):
        self.m = mod
        self.L = Layout(mod.types)
        self.contracts = contracts or {}
        self.cb = {}
        self.globals = {}
        self.path = path or Path([])
        self.steps = 0
        self.order, self.rank = 0, {}
        self.regions = {}; self.heap = []; self.rkeep = []; self.lregion = None
        self.depth = 0
        self.used_contracts = set()
        self.used_builtins = set()
        self.inlined = set()
        self.obl = []           # obligations raised by callee contracts (preconditions)
        self.vastack = []
        self.divs = []          # (facts count, denominators) for definedness obligations
        self.sqrts = []
        self.sysfn = None
        from . import builtins as B
        self.B = B.TABLE

    # ---- memory
    def alloc(self, name, size, ro=False, tag=None):
        o = Obj(name, size, ro, tag)
        if name == "heap":
            self.heap.append(o)
        return Ptr(o, 0)

    def doubles(self, name, vals, ro=False):
        p = self.alloc(name, 8 * len(vals))
        for i, v in enumerate(vals):
            if v is not None:
                p.o.cells[8 * i] = (8, v)
        p.o.ro = ro
        return p

    def store(self, p, size, v):
        if not isinstance(p, Ptr):
            raise Unsup("store through %r" % (p,))
        o = p.o
        if o is None:
            raise MemErr("write through null pointer")
        if o.dead:
            raise MemErr("write to released object " + o.name)
        if p.off < 0 or p.off + size > o.size:
            raise MemErr("write of %d bytes at offset %d outside object %s of %d bytes" % (size, p.off, o.name, o.size))
        if o.ro:
            raise MemErr("write to object %s which the contract declares read-only" % o.name)
        c = o.cells
        if p.off in c and c[p.off][0] == size:
            c[p.off] = (size, v)
        else:
            # remove overlapped cells
            for k in [k for k in c if k < p.off + size and k + c[k][0] > p.off]:
                del c[k]
            c[p.off] = (size, v)
        o.wr.add(p.off)

    def load(self, p, size, t=None):
        if not isinstance(p, Ptr):
            raise Unsup("load through %r" % (p,))
        o = p.o
        if o is None:
            raise MemErr("read through null pointer")
        if o.dead:
            raise MemErr("read of released object " + o.name)
        if p.off < 0 or p.off + size > o.size:
            raise MemErr("read of %d bytes at offset %d outside object %s of %d bytes" % (size, p.off, o.name, o.size))
        c = o.cells.get(p.off)
        if c is None or c[0] != size:
            return self.load_slow(o, p.off, size, t)
        v = c[1]
        if v is UNDEF:
            raise MemErr("read of uninitialised data in %s at offset %d" % (o.name, p.off))
        return v

    def load_slow(self, o, off, size, t):
        # assemble from integer cells
        for k, (s, v) in o.cells.items():
            if k <= off and off + size <= k + s and isinstance(v, int):
                return (v >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
        r = 0
        got = 0
        while got < size:
            c = o.cells.get(off + got)
            if c is None or not isinstance(c[1], int) or got + c[0] > size:
                if c is None and size == 1 and o.name == "heap":
                    return Part(0, 255)
                raise MemErr("read of uninitialised data in %s at offset %d" % (o.name, off))
            r |= c[1] << (8 * got)
            got += c[0]
        if t is not None and t.k == "double" and r == 0:
            return X.ZERO
        return r

    def memcpy(self, d, s, n):
        if n == 0:
            return
        for p, w in ((d, "write"), (s, "read")):
            if not isinstance(p, Ptr):
                raise Unsup("memcpy")
            if p.o is None:
                raise MemErr(w + " through null pointer in memory copy")
            if p.o.dead:
                raise MemErr(w + " of released object in memory copy: " + p.o.name)
            if p.off < 0 or p.off + n > p.o.size:
                raise MemErr("%s of %d bytes at offset %d outside object %s of %d bytes (memory copy)" % (w, n, p.off, p.o.name, p.o.size))
        if d.o.ro:
            raise MemErr("write to object %s which the contract declares read-only" % d.o.name)
        src = [(k - s.off, c) for k, c in s.o.cells.items() if s.off <= k and k + c[0] <= s.off + n]
        dc = d.o.cells
        for k in [k for k in dc if k < d.off + n and k + dc[k][0] > d.off]:
            del dc[k]
        for k, c in src:
            dc[d.off + k] = c
        d.o.wr.update(d.off + k for k, c in src)

    def memset(self, d, byte, n):
        if n == 0:
            return
        if d.o is None:
            raise MemErr("write through null pointer")
        if d.off < 0 or d.off + n > d.o.size:
            raise MemErr("memset outside object " + d.o.name)
        if d.o.ro:
            raise MemErr("write to object %s which the contract declares read-only" % d.o.name)
        dc = d.o.cells
        for k in [k for k in dc if k < d.off + n and k + dc[k][0] > d.off]:
            del dc[k]
        k = 0
        while k < n:
            s = 8 if (n - k >= 8 and (d.off + k) % 8 == 0) else (4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1)
            v = int.from_bytes(bytes([byte & 255]) * s, "little")
            dc[d.off + k] = (s, v)
            d.o.wr.add(d.off + k)
            k += s

    # ---- constants
    def zero(self, t):
        t = self.L.resolve(t)
        if t.k in ("double", "float"):
            return X.ZERO
        if t.k == "int":
            return 0
        if t.k == "ptr":
            return NULL
        if t.k in ("struct", "pstruct"):
            return [self.zero(e) for e in t.a]
        if t.k in ("arr", "vec"):
            return [self.zero(t.a[1]) for _ in range(t.a[0])]
        raise Unsup("zero")

    def global_ptr(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.m.aliases:
            return self.cv(Type("ptr"), self.m.aliases[name])
        n = name[1:].strip('"')
        if name not in self.m.globals:
            if n in self.m.fns or n in self.m.decls or n in self.B:
                return FnRef(n)
            raise Unsup("global " + name)
        t, init = self.m.globals[name]
        p = self.alloc(name, self.L.size(t) if init is not None else 1 << 20)
        self.globals[name] = p
        if init is not None:
            v = self.cv(t, init)
            self.put(p, t, v)
        elif n in ("stderr", "stdout"):
            p.o.cells[0] = (8, self.alloc("FILE", 8))
        elif n == "__libc_single_threaded":
            p.o.cells[0] = (1, 1)
        return p

    def put(self, p, t, v):
        t = self.L.resolve(t)
        if t.k in ("struct", "pstruct", "arr", "vec"):
            if isinstance(v, bytes):
                for i, b in enumerate(v):
                    p.o.cells[p.off + i] = (1, b)
                return
            for i, x in enumerate(v):
                off, et = self.L.field(t, i)
                self.put(Ptr(p.o, p.off + off), et, x)
            return
        if v is UNDEF:
            return
        p.o.cells[p.off] = (self.L.size(t), v)

    def cv(self, t, v, env=None):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "i":
            return v[1]
        if k == "f":
            if t.k == "float":
                return X.from_double(_short_float(v[1]))
            return X.from_double(v[1])
        if k == "g":
            return self.global_ptr(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(t)
        if k == "agg":
            return [self.cv(tt, vv, env) for tt, vv in v[1]]
        if k == "bytes":
            return v[1]
        if k == "cgep":
            return self.gep(v[1], [(tt, self.cv(tt, vv, env)) for tt, vv in v[2]])
        if k == "ccast":
            x = self.cv(v[2], v[3], env)
            return x
        raise Unsup("const " + k)

    def gep(self, bt, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            raise Unsup("gep on %r" % (p,))
        off = p.off
        t = bt
        first = True
        for it, iv in ops[1:]:
            if not isinstance(iv, int):
                raise Unsup("symbolic index")
            i = sgn(iv, it.a)
            if first:
                off += i * self.L.size(bt)
                first = False
            else:
                o, t = self.L.field(t, i)
                off += o
        return Ptr(p.o, off)

    # ---- execution
    def call(self, name, args, ret=None):
        """args: list of values"""
        if name in self.cb:
            return self.cb[name](args)
        c = self.contracts.get(name)
        if c is not None and self.depth > 0 and c.applicable(args):
            self.used_contracts.add(name)
            return c.apply(self, args)
        f = self.m.fns.get(name)
        if name in self.B and (f is None or self.B[name].override):
            self.used_builtins.add(name)
            return self.B[name].fn(self, *args)
        if f is None:
            raise Unsup("call to external function %s" % name)
        if self.depth > 0:
            self.inlined.add(name)
        self.depth += 1
        if self.depth > 60:
            raise Unsup("recursion depth")
        self.vastack.append(args[len(f.params):])
        try:
            return self.run(f, args)
        finally:
            self.depth -= 1
            self.vastack.pop()

    def run(self, f, args):
        env = {}
        if len(args) < len(f.params):
            raise Unsup("arity of " + f.name)
        for (t, nm), v in zip(f.params, args):
            env[nm] = v
        lab = f.entry
        prev = None
        allocs = []
        while True:
            insts = get_block(self.m, f, lab)
            # phis in parallel
            k = 0
            pend = []
            while k < len(insts) and insts[k][0] == "phi":
                _, dst, t, inc = insts[k]
                for v, l in inc:
                    if l == prev:
                        pend.append((dst, self.cv(t, v, env)))
                        break
                else:
                    raise Unsup("phi")
                k += 1
            for d, v in pend:
                env[d] = v
            nxt = None
            for ins in insts[k:]:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Unsup("step limit")
                op = ins[0]
                if op == "load":
                    _, dst, t, pv = ins
                    p = self.cv(None, pv, env)
                    env[dst] = self.loadt(p, t)
                elif op == "store":
                    _, _, t, v, pv = ins
                    self.storet(self.cv(None, pv, env), t, self.cv(t, v, env))
                elif op == "atomicrmw":          # one thread: the old value, and the update
                    _, dst, k, t, pv, vv = ins
                    at, v = self.cv(None, pv, env), self.cv(t, vv, env)
                    env[dst] = self.loadt(at, t)
                    if k == "xchg":
                        self.storet(at, t, v)
                    elif k in ("add", "sub", "and", "or", "xor"):
                        self.storet(at, t, self.binop(k, t, env[dst], v))
                    else:
                        raise Unsup("atomicrmw " + k)
                elif op == "getelementptr":
                    _, dst, bt, ops = ins
                    env[dst] = self.gep(bt, [(tt, self.cv(tt, vv, env)) for tt, vv in ops])
                elif op == "bin":
                    env[ins[1]] = self.binop(ins[2], ins[3], self.cv(ins[3], ins[4], env), self.cv(ins[3], ins[5], env))
                elif op == "alloca":
                    _, dst, t, cnt = ins
                    n = self.cv(Type("int", 64), cnt, env)
                    if not isinstance(n, int):
                        raise Unsup("symbolic alloca")
                    o = self.alloc("%s:%s" % (f.name, dst), self.L.size(t) * n)
                    allocs.append(o.o)
                    env[dst] = o
                elif op == "jmp":
                    nxt = ins[2]
                    break
                elif op == "br":
                    c = self.cv(Type("int", 1), ins[2], env)
                    if not isinstance(c, int):
                        raise Unsup("symbolic branch")
                    nxt = ins[3] if c else ins[4]
                    break
                elif op == "icmp":
                    _, dst, pred, t, a, b = ins
                    env[dst] = self.icmp(pred, t, self.cv(t, a, env), self.cv(t, b, env))
                elif op == "fcmp":
                    _, dst, pred, t, a, b = ins
                    env[dst] = self.fcmp(pred, self.cv(t, a, env), self.cv(t, b, env))
                elif op == "call":
                    _, dst, t, callee, cargs, nd = ins
                    fn = self.cv(None, callee, env)
                    if not isinstance(fn, FnRef):
                        raise Unsup("indirect call to %r" % (fn,))
                    if fn.name.startswith(("llvm.dbg", "llvm.lifetime")):
                        continue
                    vals = [self.cv(at, av, env) for at, av, _a in cargs]
                    # byval: copy
                    for j, (at, av, aa) in enumerate(cargs):
                        if "byval" in aa:
                            s = self.L.size(aa["byval"])
                            o = self.alloc("byval", s)
                            self.memcpy(o, vals[j], s)
                            vals[j] = o
                    r = self.call(fn.name, vals)
                    if dst is not None:
                        if r is None:
                            r = UNDEF
                        env[dst] = r
                    if nd is not None:
                        nxt = nd
                        break
                elif op == "ret":
                    r = None if ins[3] is None else self.cv(ins[2], ins[3], env)
                    for o in allocs:
                        o.dead = True
                    return r
                elif op == "cast":
                    env[ins[1]] = self.cast(ins[2], ins[3], self.cv(ins[3], ins[4], env), ins[5])
                elif op == "fneg":
                    env[ins[1]] = X.neg(self.fl(self.cv(ins[2], ins[3], env)))
                elif op == "select":
                    c = self.cv(Type("int", 1), ins[3], env)
                    if not isinstance(c, int):
                        raise Unsup("symbolic select")
                    env[ins[1]] = self.cv(ins[2], ins[4] if c else ins[5], env)
                elif op == "switch":
                    v = self.cv(ins[2], ins[3], env)
                    if not isinstance(v, int):
                        raise Unsup("symbolic switch")
                    nxt = ins[4]
                    for cvv, l in ins[5]:
                        if cvv == v:
                            nxt = l
                            break
                    break
                elif op == "extractvalue":
                    v = self.cv(ins[2], ins[3], env)
                    if v is UNDEF:
                        v = self.undef_agg(ins[2])
                    for i in ins[4]:
                        v = v[i]
                    env[ins[1]] = v
                elif op == "insertvalue":
                    v = self.cv(ins[2], ins[3], env)
                    if v is UNDEF:
                        v = self.undef_agg(ins[2])
                    x = None
                    tt = ins[2]
                    import copy
                    v = copy.copy(v)
                    cur = v
                    for i in ins[5][:-1]:
                        cur[i] = copy.copy(cur[i]); cur = cur[i]
                    cur[ins[5][-1]] = self.cv(self.elemtype(ins[2], ins[5]), ins[4], env)
                    env[ins[1]] = v
                elif op == "unreachable":
                    raise AssertFail("reached an unreachable point in " + f.name)
                else:
                    raise Unsup("instruction %s in %s" % (ins[2] if len(ins) > 2 else op, f.name))
            prev, lab = lab, nxt
            if lab is None:
                raise Unsup("fallthrough")

    def elemtype(self, t, ix):
        for i in ix:
            t = self.L.field(t, i)[1]
        return t

    def undef_agg(self, t):
        t = self.L.resolve(t)
        if t.k in ("struct", "pstruct"):
            return [self.undef_agg(e) for e in t.a]
        if t.k in ("arr", "vec"):
            return [self.undef_agg(t.a[1]) for _ in range(t.a[0])]
        return UNDEF

    def loadt(self, p, t):
        rt = self.L.resolve(t)
        if rt.k in ("struct", "pstruct", "arr", "vec"):
            n = rt.a[0] if rt.k in ("arr", "vec") else len(rt.a)
            out = []
            for i in range(n):
                off, et = self.L.field(rt, i)
                out.append(self.loadt(Ptr(p.o, p.off + off), et))
            return out
        v = self.load(p, self.L.size(rt), rt)
        if rt.k in ("double", "float") and isinstance(v, int):
            if v == 0:
                return X.ZERO
            if rt.k == "double":
                return X.from_double(struct.unpack("<d", struct.pack("<Q", v))[0])
            if isinstance(v, int):
                x = struct.unpack("<f", struct.pack("<I", v))[0]
                if x == x and abs(x) != float("inf"):
                    return X.from_double(x)
            raise Unsup("bits to float")
        if rt.k == "ptr" and isinstance(v, int) and v == 0:
            return NULL
        if rt.k == "int" and rt.a < 8 and isinstance(v, int):
            v &= (1 << rt.a) - 1
        return v

    def storet(self, p, t, v):
        rt = self.L.resolve(t)
        if rt.k in ("struct", "pstruct", "arr", "vec"):
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                off, et = self.L.field(rt, i)
                self.storet(Ptr(p.o, p.off + off), et, x)
            return
        self.store(p, self.L.size(rt), v)

    def fl(self, v):
        if isinstance(v, E):
            return v
        if v is UNDEF:
            raise MemErr("use of an undefined floating point value")
        raise Unsup("expected a real value, got %r" % (v,))

    def binop(self, op, t, a, b):
        if op[0] == "f":
            a, b = self.fl(a), self.fl(b)
            if op == "fadd":
                return X.add(a, b)
            if op == "fsub":
                return X.sub(a, b)
            if op == "fmul":
                return X.mul(a, b)
            if op == "fdiv":
                if not X.isc(b):
                    self.divs.append((len(self.path.facts), b))
                elif b.args[0] == 0:
                    raise MemErr("division by constant zero")
                return X.div(a, b)
            if op == "frem":
                from . import builtins as BI
                return BI.TABLE["fmod"].fn(self, a, b)
            raise Unsup(op)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.o is b.o:
            return (a.off - b.off) & ((1 << 64) - 1)
        if isinstance(a, Ptr) and isinstance(b, int) and op in ("add", "sub"):
            return Ptr(a.o, a.off + (sgn(b, 64) if op == "add" else -sgn(b, 64)))
        if (isinstance(a, Part) or isinstance(b, Part)) and op in ("and", "or"):
            x, y = (p if isinstance(p, Part) else Part(p, 0) for p in (a, b))
            if op == "and":
                return part(x.v & y.v, (x.und & y.und) | (x.und & y.v) | (y.und & x.v))
            return part(x.v | y.v, (x.und | y.und) & ~x.v & ~y.v)
        if isinstance(a, Part) and isinstance(b, int) and op in ("lshr", "shl") and t.a == 8:
            return part(a.v >> b, a.und >> b) if op == "lshr" else part(a.v << b & 255, a.und << b & 255)
        if isinstance(a, Part) or isinstance(b, Part):
            raise MemErr("use of an uninitialised value")
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unsup("integer %s of %r %r" % (op, a, b))
        n = t.a
        M = (1 << n) - 1
        if op == "add": r = a + b
        elif op == "sub": r = a - b
        elif op == "mul": r = a * b
        elif op in ("udiv", "sdiv", "urem", "srem"):
            if b == 0:
                raise MemErr("integer division by zero")
            if op == "udiv": r = a // b
            elif op == "urem": r = a % b
            else:
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = q if op == "sdiv" else x - q * y
        elif op == "and": r = a & b
        elif op == "or": r = a | b
        elif op == "xor": r = a ^ b
        elif op == "shl": r = a << b
        elif op == "lshr": r = a >> b
        elif op == "ashr": r = sgn(a, n) >> b
        else:
            raise Unsup(op)
        return r & M

    def icmp(self, pred, t, a, b):
        if isinstance(a, Part) or isinstance(b, Part):
            raise MemErr("use of an uninitialised value")
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnRef) or isinstance(b, FnRef):
            if a == 0: a = NULL
            if b == 0: b = NULL
            if pred == "eq": return int(a == b)
            if pred == "ne": return int(not (a == b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                x, y = a.off, b.off
                return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred])
            if self.order and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o and b.o:
                # distinct objects, where the item states the order of addresses
                # (by first comparison, or the reverse of it)
                x, y = (self.rank.setdefault(id(q.o), (self.order * len(self.rank), q.o))[0] for q in (a, b))
                return int({"ult": x < y, "ule": x < y, "ugt": x > y, "uge": x > y}[pred])
            raise Unsup("pointer order")
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unsup("icmp on %r %r" % (a, b))
        if pred[0] == "s":
            a, b = sgn(a, t.a), sgn(b, t.a)
        return int({"eq": a == b, "ne": a != b, "t": a < b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred if pred in ("eq", "ne") else pred[1:]])

    def fcmp(self, pred, a, b):
        a, b = self.fl(a), self.fl(b)
        if pred == "true": return 1
        if pred == "false": return 0
        if pred == "uno": return 0
        if pred == "ord": return 1
        d = X.sub(a, b)
        D = self.path.decide
        p = pred[1:]
        if p == "lt": return int(D(X.neg(d), ">"))
        if p == "le": return int(D(X.neg(d), ">="))
        if p == "gt": return int(D(d, ">"))
        if p == "ge": return int(D(d, ">="))
        if p == "eq": return int(D(d, "=="))
        if p == "ne": return int(not D(d, "=="))
        raise Unsup(pred)

    def cast(self, op, t, v, t2):
        if op in ("fpext", "fptrunc", "freeze", "bitcast"):
            return v
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr" and v == 0:
                return NULL
            if op == "ptrtoint" and isinstance(v, Ptr) and v.o is None:
                return v.off
            return v
        if op in ("uitofp", "sitofp"):
            if not isinstance(v, int):
                raise Unsup("int to float of symbolic")
            return X.const(sgn(v, t.a) if op == "sitofp" else v)
        if op in ("fptosi", "fptoui"):
            if isinstance(v, E) and X.isc(v):
                f = v.args[0]
                q = abs(f.numerator) // f.denominator
                return (q if f >= 0 else -q) & ((1 << t2.a) - 1)
            raise Unsup("float to int of symbolic value")
        if isinstance(v, (E, Ptr)):
            raise Unsup("integer cast of non-integer")
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Part):
            if op == "zext":
                return v
            if op == "trunc":
                return part(v.v & ((1 << t2.a) - 1), v.und & ((1 << t2.a) - 1))
            raise MemErr("use of an uninitialised value")
        if op == "trunc":
            return v & ((1 << t2.a) - 1)
        if op == "zext":
            return v
        if op == "sext":
            return sgn(v, t.a) & ((1 << t2.a) - 1)
        raise Unsup(op)


def _short_float(x):
    """a float literal printed as the double it extends to"""
    for nd in range(1, 10):
        s = float("%.*g" % (nd, x))
        if struct.unpack("<f", struct.pack("<f", s))[0] == x:
            return s
    return x


def explore(run, oracle=None, maxpaths=4000):
    """run(path) executed for every decision sequence; yields (path, result or exception)"""
    stack = [[]]
    n = 0
    while stack:
        forced = stack.pop()
        n += 1
        if n > maxpaths:
            raise Unsup("too many paths")
        p = Path(forced, oracle)
        try:
            res = run(p)
        except (MemErr, AssertFail, Unsup, Cut) as e:
            res = e
        for k in range(len(p.taken) - 1, len(forced) - 1, -1):
            v, other = p.taken[k]
            if other:
                stack.append(p.taken[:k] + [(not v, False)])
        yield p, res
