"""Numeric replay: the same contract items evaluated on the compiled real code.

Used only after the verifier rejected an obligation, to look for a concrete
failing input (and by the self-test, to check that the contracts and the
compiled code agree on the unchanged tree)."""
import ctypes, json, math, mmap, os, random, signal, struct, sys, time
from fractions import Fraction
from . import ops, expr as X
from .ops import mp, N

GUARD = 0x7ff4dead0bad0000
NG = 8           # guard words on each side
FILL = 0x7ff4000000c0ffee


class Skip(Exception):
    pass


class Bad(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, "%s: %s" % (label, msg))
        self.label = label; self.msg = msg


def _fl(rng):
    k = rng.random()
    if k < .55:
        return rng.gauss(0, 1)
    if k < .65:
        return 0.0
    if k < .75:
        return float(rng.choice([1, -1, 2, -2, .5, -.5]))
    if k < .85:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2)
    return rng.gauss(0, 10)


TINY = [1e-9, 1e-7, 1e-5, 3e-4, 1e-3, 5e-3]


def sample(rng, kind, n, kw):
    if kind == "unit":
        k = rng.random()
        if k < .5:
            v = [rng.gauss(0, 1) for _ in range(n)]
        elif k < .65:
            v = [0.0] * n
            v[rng.randrange(n)] = rng.choice([-1.0, 1.0])
        elif k < .8:
            v = [0.0] * n
            i, j = rng.sample(range(n), 2)
            v[i] = rng.choice([-1.0, 1.0]) * rng.choice([1, rng.random()])
            v[j] = rng.choice([-1.0, 1.0]) * rng.choice([1, rng.random()])
        else:
            v = [rng.choice(TINY) * rng.gauss(0, 1) for _ in range(n)]
            v[rng.randrange(n)] = rng.choice([-1.0, 1.0])
        s = math.sqrt(sum(x * x for x in v))
        return [x / s for x in v] if s else sample(rng, kind, n, kw)
    if kind == "vec":
        if n == 0:
            return []
        k = rng.random()
        if k < .4:
            v = [rng.gauss(0, 1) for _ in range(n)]
        elif k < .5:
            v = [rng.choice(TINY) * rng.gauss(0, 1) for _ in range(n)]
        elif k < .6:
            v = [0.0] * n
            v[rng.randrange(n)] = rng.choice([-1.0, 1.0, 2.5])
        elif k < .64:
            v = [0.0] * n
        elif k < .8:
            v = [float(rng.randint(-3, 3)) for _ in range(n)]
        else:
            v = [_fl(rng) for _ in range(n)]
        return [_clip(x, rng, kw) for x in v]
    if kind == "scalar":
        return _clip(_fl(rng), rng, kw)
    if kind == "angle":
        lo, hi = kw["rng"]
        lo = -8.0 if lo is None else float(lo) * math.pi
        hi = 8.0 if hi is None else float(hi) * math.pi
        k = rng.random()
        if k < .45:
            x = rng.uniform(lo, hi)
        elif k < .6:
            x = rng.choice([lo, hi])
        elif k < .8:
            x = rng.choice([lo + rng.choice(TINY), hi - rng.choice(TINY)])
        elif k < .9:
            x = rng.choice([0, .25, .5, .75, 1, 1.5, 2]) * math.pi * rng.choice([-1, 1])
        else:
            x = rng.choice([-1, 1]) * rng.choice(TINY) * rng.random()
        return min(max(x, lo), hi)
    if kind == "choice":
        return rng.choice(kw["opts"])
    raise ValueError(kind)


def _clip(x, rng, kw):
    b = kw.get("bound")
    if b is not None and abs(x) > float(b):
        x = rng.choice([rng.uniform(-float(b), float(b)), math.copysign(float(b), x)])
    if kw.get("pos") or kw.get("nonneg"):
        x = abs(x)
        if kw.get("pos") and x < 1e-3:
            x = rng.choice([1e-3, 1.0, rng.random() + .01])
    return x


def gen(rng, kinds):
    env = {}
    for kind, name, n, kw in kinds:
        env["@" + name] = sample(rng, kind, n, kw)
    return env


def flat(env, kinds):
    """variable name -> number for the fact evaluator"""
    out = {}
    for kind, name, n, kw in kinds:
        v = env["@" + name]
        if kind in ("vec", "unit"):
            for i, x in enumerate(v):
                out["%s%d" % (name, i)] = x
        else:
            out[name] = v
    return out


class NBuf:
    def __init__(self, c, base, n, es=8, off=0):
        self.c = c; self.base = base; self.n = n; self.es = es; self.off = off

    @property
    def addr(self): return self.base.addr + self.off

    def at(self, k): return NBuf(self.c, self.base, self.n - k, self.es, self.off + self.es * k)

    def bytes(self, off, n):
        return ctypes.string_at(self.addr + off, n)

    def set(self, vals):
        self.c.poke(self.addr() if callable(self.addr) else self.addr, vals)

    def get(self, k=None, n=None):
        n = self.n if n is None else n
        k = k or 0
        out = []
        for i in range(n):
            b = self.bytes(8 * (k + i), 8)
            if struct.unpack("<Q", b)[0] == FILL:
                raise Bad("output", "element %d was never written" % (k + i))
            out.append(struct.unpack("<d", b)[0])
        return out

    def peek(self):
        out = []
        for i in range(self.n):
            b = self.bytes(8 * i, 8)
            out.append(None if struct.unpack("<Q", b)[0] == FILL else struct.unpack("<d", b)[0])
        return out

    def ints(self, n=None, size=8):
        n = self.n if n is None else n
        return [int.from_bytes(self.bytes(size * i, size), "little") for i in range(n)]


class Base:
    def __init__(self, nbytes, data=None, ro=False):
        nb = (nbytes + 7) // 8 * 8
        self.mem = ctypes.create_string_buffer(nb + 16 * NG + 16)
        a = ctypes.addressof(self.mem)
        a = (a + 15) // 16 * 16
        g = struct.pack("<Q", GUARD) * NG
        self.nbytes = nbytes; self.pad = nb - nbytes
        self.a0 = a
        self.addr = a + 8 * NG
        ctypes.memmove(a, g, 8 * NG)
        ctypes.memmove(self.addr, struct.pack("<Q", FILL) * (nb // 8), nb)
        ctypes.memmove(self.addr + nb, g, 8 * NG)
        self.nb = nb
        self.g = g
        if data is not None:
            ctypes.memmove(self.addr, data, len(data))
        self.ro = bytes(data) if ro else None

    def check(self):
        if ctypes.string_at(self.a0, 8 * NG) != self.g or ctypes.string_at(self.addr + self.nb, 8 * NG) != self.g:
            raise Bad("frame", "a write outside the buffer")
        if self.ro is not None and ctypes.string_at(self.addr, len(self.ro)) != self.ro:
            raise Bad("frame", "a read-only input was modified")


class Pair(ctypes.Structure):
    _fields_ = [("a", ctypes.c_double), ("b", ctypes.c_double)]


class NumC:
    symbolic = False

    def __init__(self, lib, mod, rng, env=None, tol=1e-8):
        self.lib = lib; self.mod = mod; self.rng = rng; self.env = dict(env or {})
        self.bases = []; self.keep = []
        self.pi = +mp.pi
        self.tol = tol
        self.facts = []
        self.inputs = {}
        self.cberr = None; self.cutflag = False

    def _s(self, kind, name, n, kw):
        k = "@" + name
        if k not in self.env:
            self.env[k] = sample(self.rng, kind, n, kw)
        v = self.env[k]
        self.inputs[name] = v
        if isinstance(v, list):
            return [mp.mpf(x) for x in v]
        return mp.mpf(v)

    def vec(self, name, n, **kw): return self._s("vec", name, n, kw)
    def unit(self, name, n): return self._s("unit", name, n, {})
    def scalar(self, name, **kw): return self._s("scalar", name, 1, kw)
    def angle(self, name, lo=0, hi=1): return self._s("angle", name, 1, {"rng": tuple(None if x is None else Fraction(x) for x in (lo, hi))})

    def req(self, e, op=">="):
        e = ops.N(e)
        ok = {">=": e >= 0, "<=": e <= 0, ">": e > 1e-6, "<": e < -1e-6, "!=": abs(e) > 1e-6, "==": abs(e) < 1e-12}[op]
        if not ok:
            raise Skip()

    def _b(self, base, n, es=8):
        self.bases.append(base)
        return NBuf(self, base, n, es)

    def inp(self, vals): return self._b(Base(8 * len(vals), b"".join(struct.pack("<d", float(N(v))) for v in vals), True), len(vals))
    def inout(self, vals): return self._b(Base(8 * len(vals), b"".join(struct.pack("<d", float(N(v))) for v in vals)), len(vals))
    def out(self, n): return self._b(Base(8 * n), n)
    def finp(self, vals): return self._b(Base(4 * len(vals), b"".join(struct.pack("<f", float(N(v))) for v in vals), True), len(vals), 4)
    def raw(self, n): return self._b(Base(n), n, 1)

    def null(self): return None

    def ints(self, vals, size=8, ro=True):
        return self._b(Base(size * len(vals), b"".join((v & ((1 << (8 * size)) - 1)).to_bytes(size, "little") for v in vals), ro), len(vals), size)

    def struct(self, fields, ro=False, size=None):
        sz = size or max(o for o, v in fields) + 8
        b = bytearray(sz)
        for o, v in fields:
            b[o:o + 8] = self._raw(v)
        return self._b(Base(sz, bytes(b), ro), sz // 8)

    def _raw(self, v):
        if v is None:
            return struct.pack("<Q", 0)
        if isinstance(v, NBuf):
            return struct.pack("<Q", v.addr)
        if isinstance(v, bool) or isinstance(v, int):
            return struct.pack("<Q", int(v) & ((1 << 64) - 1))
        return struct.pack("<d", float(N(v)))

    def field(self, s, off, n=1):
        return int.from_bytes(s.bytes(off, 8), "little")

    def ptrfield(self, ptr, off):
        return int.from_bytes(ctypes.string_at(ptr + off, 8), "little")

    def intfield(self, ptr, off): return self.ptrfield(ptr, off)
    def ptrfield_of(self, buf, off): return self.field(buf, off)

    def sameptr(self, ptr, buf, off): return ptr == buf.addr + off
    def isnull(self, ptr): return not ptr
    def room(self, ptr, n): return bool(ptr)

    def deref(self, ptr, n):
        return list(struct.unpack("<%dd" % n, ctypes.string_at(ptr, 8 * n)))

    def ptrat(self, ptr, off): return ptr + off

    def dmat(self, rows, cols, buf, ld=None, ro=False):
        return self.struct([(0, rows), (8, cols), (16, buf), (24, ld or rows)], ro=ro, size=32)

    def dvec(self, n, buf, inc=1, ro=False):
        return self.struct([(0, n), (8, buf), (16, inc)], ro=ro, size=24)

    def fnptr(self, name):
        return ctypes.cast(getattr(self.lib, name), ctypes.c_void_p)

    def callback(self, sig, fn):
        T = {"v": None, "i": ctypes.c_int, "d": ctypes.c_double, "p": ctypes.c_void_p, "z": ctypes.c_size_t}

        def f(*a):
            try:
                r = fn(*a)
                return float(N(r)) if sig[0] == "d" else r
            except Exception as e:
                if self.cberr is None:
                    self.cberr = e
                return 0.0 if sig[0] == "d" else 0
        cf = ctypes.CFUNCTYPE(*[T[k] for k in sig])(f)
        self.keep.append(cf)
        return ctypes.cast(cf, ctypes.c_void_p)

    def abstract(self, name, fn): pass

    def poke(self, ptr, vals):
        ctypes.memmove(ptr, b"".join(struct.pack("<d", float(N(v))) for v in vals), 8 * len(vals))

    def same(self, a, b): return self._near(a, b, {})

    def cstr(self, t):
        t = t.encode() + b"\0"
        return self._b(Base(len(t), t, True), len(t), 1)

    def text(self, ptr): return ctypes.string_at(ptr).decode()

    def local_region(self): return self.call("aa_mem_region_local_get")
    def new_region(self): return self.call("aa_mem_region_create", 4096)

    def pick(self, v, alts):
        d = [abs(N(v) - N(a)) for a in alts]
        i = min(range(len(d)), key=lambda j: d[j])
        return i if self._near(v, alts[i], {}) else None

    def cut(self):
        """the contract's callback should wind the call up when this returns True"""
        self.cutflag = True
        return True

    def addresses(self, order): pass

    def live(self): return 0
    def freed(self, label, before): pass

    def ghost(self, key, val): pass

    def reports(self, label, name, *args, unchanged=()):
        sh = mmap.mmap(-1, 65536)
        before = [ctypes.string_at(b.base.addr, b.base.nb) for b in unchanged]
        pid = os.fork()
        if pid == 0:
            try:
                H = ctypes.CFUNCTYPE(None, ctypes.c_char_p)

                def handler(msg):
                    sh.seek(0)
                    sh.write(b"R" + (b"1" if all(ctypes.string_at(b.base.addr, b.base.nb) == x for b, x in zip(unchanged, before)) else b"0"))
                    os._exit(0)
                h = H(handler)
                self.lib.aa_la_set_err(h)
                self.call(name, *args)
            finally:
                os._exit(1)
        os.waitpid(pid, 0)
        sh.seek(0)
        d = sh.read(2)
        sh.close()
        if d[:1] != b"R":
            raise Bad(label, "no error is reported")
        if d[1:] != b"1":
            raise Bad(label, "operands were touched before the error was reported")

    def call(self, name, *args, ret=None):
        f = self.mod.fns.get(name)
        if f is None:
            raise Skip()
        try:
            fn = getattr(self.lib, name)
        except AttributeError:
            raise Skip()
        av = []
        for (t, nm), a in zip(f.params, args):
            if t.k == "double":
                av.append(ctypes.c_double(float(N(a))))
            elif t.k == "float":
                av.append(ctypes.c_float(float(N(a))))
            elif t.k == "int":
                a = int(a) & ((1 << t.a) - 1)
                av.append({1: ctypes.c_uint8, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[t.a](a))
            elif isinstance(a, NBuf):
                av.append(ctypes.c_void_p(a.addr))
            elif a is None:
                av.append(ctypes.c_void_p(0))
            elif isinstance(a, int):
                av.append(ctypes.c_void_p(a))
            else:
                av.append(a)
        for a in args[len(f.params):]:
            av.append(ctypes.c_void_p(a.addr if isinstance(a, NBuf) else a))
        k = f.ret.k if f.ret is not None else "void"
        if ret == "d" or k == "double":
            fn.restype = ctypes.c_double
        elif k == "int":
            fn.restype = {1: ctypes.c_uint8, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[f.ret.a]
        elif k == "ptr":
            fn.restype = ctypes.c_void_p
        elif k == "void":
            fn.restype = None
        elif k == "struct" and all(t.k == "double" for t in f.ret.a) and len(f.ret.a) == 2:
            fn.restype = Pair
        else:
            raise Skip()
        r = fn(*av)
        if self.cberr is not None:
            raise self.cberr
        if self.cutflag:
            raise Skip()
        if isinstance(r, Pair):
            r = [r.a, r.b]
        for b in self.bases:
            b.check()
        if ret == "i":
            return r - (1 << 32) if r is not None and r >= 1 << 31 else r
        return r

    # goals
    def eq(self, label, a, b, **opt):
        if isinstance(a, (list, tuple)):
            assert len(a) == len(b), label
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq("%s[%d]" % (label, i), x, y, opt)
        else:
            self._eq(label, a, b, opt)

    def _near(self, a, b, opt):
        if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
            return False
        a, b = N(a), N(b)
        if isinstance(b, mp.mpc) or isinstance(a, mp.mpc):
            return False
        if mp.isnan(a) or mp.isinf(a):
            return False
        if mp.isnan(b) or mp.isinf(b):
            raise Skip()
        return abs(a - b) <= max(self.tol, opt.get("ntol", 0)) * (1 + abs(b))

    def _eq(self, label, a, b, opt):
        if opt.get("noreplay"):
            return
        if not self._near(a, b, opt):
            raise Bad(label, "got %s, the contract requires %s" % (mp.nstr(N(a), 12), mp.nstr(N(b), 12)))

    def cmp(self, label, e, op=">=", **opt):
        if opt.get("noreplay"):
            return
        e = N(e)
        t = max(self.tol, opt.get("ntol", 0))
        ok = {">=": e >= -t, ">": e > -t, "<=": e <= t, "<": e < t, "!=": True, "==": abs(e) <= t}[op]
        if not ok or mp.isnan(e):
            raise Bad(label, "value %s must be %s 0" % (mp.nstr(e, 12), op))

    def isint(self, label, got, want):
        if got != want:
            raise Bad(label, "got %r, want %r" % (got, want))

    def true(self, label, b):
        if not b:
            raise Bad(label, "does not hold")

    def whole(self, label, a, b, period):
        k = (N(a) - N(b)) / N(period)
        if mp.isnan(k) or abs(k - mp.nint(k)) > self.tol:
            raise Bad(label, "%s and %s differ by %s periods" % (mp.nstr(N(a), 12), mp.nstr(N(b), 12), mp.nstr(k, 12)))

    def anyof(self, label, alts, **opt):
        for a, b in alts:
            if all(self._near(x, y, opt) for x, y in zip(a, b)):
                return
        raise Bad(label, "no alternative holds")

    def lift(self, x): return N(x)

    def deriv(self, f, x, name, h=None):
        """central difference of the vector function f at x"""
        h = mp.mpf(h or 1e-4)
        a, b = f(N(x) + h), f(N(x) - h)
        a2, b2 = f(N(x) + 2 * h), f(N(x) - 2 * h)
        return [(8 * (N(p) - N(q)) - (N(r) - N(s))) / (12 * h) for p, q, r, s in zip(a, b, a2, b2)]


def run_one(lib, mod, it, seed, env=None, tol=1e-8):
    """returns None (held), 'skip' or (label, msg, inputs)"""
    rng = random.Random(seed)
    c = NumC(lib, mod, rng, env, tol)
    try:
        it.fn(c)
        for b in c.bases:
            b.check()
    except (Skip, ZeroDivisionError):
        return "skip"
    except Bad as b:
        return (b.label, b.msg, c.inputs)
    return None


def search(libpath, mod, it, envs, n, seed, timeout=60, tol=1e-8):
    """run samples in a child process; envs first, then n random ones.
    returns (found, stats) with found None or dict(label,msg,inputs)"""
    sh = mmap.mmap(-1, 65536)
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2); os.dup2(dn, 1)
            signal.alarm(int(timeout) + 1)
            lib = ctypes.CDLL(libpath)
            held = skipped = 0
            out = None
            for k in range(len(envs) + n):
                env = envs[k] if k < len(envs) else None
                rng = random.Random("%s/%s/%d" % (seed, it.id, k))
                c = NumC(lib, mod, rng, env, tol)
                sh.seek(0)
                sh.write(struct.pack("<q", k))
                c.shnote = sh
                res = run_k(c, it, sh, k)
                if res == "skip":
                    skipped += 1
                elif res is None:
                    held += 1
                else:
                    out = dict(label=res[0], msg=res[1], inputs=res[2], index=k)
                    break
                if time.time() - t0 > timeout:
                    break
            data = json.dumps(dict(found=out, held=held, skipped=skipped), default=str)
        except BaseException as e:
            import traceback
            data = json.dumps(dict(found=None, held=0, skipped=0, error=traceback.format_exc()[-1500:]))
        os.write(w, data.encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        o = json.loads(buf.decode())
        return o["found"], o
    sh.seek(0)
    k = struct.unpack("<q", sh.read(8))[0]
    ln = struct.unpack("<q", sh.read(8))[0]
    inp = sh.read(ln).decode() if 0 < ln < 60000 else "{}"
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    if sig == signal.SIGALRM and k > 3:
        # overall budget used up unless a single sample hangs
        last = json.loads(inp or "{}")
        if time.time() - t0 < timeout:
            return None, dict(held=k, skipped=0, note="time")
        return None, dict(held=k, skipped=0, note="time")
    return dict(label="execution", msg="the real code was ended by signal %d (%s)" % (sig, signal.Signals(sig).name if sig else st),
                inputs=json.loads(inp or "{}"), index=k), dict(held=k, skipped=0)


def run_k(c, it, sh, k):
    # inputs are noted before every call so that a crash can be attributed
    orig = c.call

    def call(name, *a, **kw):
        d = json.dumps(dict(c.inputs, __call__=name), default=str).encode()[:60000]
        sh.seek(0)
        sh.write(struct.pack("<qq", k, len(d)) + d)
        return orig(name, *a, **kw)
    c.call = call
    try:
        it.fn(c)
        for b in c.bases:
            b.check()
    except (Skip, ZeroDivisionError):
        return "skip"
    except Bad as b:
        return (b.label, b.msg, c.inputs)
    return None


def directed(decl, facts, rng, want=60, tries=6000, budget=4.0):
    """inputs that follow a given path (its branch facts hold)"""
    kinds = getattr(decl, "kinds", [])
    out = []
    roots = [f for f, op in list(decl.facts) + list(facts)]
    oplist = [op for f, op in list(decl.facts) + list(facts)]
    t0 = time.time()
    for _ in range(tries):
        if time.time() - t0 > budget or len(out) >= want:
            break
        env = gen(rng, kinds)
        if not roots:
            out.append(env); continue
        try:
            vals = X.evalf(roots, flat(env, kinds))
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            continue
        ok = True
        for v, op in zip(vals, oplist):
            if not {">=": v >= -1e-15, ">": v > 0, "<=": v <= 1e-15, "<": v < 0, "==": abs(v) < 1e-12, "!=": abs(v) > 1e-12}[op]:
                ok = False; break
        if ok:
            out.append(env)
    return out
