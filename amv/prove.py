"""Goal discharge: equality / inequality / tolerance goals over real expressions."""
import time
from fractions import Fraction
from . import expr as X, nf, smt


class Decl:
    """Declared variables of a contract: relations, ranges, bounds, definitions."""
    def __init__(self):
        self.rels = []       # (var, E-like builder poly) as (name, dict spec)
        self.ranges = {}     # angle name -> (lo,hi) in pi units
        self.nonneg = []
        self.pos = []
        self.bounds = {}
        self.lin = set()     # names whose size only scales the tolerance of small-angle goals
        self.defs = {}
        self.order = []
        self.facts = []      # (E, op)

    def copy(self):
        d = Decl()
        d.rels = list(self.rels); d.ranges = dict(self.ranges); d.nonneg = list(self.nonneg)
        d.pos = list(self.pos); d.bounds = dict(self.bounds); d.lin = set(self.lin); d.defs = dict(self.defs)
        d.order = list(self.order); d.facts = list(self.facts)
        return d

    # builders
    def var(self, name, pos=False, nonneg=False, bound=None, rng=None, lin=False):
        self.order.append(name)
        if lin:
            self.lin.add(name)
        if pos:
            self.pos.append(name)
        if nonneg:
            self.nonneg.append(name)
        if bound is None and rng is not None and rng[0] is not None and rng[1] is not None:
            bound = max(abs(rng[0]), abs(rng[1])) * Fraction(22, 7)     # 22/7 > pi
        if bound is not None:
            self.bounds[name] = Fraction(bound)
        if rng is not None:
            self.ranges[name] = rng
        return X.var(name)

    def vec(self, name, n, **kw):
        return [self.var("%s%d" % (name, i), **kw) for i in range(n)]

    def unit(self, name, n):
        """unit vector: last component's square eliminated"""
        v = self.vec(name, n, bound=1)
        self.rels.append(("%s%d" % (name, n - 1), X.ONE - sum((x * x for x in v[:-1]), X.ZERO)))
        return v

    def install(self, ctx):
        for n in self.order:
            ctx.v(n)
        for n in self.pos:
            ctx.pos.add(ctx.v(n))
        for n in self.nonneg:
            ctx.nonneg.add(ctx.v(n))
        ctx.lin = self.lin
        for n, b in self.bounds.items():
            ctx.bounds[ctx.v(n)] = b
        for n, e in self.rels:
            i = ctx.v(n)
            r = ctx.nf(e)
            assert not r.d
            ctx.relate(i, r.n)
            ctx.memo.clear()
        for n, (lo, hi) in self.ranges.items():
            i = ctx.v(n)
            if lo is not None and lo >= 0:
                ctx.nonneg.add(i)
            if lo is not None:
                ctx.sfacts.append((ctx.padd(ctx.mono(i), ctx.pscale(ctx.mono(ctx.pi), -Fraction(lo))), ">="))
            if hi is not None:
                ctx.sfacts.append((ctx.padd(ctx.pscale(ctx.mono(ctx.pi), Fraction(hi)), ctx.mono(i), -1), ">="))
        # register trig bases of ranged angles so atan2/acos can recognise them
        ctx.facts = list(self.facts) + ctx.facts

    def angle_range(self, akey):
        if akey[0] == "m" and len(akey) == 2 and akey[1][1] == 1:
            return self.ranges.get(akey[1][0])
        return None


class Fail(Exception):
    pass


MAXFORK = 6


def run_ctx(decl, facts, forks, fn, halves=None, small=None):
    """run fn(ctx) with restarts; forks: [(E-poly names) ...]"""
    halves = dict(halves or {})
    for _ in range(12):
        ctx = nf.Ctx(decl, facts, halves, small)
        # pre-create ranged angles
        try:
            for n in decl.ranges:
                if any(v is not None for v in decl.ranges[n]):
                    ctx.sincos(ctx.R(ctx.mono(ctx.v(n))))
            for mk, op in forks:
                p = {}
                for names, c in mk:
                    m = 0
                    for nme, e in names:
                        m |= e << (nf.SH * ctx.v(nme)) if not nme.startswith("r#") and not nme.startswith("ang#") else 0
                    p[m] = c
                ctx.forksign.append((p, op))
            ctx.pending = forks
            return fn(ctx)
        except nf.Restart:
            halves = dict(ctx.angleD)
            continue
    raise nf.Unsupported("too many restarts")


def _exportable(ctx, p):
    """a poly by names, usable in a fresh context (no generated atoms whose
    numbering could change is fine: numbering is deterministic)"""
    return tuple((tuple((ctx.names[i], e) for i, e in ctx.mexps(m)), c) for m, c in p.items())


class Forks:
    """case splits; since atom numbering is deterministic per (goal, forks)
    prefix we re-resolve fork polynomials lazily by name."""


def split(decl, facts, fn, halves=None, small=None, depth=0, forks=()):
    """fn(ctx)->bool.  Proves for all sign cases. returns (ok, info)"""
    hv = dict(halves or {})
    for _ in range(14):
        ctx = nf.Ctx(decl, facts, hv, small)
        ctx.lazyforks = list(forks)
        ctx.sign = _mksign(ctx)
        try:
            for n in decl.ranges:
                ctx.sincos(ctx.R(ctx.mono(ctx.v(n))))
            ok, info = fn(ctx)
            if ok:
                return True, info
            # dead case?
            try:
                materialize(ctx)
                if smt.infeasible(ctx):
                    return True, "infeasible"
            except (nf.NeedFork, nf.Unsupported, nf.TooBig):
                pass
            return False, info
        except nf.Restart:
            hv = dict(ctx.angleD)
            continue
        except nf.NeedFork as f:
            key = _exportable(ctx, f.poly)
            if depth >= MAXFORK:
                return False, "too many case splits on " + ctx.pshow(f.poly)
            i1 = None
            for op in (">=", "<="):
                fk = tuple(forks) + ((key, op),)
                # prune infeasible case
                ok, info = split(decl, facts, fn, hv, small, depth + 1, fk)
                if not ok:
                    return False, info
                i1 = info
            return True, i1
        except nf.DivZero:
            try:
                materialize(ctx)
                if smt.infeasible(ctx):
                    return True, "infeasible"
            except Exception:
                pass
            return False, "division by zero"
        except nf.TooBig:
            return False, "expression too large"
        except nf.Unsupported as u:
            return False, "unsupported: %s" % u
    return False, "too many restarts"


def materialize(ctx):
    done = set(ctx.forksign_names) if hasattr(ctx, "forksign_names") else set()
    for key, op in ctx.lazyforks:
        if (key, op) in done:
            continue
        if all(n in ctx.idx for names, c in key for n, e in names):
            p = {}
            for names, c in key:
                m = 0
                for n, e in names:
                    m |= e << (nf.SH * ctx.idx[n])
                p[m] = c
            ctx.forksign.append((p, op))
            done.add((key, op))
    ctx.forksign_names = done


def _mksign(ctx):
    base = nf.Ctx.sign

    def sign(p):
        materialize(ctx)
        return base(ctx, p)
    return sign


def prove_eq(decl, facts, lhs, rhs):
    d = X.sub(lhs, rhs)
    if d is X.ZERO:
        return True, "identical"

    def fn(ctx):
        r = ctx.nf(d)
        if not r.n:
            return True, "nf"
        eqs = [f for f in ctx.facts if f[1] == "=="]
        if eqs and len(r.n) < 300:
            if smt.prove(ctx, r.n, "=="):
                return True, "nf+z3"
        materialize(ctx)
        for g, o in smt.polyfacts(ctx):     # a factor that the facts confine to zero
            if o in (">=", "<=") and 1 < len(g) <= len(r.n):
                _, g = ctx.primitive(g)
                mc = ctx.moncontent(g)
                g = {m - mc: x for m, x in g.items()}
                if ctx.pdivexact(r.n, g) is not None and smt.prove(ctx, g, "=="):
                    return True, "nf+z3"
        return False, "residual numerator: " + ctx.pshow(r.n)
    return split(decl, facts, fn)


def prove_whole(decl, facts, e):
    """e is an integer: a polynomial with integer coefficients in integer unknowns"""
    def fn(ctx):
        r = ctx.nf(e)
        if r.d:
            return False, "not a polynomial: " + ctx.pshow(r.n)
        for m, c in r.n.items():
            if Fraction(c).denominator != 1 or any(i not in ctx.intv for i, _ in ctx.mexps(m)):
                return False, "not a whole number: " + ctx.pshow(r.n)
        return True, "nf"
    return split(decl, facts, fn)


def prove_any(decl, facts, alts, smallvars=None, tol=None):
    """in every sign case one of the alternatives (lists of (lhs, rhs)) holds"""
    ds = [[X.sub(a, b) for a, b in zip(A, B)] for A, B in alts]

    def fn(ctx):
        why = []
        if smallvars:
            for n, eps in smallvars.items():
                b = ctx.bounds.get(ctx.v(n))
                ctx.bounds[ctx.v(n)] = Fraction(eps) if b is None else min(b, Fraction(eps))
        mp = None
        for alt in ds:
            good = True
            worst = Fraction(0)
            for d in alt:
                r = ctx.nf(d)
                if not r.n:
                    continue
                w = "residual numerator: " + ctx.pshow(r.n)
                if smallvars:
                    mp, rsub = _expansions(ctx, smallvars)
                    r = rsub(r)
                    if not r.n:
                        continue
                    b = _rbound(ctx, r, True)
                    if b is not None and b[1] <= tol:
                        worst = max(worst, b[1])
                        continue
                    w = "difference bound %s: %s" % (float(b[1]) if b else None, ctx.pshow(r.n))
                good = False
                why.append(w)
                break
            if good:
                return True, "taylor" if smallvars else "nf"
        return False, "no alternative holds: " + " | ".join(why)[:500]
    return split(decl, facts, fn)


def prove_cmp(decl, facts, e, op):
    """e op 0"""
    def fn(ctx):
        r = ctx.nf(e)
        p = r.n
        if not p:
            return (op in (">=", "<=", "==")), "zero"
        q = ctx.quicksign(p) if not r.d else None
        if q == op or (q and q[0] == op[0] and op.endswith("=") and op != "=="):
            return True, "sign"
        for f, k in r.d:
            if k & 1:
                p = ctx.pmul(p, ctx.factors[f])
        materialize(ctx)
        k0 = next(iter(p))
        for g, o in smt.polyfacts(ctx):        # the goal is a fact, up to a factor
            if len(g) == len(p) and k0 in g:
                s = Fraction(p[k0]) / Fraction(g[k0])
                o2 = o if s > 0 else {">": "<", ">=": "<=", "<": ">", "<=": ">="}.get(o, o)
                if (o2 == op or o2 + "=" == op) and all(k in g and g[k] * s == v for k, v in p.items()):
                    return True, "fact"
        if len(p) < 400 and smt.prove(ctx, p, op):
            return True, "z3"
        return False, "cannot prove %s %s 0" % (ctx.pshow(p), op)
    return split(decl, facts, fn)


def prove_path_infeasible(decl, facts, timeout=None):
    def fn(ctx):
        materialize(ctx)
        return smt.infeasible(ctx, timeout), ""
    ok, info = split(decl, facts, fn)
    return ok


def _series(x, ctx, coefs, K):
    """sum coefs[k] x^k, x a Rat"""
    r = ctx.Rc(0)
    for c in reversed(coefs):
        r = ctx.radd(ctx.rmul(r, x), ctx.Rc(c))
    return r


def _expansions(ctx, smallvars, K=9):
    """Taylor expansions (with bounded remainder variables) of the generated
    atoms that depend on small variables"""
    mp = {}
    fact = [1]
    for k in range(1, K + 2):
        fact.append(fact[-1] * k)

    def rem(nm):
        i = ctx.v("%s#%d" % (nm, len(ctx.names)))
        ctx.bounds[i] = Fraction(1)
        return ctx.R(ctx.mono(i))

    def rpow(x, k):
        r = ctx.Rc(1)
        for _ in range(k):
            r = ctx.rmul(r, x)
        return r
    for key, D, (c, s) in list(ctx.anglelist):
        if key[0] != "m" or c.d or s.d or len(c.n) != 1 or len(s.n) != 1:
            continue
        ex = ctx.mexps(key[1])
        if not any(ctx.names[i] in smallvars for i, e in ex) or key in ctx.expat.get("derived", {}):
            continue
        x = ctx.rmul(ctx.R({key[1]: 1}), ctx.Rc(Fraction(1, D)))
        sc = [0 if k % 2 == 0 else Fraction((-1) ** (k // 2), fact[k]) for k in range(K)]
        cc = [0 if k % 2 else Fraction((-1) ** (k // 2), fact[k]) for k in range(K)]
        xk = ctx.rmul(rpow(x, K), ctx.Rc(Fraction(1, fact[K])))
        (ci,), (si,) = smt.pvars(ctx, c.n), smt.pvars(ctx, s.n)
        mp[si] = ctx.radd(_series(x, ctx, sc, K), ctx.rmul(xk, rem("rem")))
        mp[ci] = ctx.radd(_series(x, ctx, cc, K), ctx.rmul(xk, rem("rem")))
    small_ids = {ctx.v(n) for n in smallvars}

    def subst(p):
        out = ctx.Rc(0)
        for m, c in p.items():
            t = ctx.Rc(c)
            for i, e in ctx.mexps(m):
                if i in mp:
                    t = ctx.rmul(t, rpow(mp[i], e))
                else:
                    t = ctx.rmul(t, ctx.R(ctx.mono(i, e)) if False else rpow(ctx.R(ctx.mono(i)), e))
            out = ctx.radd(out, t)
        return out

    def rsub(r):
        o = subst(r.n)
        for f, k in r.d:
            o = ctx.rmul(o, ctx.rinv(rpow(subst(ctx.factors[f]), k)))
        return o
    # square roots of 1 + small
    for i, q in list(ctx.rootdefs):
        Q = subst(q)
        if Q.d:
            continue
        c0 = Fraction(Q.n.get(0, 0))
        x = X._isqrt_frac(c0) if c0 > 0 else None
        if x is None:
            continue
        dl = ctx.rmul(ctx.R({m: c for m, c in Q.n.items() if m}), ctx.Rc(1 / c0))
        b = _bound(ctx, dl.n)
        if b is None or b > Fraction(1, 4):
            continue
        # sqrt(1+d) = 1 + d/2 - d^2/8 + d^3/16 + R, |R| <= |d|^4/4 for |d|<=1/4
        ser = _series(dl, ctx, [1, Fraction(1, 2), Fraction(-1, 8), Fraction(1, 16)], 4)
        ser = ctx.radd(ser, ctx.rmul(ctx.rmul(rpow(dl, 4), ctx.Rc(Fraction(1, 4))), rem("rem")))
        mp[i] = ctx.rmul(ser, ctx.Rc(x))
    # angles atan2(y,x) with y/x small and x > 0
    for key, cs in list(ctx.expat.get("derived", {}).items()):
        ex = ctx.mexps(key[1])
        C, S = rsub(cs[0]), rsub(cs[1])
        cb = _rbound(ctx, C)
        if not cb or cb[0] <= 0:
            continue
        try:
            z = ctx.rmul(S, ctx.rinv(C))
        except Exception:
            continue
        zb = _rbound(ctx, z)
        if zb is None or zb[1] > Fraction(1, 4):
            continue
        ser = _series(z, ctx, [0, 1, 0, Fraction(-1, 3), 0, Fraction(1, 5)], 6)
        ser = ctx.radd(ser, ctx.rmul(ctx.rmul(rpow(z, 7), ctx.Rc(Fraction(1, 7))), rem("rem")))
        mp[ex[0][0]] = ser
    return mp, rsub


def _rbound(ctx, r, lin=False):
    """(lower bound of value if positive constant dominates, upper bound of |value|)"""
    ub = _bound(ctx, r.n, lin)
    if ub is None:
        return None
    c0 = Fraction(r.n.get(0, 0))
    rest = _bound(ctx, {m: c for m, c in r.n.items() if m}, lin)
    lo = c0 - rest
    dl = du = Fraction(1)
    for f, k in r.d:
        F = ctx.factors[f]
        f0 = Fraction(F.get(0, 0))
        rs = _bound(ctx, {m: c for m, c in F.items() if m})
        if rs is None or abs(f0) - rs <= 0:
            return None
        dl *= (abs(f0) - rs) ** k
        du *= (abs(f0) + rs) ** k
        if f0 < 0 and k & 1:
            lo = -1
    return (lo / du if lo > 0 else lo, ub / dl)


def prove_small(decl, facts, smallvars, lhs, rhs, tol):
    """|lhs-rhs| <= tol where smallvars: dict var name -> bound eps; sin, cos,
    square roots and arctangents of these are expanded to Taylor polynomials
    with bounded remainders."""
    d = X.sub(lhs, rhs)

    def fn(ctx):
        for n, eps in smallvars.items():
            b = ctx.bounds.get(ctx.v(n))
            ctx.bounds[ctx.v(n)] = Fraction(eps) if b is None else min(b, Fraction(eps))
        r = ctx.nf(d)
        if not r.n:
            return True, "nf"
        mp, rsub = _expansions(ctx, smallvars)
        r = rsub(r)
        if not r.n:
            return True, "nf"
        b = _rbound(ctx, r, True)
        if b is None:
            return False, "unbounded: " + ctx.pshow(r.n)
        if b[1] <= tol:
            return True, "taylor %.2g" % float(b[1])
        return False, "difference bound %.3g exceeds %.3g: %s" % (float(b[1]), float(tol), ctx.pshow(r.n))
    return split(decl, facts, fn)


def _bound(ctx, p, lin=False):
    """upper bound of |p|.  With lin, variables declared lin (and exponentials)
    may occur to the first power and count as 1: the bound is then relative,
    |p| <= bound * prod(max(1,|x|))."""
    t = Fraction(0)
    for m, c in p.items():
        k = abs(Fraction(c))
        for i, e in ctx.mexps(m):
            b = ctx.bounds.get(i)
            if i == ctx.pi:
                b = Fraction(22, 7)
            if b is None and lin and e == 1 and islin(ctx, i):
                b = Fraction(1)
            if b is None:
                return None
            k *= b ** e
        t += k
    return t


def islin(ctx, i):
    n = ctx.names[i]
    return n in ctx.lin or n.startswith("exp#")
