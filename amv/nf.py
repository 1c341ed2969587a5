"""Normal forms for real expressions: rational functions over atoms modulo
triangular relations (v^2 -> p).  An equality goal is discharged when the
numerator of lhs-rhs reduces to the zero polynomial; the decision is exact
rational arithmetic.  Case splits on signs are requested through NeedFork."""
from fractions import Fraction
import math
from . import expr as X
from .expr import E

SH = 10
FM = (1 << SH) - 1


class NeedFork(Exception):
    """the proof needs to know the sign of poly/expr"""
    def __init__(self, poly):
        self.poly = poly


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class DivZero(Exception):
    pass


MAXTERMS = 60000


def fr(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=()):
        self.n = n          # poly dict
        self.d = d          # tuple of (factor index, exponent), sorted


class Ctx:
    def __init__(self, decl=None, facts=(), halves=None, small=None, stats=None):
        """decl: Decl (variables, relations); facts: list of (E, op) meaning
        E op 0 with op in '>','>=','==','!='."""
        self.names = []          # var index -> name
        self.idx = {}
        self.rel = {}            # idx -> poly for v^2
        self.relmask = 0
        self.relpow = {}
        self.isroot = set()      # sqrt atoms
        self.nonneg = set()
        self.pos = set()
        self.intv = set()
        self.factors = []        # list of polys
        self.fkey = {}
        self.memo = {}
        self.roots = {}
        self.angles = {}         # key -> dict(D, s, c)
        self.angleD = dict(halves or {})
        self.expat = {}
        self.pairs = {}          # named angle var -> (s,c)
        self.sfacts = []         # polynomial facts for z3: (poly, op)
        self.forksign = []       # list of (poly, op) assumed by case split
        self.signcache = {}
        self.decl = decl
        self.facts = list(facts)
        self.small = small or {}
        self.lin = set()
        self.bounds = {}         # idx -> bound of |v|
        self.divs = []           # polys divided by
        self.rootdefs = []       # (idx, poly)
        self.z3calls = 0
        self.anglelist = []
        self.pi = self.v("pi")
        self.pos.add(self.pi)
        if decl:
            decl.install(self)
        self._rel_done = True

    # -- variables -------------------------------------------------------
    def v(self, name):
        i = self.idx.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.idx[name] = i
        return i

    def relate(self, i, poly):
        self.rel[i] = poly
        self.relmask |= ((FM & ~1) << (SH * i))
        self.relpow[i] = {0: {0: 1}, 1: poly}

    def mono(self, i):
        return {1 << (SH * i): 1}

    # -- polys -----------------------------------------------------------
    def padd(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + k * c
            if s:
                r[m] = s
            elif m in r:
                del r[m]
        return r

    def pscale(self, a, k):
        if k == 0:
            return {}
        if k == 1:
            return a
        return {m: fr(c * k) for m, c in a.items()}

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and 0 in a:
            return self.pscale(b, a[0])
        if len(b) == 1 and 0 in b:
            return self.pscale(a, b[0])
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 4000000:
            raise TooBig()
        r = {}
        get = r.get
        bi = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r)

    def rpow(self, i, k):
        t = self.relpow[i]
        if k not in t:
            t[k] = self.pmul(self.rpow(i, k - 1), self.rel[i])
        return t[k]

    def reduce(self, p):
        mask = self.relmask
        bad = [m for m in p if m & mask]
        if not bad:
            if len(p) > MAXTERMS:
                raise TooBig()
            return p
        p = dict(p)
        guard = 0
        while bad:
            guard += 1
            if len(p) > MAXTERMS or guard > 400:
                raise TooBig()
            nb = []
            # group by (var, power): process the highest variable first
            for m in bad:
                c = p.pop(m, 0)
                if not c:
                    continue
                h = m & mask
                i = (h.bit_length() - 1) // SH
                e = (m >> (SH * i)) & FM
                base = m - ((e - (e & 1)) << (SH * i))
                for m2, c2 in self.rpow(i, e // 2).items():
                    mm = base + m2
                    s = p.get(mm, 0) + c * c2
                    if s:
                        p[mm] = s
                        if mm & mask:
                            nb.append(mm)
                    elif mm in p:
                        del p[mm]
            bad = [m for m in set(nb) if m in p]
        return {m: fr(c) for m, c in p.items()}

    def pdivexact(self, a, b):
        """exact division in the polynomial ring, None when not divisible."""
        if not a:
            return {}
        lb = max(b)
        cb = b[lb]
        r = dict(a)
        q = {}
        n = 0
        while r:
            n += 1
            if n > 3000:
                return None
            la = max(r)
            if not self.mdivides(lb, la):
                return None
            t = la - lb
            c = Fraction(r[la]) / cb
            c = fr(c)
            q[t] = c
            for m, cc in b.items():
                mm = m + t
                s = r.get(mm, 0) - c * cc
                if s:
                    r[mm] = s
                else:
                    r.pop(mm, None)
        return q

    def mdivides(self, b, a):
        while b:
            i = (b.bit_length() - 1) // SH
            e = b >> (SH * i)
            if ((a >> (SH * i)) & FM) < e:
                return False
            b -= e << (SH * i)
        return True

    def primitive(self, p):
        """(content Fraction, primitive integer poly with positive leading coeff)"""
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in p.values():
            g = math.gcd(g, int(c * den))
        if p[max(p)] < 0:
            g = -g
        return Fraction(g, den), {m: int(c * den) // g for m, c in p.items()}

    def moncontent(self, p):
        it = iter(p)
        m = next(it)
        for x in it:
            if not m:
                break
            r = 0
            t = m
            while t:
                i = (t.bit_length() - 1) // SH
                e = t >> (SH * i)
                t -= e << (SH * i)
                e2 = (x >> (SH * i)) & FM
                if e2 < e:
                    e = e2
                if e:
                    r |= e << (SH * i)
            m = r
        return m

    def mexps(self, m):
        out = []
        while m:
            i = (m.bit_length() - 1) // SH
            e = m >> (SH * i)
            out.append((i, e))
            m -= e << (SH * i)
        return out

    def factor(self, p):
        """intern a primitive poly as denominator factor"""
        k = frozenset(p.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            self.fkey[k] = f
        return f

    # -- rationals -------------------------------------------------------
    def R(self, p): return Rat(p, ())
    def Rc(self, c):
        c = fr(Fraction(c))
        return Rat({0: c} if c else {}, ())

    def rneg(self, a): return Rat(self.pscale(a.n, -1), a.d)

    def fpow(self, d):
        r = {0: 1}
        for f, e in d:
            for _ in range(e):
                r = self.pmul(r, self.factors[f])
        return r

    def radd(self, a, b, k=1):
        if a.d == b.d:
            n = self.padd(a.n, b.n, k)
            return self.cancel(Rat(n, a.d if n else ()))
        da, db = dict(a.d), dict(b.d)
        L = {}
        for f in set(da) | set(db):
            L[f] = max(da.get(f, 0), db.get(f, 0))
        ma = [(f, L[f] - da.get(f, 0)) for f in L if L[f] > da.get(f, 0)]
        mb = [(f, L[f] - db.get(f, 0)) for f in L if L[f] > db.get(f, 0)]
        n = self.padd(self.pmul(a.n, self.fpow(ma)), self.pmul(b.n, self.fpow(mb)), k)
        return self.cancel(Rat(n, tuple(sorted(L.items())) if n else ()))

    def rmul(self, a, b):
        if not a.n or not b.n:
            return Rat({}, ())
        # try cancelling across before multiplying
        a2, b2 = a, b
        if b.d:
            a2n, bd = self._cancel(a.n, b.d)
        else:
            a2n, bd = a.n, b.d
        if a.d:
            b2n, ad = self._cancel(b.n, a.d)
        else:
            b2n, ad = b.n, a.d
        d = dict(ad)
        for f, e in bd:
            d[f] = d.get(f, 0) + e
        n = self.pmul(a2n, b2n)
        return self.cancel(Rat(n, tuple(sorted(d.items())) if n else ()))

    def _cancel(self, n, d):
        if not d or not n:
            return n, d
        out = []
        for f, e in d:
            F = self.factors[f]
            while e:
                if len(F) == 1:
                    m = next(iter(F))
                    if all(self.mdivides(m, x) for x in n):
                        n = {x - m: c for x, c in n.items()}
                        e -= 1
                        continue
                    break
                if len(n) <= 1500 and len(n) >= len(F):
                    q = self.pdivexact(n, F)
                    if q is not None:
                        n = q
                        e -= 1
                        continue
                break
            if e:
                out.append((f, e))
        return n, tuple(out)

    def cancel(self, a):
        if not a.d:
            return a
        if not a.n:
            return Rat({}, ())
        n, d = self._cancel(a.n, a.d)
        return Rat(n, d)

    def rinv(self, a):
        if not a.n:
            raise DivZero()
        num = self.fpow(a.d)
        return self.rmul(Rat(num, ()), self.pinv(a.n))

    def pinv(self, p):
        c, p = self.primitive(p)
        num = {0: fr(1 / c)}
        den = {}
        mc = self.moncontent(p)
        if mc:
            p = {m - mc: k for m, k in p.items()}
            res = None
            for i, e in self.mexps(mc):
                if i in self.isroot:
                    # 1/r = r/rad
                    num = self.pmul(num, self.mono(i))
                    x = self.pinv(self.rel[i])
                    num = self.pmul(num, x.n)
                    for f, k in x.d:
                        den[f] = den.get(f, 0) + k
                    if e != 1:
                        raise Unsupported("root power")
                else:
                    f = self.factor(self.mono(i))
                    den[f] = den.get(f, 0) + e
        if p != {0: 1} and p != {0: -1}:
            # split off known factors
            for f, F in enumerate(list(self.factors)):
                if len(F) > 1:
                    while len(F) <= len(p) and p != {0: 1}:
                        q = self.pdivexact(p, F)
                        if q is None:
                            break
                        den[f] = den.get(f, 0) + 1
                        p = q
            if len(p) == 1 and 0 in p:
                num = self.pscale(num, Fraction(1) / p[0])
            else:
                c, p = self.primitive(p)
                num = self.pscale(num, fr(1 / c))
                # square-free split
                s = self.psqrt(p)
                if s is not None:
                    f = self.factor(s) if s[max(s)] > 0 else self.factor(self.pscale(s, -1))
                    den[f] = den.get(f, 0) + 2
                else:
                    f = self.factor(p)
                    den[f] = den.get(f, 0) + 1
        elif p == {0: -1}:
            num = self.pscale(num, -1)
        return Rat(num, tuple(sorted(den.items())))

    def psqrt(self, p):
        """polynomial square root in the free polynomial ring or None"""
        if not p:
            return {}
        lm = max(p)
        half = 0
        for i, e in self.mexps(lm):
            if e & 1:
                return None
            half |= (e // 2) << (SH * i)
        c = X._isqrt_frac(Fraction(p[lm]))
        if c is None:
            return None
        r = {half: fr(c)}
        rem = dict(p)
        del rem[lm]
        n = 0
        while rem:
            n += 1
            if n > 60:
                return None
            m = max(rem)
            if not self.mdivides(half, m):
                return None
            t = m - half
            k = fr(Fraction(rem[m]) / (2 * c))
            if t >= half or t in r:
                return None
            # (r + k t)^2 - r^2 = 2 k t r + k^2 t^2
            for m2, c2 in r.items():
                mm = m2 + t
                s = rem.get(mm, 0) - 2 * k * c2
                if s:
                    rem[mm] = s
                else:
                    rem.pop(mm, None)
            mm = 2 * t
            s = rem.get(mm, 0) - k * k
            if s:
                rem[mm] = s
            else:
                rem.pop(mm, None)
            r[t] = k
        return {m: fr(c) for m, c in r.items()}

    # -- signs -----------------------------------------------------------
    def quicksign(self, p):
        """'>','>=','<','<=','0' or None"""
        if not p:
            return "0"
        sg = 0
        strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1
            st = True
            for i, e in self.mexps(m):
                if e & 1:
                    if i in self.pos:
                        pass
                    elif i in self.nonneg:
                        st = False
                    else:
                        return None
                else:
                    if i not in self.pos:
                        st = False
            if sg == 0:
                sg = s
            elif sg != s:
                return None
            strict = strict or st
        if sg > 0:
            return ">" if strict else ">="
        return "<" if strict else "<="

    def sign(self, p):
        """sign of polynomial under the facts: returns '>=' / '<=' (weak) or
        raises NeedFork"""
        q = self.quicksign(p)
        if q is None:
            # strip monomial content of known-sign variables
            c, pp = self.primitive(p)
            mc = self.moncontent(pp)
            sg = 1 if c > 0 else -1
            pp2 = pp
            if mc:
                for i, e in self.mexps(mc):
                    if e % 2 == 0 or i in self.nonneg or i in self.pos:
                        pp2 = {m - (e << (SH * i)): k for m, k in pp2.items()}
                    elif e > 1:
                        pp2 = {m - ((e - 1) << (SH * i)): k for m, k in pp2.items()}
            k = frozenset(pp2.items())
            if k in self.signcache:
                q = self.signcache[k]
            else:
                q = self.quicksign(pp2)
                if q is None:
                    for (fp, op) in self.forksign:
                        if fp == pp2:
                            q = op
                        elif self.pscale(fp, -1) == pp2:
                            q = {">=": "<=", "<=": ">="}[op]
                if q is None:
                    q = self.zsign(pp2)
                if q is None:
                    raise NeedFork(pp2)
                self.signcache[k] = q
            if q == "0":
                return ">="
            if sg < 0:
                q = {">": "<", ">=": "<=", "<": ">", "<=": ">="}[q]
        if q == "0":
            return ">="
        return ">=" if q[0] == ">" else "<="

    def zsign(self, p):
        from . import smt
        if len(p) > 60:
            return None
        r = smt.prove_sign(self, p)
        return r

    def rabs(self, a):
        """|a| for a Rat"""
        s = self.sign(a.n) if a.n else ">="
        n = a.n if s == ">=" else self.pscale(a.n, -1)
        neg = False
        for f, e in a.d:
            if e & 1:
                if self.sign(self.factors[f]) == "<=":
                    neg = not neg
        return Rat(self.pscale(n, -1) if neg else n, a.d)

    def rsign(self, a):
        """'>=' or '<=' """
        if not a.n:
            return ">="
        s = 1 if self.sign(a.n) == ">=" else -1
        for f, e in a.d:
            if e & 1 and self.sign(self.factors[f]) == "<=":
                s = -s
        return ">=" if s > 0 else "<="

    # -- sqrt ------------------------------------------------------------
    def rsqrt(self, a):
        if not a.n:
            return a
        n = a.n
        outd = []
        for f, e in a.d:
            if e & 1:
                n = self.pmul(n, self.factors[f])
                e += 1
            outd.append((f, e // 2))
        r = self.psq(n)
        den = Rat({0: 1}, tuple(sorted(outd)))
        if outd:
            den = self.rabs(den)
        return self.rmul(r, den)

    def psq(self, p):
        """sqrt of a (nonnegative) poly, as Rat"""
        c, q = self.primitive(p)
        if c < 0:
            c, q = -c, self.pscale(q, -1)
        # rational content
        k = c.numerator * c.denominator
        s, t = sqsplit(k)
        coef = Fraction(s, c.denominator)      # sqrt(c) = coef*sqrt(t)
        q = self.pscale(q, t)
        s = self.psqrt(q)
        if s is not None:
            return self.rabs(self.R(self.pscale(s, fr(coef))))
        # even monomial content
        mc = self.moncontent(q)
        outer = {0: 1}
        if mc:
            ev = 0
            for i, e in self.mexps(mc):
                ev |= (e // 2) << (SH * i)
            if ev:
                q = {m - 2 * ev: cc for m, cc in q.items()}
                outer = {ev: 1}
        # relation-aware: radicand divisible by p_v where v^2 = p_v
        changed = True
        nit = 0
        while changed and nit < 8:
            changed = False
            nit += 1
            for i, pv in self.rel.items():
                if i in self.isroot or len(pv) < 2:
                    continue
                qq = self.pdivexact(q, pv)
                if qq is not None:
                    outer = self.pmul(outer, self.mono(i))
                    q = qq
                    changed = True
                    break
        if len(q) == 1 and 0 in q:
            x = X._isqrt_frac(Fraction(q[0]))
            if x is not None:
                return self.rabs(self.R(self.pscale(outer, fr(coef * x))))
        s = self.psqrt(q)
        if s is not None:
            return self.rabs(self.R(self.pscale(self.pmul(outer, s), fr(coef))))
        s = self.square_mod(q)
        if s is not None:
            return self.rabs(self.R(self.pscale(self.pmul(outer, s), fr(coef))))
        c2, q2 = self.primitive(q)
        if c2 < 0:
            c2, q2 = -c2, self.pscale(q2, -1)
        kk = c2.numerator * c2.denominator
        s2, t2 = sqsplit(kk)
        coef2 = Fraction(s2, c2.denominator)
        q2 = self.pscale(q2, t2)
        at = self.rootatom(q2)
        o = self.rabs(self.R(outer))
        return self.rmul(self.R(self.pscale(self.mono(at), fr(coef * coef2))), o)

    def square_mod(self, q):
        """try to see q as a perfect square modulo one relation v^2 = p: q may
        be a square once p's lowest square variable is re-expressed."""
        for i, pv in self.rel.items():
            if i in self.isroot:
                continue
            # q + k*(v^2 - pv) for small candidate k matching the constant term
            c0 = q.get(0)
            p0 = pv.get(0)
            cands = set()
            if p0 and c0:
                cands.add(Fraction(c0) / p0)
            for m, c in pv.items():
                if m in q:
                    cands.add(Fraction(q[m]) / c)
            for k in cands:
                t = dict(q)
                for m, c in pv.items():
                    s = t.get(m, 0) - k * c
                    if s:
                        t[m] = fr(s)
                    else:
                        t.pop(m, None)
                m = 2 << (SH * i)
                t[m] = fr(t.get(m, 0) + k)
                if not t[m]:
                    del t[m]
                s = self.psqrt(t) if t else None
                if s is not None:
                    return self.reduce(s)
        return None

    def rootatom(self, q):
        k = frozenset(q.items())
        i = self.roots.get(k)
        if i is None:
            i = self.v("r#%d" % len(self.roots))
            self.roots[k] = i
            self.relate(i, q)
            self.isroot.add(i)
            self.nonneg.add(i)
            if self.quicksign(q) == ">":
                self.pos.add(i)
            self.rootdefs.append((i, q))
        return i

    # -- main ------------------------------------------------------------
    def nf(self, e):
        memo = self.memo
        for n in X.topo([e]):
            if n.id in memo:
                continue
            memo[n.id] = self.nf1(n)
        return memo[e.id]

    def nf1(self, n):
        a = n.args
        m = self.memo
        op = n.op
        if op == "const":
            return self.Rc(a[0])
        if op == "pi":
            return self.R(self.mono(self.pi))
        if op == "var":
            d = self.decl.defs.get(a[0]) if self.decl else None
            if d is not None:
                return self.nf(d)
            return self.R(self.mono(self.v(a[0])))
        if op == "add":
            return self.radd(m[a[0].id], m[a[1].id])
        if op == "neg":
            return self.rneg(m[a[0].id])
        if op == "mul":
            return self.rmul(m[a[0].id], m[a[1].id])
        if op == "div":
            d = m[a[1].id]
            if d.n and not (len(d.n) == 1 and 0 in d.n):
                self.divs.append(d.n)
            return self.rmul(m[a[0].id], self.rinv(d))
        if op == "sqrt":
            return self.rsqrt(m[a[0].id])
        if op in ("sin", "cos"):
            C, S = self.sincos(m[a[0].id])
            return S if op == "sin" else C
        if op == "atan2":
            return self.atan2(m[a[0].id], m[a[1].id])
        if op == "acos":
            return self.acos(m[a[0].id])
        if op == "asin":
            return self.asin(m[a[0].id])
        if op == "exp":
            return self.exp(m[a[0].id])
        if op == "log":
            return self.log(m[a[0].id])
        if op == "wrap":
            x, y = m[a[1].id], m[a[2].id]
            k = self.v("int#%s#%s" % (a[0], n.id))
            self.intv.add(k)
            # x - k*y
            return self.radd(x, self.rmul(self.R(self.mono(k)), y), -1)
        if op == "uf":
            key = ("uf", a[0]) + tuple(self.rkey(m[x.id]) for x in a[1:])
            i = self.v(repr(hash(key)) + str(a[0]) if False else "uf#%d" % self.intern(key))
            return self.R(self.mono(i))
        raise Unsupported(op)

    def intern(self, key):
        t = self.expat.setdefault("keys", {})
        return t.setdefault(key, len(t))

    def rkey(self, r):
        n, d = r.n, r.d
        return (frozenset(n.items()), d)

    # -- angles ----------------------------------------------------------
    def cmulp(self, a, b):
        (c1, s1), (c2, s2) = a, b
        return (self.radd(self.rmul(c1, c2), self.rmul(s1, s2), -1),
                self.radd(self.rmul(s1, c2), self.rmul(c1, s2)))

    def cpow(self, a, k):
        if k < 0:
            a = (a[0], self.rneg(a[1]))
            k = -k
        r = (self.Rc(1), self.Rc(0))
        while k:
            if k & 1:
                r = self.cmulp(r, a)
            a = self.cmulp(a, a) if k > 1 else a
            k >>= 1
        return r

    def sincos(self, arg):
        """(cos, sin) of a Rat"""
        if not arg.n:
            return (self.Rc(1), self.Rc(0))
        res = (self.Rc(1), self.Rc(0))
        for key, coef in self.split_angle(arg):
            res = self.cmulp(res, self.angle_cs(key, coef))
        return res

    def split_angle(self, arg):
        if arg.d:
            # non-polynomial angle: one atom, canonical up to rational content
            c, p = self.primitive(arg.n)
            return [(("r", frozenset(p.items()), arg.d), c)]
        out = []
        for mth, c in arg.n.items():
            out.append((("m", mth), Fraction(c)))
        return out

    def angle_cs(self, key, coef):
        if key[0] == "m":
            ex = self.mexps(key[1])
            if ex == [(self.pi, 1)]:
                return self.pi_cs(coef)
            ints = [i for i, e in ex if i in self.intv]
            if ints:
                if len(ex) == len(ints) + 1 and (self.pi, 1) in ex and all(e == 1 for i, e in ex) and coef.denominator == 1 and coef.numerator % 2 == 0:
                    return (self.Rc(1), self.Rc(0))
                raise Unsupported("integer angle")
            if key[1] == 0:
                pass
        D = self.angleD.get(self.akey(key), 1)
        k = coef * D
        if k.denominator != 1:
            nd = D * k.denominator
            self.angleD[self.akey(key)] = nd
            raise Restart()
        return self.cpow(self.angle_base(key, D), int(k))

    def akey(self, key):
        # stable between restarts: by names
        if key[0] == "m":
            return ("m",) + tuple(sorted((self.names[i], e) for i, e in self.mexps(key[1])))
        return ("r", tuple(sorted((tuple((self.names[i], e) for i, e in self.mexps(m)), c) for m, c in key[1])))

    def pi_cs(self, coef):
        coef = coef % 2
        if coef.denominator == 1:
            return (self.Rc(1 if coef == 0 else -1), self.Rc(0))
        h = coef * 2
        if h.denominator == 1:
            return (self.Rc(0), self.Rc(1 if h == 1 else -1))
        q = {2: 0}.get(0)
        tab = {4: lambda: (self.psq({0: Fraction(1, 2)}), self.psq({0: Fraction(1, 2)})),
               3: lambda: (self.Rc(Fraction(1, 2)), self.psq({0: Fraction(3, 4)})),
               6: lambda: (self.psq({0: Fraction(3, 4)}), self.Rc(Fraction(1, 2)))}
        if coef.denominator in tab:
            b = tab[coef.denominator]()
            return self.cpow(b, coef.numerator)
        # generic constant angle: an atom
        D = coef.denominator
        return self.cpow(self.angle_base(("m", 1 << (SH * self.pi)), D), coef.numerator)

    def angle_base(self, key, D):
        """(cos,sin) of angle/D"""
        kk = (key, D)
        if kk in self.angles:
            return self.angles[kk]
        der = self.expat.get("derived", {}).get(key)
        if der is not None:
            # derived angle with known cos/sin Rats, range (-pi,pi]
            cs = der
            d = D
            while d > 1:
                if d % 2:
                    raise Unsupported("angle division")
                d //= 2
                # cos(h) = sqrt((1+c)/2) >= 0, sin(h) = s/(2 cos h)
                c, s = cs
                ch = self.rsqrt(self.rmul(self.radd(self.Rc(1), c), self.Rc(Fraction(1, 2))))
                if not ch.n:
                    raise Unsupported("half angle of pi")
                sh = self.rmul(s, self.rinv(self.rmul(self.Rc(2), ch)))
                cs = (ch, sh)
            self.angles[kk] = cs
            self.anglelist.append((key, D, cs))
            return cs
        nm = self.akey(key)
        sm = self.small.get(nm) if self.small else None
        if sm:
            return self.taylor_base(key, D, sm)
        tag = repr(nm) + "/%d" % D
        s = self.v("sin[%s]" % tag)
        c = self.v("cos[%s]" % tag)
        # c^2 -> 1-s^2
        self.relate(c, {0: 1, 2 << (SH * s): -1})
        self.bounds[s] = self.bounds[c] = Fraction(1)
        rng = self.decl.angle_range(nm) if self.decl else None
        if rng:
            lo, hi = Fraction(rng[0]) / D, Fraction(rng[1]) / D     # in units of pi
            if lo >= 0 and hi <= 1:
                self.nonneg.add(s)
            if lo >= Fraction(-1, 2) and hi <= Fraction(1, 2):
                self.nonneg.add(c)
            if lo >= -1 and hi <= 0:
                self.sfacts.append(({1 << (SH * s): -1}, ">="))
        cs = (self.R(self.mono(c)), self.R(self.mono(s)))
        self.angles[kk] = cs
        self.anglelist.append((key, D, cs))
        return cs

    def taylor_base(self, key, D, K):
        """replace sin/cos of a small angle by Taylor polynomial + remainder"""
        kk = (key, D)
        x = self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(1, D)))
        sn, cn = self.Rc(0), self.Rc(0)
        p = self.Rc(1)
        f = 1
        for k in range(K):
            t = self.rmul(p, self.Rc(Fraction(1, f)))
            if k % 4 == 0:
                cn = self.radd(cn, t)
            elif k % 4 == 1:
                sn = self.radd(sn, t)
            elif k % 4 == 2:
                cn = self.radd(cn, t, -1)
            else:
                sn = self.radd(sn, t, -1)
            p = self.rmul(p, x)
            f *= (k + 1)
        # p = x^K, f = K!
        rem = self.rmul(p, self.Rc(Fraction(1, f)))
        r1 = self.v("rem1#%d" % len(self.names))
        r2 = self.v("rem2#%d" % len(self.names))
        self.bounds[r1] = self.bounds[r2] = Fraction(1)
        sn = self.radd(sn, self.rmul(rem, self.R(self.mono(r1))))
        cn = self.radd(cn, self.rmul(rem, self.R(self.mono(r2))))
        self.angles[kk] = (cn, sn)
        return self.angles[kk]

    def derived_angle(self, cs, tag, lo, hi):
        """a fresh angle variable whose cos/sin are given Rats; lo,hi range in pi units"""
        key0 = (tag, self.rkey(cs[0]), self.rkey(cs[1]))
        i = self.v("ang#%d" % self.intern(key0))
        key = ("m", 1 << (SH * i))
        self.expat.setdefault("derived", {})[key] = cs
        if lo >= 0:
            self.nonneg.add(i)
        # lo*pi <= a <= hi*pi
        self.sfacts.append((self.padd(self.mono(i), self.pscale(self.mono(self.pi), Fraction(-lo))), ">="))
        self.sfacts.append((self.padd(self.pscale(self.mono(self.pi), Fraction(hi)), self.mono(i), -1), ">="))
        self.bounds[i] = Fraction(22, 7)
        return self.R(self.mono(i))

    def atan2(self, y, x):
        if not y.n:
            # y == 0: 0 or pi
            s = self.rsign(x)
            return self.Rc(0) if s == ">=" else self.R(self.mono(self.pi))
        if not x.n:
            s = self.rsign(y)
            return self.R(self.pscale(self.mono(self.pi), Fraction(1 if s == ">=" else -1, 2)))
        # known polar form?
        for key, D, (c, s) in list(self.anglelist):
            if key[0] != "m":
                continue
            nm = self.akey(key)
            rng = self.decl.angle_range(nm) if self.decl else None
            if key in self.expat.get("derived", {}):
                rng = (-1, 1)
            if not rng:
                continue
            for mult in range(1, 2 * D + 1):
                lo, hi = Fraction(rng[0]) * mult / D, Fraction(rng[1]) * mult / D
                cm, sm = self.cpow((c, s), mult)
                det = self.radd(self.rmul(y, cm), self.rmul(x, sm), -1)
                if det.n:
                    if lo >= Fraction(-1, 2) and hi <= 1:
                        # (x,y) = rho (sm,cm): the complement pi/2 - alpha
                        det2 = self.radd(self.rmul(y, sm), self.rmul(x, cm), -1)
                        if not det2.n:
                            rho = self.radd(self.rmul(x, sm), self.rmul(y, cm))
                            if self.rsign(rho) == ">=":
                                alpha = self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(mult, D)))
                                return self.radd(self.R(self.pscale(self.mono(self.pi), Fraction(1, 2))), alpha, -1)
                    if lo < 0 or hi > 1:
                        continue
                    det = self.radd(self.rmul(y, cm), self.rmul(x, sm))
                    if det.n:
                        continue
                    # (x,y) = rho (cm,-sm)
                    rho = self.radd(self.rmul(x, cm), self.rmul(y, sm), -1)
                    sg = self.rsign(rho)
                    alpha = self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(mult, D)))
                    if sg == ">=":
                        return self.rneg(alpha)
                    return self.radd(self.R(self.mono(self.pi)), alpha, -1)
                # (x,y) = rho (cm,sm), rho = x*cm + y*sm
                rho = self.radd(self.rmul(x, cm), self.rmul(y, sm))
                sg = self.rsign(rho)
                alpha = self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(mult, D)))
                pi = self.R(self.mono(self.pi))
                if sg == ">=":
                    if -1 <= lo and hi <= 1:
                        return alpha
                else:
                    if lo >= 0 and hi <= 1:
                        return self.radd(alpha, pi, -1)
        rho = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
        ri = self.rinv(rho)
        cs = (self.rmul(x, ri), self.rmul(y, ri))
        lo, hi = -1, 1
        try:
            if self.quick_nonneg(y):
                lo = 0
            if self.quick_nonneg(x):
                lo, hi = max(lo, Fraction(-1, 2)), Fraction(1, 2)
        except NeedFork:
            pass
        return self.derived_angle(cs, "atan2", lo, hi)

    def quick_nonneg(self, r):
        q = self.quicksign(r.n)
        if q not in (">", ">=", "0"):
            return False
        for f, e in r.d:
            if e & 1 and self.quicksign(self.factors[f]) not in (">", ">="):
                return False
        return True

    def acos(self, x):
        for key, D, (c, s) in list(self.anglelist):
            if key[0] != "m":
                continue
            rng = self.decl.angle_range(self.akey(key)) if self.decl else None
            if not rng:
                continue
            for mult in range(1, D + 1):
                lo, hi = Fraction(rng[0]) * mult / D, Fraction(rng[1]) * mult / D
                cm, sm = self.cpow((c, s), mult)
                d = self.radd(x, cm, -1)
                if not d.n:
                    a = self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(mult, D)))
                    if lo >= 0 and hi <= 1:
                        return a
                    if lo >= -1 and hi <= 1:
                        return self.rabs(a)
        s = self.rsqrt(self.radd(self.Rc(1), self.rmul(x, x), -1))
        return self.derived_angle((x, s), "acos", 0, 1)

    def asin(self, x):
        for key, D, (c, s) in list(self.anglelist):
            if key[0] != "m":
                continue
            rng = self.decl.angle_range(self.akey(key)) if self.decl else None
            if not rng:
                continue
            for mult in range(1, D + 1):
                lo, hi = Fraction(rng[0]) * mult / D, Fraction(rng[1]) * mult / D
                cm, sm = self.cpow((c, s), mult)
                d = self.radd(x, sm, -1)
                if not d.n and lo >= Fraction(-1, 2) and hi <= Fraction(1, 2):
                    return self.rmul(self.R({key[1]: 1}), self.Rc(Fraction(mult, D)))
        c = self.rsqrt(self.radd(self.Rc(1), self.rmul(x, x), -1))
        return self.derived_angle((c, x), "asin", Fraction(-1, 2), Fraction(1, 2))

    # -- exp/log ---------------------------------------------------------
    def exp(self, r):
        if not r.n:
            return self.Rc(1)
        logs = self.expat.setdefault("log", {})
        parts = [({m: c}, r.d) for m, c in r.n.items()] if not r.d else [(r.n, r.d)]
        res = self.Rc(1)
        for p, d in parts:
            if not d and len(p) == 1:
                (mth, c), = p.items()
                ex = self.mexps(mth)
                if len(ex) == 1 and ex[0][1] == 1 and ex[0][0] in logs and Fraction(c).denominator == 1:
                    base = logs[ex[0][0]]
                    b = base if c > 0 else self.rinv(base)
                    for _ in range(abs(int(c))):
                        res = self.rmul(res, b)
                    continue
                c = Fraction(c)
                i = self.expatom(("m", mth, c.denominator))
                b = self.R(self.mono(i)) if c > 0 else self.rinv(self.R(self.mono(i)))
                for _ in range(abs(c.numerator)):
                    res = self.rmul(res, b)
            else:
                i = self.expatom((frozenset(p.items()), d))
                res = self.rmul(res, self.R(self.mono(i)))
        return res

    def expatom(self, key):
        i = self.v("exp#%d" % self.intern(("exp", key)))
        self.pos.add(i)
        self.expat.setdefault("exparg", {})[i] = key
        return i

    def log(self, r):
        if r.d and len(r.n) == 1 and r.n == {0: 1}:
            i = self.rinv(r)
            if not i.d and len(i.n) == 1 and set(i.n.values()) == {1}:
                return self.rmul(self.Rc(-1), self.log(i))
        if not r.d and len(r.n) == 1:
            (mth, c), = r.n.items()
            ex = self.mexps(mth)
            if c == 1 and len(ex) == 1 and ex[0][0] in self.expat.get("exparg", {}):
                k = self.expat["exparg"][ex[0][0]]
                if k[0] == "m":
                    return self.R({k[1]: fr(Fraction(ex[0][1], k[2]))})
            if mth == 0 and c == 1:
                return self.Rc(0)
            if c == 1 and len(ex) == 1 and ex[0][1] == 1 and ex[0][0] in self.isroot:
                # log sqrt(e) = log(e)/2
                h = self.log(self.R(self.rel[ex[0][0]]))
                return self.rmul(h, self.Rc(Fraction(1, 2)))
        i = self.v("log#%d" % self.intern(("log", self.rkey(r))))
        self.expat.setdefault("log", {})[i] = r
        return self.R(self.mono(i))

    # -- printing --------------------------------------------------------
    def pshow(self, p, n=8):
        out = []
        for m in sorted(p, reverse=True)[:n]:
            out.append("%s*%s" % (p[m], "*".join(self.names[i] + ("^%d" % e if e > 1 else "") for i, e in self.mexps(m)) or "1"))
        return " + ".join(out) + (" + …(%d terms)" % len(p) if len(p) > n else "")


def sqsplit(k):
    """k = s^2*t with small-prime squares pulled out"""
    s = 1
    t = k
    r = math.isqrt(t)
    if r * r == t:
        return r, 1
    for p in (2, 3, 5, 7, 11, 13):
        while t % (p * p) == 0:
            t //= p * p
            s *= p
    r = math.isqrt(t)
    if r * r == t:
        return s * r, 1
    return s, t
