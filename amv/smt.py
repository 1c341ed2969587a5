"""z3 back end: sign and feasibility obligations over the polynomial facts."""
import time
import z3
from fractions import Fraction

STATS = {"calls": 0, "time": 0.0, "unsat": 0}
TIMEOUT = 1500


def zpoly(ctx, p, zv):
    t = []
    for m, c in p.items():
        k = None
        f = Fraction(c)
        k = z3.Q(f.numerator, f.denominator)
        for i, e in ctx.mexps(m):
            v = zv(i)
            for _ in range(e):
                k = k * v
        t.append(k)
    if not t:
        return z3.RealVal(0)
    return z3.Sum(t) if len(t) > 1 else t[0]


def pvars(ctx, p):
    s = set()
    for m in p:
        for i, e in ctx.mexps(m):
            s.add(i)
    return s


def polyfacts(ctx):
    """facts as polynomials [(poly, op)] (op vs 0)."""
    from . import nf
    if getattr(ctx, "_pf_busy", False):
        return list(ctx.forksign) + list(ctx.sfacts)
    n = len(ctx.facts)
    cache = getattr(ctx, "_pf", None)
    if cache is None or cache[0] != n:
        ctx._pf_busy = True
        out = []
        try:
            for e, op in ctx.facts:
                try:
                    r = ctx.nf(e)
                    p = r.n
                    for f, k in r.d:
                        if k & 1:
                            p = ctx.pmul(p, ctx.factors[f])
                    if len(p) <= 400:
                        out.append((p, op))
                except (nf.NeedFork, nf.Unsupported, nf.TooBig, nf.DivZero):
                    pass
        finally:
            ctx._pf_busy = False
        ctx._pf = (n, out)
    return list(ctx.forksign) + list(ctx.sfacts) + ctx._pf[1]


def build(ctx, seeds, extra=(), full=False):
    zvars = {}

    def zv(i):
        if i not in zvars:
            zvars[i] = z3.Real("v%d" % i)
        return zvars[i]
    facts = polyfacts(ctx) + list(extra)
    need = set(seeds)
    # cone of influence
    used = [False] * len(facts)
    fv = [pvars(ctx, p) for p, op in facts]
    ch = True
    rels = {i: pvars(ctx, p) | {i} for i, p in ctx.rel.items()}
    userel = set()
    while ch:
        ch = False
        for i, vs in rels.items():
            if i in need and i not in userel:
                userel.add(i)
                if not vs <= need:
                    need |= vs
                ch = True
        for k, vs in enumerate(fv):
            if not used[k] and (full or (vs & need)):
                used[k] = True
                ch = True
                need |= vs
    s = z3.SolverFor("QF_NRA")
    for k, (p, op) in enumerate(facts):
        if used[k]:
            z = zpoly(ctx, p, zv)
            s.add({">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0, "<": z < 0, "<=": z <= 0}[op])
    for ax in trig_axioms(ctx, need, zv):
        s.add(ax)
    for i in userel:
        z = zv(i)
        s.add(z * z == zpoly(ctx, ctx.rel[i], zv))
    for i in list(zvars) + list(need):
        z = zv(i)
        if i in ctx.pos:
            s.add(z > 0)
        elif i in ctx.nonneg:
            s.add(z >= 0)
        if i in ctx.bounds:
            b = ctx.bounds[i]
            q = z3.Q(b.numerator, b.denominator)
            s.add(z <= q, z >= -q)
        if i == ctx.pi:
            s.add(z > z3.Q(314159265358, 10**11), z < z3.Q(314159265359, 10**11))
    return s, zv


def trig_axioms(ctx, need, zv):
    """elementary facts linking a ranged angle and its sine and cosine"""
    out = []
    for key, D, (c, s) in ctx.anglelist:
        if key[0] != "m" or c.d or s.d or len(c.n) != 1 or len(s.n) != 1:
            continue
        ex = ctx.mexps(key[1])
        if len(ex) != 1 or ex[0][1] != 1:
            continue
        a = ex[0][0]
        ci, si = list(pvars(ctx, c.n)), list(pvars(ctx, s.n))
        if len(ci) != 1 or len(si) != 1 or ci[0] == si[0]:
            continue
        ci, si = ci[0], si[0]
        if ci in ctx.rootset if hasattr(ctx, "rootset") else False:
            continue
        if not ({a} & need) or not ({ci, si} & need):
            continue
        rng = ctx.decl.angle_range(ctx.akey(key)) if ctx.decl else None
        if not rng or rng[0] is None or rng[1] is None:
            continue
        lo, hi = Fraction(rng[0]) / D, Fraction(rng[1]) / D
        if lo < -1 or hi > 1:
            continue
        x = zv(a) / D if D != 1 else zv(a)
        S, C, P = zv(si), zv(ci), zv(ctx.pi)
        need.update((a, ci, si, ctx.pi))
        out.append(z3.Implies(z3.And(x > 0, x < P), S > 0))
        out.append(z3.Implies(x == 0, z3.And(S == 0, C == 1)))
        out.append(C >= 1 - x * x / 2)
        if lo < 0:
            out.append(z3.Implies(z3.And(x < 0, x > -P), S < 0))
            out.append(z3.Implies(z3.And(x < P / 2, x > -P / 2), C > 0))
            out.append(z3.Implies(z3.Or(x > P / 2, x < -P / 2), C < 0))
        else:
            out.append(S <= x)
            out.append(z3.Implies(x <= 2, S >= x - x * x * x / 6))
            if hi > Fraction(1, 2):
                out.append(z3.Implies(x < P / 2, C > 0))
                out.append(z3.Implies(x > P / 2, C < 0))
                out.append(z3.Implies(x == P, z3.And(S == 0, C == -1)))
            else:
                out.append(z3.Implies(x < P / 2, C > 0))
    return out


def check(s, timeout=None):
    # the budget is z3's own work count, so that the outcome does not depend on
    # the load of the machine; the time is a backstop
    ms = timeout or TIMEOUT
    s.set("rlimit", ms * 6000)
    s.set("timeout", ms * 15)
    t = time.time()
    r = s.check()
    STATS["calls"] += 1
    STATS["time"] += time.time() - t
    if r == z3.unsat:
        STATS["unsat"] += 1
    return r


def prove_sign(ctx, p):
    seeds = pvars(ctx, p)
    s, zv = build(ctx, seeds)
    z = zpoly(ctx, p, zv)
    s.push()
    s.add(z < 0)
    if check(s) == z3.unsat:
        return ">="
    s.pop()
    s.add(z > 0)
    if check(s) == z3.unsat:
        return "<="
    return None


def prove(ctx, p, op, timeout=None):
    """prove p op 0 under ctx facts"""
    s, zv = build(ctx, pvars(ctx, p), full=True)
    z = zpoly(ctx, p, zv)
    neg = {">": z <= 0, ">=": z < 0, "==": z != 0, "!=": z == 0, "<=": z > 0, "<": z >= 0}[op]
    s.add(neg)
    return check(s, timeout) == z3.unsat


def infeasible(ctx, timeout=None):
    s, zv = build(ctx, set(), full=True)
    return check(s, timeout) == z3.unsat
