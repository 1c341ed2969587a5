"""Hash-consed real expression DAG.

The symbolic executor produces these from LLVM IR floating point instructions
(doubles are read as real numbers); contracts produce them from the
specification.  Node kinds:
  const(Fraction) pi var(name) add mul div neg sqrt sin cos tan atan2 acos asin
  exp log uf(name,idx,args..)
"""
from fractions import Fraction
import math, struct

_table = {}


class E:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __repr__(self):
        return show(self)

    # operators -----------------------------------------------------------
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __neg__(a): return neg(a)
    def __pos__(a): return a

    def __pow__(a, n):
        if not isinstance(n, int):
            raise TypeError("integer powers only")
        if n < 0:
            return ONE / (a ** (-n))
        r = ONE
        for _ in range(n):
            r = r * a
        return r

    def __hash__(self): return self.id

    def __eq__(self, o): return self is o


_n = [0]


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, E) else ("k", a) for a in args)
    e = _table.get(key)
    if e is None:
        e = E(op, args)
        _n[0] += 1
        e.id = _n[0]
        _table[key] = e
    return e


def const(x):
    return mk("const", x if isinstance(x, Fraction) else Fraction(x))


PI = mk("pi")
ZERO = const(0)
ONE = const(1)


def var(name): return mk("var", name)


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return from_double(x)
    raise TypeError("cannot lift %r" % (x,))


def isc(e): return e.op == "const"


def add(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] + b.args[0])
    if isc(a) and a.args[0] == 0:
        return b
    if isc(b) and b.args[0] == 0:
        return a
    return mk("add", a, b)


def neg(a):
    if isc(a):
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] * b.args[0])
    if isc(a):
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if a.args[0] == -1:
            return neg(b)
    if isc(b):
        if b.args[0] == 0:
            return ZERO
        if b.args[0] == 1:
            return a
        if b.args[0] == -1:
            return neg(a)
    return mk("mul", a, b)


def div(a, b):
    if isc(b):
        if b.args[0] == 0:
            return mk("div", a, b)
        if isc(a):
            return const(a.args[0] / b.args[0])
        return mul(a, const(1 / b.args[0]))
    if isc(a) and a.args[0] == 0:
        # kept as 0; definedness is checked through 'definedness' nodes
        return mk("div", a, b)
    return mk("div", a, b)


def _isqrt_frac(f):
    if f < 0:
        return None
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def sqrt(a):
    a = lift(a)
    if isc(a):
        r = _isqrt_frac(a.args[0])
        if r is not None:
            return const(r)
    return mk("sqrt", a)


def sin(a):
    a = lift(a)
    if a is ZERO:
        return ZERO
    return mk("sin", a)


def cos(a):
    a = lift(a)
    if a is ZERO:
        return ONE
    return mk("cos", a)


def tan(a): return sin(a) / cos(a)
def atan2(y, x): return mk("atan2", lift(y), lift(x))
def acos(a): return mk("acos", lift(a))
def asin(a): return mk("asin", lift(a))
def log(a):
    a = lift(a)
    return ZERO if a is ONE else mk("log", a)
def exp(a):
    a = lift(a)
    return ONE if a is ZERO else mk("exp", a)
def uf(name, *args): return mk("uf", name, *[lift(a) for a in args])
def wrap(name, a, b): return mk("wrap", name, lift(a), lift(b))


# ---------------------------------------------------------------- constants
def _simplest_between(lo, hi):
    """simplest rational in [lo,hi] (Stern-Brocot)."""
    fl = lo.numerator // lo.denominator
    if Fraction(fl) == lo:
        return Fraction(fl)
    if Fraction(fl + 1) <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_PIS = {}
for _k in (Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(2), Fraction(1, 3), Fraction(2, 3),
           Fraction(1, 6), Fraction(4), Fraction(3, 2), Fraction(1, 180), Fraction(3, 4)):
    _PIS[float(_k) * math.pi] = _k
    _PIS[math.pi / (1 / float(_k))] = _k
_IPIS = {180 / math.pi: Fraction(180), 1 / math.pi: Fraction(1), 2 / math.pi: Fraction(2)}


def from_double(x):
    """The real constant a C double literal stands for: the simplest rational
    that rounds to it (1/6.0 folded by the compiler reads as 1/6), multiples of
    M_PI as multiples of pi."""
    if x in (math.inf, -math.inf):
        # an infinity used as a bound: a constant beyond every finite double
        return const(Fraction(2) ** 1024 if x > 0 else -Fraction(2) ** 1024)
    if x != x:
        return var("__nan__")
    s = -1 if x < 0 else 1
    a = abs(x)
    if a in _PIS:
        return mul(const(s * _PIS[a]), PI)
    if a in _IPIS:
        return const(s * _IPIS[a]) / PI
    if a == 0:
        return ZERO
    if a == math.sqrt(2):
        return sqrt(2) * s
    if a == math.sqrt(0.5) or a == math.sqrt(2) / 2:
        return sqrt(2) * Fraction(s, 2)
    ex = Fraction(a)
    if a >= 1e300 or a <= 1e-300:
        return const(s * ex)
    up = Fraction(math.nextafter(a, math.inf))
    dn = Fraction(math.nextafter(a, 0))
    r = _simplest_between((ex + dn) / 2, (ex + up) / 2)
    if r.denominator < 10 ** 7 or a < 1e-6:
        return const(s * r) if r.denominator < 10**7 else const(s * ex)
    return const(s * ex)


# ---------------------------------------------------------------- utilities
def topo(roots):
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        n, ph = st.pop()
        if ph:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, 1))
        for a in n.args:
            if isinstance(a, E) and a.id not in seen:
                st.append((a, 0))
    return out


def free_vars(roots):
    return {n.args[0] for n in topo(roots) if n.op == "var"}


def subst(e, m):
    """replace vars (dict name->E)."""
    memo = {}
    for n in topo([e]):
        if n.op == "var" and n.args[0] in m:
            memo[n.id] = lift(m[n.args[0]])
        elif not any(isinstance(a, E) for a in n.args):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, [memo[a.id] if isinstance(a, E) else a for a in n.args])
    return memo[e.id]


def rebuild(n, args):
    f = {"add": add, "mul": mul, "div": div, "neg": neg, "sqrt": sqrt, "sin": sin, "cos": cos,
         "atan2": atan2, "acos": acos, "asin": asin, "log": log, "exp": exp}.get(n.op)
    if f:
        return f(*args)
    return mk(n.op, *args)


def diff(e, name, env=None):
    """derivative with respect to var `name`; env: dict var name -> E giving
    the derivative of other variables."""
    env = env or {}
    d = {}
    for n in topo([e]):
        a = n.args
        if n.op in ("const", "pi"):
            r = ZERO
        elif n.op == "var":
            r = ONE if a[0] == name else env.get(a[0], ZERO)
        elif n.op == "add":
            r = d[a[0].id] + d[a[1].id]
        elif n.op == "neg":
            r = -d[a[0].id]
        elif n.op == "mul":
            r = d[a[0].id] * a[1] + a[0] * d[a[1].id]
        elif n.op == "div":
            if d[a[0].id] is ZERO and d[a[1].id] is ZERO:
                r = ZERO
            elif d[a[1].id] is ZERO:
                r = d[a[0].id] / a[1]
            else:
                r = (d[a[0].id] * a[1] - a[0] * d[a[1].id]) / (a[1] * a[1])
        elif n.op == "sqrt":
            r = ZERO if d[a[0].id] is ZERO else d[a[0].id] / (n * 2)
        elif n.op == "sin":
            r = cos(a[0]) * d[a[0].id]
        elif n.op == "cos":
            r = -(sin(a[0]) * d[a[0].id])
        elif n.op == "exp":
            r = n * d[a[0].id]
        elif n.op == "log":
            r = ZERO if d[a[0].id] is ZERO else d[a[0].id] / a[0]
        elif n.op == "atan2":
            y, x = a
            if d[x.id] is ZERO and d[y.id] is ZERO:
                r = ZERO
            else:
                r = (d[y.id] * x - y * d[x.id]) / (x * x + y * y)
        elif n.op == "acos":
            r = ZERO if d[a[0].id] is ZERO else -(d[a[0].id] / sqrt(ONE - a[0] * a[0]))
        elif n.op == "asin":
            r = ZERO if d[a[0].id] is ZERO else (d[a[0].id] / sqrt(ONE - a[0] * a[0]))
        elif n.op == "wrap":
            r = d[a[1].id]
        else:
            if any(d[x.id] is not ZERO for x in a if isinstance(x, E)):
                raise ValueError("cannot differentiate " + n.op)
            r = ZERO
        d[n.id] = r
    return d[e.id]


def evalf(roots, env, mp=None, ufs=None):
    """numeric evaluation with mpmath (mp) or floats."""
    import cmath
    m = mp or math
    val = {}

    def num(fr):
        if mp:
            return mp.mpf(fr.numerator) / fr.denominator
        return fr.numerator / fr.denominator
    for n in topo(roots):
        a = n.args
        v = None
        g = lambda i: val[a[i].id]
        if n.op == "const":
            v = num(a[0])
        elif n.op == "pi":
            v = +m.pi
        elif n.op == "var":
            v = env[a[0]]
        elif n.op == "add":
            v = g(0) + g(1)
        elif n.op == "mul":
            v = g(0) * g(1)
        elif n.op == "neg":
            v = -g(0)
        elif n.op == "div":
            v = g(0) / g(1)
        elif n.op in ("sqrt", "sin", "cos", "exp", "log", "acos", "asin"):
            v = getattr(m, n.op)(g(0))
        elif n.op == "atan2":
            v = m.atan2(g(0), g(1))
        elif n.op == "wrap":
            x, y = val[a[1].id], val[a[2].id]
            if a[0] == "fmod":
                q = x / y
                q = m.floor(q) if q >= 0 else m.ceil(q)
                v = x - q * y
            elif a[0] == "floor":
                v = x - y * m.floor(x / y)
            elif a[0] == "ceil":
                v = x - y * m.ceil(x / y)
            else:
                v = x - y * round(float(x / y))
        elif n.op == "uf":
            v = ufs(a[0], [val[x.id] for x in a[1:]])
        else:
            raise ValueError(n.op)
        val[n.id] = v
    return [val[r.id] for r in roots]


def show(e, depth=6):
    if e.op == "const":
        return str(e.args[0])
    if e.op == "pi":
        return "pi"
    if e.op == "var":
        return e.args[0]
    if depth == 0:
        return "…"
    s = [show(a, depth - 1) if isinstance(a, E) else str(a) for a in e.args]
    if e.op in ("add", "mul", "div"):
        return "(" + {"add": " + ", "mul": "*", "div": "/"}[e.op].join(s) + ")"
    if e.op == "neg":
        return "-" + s[0]
    return e.op + "(" + ",".join(s) + ")"
