"""Assumed contracts of external functions (libm, BLAS, LAPACK helpers, libc,
the region allocator as seen by its clients).  Everything in this table is part
of the trusted base and is listed in the evidence."""
from . import expr as X
from .expr import E


class BI:
    def __init__(self, fn, override=False, text=""):
        self.fn = fn
        self.override = override
        self.text = text


TABLE = {}


def b(*names, override=False):
    def deco(f):
        for n in names:
            TABLE[n] = BI(f, override, (f.__doc__ or "").strip())
        return f
    return deco


def s32(v): return v - (1 << 32) if v >> 31 else v
def s64(v): return v - (1 << 64) if v >> 63 else v


# ---- libm
for nm, f in (("sin", X.sin), ("cos", X.cos), ("exp", X.exp), ("log", X.log)):
    TABLE["llvm.%s.f64" % nm] = TABLE["llvm.%s.f32" % nm] = TABLE[nm] = TABLE[nm + "f"] = BI((lambda f: lambda ex, x: f(ex.fl(x)))(f), text="real " + nm)


@b("llvm.sqrt.f64", "llvm.sqrt.f32", "sqrt", "sqrtf")
def _sqrt(ex, x):
    "real square root"
    x = ex.fl(x)
    if not X.isc(x):
        ex.sqrts.append((len(ex.path.facts), x))
    return X.sqrt(x)


@b("tan", "tanf")
def _tan(ex, x):
    "sin/cos"
    return X.tan(ex.fl(x))


@b("atan2", "atan2f")
def _atan2(ex, y, x):
    "real atan2"
    return X.atan2(ex.fl(y), ex.fl(x))


@b("acos", "acosf")
def _acos(ex, x):
    "real acos"
    return X.acos(ex.fl(x))


@b("asin", "asinf")
def _asin(ex, x):
    "real asin"
    return X.asin(ex.fl(x))


@b("llvm.fabs.f64", "llvm.fabs.f32", "fabs", "fabsf")
def _fabs(ex, x):
    "absolute value"
    x = ex.fl(x)
    if ex.path.decide(x, ">="):
        return x
    return X.neg(x)


@b("llvm.maxnum.f64", "fmax", "fmaxf", "llvm.maxnum.f32")
def _fmax(ex, a, c):
    "maximum"
    a, c = ex.fl(a), ex.fl(c)
    return a if ex.path.decide(X.sub(a, c), ">=") else c


@b("llvm.minnum.f64", "fmin", "fminf", "llvm.minnum.f32")
def _fmin(ex, a, c):
    "minimum"
    a, c = ex.fl(a), ex.fl(c)
    return c if ex.path.decide(X.sub(a, c), ">=") else a


@b("llvm.fmuladd.f64", "llvm.fma.f64", "fma", "fmaf", "llvm.fma.f32", "llvm.fmuladd.f32")
def _fma(ex, a, b_, c):
    "a*b+c"
    return X.add(X.mul(ex.fl(a), ex.fl(b_)), ex.fl(c))


@b("llvm.copysign.f64", "copysign", "copysignf", "llvm.copysign.f32")
def _copysign(ex, a, s):
    "copysign (sign of zero ignored)"
    a = _fabs(ex, a)
    return a if ex.path.decide(ex.fl(s), ">=") else X.neg(a)


def _rem(ex, x, y):
    "x - k*y for an integer k (nearest): |r| <= |y|/2"
    x, y = ex.fl(x), ex.fl(y)
    r = X.wrap("remainder", x, y)
    m = y if ex.path.decide(y, ">=") else X.neg(y)
    ex.divs.append((len(ex.path.facts), y))
    ex.path.facts.append((r + m / 2, ">="))
    ex.path.facts.append((m / 2 - r, ">="))
    return r


def _fmod(ex, x, y):
    "x - k*y for an integer k (truncated): |r| < |y|, r has the sign of x, |r| <= |x|"
    x, y = ex.fl(x), ex.fl(y)
    r = X.wrap("fmod", x, y)
    m = y if ex.path.decide(y, ">=") else X.neg(y)
    ex.divs.append((len(ex.path.facts), y))
    if ex.path.decide(x, ">="):
        fs = [(r, ">="), (x - r, ">="), (m - r, ">")]
    else:
        fs = [(X.neg(r), ">="), (r - x, ">="), (m + r, ">")]
    ex.path.facts += fs
    return r


def _part(ex, x, kind):
    """x minus the integer chosen by kind, with the range that choice guarantees"""
    x = ex.fl(x)
    r = X.wrap(kind, x, X.ONE)
    h = X.ONE / 2
    if kind == "floor":
        fs = [(r, ">="), (1 - r, ">")]
    elif kind == "ceil":
        fs = [(X.neg(r), ">="), (r + 1, ">")]
    else:
        fs = [(r + h, ">="), (h - r, ">=")]
    ex.path.facts += fs
    return X.sub(x, r)


@b("floor", "llvm.floor.f64")
def _floor(ex, x):
    "greatest integer not above"
    return ex.fl(x) if isfint(ex.fl(x)) else _part(ex, x, "floor")


@b("ceil", "llvm.ceil.f64")
def _ceil(ex, x):
    "least integer not below"
    return ex.fl(x) if isfint(ex.fl(x)) else _part(ex, x, "ceil")


@b("trunc", "llvm.trunc.f64")
def _trunc(ex, x):
    "integer part"
    if isfint(ex.fl(x)):
        return ex.fl(x)
    return _part(ex, x, "floor" if ex.path.decide(ex.fl(x), ">=") else "ceil")


@b("round", "llvm.round.f64", "rint", "llvm.rint.f64", "nearbyint", "llvm.nearbyint.f64", "roundeven", "llvm.roundeven.f64")
def _round(ex, x):
    "a nearest integer"
    return ex.fl(x) if isfint(ex.fl(x)) else _part(ex, x, "nearest")


def isfint(x): return X.isc(x) and x.args[0].denominator == 1


@b("sincos")
def _sincos(ex, x, s, c):
    "real sine and cosine"
    x = ex.fl(x)
    ex.store(s, 8, X.sin(x))
    ex.store(c, 8, X.cos(x))


@b("hypot", "hypotf")
def _hypot(ex, a, c):
    "square root of the sum of squares"
    a, c = ex.fl(a), ex.fl(c)
    return _sqrt(ex, a * a + c * c)


@b("atan", "atanf")
def _atan(ex, x):
    "real arc tangent"
    return X.atan2(ex.fl(x), X.ONE)


@b("fdim")
def _fdim(ex, a, c):
    "positive difference"
    d = X.sub(ex.fl(a), ex.fl(c))
    return d if ex.path.decide(d, ">=") else X.ZERO


@b("ldexp", "scalbn")
def _ldexp(ex, x, n):
    "multiplication by a power of two"
    n = s32(n & 0xffffffff)
    return ex.fl(x) * (X.const(2) ** n)


TABLE["remainder"] = BI(_rem, text="x - k*y, k the nearest integer")
TABLE["fmod"] = BI(_fmod, text="x - k*y, k the truncated integer")


@b("llvm.pow.f64", "pow")
def _pow(ex, x, y):
    "power with small integer exponent"
    y = ex.fl(y)
    from .irexec import Unsup
    if X.isc(y) and y.args[0].denominator == 1 and abs(y.args[0]) < 12:
        return ex.fl(x) ** int(y.args[0])
    if X.isc(y) and y.args[0] * 2 == 1:
        return X.sqrt(ex.fl(x))
    raise Unsup("pow")


# ---- libc
@b("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove")
def _memcpy(ex, d, s, n, *a):
    "memory copy"
    ex.memcpy(d, s, n)
    return d


@b("__memcpy_chk", "__memmove_chk")
def _memcpyc(ex, d, s, n, m):
    "memory copy"
    ex.memcpy(d, s, n)
    return d


@b("llvm.memset.p0.i64", "memset")
def _memset(ex, d, v, n, *a):
    "memory fill"
    ex.memset(d, v, n)
    return d


@b("llvm.stacksave.p0", "llvm.stacksave")
def _ss(ex):
    "stack marker"
    from .irexec import NULL
    return NULL


@b("llvm.stackrestore.p0", "llvm.stackrestore", "llvm.assume", "llvm.experimental.noalias.scope.decl")
def _sr(ex, *a):
    "no effect"
    return None


@b("llvm.objectsize.i64.p0")
def _os(ex, *a):
    return (1 << 64) - 1


@b("llvm.is.constant.i64", "llvm.is.constant.i32")
def _isconst(ex, a):
    return 0


@b("llvm.expect.i64", "llvm.expect.i1")
def _expect(ex, a, c):
    return a


@b("__assert_fail", "abort", "exit")
def _af(ex, *a):
    "never returns"
    from .irexec import AssertFail
    raise AssertFail("assertion failure or abort reached")


@b("malloc", "_Znwm", "_Znam")
def _malloc(ex, n):
    "fresh object of the requested size (never fails)"
    return ex.alloc("heap", n)


@b("calloc")
def _calloc(ex, n, m):
    "fresh zeroed object"
    p = ex.alloc("heap", n * m)
    ex.memset(p, 0, n * m)
    p.o.wr.clear()
    return p


@b("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv")
def _free(ex, p, *a):
    "releases the object"
    from .irexec import MemErr
    if p.o is None:
        return None
    if p.o.dead:
        raise MemErr("double free")
    p.o.dead = True


@b("fprintf", "fputs", "fflush", "printf", "puts", "fputc", "putchar", "fwrite", "perror", "snprintf", "vfprintf")
def _out(ex, *a):
    "output only"
    return 0


# ---- the region allocator as its clients see it
def _reg(ex, r):
    """blocks of a region, oldest first"""
    from .irexec import MemErr
    if getattr(r, "o", None) is None or r.o.dead or (id(r.o), r.off) not in ex.regions:
        raise MemErr("not a live memory region")
    return ex.regions[id(r.o), r.off]


def newregion(ex):
    p = ex.alloc("region", 64, ro=True)
    ex.regions[id(p.o), p.off] = []
    ex.rkeep.append(p)
    return p


@b("aa_mem_region_local_get", override=True)
def _rlg(ex):
    "the thread's region"
    if ex.lregion is None:
        ex.lregion = newregion(ex)
    return ex.lregion


@b("aa_mem_region_create", override=True)
def _rcr(ex, n):
    "a new empty region"
    return newregion(ex)


@b("aa_mem_region_destroy", override=True)
def _rde(ex, r):
    "releases the region and every block in it"
    for o in _reg(ex, r):
        o.dead = True
    del ex.regions[id(r.o), r.off]
    if r.o.name == "region":
        r.o.dead = True


@b("aa_mem_region_init", override=True)
def _rin(ex, r, n):
    "an empty region in the given storage"
    ex.regions[id(r.o), r.off] = []
    ex.rkeep.append(r)


@b("aa_mem_region_alloc", "aa_mem_region_tmpalloc", override=True)
def _ra(ex, r, n):
    "fresh uninitialised block of the requested size"
    L = _reg(ex, r)
    p = ex.alloc("region-block", n)
    L.append(p.o)
    return p


@b("aa_mem_region_local_alloc", "aa_mem_region_local_tmpalloc", override=True)
def _rla(ex, n):
    "fresh uninitialised block of the requested size"
    return _ra(ex, _rlg(ex), n)


@b("aa_mem_region_ptr", override=True)
def _rptr(ex, r):
    "marks the current top of the region; popping it releases everything younger"
    L = _reg(ex, r)
    p = ex.alloc("region-mark", 0)
    L.append(p.o)
    return p


@b("aa_mem_region_pop", override=True)
def _rp(ex, r, p):
    "releases the block and all younger ones"
    from .irexec import MemErr
    L = _reg(ex, r)
    if p.o is None or p.o not in L:
        raise MemErr("region pop of a pointer that is not a live block of the region")
    i = L.index(p.o)
    for o in L[i:]:
        o.dead = True
    del L[i:]


@b("aa_mem_region_local_pop", override=True)
def _rlp(ex, p):
    "releases the block and all younger ones"
    _rp(ex, _rlg(ex), p)


@b("aa_mem_region_dup", override=True)
def _rdup(ex, r, p, n):
    "fresh block holding a copy"
    q = _ra(ex, r, n)
    ex.memcpy(q, p, n)
    return q


# ---- BLAS
def ld(ex, p, i):
    from .irexec import Ptr
    return ex.fl(ex.loadt(Ptr(p.o, p.off + 8 * i), _D))


def st(ex, p, i, v):
    from .irexec import Ptr
    ex.store(Ptr(p.o, p.off + 8 * i), 8, v)


from .irparse import Type
_D = Type("double")


def vidx(n, inc):
    return [((1 - n) * inc if inc < 0 else 0) + k * inc for k in range(n)]


@b("cblas_ddot")
def ddot(ex, n, x, ix, y, iy):
    "dot product"
    n, ix, iy = s32(n), s32(ix), s32(iy)
    r = X.ZERO
    for a, c in zip(vidx(n, ix), vidx(n, iy)):
        r = r + ld(ex, x, a) * ld(ex, y, c)
    return r


@b("cblas_dnrm2")
def dnrm2(ex, n, x, ix):
    "Euclidean norm"
    r = X.ZERO
    for a in vidx(s32(n), s32(ix)):
        r = r + ld(ex, x, a) ** 2
    return X.sqrt(r)


@b("cblas_dasum")
def dasum(ex, n, x, ix):
    "sum of absolute values"
    r = X.ZERO
    for a in vidx(s32(n), s32(ix)):
        r = r + _fabs(ex, ld(ex, x, a))
    return r


@b("cblas_idamax")
def idamax(ex, n, x, ix):
    "index of first largest absolute value"
    best = None
    bi = 0
    for k, a in enumerate(vidx(s32(n), s32(ix))):
        v = _fabs(ex, ld(ex, x, a))
        if best is None or ex.path.decide(X.sub(v, best), ">"):
            best, bi = v, k
    return bi


@b("cblas_daxpy")
def daxpy(ex, n, al, x, ix, y, iy):
    "y := alpha x + y"
    n, ix, iy = s32(n), s32(ix), s32(iy)
    for a, c in zip(vidx(n, ix), vidx(n, iy)):
        st(ex, y, c, ex.fl(al) * ld(ex, x, a) + ld(ex, y, c))


@b("cblas_dscal")
def dscal(ex, n, al, x, ix):
    "x := alpha x"
    for a in vidx(s32(n), s32(ix)):
        st(ex, x, a, ex.fl(al) * ld(ex, x, a))


@b("cblas_dcopy")
def dcopy(ex, n, x, ix, y, iy):
    "y := x"
    n, ix, iy = s32(n), s32(ix), s32(iy)
    for a, c in zip(vidx(n, ix), vidx(n, iy)):
        st(ex, y, c, ld(ex, x, a))


@b("cblas_dswap")
def dswap(ex, n, x, ix, y, iy):
    "swap"
    n, ix, iy = s32(n), s32(ix), s32(iy)
    for a, c in zip(vidx(n, ix), vidx(n, iy)):
        u, v = ld(ex, x, a), ld(ex, y, c)
        st(ex, x, a, v)
        st(ex, y, c, u)


def argchk(ok, what):
    from .irexec import MemErr
    if not ok:
        raise MemErr("BLAS/LAPACK precondition violated: " + what)


@b("cblas_dgemv")
def dgemv(ex, order, tr, m, n, al, A, lda, x, ix, be, y, iy):
    "y := alpha op(A) x + beta y"
    m, n, lda, ix, iy = map(s32, (m, n, lda, ix, iy))
    al, be = ex.fl(al), ex.fl(be)
    col = order == 102
    argchk(lda >= max(1, m if col else n), "dgemv lda")
    at = (lambda i, j: ld(ex, A, i + lda * j)) if col else (lambda i, j: ld(ex, A, i * lda + j))
    lx, ly = (n, m) if tr == 111 else (m, n)
    if m == 0 or n == 0:
        return
    xs = [ld(ex, x, a) for a in vidx(lx, ix)]
    for k, c in enumerate(vidx(ly, iy)):
        s = X.ZERO
        for j in range(lx):
            s = s + (at(k, j) if tr == 111 else at(j, k)) * xs[j]
        v = al * s
        if be is not X.ZERO:
            v = v + be * ld(ex, y, c)
        st(ex, y, c, v)


@b("cblas_dgemm")
def dgemm(ex, order, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc):
    "C := alpha op(A) op(B) + beta C"
    m, n, k, lda, ldb, ldc = map(s32, (m, n, k, lda, ldb, ldc))
    al, be = ex.fl(al), ex.fl(be)
    col = order == 102
    if col:
        argchk(lda >= max(1, m if ta == 111 else k), "dgemm lda")
        argchk(ldb >= max(1, k if tb == 111 else n), "dgemm ldb")
        argchk(ldc >= max(1, m), "dgemm ldc")
    ix = (lambda i, j, l: i + l * j) if col else (lambda i, j, l: i * l + j)
    if m == 0 or n == 0:
        return
    a = [[ld(ex, A, ix(i, p, lda) if ta == 111 else ix(p, i, lda)) for p in range(k)] for i in range(m)]
    bb = [[ld(ex, B, ix(p, j, ldb) if tb == 111 else ix(j, p, ldb)) for j in range(n)] for p in range(k)]
    for j in range(n):
        for i in range(m):
            s = X.ZERO
            for p in range(k):
                s = s + a[i][p] * bb[p][j]
            v = al * s
            if be is not X.ZERO:
                v = v + be * ld(ex, C, ix(i, j, ldc))
            st(ex, C, ix(i, j, ldc), v)


@b("cblas_dger")
def dger(ex, order, m, n, al, x, ix, y, iy, A, lda):
    "A := alpha x y' + A"
    m, n, ix, iy, lda = map(s32, (m, n, ix, iy, lda))
    col = order == 102
    for i, a in enumerate(vidx(m, ix)):
        for j, c in enumerate(vidx(n, iy)):
            k = i + lda * j if col else i * lda + j
            st(ex, A, k, ex.fl(al) * ld(ex, x, a) * ld(ex, y, c) + ld(ex, A, k))


@b("cblas_dsyrk")
def dsyrk(ex, order, uplo, tr, n, k, al, A, lda, be, C, ldc):
    "symmetric rank-k update of one triangle"
    n, k, lda, ldc = map(s32, (n, k, lda, ldc))
    al, be = ex.fl(al), ex.fl(be)
    col = order == 102
    at = (lambda i, j: ld(ex, A, i + lda * j)) if col else (lambda i, j: ld(ex, A, i * lda + j))
    for j in range(n):
        for i in range(n):
            if (uplo == 121 and i > j) or (uplo == 122 and i < j):
                continue
            s = X.ZERO
            for p in range(k):
                s = s + (at(i, p) * at(j, p) if tr == 111 else at(p, i) * at(p, j))
            q = i + ldc * j if col else i * ldc + j
            v = al * s
            if be is not X.ZERO:
                v = v + be * ld(ex, C, q)
            st(ex, C, q, v)


def rdint(ex, p):
    return s32(ex.load(p, 4))


def rdch(ex, p):
    return chr(ex.load(p, 1)).upper()


@b("dlapy3_")
def dlapy3(ex, a, c, d):
    "sqrt(x^2+y^2+z^2)"
    x, y, z = (ld(ex, p, 0) for p in (a, c, d))
    return X.sqrt(x * x + y * y + z * z)


@b("dlapy2_")
def dlapy2(ex, a, c):
    "sqrt(x^2+y^2)"
    x, y = (ld(ex, p, 0) for p in (a, c))
    return X.sqrt(x * x + y * y)


@b("dlacpy_")
def dlacpy(ex, uplo, m, n, A, lda, B, ldb):
    "matrix copy"
    u = rdch(ex, uplo)
    m, n, lda, ldb = (rdint(ex, p) for p in (m, n, lda, ldb))
    for j in range(n):
        for i in range(m):
            if (u == "U" and i > j) or (u == "L" and i < j):
                continue
            st(ex, B, i + ldb * j, ld(ex, A, i + lda * j))
    return 0


@b("dlaset_")
def dlaset(ex, uplo, m, n, al, be, A, lda):
    "set off-diagonal to alpha and diagonal to beta"
    u = rdch(ex, uplo)
    m, n, lda = (rdint(ex, p) for p in (m, n, lda))
    a, c = ld(ex, al, 0), ld(ex, be, 0)
    for j in range(n):
        for i in range(m):
            if i == j:
                continue
            if (u == "U" and i > j) or (u == "L" and i < j):
                continue
            st(ex, A, i + lda * j, a)
    for i in range(min(m, n)):
        st(ex, A, i + lda * i, c)
    return 0


@b("llvm.va_start", "llvm.va_start.p0")
def _vastart(ex, p):
    """x86-64 va_list with every variadic argument in the overflow area"""
    from .irexec import Ptr
    va = ex.vastack[-1]
    o = ex.alloc("varargs", 8 * max(1, len(va)))
    for i, v in enumerate(va):
        o.o.cells[8 * i] = (8, v)
    ex.store(p, 4, 48)
    ex.store(Ptr(p.o, p.off + 4), 4, 304)
    ex.store(Ptr(p.o, p.off + 8), 8, o)
    ex.store(Ptr(p.o, p.off + 16), 8, o)


@b("llvm.va_end", "llvm.va_end.p0")
def _vaend(ex, p):
    """no effect"""


# ---- LAPACK: solvers are modelled by the exact solution (Cramer), factorisations
# by ghost factors that the contract supplies and the model checks against the
# matrix handed over
def mat(ex, A, m, n, lda): return [[ld(ex, A, i + lda * j) for j in range(n)] for i in range(m)]


def put(ex, A, M, lda):
    for i, r in enumerate(M):
        for j, v in enumerate(r):
            st(ex, A, i + lda * j, v)


def clear(ex, A, m, n, lda):
    """contents become unspecified"""
    for j in range(n):
        for i in range(m):
            ex.store(type(A)(A.o, A.off + 8 * (i + lda * j)), 8, X.ZERO)
            A.o.cells.pop(A.off + 8 * (i + lda * j), None)


def det(M):
    n = len(M)
    if n == 0:
        return X.ONE
    if n == 1:
        return X.lift(M[0][0])
    r = X.ZERO
    for j in range(n):
        t = M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def adj(M):
    n = len(M)
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]) for j in range(n)] for i in range(n)]


def solve(ex, M, B):
    d = det(M)
    ex.divs.append((len(ex.path.facts), d))
    A = adj(M)
    n = len(M)
    return [[sum((A[i][k] * B[k][j] for k in range(n)), X.ZERO) / d for j in range(len(B[0]))] for i in range(n)]


def tr(M): return [list(r) for r in zip(*M)]
def mmul(A, B): return [[sum((a * b for a, b in zip(r, c)), X.ZERO) for c in zip(*B)] for r in A]


def wquery(ex, work, lwork, need):
    lw = rdint(ex, lwork)
    if lw == -1:
        st(ex, work, 0, X.const(need))
        return True
    argchk(lw >= need, "lwork")
    for i in range(lw):
        ex.store(type(work)(work.o, work.off + 8 * i), 8, X.ZERO)
        work.o.cells.pop(work.off + 8 * i, None)
    return False


def setinfo(ex, p, v=0): ex.store(p, 4, v)


def ghost(ex, k):
    from .irexec import Unsup
    g = getattr(ex, "ghost", {})
    if k not in g:
        raise Unsup("no ghost factors for " + k)
    return g[k]


def same(ex, what, A, B):
    from .spec import Goal
    for i, (r, q) in enumerate(zip(A, B)):
        for j, (x, y) in enumerate(zip(r, q)):
            ex.obl.append(Goal("%s[%d,%d]" % (what, i, j), "eq", X.lift(x), X.lift(y)))


@b("dgetrf_")
def dgetrf(ex, m, n, A, lda, ipiv, info):
    "LU factorisation (kept abstract; only consumed by dgetri)"
    m, n, lda = (rdint(ex, p) for p in (m, n, lda))
    argchk(lda >= max(1, m), "dgetrf lda")
    if not hasattr(ex, "lu"):
        ex.lu = {}
    ex.lu[(id(A.o), A.off)] = (m, n, lda, mat(ex, A, m, n, lda), (id(ipiv.o), ipiv.off))
    clear(ex, A, m, n, lda)
    for i in range(min(m, n)):
        ex.store(type(ipiv)(ipiv.o, ipiv.off + 4 * i), 4, i + 1)
    setinfo(ex, info)


@b("dgetri_")
def dgetri(ex, n, A, lda, ipiv, work, lwork, info):
    "inverse of the matrix factored by dgetrf"
    n, lda = rdint(ex, n), rdint(ex, lda)
    setinfo(ex, info)
    if wquery(ex, work, lwork, max(1, n)):
        return
    k = getattr(ex, "lu", {}).get((id(A.o), A.off))
    argchk(k is not None and k[0] == n and k[1] == n and k[2] == lda and k[4] == (id(ipiv.o), ipiv.off), "dgetri needs the factors and pivots of dgetrf")
    put(ex, A, solve(ex, k[3], [[X.ONE if i == j else X.ZERO for j in range(n)] for i in range(n)]), lda)


@b("dposv_")
def dposv(ex, uplo, n, nrhs, A, lda, B, ldb, info):
    "solution of a symmetric positive definite system given by one triangle"
    u = rdch(ex, uplo)
    n, nrhs, lda, ldb = (rdint(ex, p) for p in (n, nrhs, lda, ldb))
    argchk(lda >= max(1, n) and ldb >= max(1, n), "dposv leading dimensions")
    at = lambda i, j: ld(ex, A, i + lda * j)
    M = [[at(min(i, j), max(i, j)) if u == "U" else at(max(i, j), min(i, j)) for j in range(n)] for i in range(n)]
    put(ex, B, solve(ex, M, mat(ex, B, n, nrhs, ldb)), ldb)
    for j in range(n):
        for i in range(n):
            if (u == "U" and i <= j) or (u == "L" and i >= j):
                A.o.cells.pop(A.off + 8 * (i + lda * j), None)
    setinfo(ex, info)


@b("dsysv_")
def dsysv(ex, uplo, n, nrhs, A, lda, ipiv, B, ldb, work, lwork, info):
    "solution of a symmetric system given by one triangle"
    setinfo(ex, info)
    if wquery(ex, work, lwork, max(1, rdint(ex, n))):
        return
    dposv(ex, uplo, n, nrhs, A, lda, B, ldb, info)


@b("dgelsd_")
def dgelsd(ex, m, n, nrhs, A, lda, B, ldb, S, rcond, rank, work, lwork, iwork, info):
    "minimum-norm least-squares solution (full rank assumed)"
    m, n, nrhs, lda, ldb = (rdint(ex, p) for p in (m, n, nrhs, lda, ldb))
    setinfo(ex, info)
    argchk(lda >= max(1, m) and ldb >= max(1, m, n), "dgelsd leading dimensions")
    if wquery(ex, work, lwork, 1):
        return
    M = mat(ex, A, m, n, lda)
    R = mat(ex, B, m, nrhs, ldb)
    if m >= n:
        Y = solve(ex, mmul(tr(M), M), mmul(tr(M), R))
    else:
        Y = mmul(tr(M), solve(ex, mmul(M, tr(M)), R))
    clear(ex, A, m, n, lda)
    clear(ex, B, max(m, n), nrhs, ldb)
    put(ex, B, Y, ldb)
    ex.store(rank, 4, min(m, n))


@b("ilaenv_")
def ilaenv(ex, *a):
    "tuning parameter"
    return 25


@b("log2", "llvm.log2.f64")
def log2(ex, x):
    "base-2 logarithm of a constant power of two (or 0)"
    from .irexec import Unsup
    x = ex.fl(x)
    if X.isc(x):
        v = x.args[0]
        if v == 0:
            return X.const(-10 ** 6)
        k = 0
        while v > 1 and v.numerator % 2 == 0:
            v /= 2; k += 1
        if v == 1:
            return X.const(k)
    raise Unsup("log2")


@b("dgesdd_")
def dgesdd(ex, jobz, m, n, A, lda, S, U, ldu, VT, ldvt, work, lwork, iwork, info):
    "singular value decomposition: A = U S V' with the ghost factors"
    m, n, lda, ldu, ldvt = (rdint(ex, p) for p in (m, n, lda, ldu, ldvt))
    setinfo(ex, info)
    argchk(lda >= max(1, m), "dgesdd lda")
    if rdch(ex, jobz) == "A":
        argchk(ldu >= m and ldvt >= n, "dgesdd ldu/ldvt")
    if wquery(ex, work, lwork, 1):
        return
    svd(ex, rdch(ex, jobz), rdch(ex, jobz), m, n, A, lda, S, U, ldu, VT, ldvt)


def svd(ex, ju, jv, m, n, A, lda, S, U, ldu, VT, ldvt):
    gU, gS, gV = ghost(ex, "svd")
    k = min(m, n)
    same(ex, "matrix handed to the SVD", mat(ex, A, m, n, lda),
         [[sum((gU[i][p] * gS[p] * gV[p][j] for p in range(k)), X.ZERO) for j in range(n)] for i in range(m)])
    clear(ex, A, m, n, lda)
    for i in range(k):
        st(ex, S, i, X.lift(gS[i]))
    if ju == "A":
        put(ex, U, [[X.lift(v) for v in r] for r in gU], ldu)
    if jv == "A":
        put(ex, VT, [[X.lift(v) for v in r] for r in gV], ldvt)


@b("dgesvd_")
def dgesvd(ex, jobu, jobvt, m, n, A, lda, S, U, ldu, VT, ldvt, work, lwork, info):
    "singular value decomposition: A = U S V' with the ghost factors"
    m, n, lda, ldu, ldvt = (rdint(ex, p) for p in (m, n, lda, ldu, ldvt))
    setinfo(ex, info)
    argchk(lda >= max(1, m) and ldu >= 1 and ldvt >= 1, "dgesvd leading dimensions")
    if rdch(ex, jobu) == "A":
        argchk(ldu >= m, "dgesvd ldu")
    if rdch(ex, jobvt) == "A":
        argchk(ldvt >= n, "dgesvd ldvt")
    if wquery(ex, work, lwork, 1):
        return
    svd(ex, rdch(ex, jobu), rdch(ex, jobvt), m, n, A, lda, S, U, ldu, VT, ldvt)


@b("dgeqrf_")
def dgeqrf(ex, m, n, A, lda, tau, work, lwork, info):
    "QR factorisation: A = Q R with the ghost factors; the reflectors stay abstract"
    m, n, lda = (rdint(ex, p) for p in (m, n, lda))
    setinfo(ex, info)
    argchk(lda >= max(1, m), "dgeqrf lda")
    if wquery(ex, work, lwork, 1):
        return
    Q, R = ghost(ex, "qr")
    same(ex, "matrix handed to the QR factorisation", mat(ex, A, m, n, lda), mmul(Q, R))
    ex.refl = (m, n)
    for j in range(n):
        for i in range(m):
            st(ex, A, i + lda * j, X.lift(R[i][j]) if i <= j else X.wrap("reflector", X.const(i), X.const(j)))
    for i in range(min(m, n)):
        st(ex, tau, i, X.wrap("tau", X.const(i), X.const(0)))


@b("dorgqr_")
def dorgqr(ex, m, n, k, A, lda, tau, work, lwork, info):
    "the orthogonal factor of dgeqrf's reflectors"
    m, n, k, lda = (rdint(ex, p) for p in (m, n, k, lda))
    setinfo(ex, info)
    argchk(lda >= max(1, m) and n <= m and k <= n, "dorgqr dimensions")
    if wquery(ex, work, lwork, 1):
        return
    Q, R = ghost(ex, "qr")
    ok = getattr(ex, "refl", None) is not None and ex.refl[0] == m and k == min(ex.refl)
    for j in range(k):
        ok = ok and ld(ex, tau, j) is X.wrap("tau", X.const(j), X.const(0))
        for i in range(j + 1, m):
            ok = ok and ld(ex, A, i + lda * j) is X.wrap("reflector", X.const(i), X.const(j))
    argchk(ok, "dorgqr needs the reflectors of dgeqrf")
    put(ex, A, [[X.lift(v) for v in r[:n]] for r in Q], lda)


@b("dlange_")
def dlange(ex, nm, m, n, A, lda, work):
    "Frobenius norm"
    from .irexec import Unsup
    if rdch(ex, nm) not in "FE":
        raise Unsup("dlange " + rdch(ex, nm))
    m, n, lda = (rdint(ex, p) for p in (m, n, lda))
    argchk(lda >= max(1, m), "dlange lda")
    return X.sqrt(sum((v * v for r in mat(ex, A, m, n, lda) for v in r), X.ZERO))


@b("dlascl_")
def dlascl(ex, ty, kl, ku, cf, ct, m, n, A, lda, info):
    "scale a full matrix by cto/cfrom"
    from .irexec import Unsup
    if rdch(ex, ty) != "G":
        raise Unsup("dlascl " + rdch(ex, ty))
    m, n, lda = (rdint(ex, p) for p in (m, n, lda))
    argchk(lda >= max(1, m), "dlascl lda")
    f = ld(ex, ct, 0) / ld(ex, cf, 0)
    put(ex, A, [[f * v for v in r] for r in mat(ex, A, m, n, lda)], lda)
    setinfo(ex, info)


@b("cblas_dsyr")
def dsyr(ex, order, uplo, n, al, x, ix, A, lda):
    "A := alpha x x' + A on one triangle"
    n, ix, lda = map(s32, (n, ix, lda))
    xs = [ld(ex, x, a) for a in vidx(n, ix)]
    col = order == 102
    for j in range(n):
        for i in range(n):
            if (uplo == 121 and i > j) or (uplo == 122 and i < j):
                continue
            q = i + lda * j if col else i * lda + j
            st(ex, A, q, ex.fl(al) * xs[i] * xs[j] + ld(ex, A, q))


@b("strlen")
def strlen(ex, p):
    "length of a string"
    n = 0
    while ex.load(type(p)(p.o, p.off + n), 1):
        n += 1
    return n


@b("pthread_once")
def pthread_once(ex, once, f):
    "calls f on the first call with this control"
    if ex.load(once, 4) == 0:
        ex.store(once, 4, 1)
        ex.call(f.name, [])
    return 0


@b("llvm.is.fpclass.f64")
def _fpc(ex, v, mask):
    "classification of a real: finite, except the constants that stand for the infinities"
    from .irexec import Unsup
    v = ex.fl(v)
    if X.isc(v) and abs(v.args[0]) >= 2 ** 1024:
        bit = 0x200 if v.args[0] > 0 else 0x4
        return 1 if mask & bit else 0
    if mask == 0x1f8:
        return 1
    if mask & 0x1f8 == 0:
        return 0
    raise Unsup("floating-point classification %d" % mask)
