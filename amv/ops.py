"""Specification vocabulary: works on symbolic reals (expr.E) and on numbers."""
import math
from fractions import Fraction
from . import expr as X
from .expr import E
import mpmath
mp = mpmath.mp
mp.dps = 40


def _d(name, f):
    def g(*a):
        if any(isinstance(x, E) for x in a):
            return f(*[X.lift(x) for x in a])
        return getattr(mp, name)(*[N(x) for x in a])
    return g


def N(x):
    if isinstance(x, Fraction):
        return mp.mpf(x.numerator) / x.denominator
    return mp.mpf(x)


sqrt = _d("sqrt", X.sqrt)
sin = _d("sin", X.sin)
cos = _d("cos", X.cos)
atan2 = _d("atan2", X.atan2)
acos = _d("acos", X.acos)
asin = _d("asin", X.asin)
exp = _d("exp", X.exp)
log = _d("log", X.log)


def PI(x):
    """pi of the kind of x"""
    while isinstance(x, (list, tuple)):
        x = x[0]
    return X.PI if isinstance(x, E) else +mp.pi


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def norm(a): return sqrt(dot(a, a))
def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def scale(k, a): return [k * x for x in a]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


# quaternions, order x,y,z,w
def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz]


def qconj(q): return [-q[0], -q[1], -q[2], q[3]]
def pure(v): return [v[0], v[1], v[2], 0]
def qrot(q, p): return qmul(qmul(q, pure(p)), qconj(q))[:3]
def qinv(q):
    n = dot(q, q)
    return [x / n for x in qconj(q)]


def rotmat(q):
    """column-major 3x3 of a (unit) quaternion: columns are images of the axes"""
    x, y, z, w = q
    return [w*w+x*x-y*y-z*z, 2*(x*y+w*z), 2*(x*z-w*y),
            2*(x*y-w*z), w*w-x*x+y*y-z*z, 2*(y*z+w*x),
            2*(x*z+w*y), 2*(y*z-w*x), w*w-x*x-y*y+z*z]


def mmul(A, B, m=3, k=3, n=3):
    """column-major"""
    return [sum_([A[i + m * p] * B[p + k * j] for p in range(k)]) for j in range(n) for i in range(m)]


def sum_(l):
    s = l[0]
    for x in l[1:]:
        s = s + x
    return s


def mv(A, v, m=3, n=3): return [sum_([A[i + m * j] * v[j] for j in range(n)]) for i in range(m)]
def mT(A, m=3, n=3): return [A[j + m * i] if False else A[i + m * j] for i in range(m) for j in range(n)]
def eye(n): return [1 if i == j else 0 for j in range(n) for i in range(n)]
def skew(v):
    """column-major [v]x"""
    return [0, v[2], -v[1], -v[2], 0, v[0], v[1], -v[0], 0]


# rigid transforms (q,v): x -> q x q* + v
def tf_apply(q, v, p): return add(qrot(q, p), v)
def tf_mul(a, b): return (qmul(a[0], b[0]), add(qrot(a[0], b[1]), a[1]))
def tf_inv(a):
    qi = qconj(a[0])
    return (qi, scale(-1, qrot(qi, a[1])))


# dual quaternions [r,d]
def dmul(A, B):
    r = qmul(A[:4], B[:4])
    d = add(qmul(A[:4], B[4:]), qmul(A[4:], B[:4]))
    return r + d


def dconj(A): return qconj(A[:4]) + qconj(A[4:])
def qv2dq(q, v):
    h = qmul(pure(v), q)
    return list(q) + [x / 2 for x in h]
def half(x): return x / 2
