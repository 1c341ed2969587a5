"""R03: Euler angles"""
from fractions import Fraction
from ..spec import item, fun
from ..ops import *

P = "R03"
AX = {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1]}


def eq_(seq, e):
    q = None
    for a, t in zip(seq, e):
        k = [sin(t / 2) * x for x in AX[a]] + [cos(t / 2)]
        q = k if q is None else qmul(q, k)
    return q


for _s in "xyz xzy yxz yzx zyx zxy xyx xzx yxy yzy zxz zyz".split():
    @item("aa_tf_euler%s2quat" % _s, P, ["aa_tf_euler%s2quat" % _s])
    def _(c, s=_s):
        e = [c.scalar(k) for k in ("e1", "e2", "e3")]
        o = c.out(4)
        c.call("aa_tf_euler%s2quat" % s, e[0], e[1], e[2], o)
        q = o.get()
        c.anyof("product of elementary rotations", [(q, eq_(s, e)), (q, scale(-1, eq_(s, e)))])

    @item("aa_tf_euler%s2rotmat" % _s, P, ["aa_tf_euler%s2rotmat" % _s])
    def _(c, s=_s):
        e = [c.scalar(k) for k in ("e1", "e2", "e3")]
        o = c.out(9)
        c.call("aa_tf_euler%s2rotmat" % s, e[0], e[1], e[2], o)
        R = None
        for a, t in zip(s, e):
            M = rotmat([sin(t / 2) * x for x in AX[a]] + [cos(t / 2)])
            R = M if R is None else mmul(R, M)
        c.eq("product of elementary rotations", o.get(), R)


def zyx(c):
    """angles in general position: pitch strictly inside a half turn"""
    a, b, g = c.angle("a", -1, 1), c.angle("b", "-1/2", "1/2"), c.angle("g", -1, 1)
    c.req(cos(b), ">")
    return [a, b, g]


@item("aa_tf_rotmat2eulerzyx", P, "aa_tf_rotmat2eulerzyx")
def _(c):
    e = zyx(c)
    o = c.out(3)
    c.call("aa_tf_rotmat2eulerzyx", c.inp(rotmat(eq_("zyx", e))), o)
    r = o.get()
    c.eq("sines", [sin(t) for t in r], [sin(t) for t in e])
    c.eq("cosines", [cos(t) for t in r], [cos(t) for t in e])


@item("aa_tf_quat2eulerzyx", P, "aa_tf_quat2eulerzyx")
def _(c):
    e = zyx(c)
    k = c.scalar("k", pos=True)
    o = c.out(3)
    c.call("aa_tf_quat2eulerzyx", c.inp(scale(k, eq_("zyx", e))), o)
    r = o.get()
    c.eq("sines", [sin(t) for t in r], [sin(t) for t in e])
    c.eq("cosines", [cos(t) for t in r], [cos(t) for t in e])
