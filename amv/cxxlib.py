"""Assumed contracts of the libstdc++ parts that are not instantiated in the
sources: std::string operations, the red-black tree and list primitives, strcmp."""
from .builtins import b, TABLE

S = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
CS = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def P(p, k):
    from .irexec import Ptr
    return Ptr(p.o, p.off + k)


def cstr(ex, p):
    out = []
    i = 0
    while True:
        c = ex.load(P(p, i), 1)
        if not isinstance(c, int):
            from .irexec import Unsup
            raise Unsup("symbolic character")
        if c == 0:
            return bytes(out)
        out.append(c)
        i += 1


def sget(ex, s):
    n = ex.load(P(s, 8), 8)
    p = ex.load(s, 8)
    return bytes(ex.load(P(p, i), 1) for i in range(n))


def sset(ex, s, v, fresh=False):
    p = ex.alloc("string", len(v) + 1)
    for i, c in enumerate(v + b"\0"):
        ex.store(P(p, i), 1, c)
    if not fresh:
        ex.load(s, 8).o.dead = True
    ex.store(s, 8, p)
    ex.store(P(s, 8), 8, len(v))


@b(S + "C1EPKcRKS3_", S + "C2EPKcRKS3_", S + "C1IS3_EEPKcRKS3_", S + "C2IS3_EEPKcRKS3_", override=True)
def _sc(ex, s, p, al):
    "std::string holds the characters of the C string"
    from .irexec import MemErr
    if p.o is None:
        raise MemErr("std::string from a null pointer")
    sset(ex, s, cstr(ex, p), True)


@b(S + "C1ERKS4_", S + "C2ERKS4_", override=True)
def _scc(ex, s, o):
    "copy of a std::string"
    sset(ex, s, sget(ex, o), True)


@b(S + "C1EOS4_", S + "C2EOS4_", override=True)
def _scm(ex, s, o):
    "the new string takes the characters, the old one is left empty"
    v = sget(ex, o)
    sset(ex, s, v, True)
    sset(ex, o, b"")


@b(S + "C1Ev", S + "C2Ev", override=True)
def _sc0(ex, s):
    "empty string"
    sset(ex, s, b"", True)


@b(S + "D1Ev", S + "D2Ev", override=True)
def _sd(ex, s):
    "releases the characters"
    from .irexec import MemErr
    o = ex.load(s, 8).o
    if o.dead:
        raise MemErr("string destroyed twice")
    o.dead = True


@b(S + "aSEPKc", override=True)
def _sa(ex, s, p):
    "assignment from a C string"
    sset(ex, s, cstr(ex, p))
    return s


@b(S + "aSERKS4_", S + "aSEOS4_", override=True)
def _sas(ex, s, o):
    "assignment"
    sset(ex, s, sget(ex, o))
    return s


@b(S + "4swapERS4_", override=True)
def _ssw(ex, s, o):
    "exchanges the characters"
    a, c = sget(ex, s), sget(ex, o)
    sset(ex, s, c)
    sset(ex, o, a)


@b(CS + "4sizeEv", CS + "6lengthEv", override=True)
def _ss(ex, s):
    "length"
    return ex.load(P(s, 8), 8)


@b(CS + "5emptyEv", override=True)
def _se(ex, s):
    "no characters"
    return 1 if ex.load(P(s, 8), 8) == 0 else 0


@b(CS + "5c_strEv", CS + "4dataEv", override=True)
def _sp(ex, s):
    "pointer to the characters, valid until the string changes"
    return ex.load(s, 8)


def cmp3(a, c): return 0 if a == c else (1 if a > c else 0xffffffff)


@b(CS + "7compareERKS4_", override=True)
def _scmp(ex, s, o):
    "lexicographic order"
    return cmp3(sget(ex, s), sget(ex, o))


@b(CS + "7compareEPKc", override=True)
def _scmpc(ex, s, p):
    "lexicographic order"
    return cmp3(sget(ex, s), cstr(ex, p))


@b("memcmp", "bcmp")
def _memcmp(ex, a, c, n):
    "order of the bytes"
    for i in range(n):
        x, y = ex.load(P(a, i), 1), ex.load(P(c, i), 1)
        if not isinstance(x, int) or not isinstance(y, int):
            from .irexec import Unsup
            raise Unsup("comparison of symbolic bytes")
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


@b("strcmp")
def _strcmp(ex, a, c):
    "lexicographic order"
    return cmp3(cstr(ex, a), cstr(ex, c))


# ---- std::map / std::set nodes: colour, parent, left, right; in-order position
# is all the sources can see of a tree, so the model does not rebalance
def par(ex, x): return ex.load(P(x, 8), 8)
def lft(ex, x): return ex.load(P(x, 16), 8)
def rgt(ex, x): return ex.load(P(x, 24), 8)
def spar(ex, x, v): ex.store(P(x, 8), 8, v)
def slft(ex, x, v): ex.store(P(x, 16), 8, v)
def srgt(ex, x, v): ex.store(P(x, 24), 8, v)
def eq(a, c): return a.o is c.o and (a.o is None or a.off == c.off)


@b("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def _rbi(ex, left, x, p, h):
    "links the node as the given child, keeping the order"
    from .irexec import NULL
    spar(ex, x, p); slft(ex, x, NULL); srgt(ex, x, NULL)
    ex.store(x, 4, 1)
    if left:
        slft(ex, p, x)
        if eq(p, h):
            spar(ex, h, x); srgt(ex, h, x)
        elif eq(p, lft(ex, h)):
            slft(ex, h, x)
    else:
        srgt(ex, p, x)
        if eq(p, rgt(ex, h)):
            srgt(ex, h, x)


@b("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def _rbinc(ex, x):
    "next node in order"
    if rgt(ex, x).o is not None:
        x = rgt(ex, x)
        while lft(ex, x).o is not None:
            x = lft(ex, x)
        return x
    y = par(ex, x)
    while eq(x, rgt(ex, y)):
        x = y
        y = par(ex, y)
    return y if not eq(rgt(ex, x), y) else x


@b("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def _rbdec(ex, x):
    "previous node in order"
    if ex.load(x, 4) == 0 and eq(par(ex, par(ex, x)), x):
        return rgt(ex, x)
    if lft(ex, x).o is not None:
        y = lft(ex, x)
        while rgt(ex, y).o is not None:
            y = rgt(ex, y)
        return y
    y = par(ex, x)
    while eq(x, lft(ex, y)):
        x = y
        y = par(ex, y)
    return y


@b("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
def _rbe(ex, z, h):
    "unlinks the node, keeping the order of the others"
    from .irexec import NULL

    def replace(a, c):
        p = par(ex, a)
        if eq(par(ex, h), a):
            spar(ex, h, c)
        elif eq(lft(ex, p), a):
            slft(ex, p, c)
        else:
            srgt(ex, p, c)
        if c.o is not None:
            spar(ex, c, p)
    first, last = eq(lft(ex, h), z), eq(rgt(ex, h), z)
    nxt = _rbinc(ex, z) if first else None
    prv = _rbdec(ex, z) if last else None
    l, r = lft(ex, z), rgt(ex, z)
    if l.o is None:
        replace(z, r)
    elif r.o is None:
        replace(z, l)
    else:
        y = r
        while lft(ex, y).o is not None:
            y = lft(ex, y)
        if not eq(y, r):
            replace(y, rgt(ex, y))
            srgt(ex, y, r); spar(ex, r, y)
        replace(z, y)
        slft(ex, y, l); spar(ex, l, y)
    if first:
        slft(ex, h, nxt)
    if last:
        srgt(ex, h, prv if not eq(prv, z) else h)
    if par(ex, h).o is None:
        slft(ex, h, h); srgt(ex, h, h)
    return z


@b("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def _lh(ex, x, pos):
    "links the node before the position"
    p = ex.load(P(pos, 8), 8)
    ex.store(x, 8, pos)
    ex.store(P(x, 8), 8, p)
    ex.store(p, 8, x)
    ex.store(P(pos, 8), 8, x)


@b("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def _lu(ex, x):
    "unlinks the node"
    n, p = ex.load(x, 8), ex.load(P(x, 8), 8)
    ex.store(p, 8, n)
    ex.store(P(n, 8), 8, p)
