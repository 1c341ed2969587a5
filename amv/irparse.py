"""A parser for the textual LLVM IR clang emits (the subset amino needs)."""
import re, struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<loc>%(?:"[^"]*"|[-\w$.]+)) |
  (?P<glob>@(?:"[^"]*"|[-\w$.]+)) |
  (?P<meta>![\w.]*) |
  (?P<attr>\#\d+) |
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+) |
  (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?) |
  (?P<dots>\.\.\.) |
  (?P<id>[A-Za-z_][\w.]*) |
  (?P<p>[\[\]{}()<>,=*:|$])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("token %r in %r" % (s[i:i + 20], s))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Type:
    __slots__ = ("k", "a", "sz", "al")

    def __init__(self, k, a=None):
        self.k = k; self.a = a; self.sz = None; self.al = None

    def __repr__(self):
        return "%s%s" % (self.k, "" if self.a is None else repr(self.a))


class Fn:
    def __init__(self):
        self.name = None; self.ret = None; self.params = []; self.blocks = {}; self.entry = None
        self.vararg = False; self.sret = None; self.byval = {}


PARAM_ATTRS = {"noundef", "noalias", "nonnull", "readonly", "nocapture", "writeonly", "signext", "zeroext", "inreg",
               "returned", "immarg", "readnone", "noreturn", "nest", "writable", "dead_on_unwind", "noalias", "nofree"}
FASTM = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init tokens value, const?)
        self.fns = {}
        self.decls = set()
        self.aliases = {}


class P:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError("expected %s got %s in %s" % (v, x[1], " ".join(t[1] for t in self.t)))

    # types
    def type(self):
        k, v = self.next()
        t = None
        if k == "id":
            if re.fullmatch(r"i\d+", v):
                t = Type("int", int(v[1:]))
            elif v in ("double", "float", "void", "ptr", "label", "metadata", "x86_fp80", "token"):
                t = Type(v)
            elif v == "opaque":
                t = Type("opaque")
            else:
                raise SyntaxError("type " + v)
        elif k == "loc":
            t = Type("named", v)
        elif v == "[":
            n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect("]")
            t = Type("arr", (n, e))
        elif v == "{":
            es = []
            if not self.accept("}"):
                es.append(self.type())
                while self.accept(","):
                    es.append(self.type())
                self.expect("}")
            t = Type("struct", tuple(es))
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                es = []
                if not self.accept("}"):
                    es.append(self.type())
                    while self.accept(","):
                        es.append(self.type())
                    self.expect("}")
                self.expect(">")
                t = Type("pstruct", tuple(es))
            else:
                n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect(">")
                t = Type("vec", (n, e))
        else:
            raise SyntaxError("type token %r" % (v,))
        # function type
        while self.peek()[1] == "(" and t.k in ("void", "int", "double", "float", "ptr", "named", "struct") and self._looks_fnty():
            depth = 0
            va = False
            while True:
                x = self.next()[1]
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
                elif x == "...":
                    va = True
                if depth == 0:
                    break
            t = Type("fn", (t, va))
        while self.accept("*"):
            t = Type("ptr")
        return t

    def _looks_fnty(self):
        # e.g. "i32 (ptr, ...)" : next after '(' is a type or '...' or ')'
        k, v = self.peek(1)
        if v in ("...", ")"):
            return True
        if k == "id" and (re.fullmatch(r"i\d+", v) or v in ("double", "float", "ptr", "void")):
            # distinguish from call args is not needed: callee precedes args
            return True
        return v in ("%",) or k == "loc"

    # values: returned as tuples
    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("l", v)
        if k == "glob":
            return ("g", v)
        if k == "num":
            if ty.k == "int":
                return ("i", int(v) & ((1 << ty.a) - 1))
            return ("f", float(v))
        if k == "hex":
            b = int(v[2:], 16)
            return ("f", struct.unpack("<d", struct.pack("<Q", b))[0])
        if k == "str":
            return ("bytes", cstr(v))
        if v in ("true", "false"):
            return ("i", 1 if v == "true" else 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "[" or v == "{" or v == "<":
            close = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next(); packed = True; close = "}"
            es = []
            if self.peek()[1] != close:
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if not self.accept(","):
                        break
            self.expect(close)
            if packed:
                self.expect(">")
            return ("agg", es)
        if v == "getelementptr":
            inb = None
            while self.peek()[1] in ("inbounds", "inrange"):
                self.next()
            self.expect("(")
            bt = self.type(); self.expect(",")
            ops = []
            while True:
                while self.peek()[1] == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("cgep", bt, ops)
        if v in ("bitcast", "inttoptr", "ptrtoint", "trunc"):
            self.expect("(")
            t = self.type(); x = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("ccast", v, t, x, t2)
        if v == "sub" or v == "add":
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cbin", v, t, a, b)
        if v == "blockaddress":
            raise SyntaxError("blockaddress")
        raise SyntaxError("value %r in %s" % (v, " ".join(t[1] for t in self.t)))

    def skip_attrs(self):
        """skip parameter attributes; return dict of interesting ones"""
        got = {}
        while True:
            k, v = self.peek()
            if k == "attr":
                self.next(); continue
            if k == "id" and v in PARAM_ATTRS:
                self.next(); continue
            if k == "id" and v in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "memory", "range", "initializes", "elementtype", "captures"):
                self.next()
                if v == "align" and self.peek()[1] != "(":
                    self.next(); continue
                self.expect("(")
                if v in ("sret", "byval"):
                    got[v] = self.type(); self.expect(")")
                else:
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == "(") - (x == ")")
                continue
            return got


def cstr(v):
    s = v[v.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 255); i += 1
    return bytes(out)


LINK = {"private", "internal", "dso_local", "external", "unnamed_addr", "local_unnamed_addr", "linkonce_odr", "weak_odr", "weak", "common",
        "linkonce", "hidden", "protected", "thread_local", "available_externally", "constant", "global", "noundef", "zeroext", "signext",
        "nonnull", "noalias", "dso_preemptable", "externally_initialized", "extern_weak", "appending", "default"}


def parse(text, mod=None):
    mod = mod or Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!$" or ln.startswith(("source_filename", "target ", "attributes", "uselist")):
            continue
        if ln.startswith("%"):
            name, rest = ln.split(" = type ", 1)
            p = P(mod, tokenize(rest))
            mod.types[name.strip()] = p.type()
            continue
        if ln.startswith("@"):
            parse_global(mod, ln)
            continue
        if ln.startswith("declare"):
            m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\(", ln)
            mod.decls.add(m.group(1).strip('"'))
            continue
        if ln.startswith("define"):
            body = []
            hdr = ln
            while i < n and lines[i] != "}":
                body.append(lines[i]); i += 1
            i += 1
            f = parse_fn(mod, hdr, body)
            mod.fns[f.name] = f
            continue
        if ln.strip() in ("",) or ln.startswith(("^", "module asm")):
            continue
        raise SyntaxError("line: " + ln)
    return mod


def parse_global(mod, ln):
    p = P(mod, tokenize(ln))
    name = p.next()[1]
    p.expect("=")
    ext = False
    alias = False
    while True:
        k, v = p.peek()
        if k == "id" and v in LINK:
            p.next()
            if v == "external" or v == "extern_weak":
                ext = True
            if v == "thread_local" and p.accept("("):
                while not p.accept(")"):
                    p.next()
            if v in ("constant", "global"):
                break
            continue
        if v in ("alias", "ifunc"):
            alias = True
            p.next()
            break
        if k == "id" and v == "comdat":
            p.next(); continue
        raise SyntaxError("global " + ln)
    t = p.type()
    if alias:
        p.expect(",")
        t2 = p.type()
        mod.aliases[name] = p.value(t2)
        return
    init = None
    if not ext:
        init = p.value(t)
    mod.globals[name] = (t, init)


def parse_fn(mod, hdr, body):
    f = Fn()
    # strip trailing stuff
    p = P(mod, tokenize(hdr.rstrip("{ ")))
    p.expect("define")
    while True:
        k, v = p.peek()
        if k == "id" and v in LINK:
            p.next(); continue
        g = p.i
        p.skip_attrs()
        if p.i == g:
            break
    f.ret = p.type()
    f.name = p.next()[1][1:].strip('"')
    p.expect("(")
    cnt = 0
    while not p.accept(")"):
        if p.accept("..."):
            f.vararg = True
            continue
        t = p.type()
        at = p.skip_attrs()
        nm = p.next()[1] if p.peek()[0] == "loc" else "%%%d" % cnt
        cnt += 1
        if "sret" in at:
            f.sret = len(f.params)
        if "byval" in at:
            f.byval[len(f.params)] = at["byval"]
        f.params.append((t, nm))
        p.accept(",")
    # blocks
    nparams = len(f.params)
    cur = None
    first = True
    pend = ""
    depth_switch = False
    f.lines = 0
    for ln in body:
        s = ln.strip()
        if not s or s[0] == ";":
            continue
        if ln[0] not in " \t":
            m = re.match(r'("[^"]*"|[-\w$.]+):', ln)
            lab = "%" + m.group(1)
            cur = []
            f.blocks[lab] = cur
            if first:
                f.entry = lab; first = False
            continue
        if first:
            # unnamed entry block: number = number of unnamed params
            lab = "%" + str(sum(1 for t, nm in f.params if nm[1:].isdigit()))
            cur = []
            f.blocks[lab] = cur
            f.entry = lab
            first = False
        if depth_switch:
            pend += " " + s
            if s == "]" or s.startswith("]"):
                depth_switch = False
                cur.append(pend)
            continue
        if s.startswith("switch") and not s.rstrip().endswith("]") and "[" in s:
            pend = s
            depth_switch = True
            continue
        if cur and (s.startswith("to label") or (s.startswith(("cleanup", "catch", "filter")))):
            cur[-1] += " " + s
            continue
        cur.append(s)
    f.parsed = {}
    return f


def get_block(mod, f, lab):
    b = f.parsed.get(lab)
    if b is None:
        b = [parse_inst(mod, s) for s in f.blocks[lab]]
        f.parsed[lab] = b
    return b


_CALLPRE = {"tail", "musttail", "notail"}
_CC = {"fastcc", "coldcc", "ccc"}


def parse_inst(mod, s):
    # drop metadata suffix
    p = P(mod, tokenize(s))
    dst = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    if op in _CALLPRE:
        op = p.next()[1]
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        cnt = ("i", 1)
        ct = None
        if p.accept(","):
            if p.peek()[1] != "align":
                ct = p.type(); cnt = p.value(ct)
        return (op, dst, t, cnt)
    if op == "load":
        p.accept("atomic"); p.accept("volatile")
        t = p.type(); p.expect(","); pt = p.type(); return (op, dst, t, p.value(pt))
    if op == "store":
        p.accept("atomic"); p.accept("volatile")
        t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); return (op, None, t, v, p.value(pt))
    if op == "atomicrmw":
        p.accept("volatile")
        k = p.next()[1]
        pt = p.type(); pv = p.value(pt); p.expect(","); t = p.type()
        return (op, dst, k, t, pv, p.value(t))
    if op == "getelementptr":
        p.accept("inbounds")
        bt = p.type(); p.expect(",")
        ops = []
        while True:
            if p.peek()[0] == "meta":
                break
            t = p.type(); ops.append((t, p.value(t)))
            if not p.accept(","):
                break
        return (op, dst, bt, ops)
    if op == "br":
        t = p.type()
        if t.k == "label":
            return ("jmp", None, p.next()[1])
        c = p.value(t); p.expect(","); p.type(); a = p.next()[1]; p.expect(","); p.type(); b = p.next()[1]
        return ("br", None, c, a, b)
    if op == "switch":
        t = p.type(); v = p.value(t); p.expect(","); p.type(); d = p.next()[1]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type(); cv = p.value(ct); p.expect(","); p.type(); cases.append((cv[1], p.next()[1]))
        return ("switch", None, t, v, d, cases)
    if op == "ret":
        t = p.type()
        return ("ret", None, t, None if t.k == "void" else p.value(t))
    if op == "unreachable":
        return ("unreachable", None)
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FASTM:
            p.next()
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        while p.peek()[1] in FASTM or p.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
            p.next()
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return ("bin", dst, op, t, a, b)
    if op == "fneg":
        while p.peek()[1] in FASTM:
            p.next()
        t = p.type(); return ("fneg", dst, t, p.value(t))
    if op in ("trunc", "zext", "sext", "fpext", "fptrunc", "uitofp", "sitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "bitcast", "freeze"):
        p.accept("nneg")
        t = p.type(); v = p.value(t)
        t2 = t
        if op != "freeze":
            p.expect("to"); t2 = p.type()
        return ("cast", dst, op, t, v, t2)
    if op == "phi":
        while p.peek()[1] in FASTM:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); l = p.next()[1]; p.expect("]")
            inc.append((v, l))
            if not p.accept(","):
                break
        return ("phi", dst, t, inc)
    if op == "select":
        while p.peek()[1] in FASTM:
            p.next()
        ct = p.type(); c = p.value(ct); p.expect(","); t = p.type(); a = p.value(t); p.expect(","); t2 = p.type(); b = p.value(t2)
        return ("select", dst, t, c, a, b)
    if op in ("call", "invoke"):
        while p.peek()[1] in FASTM or p.peek()[1] in _CC:
            p.next()
        p.skip_attrs()
        t = p.type()
        # callee
        if p.peek()[1] == "asm":
            return ("asm", dst, s)
        callee = p.value(Type("ptr"))
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            if at.k == "metadata":
                d = 0
                while not (d == 0 and p.peek()[1] in (",", ")")):
                    x = p.next()[1]
                    d += (x in "([{") - (x in ")]}")
                args.append((at, ("undef",), {}))
            else:
                a = p.skip_attrs()
                args.append((at, p.value(at), a))
            p.accept(",")
        nd = None
        if op == "invoke":
            while p.next()[1] != "to":
                pass
            p.type(); nd = p.next()[1]
        return ("call", dst, t if t.k != "fn" else t.a[0], callee, args, nd)
    if op == "extractvalue":
        t = p.type(); v = p.value(t)
        ix = []
        while p.accept(","):
            if p.peek()[0] != "num":
                break
            ix.append(int(p.next()[1]))
        return ("extractvalue", dst, t, v, ix)
    if op == "insertvalue":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); x = p.value(t2)
        ix = []
        while p.accept(","):
            if p.peek()[0] != "num":
                break
            ix.append(int(p.next()[1]))
        return ("insertvalue", dst, t, v, x, ix)
    if op in ("extractelement",):
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); ix = p.value(t2)
        return ("extractelement", dst, t, v, ix)
    if op in ("insertelement",):
        t = p.type(); v = p.value(t); p.expect(","); t1 = p.type(); x = p.value(t1); p.expect(","); t2 = p.type(); ix = p.value(t2)
        return ("insertelement", dst, t, v, x, ix)
    return ("unsupported", dst, op, s)
