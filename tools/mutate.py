"""Mutation campaign (not a check): small changes to /repo's sources, each
compiled to IR, and the contract items that reach the changed function rerun.
usage: python3-vt tools/mutate.py OUT FILE... [-n COUNT]   (files relative to /repo)"""
import sys, os, re, random, json, subprocess, shutil, time, glob
import multiprocessing as mp
OUT = sys.argv[1]
N = 200
args = sys.argv[2:]
if "-n" in args:
    k = args.index("-n"); N = int(args[k + 1]); del args[k:k + 2]
FILES = args
NW = 7
BASE = "/tmp/mut/base"
if not os.path.exists(BASE):
    os.makedirs(BASE)
    subprocess.run("cd /repo && tar cf - --exclude=.git --exclude=*.o --exclude=.libs --exclude=*.lo --exclude=*.a --exclude=*.la . | tar xf - -C " + BASE, shell=True, check=True)
os.environ["AMV_REPO"] = BASE
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from amv import build, irparse, spec, run

OPS = [(r"(?<=[\w\])] )\+(?= )", "-"), (r"(?<=[\w\])] )-(?= )", "+"), (r"(?<=[\w\])])\+(?=[\w(])", "-"), (r"(?<=[\w\])])-(?=[\w(])", "+"),
       (r"\+=", "-="), (r"-=", "+="), (r"(?<= )\*(?= )", "/"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
       (r"(?<![<>=\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[1]"), (r"\[3\]", "[2]"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"),
       (r"_X\b", "_Y"), (r"_Y\b", "_Z"), (r"_Z\b", "_W"), (r"\b2\.0\b|\b2\.\b", "3.0"), (r"\bfabs\b", ""), (r"\bqmul\b", "qmulc"), (r"\bcross\b", "cross"),
       (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\brows\b", "cols"), (r"\bcols\b", "rows"), (r"\bM_PI\b", "M_PI_2"), (r"= -", "= "), (r"\bsize\b", "n"),
       (r"(?<=[(,] )-(?=\w)", ""), (r"\blda\b", "ldb"), (r"\binc\b", "len"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"^\s*[\w\->\[\].]+\s*(=|\+=)[^=].*;\s*$", "DEL"), (r"^\s*[\w]+\(.*\);\s*$", "DEL")]


def mutants(rng):
    out = []
    for f in FILES:
        L = open(os.path.join(BASE, f)).read().split("\n")
        com = False
        for i, l in enumerate(L):
            if com:
                if "*/" in l: com = False
                continue
            s = l.strip()
            if s.startswith("/*"):
                com = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "*")) or s.startswith("AA_API") or not l.startswith((" ", "\t")):
                continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    n = "" if rep == "DEL" else l[:m.start()] + rep + l[m.end():]
                    out.append((f, i, n))
    rng.shuffle(out)
    return out


def defs(t):
    r = {}
    for m in re.finditer(r'^define [^@]*@"?([\w.$]+)"?\(.*?^}', t, re.M | re.S):
        r[m.group(1)] = re.sub(r" #\d+|!\d+", "", m.group(0))
    return r


def comp(src, cwd, o):
    cxx = src.endswith(".cpp")
    cmd = ["/usr/bin/clang++" if cxx else "/usr/bin/clang"] + build.CPP + (["-std=gnu++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] if cxx else ["-std=gnu11"]) + \
        [f for f in build.IRFLAGS if f != "-S"] + ["-c", src, "-o", o]
    return subprocess.run(cmd, cwd=cwd, capture_output=True).returncode


def tus(f):
    if f.endswith("quat_ord.c") or "tf/quat_" in f: return ["src/tf/quat.c"]
    if f.endswith(".h") or f.endswith(".hpp"):
        return [s for s in build.sources(CXX)]
    return [f]


CXX = any("rx/" in f or "ct/" in f for f in FILES)


def child(iid, w):
    try:
        run.replay_lib = lambda: None
        it = spec.ITEMS[iid]
        if it.kind == "ir":
            r = spec.verify(run.G["mod"], it, spec.FUNCS)
            w.send(("bad" if r.fails else "ok", sorted(set(r.inlined) | set(r.contracts)), r.fails[0][1][:200] if r.fails else ""))
        else:
            o = run.work(iid)
            w.send(("bad" if o.get("fails") else "ok", [], str(o.get("fails"))[:200]))
    except BaseException as e:
        w.send(("bad", [], repr(e)[:200]))
    w.close(); os._exit(0)


def runitem(iid, tmo):
    r, w = mp.Pipe(False)
    p = mp.Process(target=child, args=(iid, w)); p.start(); w.close()
    res = ("timeout", [], "")
    if r.poll(tmo):
        try: res = r.recv()
        except EOFError: res = ("bad", [], "eof")
    p.kill(); p.join()
    return res


def baseline(iid):
    t = time.time()
    return iid, runitem(iid, 300), time.time() - t


def one(job):
    k, (f, i, n) = job
    d = "/tmp/mut/w%d" % (os.getpid())
    if not os.path.exists(d):
        shutil.copytree(BASE, d)
        shutil.copytree(BCDIR, d + "/bc")
    p = os.path.join(d, f)
    orig = open(os.path.join(BASE, f)).read()
    L = orig.split("\n")
    old = L[i]
    L[i] = n
    open(p, "w").write("\n".join(L))
    try:
        bcs = []
        chg = tus(f)
        for s in build.sources(CXX):
            o = d + "/bc/" + s.strip("/").replace("/", "_") + ".bc"
            if s in chg:
                o2 = o + ".m"
                if comp(s, d, o2): return None
                bcs.append(o2)
            else:
                bcs.append(o)
        bcs += glob.glob(d + "/bc/*euler.c.bc")
        if subprocess.run([LINK, "-S", "-o", d + "/m.ll"] + bcs, capture_output=True).returncode: return None
        t = open(d + "/m.ll").read()
        dd = defs(t)
        ch = [x for x in dd if dd[x] != DEFS.get(x)]
        if not ch:
            gl = set(re.findall(r"^@.*$", t, re.M)) - set(re.findall(r"^@.*$", BASETEXT, re.M))
            if not gl: return None
            nm = [g.split(" ")[0] for g in gl]
            ch = [x for x in dd if any(re.search(re.escape(n) + r"(?![\w.])", dd[x]) for n in nm)]
        items = set()
        for c in ch: items |= FMAP.get(c, set())
        items = sorted(items, key=lambda x: (TIMES[x], x))
        rec = dict(f=f, line=i + 1, old=old.strip(), new=n.strip(), funcs=ch[:3], nitems=len(items))
        build.REPO = d
        if items:
            run.G["mod"] = irparse.parse(t)
            t0 = time.time()
            for it in items[:40]:
                r = runitem(it, 60 + 4 * TIMES[it])
                if r[0] != "ok":
                    rec.update(killed=it, why=r[2] or r[0]); break
                if time.time() - t0 > 240: rec["partial"] = True; break
        return rec
    except Exception as e:
        return dict(f=f, line=i + 1, old=old.strip(), new=n.strip(), funcs=[], err=repr(e)[:200])
    finally:
        open(p, "w").write(orig)


if __name__ == "__main__":
    run.load_contracts()
    spec.ITEMS = {k: v for k, v in spec.ITEMS.items() if CXX or not v.cxx}
    ll = build.ir(build.sources(CXX))
    BCDIR = os.path.join(build.scratch(), "ir")
    LINK = shutil.which("llvm-link") or shutil.which("llvm-link-18")
    BASETEXT = open(ll).read()
    DEFS = defs(BASETEXT)
    run.G["mod"] = irparse.parse(BASETEXT)
    FMAP, TIMES = {}, {}
    cf = "/tmp/mut/basecache_%d.json" % CXX
    if os.path.exists(cf):
        FM, TIMES = json.load(open(cf))
        FMAP = {k: set(v) for k, v in FM.items()}
    else:
        ids = [i for i, it in spec.ITEMS.items() if it.kind == "ir" or not CXX]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for iid, r, t in ex.map(baseline, ids):
                if r[0] != "ok": print("baseline", iid, r[0], r[2][:100], flush=True)
                TIMES[iid] = t
                for f in list(spec.ITEMS[iid].funcs) + r[1]: FMAP.setdefault(f, set()).add(iid)
        json.dump(({k: sorted(v) for k, v in FMAP.items()}, TIMES), open(cf, "w"))
    print("baseline done", len(TIMES), flush=True)
    rng = random.Random(int(os.environ.get("SEED", "1")))
    M = mutants(rng)[:N]
    print(len(M), "mutants", flush=True)
    from concurrent.futures import ProcessPoolExecutor
    res = []
    with ProcessPoolExecutor(NW, mp_context=mp.get_context("fork")) as ex:
        for r in ex.map(one, list(enumerate(M))):
            if r:
                res.append(r)
                if "killed" not in r:
                    print("SURV %s:%d %s [%s] %d items | %s  ==> %s" % (r["f"], r["line"], r.get("err", ""), ",".join(r["funcs"]), r.get("nitems", 0), r["old"], r["new"]), flush=True)
    json.dump(res, open(OUT, "w"), indent=0)
    print("total %d killed %d" % (len(res), sum("killed" in r for r in res)))
    for d in glob.glob("/tmp/mut/w*"):
        shutil.rmtree(d, ignore_errors=True)
