"""Check runner:  python3-vt -m amv.run <PROPERTY> [--item ID] [-v]

Verifies every contract item of the property, plus the contracts of all
callees those items rely on, against the LLVM IR compiled from /repo's current
working tree; writes evidence/<PROPERTY>.json; prints VIOLATION lines."""
import sys, os, json, time, random, re, traceback, importlib, signal
import multiprocessing as mp_
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from amv import build, irparse, spec, num, props

T0 = time.time()
BUDGET = float(os.environ.get("AMV_BUDGET", "780"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
if TIER == "thorough" and "AMV_BUDGET" not in os.environ:
    BUDGET = 7200

G = {}


def load_contracts():
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("amv.contracts." + f[:-3])


def work(iid):
    it = spec.ITEMS[iid]
    t0 = time.time()
    out = dict(id=iid, funcs=it.funcs, note=it.note, bounded=it.bounded, partial=it.partial)
    try:
        if it.kind == "ir":
            work_ir(it, out)
        else:
            it.fn(it, out, G)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        out.setdefault("fails", []).append(dict(label="checker", why=traceback.format_exc()[-1500:], found=None))
        out.setdefault("obligations", 1); out.setdefault("discharged", 0)
    out["wall"] = round(time.time() - t0, 3)
    return out


def work_ir(it, out):
    r = spec.verify(G["mod"], it, spec.FUNCS)
    out.update(obligations=r.ngoals, discharged=r.nproved, paths=r.paths, infeasible=r.infeasible,
               contracts=sorted(r.contracts), builtins=sorted(r.builtins), inlined=sorted(r.inlined),
               how=r.how, z3=r.z3, z3t=round(r.z3t, 2), divs=r.divs, divs_ok=r.divs_ok, undef=r.undef[:5])
    fails = [dict(label=f[0], why=f[1], facts=f[2]) for f in r.fails]
    out["fails"] = []
    if TIER == "thorough" and not fails and it.replay:
        f, st = num.search(replay_lib(), G["mod"], it, [], 1500, SEED, timeout=60)
        out["runtime_checks"] = st.get("held", 0)
        if f:
            fails.append(dict(label=f["label"], why="run-time contract check: " + f["msg"], facts=[]))
    if not fails:
        return
    found = None
    st = {}
    if it.replay:
        rng = random.Random(SEED)
        envs = []
        seen = set()
        for f in fails:
            k = tuple(e.id for e, o in f["facts"])
            if k in seen or len(seen) > 8:
                continue
            seen.add(k)
            envs += num.directed(r.decl, f["facts"], rng, want=60, budget=4.0)
        found, st = num.search(replay_lib(), G["mod"], it, envs, 3000, SEED, timeout=40)
        if not found:
            # series branches: look just below the branch threshold with a tolerance of a few ulps
            envs = []
            for f in fails:
                m = re.search(r"small-angle branch: (\{.*?\})", f["why"])
                if m and len(envs) < 200:
                    import ast
                    b = ast.literal_eval(m.group(1))
                    for _ in range(40):
                        e = num.gen(rng, getattr(r.decl, "kinds", []))
                        for n, x in b.items():
                            if "@" + n in e and isinstance(e["@" + n], float):
                                e["@" + n] = x * rng.uniform(.6, .99)
                        envs.append(e)
            if envs:
                found, st2 = num.search(replay_lib(), G["mod"], it, envs, 0, SEED, timeout=20, tol=2e-14)
                st = dict(st, near_threshold=st2.get("held", 0))
    for f in fails:
        from amv import expr as X
        out["fails"].append(dict(label=f["label"], why=f["why"][:1500], path=[(X.show(e, 4), o) for e, o in f["facts"]][:12]))
    out["found"] = found
    out["replay_stats"] = {k: v for k, v in st.items() if k != "found"}


def replay_lib():
    return G["so"]


def findings():
    """known_findings.txt: 'known: property=<id> item=<item> goal=<regex> :: text' ; 'fixed:' lines are ignored"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+item=(\S+)\s+goal=(\S+)\s+::\s*(.*)", ln.strip())
            if m:
                out.append(m.groups())
    return out


def prepare(items):
    G["mod"] = None
    if any(spec.ITEMS[i].kind == "ir" for i in items):
        cxx = any(spec.ITEMS[i].cxx for i in items)
        ll = build.ir(build.sources(cxx))
        G["mod"] = irparse.parse(open(ll).read())
        G["so"] = build.replay_lib(cxx)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    prop = args[0]
    only = args[1:] or None
    load_contracts()
    info = props.PROPS.get(prop)
    items = [i for i, it in spec.ITEMS.items() if prop in it.props and (not only or any(re.fullmatch(o, i) for o in only))]
    if prop == "ALL":
        items = [i for i, it in spec.ITEMS.items() if (not only or any(re.fullmatch(o, i) for o in only))]
    byfunc = {}
    for i, it in spec.ITEMS.items():
        if it.kind == "ir":
            for f in it.funcs:
                if f in spec.FUNCS and it.verifies == f:
                    byfunc[f] = i
    results = {}
    buildfail = None
    try:
        prepare(items)
    except build.BuildError as e:
        buildfail = str(e)
    except SyntaxError as e:
        buildfail = "IR parser: %s" % e
    if buildfail is None:
        todo = list(items)
        order = {i: n for n, i in enumerate(todo)}
        nproc = min(8, os.cpu_count() or 1)
        pending = {}
        ctx = mp_.get_context("fork")
        q = sorted(todo, key=lambda i: -spec.ITEMS[i].cost)
        seen = set(q)
        late = []
        while q or pending:
            while q and len(pending) < nproc:
                i = q.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(i, w))
                p.start(); w.close()
                pending[i] = (p, r, time.time())
            import multiprocessing.connection as mc
            rdy = mc.wait([v[1] for v in pending.values()], timeout=1.0)
            for i, (p, r, t) in list(pending.items()):
                if r in rdy:
                    try:
                        o = r.recv()
                    except EOFError:
                        o = dict(id=i, funcs=spec.ITEMS[i].funcs, obligations=1, discharged=0,
                                 fails=[dict(label="checker", why="worker ended without a result")])
                    results[i] = o
                    p.join(); r.close()
                    del pending[i]
                    for f in o.get("contracts", []):
                        j = byfunc.get(f)
                        if j and j not in seen:
                            seen.add(j); q.append(j)
                        elif not j:
                            o.setdefault("assumed", []).append(f)
                elif time.time() - T0 > BUDGET:
                    p.kill(); p.join()
                    results[i] = dict(id=i, funcs=spec.ITEMS[i].funcs, obligations=1, discharged=0,
                                      fails=[dict(label="time", why="not decided within the time budget")])
                    del pending[i]
            if time.time() - T0 > BUDGET:
                for i in q:
                    results[i] = dict(id=i, funcs=spec.ITEMS[i].funcs, obligations=1, discharged=0,
                                      fails=[dict(label="time", why="not decided within the time budget")])
                q = []
    return report(prop, info, items, results, buildfail, verbose)


def _child(i, w):
    os.setpgid(0, 0) if False else None
    try:
        o = work(i)
    except BaseException as e:
        o = dict(id=i, funcs=spec.ITEMS[i].funcs, obligations=1, discharged=0, fails=[dict(label="checker", why=repr(e))])
    w.send(o)
    w.close()
    os._exit(0)


def report(prop, info, items, results, buildfail, verbose):
    known = findings()
    viol = []
    knownhit = []
    for i, o in sorted(results.items()):
        if not o.get("fails"):
            continue
        rest = []
        for f in o["fails"]:
            k = [x for x in known if x[0] == prop and x[1] == i and re.fullmatch(x[2], f["label"])]
            if k:
                knownhit.append((i, f["label"], k[0][3]))
            else:
                rest.append(f)
        if rest:
            viol.append((i, rest, o))
    if buildfail:
        viol.append(("build", [dict(label="build", why=buildfail)], {}))
    if verbose:
        for i, o in sorted(results.items(), key=lambda t: t[1].get("wall", 0)):
            print("%-44s %s %d/%d paths=%s div=%s/%s z3=%s %.2fs %s" % (i, "ok " if not o.get("fails") else "BAD", o.get("discharged", 0), o.get("obligations", 0),
                  o.get("paths"), o.get("divs_ok"), o.get("divs"), o.get("z3"), o.get("wall", 0), o.get("how", "")))
            for f in o.get("fails", [])[:3]:
                print("      FAIL %s: %s" % (f["label"], f["why"][-400:] if f["label"] == "checker" else f["why"][:300]))
                if f.get("path"):
                    print("           path: %s" % str(f["path"])[:300])
            if o.get("found"):
                print("      FOUND", o["found"])
            if o.get("replay_stats"):
                print("      replay", o["replay_stats"])
            if o.get("undef"):
                print("      UNDEF", o["undef"])
    for h in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s (%s / %s)" % (prop, h[2], h[0], h[1]))
    wall = round(time.time() - T0, 2)
    ev = evidence(prop, info, items, results, wall, len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if prop in props.PROPS:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i, fails, o in viol:
        rp = os.path.join(VERIF, "evidence", "replay_%s_%s.txt" % (prop, re.sub(r"\W", "_", i)))
        found = o.get("found")
        with open(rp, "w") as fh:
            fh.write("property %s, contract item %s (functions: %s)\n" % (prop, i, ", ".join(o.get("funcs", []))))
            if found:
                fh.write("failing input on the compiled code: %s\n  %s\n  inputs: %s\n" % (found["label"], found["msg"], json.dumps(found["inputs"], default=str)))
                fh.write("replay: VERIF_SEED=%d python3-vt -m amv.run %s '%s' -v   (cwd /verif)\n" % (SEED, prop, i))
            else:
                fh.write("no failing input found; replay search: %s\n" % o.get("replay_stats"))
            fh.write("rejected obligations:\n")
            for f in fails:
                fh.write("- %s\n    %s\n" % (f["label"], f["why"]))
                if f.get("path"):
                    fh.write("    on the path where: %s\n" % "; ".join("%s %s 0" % (a, b) for a, b in f["path"]))
        print("  item %s: obligation %s rejected: %s%s" % (i, fails[0]["label"], fails[0]["why"][:300].replace("\n", " "),
              "; failing input: %s %s" % (found["msg"], json.dumps(found["inputs"], default=str)[:300]) if found else ""))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if found else " no-failing-input-found"))
    n = sum(o.get("obligations", 0) for o in results.values())
    d = sum(o.get("discharged", 0) for o in results.values())
    print("%s: %d items, %d/%d obligations discharged, %.1f s" % (prop, len(results), d, n, wall))
    return 1 if viol else 0


def evidence(prop, info, items, results, wall, nviol):
    R = results.values()
    funcs = sorted({f for o in R for f in o.get("funcs", [])})
    how = {}
    for o in R:
        for k, v in o.get("how", {}).items():
            how[k] = how.get(k, 0) + v
    builtins = sorted({f for o in R for f in o.get("builtins", [])})
    inl = sorted({f for o in R for f in o.get("inlined", [])})
    con = sorted({f for o in R for f in o.get("contracts", [])})
    assumed = sorted({f for o in R for f in o.get("assumed", [])})
    partial = sorted({"%s: %s" % (o["id"], o["partial"]) for o in R if o.get("partial")})
    bounded = sorted({"%s: %s" % (o["id"], o["bounded"]) for o in R if o.get("bounded")})
    nb = sum(o.get("discharged", 0) for o in R if o.get("bounded"))
    kinds = {spec.ITEMS[o["id"]].kind for o in R if o["id"] in spec.ITEMS}
    ass = ["floating-point arithmetic is treated as exact real arithmetic (double literals are read as the real they denote, nearby rationals and multiples of pi snapped)"] if "ir" in kinds else []
    if builtins:
        ass.append("assumed contracts of external functions: " + ", ".join(builtins))
    if assumed:
        ass.append("contracts used but not verified: " + ", ".join(assumed))
    ass += ["partial: " + p for p in partial]
    ass += ["bounded (not counted as proved for all sizes): " + b for b in bounded]
    for o in R:
        ass += o.get("assumptions", [])
    seen = []
    for a in ass:
        if a not in seen:
            seen.append(a)
    return dict(property=prop, tier=TIER, seed=SEED, level=(info or {}).get("level", "proof"),
                coverage=dict(obligations=sum(o.get("obligations", 0) for o in R), discharged=sum(o.get("discharged", 0) for o in R),
                              bounded_obligations=nb,
                              checker_cmd="python3-vt -m amv.run " + prop,
                              trusted_base=["clang -O0 front end (C to LLVM IR)", "amv symbolic executor and normal-form prover (/verif/amv)", "z3", "cbmc/goto-instrument where an item says so"] + ["assumed: " + b for b in builtins],
                              functions_under_contract=funcs, functions_inlined=[f for f in inl if f not in funcs], callee_contracts_used=con,
                              discharged_by=how, solver_queries=sum(o.get("z3") or 0 for o in R), solver_time_s=round(sum(o.get("z3t") or 0 for o in R), 2),
                              paths=sum(o.get("paths") or 0 for o in R),
                              division_definedness="%d of %d division obligations proved nonzero" % (sum(o.get("divs_ok") or 0 for o in R), sum(o.get("divs") or 0 for o in R)),
                              runtime_checks=sum(o.get("runtime_checks") or 0 for o in R),
                              items={o["id"]: "%d/%d" % (o.get("discharged", 0), o.get("obligations", 0)) for o in R}),
                assumptions=seen, wall_s=wall, violations=nviol)


if __name__ == "__main__":
    sys.exit(main())
