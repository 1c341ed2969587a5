"""CBMC items: function contracts (requires / ensures / assigns / frees) written in
amv/cbmc/*.c on the declarations of /repo's functions, enforced with
goto-instrument --dfcc and discharged by cbmc on the source text of /repo (the
contract file #includes the real .c / .h file).  Items without `enforce` state
the contract as assume / call / assert around the real function."""
import os, subprocess, json, time, re
from . import build, spec

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cbmc")
BASE = ["--no-standard-checks", "--pointer-check", "--bounds-check", "--div-by-zero-check", "--no-malloc-may-fail"]


def item(iid, props, file, harness, enforce=None, replace=(), funcs=None, unwind=6, bounded=None, note="", checks=(), driver=None,
         cost=3, defines=(), timeout=600, assumptions=(), unwindset=(), solver=None, driver_args=(), calls=(), thorough=False):
    if thorough and os.environ.get("VERIF_TIER") != "thorough":
        return
    if funcs is None:
        funcs = [enforce] if enforce else []
    if isinstance(funcs, str):
        funcs = funcs.split()

    def fn(it, out, G):
        run_item(it, out, file, harness, enforce, replace, unwind, checks, driver, defines, timeout, assumptions, unwindset, solver, driver_args, calls)
    spec.ITEMS[iid] = spec.Item(iid, props.split(), fn, funcs, note=note, bounded=bounded, kind="cbmc", cost=cost)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -99, "timed out: %s" % " ".join(cmd[:3])


def run_item(it, out, file, harness, enforce, replace, unwind, checks, driver, defines, timeout, assumptions, unwindset, solver, driver_args, calls=()):
    d = os.path.join(build.scratch(), "cbmc_" + re.sub(r"\W", "_", it.id) + "_%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, file)
    g = os.path.join(d, "a.goto")
    out["obligations"] = 1; out["discharged"] = 0; out["fails"] = []
    out["assumptions"] = list(assumptions)
    cpp = build.CPP + build.config_dir() + ["-I" + HERE] + ["-D" + x for x in defines]
    rc, o = sh(["goto-cc"] + cpp + ["-DAMV_CBMC", "-D__OPTIMIZE__=0", src, "-o", g, "--function", harness], 120, cwd=build.REPO)
    if rc:
        out["fails"].append(dict(label="compile", why=o[-1500:]))
        return drive(it, out, driver, driver_args)
    for c in calls:
        g2 = os.path.join(d, "c.goto")
        rc, o = sh(["goto-instrument", "--replace-calls", c, g, g2], 120)
        if rc:
            out["fails"].append(dict(label="instrument", why=o[-1500:]))
            return drive(it, out, driver, driver_args)
        g = g2
    if enforce:
        g2 = os.path.join(d, "b.goto")
        cmd = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", harness, "--enforce-contract", enforce]
        for r in replace:
            cmd += ["--replace-call-with-contract", r]
        rc, o = sh(cmd + [g, g2], 120)
        if rc:
            out["fails"].append(dict(label="instrument", why=o[-1500:]))
            return drive(it, out, driver, driver_args)
        g = g2
    cmd = ["cbmc", g] + BASE + list(checks) + ["--unwind", str(unwind), "--unwinding-assertions", "--json-ui"]
    for u in unwindset:
        cmd += ["--unwindset", u]
    if solver:
        cmd += solver.split()
    rc, o = sh(cmd + ["--show-properties"], 120)
    try:
        ps = [p for e in json.loads(o) for p in e.get("properties", [])]
    except ValueError:
        out["fails"].append(dict(label="cbmc", why=o[-1500:]))
        return drive(it, out, driver, driver_args)
    # comparing a one-past pointer that was advanced beyond the end is outside ISO C but defined by the compilers used
    drop = [p for p in ps if p["description"].startswith(("pointer relation", "same object violation"))]
    keep = [p["name"] for p in ps if p not in drop]
    if drop:
        out["assumptions"].append("pointer comparisons beyond the end of an object behave like address comparisons (flat memory)")
    t0 = time.time()
    rf = os.path.join(d, "props")
    rc, o = sh(cmd + [x for n in keep for x in ("--property", n)], timeout)
    out["z3t"] = round(time.time() - t0, 2); out["z3"] = 1
    res = None
    try:
        for e in json.loads(o):
            if "result" in e:
                res = e["result"]
    except ValueError:
        pass
    if res is None:
        out["fails"].append(dict(label="cbmc", why=o[-1500:]))
        return drive(it, out, driver, driver_args)
    probe = [r for r in res if r["description"] == "vacuity probe"]
    res = [r for r in res if r["description"] != "vacuity probe"]
    out["obligations"] = len(res); out["discharged"] = sum(r["status"] == "SUCCESS" for r in res)
    out["how"] = {"cbmc (%s)" % (solver or "--minisat")[2:]: out["discharged"]}
    for r in res:
        if r["status"] == "FAILURE":
            loc = r.get("sourceLocation", {})
            out["fails"].append(dict(label=r["description"].replace(" ", "_") if r["property"].startswith("h.assertion") else r["property"], prop=r["property"], why="%s (%s:%s)" % (r["description"], os.path.basename(loc.get("file", "")), loc.get("line"))))
    if probe and all(r["status"] == "SUCCESS" for r in probe):
        out["fails"].append(dict(label="vacuity", why="no execution reaches the end of the contract harness", prop=probe[0]["property"]))
    if out["fails"]:
        rc, o = sh(cmd[:-1 - 0] and [c for c in cmd if c != "--json-ui"] + ["--trace", "--property", out["fails"][0].pop("prop")], timeout)
        tr = [l.strip() for l in o.splitlines() if re.match(r"^\s+\w[^=]*=", l)]
        tr = [l for l in tr if not l.startswith(("__CPROVER", "__", "goto_", "set->", "car", "write_set"))]
        out["fails"][0]["why"] += "\n    counterexample states: " + "; ".join(tr[-60:])[:3000]
        return drive(it, out, driver, driver_args)
    if it.bounded is None and out["discharged"] != out["obligations"]:
        out["fails"].append(dict(label="cbmc", why="undetermined obligations"))


def drive(it, out, driver, driver_args):
    """look for a concrete failing history on the real code, compiled natively"""
    out["found"] = None
    if not driver:
        return
    exe = os.path.join(build.scratch(), "drv_%s_%d" % (os.path.basename(driver), os.getpid()))
    rc, o = sh(["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=address"] + build.CPP + build.config_dir() +
               ["-I" + HERE, os.path.join(HERE, driver), "-o", exe, "-lm", "-lpthread"], 120, cwd=build.REPO)
    if rc:
        out["replay_stats"] = dict(driver="does not compile: " + o[-300:])
        return
    rc, o = sh([exe, os.environ.get("VERIF_SEED", "1")] + list(driver_args), 60)
    if rc not in (0, -99):
        lines = o.strip().splitlines()
        key = [l for l in lines if l.startswith("BREACH") or "ERROR: AddressSanitizer" in l or "runtime error" in l] or lines[-1:]
        out["found"] = dict(label="native driver", msg=key[0][:300], inputs=dict(history="\n".join(lines[:40])[:2000], driver=driver, seed=os.environ.get("VERIF_SEED", "1")))
    else:
        out["replay_stats"] = dict(driver="%s: no breach" % driver)
