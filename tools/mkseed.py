#!/usr/bin/env python3
"""mkseed.py SPEC.py : (re)generate /verif/seeded/<id>/ from a list SEEDS of dicts
id, property, edits [(file, old, new)], demo (C source using check(cond,msg)), needs, breaks, [lang, libs, cflags]"""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
HDR = """#include "config.h"
#include <amino.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static int fails;
static void check(int ok, const char *msg) { if (!ok) { fails++; printf("FAIL: %s\\n", msg); } }
static int near_(const double *a, const double *b, int n, double tol)
{ for (int i = 0; i < n; i++) if (!(fabs(a[i]-b[i]) <= tol)) return 0; return 1; }
"""
DEMO = """#!/bin/bash
# run in the root of a built source tree
set -e
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
%(cc)s -O1 -w -I. -Iinclude %(cflags)s "$H/demo.%(ext)s" -o "$D/demo" -L.libs %(libs)s -lamino -lm -Wl,-rpath,"$PWD/.libs"
timeout 120 "$D/demo"
"""
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        files = {}
        for f, old, new in s["edits"]:
            t = files.get(f) or open("/repo/" + f).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            files[f] = t.replace(old, new)
        diff = ""
        for f, t in files.items():
            for side, txt in (("a", open("/repo/" + f).read()), ("b", t)):
                os.makedirs(os.path.dirname("%s/%s/%s" % (w, side, f)), exist_ok=True)
                open("%s/%s/%s" % (w, side, f), "w").write(txt)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=w, capture_output=True, text=True)
            diff += r.stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    cpp = s.get("lang") == "c++"
    open(d + "/demo." + ("cpp" if cpp else "c"), "w").write(HDR + s["demo"] + "\nint main(void) { run(); return fails ? 1 : 0; }\n")
    open(d + "/demo.sh", "w").write(DEMO % dict(cc="g++" if cpp else "gcc", ext="cpp" if cpp else "c", cflags=s.get("cflags", ""), libs=s.get("libs", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    print(s["id"], "ok" if r.returncode == 0 else r.stderr)
