"""Builds LLVM IR and a replay library from /repo's current working tree."""
import os, subprocess, sys, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AMV_REPO", "/repo")
_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix="amv.")
        _scratch.append(d)
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return _scratch[0]


CPP = ["-DHAVE_CONFIG_H"] + ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", d) for d in ("clp", "fcl")] + [ "-I.", "-Iinclude", "-Isrc/mac"]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-math-errno", "-w", "-S", "-emit-llvm"]


class BuildError(Exception):
    pass


def config_dir():
    """config.h is an untracked build product; fall back to a copy kept in /verif"""
    if os.path.exists(os.path.join(REPO, "config.h")):
        return []
    return ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "config")]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def ir(sources, extra=(), harness=()):
    """compile sources (relative to REPO; .c or .cpp) and link to one textual module"""
    d = os.path.join(scratch(), "ir")
    os.makedirs(d, exist_ok=True)
    outs = []

    def one(src):
        o = os.path.join(d, src.strip("/").replace("/", "_") + ".bc")
        cxx = src.endswith(".cpp")
        flags = [f for f in IRFLAGS if f != "-S"] + ["-c"]
        cmd = ["/usr/bin/clang++" if cxx else "/usr/bin/clang"] + CPP + config_dir() + \
            (["-std=gnu++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] if cxx else ["-std=gnu11"]) + flags + list(extra) + [src, "-o", o]
        run(cmd, cwd=REPO)
        return o
    srcs = list(sources) + list(harness)
    if "src/mac/euler_f2c.c" in srcs:
        srcs.append(euler("c"))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    out = os.path.join(d, "all.ll")
    link = shutil.which("llvm-link") or shutil.which("llvm-link-18")
    run([link, "-S", "-o", out] + outs)
    return out


def euler(kind):
    """regenerate euler.f from the maxima sources of the working tree, as the
    build does; kind 'f' -> path of euler.f, 'c' -> path of its f2c translation"""
    d = os.path.join(scratch(), "mac")
    f = os.path.join(d, "euler.f")
    if not os.path.exists(f):
        os.makedirs(d, exist_ok=True)
        for n in ("amino.mac", "euler77.mac", "euler.mac"):
            p = os.path.join(REPO, "src/mac", n)
            if os.path.exists(p):
                shutil.copy(p, d)
        out = run(["maxima", "--very-quiet", "-b", "euler77.mac"], cwd=d)
        if not os.path.exists(f):
            raise BuildError("maxima did not produce euler.f\n" + out[-2000:])
    if kind == "f":
        return f
    c = os.path.join(d, "euler.c")
    if not os.path.exists(c):
        run(["f2c", "euler.f"], cwd=d)
        import re
        t = open(c).read()
        t = re.sub(r"\b(aa_tf_\w*?)__\b", r"\1_", t)
        open(c, "w").write(t)
    return c


def sources(cxx=False):
    """sources under verification"""
    h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    return C_SOURCES + (CXX_SOURCES if cxx else []) + [os.path.join(h, f) for f in sorted(os.listdir(h)) if f.endswith(".c")]


C_SOURCES = ["src/mem.c", "src/refcount.c", "src/mat.c", "src/la.c", "src/la2.c", "src/tf.c", "src/tf/tfmatrix.c", "src/tf/quat.c",
             "src/tf/tfp.c", "src/diffeq.c", "src/tf/conv.c", "src/mac/euler_f2c.c", "src/math.c", "src/kin.c", "src/sigsys.c", "src/heap.c"]


CXX_SOURCES = ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/scene_sub.cpp", "src/rx/scene_kin.c", "src/rx/sg_capi.c", "src/rx/scene_geom.c",
               "src/rx/scene_wk.c", "src/rx/scene_ik.c", "src/rx/ik_opt.c", "src/rx/mp_seq.cpp",
               "src/ct/traj.cpp", "src/ct/state.c", "src/debug.c", "src/time.c", "src/rx/rx_ct.c",
               "src/opt/opt.c", "src/opt/opt_glpk.c", "src/opt/opt_lpsolve.c", "src/opt/opt_clp.cpp", "src/rx/lc3.c",
               "src/rx/collision_set.cpp", "src/rx/amino_fcl.cpp", "src/rx/geom_opt.c"]


# sources whose file-scope functions are replayed directly
STATIC_REPLAY = ("src/rx/scene_ik.c",)


def replay_lib(cxx=False):
    """shared library of the real code for counterexample replay; optimised
    build of the same sources plus the Fortran parts"""
    d = os.path.join(scratch(), "so")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "libreplay.so")
    objs = []

    def one(src):
        o = os.path.join(d, src.strip("/").replace("/", "_") + ".o")
        if src.endswith((".F90", ".f")):
            cmd = ["gfortran", "-O1", "-fPIC", "-DHAVE_CONFIG_H", "-I.", "-Iinclude", "-Isrc/mac", "-J", d, "-w", "-c", src, "-o", o]
        else:
            cxx = src.endswith(".cpp")
            cmd = ["g++" if cxx else "gcc"] + CPP + config_dir() + (["-std=gnu++11"] if cxx else ["-std=gnu11"]) + \
                ["-O1", "-g", "-fPIC"] + (["-fno-inline-functions-called-once"] if src in STATIC_REPLAY else []) + [ "-w", "-c", src, "-o", o]
        run(cmd, cwd=REPO)
        if src in STATIC_REPLAY:
            loc = [l.split()[0] for l in run(["nm", "-P", o]).splitlines() if l.split()[1:2] == ["t"] and "." not in l.split()[0]]
            run(["objcopy"] + ["--globalize-symbol=" + n for n in loc] + [o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources(cxx) + [euler("f")]))
    # functions of parts of the library that are not under contract here
    have, want = set(), set()
    for l in run(["nm", "-P"] + objs).splitlines():
        w = l.split()
        if len(w) >= 2 and w[0].startswith("aa_"):
            (want if w[1] == "U" else have).add(w[0])
    st = os.path.join(d, "stubs.c")
    with open(st, "w") as f:
        f.write('extern "C" void abort(void);\n' + "".join('extern "C" void %s(void) { abort(); }\n' % n for n in sorted(want - have)))
    objs.append(st)
    run(["g++", "-shared", "-fPIC", "-o", out] + objs + ["-llapack", "-lblas", "-lm", "-lpthread", "-lgfortran", "-Wl,--unresolved-symbols=ignore-all"], cwd=REPO)
    return out
