#!/usr/bin/env python3
"""Content-addressed incremental builder of aocl-da (from /repo's working tree) and of the harnesses."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
SRC = REPO + "/source"
INC = ["include", "core/drivers", "core/basic_statistics", "core/optimization", "core/utilities",
       "core/dynamic_dispatch", "core/csv", "core/metrics", "core/linear_model", "core/data_management",
       "core/factorization", "core/clustering", "core/decision_forest", "core/decision_forest/tree", "core/nlls",
       "core/nearest_neighbors", "core/svm", "core/kernel_functions", "core/interpolation",
       "core/approximate_neighbors", "core/dimension_reduction"]
INCS = [f"-I{VERIF}/shim"] + [f"-I{SRC}/{i}" for i in INC] + \
       [f"-I{REPO}/external/Lbfgsb.3.0", f"-I{REPO}/external/RALFit",
        f"-I{REPO}/external/RALFit/libRALFit/include", f"-I{REPO}/external/kernel-templates",
        "-I/usr/include/x86_64-linux-gnu/openblas-pthread"]
COMMON = ["-fopenmp", "-march=x86-64", "-mavx2", "-mfma", "-fPIC", "-w",
          '-DAOCLDA_VERSION_STRING="AOCL-DA"', '-DAOCLDA_GIT_COMMIT="unknown"']
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
# variant -> (flags, archs, harness flags, link flags)
VARIANTS = {
    "asan": (["-O1"] + ASAN, ["generic"], ["-O1"] + ASAN, ["-fsanitize=address"]),
    "fast": (["-O2"], ["generic"], ["-O1"], []),
    "dyn": (["-O2"], ["generic", "generic_avx512"], ["-O1"], []),
    "sched": (["-O1", "-fsanitize=thread"], ["generic"], ["-O1"], []),
}
ARCHFLAGS = {"generic": [], "generic_avx512": ["-mavx512f", "-mavx512dq", "-mavx512vl"]}


class BuildError(Exception):
    pass


_hcache, _hlock = {}, threading.Lock()


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    with _hlock:
        if k in _hcache:
            return _hcache[k]
    h = hashlib.sha1(open(path, "rb").read()).hexdigest()
    with _hlock:
        _hcache[k] = h
    return h


def sha(*parts):
    h = hashlib.sha1()
    for x in parts:
        h.update(x if isinstance(x, bytes) else str(x).encode())
        h.update(b"\0")
    return h.hexdigest()


def sources():
    """(public, internal) source lists, as the repository's own build classifies them."""
    txt = re.sub(r"#.*", "", open(SRC + "/CMakeLists.txt").read())
    var = {}
    for m in re.finditer(r"set\(\s*(DA_\w+)([^)]*)\)", txt):
        items = []
        for it in m.group(2).split():
            r = re.fullmatch(r"\$\{(\w+)\}", it)
            items += var.get(r.group(1), []) if r else [it]
        var[m.group(1)] = items
    pub, intr = var.get("DA_CORE_PUBLIC", []), var.get("DA_CORE_DYNAMIC_DISPATCH", [])
    return [f"{SRC}/{x}" for x in pub], [f"{SRC}/{x}" for x in intr]


def read_dep(path):
    t = open(path).read().replace("\\\n", " ")
    return t.split(":", 1)[1].split()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode:
        raise BuildError(" ".join(cmd)[-300:] + "\n" + r.stdout.decode(errors="replace")[-3000:])


def compile_one(src, obj, flags, lang):
    """Compile if anything the object depends on changed in content (comments and blank lines aside)."""
    meta = obj + ".json"
    cc = ["gcc"] if lang == "c" else ["g++", "-std=c++17"]
    base = cc + flags
    fkey = sha(*base)
    old = None
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            old = json.load(open(meta))
        except ValueError:
            old = None
        if old and old["flags"] == fkey:
            if all(fhash(d) == h for d, h in old["deps"].items()):
                return False
        else:
            old = None
    pp = subprocess.run(base + ["-E", "-P", "-MMD", "-MF", obj + ".d", "-MT", "x", src], stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE)
    if pp.returncode:
        raise BuildError(src + "\n" + pp.stderr.decode(errors="replace")[-3000:])
    key = sha(pp.stdout)
    new = {"flags": fkey, "deps": {d: fhash(d) for d in read_dep(obj + ".d")}, "pp": key}
    changed = not (old and old["pp"] == key)
    if changed:
        tmp = obj + f".tmp{os.getpid()}.o"
        run(base + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    with open(meta + ".tmp", "w") as f:
        json.dump(new, f)
    os.replace(meta + ".tmp", meta)
    return changed


def fortran_job(name, d, files, flags):
    """One precision of one Fortran library, its modules in order."""
    out = f"{BUILD}/fortran/{name}"
    os.makedirs(out, exist_ok=True)
    allf = sorted(glob.glob(d + "/*.F90") + glob.glob(d + "/*.FPP") + glob.glob(d + "/../include/*"))
    key = sha(*flags, *files, *[f + fhash(f) for f in allf if os.path.isfile(f)])
    kf, lib = out + "/key", out + f"/lib{name}.a"
    if os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == key:
        return lib
    objs = []
    for f in files:
        o = f"{out}/{f}.o"
        run(["gfortran", "-cpp", "-fPIC", "-w", "-O1", "-march=x86-64-v3", f"-J{out}", f"-I{out}", f"-I{d}"] + flags +
            ["-c", f"{d}/{f}", "-o", o])
        objs.append(o)
    if os.path.exists(lib):
        os.remove(lib)
    run(["ar", "crs", lib] + objs)
    open(kf, "w").write(key)
    return lib


def fortran(ex):
    lb, rf = REPO + "/external/Lbfgsb.3.0", REPO + "/external/RALFit/libRALFit/src"
    ral = ["ral_nlls_types", "ral_nlls_symbols", "ral_nlls_dtrs", "ral_nlls_workspaces", "ral_nlls_printing",
           "ral_nlls_bounds", "nag_export_mod", "ral_nlls_fd", "ral_nlls_internal", "ral_nlls", "ral_nlls_ciface"]
    ral = [x + ".F90" for x in ral]
    lbf = ["lbfgsb_mod.F90", "linpack.F90", "timer.F90", "lbfgsb.F90"]
    return [ex.submit(fortran_job, "lbfgsb_d", lb, ["dworking_precision.F90"] + lbf, []),
            ex.submit(fortran_job, "lbfgsb_s", lb, ["sworking_precision.F90"] + lbf, ["-DSINGLE_PREC"]),
            ex.submit(fortran_job, "ralfit_d", rf, ral, []),
            ex.submit(fortran_job, "ralfit_s", rf, ral, ["-DSINGLE_PRECISION"])]


def avx512_ok():
    f = open("/proc/cpuinfo").read()
    return all(x in f for x in ("avx512f", "avx512dq", "avx512vl"))


def lib_tasks(variant):
    flags, archs, _, _ = VARIANTS[variant]
    pub, intr = sources()
    out = f"{BUILD}/{variant}"
    zmax = archs[-1]
    avail = [f"-D{a}_AVAILABLE" for a in archs] + [f"-DZNVER_MAX={zmax}"]
    tasks = []
    nm = lambda s: s[len(SRC) + 6:].replace("/", "_")
    for s in pub:
        tasks.append((s, f"{out}/obj/{nm(s)}.o", flags + COMMON + avail + INCS))
    for a in archs:
        for s in intr:
            tasks.append((s, f"{out}/obj/{a}_{nm(s)}.o",
                          flags + COMMON + ARCHFLAGS[a] + [f"-DARCH_{a}", f"-DZNVER_MAX={a}"] + INCS))
    tasks.append((f"{VERIF}/shim/aoclsparse_shim.cpp", f"{out}/obj/shim_aoclsparse.o", ["-O1"] + COMMON + INCS))
    tasks.append((f"{VERIF}/shim/matcopy_shim.cpp", f"{out}/obj/shim_matcopy.o", flags + COMMON + INCS))
    return tasks


def harness_list():
    """harness name -> (variant, [sources])"""
    cfg = json.load(open(f"{VERIF}/harness/harness.json"))
    return cfg


def build(harnesses, log=None):
    """Build what these harnesses need; returns {name: path of binary}. Raises BuildError."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = harness_list()
    need = sorted({cfg[h]["variant"] for h in harnesses})
    res, n = {}, 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        ff = fortran(ex)
        futs, objs, hobj = [], {}, {}
        for v in need:
            os.makedirs(f"{BUILD}/{v}/obj", exist_ok=True)
            os.makedirs(f"{BUILD}/{v}/bin", exist_ok=True)
            ts = lib_tasks(v)
            # biggest sources first keeps all cores busy to the end
            ts.sort(key=lambda t: -os.path.getsize(t[0]) if os.path.exists(t[0]) else 0)
            objs[v] = [t[1] for t in ts]
            for s, o, fl in ts:
                futs.append(ex.submit(compile_one, s, o, fl, "c" if s.endswith(".c") else "c++"))
        for h in harnesses:
            v = cfg[h]["variant"]
            hf = VARIANTS[v][2] + COMMON + cfg[h].get("flags", []) + \
                [f"-I{VERIF}/mc", f"-I{VERIF}/harness", "-DARCH_generic",
                 f"-DZNVER_MAX={VARIANTS[v][1][-1]}"] + [f"-D{a}_AVAILABLE" for a in VARIANTS[v][1]] + INCS
            hobj[h] = []
            for s in cfg[h]["src"]:
                fl = hf
                if cfg[h].get("noinst") and s in cfg[h]["noinst"]:
                    fl = [x for x in hf if x != "-fsanitize=thread"]
                o = f"{BUILD}/{v}/bin/{h}.{os.path.basename(s)}.o"
                hobj[h].append(o)
                futs.append(ex.submit(compile_one, f"{VERIF}/{s}", o, fl, "c++"))
        err = None
        for f in futs + ff:
            try:
                n += f.result() is True
            except BuildError as e:
                err = err or e
        if err:
            raise err
        flibs = [f.result() for f in ff]

        def mklib(v):
            lib, kf = f"{BUILD}/{v}/libda.a", f"{BUILD}/{v}/libda.key"
            key = sha(*[o + str(os.stat(o).st_mtime_ns) + str(os.stat(o).st_size) for o in objs[v]])
            if not (os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == key):
                if os.path.exists(lib):
                    os.remove(lib)
                run(["ar", "crsT", lib] + objs[v])
                open(kf, "w").write(key)

        for f in [ex.submit(mklib, v) for v in need]:
            f.result()

        def link(h):
            v = cfg[h]["variant"]
            out = f"{BUILD}/{v}/bin/{h}"
            cmd = ["g++", "-fuse-ld=gold"] + VARIANTS[v][3] + hobj[h] + cfg[h].get("ldflags", []) + \
                ["-o", out, f"{BUILD}/{v}/libda.a"] + flibs + [f"{BUILD}/{v}/libda.a"] + \
                ["-L/usr/lib/x86_64-linux-gnu/openblas-pthread", "-lopenblas", "-lgfortran", "-lmvec", "-lm"] + \
                cfg[h].get("libs", ["-lgomp"]) + ["-lpthread", "-ldl"]
            key = sha(*cmd, *[o + str(os.stat(o).st_mtime_ns) for o in hobj[h] + flibs],
                      open(f"{BUILD}/{v}/libda.key").read())
            kf = out + ".key"
            if not (os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key):
                run(cmd)
                open(kf, "w").write(key)
            return out

        lf = {h: ex.submit(link, h) for h in harnesses}
        for h, f in lf.items():
            res[h] = f.result()
    fcntl.flock(lock, fcntl.LOCK_UN)
    if log is not None:
        log.write(f"build: {n} objects compiled in {time.time()-t0:.1f} s\n")
    return res


if __name__ == "__main__":
    names = sys.argv[1:] or sorted(harness_list())
    try:
        build(names, sys.stdout)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
