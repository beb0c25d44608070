#!/usr/bin/env python3
"""check.py <property> : builds the library from /repo's working tree and the property's harness, explores,
writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
check.py --build : builds everything (setup).   check.py --replay FILE : replays a recorded violation."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time, uuid
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
BUILD = os.path.join(HERE, "build")
JOBS = min(8, os.cpu_count() or 8)

WRAP = ["malloc", "calloc", "realloc", "reallocarray", "free", "aligned_alloc", "posix_memalign", "strdup", "strndup",
        "abort", "exit", "_exit", "raise", "__assert_fail", "gettimeofday", "clock_gettime", "time", "gethostname", "uname"]

# library variants: extra compiler flags
VARIANTS = {
    "base": [],
    "tc": ["-DTYPE_CHECKING"],
    "r8d8": ["-DCONFIG_FORT_REAL=8", "-DCONFIG_FORT_DOUBLE=8"],
    "r8d16": ["-DCONFIG_FORT_REAL=8", "-DCONFIG_FORT_DOUBLE=16"],
    "r4d16": ["-DCONFIG_FORT_REAL=4", "-DCONFIG_FORT_DOUBLE=16"],
    # Fortran code compiled with sizes that do not fit the library
    "misfit1": [], "misfit2": [], "misfit3": [], "misfit4": [],
    "misfit5": ["-DCONFIG_FORT_REAL=8", "-DCONFIG_FORT_DOUBLE=8"],
}
# matching flags of the Fortran compiler, and what the harness is told
FFLAGS = {"r8d8": ["-fdefault-real-8", "-fdefault-double-8"], "r8d16": ["-fdefault-real-8"], "r4d16": ["-freal-8-real-16"],
          "misfit1": ["-fdefault-real-8"], "misfit2": ["-freal-8-real-16"], "misfit3": ["-fdefault-integer-8"], "misfit4": ["-fdefault-real-8", "-fdefault-double-8"]}
HFLAGS = {"r8d8": ["-DFREAL=8", "-DFDOUBLE=8"], "r8d16": ["-DFREAL=8", "-DFDOUBLE=16"], "r4d16": ["-DFREAL=4", "-DFDOUBLE=16"], "tc": ["-DTC=1"],
          **{f"misfit{i}": ["-DFMISFIT=1"] for i in range(1, 6)}}
# property -> list of (harness source, variant, extra harness flags)
HARNESS = json.load(open(os.path.join(MC, "harness.json")))

class BuildError(Exception):
    pass

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def lib_sources():
    am = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"libmpi_serial_a_SOURCES\s*=(.*)", am)
    out = []
    for f in m.group(1).split():
        if f not in out:
            out.append(f)
    return out

def repo_inputs():
    return [os.path.join(REPO, f) for f in os.listdir(REPO)
            if f.endswith((".c", ".h", ".F90", ".f90", ".am")) and os.path.isfile(os.path.join(REPO, f))]

_once_guard, _once_locks = threading.Lock(), {}
def make_once(path, build):
    """build(tmp) makes the file; one thread at a time per file, renamed into place"""
    with _once_guard:
        lock = _once_locks.setdefault(path, threading.Lock())
    with lock:
        if not os.path.exists(path):
            tmp = f"{path}.{uuid.uuid4().hex}.tmp"
            build(tmp)
            os.rename(tmp, path)
        else:
            os.utime(path)
    return path

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune(prefix, keep):
    ds = [d for d in os.listdir(BUILD) if d.startswith(prefix) and os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-keep] if keep else ds:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

def build_lib(variant, pool):
    flags = VARIANTS[variant]
    fflags = FFLAGS.get(variant, [])
    key = digest(repo_inputs(), "v3" + variant + " ".join(flags + fflags))
    name = f"lib-{variant}-{key}"
    dst = os.path.join(BUILD, name)
    with Lock("lib-" + variant):
        if os.path.exists(os.path.join(dst, "libmpimc.so")):
            os.utime(dst)
            return dst
        tmp = dst + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        redef = [x for w in WRAP for x in ("--redefine-sym", f"{w}=mc_{w}")]
        def one(src):
            obj = os.path.join(tmp, os.path.splitext(src)[0] + ".o")
            if src.endswith(".c"):
                sh(["gcc", "-g", "-O2", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-DFORTRAN_UNDERSCORE_", *flags, "-I" + REPO, "-c", os.path.join(REPO, src), "-o", obj])
            else:
                sh(["gfortran", "-g", "-O2", "-fPIC", "-w", "-fallow-argument-mismatch", "-cpp", *fflags, "-I" + REPO, "-J" + tmp, "-c", os.path.join(REPO, src), "-o", obj])
            sh(["objcopy", *redef, obj])
            return obj
        objs = list(pool.map(one, lib_sources()))
        sh(["gcc", "-shared", "-o", os.path.join(tmp, "libmpimc.so"), *objs, "-Wl,-soname,libmpimc.so", "-Wl,-z,now"])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        os.rename(tmp, dst)
        prune(f"lib-{variant}-", 4)
    return dst

def fortran_constants():
    """names of the integer parameters of mpif.h"""
    t = open(os.path.join(REPO, "mpif.h")).read()
    t = re.sub(r"!.*", "", t)
    names = []
    for m in re.finditer(r"parameter\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)", t, re.I):
        for part in m.group(1).split(","):
            n = part.split("=")[0].strip()
            if re.fullmatch(r"[A-Za-z_]\w*", n) and n.upper() not in [x.upper() for x in names]:
                names.append(n)
    return names

def consts_header():
    """the C values of the constants that mpif.h names"""
    t = "".join(f'#ifdef {n.upper()}\n{{"{n.upper()}", (long)({n.upper()})}},\n#endif\n' for n in fortran_constants())
    t = "#ifdef FNAMES\n" + "".join(f'"{n.upper()}",\n' for n in fortran_constants()) + "#else\n" + t + "#endif\n"
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "consts-" + hashlib.sha256(t.encode()).hexdigest()[:16] + ".h")
    def make(tmp):
        with open(tmp, "w") as out:
            out.write(t)
    return make_once(f, make)

def build_harness(prop, idx, pool):
    src, variant, flags = HARNESS[prop][idx]
    lib = build_lib(variant, pool)
    mine = [os.path.join(MC, f) for f in os.listdir(MC) if f.endswith((".h", ".F90"))]
    hdr = [os.path.join(REPO, "mpi.h"), os.path.join(REPO, "mpif.h")]
    common = ["mc.cpp", "api.cpp", "rtype.cpp"]
    extra = [f[1:] for f in flags if f.startswith("+")]
    flags = [f for f in flags if not f.startswith("+")] + HFLAGS.get(variant, [])
    fflags = FFLAGS.get(variant, [])
    srcs = common + extra + [src]
    cxx = ["g++", "-std=c++17", "-g", "-O1", "-w", "-fno-stack-protector", "-I" + REPO, "-I" + MC, f'-DCONSTS_H="{consts_header()}"', *flags]
    objs = []
    def obj_of(s):
        key = digest(mine + hdr + [os.path.join(MC, s)], " ".join(cxx))
        o = os.path.join(BUILD, "obj", f"{os.path.splitext(s)[0]}-{key}.o")
        return make_once(o, lambda tmp: sh([*cxx, "-c", os.path.join(MC, s), "-o", tmp]))
    def fobj(name):
        t = open(os.path.join(MC, name + ".F90")).read()
        t = t.replace("@CONSTS@", "\n".join(f'  case ("{n.upper()}"); value = {n}' for n in fortran_constants()))
        key = hashlib.sha256((t + open(hdr[1]).read() + open(os.path.join(REPO, "mpif.F90")).read() + " ".join(fflags)).encode()).hexdigest()[:16]
        o = os.path.join(BUILD, "obj", f"{name}-{key}.o")
        def make(tmp):
            f = tmp + ".F90"
            with open(f, "w") as out:
                out.write(t)
            sh(["gfortran", "-g", "-O1", "-w", "-fallow-argument-mismatch", "-cpp", *fflags, "-I" + REPO, "-I" + lib, "-c", f, "-o", tmp])
            os.unlink(f)
        return make_once(o, make)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    futs = [pool.submit(obj_of, s) for s in srcs] + [pool.submit(fobj, f) for f in ("fshim", "fmod")]
    objs = [f.result() for f in futs]
    exe = os.path.join(BUILD, "bin", f"{prop}-{idx}")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = f"{exe}.{uuid.uuid4().hex}"
    sh(["g++", "-o", tmp, *objs, "-rdynamic", "-L" + lib, "-l:libmpimc.so", "-Wl,-rpath," + lib, "-lgfortran", "-lpthread",
        *(["-Wl,-z,now"] if REPO == "/repo" else ["-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all"])])
    os.rename(tmp, exe)
    return exe

def prune_obj():
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-600]:
        try: os.unlink(f)
        except OSError: pass

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out

def replay_cmd(exe, tier, space, choices):
    return [exe, "--tier", tier, "--replay", space, ",".join(map(str, choices))]

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if sys.argv[1] == "--build":
        with ThreadPoolExecutor(JOBS) as pool, ThreadPoolExecutor(JOBS) as outer:
            for v in VARIANTS:
                build_lib(v, pool)
            list(outer.map(lambda a: build_harness(*a, pool), [(p, i) for p in HARNESS for i in range(len(HARNESS[p]))]))
        prune_obj()
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        with ThreadPoolExecutor(JOBS) as pool:
            exe = build_harness(r["property"], r["harness"], pool)
        p = subprocess.run(replay_cmd(exe, r["tier"], r["space"], r["choices"]))
        return p.returncode
    prop = sys.argv[1]
    only = sys.argv[2:] and sys.argv[2]
    t0 = time.time()
    spaces, problems, known_hits = [], [], []
    violations = []
    known = [(k, d) for p, k, d in known_findings() if p == prop]
    with ThreadPoolExecutor(JOBS) as pool:
        exes = [build_harness(prop, i, pool) for i in range(len(HARNESS[prop]))]
    tb = time.time() - t0
    outdir = os.path.join(BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    cap = float(os.environ.get("MC_CAP", "800" if tier == "quick" else "6000"))
    for i, exe in enumerate(exes):
        out = os.path.join(outdir, f"{prop}-{i}.json")
        cmd = [exe, "--tier", tier, "--jobs", str(JOBS), "--out", out, "--cap", str(max(30, cap - (time.time() - t0)))]
        if only:
            cmd += ["--space", only]
        for k, d in known:
            cmd += ["--known", k]
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            res = json.load(open(out))
        except Exception as e:
            problems.append(f"harness {HARNESS[prop][i][0]} gave no result (status {p.returncode}): {p.stdout[-500:]}")
            continue
        if res["broken"]:
            problems.append(f"harness {HARNESS[prop][i][0]}: exploration was not reproducible or broke (status {p.returncode}) {p.stdout[-500:]}")
        for s in res["spaces"]:
            s["harness"] = i
            s["variant"] = HARNESS[prop][i][1]
            spaces.append(s)
            for v in s["violations"]:
                violations.append((i, exe, s["name"], v))
            for v in s["known"]:
                known_hits.append((s["name"], v, s["known_count"]))
        if violations:
            break
    confirmed = None
    for i, exe, space, v in violations:
        # replay in a fresh process before reporting, twice
        rs = [subprocess.run(replay_cmd(exe, tier, space, v["choices"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace") for _ in range(2)]
        if all(r.returncode not in (0, 3, 4) for r in rs):
            confirmed = (i, exe, space, v, rs[0].stdout)
            break
    if violations and not confirmed:
        problems.append("a reported violation did not reproduce on replay: " + violations[0][3]["msg"])
    replay = None
    if confirmed:
        i, exe, space, v, text = confirmed
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{prop}.json")
        json.dump(dict(property=prop, harness=i, variant=HARNESS[prop][i][1], tier=tier, space=space, choices=v["choices"],
                       message=v["msg"], key=v["key"], trace=text.splitlines()[-200:]), open(replay, "w"), indent=1)
    tot = lambda k: sum(s[k] for s in spaces)
    samples = []
    for s in spaces:
        for x in s["samples"][:1 if len(spaces) > 6 else 2]:
            samples.append(dict(space=s["name"], trace=x.splitlines()))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"),
                            exhaustive=not violations and not problems and not any(s["capped"] for s in spaces),
                            explanation="Every execution is one complete run of the real library (rebuilt from the working tree) under the enumerated choices, compared step by step with the reference model; states are distinct fingerprints of model states, transitions are library calls executed under comparison.",
                            choice_points=tot("choice_points"),
                            spaces=[{k: s[k] for k in ("name", "variant", "bounds", "executions", "skipped", "states", "transitions", "max_choices", "capped", "state_table_full", "wall")} for s in spaces],
                            samples=samples[:24] or [dict(note="no sample: a violation was found first")]),
              assumptions=["the harness's reference model states the property correctly",
                           "the library is compiled from the working tree with gcc -O2 and its allocation, termination, clock and host name calls are served by the harness"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for s in spaces:
        print(f"{prop} {s['name']} [{s['variant']}]: executions={s['executions']} transitions={s['transitions']} states={s['states']} {s['wall']}s{' CAPPED' if s['capped'] else ''}")
    print(f"{prop}: build {tb:.1f}s total {time.time()-t0:.1f}s")
    seen = set()
    for space, v, n in known_hits:
        if v["key"] not in seen:
            seen.add(v["key"])
            print(f"KNOWN-FINDING: property={prop} key={v['key']} {v['msg']}")
    for p in problems:
        print("ERROR:", p)
    if confirmed:
        print(f"violation in space {confirmed[2]}: {confirmed[3]['msg']}")
        print("\n".join(confirmed[4].splitlines()[-40:]))
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 2 if problems else 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR:", e)
        sys.exit(2)
