#!/usr/bin/env python3
"""Experiment: mutate the library's sources, one small change at a time, and list the changes that no check notices.
   mutate.py run OUT.jsonl [file...]     all mutants, capped checks
   Uses scratch directories under /tmp/mut only; nothing in /verif or /repo depends on it."""
import sys, os, re, json, subprocess, hashlib, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
REPO = "/repo"; ROOT = os.environ.get("MUT_ROOT", "/tmp/mut"); W = int(os.environ.get("MUT_W", "4")); JOBS = os.environ.get("MUT_J", "2"); CAP = os.environ.get("MUT_CAP", "1.5")

def strip_comments(t):
    out, i, n = [], 0, len(t)
    while i < n:
        if t[i:i+2] == "/*":
            j = t.find("*/", i + 2); j = n if j < 0 else j + 2
            out.append(re.sub(r"[^\n]", " ", t[i:j])); i = j
        elif t[i:i+2] == "//":
            j = t.find("\n", i); j = n if j < 0 else j
            out.append(" " * (j - i)); i = j
        elif t[i] == '"':
            j = i + 1
            while t[j] != '"': j += 2 if t[j] == "\\" else 1
            out.append('"' + " " * (j - i - 1) + '"'); i = j + 1
        elif t[i] == "'" :
            j = i + 1
            while t[j] != "'": j += 2 if t[j] == "\\" else 1
            out.append("'" + " " * (j - i - 1) + "'"); i = j + 1
        else:
            out.append(t[i]); i += 1
    return "".join(out)

OPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"(?<![<\->])<(?![<=])", ["<=", ">="]), (r"(?<![>\-])>(?![>=])", [">=", "<="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<!\+)\+(?![+=])", ["-"]), (r"(?<=[\w\)\]] )-(?![-=>])|(?<=[\w\)\]])-(?![-=>])", ["+"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
       (r"!(?!=)", [""]), (r"(?<=[\w\)\]] )\*(?= ?[\w\(])|(?<=[\w\)\]])\*(?=[\w\(])", ["+"]), (r"%", ["/"])]

def mutants(path):
    t = open(path).read(); c = strip_comments(t); res = []; pos = 0
    depth = 0; lines = c.split("\n")
    for ln, line in enumerate(lines):
        st = line.strip(); base = pos; pos += len(line) + 1
        d0 = depth; depth += line.count("{") - line.count("}")
        if st.startswith("#") or not st or (d0 == 0 and "{" not in line): continue
        if re.search(r"\bf?printf\b|\bperror\b|^\s*(int|char|void|long|MPI_\w+|Req|Comm|pList|pListitem|Datatype|size_t|Datastruct|Simpletype|static|extern)\b[^=]*;\s*$", line): continue
        for pat, reps in OPS:
            for m in re.finditer(pat, line):
                for r in reps: res.append((ln + 1, base + m.start(), base + m.end(), r))
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", line):
            v = int(m.group()); res.append((ln + 1, base + m.start(), base + m.end(), str(v + 1)))
            if v > 0: res.append((ln + 1, base + m.start(), base + m.end(), str(v - 1)))
        for m in re.finditer(r"\bif\s*\(", line):
            i = m.end(); dep = 1; full = c[base:]
            while dep and i < len(full): dep += full[i] == "("; dep -= full[i] == ")"; i += 1
            for r in ("1", "0"): res.append((ln + 1, base + m.end(), base + i - 1, r))
        # whole statements
        if st.endswith(";") and re.match(r"^[\w\*\(\)\[\]\->\. ,&+=!\"%/<>:?|-]+;$", st) and not re.match(r"^(else|case|default|if|for|while|do|int|char|void|long|struct|typedef)\b", st) and d0 > 0:
            a = line.index(st); res.append((ln + 1, base + a, base + a + len(st), ";"))
        m = re.match(r"^\s*return\s*\(?(.+?)\)?\s*;", line)
        if m and d0 > 0: res.append((ln + 1, base + m.start(1), base + m.end(1), "(" + m.group(1) + ")+1"))
        # names swapped
        for a, b in (("sendbuf", "recvbuf"), ("sendcount", "recvcount"), ("sendtype", "recvtype"), ("sreq", "rreq"), ("sendlist", "recvlist"), ("lb", "ub"), ("next", "prev"), ("head", "tail"), ("source", "dest"), ("first", "last")):
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r"\b%s\b" % x, line): res.append((ln + 1, base + m.start(), base + m.end(), y))
    return t, res

def thresholds(path, T=(40, 70000)):
    """A whole-number parameter (or a local pointed-to one) goes wrong from some size on: if (p > T) p--; at the start of the function."""
    t = open(path).read(); c = strip_comments(t); res = []
    for m in re.finditer(r"^[\w][\w \t*]*?\b(\w+)\s*\(([^;{}()]*(?:\([^;{}()]*\)[^;{}()]*)*)\)\s*\{", c, re.M):
        if m.group(1) in ("if", "for", "while", "switch"): continue
        b = m.end(); ln = c[:b].count("\n") + 1
        for prm in m.group(2).split(","):
            q = re.match(r"\s*(?:const\s+)?(int|long|MPI_Aint|MPI_Fint|unsigned|size_t)\s*(\*?)\s*(\w+)\s*(\[\])?\s*$", prm)
            if not q or q.group(4): continue
            v = q.group(3)
            if q.group(2) or v in ("required", "errorcode", "dest", "source", "root", "op", "rank", "high", "commute", "reorder", "color", "key", "comm", "group", "handle", "block") or "leader" in v: continue
            for k in T: res.append((ln, b, b, " if (%s > %d) %s--; " % (v, k, v)))
    return t, res

def pairs(path):
    """A parameter goes wrong when two parameters meet a condition, when another is as in the call before, or from the third call of a kind on."""
    t = open(path).read(); c = strip_comments(t); res = []
    for m in re.finditer(r"^[\w][\w \t*]*?\b(\w+)\s*\(([^;{}()]*(?:\([^;{}()]*\)[^;{}()]*)*)\)\s*\{", c, re.M):
        if m.group(1) in ("if", "for", "while", "switch"): continue
        b = m.end(); ln = c[:b].count("\n") + 1; ps = []
        for prm in m.group(2).split(","):
            q = re.match(r"\s*(?:const\s+)?(int|long|MPI_Aint|MPI_Fint|unsigned|size_t|MPI_Datatype|MPI_Comm|MPI_Request|MPI_Group|MPI_Op)\s+(\w+)\s*$", prm)
            if q: ps.append(q.group(2))
        for p in ps:
            for q in ps:
                if p == q: continue
                for x in ("%s==0", "%s==1", "%s>1", "%s<0"):
                    for y in ("%s>1", "%s<0"): res.append((ln, b, b, " if (%s && %s) %s--; " % (x % p, y % q, q)))
                res.append((ln, b, b, " {static int last=-99; int same= last==(int)%s; last=%s; if (same && %s>1) %s--;} " % (p, p, q, q)))
                res.append((ln, b, b, " {static int n; if (%s>1 && ++n>2) %s--;} " % (p, q)))
                res.append((ln, b, b, " if (%s==%s && %s>2) %s--; " % (p, q, q, q)))
    return t, res

# cross: every function counts its calls (mut_calls[ID], in list.c); one function goes wrong once another has been called K times
IDS = {}
def functions(path):
    t = open(path).read(); c = strip_comments(t)
    for m in re.finditer(r"^([\w][\w \t*]*?)\b(\w+)\s*\(([^;{}()]*(?:\([^;{}()]*\)[^;{}()]*)*)\)\s*\{", c, re.M):
        if m.group(2) not in ("if", "for", "while", "switch"): yield m.group(1).strip(), m.group(2), m.group(3), m.end()
def counted(path):
    t = open(path).read(); c = t; f = os.path.basename(path)
    for _, name, _, e in sorted(functions(path), key=lambda x: -x[3]): c = c[:e] + " mut_calls[%d]++; " % IDS.setdefault((f, name), len(IDS)) + c[e:]
    return ("int mut_calls[1000];" if f == "list.c" else "extern int mut_calls[1000];") + c
def counted_with(t, f, a, r):
    for _, name, _, e in sorted(functions(f"{REPO}/{f}"), key=lambda x: -x[3]): t = t[:e] + " mut_calls[%d]++; " % IDS[f, name] + (r if e == a else "") + t[e:]
    return ("int mut_calls[1000];" if f == "list.c" else "extern int mut_calls[1000];") + t
def cross(path):
    """From the first (41st) call of F on: G takes a parameter wrongly, or returns at once."""
    import random; rnd = random.Random(7); t = open(path).read(); res = []
    for typ, name, params, e in functions(path):
        ln = t[:e].count("\n") + 1; bad = []
        for prm in params.split(","):
            q = re.match(r"\s*(?:const\s+)?(int|long|MPI_Aint|MPI_Fint|unsigned|size_t|MPI_Datatype|MPI_Comm|MPI_Request|MPI_Group|MPI_Op)\s+(\w+)\s*$", prm)
            if q and q.group(2) not in ("required", "errorcode", "reorder", "commute", "high"): bad.append("if (%s>1) %s--;" % (q.group(2), q.group(2)))
            q = re.match(r"\s*(int|MPI_Datatype|MPI_Comm|MPI_Fint|FINT|MPI_Request)\s*\*\s*(\w+)\s*$", prm)
        if typ.endswith("int") or typ.endswith("FC_FUNC"): bad.append("return 0;")
        for b in bad:
            for (ff, F), k in IDS.items():
                if F != name and F.startswith("MPI_"): res.append((ln, e, e, " if (mut_calls[%d]%s) {%s} /* once %s was called */" % (k, rnd.choice([">0", ">0", ">0", ">40"]), b, F)))
    return t, res

# wide: a result is written with eight bytes instead of four, or with only two
def wide(path):
    t = open(path).read(); c = strip_comments(t); res = []
    for m in re.finditer(r"(?<=[;{})\n])(\s*)\*\s*(\w+)\s*=\s*([^=;][^;]*);", c):
        ln = t[:m.start(2)].count("\n") + 1; a = m.start(1) + len(m.group(1))
        for ty in ("long", "short"): res.append((ln, a, m.end(), "*(%s *)%s = (int)(long)(%s);" % (ty, m.group(2), m.group(3))))
    for m in re.finditer(r"\b(\w+)\s*\[([^\[\]]+)\]\s*=\s*([^=;][^;]*);", c):
        ln = t[:m.start()].count("\n") + 1
        res.append((ln, m.start(), m.end(), "*(long *)&%s[%s] = (int)(long)(%s);" % (m.group(1), m.group(2), m.group(3))))
    return t, res

# touch: a pointer argument's first item is changed when a function returns
def touch(path):
    t = open(path).read(); res = []
    for typ, name, params, e in functions(path): res += [(t[:e].count("\n") + 1, e, e, TOUCH % q) for q in pointers(params)]
    for m in re.finditer(r"FC_FUNC\s*\([^()]*\)\s*\(([^()]*)\)\s*\{", strip_comments(t)):
        res += [(t[:m.end()].count("\n") + 1, m.end(), m.end(), TOUCH % q) for q in pointers(m.group(1))]
    return t, res
TOUCH = " void mut_cl(int **p) { if (*p && *p != (int *)-1) (*p)[0]++; } __attribute__((cleanup(mut_cl))) int *mut_p = (int *)(%s); "
def pointers(params):
    for prm in params.split(","):
        q = re.match(r"\s*(?:const\s+)?(?:int|long|MPI_Aint|MPI_Datatype|MPI_Comm|MPI_Request|MPI_Group|MPI_Op)\s*\*?\s*(\w+)\s*(?:\[\w*\](?:\[3\])?)?\s*$", prm)
        if q and re.search(r"[*\[]", prm): yield q.group(1)

def compile_c(src, out, variant):
    if os.environ.get("MUT_KIND") == "cross" and os.path.dirname(src) == REPO:
        os.makedirs(f"{ROOT}/count", exist_ok=True); f = os.path.basename(src)
        open(f"{ROOT}/count/{f}", "w").write(counted(src)); src = f"{ROOT}/count/{f}"
    cmd = ["gcc", "-O2", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-DFORTRAN_UNDERSCORE_", *check.VARIANTS[variant], "-I" + os.path.dirname(src), "-I" + REPO, "-c", src, "-o", out]
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return None
    redef = [x for w in check.WRAP for x in ("--redefine-sym", f"{w}=mc_{w}")]
    subprocess.run(["objcopy", *redef, out], check=True)
    return hashlib.sha256(subprocess.run(["objdump", "-drsj", ".text", "-j", ".data", "-j", ".rodata", "-j", ".rodata.str1.1", "-j", ".text.unlikely", out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.split(b"\n", 3)[-1]).hexdigest()

AGED = "C12 C02 C04 C06 C17 C18 C19 C20 C21 C09 C15 C16 C01 C03 C05 C07 C08".split()
ORDER = "C22 C01 C03 C18 C12 C07 C13 C17 C21 C20 C19 C04 C16 C05 C06 C09 C08 C11 C02 C15 C23 C14 C26 C27 C24 C28 C10 C25 C29".split()
FIRST = {"getcount.c": "C06", "cart.c": "C21", "collective.c": "C18 C19", "comm.c": "C21 C07", "copy.c": "C02", "group.c": "C20", "handles.c": "C10 C27", "list.c": "C29 C01 C27", "mpi.c": "C28 C11 C23", "pack.c": "C17", "probe.c": "C05", "recv.c": "C01", "req.c": "C03 C04", "send.c": "C01", "type.c": "C12 C13", "time.c": "C23", "type_const.c": "C14"}

def main():
    out = sys.argv[2]; files = sys.argv[3:] or [f for f in check.lib_sources() if f.endswith(".c")]
    shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
    pool = ThreadPoolExecutor(8)
    libs = {v: check.build_lib(v, pool) for v in ("base", "tc")}
    bins = {}
    for p in check.HARNESS:
        for i, h in enumerate(check.HARNESS[p]):
            if h[1] in libs: bins.setdefault(p, []).append((shutil.copy(check.build_harness(p, i, pool), f"{ROOT}/{p}-{i}"), h[1]))
    orig = {}
    if os.environ.get("MUT_KIND") == "cross":
        for f in check.lib_sources():
            if f.endswith(".c"): counted(f"{REPO}/{f}")
        for v in list(libs):
            shutil.copytree(libs[v], f"{ROOT}/lib-{v}"); libs[v] = f"{ROOT}/lib-{v}"
            for f in check.lib_sources():
                if f.endswith(".c"): compile_c(f"{REPO}/{f}", f"{libs[v]}/{f[:-2]}.o", v)
    for f in files:
        for v in libs: orig[f, v] = compile_c(f"{REPO}/{f}", f"{ROOT}/o-{v}.o", v)
    work = []
    for f in files:
        t, ms = {"thresholds": thresholds, "pairs": pairs, "cross": cross, "wide": wide, "touch": touch}.get(os.environ.get("MUT_KIND"), mutants)(f"{REPO}/{f}")
        for m in ms: work.append((f, t, m))
    only = os.environ.get("MUT_ONLY")       # only these: file:line:rep from a previous output
    if only:
        keep = {(d["file"], d["line"], d["start"], d["rep"]) for d in map(json.loads, open(only)) if d["result"] == "survived"}
        work = [w for w in work if (w[0], w[2][0], w[2][1], w[2][3]) in keep]
    if os.environ.get("MUT_KIND") == "cross": import random; random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(work)
    part = os.environ.get("MUT_PART")       # "i/n": every n-th mutant from the i-th
    if part: i, n = map(int, part.split("/")); work = work[i::n]
    print(len(work), "mutants", flush=True)
    slots = list(range(W)); lock = threading.Lock(); seen = set(); stats = {}; fo = open(out, "w")
    def one(w):
        f, t, (ln, a, b, r) = w
        with lock: s = slots.pop()
        d = f"{ROOT}/w{s}"; t0 = time.time()
        try:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src")
            src = t[:a] + r + t[b:]
            if os.environ.get("MUT_KIND") == "cross": src = counted_with(t, f, a, r)
            open(f"{d}/src/{f}", "w").write(src)
            for h in os.listdir(REPO):
                if h.endswith(".h"): os.symlink(f"{REPO}/{h}", f"{d}/src/{h}")
            hs = {}; res = None
            for v in libs:
                os.makedirs(f"{d}/{v}")
                obj = f"{d}/{v}/{f[:-2]}.o"
                hs[v] = compile_c(f"{d}/src/{f}", obj, v)
            if hs["base"] is None: res = "nocompile"
            elif hs["base"] == orig[f, "base"] and hs["tc"] == orig[f, "tc"]: res = "same"
            else:
                with lock:
                    k = (f, hs["base"], hs["tc"])
                    if k in seen: res = "duplicate"
                    seen.add(k)
            by = None
            if not res:
                for v in libs:
                    objs = [f"{libs[v]}/{x.rsplit('.', 1)[0]}.o" for x in check.lib_sources() if x != f]
                    subprocess.run(["gcc", "-shared", "-o", f"{d}/{v}/libmpimc.so", *objs, f"{d}/{v}/{f[:-2]}.o", "-Wl,-soname,libmpimc.so", "-Wl,-z,now"], check=True)
                order = FIRST.get(f, "").split(); order += os.environ["MUT_ORDER"].split() if "MUT_ORDER" in os.environ else [p for p in ORDER if p not in order and not (p in ("C10", "C25") and f != "handles.c" and not os.environ.get("MUT_ONLY"))]
                aged = "MUT_AGED" in os.environ         # first the spaces with earlier operations, whole
                for p, more in ([(p, ["--space", "aged"]) for p in AGED] if aged else []) + [(p, ["--spacecap", CAP]) for p in order]:
                    for exe, v in bins.get(p, []):
                        if more[0] == "--space" and v != "base": continue
                        rc = subprocess.run([exe, "--tier", "quick", "--jobs", JOBS, "--out", f"{d}/out.json", *more], env=dict(os.environ, LD_LIBRARY_PATH=f"{d}/{v}"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode
                        if rc: by = p; break
                    if by: break
                res = "killed" if by else "survived"
        except Exception as e:
            res = "error " + repr(e); by = None
        finally:
            with lock: slots.append(s)
        with lock:
            stats[res] = stats.get(res, 0) + 1
            line = t[:a].count("\n"); text = (t[:a] + "«" + t[a:b] + "→" + r + "»" + t[b:]).split("\n")[line].strip()
            fo.write(json.dumps(dict(file=f, line=ln, start=a, rep=r, result=res, by=by, text=text, wall=round(time.time() - t0, 1))) + "\n"); fo.flush()
            if sum(stats.values()) % 100 == 0: print(stats, flush=True)
    with ThreadPoolExecutor(W) as ex: list(ex.map(one, work))
    print(stats)
main()
