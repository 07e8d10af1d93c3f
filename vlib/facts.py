"""Facts about /repo's current source: runs the clang-based extractor over every
translation unit of the library, its drivers and the instantiation probes, and
loads the resulting function IR.  Nothing of /repo is executed."""
import hashlib, json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BIN = os.path.join(ROOT, "tool", "extract")
CACHE = os.path.join(ROOT, ".cache")

LIB = ["MersenneTwister.cpp", "Matrix.cpp", "Mpi.cpp", "Concurrency.cpp",
       "ProgressIndicator.cpp", "MemResolv.cpp", "PsimagLite.cpp", "PsiBase64.cpp",
       "SpecialFunctions.cpp", "Io/TypeToH5.cpp", "TridiagonalMatrix.cpp",
       "PredicateSimple.cpp", "Ainur/AinurSpirit.cpp", "Ainur/AinurConvert.cpp"]


_LOC = re.compile(r"\((lambda|unnamed[^()]*?|anonymous[^()]*?) at [^()]*?:\d+:\d+\)")


class AnalysisError(Exception):
    pass


def base_flags(repo):
    return ["-std=gnu++17", "-resource-dir", LLVM + "/lib/clang/18", "-w",
            "-ferror-limit=0",
            "-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST", "-DOLD_HEADER_FILENAME",
            "-DUSE_BOOST", "-DUSE_PTHREADS", "-I" + repo + "/src",
            "-I" + repo + "/src/Io", "-I" + repo + "/src/Ainur",
            "-I" + repo + "/loki/..", "-isystem", "/usr/include/hdf5/serial"]


def ensure_tool():
    src = os.path.join(ROOT, "tool", "extract.cpp")
    stamp = BIN + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = BIN + ".%d.tmp" % os.getpid()
    cmd = ["/usr/bin/g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions",
           "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so",
           "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the fact extractor:\n" + r.stderr[-2000:])
    os.replace(tmp, BIN)
    open(stamp, "w").write(h)


def driver_flags(repo, name):
    fl = []
    if name in ("integrator.cpp",):
        fl.append("-DUSE_GSL")
    return fl


# example programs that the library has outgrown: they do not compile on the base tree
STALE = ("akimaSpline.cpp", "binaryIoTest.cpp", "binaryRead.cpp", "concurrencyTest.cpp", "openblasConfig.cpp",
         "rungeKuttaTest.cpp", "testInputNg.cpp")
CONFIGS = {"probe:p_mpi.cpp": "mpi", "probe:p_openmp.cpp": "openmp", "probe:p_nopthreads.cpp": "nothreads",
           "probe:p_solversgsl.cpp": "gsl", "probe:p_pthreads1.cpp": "pthreads1",
           "probe:p_mpiyes.cpp": "mpiyes", "probe:p_noboost.cpp": "noboost", "probe:p_iosimple.cpp": "iosimple", "probe:p_calloc.cpp": "calloc"}


def units(repo):
    """(label, source, extra flags)"""
    out = []
    for f in LIB:
        out.append(("lib:" + f, os.path.join(repo, "src", f), []))
    ex = os.path.join(repo, "examples")
    for f in sorted(os.listdir(ex)):
        if f.endswith(".cpp") and f not in STALE:
            out.append(("drv:" + f, os.path.join(ex, f), driver_flags(repo, f)))
    pr = os.path.join(ROOT, "probes")
    for f in sorted(os.listdir(pr)):
        if f.endswith(".cpp"):
            p = os.path.join(pr, f)
            first = open(p).readline()
            extra = []
            if first.startswith("// flags:"):
                extra = first[len("// flags:"):].split()
            extra.append("-isystem")
            extra.append(os.path.join(pr, "stub"))
            out.append(("probe:" + f, p, extra))
    return out


def errkey(e):
    """a compile error without its position"""
    m = re.match(r"(.*?):(\d+):(\d+): (.*)", e)
    if not m:
        return e
    return os.path.basename(m.group(1)) + ": " + re.sub(r":\d+:\d+", "", m.group(4))


def tree_hash(repo):
    h = hashlib.sha256()
    for base in ("src", "examples", "loki"):
        for d, dirs, fs in os.walk(os.path.join(repo, base)):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hh", ".hpp", ".cpp", ".c", ".w")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, repo).encode())
                    h.update(open(p, "rb").read())
    pr = os.path.join(ROOT, "probes")
    for d, dirs, fs in os.walk(pr):
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(os.path.join(ROOT, "tool", "extract.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:24]


def run_one(repo, outdir, idx, u, more=()):
    label, src, extra = u
    out = os.path.join(outdir, "%03d.json" % idx)
    flags = base_flags(repo)
    if "-UUSE_PTHREADS" in extra:
        flags = [f for f in flags if f != "-DUSE_PTHREADS"]
    cmd = [BIN, out, repo + "/src," + repo + "/examples", src, "--"] + flags + extra + list(more)
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    errs = [l for l in r.stderr.split("\n") if " error: " in l]
    return label, src, out, errs, r.returncode


def _intern(o, memo):
    return o


class Facts:
    def __init__(self):
        self.fns = {}      # fk -> fn
        self.byq = {}      # qualified name -> [fn]
        self.recs = {}     # class name -> rec
        self.gvars = {}
        self.enums = {}
        self.protos = {}
        self.pats = set()
        self.types = []    # global type table (strings)
        self.units = []    # (label, n functions, errors)
        self.repo = REPO

    def ty(self, e):
        t = e.get("t", -1) if isinstance(e, dict) else e
        return self.types[t] if t is not None and t >= 0 else ""

    def rel(self, f):
        return os.path.relpath(f, self.repo) if f.startswith(self.repo) else f

    def add_fn(self, fn):
        old = self.fns.get(fn["fk"])
        if old is not None:
            return
        self.fns[fn["fk"]] = fn
        self.byq.setdefault(fn["q"], []).append(fn)


def _remap(o, tm):
    """replace per-TU type ids by global ones, in place (iterative)"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    stack.append(v)
                elif k in ("t", "at", "et", "ret", "mt") and isinstance(v, int):
                    x[k] = tm.get(v, -1)
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def _renumber(fn):
    """declaration numbers count from the start of the function"""
    ids = {}

    def go(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == "id" and isinstance(v, int):
                    o[k] = ids.setdefault(v, len(ids) + 1)
                elif k == "cv" and o.get("cc") == "SourceLocExpr":
                    o[k] = "0"
                elif isinstance(v, (dict, list)):
                    go(v)
        else:
            for v in o:
                if isinstance(v, (dict, list)):
                    go(v)
    for k in ("params", "inits", "body"):
        if fn.get(k):
            go(fn[k])


def _has_recovery(o):
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get("cc") == "RecoveryExpr":
                return True
            for v in x.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)
    return False


def _load_file(path):
    types, fns, recs, other = [], [], [], []
    with open(path) as fh:
        for line in fh:
            o = json.loads(line)
            k = o["K"]
            if k == "type":
                types.append((o["i"], o["s"]))
            elif k == "fn":
                fns.append(o)
            elif k == "rec":
                recs.append(o)
            else:
                other.append(o)
    return types, fns, recs, other


sys.setrecursionlimit(20000)


def _configured(F):
    """a function kept for one build configuration calls the versions of that configuration"""
    for fk, fn in F.fns.items():
        if "@" not in fk:
            continue
        cfg = "@" + fk.rsplit("@", 1)[1]
        todo = [v for k, v in fn.items() if isinstance(v, (dict, list))]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo.extend(y for y in x if isinstance(y, (dict, list)))
                continue
            k = x.get("fk")
            if isinstance(k, str) and k + cfg in F.fns:
                x["fk"] = k + cfg
            todo.extend(y for y in x.values() if isinstance(y, (dict, list)))


def load(repo=None, only=None, quiet=True, ndebug=False):
    repo = os.path.realpath(repo or REPO)
    ensure_tool()
    us = units(repo)
    if only:
        us = [u for u in us if only(u[0])]
    th = tree_hash(repo)
    key = th + "-" + hashlib.sha256(("\n".join(u[0] for u in us) + repo + ("NDEBUG" if ndebug else "")).encode()).hexdigest()[:8]
    more = ["-DNDEBUG"] if ndebug else []
    import pickle
    pk = os.path.join(CACHE, key + ".pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as fh:
                F = pickle.load(fh)
            os.utime(pk)
            return F
        except Exception:
            pass
    outdir = tempfile.mkdtemp(prefix="verif-facts-")
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda iu: run_one(repo, outdir, iu[0], iu[1], more), enumerate(us)))
        F = Facts()
        F.repo = repo
        gtypes = {}
        for label, src, out, errs, rc in res:
            if not os.path.exists(out):
                F.units.append((label, -1, errs))
                continue
            types, fns, recs, other = _load_file(out)
            tm = {}
            for i, s in types:
                s = _LOC.sub("(\\1)", s)
                g = gtypes.get(s)
                if g is None:
                    g = gtypes[s] = len(F.types)
                    F.types.append(s)
                tm[i] = g
            n = 0
            for fn in fns:
                n += 1
                _renumber(fn)
                old = F.fns.get(fn["fk"])
                if old is not None:
                    if old.get("broken") and not _has_recovery(fn):
                        _remap(fn, tm)
                        fn["unit"] = label
                        old.clear()
                        old.update(fn)
                        continue
                    if label not in CONFIGS:
                        continue
                    # the same function under another build configuration
                    _remap(fn, tm)
                    if irhash(F, fn) == irhash(F, old):
                        continue
                    fn["fk"] += "@" + CONFIGS[label]
                    if fn["fk"] in F.fns:
                        continue
                    fn["unit"] = label
                    if errs and _has_recovery(fn):
                        fn["broken"] = True
                    F.add_fn(fn)
                    continue
                _remap(fn, tm)
                fn["unit"] = label
                if errs and _has_recovery(fn):
                    fn["broken"] = True
                F.add_fn(fn)
            for r in recs:
                if r["q"] not in F.recs:
                    _remap(r, tm)
                    F.recs[r["q"]] = r
            for o in other:
                k = o["K"]
                if k == "gvar":
                    kk = (o["q"], o["file"], o["l"])
                    if kk not in F.gvars or (o.get("def") and not F.gvars[kk].get("def")):
                        _remap(o, tm)
                        F.gvars[kk] = o
                elif k == "enum":
                    F.enums[o["q"]] = o
                elif k == "proto":
                    if o["n"] not in F.protos:
                        _remap(o, tm)
                        F.protos[o["n"]] = o
                elif k == "pat":
                    F.pats.add((o["q"], o["file"], o["l"]))
            F.units.append((label, n, errs))
        _configured(F)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    sys.setrecursionlimit(20000)
    try:
        os.makedirs(CACHE, exist_ok=True)
        old = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.endswith(".pickle"))
        for _, f in old[:-6]:
            os.unlink(os.path.join(CACHE, f))
        tmp = pk + ".%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(F, fh, protocol=4)
        os.replace(tmp, pk)
    except OSError:
        pass
    return F


SKIP = {"l", "el", "pl", "file", "unit", "K", "inst", "acc", "inline", "implicit", "ci"}


def irhash(F, fn):
    """hash of a function modulo positions and the names of locals"""
    ids = {}
    h = []

    def go(o):
        if isinstance(o, dict):
            h.append("{")
            member = o.get("k") in ("mem", "memfn")
            for k in sorted(o):
                if k in SKIP or member and k == "id":
                    continue
                v = o[k]
                if k == "t" and o.get("v") == "__FILE__":
                    continue
                if k == "id":
                    v = ids.setdefault(v, len(ids))
                elif k in ("t", "at", "et", "ret", "mt") and isinstance(v, int):
                    v = F.types[v] if v >= 0 else ""
                elif k == "n" and ("id" in o) and not member:
                    continue
                h.append(k + ":")
                go(v)
            h.append("}")
        elif isinstance(o, list):
            h.append("[")
            for x in o:
                go(x)
            h.append("]")
        else:
            h.append(repr(o) + ",")
    go({k: fn.get(k) for k in ("params", "inits", "body", "ret", "const", "static", "virt")})
    return hashlib.md5("".join(h).encode()).hexdigest()


def walk(o):
    """all dict nodes of an IR fragment, pre-order"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)
