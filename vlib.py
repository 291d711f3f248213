"""Shared machinery of the checks: building /repo's sources, running harnesses,
evidence, replays and known findings."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BWTC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MAINS = ["compress", "uncompress", "preprocess", "postprocess"]
VARIANTS = {
    # as the project builds it here: optimised, assertions on
    "opt": ["-O2", "-g", "-w"],
    "asan": ["-O1", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # library assertions of the C++ containers and iterators as a monitor
    "dbg": ["-O1", "-g", "-w", "-D_GLIBCXX_DEBUG"],
}
JOBS = 8


class BuildError(Exception):
    pass


def sources():
    s = sorted(glob.glob(REPO + "/*.cpp"))
    for d in ("preprocessors", "probmodels", "bwtransforms"):
        for e in ("*.cpp", "*.cc", "*.c"):
            s += sorted(glob.glob("%s/%s/%s" % (REPO, d, e)))
    return s


def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = []
    for d in ("", "preprocessors", "probmodels", "bwtransforms"):
        for e in ("*.cpp", "*.cc", "*.c", "*.h", "*.hpp", "*.hxx"):
            fs += glob.glob(os.path.join(REPO, d, e))
    for f in sorted(fs) + list(extra):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _compile(src, obj, flags, inc=None):
    if os.path.exists(obj):
        return
    cc = ["gcc"] if src.endswith(".c") else ["g++"]
    tmp = obj + ".%d.tmp" % os.getpid()
    _run(cc + flags + ["-I", inc or REPO, "-c", src, "-o", tmp])
    os.rename(tmp, obj)


def build_lib(variant, extra_flags=()):
    """Compiles every library source of the current tree; returns (dir, archive)."""
    flags = VARIANTS[variant] + list(extra_flags)
    key = tree_hash() + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    objs, jobs = [], []
    for s in sources():
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        jobs.append((s, o))
        if os.path.basename(s).rsplit(".", 1)[0] not in MAINS:
            objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_compile, s, o, flags) for s, o in jobs]:
            f.result()
    lib = os.path.join(d, "libbwtc.a")
    if not os.path.exists(lib):
        tmp = lib + ".%d" % os.getpid()
        _run(["ar", "rcs", tmp] + objs)
        os.rename(tmp, lib)
    _prune()
    return d, lib, flags


def _prune():
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    ds = sorted((x for x in ds if os.path.isdir(x)), key=os.path.getmtime)
    for x in ds[:-24]:
        if time.time() - os.path.getmtime(x) > 3600:
            shutil.rmtree(x, ignore_errors=True)


def build_programs(variant="opt", extra_flags=()):
    d, lib, flags = build_lib(variant, extra_flags)
    out = {}
    for m in MAINS:
        exe = os.path.join(d, m)
        if not os.path.exists(exe):
            tmp = exe + ".%d" % os.getpid()
            _run(["g++"] + flags + [os.path.join(d, m + ".cpp.o"), lib, "-lboost_program_options", "-o", tmp])
            os.rename(tmp, exe)
        out[m] = exe
    return out


def build_preload(name):
    """mc/<name>.c as a shared object to be preloaded"""
    src = os.path.join(VERIF, "mc", name + ".c")
    so = os.path.join(BUILD, "%s-%s.so" % (name, hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]))
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        _run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
        os.rename(tmp, so)
    return so


REF = os.path.join(VERIF, "ref")


def build_ref():
    """The frozen reference (/verif/ref): (shared object, {program: path})."""
    srcs = sorted(glob.glob(REF + "/*.cpp"))
    for d in ("preprocessors", "probmodels", "bwtransforms"):
        for e in ("*.cpp", "*.cc", "*.c"):
            srcs += sorted(glob.glob("%s/%s/%s" % (REF, d, e)))
    api = os.path.join(VERIF, "mc", "ref.cpp")
    hsh = hashlib.sha256()
    for f in sorted(glob.glob(REF + "/*") + glob.glob(REF + "/*/*")) + sorted(glob.glob(os.path.join(VERIF, "mc", "*.hpp"))) + [api]:
        if os.path.isfile(f):
            hsh.update(f.encode() + open(f, "rb").read())
    d = os.path.join(BUILD, "ref-" + hsh.hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    flags = ["-O2", "-g", "-w", "-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"]
    lib, mains, jobs = [], {}, []
    for s in srcs + [api]:
        o = os.path.join(d, (os.path.relpath(s, VERIF)).replace("/", "_") + ".o")
        m = os.path.basename(s).rsplit(".", 1)[0]
        if m in MAINS:
            mains[m] = o
        else:
            lib.append(o)
        jobs.append((s, o))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_compile, s, o, flags + ["-I", os.path.join(VERIF, "mc")], REF) for s, o in jobs]:
            f.result()
    so = os.path.join(d, "libref.so")
    if not os.path.exists(so):
        ver = os.path.join(d, "ref.map")
        with open(ver, "w") as f:
            f.write("{ global: ref_*; local: *; };")
        _run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-Wl,--version-script=" + ver] + lib + ["-o", so + ".%d" % os.getpid()])
        os.rename(so + ".%d" % os.getpid(), so)
    progs = {}
    for m, o in mains.items():
        exe = os.path.join(d, m)
        if not os.path.exists(exe):
            _run(["g++", o] + [x for x in lib if not x.endswith("mc_ref.cpp.o")] + ["-lboost_program_options", "-o", exe + ".%d" % os.getpid()])
            os.rename(exe + ".%d" % os.getpid(), exe)
        progs[m] = exe
    return so, progs


def build_harness(name, variant="opt", defs=(), extra_src=(), link=()):
    """Builds mc/<name>.cpp against the library. Falls back to the reduced
    harness (-DMC_REDUCED) when the internal interfaces it looks at changed."""
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fl = ex.submit(build_lib, variant)
        flags = VARIANTS[variant] + list(defs)
        hdrs = sorted(glob.glob(os.path.join(VERIF, "mc", "*.hpp")))
        src = os.path.join(VERIF, "mc", name + ".cpp")
        key = tree_hash(hdrs + [src] + [os.path.join(VERIF, "mc", e) for e in extra_src]) + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
        d = os.path.join(BUILD, "h-%s-%s-%s" % (name, variant, key))
        os.makedirs(d, exist_ok=True)
        reduced = False
        err = None
        inc = ["-I", os.path.join(VERIF, "mc")]
        objs = []
        try:
            for s in [name + ".cpp"] + list(extra_src):
                o = os.path.join(d, s + ".o")
                _compile(os.path.join(VERIF, "mc", s), o, flags + inc)
                objs.append(o)
        except BuildError as e:
            err = e
        _, lib, _ = fl.result()
        exe = os.path.join(d, "harness")
        if err is None:
            try:
                if not os.path.exists(exe):
                    _run(["g++"] + flags + objs + [lib] + list(link) + ["-o", exe])
                return exe, False
            except BuildError as e:
                err = e
        o = os.path.join(d, "reduced.o")
        try:
            _compile(src, o, flags + inc + ["-DMC_REDUCED"])
            exe = os.path.join(d, "harness-reduced")
            if not os.path.exists(exe):
                _run(["g++"] + flags + [o, lib] + list(link) + ["-o", exe])
        except BuildError:
            raise err
        print("note: full harness does not compile against this tree, using the reduced one", file=sys.stderr)
        return exe, True


def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key = rest.split(" ", 1)[0]
                assert key.startswith("case=")
                res[key[5:]] = rest.split(" ", 1)[1] if " " in rest else ""
    return res


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.known = known_findings(prop)

    def replay_path(self):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s.json" % self.prop)

    def violation(self, info):
        p = self.replay_path()
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        print("violation of %s: %s" % (self.prop, str(info.get("message", ""))[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))

    def evidence(self, level, coverage, assumptions, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": level, "coverage": coverage, "assumptions": assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def run_harness(chk, exe, args=(), env=None, timeout=None, hang=100, budget=None):
    """Runs an exploration harness; returns its report (dict) and exit code."""
    scratch = tempfile.mkdtemp(prefix="bwtc-%s-" % chk.prop)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0"
    if env:
        e.update(env)
    if budget is None:
        budget = 600 if chk.tier == "quick" else 6 * 3600
    try:
        for attempt, workers in enumerate((8, 4)):
            out = os.path.join(scratch, "out.json")
            cmd = [exe, "--tier", chk.tier, "--out", out, "--errdir", scratch, "--workers", str(workers),
                   "--hang", str(hang), "--budget", str(budget)] + list(args)
            r = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=scratch)
            if not os.path.exists(out):
                raise RuntimeError("harness failed: rc=%d %s" % (r.returncode, r.stderr[-2000:]))
            rep = json.load(open(out))
            rep["cmd"] = [exe]
            if rep["violation"] or not rep["infra"]:
                return rep
            print("note: repeating with fewer workers: " + rep["infra"][:300], file=sys.stderr)
        return rep
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
