#!/usr/bin/env python3
"""Driver of all checks:  run.py <ID> [--tier quick|thorough] [--replay FILE]   |   run.py --setup

Builds the check from the current working tree of /repo (FVENS_REPO overrides the location), runs its exhaustive
exploration on all cores, re-runs every alarm in isolation before reporting it, writes evidence/<ID>.json.
Exit 0: property held on everything explored.  Exit 1 + VIOLATION line: it did not.
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, time, importlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("FVENS_REPO", "/repo"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
NPROC = int(os.environ.get("VERIF_NPROC", os.cpu_count() or 8))
sys.path.insert(0, os.path.join(ROOT, "checks"))

PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi"

def base_env():
    e = {k: v for k, v in os.environ.items() if k not in ("PETSC_DIR", "PETSC_ARCH", "PETSC_OPTIONS", "LD_PRELOAD")}
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
             OPENBLAS_NUM_THREADS="1", PMIX_MCA_gds="hash",
             ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:"
                          "handle_segv=1:print_legend=0",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")
    e.setdefault("HOME", "/root")
    return e

ENV = base_env()

INC = ["-I" + os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3", "-isystem", OMPI + "/include",
       "-isystem", PETSC + "/include", "-isystem", "/usr/include/scotch"]
DEFS = ["-DDEBUG=1", "-DWITH_PETSC=1", "-DEIGEN_DONT_PARALLELIZE", "-DBOOST_PROGRAM_OPTIONS_DYN_LINK",
        "-DBOOST_PROGRAM_OPTIONS_NO_LIB"]
LIBS = ["-L" + OMPI + "/lib", "-Wl,-rpath," + OMPI + "/lib", "-lboost_program_options", "-lscotch", "-lscotcherr",
        "-lpetsc", "-lmpi_cxx", "-lmpi", "-lm", "-ldl", "-lpthread"]

VARIANTS = {
    # plain semantics, memory errors made loud
    "asan": dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-w",
                                   "-fsanitize=address"]),
    # the same without the debugging code, as release builds have it
    "release": dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-w", "-fsanitize=address"], undef=["-UDEBUG"]),
    # as the repository builds it
    "plain": dict(cxx="g++", flags=["-std=c++14", "-O2", "-g1", "-fopenmp", "-w"]),
    # accesses and OpenMP constructs handed to the controlled runtime of common/omprt.cpp
    "omp": dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fopenmp", "-w", "-fsanitize=thread", "-fno-omit-frame-pointer"],
                linkflags=["-Wl,--wrap=" + n for n in "memcpy memmove memset free __cxa_guard_acquire __cxa_guard_release MatSetValues "
                           "MatSetValuesBlocked MatSetValuesLocal MatSetValuesBlockedLocal VecSetValues VecSetValuesBlocked "
                           "VecSetValuesLocal VecGetArray VecRestoreArray".split()] + ["-rdynamic", "-fopenmp"]),
    "plaindbg": dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fopenmp", "-w"]),
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), **kw)

def read(p):
    with open(p, "rb") as f:
        return f.read()

def repo_sources():
    """All library sources of the tree: every .cpp under src that does not define main()."""
    srcs, hdrs = [], []
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f)
            if f.endswith((".cpp", ".cc", ".cxx")):
                if not re.search(rb"^\s*int\s+main\s*\(", read(p), re.M):
                    srcs.append(p)
            elif f.endswith((".hpp", ".h", ".ipp", ".inl", ".tpp")):
                hdrs.append(p)
    return srcs, hdrs

def key_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def compile_one(cxx, flags, src, hdrkey):
    k = key_of(cxx, " ".join(flags), hdrkey, src, read(src))
    obj = os.path.join(BUILD, "obj", k + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([cxx] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj

def build(variant, harness=(), repo_extra=(), harness_extra=(), link_extra=(), exclude=(), with_repo=True, name="x",
          extra_srcs=(), omp_link=True, renamed_mains=()):
    """Compile the repository's library sources and the harness files, link; returns the binary's path."""
    v = VARIANTS[variant]
    srcs, hdrs = repo_sources()
    hdrkey = key_of(*[x for h in hdrs for x in (h, read(h))])
    common = sorted(os.path.join(d, f) for d, _, fn in os.walk(os.path.join(ROOT, "checks")) for f in fn
                    if f.endswith((".hpp", ".h")))
    hkey = key_of(hdrkey, *[x for h in common for x in (h, read(h))])
    jobs = []
    if with_repo:
        for s in srcs:
            if os.path.relpath(s, REPO) in exclude:
                continue
            k = hkey if repo_extra else hdrkey
            jobs.append((v["cxx"], v["flags"] + list(repo_extra) + DEFS + v.get("undef", []) + INC, s, k))
    for s in harness:
        jobs.append((v["cxx"], v["flags"] + list(harness_extra) + DEFS + v.get("undef", []) + ["-I" + os.path.join(ROOT, "checks")] + INC, s, hkey))
    for (cxx, flags, s) in extra_srcs:
        jobs.append((cxx, list(flags), s, hkey))
    for (rel, newname) in renamed_mains:
        jobs.append((v["cxx"], v["flags"] + ["-Dmain=" + newname] + DEFS + v.get("undef", []) + INC, os.path.join(REPO, rel), hdrkey))
    with ThreadPoolExecutor(NPROC) as ex:
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[2]))
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    k = key_of(variant, " ".join(objs), " ".join(link_extra), name)
    exe = os.path.join(BUILD, "bin", name + "-" + k)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lf = v["linkflags"] if "linkflags" in v else [f for f in v["flags"] if not f.startswith("-D") and (omp_link or f != "-fopenmp")]
        r = sh([v["cxx"]] + lf + objs + ["-o", exe + ".tmp"] + list(link_extra) + LIBS)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout[-6000:])
        os.rename(exe + ".tmp", exe)
    return exe

# ---------------------------------------------------------------------------------------------------------------

def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

class Result:
    """What one harness process (or a whole check) found."""
    def __init__(self):
        self.viol = []           # dicts: key, case, msg
        self.evals = 0
        self.nontriv = 0
        self.counts = {}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.exhaustive = True
        self.errors = []

    def merge_json(self, d):
        self.evals += d.get("evaluations", 0)
        self.nontriv += d.get("nontrivial", 0)
        for k, x in d.get("counts", {}).items():
            self.counts[k] = self.counts.get(k, 0) + x
        self.samples += d.get("samples", [])
        self.rule = d.get("rule", self.rule) or self.rule
        for a in d.get("assumptions", []):
            if a not in self.assumptions:
                self.assumptions.append(a)
        if not d.get("exhaustive", True):
            self.exhaustive = False
        self.viol += d.get("violations", [])

def run_shards(exe, tier, limit, nshards, extra=(), env=None, only=None, workroot=None, wrap=(), np=None):
    """np: number of MPI processes of each shard (shards of equal size split that size's cases). Run nshards copies of a native harness; returns a Result."""
    res = Result()
    work = workroot or os.path.join(BUILD, "work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    e = dict(ENV)
    e.update(env or {})
    for i in range(nshards):
        d = os.path.join(work, "s%d" % i)
        os.makedirs(d)
        out, case, log = (os.path.join(d, x) for x in ("out.json", "case.txt", "log.txt"))
        si, sn = i, nshards
        if np:
            si, sn = np[:i].count(np[i]), np.count(np[i])
        cmd = list(wrap) + (["mpirun", "-np", str(np[i])] if np else []) + [
            exe, "--tier", tier, "--shard", str(si), "--nshards", str(sn), "--out", out, "--casefile", case]
        if only is not None:
            cmd += ["--only", only]
        cmd += list(extra)
        p = subprocess.Popen(cmd, cwd=d, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=e,
                             start_new_session=True)
        procs.append((p, out, case, log))
    t_end = time.time() + limit
    for p, out, case, log in procs:
        try:
            p.wait(max(0.1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            try:
                if np:          # lets mpirun end its processes
                    os.killpg(p.pid, signal.SIGTERM)
                    time.sleep(5)
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            p.timedout = True
    for p, out, case, log in procs:
        if p.returncode == 0 and os.path.exists(out):
            res.merge_json(json.load(open(out)))
            continue
        if os.path.exists(out + ".part"):
            res.merge_json(json.load(open(out + ".part")))
        cs = ""
        if os.path.exists(case):
            cs = read(case).split(b"\0")[0].decode(errors="replace")
        tail = read(log)[-200000:].decode(errors="replace")
        if getattr(p, "timedout", False):
            res.errors.append(("timeout", cs, "no result within %d s" % limit))
        elif p.returncode == 97:
            res.errors.append(("harness", cs, tail[-3000:]))
        else:
            m = re.search(r"(ERROR: AddressSanitizer:.*|runtime error:.*|.*[Aa]ssertion.*|terminate called.*\n.*)", tail)
            what = m.group(1).strip()[:300] if m else ""
            res.viol.append(dict(key="crash", case=cs, msg="process ended with code %s %s" % (p.returncode, what),
                                 log=tail[-3000:]))
    if only is None and workroot is None:
        shutil.rmtree(work, ignore_errors=True)
    return res

class Ctx:
    pass

def native_check(ctx, c):
    srcs = [os.path.join(ROOT, "checks", s) for s in c.get("src", [ctx.pid + ".cpp"])]
    exe = build(c.get("variant", "asan"), srcs, name=ctx.pid, repo_extra=c.get("repo_extra", ()),
                harness_extra=c.get("harness_extra", ()), link_extra=c.get("link_extra", ()), exclude=c.get("exclude", ()),
                extra_srcs=c.get("extra_srcs", ()), omp_link=c.get("omp_link", True),
                renamed_mains=c.get("renamed_mains", ()))
    ctx.built = time.time()
    npl = c.get("np")
    def npof(case):
        m = re.match(r"np(\d+):", case)
        return [int(m.group(1)) if m else npl[0]] if npl else None
    if ctx.replay:
        r = run_shards(exe, ctx.tier, 600, 1, only=ctx.replay["case"], env=c.get("env"), np=npof(ctx.replay["case"]))
        return r, None
    limit = c.get("limit", {}).get(ctx.tier, 450 if ctx.tier == "quick" else 6 * 3600)
    r = run_shards(exe, ctx.tier, limit, len(npl) if npl else c.get("shards", NPROC), env=c.get("env"), np=npl)
    def confirm(v):
        # all of a quick run has to end within 900 s
        left = 300 if ctx.tier != "quick" else max(20, min(200, ctx.t0 + 840 - time.time()))
        rr = run_shards(exe, ctx.tier, left, 1, only=v["case"], env=c.get("env"), np=npof(v["case"]),
                        workroot=os.path.join(BUILD, "confirm-%d" % os.getpid()))
        shutil.rmtree(os.path.join(BUILD, "confirm-%d" % os.getpid()), ignore_errors=True)
        if v["key"] == "timeout":      # a hang ends by the limit or by the watchdog on CPU time
            if any(x[0] == "timeout" for x in rr.errors) or any(x["key"] == "crash" for x in rr.viol):
                return True
            if rr.viol:                # finished, with something to report of its own
                v.update(rr.viol[0])
            return bool(rr.viol)
        if v["key"] == "crash":
            return any(x[0] == "timeout" for x in rr.errors) or bool(rr.viol)
        return bool(rr.viol)
    return r, confirm

def write_evidence(ctx, c, r, nviol):
    cov = dict(exhaustive=bool(r.exhaustive), samples=r.samples[:12])
    if c["level"] == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov[k] = int(r.counts.get(k, 0))
        cov["evaluations"] = r.evals
        cov["distinct_nontrivial"] = r.nontriv
        cov["rule"] = r.rule
    else:
        cov.update(evaluations=r.evals, distinct_nontrivial=r.nontriv, rule=r.rule)
    for k, x in sorted(r.counts.items()):
        cov.setdefault(k, x)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=c["level"], coverage=cov,
              assumptions=r.assumptions + c.get("assumptions", []), wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", ctx.pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.rename(p + ".tmp", p)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "mpirun"):
            if not shutil.which(t):
                print("missing tool", t)
                sys.exit(2)
        import registry
        print("setup ok: %d checks registered; every check builds what it needs from %s" % (len(registry.CHECKS), REPO))
        return 0
    import registry
    ctx = Ctx()
    ctx.pid, ctx.tier, ctx.t0 = a.pid, a.tier, time.time()
    ctx.seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx.replay = json.load(open(a.replay)) if a.replay else None
    c = registry.CHECKS[ctx.pid]
    try:
        if c.get("kind", "native") == "native":
            r, confirm = native_check(ctx, c)
        else:
            mod = importlib.import_module(c["module"])
            r, confirm = mod.run(ctx, c, sys.modules[__name__])
    except BuildError as e:
        print("BUILD ERROR", e)
        return 2
    if ctx.replay:
        for v in r.viol:
            print("REPLAY: violation key=%s case=%s\n  %s" % (v["key"], v["case"], v["msg"]))
        for x in r.errors:
            print("REPLAY: error", x)
        if not r.viol and not r.errors:
            print("REPLAY: no violation")
        return 1 if r.viol else 0
    for kind, cs, msg in r.errors:
        if kind == "timeout":
            v = dict(key="timeout", case=cs, msg="did not terminate: " + msg)
            if confirm is None or confirm(v):
                r.viol.append(v)
            else:
                print("note: shard over its time limit at case", cs, "(the case alone finishes): coverage incomplete")
                r.exhaustive = False
    harness_err = [x for x in r.errors if x[0] == "harness"]
    known = known_findings(ctx.pid)
    seen, fresh, unrepro = {}, [], []
    for v in r.viol:
        if v["key"] in known:
            seen[v["key"]] = seen.get(v["key"], 0) + 1
        else:
            fresh.append(v)
    for k, n in seen.items():
        print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.pid, known[k], k))
    bykey = {}
    for v in fresh:
        bykey.setdefault(v["key"], v)
    reported = 0
    if bykey:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for i, (k, v) in enumerate(sorted(bykey.items())):
        if v["key"] != "timeout" and confirm is not None and reported < 3 and not confirm(v):
            unrepro.append(v)
            print("note: alarm not reproduced in isolation:", v["key"], v["case"], v["msg"][:300])
            continue
        rp = os.path.join(ROOT, "replays", "%s-%d.json" % (ctx.pid, i))
        json.dump(dict(property=ctx.pid, key=v["key"], case=v["case"], msg=v["msg"], log=v.get("log", ""),
                       how="python3 run.py %s --tier %s --replay %s" % (ctx.pid, ctx.tier, rp)), open(rp, "w"), indent=1)
        print("  key=%s case=%s\n    %s" % (v["key"], v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        reported += 1
    if unrepro and not reported:
        # run once more in full: an alarm that depends on earlier cases (e.g. corrupted memory) repeats there
        print("note: %d alarms were not reproducible in isolation" % len(unrepro))
        if c.get("kind", "native") == "native":
            r2, _ = native_check(ctx, c)
            again = {x["key"] for x in r2.viol}
            for v in unrepro:
                if v["key"] in again:
                    rp = os.path.join(ROOT, "replays", "%s-u.json" % ctx.pid)
                    os.makedirs(os.path.dirname(rp), exist_ok=True)
                    json.dump(dict(property=ctx.pid, key=v["key"], case=v["case"], msg=v["msg"], log=v.get("log", ""),
                                   how="whole run"), open(rp, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
                    reported += 1
                    break
    write_evidence(ctx, c, r, reported)
    print("%s %s: %d evaluations, %d distinct non-trivial, %s, exhaustive=%s, %d violation kinds, %.1f s"
          % (ctx.pid, ctx.tier, r.evals, r.nontriv, " ".join("%s=%d" % kv for kv in sorted(r.counts.items())),
             r.exhaustive, reported, time.time() - ctx.t0))
    if harness_err:
        print("HARNESS ERROR", harness_err[0])
        if not reported:
            return 2
    return 1 if reported else 0

if __name__ == "__main__":
    sys.exit(main())
