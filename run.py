#!/usr/bin/env python3
"""Driver of the bounded model checks.

usage: run.py PROPERTY [quick|thorough] [--jobs N] [--replay FILE] [--build-only]

1. compiles every library source of /repo's working tree (cached by content) with ASan,
2. compiles the harness of the property against it,
3. runs the harness in parallel shards (each shard enumerates a disjoint part of the space),
4. merges the shards' counters into evidence/<property>.json, compares violations with
   known_findings.txt, prints VIOLATION / KNOWN-FINDING lines and exits 0 or 1.
"""
import sys, os, re, json, time, hashlib, subprocess, glob, fcntl, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # property -> dict(harness=..., group=..., tiers=...)

CXX = "g++"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
LIBFLAGS = ["-O1", "-g1", "-w", "-std=c++0x", "-DROPTLIB_WITH_FFTW"] + SAN
HFLAGS = ["-O1", "-g1", "-w", "-std=c++17", "-fno-access-control", "-DROPTLIB_WITH_FFTW"] + SAN
LINK = ["-llapack", "-lblas", "-lfftw3", "-lm", "-lpthread"]


def incdirs():
    dirs = [REPO]
    try:
        for line in open(os.path.join(REPO, "Makefile"), errors="replace"):
            m = re.match(r"\s*INCDIRS\s*\+?=\s*-I\$\(ROOTPATH\)/(\S*)", line)
            if m and m.group(1):
                dirs.append(os.path.join(REPO, m.group(1)))
    except OSError:
        pass
    for d in ("", "Manifolds", "Problems", "Solvers", "Others", "Others/SparseBLAS", "Others/fftw",
              "Others/wavelet", "cwrapper/blas", "cwrapper/lapack"):
        p = os.path.join(REPO, d)
        if p not in dirs:
            dirs.append(p)
    return ["-I" + d for d in dirs if os.path.isdir(d)]


SKIP = {"mexProblem.cpp", "juliaProblem.cpp"}


def lib_sources():
    out = []
    for top in ("Manifolds", "Problems", "Solvers", "Others"):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            for f in sorted(files):
                if f.endswith(".cpp") or f.endswith(".c"):
                    if f in SKIP:
                        continue
                    out.append(os.path.join(root, f))
    return sorted(out)


def headers_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".inc")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def run_cmd(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


class BuildError(Exception):
    pass


def compile_one(src, flags, key, odir):
    h = hashlib.sha256()
    h.update(key.encode())
    h.update(" ".join(flags).encode())
    h.update(open(src, "rb").read())
    obj = os.path.join(odir, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = run_cmd([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(harness, jobs):
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hk = headers_hash()
        inc = incdirs()
        srcs = lib_sources()
        hh = hashlib.sha256()
        for p in sorted(glob.glob(os.path.join(VERIF, "lib", "*.h"))):
            hh.update(open(p, "rb").read())
        hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
        with ThreadPoolExecutor(jobs) as ex:
            hf = ex.submit(compile_one, hsrc, HFLAGS + inc + ["-I" + os.path.join(VERIF, "lib")], hk + hh.hexdigest(), odir)
            futs = [ex.submit(compile_one, s, LIBFLAGS + inc, hk + s, odir) for s in srcs]
            guard = os.path.join(VERIF, "lib", "blasguard.cpp")
            futs.append(ex.submit(compile_one, guard, ["-O1", "-g1", "-w"] + SAN + inc, hk, odir))
            objs = [f.result() for f in futs]
            hobj = hf.result()
            gtext = open(guard).read()
            names = [c + n for n in re.findall(r"q##(\w+_)", gtext) for c in "dz"] + re.findall(r"W\(\w+, ([a-z]\w*_),", gtext)
            wrap = ["-Wl,--wrap=" + n for n in names]
        k = hashlib.sha256((" ".join(sorted(objs) + wrap) + hobj).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, harness + "." + k)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = run_cmd([CXX] + SAN + [hobj] + objs + wrap + LINK + ["-o", tmp])
            if r.returncode != 0:
                raise BuildError("linking failed:\n" + r.stdout[-4000:])
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        # keep the cache small
        try:
            exes = sorted((p for p in glob.glob(os.path.join(BUILD, "*.*")) if os.path.isfile(p) and os.access(p, os.X_OK)), key=os.path.getmtime)
            for p in exes[:-40]:
                os.unlink(p)
            ob = sorted(glob.glob(os.path.join(odir, "*.o")), key=os.path.getmtime)
            for p in ob[:-1200]:
                os.unlink(p)
        except OSError:
            pass
    return exe


def known_findings():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            m = re.match(r"KNOWN property=(\S+) key=(\S+)\s*\|\s*(.*)$", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def run_shard(exe, prop, tier, i, n, outdir, timeout, seed, replay=None, deadline=1e18):
    out = os.path.join(outdir, "shard%d.jsonl" % i)
    cur = os.path.join(outdir, "shard%d.cur" % i)
    err = os.path.join(outdir, "shard%d.err" % i)
    env = dict(os.environ)
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1000000000:"
                           "malloc_fill_byte=255:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                           "handle_abort=0:handle_segv=1:quarantine_size_mb=8:new_delete_type_mismatch=0")
    cmd = [exe, "--prop", prop, "--tier", tier, "--shard", str(i), "--nshards", str(n), "--out", out, "--cur", cur,
           "--seed", str(seed)]
    if replay:
        cmd += ["--replay", replay]
    t0 = time.time()
    with open(err, "w") as ef, open(os.devnull, "w") as dn:
        p = subprocess.Popen(cmd, stdout=dn, stderr=ef, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, min(timeout, deadline - time.time())))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    return dict(i=i, rc=rc, out=out, cur=cur, err=err, wall=time.time() - t0)


def rd(p):
    try:
        return open(p, "rb").read().split(b"\0")[0].decode("utf-8", "replace").strip()
    except OSError:
        return ""


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = os.cpu_count() or 8
    replay = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--jobs":
            i += 1
            jobs = int(args[i])
        elif args[i] == "--replay":
            i += 1
            replay = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    exe = build(spec["harness"], jobs)
    tb = time.time() - t0
    if "--build-only" in args:
        print(exe)
        return 0
    outdir = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    nsh = spec.get("shards", 16)
    timeout = spec.get("timeout", {}).get(tier, 700 if tier == "quick" else 14000)
    deadline = t0 + 830 if tier == "quick" else t0 + 40000
    if replay:
        r = run_shard(exe, prop, tier, 0, 1, outdir, timeout, seed, replay)
        print(rd(r["out"]))
        print("exit:", r["rc"], open(r["err"]).read()[-3000:])
        shutil.rmtree(outdir, ignore_errors=True)
        return 0
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda k: run_shard(exe, prop, tier, k, nsh, outdir, timeout, seed, None, deadline), range(nsh)))

    states = transitions = evals = outcomes = 0
    traces = 0
    families = {}
    samples = []
    viols = {}
    capped = []
    internal_errors = []
    for r in res:
        done = False
        try:
            lines = open(r["out"], errors="replace").read().split("\n")
        except OSError:
            lines = []
        for line in lines:
            if not line.strip():
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                v = viols.setdefault(d["key"], dict(count=0, detail=d["detail"], case=d["case"]))
                v["count"] += d.get("n", 1)
                if len(d["case"]) < len(v["case"]):
                    v["case"] = d["case"]
                    v["detail"] = d["detail"]
            elif d["t"] == "sample":
                samples.append(d["s"])
            elif d["t"] == "fam":
                f = families.setdefault(d["name"], {})
                for k2, v2 in d.items():
                    if k2 not in ("t", "name"):
                        if k2 in ("depth", "maxdepth"):
                            f[k2] = max(f.get(k2, 0), v2)
                        else:
                            f[k2] = f.get(k2, 0) + v2
            elif d["t"] == "capped":
                capped.append(d["s"])
            elif d["t"] == "done":
                done = True
                states += d["states"]
                transitions += d["transitions"]
                evals += d["evals"]
                traces += d["traces"]
                outcomes += d["outcomes"]
        if not done:
            cur = rd(r["cur"])
            et = open(r["err"], errors="replace").read()
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", et)
            if r["rc"] == "timeout":
                # the time of the whole check is used up: what is left of this shard is not covered (an endless loop
                # is found by the processor time limit of every configuration)
                capped.append("shard %d stopped by the time limit in %s" % (r["i"], cur[:120]))
                continue
            elif m:
                kind = "asan-" + m.group(1)
            else:
                kind = "crash-rc%s" % r["rc"]
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (ROPTLIB::[^\s(]+)", et)
            grp = cur.split("|")[0].strip() if cur else "startup"
            key = (grp.replace(" ", "_") or "startup") + ":" + kind
            am = re.search(r"Assertion `(.*?)' failed", et)
            v = viols.setdefault(key, dict(count=0, detail="shard %d ended with %s; %s %s" % (r["i"], r["rc"], "; ".join(fr[:4]), am.group(0) if am else et[-300:]), case=cur))
            v["count"] += 1

    known = known_findings().get(prop, {})
    new = {k: v for k, v in viols.items() if k not in known}
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k in sorted(viols):
        if k in known:
            print("KNOWN-FINDING: property=%s %s | %s (%d cases)" % (prop, k, known[k], viols[k]["count"]))
    for n, k in enumerate(sorted(new)):
        v = new[k]
        rp = os.path.join(rdir, "%s-%s.txt" % (prop, hashlib.sha256(k.encode()).hexdigest()[:12]))
        with open(rp, "w") as f:
            f.write("property: %s\nkey: %s\ncases: %d\ncase: %s\ndetail: %s\n" % (prop, k, v["count"], v["case"], v["detail"]))
            f.write("replay: python3 /verif/run.py %s %s --replay '%s'\n" % (prop, tier, v["case"].split("|")[0].strip()))
        if n < int(os.environ.get("MC_SHOW", "40")):
            print("  key=%s cases=%d\n    case: %s\n    %s" % (k, v["count"], v["case"], v["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    cov = dict(states=states, transitions=transitions, evaluations=evals, distinct_nontrivial=outcomes,
               traces_validated_against_impl=traces, rule=spec.get("rule", ""), samples=samples[:12],
               families=families, exhaustive=(not capped), caps=capped[:20], known_findings=sorted(k for k in viols if k in known))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("MC_KEEP") is None:
        shutil.rmtree(outdir, ignore_errors=True)
    print("%s %s: states=%d transitions=%d evaluations=%d outcomes=%d traces=%d violations=%d build=%.1fs wall=%.1fs%s" % (
        prop, tier, states, transitions, evals, outcomes, traces, len(new), tb, time.time() - t0,
        " CAPPED" if capped else ""))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        # a tree that does not compile cannot be judged; report it as an error of the check
        sys.stderr.write(str(e) + "\n")
        print("BUILD-ERROR")
        sys.exit(3)
