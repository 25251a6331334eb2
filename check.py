#!/usr/bin/env python3
"""check.py PROPERTY: build the simulator from /repo's current tree, search seeds, minimise and replay what fails.

Exit 0: held on every simulated run.  Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 3: the check itself failed.
check.py --setup: build only.   check.py PROPERTY --replay FILE: replay one file twice.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_b")
WORKERS = 8
PY_PROPS = {"C16", "C20", "C21", "C22", "C23"}
LIB_FLAGS = ["-std=c++11", "-O1", "-g", "-fopenmp", "-fsanitize=thread", "-fno-tree-vectorize",
             "-fno-tree-loop-distribute-patterns", "-fno-pie", '-DVERSION="sim"']
SIM_FLAGS = ["-std=c++17", "-O2", "-g", "-Wno-overloaded-virtual", "-fno-pie"]


def die(msg, code=3):
    print(msg)
    sys.exit(code)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def files(d, ext):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(ext)) if os.path.isdir(d) else []


def compile_one(job):
    src, flags, key, name = job
    obj = os.path.join(BUILD, "o", "%s.%s.o" % (name, key))
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, "%s:\n%s" % (src, r.stdout[-3000:])
    os.rename(tmp, obj)
    return obj, ""


def valarray_header():
    """The installed <valarray> with one change: an assignment that changes the size leaves an empty array, not a
    dangling pointer, when its allocation fails (libstdc++ frees the old storage first and forgets to forget it)."""
    out = os.path.join(BUILD, "inc")
    r = subprocess.run(["g++", "-std=c++11", "-x", "c++", "-M", "-"], input="#include <valarray>\n", stdout=subprocess.PIPE, text=True)
    src = [w for w in r.stdout.split() if w.endswith("/valarray")]
    if not src:
        return []
    t = open(src[0]).read()
    pat = re.compile(r"std::__valarray_release_memory\(_M_data\);\s*\}\s*_M_size = (__v|__l|__e)[._M_size()]*;\s*_M_data = __valarray_get_storage<_Tp>\(_M_size\);"
                     r"\s*std::__valarray_copy_construct\([^;]*\);")
    t, n = pat.subn(r"std::__valarray_release_memory(_M_data); } _M_data = 0; _M_size = 0; { valarray __t(\1); this->swap(__t); }", t)
    t, m = re.subn(r"if \(_M_size != __n\)\s*\{\s*std::__valarray_release_memory\(_M_data\);\s*_M_size = __n;\s*_M_data = __valarray_get_storage<_Tp>\(__n\);\s*\}\s*"
                   r"std::__valarray_fill_construct\(_M_data, _M_data \+ __n, __c\);",
                   "std::__valarray_release_memory(_M_data); _M_data = 0; _M_size = 0; valarray __t(__c, __n); this->swap(__t);", t)
    if (n, m) != (3, 1):
        die("the installed <valarray> (%s) is not the one this check knows (%d, %d)" % (src[0], n, m))
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, "valarray")
    if not os.path.exists(f) or open(f).read() != t:
        open(f + ".tmp", "w").write(t)
        os.rename(f + ".tmp", f)
    return ["-isystem", out]


def build():
    """objects are kept by the hash of everything that goes into them"""
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    inc = os.path.join(REPO, "include")
    pysrc = os.path.join(REPO, "python", "arcticpy")
    hdr = [read(f) for f in files(inc, ".hpp") + files(inc, ".h")] + [f.encode() for f in files(inc, ".hpp")]
    ihdr = [read(f) for f in files(os.path.join(pysrc, "include"), ".hpp")]
    simh = [read(f) for f in files(os.path.join(HERE, "sim"), ".h")]
    jobs = []
    std = valarray_header()
    hdr.append(read(os.path.join(std[1], "valarray")) if std else b"")
    for f in files(os.path.join(REPO, "src"), ".cpp"):
        n = os.path.basename(f)[:-4]
        fl = LIB_FLAGS + std + (["-Dmain=arctic_main"] if n == "main" else []) + ["-I" + inc]
        jobs.append((f, fl, sha(read(f), *hdr, *fl), "src_" + n))
    f = os.path.join(pysrc, "src", "interface.cpp")
    if os.path.exists(f):
        fl = LIB_FLAGS + std + ["-I" + inc, "-I" + os.path.join(pysrc, "include")]
        jobs.append((f, fl, sha(read(f), *(hdr + ihdr), *fl), "src_interface"))
    for f in files(os.path.join(HERE, "sim"), ".cpp"):
        n = os.path.basename(f)[:-4]
        fl = SIM_FLAGS + std + ["-I" + inc, "-I" + os.path.join(pysrc, "include")]
        jobs.append((f, fl, sha(read(f), *(hdr + ihdr + simh), *fl), "sim_" + n))
    with ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(compile_one, jobs))
    # a scenario that no longer compiles takes only its own properties with it
    lost = [e for (o, e), j in zip(res, jobs) if o is None and j[3].startswith("sim_scn_")]
    bad = [e for (o, e), j in zip(res, jobs) if o is None and not j[3].startswith("sim_scn_")]
    for e in lost:
        print("left out:", e, file=sys.stderr)
    res = [(o, e) for o, e in res if o is not None]
    if bad:
        die("cannot build the simulator from %s:\n%s" % (REPO, "\n".join(bad)))
    objs = [o for o, e in res]
    key = sha(*objs)
    exe = os.path.join(BUILD, "simctl." + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-no-pie"] + objs + ["-o", tmp, "-lgsl", "-lgslcblas", "-lm", "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("cannot link the simulator:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    # forget old builds
    keep = set(objs) | {exe}
    old = [os.path.join(BUILD, "o", f) for f in os.listdir(os.path.join(BUILD, "o"))] + \
          [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("simctl.")]
    for f in old:
        if f not in keep and time.time() - os.path.getmtime(f) > 6 * 3600:
            os.unlink(f)
    return exe


def known_findings(prop):
    """(id, text) of the findings recorded in known_findings.txt"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def repo_commit():
    r = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()


def resolve(exe, msg):
    """file and line of the code addresses named in a message"""
    pcs = re.findall(r"pc=(0x[0-9a-f]+)", msg)
    if not pcs:
        return ""
    r = subprocess.run(["addr2line", "-Cfe", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    lines = r.stdout.split("\n")
    return "; ".join("%s is %s at %s" % (pc, lines[2 * i], lines[2 * i + 1]) for i, pc in enumerate(pcs) if 2 * i + 1 < len(lines))


def main():
    if "--setup" in sys.argv:
        build()
        import pybuild
        pybuild.build()
        return 0
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    seconds = float(os.environ.get("VERIF_SECONDS") or ({"quick": 50, "thorough": 900}[tier]))
    exe = build()
    cmd0 = [exe]
    if prop in PY_PROPS:
        import pybuild
        cmd0 = pybuild.command(exe)
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run.%s.%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        return search(prop, tier, seed, seconds, exe, cmd0, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(prop, tier, seed, seconds, exe, cmd0, work, t0, t_build):
    known = known_findings(prop)
    kargs = [a for k, _ in known for a in ("--known", k)]
    if "--replay" in sys.argv:
        return subprocess.run(cmd0 + ["--prop", prop, "--scratch", os.path.join(work, "s"),
                                      "--replay", sys.argv[sys.argv.index("--replay") + 1]] + kargs).returncode
    procs = []
    for w in range(WORKERS):
        log = open(os.path.join(work, "log.%d" % w), "w")
        procs.append(subprocess.Popen(cmd0 + ["--prop", prop, "--seconds", str(seconds), "--base", str(seed), "--worker", str(w),
                                              "--workers", str(WORKERS), "--scratch", os.path.join(work, "s%d" % w),
                                              "--out", os.path.join(work, "x.%d" % w)] + kargs,
                                      stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True))
    rc = {}
    deadline = time.time() + seconds + 150
    while len(rc) < WORKERS:
        for w, p in enumerate(procs):
            if w not in rc and p.poll() is not None:
                rc[w] = p.returncode
        if any(v == 1 for v in rc.values()) or time.time() > deadline:
            break
        time.sleep(0.1)
    for w, p in enumerate(procs):
        if w not in rc:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    agg = {}
    tot = {"runs": 0, "nontrivial": 0, "discarded": 0, "known": 0, "gate_runs": 0, "unstable": 0, "multi_runs": 0, "fault_runs": 0, "distinct_workloads": 0}
    scheds = set()
    samples, msgs = [], {}
    for w in range(WORKERS):
        x = os.path.join(work, "x.%d" % w)
        if not os.path.exists(x + ".json"):
            continue
        j = json.load(open(x + ".json"))
        for k in tot:
            tot[k] += j.get(k, 0)
        for k, v in j["stats"].items():
            agg[k] = agg.get(k, 0) + v
        b = read(x + ".scheds")
        scheds.update(b[i:i + 8] for i in range(0, len(b), 8))
        if os.path.exists(x + ".samples"):
            samples += [l.strip()[:1500] for l in open(x + ".samples", errors="replace")][:2]
        if os.path.exists(x + ".unstable"):
            for l in open(x + ".unstable", errors="replace"):
                print("%s: a run differs when repeated: %s" % (prop, l.strip()[:700]))
        msgs[w] = open(x + ".msg", errors="replace").read().strip()
    bad = [w for w in rc if rc[w] == 1]
    err = [w for w in rc if rc[w] not in (0, 1)]
    violation = None
    code = 0
    if bad:
        w = bad[0]
        print("%s: seed fails: %s" % (prop, msgs.get(w, "")[:2000]))
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        final = os.path.join(rdir, "%s.%d.replay" % (prop, seed))
        raw = os.path.join(work, "x.%d.replay" % w)
        shutil.copy(raw, final)
        mini = os.path.join(work, "min.replay")
        sdir = os.path.join(work, "m")
        minsec = float(os.environ.get("VERIF_MINIMISE") or (25 if tier == "quick" else 120))
        try:
            r = subprocess.run(cmd0 + ["--prop", prop, "--minimise", raw, "--out", mini, "--min-seconds", str(minsec), "--scratch", sdir] + kargs,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=minsec + 200)
            print(r.stdout.strip()[-500:])
            use = mini if r.returncode == 0 and os.path.exists(mini) else raw
        except subprocess.TimeoutExpired:
            use = raw
        ok = False
        for cand in ([use, raw] if use != raw else [raw]):
            r = subprocess.run(cmd0 + ["--prop", prop, "--replay", cand, "--scratch", sdir] + kargs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            if r.returncode == 1:
                ok = True
                shutil.copy(cand, final)
                break
            print("replay of %s: code %d: %s" % (os.path.basename(cand), r.returncode, r.stdout[-800:]))
        if ok:
            print("replayed twice: " + r.stdout.strip()[-2500:])
            where = resolve(exe, r.stdout)
            if where:
                print(where)
            violation = final
            code = 1
        else:
            code = 3
    elif err or len(rc) < WORKERS:
        for w in range(WORKERS):
            if w not in rc or rc[w]:
                print("%s: worker %d ended with code %s: %s %s" % (prop, w, rc.get(w, "none (no progress)"), msgs.get(w, ""),
                      open(os.path.join(work, "log.%d" % w), errors="replace").read()[-1500:]))
        code = 3
    for kid, txt in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, txt))
    wall = time.time() - t0
    search_s = max(1e-3, wall - t_build)
    rule = subprocess.run(cmd0 + ["--prop", prop, "--rule"], stdout=subprocess.PIPE, text=True).stdout.strip()
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": rule,
        "samples": samples[:6],
        "outside_the_property_domain": tot["discarded"],
        "runs_matching_known_findings": tot["known"],
        "determinism_rechecks": tot["gate_runs"],
        "runs_not_reproduced_by_their_seed": tot.get("unstable", 0),
        "runs_with_interleaved_threads": tot["multi_runs"],
        "runs_with_faults": tot["fault_runs"],
        "simulated_runs_per_hour": int((tot["runs"] + tot["gate_runs"]) * 3600 / search_s),
        "seeds_per_hour": int(tot["runs"] * 3600 / search_s),
        "simulated_time_s": agg.get("simulated_time_us", 0) / 1e6,
        "distinct_interleavings": len(scheds),
        "distinct_interleavings_measure": "hash over every switch between client threads (the line of the package executed, from which client to which)" if prop in PY_PROPS else "hash over every scheduling decision (which task ran, at which instrumented access it was preempted, which chunk of columns it took), capped at 400000 per worker",
        "distinct_workloads": tot["distinct_workloads"],
        "faults_injected": {k: v for k, v in agg.items() if k.startswith("fault_") or k.startswith("injected_")},
        "work": {k: v for k, v in agg.items() if not (k.startswith("fault_") or k.startswith("injected_"))},
        "real_code": "all of /repo/src and the Python interface's interface.cpp (rebuilt from the working tree), GSL, libstdc++, libc stdio"
                     + ("; the Cython wrapper and the Python package, CPython, NumPy and SciPy" if prop in PY_PROPS else ""),
        "stubs": "order of the client threads (line-level scheduler), allocations of the extension (plan of failures), standard output, one OpenMP thread; the simulated thread team is used in the other properties" if prop in PY_PROPS else
                 "OpenMP runtime and threads (simulated tasks), heap (checking allocator), wall clock, exit(); file system calls are real but filtered",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["violations outside the seeds searched are not excluded",
                          "client threads interleave at lines of the package; inside the extension the interpreter lock is held" if prop in PY_PROPS else
                          "threads interleave at instrumented memory accesses with sequential consistency; data races are reported separately by C02",
                          "the repository's sources are compiled with %s, not with the shipped optimisation flags" % ("the checks' own optimisation flags" if prop in PY_PROPS else "-O1 and memory-access instrumentation")],
          "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0,
          "repository_commit": repo_commit(), "build_s": round(t_build, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s: %d simulated runs (%d distinct non-trivial, %d outside the domain) in %.0f s (build %.0f s)"
          % (prop, tot["runs"], tot["nontrivial"], tot["discarded"], wall, t_build))
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
    return code


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
