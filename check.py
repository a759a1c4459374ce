#!/usr/bin/env python3
"""Driver of the simulator: builds the library from /repo with the simulator's seams linked in,
searches seeded runs, writes evidence, prints VIOLATION / KNOWN-FINDING lines.

  check.py run C01 [--tier quick|thorough]     decide one property (exit 0 / 1)
  check.py replay FILE                         replay a violation (exit 3: reproduced)
  check.py build [C01 ...]                     only build
  check.py determinism C01 [N]                 run the same seeds in several processes and compare
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
OUTDIR = os.environ.get("SIM_HERE", HERE)  # evidence and replays; set for experiments only
SIM = os.path.join(HERE, "sim")
NCPU = os.cpu_count() or 4

WRAPS = ["malloc", "calloc", "realloc", "free", "sodium_malloc", "sodium_allocarray", "sodium_free",
         "sodium_mprotect_noaccess", "sodium_mprotect_readonly", "sodium_mprotect_readwrite",
         "sodium_runtime_has_aesni", "pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
         "pthread_spin_lock", "pthread_cond_wait", "sched_yield", "pthread_once", "__cxa_guard_acquire", "sodium_memzero"]
WRAPS += re.findall(r"^W\((\w+),", open(os.path.join(SIM, "scrub.cpp")).read(), re.M)

COMMON = ["-march=x86-64-v2", "-maes", "-mpclmul", "-gline-tables-only", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    # memory locking, address sanitizer, steps at basic-block granularity
    "asan":   dict(lock=True,  ndebug=False, opt="-O1", san=["-fsanitize=address"], cov="trace-pc-guard,trace-cmp"),
    # no memory locking, assertions off (release configuration)
    "nolock": dict(lock=False, ndebug=True,  opt="-O2", san=["-fsanitize=address"], cov="trace-pc-guard,trace-cmp"),
    # memory locking, no sanitizer
    "plain":  dict(lock=True,  ndebug=True,  opt="-O2", san=[], cov="trace-pc-guard,trace-cmp"),
    # memory locking, no sanitizer, every load and store is a step (thread schedules)
    "thr":    dict(lock=True,  ndebug=True,  opt="-O1", san=[], cov="trace-pc-guard,trace-cmp,trace-loads,trace-stores"),
    # data-race detection under the simulator's schedule
    "tsan":   dict(lock=True,  ndebug=True,  opt="-O1", san=["-fsanitize=thread"], cov="trace-pc-guard"),
}
LEVEL = "exploration"
# property -> list of parts (variant, runs, seconds) per tier
from plan import PARTS, NOTES  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"add_library\(\s*sse_crypto\s([^)]*)\)", text)
    if not m:
        raise CheckError("no add_library(sse_crypto ...) in src/CMakeLists.txt")
    names = re.findall(r"[^ \t\r\n\"]+\.(?:cpp|cc|c)", m.group(1))
    out = []
    for n in names:
        p = os.path.normpath(os.path.join(REPO, "src", n))
        if "/src/ppke/" in p or p.endswith("/src/puncturable_enc.cpp"):
            continue
        out.append(p)
    return out


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cpp", ".cc", ".h", ".hpp", ".inc", ".txt", ".S")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def compile_one(cmd, src, obj):
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd + [src]), r.stdout[-4000:])
    os.replace(tmp, obj)
    return None


def build(prop, variant, cc="clang", collect=None):
    v = dict(VARIANTS[variant])
    if os.environ.get("SIM_OPT"):  # robustness experiments only
        v["opt"] = os.environ["SIM_OPT"]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    th = tree_hash([os.path.join(REPO, "src")])
    sh_ = tree_hash([SIM])
    inc = ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src"),
           "-I" + os.path.join(REPO, "src/include/sse/crypto")]
    defs = ["-DSIM_VARIANT=\"%s\"" % variant] + (["-DENABLE_MEMORY_LOCK"] if v["lock"] else []) + (["-DNDEBUG"] if v["ndebug"] else [])
    if variant == "tsan":
        defs.append("-DSIM_TSAN")
    inst = list(v["san"])
    if cc == "clang":
        CC, CXX = "clang", "clang++"
        inst += ["-fsanitize-coverage=" + v["cov"], "-ftrivial-auto-var-init=pattern"]
        common = COMMON
    else:
        CC, CXX = "gcc", "g++"
        inst += ["-fsanitize-coverage=trace-pc,trace-cmp", "-ftrivial-auto-var-init=pattern"]
        common = [c for c in COMMON if c != "-gline-tables-only"] + ["-g1"]
    forced = ["-include", "cstdint", "-include", "stdexcept", "-include", "array"]
    jobs = []

    def obj(src, flags, extra):
        key = hashlib.sha256(json.dumps([cc, src, flags, extra]).encode()).hexdigest()[:24]
        return os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")

    objs = []
    for s in lib_sources():
        if s.endswith(".c"):
            f = [CC, "-std=gnu11", v["opt"]] + common + defs + inst + inc
        else:
            f = [CXX, "-std=c++11", "-fno-rtti", v["opt"]] + common + defs + inst + inc + forced + \
                ["-DRELIC_API_H", "-include", os.path.join(SIM, "stubs.hpp")]
        o = obj(s, f, [th, sh_])
        objs.append(o)
        jobs.append((f, s, o))
    rt = [CXX, "-std=c++17", "-O2", "-fno-rtti"] + common + defs
    for s in ("rt.cpp", "core.cpp", "scrub.cpp"):
        p = os.path.join(SIM, s)
        f = rt
        o = obj(p, f, [sh_])
        objs.append(o)
        jobs.append((f, p, o))
    for s, lang in (("ref.cpp", 1), ("ref_aez.c", 0)):
        p = os.path.join(SIM, s)
        if os.path.exists(p):
            f = rt if lang else [CC, "-std=gnu11", "-O2"] + common
            o = obj(p, f, [sh_])
            objs.append(o)
            jobs.append((f, p, o))
    p = os.path.join(SIM, prop.lower() + ".cpp")
    f = [CXX, "-std=c++17", "-fno-rtti", "-O1"] + common + defs + inst + inc + forced
    o = obj(p, f, [th, sh_])
    objs.append(o)
    jobs.insert(0, (f, p, o))
    exe = os.path.join(BUILD, "%s-%s-%s" % (prop, variant, hashlib.sha256("".join(objs).encode()).hexdigest()[:16]))
    if os.path.exists(exe):
        return exe
    if collect is not None:  # the caller compiles these together with others
        for j in jobs:
            collect.setdefault(j[2], j)
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        raise CheckError("compilation failed:\n" + errs[0])
    link = [CXX] + v["san"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS),
                                      "-lsodium", "-lgmp", "-lcrypto", "-lpthread", "-rdynamic", "-o", exe + ".tmp%d" % os.getpid()]
    r = sh(link)
    if r.returncode != 0:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def precompile(pairs):
    """Compiles everything the given (property, variant) pairs need with all cores; errors are left to build()."""
    if os.environ.get("SIM_CC") == "gcc":
        return
    jobs = {}
    for p, v in pairs:
        build(p, v, collect=jobs)
    order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[1]) * (4 if j[1].startswith(SIM) else 1))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: compile_one(*j), order))


def build_any(prop, variant):
    if os.environ.get("SIM_CC") == "gcc":
        return build(prop, variant, "gcc"), "gcc"
    try:
        return build(prop, variant), "clang"
    except CheckError as e:
        first = e
    try:
        return build(prop, variant, "gcc"), "gcc"
    except CheckError:
        raise first


def known_findings(prop):
    """known_findings.txt: lines 'known: property=C01 kind=<violation kind> <text>'."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(OUTDIR, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUTDIR, "replays"), exist_ok=True)
    known = known_findings(prop)
    stats, viol = [], None
    precompile([(prop, x["variant"]) for x in PARTS[prop]])
    for i, part in enumerate(PARTS[prop]):
        variant = part["variant"]
        exe, cc = build_any(prop, variant)
        tb = time.time()
        runs, secs = part[tier]
        out = os.path.join(BUILD, "out-%s-%s-%d" % (prop, variant, os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        replay = os.path.join(OUTDIR, "replays", "%s-%s.replay" % (prop, variant))
        if os.path.exists(replay):
            os.remove(replay)
        cmd = [exe, "search", "--seed", str(seed + 1000 * i), "--runs", str(runs), "--max-seconds", str(secs),
               "--jobs", str(NCPU), "--out", out, "--replay", replay, "--known", ",".join(known),
               "--thorough", "1" if tier == "thorough" else "0", "--profile", str(part.get("profile", 160))]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, LD_BIND_NOW="1"))
        if r.returncode not in (0, 1):
            raise CheckError("simulator failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        if r.stderr:
            sys.stderr.write(r.stderr[-2000:])
        st = json.load(open(os.path.join(out, "stats.json")))
        st["compiler"] = cc
        shutil.rmtree(out, ignore_errors=True)
        stats.append(st)
        print("%s %-6s runs=%d steps=%.3g faults=%s wall=%.1fs" % (prop, variant, st["runs"], st.get("steps", 0),
              sum(st.get("faults_fired", {}).values()), time.time() - tb))
        if st.get("determinism_mismatches"):
            sys.stderr.write("warning: %d determinism mismatches\n" % st["determinism_mismatches"])
        if r.returncode == 1:
            viol = (replay, st["violation"], variant)
            break
    write_evidence(prop, tier, seed, stats, time.time() - t0, viol)
    for kind, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if viol:
        v = viol[1]
        print("violation kind=%s: %s" % (v["kind"], v["message"]))
        print("minimised: %s" % v["minimised"])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        return 1
    return 0


def write_evidence(prop, tier, seed, stats, wall, viol):
    tot = lambda k: sum(s.get(k, 0) for s in stats)

    def summed(k):
        d = {}
        for s in stats:
            for n, c in s.get(k, {}).items():
                d[n] = d.get(n, 0) + c
        return d
    note = NOTES[prop]
    samples = []
    for s in stats:
        samples += ["[%s] %s" % (s["variant"], x) for x in s.get("samples", [])]
    cov = dict(
        evaluations=tot("runs"), distinct_nontrivial=tot("distinct_nontrivial_traces"),
        rule=note["rule"], samples=samples[:6],
        simulated_operations=tot("ops"), simulated_steps=tot("steps"),
        simulated_time="%d operations, %d instrumented steps (the library has no clocks or timers: simulated time is its step count)" % (tot("ops"), tot("steps")),
        runs_and_seeds_per_hour=int(tot("runs") * 3600 / max(0.01, tot("wall_s"))),
        faults_injected=summed("faults_fired"), runs_with_resource_fault=tot("runs_with_resource_fault"),
        resource_requests_seen=tot("resource_requests"), random_bytes_served=tot("rng_bytes"),
        distinct_states=tot("distinct_states"), distinct_interleavings=tot("distinct_interleavings"),
        preemptions=tot("preemptions"), probes=summed("probes"), operations=summed("op_counts"),
        determinism_rechecked=tot("determinism_rechecked"), determinism_mismatches=tot("determinism_mismatches"),
        unstable_candidates=tot("unstable_candidates"), timeouts=tot("timeouts"),
        known_finding_hits=summed("known_kinds"),
        parts=[dict(variant=s["variant"], compiler=s["compiler"], runs=s["runs"], wall_s=s["wall_s"], edges_covered=s.get("edges_covered"),
                    edges_total=s.get("edges_total"), dictionary=s.get("dictionary")) for s in stats],
        state_measure=note.get("states", "hash of the abstract model state after each operation"),
        real_code=note["real"], stubs=note["stubs"])
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(wall, 2),
              assumptions=note["assumptions"], violations=1 if viol else 0)
    if viol:
        ev["violation"] = viol[1]
    with open(os.path.join(OUTDIR, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return run(a[1], tier)
    if a[0] == "build":
        precompile([(p, x["variant"]) for p in a[1:] or sorted(PARTS) for x in PARTS[p]])
        for p in a[1:] or sorted(PARTS):
            for v in {x["variant"] for x in PARTS[p]}:
                print(build_any(p, v)[0])
        return 0
    if a[0] == "replay":
        head = dict(l.split(None, 1) for l in open(a[1]) if l.startswith(("property", "variant")))
        exe, _ = build_any(head["property"].strip(), head["variant"].strip())
        return subprocess.run([exe, "replay", "--file", a[1]]).returncode
    if a[0] == "determinism":
        n = a[2] if len(a) > 2 else "200"
        bad = 0
        for part in PARTS[a[1]]:
            exe, _ = build_any(a[1], part["variant"])
            with cf.ThreadPoolExecutor(NCPU) as ex:
                outs = list(ex.map(lambda k: subprocess.run([exe, "hashes", "--seed", str(7 + k % 8), "--runs", n],
                            stdout=subprocess.PIPE, env=dict(os.environ, PADDING="x" * (k * 37))).stdout, range(32)))
            same = all(outs[k] == outs[k % 8] for k in range(32))
            print(a[1], part["variant"], "8 seeds x", n, "runs x 4 processes:", "identical" if same else "DIFFER", hashlib.sha256(b"".join(outs)).hexdigest()[:12])
            bad |= not same
        return 1 if bad else 0
    return 2


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    try:
        sys.exit(main())
    except CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        sys.exit(2)
