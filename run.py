#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and run checks.

  run.py build
  run.py check P01 [--tier quick|thorough]
  run.py replay FILE        re-run a replay file, showing its trace
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
JOBS = min(8, os.cpu_count() or 8)

SKIP = {"utils/tests.cc", "utils/testrunner.cc", "tests.cc", "benchmark.cc", "utils/lua.cc", "var-lua.cc", "test-utils-lua.cc"}
COMMON = ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-pie",
          "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-w", "-DWREPORT_SIMULATION"]
COV = ["-fsanitize-coverage=trace-pc"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    """The library's own sources: what its build file lists, plus nothing else."""
    text = open(os.path.join(REPO, "wreport/meson.build")).read()
    m = re.search(r"libwreport_sources\s*=\s*\[(.*?)\]", text, re.S)
    names = re.findall(r"'([^']+\.cc)'", m.group(1)) if m else []
    if not names:
        for d, _, fs in os.walk(os.path.join(REPO, "wreport")):
            for f in fs:
                if f.endswith(".cc") and not re.search(r"-test\.cc$|-bench\.cc$|benchmark", f):
                    names.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "wreport")))
    return [n for n in names if n not in SKIP and os.path.exists(os.path.join(REPO, "wreport", n))]


def gen_headers():
    inc = os.path.join(BUILD, "include")
    os.makedirs(os.path.join(inc, "wreport"), exist_ok=True)
    mb = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"version:\s*'(\d+)\.(\d+)", mb)
    major, minor = (m.group(1), m.group(2)) if m else ("3", "38")
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            with open(p, "w") as f:
                f.write(s)
    put(os.path.join(inc, "config.h"), '#pragma once\n#define HAS_GETOPT_LONG\n#define PACKAGE_VERSION "%s.%s"\n#define TABLE_DIR "/sim/tables"\n' % (major, minor))
    put(os.path.join(inc, "wreport", "version.h"), "#pragma once\n#define WREPORT_MAJOR_VERSION %s\n#define WREPORT_MINOR_VERSION %s\n" % (major, minor))
    src = os.path.join(REPO, "wreport/version.h.in")
    if os.path.exists(src):
        t = open(src).read()
        for k, v in (("WREPORT_VERSION_MAJOR", major), ("WREPORT_VERSION_MINOR", minor)):
            t = t.replace("@%s@" % k, v)
            t = re.sub(r"#mesondefine\s+%s\b" % k, "#define %s %s" % (k, v), t)
        put(os.path.join(inc, "wreport", "version.h"), t)
    return inc


def header_digest(*roots):
    parts = []
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".tcc", ".hpp", ".inc")):
                    p = os.path.join(d, f)
                    parts.append(p)
                    parts.append(hashlib.sha256(read(p)).hexdigest())
    return sha(*parts)


def build():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = gen_headers()
    incs = ["-I" + inc, "-I" + REPO, "-I" + os.path.join(REPO, "wreport")]
    hd = header_digest(os.path.join(REPO, "wreport"), inc)
    hs = header_digest(SIM)
    gx = os.environ.get("CXX", "g++")
    jobs = []
    for n in repo_sources():
        p = os.path.join(REPO, "wreport", n)
        jobs.append((p, COMMON + COV + incs, sha(read(p), hd, " ".join(COMMON + COV), gx, p)))
    # the command line tool: same sources, its main() under another name
    for p in [os.path.join(REPO, "src/wrep.cc"), os.path.join(REPO, "src/options.cc")]:
        b = os.path.basename(p)
        fl = COMMON + COV + incs + ["-I" + os.path.join(REPO, "src")] + (["-Dmain=wrep_main"] if b == "wrep.cc" else [])
        jobs.append((p, fl, sha(read(p), hd, header_digest(os.path.join(REPO, "src")), " ".join(fl), gx, p, *[read(q) for q in sorted(glob.glob(os.path.join(REPO, "src/*.cc")))])))
    for p in sorted(glob.glob(os.path.join(SIM, "*.cc"))):
        jobs.append((p, COMMON + incs + ["-I" + SIM], sha(read(p), hs, hd, " ".join(COMMON), gx, p)))
    wraps = {"vasprintf"}
    for p in glob.glob(os.path.join(SIM, "*.cc")):
        for m in re.finditer(r"\bREAL\([^,()]*(?:\([^)]*\))?[^,()]*,\s*(\w+)\s*,", open(p).read()):
            wraps.add(m.group(1))
    wraps.discard("name")

    def one(job):
        src, flags, key = job
        obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-3] + "-" + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp.o" % os.getpid()
            r = subprocess.run([gx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return obj, src + ":\n" + r.stdout.decode(errors="replace")[-6000:]
            os.rename(tmp, obj)
        return obj, None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
    errs = [e for _, e in res if e]
    if errs:
        print("build failed:\n" + "\n".join(errs), file=sys.stderr)
        sys.exit(2)
    objs = sorted(o for o, _ in res)
    key = sha(" ".join(objs), " ".join(sorted(wraps)))
    exe = os.path.join(BUILD, "sim-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [gx, "-no-pie", "-fsanitize=address", "-static-libstdc++", "-o", tmp] + objs + \
              ["-Wl,--wrap=" + w for w in sorted(wraps)] + ["-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("link failed:\n" + r.stdout.decode(errors="replace")[-6000:], file=sys.stderr)
            sys.exit(2)
        os.rename(tmp, exe)
    # forget old products
    keep = set(objs)
    olds = [p for p in glob.glob(os.path.join(BUILD, "obj", "*.o")) if p not in keep] + [p for p in glob.glob(os.path.join(BUILD, "sim-*")) if p != exe]
    for p in olds:
        try:
            if time.time() - os.path.getmtime(p) > 3600:
                os.unlink(p)
        except OSError:
            pass
    return exe


def env():
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "LD_PRELOAD", "WREPORT_TABLES", "WREPORT_EXTRA_TABLES"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    e["SIM_REPO"] = REPO
    return e


def known_findings(prop):
    """-> list of (class, text) of findings recorded for this property"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == prop and d.get("status") == "known":
                out.append(d)
    return out


def run_json(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout)
    out = r.stdout.decode(errors="replace").strip().splitlines()
    try:
        return r.returncode, json.loads(out[0]) if out else {}
    except ValueError:
        return r.returncode, {}


def check(prop, tier):
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "config.json")))
    pc = cfg["properties"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("SIM_TIME", pc.get(tier + "_s", cfg[tier + "_s"])))
    exe = build()
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for w in range(JOBS):
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--worker", str(w), "--time", str(secs),
               "--out", "%s/%d.json" % (work, w), "--viol", "%s/%d.viol" % (work, w)]
        procs.append(subprocess.Popen(cmd, env=env(), stdout=open("%s/%d.stdout" % (work, w), "w"), stderr=open("%s/%d.stderr" % (work, w), "w")))
    rcs = []
    for p in procs:
        try:
            rcs.append(p.wait(timeout=secs + 240))
        except subprocess.TimeoutExpired:
            p.kill()
            rcs.append(2)
    broken = [w for w, rc in enumerate(rcs) if rc not in (0, 1)]
    for w in broken:
        print("worker %d: exit %s: %s" % (w, rcs[w], open("%s/%d.stderr" % (work, w)).read()[-3000:]), file=sys.stderr)
    stats = {"runs": 0, "nontrivial": 0, "faults": 0, "switches": 0, "events": 0, "steps": 0, "sim_time_us": 0, "mismatches": 0, "overflow": 0}
    counters, samples, hashes, cov, peak, max_steps, wall = {}, [], set(), bytearray(1 << 16), 0, 0, 0.0
    for w in range(JOBS):
        try:
            d = json.load(open("%s/%d.json" % (work, w)))
        except (OSError, ValueError):
            continue
        for k in stats:
            stats[k] += d[k]
        peak, max_steps, wall = max(peak, d["peak_live"]), max(max_steps, d["max_steps"]), max(wall, d["wall"])
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += d["samples"]
        h = read("%s/%d.json.hashes" % (work, w))
        hashes.update(h[i:i + 8] for i in range(0, len(h), 8))
        for i, c in enumerate(read("%s/%d.json.cov" % (work, w))):
            cov[i] |= c
    # violations: gate, minimise, compare with the known findings
    found = {}
    for v in sorted(glob.glob(work + "/*.viol.*")):
        d = json.load(open(v))
        found.setdefault(d["class"], v)
    kf = {d["class"]: d for d in known_findings(prop)}
    violations, knowns, suspicious, note_unstable = [], [], [], []
    rdir = os.path.join(VERIF, "replays")
    for n, (cls, v) in enumerate(sorted(found.items())):
        want = json.load(open(v))
        # the same history must fail again, twice, in a fresh process
        again = [run_json([exe, "--prop", prop, "--replay", v]) for _ in range(2)]
        if any(rc != 1 for rc, d in again):
            suspicious.append("%s: replays gave %s" % (cls, json.dumps(again)[:800]))
            continue
        if any(d.get("class") != cls for rc, d in again):
            # it always fails, but not always in the same way (memory the code never initialised)
            cls2 = again[0][1].get("class", cls)
            note_unstable.append("%s / %s" % (cls, cls2))
        if any(d.get("hash") != want["hash"] for rc, d in again):
            note_unstable.append(cls)
        os.makedirs(rdir, exist_ok=True)
        out = os.path.join(rdir, "%s-seed%d-%d.json" % (prop, seed, n + 1))
        rc, d = run_json([exe, "--prop", prop, "--minimise", v, "--out", out, "--seed", str(seed), "--time", "20" if tier == "quick" else "60"])
        if rc != 0:
            shutil.copy(v, out)
        else:
            rc, d2 = run_json([exe, "--prop", prop, "--replay", out])
            if rc != 1 or d2.get("class") != cls or d2.get("hash") != d.get("hash"):
                shutil.copy(v, out)
        if cls in kf:
            knowns.append(kf[cls])
        else:
            violations.append((cls, out))
    # known findings are shown again on every run from their recorded history
    shown = set()
    for d in kf.values():
        text = d["what"]
        f = os.path.join(VERIF, d["replay"]) if d.get("replay") else None
        still = d in knowns
        if f and not still:
            rc, r = run_json([exe, "--prop", prop, "--replay", f])
            still = rc == 1 and r.get("class") == d["class"]
        if still and text not in shown:
            shown.add(text)
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for cls, out in violations:
        d = json.load(open(out))
        print("violation class: %s\n  %s" % (cls, d["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, out))
    for s in suspicious:
        print("not reproducible (harness problem): " + s, file=sys.stderr)
    ndistinct = len(hashes)
    hours = max(wall, 0.001) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["runs"], "distinct_nontrivial": ndistinct,
            "rule": pc["rule"],
            "samples": samples[:6],
            "runs_per_hour": int(stats["runs"] / hours), "seeds_per_hour": int(stats["runs"] / hours),
            "nontrivial_runs": stats["nontrivial"],
            "simulated_time_s": stats["sim_time_us"] / 1e6,
            "library_steps": stats["steps"], "max_steps_in_a_run": max_steps,
            "events": stats["events"],
            "faults_injected_total": stats["faults"],
            "fault_kinds": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "probes": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")},
            "other_counters": {k: v for k, v in sorted(counters.items()) if not k.startswith(("probe.", "fault."))},
            "context_switches": stats["switches"],
            "distinct_histories": ndistinct,
            "interleaving_measure": "distinct hashes of the full event history (choices, schedule, faults, results) of non-trivial runs",
            "distinct_library_branches_reached": sum(1 for c in cov if c),
            "peak_library_bytes": peak,
            "determinism_replays": counters.get("determinism.replays", 0), "determinism_mismatches": stats["mismatches"],
            "real_components": pc["real"], "stubbed_components": pc["stub"],
            "build_s": round(tbuild, 1),
            "workers": JOBS,
        },
        "assumptions": pc.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    missing = [p for p in pc.get("must_probe", []) if not counters.get("probe." + p)]
    if os.environ.get("SIM_VERBOSE"):
        print(json.dumps(ev["coverage"], indent=1))
    shutil.rmtree(work, ignore_errors=True)
    if violations:
        return 1
    if broken or suspicious:
        return 2
    if missing:
        print("coverage probes never hit: %s" % ", ".join(missing), file=sys.stderr)
    print("%s: %d runs (%d distinct non-trivial histories), %d faults, no violation, %.0f s" % (prop, stats["runs"], ndistinct, stats["faults"], time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        print(build())
        return 0
    if a[:1] == ["check"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["replay"]:
        exe = build()
        prop = json.load(open(a[1]))["property"]
        e = env()
        e["SIM_SHOW_TRACE"] = "1"
        return subprocess.run([exe, "--prop", prop, "--replay", a[1]], env=e).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
