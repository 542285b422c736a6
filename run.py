#!/usr/bin/env python3
"""run.py check <property> [quick|thorough]   build what the check needs from /repo, run it, write evidence
   run.py build <target>...                   only build
   run.py replay <file>                       repeat the run a replay file describes
   run.py gen-manifest                        rewrite MANIFEST.json and properties.jsonl from lib/checks.py and lib/properties.py"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
sys.dont_write_bytecode = True
import build as B
import checks as C

def make_target(b, name):
    t = C.TARGETS[name]
    fl = t.get("flavour", "asan")
    extra = t.get("extra", "")
    objs = b.harness(t["harness"], fl, t.get("hextra", ""), not t.get("hplain"))
    if t.get("vnx", True):
        objs += b.vnxlite(fl)
    srcs = []
    for s in t.get("srcs", []):
        srcs += getattr(B, s) if s.isupper() and hasattr(B, s) else [s]
    srcs = [s for s in srcs if s not in t.get("without", [])]
    objs += b.repo_srcs(srcs, fl, extra, t.get("plain", ()))
    gen = t.get("gen", "sub")
    if gen:
        objs += b.generated(fl, gen == "full")
    return b.link(name, objs, fl, t.get("libs", "-lsecp256k1 -lpthread"))

def do_build(names):
    b = B.Build()
    exes = {n: make_target(b, n) for n in names}
    rc, out = b.run(list(exes.values()))
    return rc, out, exes

SAN_RE = [
    re.compile(r"SUMMARY: (\w+Sanitizer): ([^\n]*)"),
    re.compile(r"([^\s:]+:\d+:\d+): runtime error: ([^\n]*)"),
]

def crash_key(err, rc):
    """stable identification of a crash: error class and the innermost functions in the repository's own sources"""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err) or re.search(r"WARNING: (\w+Sanitizer): ([\w -]+?) \(", err)
    if m:
        kind = m.group(2).strip().replace(" ", "-")
    else:
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            kind = "ub:" + re.sub(r"-?\d[\d.e+]*", "N", m.group(1))[:70].strip().replace(" ", "-")
    if not kind:
        if rc < 0:
            kind = "signal-%s" % signal.Signals(-rc).name
        else:
            m = re.search(r"terminate called[^\n]*|assert[^\n]*", err, re.I)
            kind = "exit-%d" % rc
    frames = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]+)[:\s]", err):
        fn, path = m.group(1), m.group(2)
        if path.startswith(B.REPO + "/src") or path.startswith(B.REPO + "/include"):
            fn = re.sub(r"\(.*", "", fn)
            fn = re.sub(r"<.*>", "<>", fn)
            frames.append(fn)
            if len(frames) == 1:
                break
    return ":".join([kind] + frames)

def run_one(exe, args, scratch, timeout, env):
    out = os.path.join(scratch, "out.json")
    log = os.path.join(scratch, "stderr.txt")
    cmd = [exe] + args + ["--out", out, "--scratch", scratch]
    t0 = time.time()
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=scratch, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, hung = -9, True
    with open(log, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(0)
        err = f.read(200000).decode("latin1")
        if n > 200000:
            f.seek(max(200000, n - 100000))
            err += f.read().decode("latin1")
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    mark = ""
    try:
        mark = open(out + ".mark", "rb").read().decode("latin1")
    except OSError:
        pass
    return dict(cmd=cmd, rc=rc, hung=hung, err=err, res=res, mark=mark, wall=time.time() - t0)

def load_known():
    try:
        return json.load(open(VERIF + "/known_findings.json"))
    except OSError:
        return []

def check(pid, tier):
    t0 = time.time()
    spec = C.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ev_path = VERIF + "/evidence/%s.json" % pid
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    rc, out, exes = do_build(sorted(set(r["target"] for r in runs)))
    if rc:
        lines = [l for l in out.split("\n") if re.search(r"error|undefined|FAILED", l)]
        print("BUILD FAILED (no verdict)\n" + "\n".join(l[:400] for l in lines[:30]))
        return 2
    tb = time.time() - t0
    top = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    env = dict(os.environ)
    sup = VERIF + "/lib/tsan.supp"
    env.update(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:max_allocation_size_mb=6000",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
               TSAN_OPTIONS="exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0" + (":suppressions=" + sup if os.path.exists(sup) else ""),
               ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or "", TZ="UTC", LC_ALL="C.UTF-8")
    if shutil.which("llvm-symbolizer-18"):
        env["TSAN_OPTIONS"] += ":external_symbolizer_path=" + shutil.which("llvm-symbolizer-18")
        env["UBSAN_OPTIONS"] += ":external_symbolizer_path=" + shutil.which("llvm-symbolizer-18")
    jobs = []
    for i, r in enumerate(runs):
        n = r.get("shards", {}).get(tier, 1)
        for k in range(n):
            d = os.path.join(top, "r%d_%d" % (i, k))
            os.makedirs(d)
            args = list(r.get("args", [])) + ["--tier", tier, "--seed", str(seed * 1000 + k if n > 1 else seed), "--repo", B.REPO]
            jobs.append((r, exes[r["target"]], args, d, r.get("timeout", {}).get(tier, 500 if tier == "quick" else 3000)))
    results = []
    workers = spec.get("workers", 8)
    try:
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_one, exe, args, d, to, env) for r, exe, args, d, to in jobs]
            for f, j in zip(futs, jobs):
                results.append((j, f.result()))
        return report(pid, tier, seed, spec, results, t0, tb, ev_path)
    finally:
        shutil.rmtree(top, ignore_errors=True)

def report(pid, tier, seed, spec, results, t0, tb, ev_path):
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "observed": {}}
    viols = []
    broken = []
    for (r, exe, args, d, to), x in results:
        if x["res"]:
            cov["evaluations"] += x["res"]["evaluations"]
            cov["distinct_nontrivial"] += x["res"]["distinct_nontrivial"]
            for k, v in x["res"]["counts"].items():
                if k.startswith("max_"):
                    cov["observed"][k] = max(cov["observed"].get(k, 0), v)
                else:
                    cov["observed"][k] = cov["observed"].get(k, 0) + v
            if len(cov["samples"]) < 8:
                cov["samples"] += x["res"]["samples"][:4]
            for v in x["res"]["violations"]:
                viols.append(dict(v, cmd=x["cmd"]))
        if x["hung"]:
            viols.append(dict(key="hang:" + re.sub(r"\d+", "N", x["mark"])[:60], what="no answer within %d s while running: %s" % (to, x["mark"][:300]), detail=x["err"][-2000:], cmd=x["cmd"]))
        elif re.search(r"WARNING: ThreadSanitizer", x["err"]):
            for rep in x["err"].split("==================")[1:]:
                if "WARNING: ThreadSanitizer" in rep:
                    viols.append(dict(key=crash_key(rep, 0), what="ThreadSanitizer report", detail=rep[:6000], cmd=x["cmd"]))
            if not x["res"]:
                broken.append(x)
        elif x["res"] is None:
            if x["rc"] == 77:
                broken.append(x)
            else:
                viols.append(dict(key="crash:" + crash_key(x["err"], x["rc"]), what="the run ended abnormally (status %d) while running: %s" % (x["rc"], x["mark"][:300]),
                                  detail=x["err"][:1500] + "\n...\n" + x["err"][-6000:], cmd=x["cmd"], mark=x["mark"]))
        if os.environ.get("VERIF_VERBOSE"):
            print("-- %s rc=%d %.1fs\n%s" % (" ".join(x["cmd"]), x["rc"], x["wall"], x["err"][-int(os.environ["VERIF_VERBOSE"]) * 1000:]))
    unlisted, listed, seen = [], {}, set()
    for v in viols:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            listed[k["key"]] = k
        elif v["key"] not in seen:
            seen.add(v["key"])
            unlisted.append(v)
    for b in broken:
        print("HARNESS FAILURE (no verdict): %s\n%s" % (" ".join(b["cmd"]), b["err"][-3000:]))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(unlisted), assumptions=spec.get("assumptions", []))
    cov["observed"]["build_s"] = round(tb, 1)
    tmp = ev_path + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, ev_path)
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if unlisted:
        rd = VERIF + "/replays"
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(unlisted[:10]):
            path = "%s/%s-%d.json" % (rd, pid, i)
            json.dump(dict(property=pid, tier=tier, seed=seed, **v), open(path, "w"), indent=1)
            if i == 0:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (v["key"], v["what"][:500]))
        return 1
    print("%s %s: held on %d evaluations (%d distinct non-trivial), %.0f s (build %.0f s)" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb))
    if broken:
        return 3
    return 0

def replay(path):
    v = json.load(open(path))
    exe = os.path.basename(v["cmd"][0])
    rc, out, exes = do_build([exe])
    if rc:
        print(out[-3000:])
        return 2
    top = tempfile.mkdtemp(prefix="verif_replay_")
    args = v["cmd"][1:]
    args = args[:args.index("--out")]
    try:
        r = subprocess.run([exes[exe]] + args + ["--scratch", top], cwd=top)
        return r.returncode
    finally:
        shutil.rmtree(top, ignore_errors=True)

def gen_manifest():
    import properties
    props = properties.PROPS
    with open(VERIF + "/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in props:
        if p["id"] in C.CHECKS:
            s = C.CHECKS[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py check %s quick" % p["id"], thorough_cmd="python3 run.py check %s thorough" % p["id"],
                               technique=s["technique"], level=s.get("level", "exploration"), level_note=s["note"], evidence_file="evidence/%s.json" % p["id"]))
    na = [dict(property=k, reason=v) for k, v in C.NOT_APPLICABLE.items()]
    m = dict(version=1, setup_cmd="true", hooks=C.HOOKS, checks=checks, not_applicable=na)
    json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
    ids = set(p["id"] for p in props)
    print("claimed %d, not applicable %d, unaccounted: %s" % (len(checks), len(na), sorted(ids - set(C.CHECKS) - set(C.NOT_APPLICABLE))))
    return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    elif a[:1] == ["build"]:
        rc, out, exes = do_build(a[1:] or list(C.TARGETS))
        if rc:
            print("\n".join(l[:300] for l in out.split("\n") if re.search(r"error|undefined|note:.*required", l))[:6000])
        print(rc, exes)
        sys.exit(rc)
    elif a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    elif a[:1] == ["gen-manifest"]:
        sys.exit(gen_manifest())
    else:
        print(__doc__)
        sys.exit(2)
