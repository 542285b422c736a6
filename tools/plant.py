#!/usr/bin/env python3
"""tools/plant.py [ID...]: confirm planted bugs (seeded/<ID>) against /repo and show which checks catch them.
Works on a copy of /repo (the checks' build driver takes VERIF_REPO)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/plant_repo"
os.environ["VERIF_REPO"] = R
os.environ["VERIF_BUILD"] = "/verif/build/plant"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh("rm -rf /tmp/plant_repo && cp -a /repo /tmp/plant_repo")
sh("rm -rf /tmp/plant_vp && cp -a /opt/vp /tmp/plant_vp && grep -rlI /repo /tmp/plant_vp | xargs sed -i s,/repo,/tmp/plant_repo,g; sed -i s,/opt/vp,/tmp/plant_vp,g /tmp/plant_vp/*.sh; rm -rf /tmp/plant_repo/_build")
def tests():
    r = sh("cd /tmp/plant_repo && bash /tmp/plant_vp/test.sh /tmp/plant_test.json")
    try: return json.load(open("/tmp/plant_test.json")), r.stdout
    except Exception: return {}, r.stdout
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
nocheck = "--no-check" in sys.argv
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if sh("git -C %s status --porcelain --untracked-files=no" % R).stdout.strip(): print("repo not clean"); sys.exit(1)
    line = [i, meta["property"]]
    t = time.time()
    sh("bash /tmp/plant_vp/build.sh")
    a = sh("bash %s/demo.sh" % d, cwd=R)
    line.append("demo clean=%d (%.0fs)" % (a.returncode, time.time() - t))
    if a.returncode: print(a.stdout[-1500:])
    p = sh("git -C %s apply %s/patch.diff" % (R, d))
    if p.returncode: print(i, "PATCH FAILS", p.stdout); continue
    try:
        res, out = tests()
        line.append("passed=%s failed=%s" % (len(res.get("passed", [])), res.get("failed")))
        b = sh("bash %s/demo.sh" % d, cwd=R)
        line.append("demo patched=%d" % b.returncode)
        if b.returncode == 0: line.append("DEMO DOES NOT FAIL")
        if not nocheck:
            for pid in [meta["property"]] + meta.get("also", []):
                c = sh("python3 %s/run.py check %s quick" % (V, pid), cwd=V)
                v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
                line.append("%s exit=%d %s" % (pid, c.returncode, "caught" if c.returncode == 1 and v else "MISSED"))
                ls = c.stdout.split("\n")
                k = next((n for n, l in enumerate(ls) if l.startswith("VIOLATION")), None)
                if k is not None: line.append(ls[k + 1].strip()[:160])
                elif c.returncode: line.append(c.stdout[:800])
    finally:
        sh("git -C %s checkout -- ." % R)
    print(" | ".join(line), flush=True)
