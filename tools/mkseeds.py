"""tools/mkseeds.py FILE: FILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new[, count])], demo=cpp text or None, files={name: path or text}, sh=shell text)]; stores seeded/<id>/ (no checks are run)."""
import json, os, shutil, subprocess, sys
V = "/verif"; R = "/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    assert not subprocess.run("git -C /repo status --porcelain --untracked-files=no", shell=True, capture_output=True, text=True).stdout.strip(), "repo not clean"
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(R + "/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s.get("demo"): open(d + "/demo.cpp", "w").write(s["demo"])
    for name, src in s.get("files", {}).items():
        if os.path.exists(src): shutil.copy(src, d + "/" + name)
        else: open(d + "/" + name, "w").write(src)
    open(d + "/demo.sh", "w").write(s["sh"])
    print(s["id"], "ok")
