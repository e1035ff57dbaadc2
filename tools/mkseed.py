"""mkseed.py: helper to write a planted bug from (file, old, new) edits made on a scratch copy."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, what, needs, demo):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/work/mk"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for side in "ab":
        for f, _, _ in edits:
            p = f"{w}/{side}/{f}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copy("/repo/" + f, p)
    for f, old, new in edits:
        p = f"{w}/b/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, s.count(old), old)
        s = s.replace(old, new)
        compile(s, p, "exec")
        open(p, "w").write(s)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True)
    txt = r.stdout
    out = []
    for l in txt.splitlines(True):
        if l.startswith("diff --git"):
            parts = l.split()
            l = f"diff --git a/{parts[2][2:]} b/{parts[3][2:]}\n"
        elif l.startswith("--- "):
            l = "--- a/" + l[6:]
        elif l.startswith("+++ "):
            l = "+++ b/" + l[6:]
        out.append(l)
    open(d + "/patch.diff", "w").write("".join(out))
    open(d + "/demo.py", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=2 CUDA_VISIBLE_DEVICES= JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
