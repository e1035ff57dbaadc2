"""seedtest.py [--notests] ID...: validate planted bugs in scratch copies (never in /repo)."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
notests = "--notests" in sys.argv
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set()
for k in ("stable", "passed", "tests", "stable_tests"):
    if k in base and isinstance(base[k], (list, dict)):
        stable = set(base[k])
def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = f"/tmp/work/seed-{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for x in ("src", "tests", "pyproject.toml", "setup.cfg", "setup.py", "docs", "examples"):
        s = os.path.join("/repo", x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(w, x))
        elif os.path.exists(s):
            shutil.copy(s, w)
    env = dict(os.environ, PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", TF_CPP_MIN_LOG_LEVEL="2", CUDA_VISIBLE_DEVICES="", JAX_PLATFORMS="cpu")
    out = []
    sd = f"/tmp/work/demo-{i}"
    shutil.rmtree(sd, ignore_errors=True)
    shutil.copytree(d, sd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r0 = subprocess.run(["bash", sd + "/demo.sh"], cwd=w, env=dict(env), capture_output=True, text=True)
    p = subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=w, capture_output=True, text=True)
    g = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    r1 = subprocess.run(["bash", sd + "/demo.sh"], cwd=w, env=dict(env), capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode != 0 and p.returncode == 0 and g.returncode == 0
    out.append(f"{i} [{meta['property']}] demo base={r0.returncode} bug={r1.returncode} apply={p.returncode}/{g.returncode}")
    if r0.returncode:
        out.append("   base: " + (r0.stdout + r0.stderr)[-400:])
    if r1.returncode:
        out.append("   bug: " + (r1.stdout + r1.stderr).strip()[-160:].replace("\n", " | "))
    if not notests:
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-W", "ignore", "--tb=line", "tests"], cwd=w, env=env, capture_output=True, text=True)
        fails = [l for l in t.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
        out.append("   tests: " + t.stdout.strip().splitlines()[-1] + ("" if not fails else "  " + "; ".join(fails)[:600]))
    if not nocheck:
        claimed = {c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]}
        pids = [meta["property"]] if "--all" not in sys.argv else sorted(claimed)
        for pid in pids:
            if not os.path.exists(f"{HERE}/sa/checks/{pid.lower()}.py"):
                out.append(f"   {pid}: no check")
                continue
            c = subprocess.run(["python3-vt", HERE + "/check.py", pid, "--root", w], capture_output=True, text=True)
            v = [l.strip()[:260] for l in c.stdout.splitlines() if "violated:" in l]
            if c.returncode or pid == meta["property"]:
                out.append(f"   {pid}: rc={c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'} " + (v[0] if v else (c.stdout + c.stderr)[-200:]))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(sd, ignore_errors=True)
    return ok, "\n".join(out)
with cf.ThreadPoolExecutor(1 if not notests else 6) as ex:
    for ok, o in ex.map(one, ids or sorted(os.listdir(HERE + "/seeded"))):
        print(("ok   " if ok else "BAD  ") + o, flush=True)
