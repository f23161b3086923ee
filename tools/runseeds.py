"""runseeds.py [ID...]: apply each planted bug in a scratch copy of /repo and run the check of its property."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
for i in sys.argv[1:] or sorted(os.listdir(S)):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="vfseed-")
    try:
        w = os.path.join(t, "repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "-C", w, "apply", os.path.join(S, i, "patch.diff")], check=True)
        t0 = time.time()
        r = subprocess.run(["bin/check", prop], cwd=V, env={**os.environ, "VF_REPO": w}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = r.stdout.split("\n")
        k = next((k for k, l in enumerate(o) if l.startswith("VIOLATION property=" + prop)), None)
        print("caught" if r.returncode == 1 and k is not None else f"MISSED rc={r.returncode}", i, prop, f"{time.time() - t0:.0f}s", "::", o[k - 1][:200] if k else "", flush=True)
    finally:
        shutil.rmtree(t)
