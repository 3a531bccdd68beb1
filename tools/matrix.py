"""matrix.py: runs every planted bug's check and prints a table for DESIGN.md (never run by a check)."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="mx.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", t], check=True)
    subprocess.run(["git", "-C", t, "apply", os.path.join(d, "patch.diff")], check=True)
    r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--no-evidence"], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, SIM_REPO_SRC=t + "/src"))
    shutil.rmtree(t)
    m = re.search(r"^%s: ([\w-]+):" % prop, r.stdout, re.M)
    n = re.search(r"seed \d+, run (\d+)", r.stdout)
    rep = "identically: True" in r.stdout
    print(f"| {i} | {prop} | {'caught: ' + m.group(1) if r.returncode == 1 and m else 'rc=%d' % r.returncode} | {n.group(1) if n else '-'} | {'yes' if rep else '-'} |", flush=True)
