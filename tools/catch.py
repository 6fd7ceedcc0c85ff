"""Runs the check of each planted bug's property with the bug applied to /repo."""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
man = {c["property_id"] if "property_id" in c else c["property"]: c for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    prop = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    c = man[prop]
    cmd = c.get("quick_cmd") or c["quick"]
    t = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", "/verif/seeded/%s/patch.diff" % i], check=True)
    try:
        r = subprocess.run(cmd, shell=True, cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-44s %s rc=%d %3.0fs %s" % (i, prop, r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 and v else "MISSED"), flush=True)
