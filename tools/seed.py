"""Builds and confirms the planted bugs from a specification file.

    python3 seed.py SPEC.py [ids...]      (SPEC defines BUGS = {id: dict(...)})

Each bug: property, edits [(file, old, new)], demo (python text), needs, breaks.
A bug is kept only if it builds, passes the stable tests and its demo tells it
from the unchanged tree.  Everything happens in copies under /tmp.
"""
import json, os, shutil, subprocess, sys, runpy

OUT = os.environ.get("SEED_OUT", "/verif/seeded")
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(spec)
    for i in ids:
        b = spec[i]
        d = os.path.join(OUT, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        work = "/tmp/seedwork/" + i
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs("/tmp/seedwork", exist_ok=True)
        shutil.copytree("/repo", work, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", work).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        c = sh("bash %s/demo.sh" % d, "/repo")
        m = sh("bash %s/demo.sh" % d, work)
        t = sh("cd %s && sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/seedwork/%s.test.sh && bash /tmp/seedwork/%s.test.sh /tmp/seedwork/%s.json" % (work, work, i, i, i), work, 900)
        try:
            r = json.load(open("/tmp/seedwork/%s.json" % i))
            passed = set(r.get("passed", []))
            missing = sorted(stable - passed)
        except Exception as e:
            missing = ["?? %s %s" % (e, t.stderr[-300:])]
        ok = c.returncode == 0 and m.returncode != 0 and not missing
        print(i, "OK" if ok else "BAD", "clean=%d bug=%d missing=%s" % (c.returncode, m.returncode, missing[:4]))
        if c.returncode:
            print("   clean:", (c.stdout + c.stderr)[-600:])
        print("   bug:", (m.stdout + m.stderr).strip().splitlines()[-1:] )
        shutil.rmtree(work, ignore_errors=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)


main()
