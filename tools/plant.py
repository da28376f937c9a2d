"""plant.py bugs.py [ID...]: make seeded/<ID>/ from (id, property, file, old, new, demo, needs, breaks) and confirm it in a scratch copy:
the demo passes without the change and fails with it, and the stable tests still pass with it."""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "import sys\nsys.path.insert(0, '.')\n"
SH = '#!/bin/bash\n# run in /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\nexec timeout 240 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
TEST = ("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest rosemary -q -p no:cacheprovider -n 8 --timeout=60 --continue-on-collection-errors "
        "--doctest-modules -o doctest_optionflags=NORMALIZE_WHITESPACE --randomly-seed=2 --randomly-dont-reorganize -o junit_family=xunit2 --junitxml=%s/junit.xml >%s/log 2>&1; "
        "/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml")


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in bugs:
    bid, prop, edits, demo, needs, breaks = b
    if only and bid not in only:
        continue
    d = os.path.join(ROOT, "seeded", bid)
    w = "/tmp/plant.%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("cp -a /repo %s/repo" % w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.py", "w").write(HEAD + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    clean = sh("bash %s/demo.sh" % d, w + "/repo")
    ok = True
    for f, old, new in edits:
        p = w + "/repo/rosemary/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "EDIT matches", s.count(old), repr(old))
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        shutil.rmtree(d)
        continue
    diff = sh("git diff", w + "/repo").stdout
    open(d + "/patch.diff", "w").write(diff)
    bad = sh("bash %s/demo.sh" % d, w + "/repo")
    sh(TEST % (w + "/repo", w, w, w, w))
    passed = set(json.load(open(w + "/out.json"))["passed"])
    lost = sorted(stable - passed)
    good = clean.returncode == 0 and bad.returncode not in (0, 124) and not lost
    print(bid, prop, "OK" if good else "REJECT", "clean", clean.returncode, "patched", bad.returncode, "lost", lost[:3], flush=True)
    if not good:
        print("   ", clean.stdout[-300:], "|", bad.stdout[-300:])
        shutil.rmtree(d)
    else:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
