"""prof.py PROP [tier]: time per operation of a check's trace judging (development aid)"""
import sys, os, json, time, tempfile, subprocess, shutil, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from harness import checks
prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
for fam in checks.CHECKS[prop]["families"]:
    d = tempfile.mkdtemp()
    out = d + "/t.ndjson"
    t0 = time.time()
    subprocess.check_call(["/opt/venv/bin/python", "harness/record.py", "--gen", fam["driver"], prop, tier, "1", out])
    print("record %.1f" % (time.time() - t0))
    by = collections.defaultdict(list)
    for l in open(out):
        by[json.loads(l)["op"]].append(l)
    for op, ls in by.items():
        p = d + "/op.ndjson"
        open(p, "w").writelines(ls)
        t0 = time.time()
        run.tlc(fam["trace"], fam["trace"] + ".cfg", d, env={"TRACE": p})
        print("%-40s %6d events %6.1f s" % (op, len(ls), time.time() - t0))
    shutil.rmtree(d)
