"""cov.py OUTDIR FAM:PROP...: which lines of the code under test do the drivers execute (quick tier)?  Development aid, not a check."""
import sys, os, json, random, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import record
OUT = sys.argv[1]
M = sys.monitoring
seen = set()
def on_line(code, line):
    if code.co_filename.startswith(record.REPO + "/rosemary"):
        seen.add((code.co_filename, line))
    return M.DISABLE
base = record.worker
def covworker(a):
    try:
        return base(a)
    finally:
        json.dump(sorted(seen), open("%s/%d.json" % (OUT, os.getpid()), "w"))
_exit = os._exit
def ex(c):
    if os.getpid() != MAIN:
        json.dump(sorted(seen), open("%s/%d.json" % (OUT, os.getpid()), "w"))
    _exit(c)
MAIN = os.getpid()
record.worker = covworker
os._exit = ex
M.use_tool_id(M.COVERAGE_ID, "cov")
M.register_callback(M.COVERAGE_ID, M.events.LINE, on_line)
M.set_events(M.COVERAGE_ID, M.events.LINE)
for fp in sys.argv[2:]:
    famname, prop = fp.split(":")
    fam = importlib.import_module("harness.fam_" + famname)
    jobs = list(fam.jobs(prop, "quick", random.Random("%s-1" % prop)))
    for i, j in enumerate(jobs):
        j.setdefault("seed", i)
    record.execute_jobs(famname, jobs, OUT + "/trace")
    print(fp, len(jobs), flush=True)
