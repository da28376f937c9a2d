"""mutrec.py DRIVER PROP OUT [COV]: record the quick jobs of a driver in this process (see mutate.py)."""
import sys, os, json, random, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import record
famname, prop, out = sys.argv[1:4]
seen = set()
if len(sys.argv) > 4:
    M = sys.monitoring
    def on_line(code, line):
        if code.co_filename.startswith(record.REPO + "/rosemary"):
            seen.add((code.co_filename, line))
        return M.DISABLE
    M.use_tool_id(M.COVERAGE_ID, "cov")
    M.register_callback(M.COVERAGE_ID, M.events.LINE, on_line)
    M.set_events(M.COVERAGE_ID, M.events.LINE)
    _exit = os._exit
    MAIN = os.getpid()
    def ex(c):
        json.dump(sorted(seen), open("%s.%d" % (sys.argv[4], os.getpid()), "w"))
        _exit(c)
    os._exit = ex
fam = importlib.import_module("harness.fam_" + famname)
jobs = list(fam.jobs(prop, "quick", random.Random("%s-1" % prop)))
for i, j in enumerate(jobs):
    j.setdefault("seed", i)
n = record.worker((famname, jobs, out))
if len(sys.argv) > 4:
    import glob
    for f in glob.glob(sys.argv[4] + ".*"):
        try:
            seen.update((a, b) for a, b in json.load(open(f)))
        except ValueError:
            pass
        os.remove(f)
    json.dump(sorted(seen), open(sys.argv[4], "w"))
