"""Runs the real code and records one JSON line per call (or per history).

usage: record.py FAMILY OUT.ndjson < JOBS.ndjson      execute the given jobs
       record.py --gen FAMILY PROP TIER SEED OUT      let the family generate its jobs, execute them

A job is {"op": ..., "in": ...}.  The family module's `execute(op, arg)` turns
it into calls of the public API of /repo and returns the encoded result.
The recorded outcome is {"k": "ret", "v": ...}, {"k": "exc", "t": type name},
{"k": "bad", "s": ...} (wrong shape) or {"k": "hang"}.
"""
import sys, os, time, json, random, signal, importlib, io, contextlib, resource, multiprocessing, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from harness import enc  # noqa: E402

CALL_LIMIT = float(os.environ.get("VERIF_CALL_LIMIT", "20"))


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Sink(io.StringIO):
    def write(self, s):
        return len(s)


def call(fam, op, a):
    enc.KEPT.clear()
    enc.LENT.clear()
    if hasattr(fam, "BUILT"):
        fam.BUILT.clear()
    v = fam.execute(op, a)
    if hasattr(fam, "BUILT"):
        fam.unchanged()
    enc.untouched()
    return v


def run_one(fam, job, hung):
    op = job["op"]
    if hung.get(op, 0) >= 2:
        return None
    random.seed(job.get("seed", 1))
    signal.signal(signal.SIGALRM, _alarm)
    start = time.monotonic()
    limit = getattr(fam, "LIMITS", {}).get(op, CALL_LIMIT)
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, limit)
            with contextlib.redirect_stdout(Sink()):
                v = call(fam, op, job["in"])
                # the caller overwrites the lists returned to him; the next call must not notice
                if time.monotonic() - start < 0.5 and job.get("seed", 1) % 3 == 0:
                    enc.overwrite()
                    random.seed(job.get("seed", 1))
                    v = call(fam, op, job["in"])
            out = {"k": "ret", "v": v}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        hung[op] = hung.get(op, 0) + 1
        out = {"k": "hang", "v": 0}
    except enc.Bad as e:
        out = {"k": "bad", "s": str(e)[:300]}
    except MemoryError:
        out = {"k": "exc", "t": "MemoryError", "s": ""}
    except Exception as e:
        out = {"k": "exc", "t": type(e).__name__, "s": str(e)[:200]}
        if os.environ.get("VERIF_TRACEBACK"):
            traceback.print_exc()
    job = dict(job)
    job["out"] = out
    return job


def worker(args):
    famname, jobs, path = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(4000)
    fam = importlib.import_module("harness.fam_" + famname)
    hung = {}
    n = skipped = 0
    with open(path, "w") as f:
        for job in jobs:
            ev = run_one(fam, job, hung)
            if ev is None:
                skipped += 1
                continue
            f.write(json.dumps(ev, separators=(",", ":")) + "\n")
            n += 1
    return n, skipped


def fresh(fam_execute, calls):
    """Run a list of calls in a forked child: a session whose module-level
    state starts as it is after import."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        outs = []
        for op, a in calls:
            try:
                outs.append({"k": "ret", "v": fam_execute(op, a)})
            except enc.Bad as e:
                outs.append({"k": "bad", "s": str(e)[:200]})
            except Exception as e:
                outs.append({"k": "exc", "t": type(e).__name__, "s": str(e)[:200]})
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(outs))
        os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return json.loads(data)


def execute_jobs(famname, jobs, out, procs=8):
    # round robin so that each worker sees a mix; output order is job order
    chunks = [[] for _ in range(procs)]
    for i, j in enumerate(jobs):
        chunks[i % procs].append(j)
    parts = [out + ".%d" % i for i in range(procs)]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        res = pool.map(worker, [(famname, c, p) for c, p in zip(chunks, parts)], chunksize=1)
    with open(out, "w") as f:
        for p in parts:
            with open(p) as g:
                f.write(g.read())
            os.remove(p)
    return sum(r[0] for r in res), sum(r[1] for r in res)


def main():
    if sys.argv[1] == "--gen":
        famname, prop, tier, seed, out = sys.argv[2:7]
        fam = importlib.import_module("harness.fam_" + famname)
        rng = random.Random("%s-%s" % (prop, seed))
        jobs = list(fam.jobs(prop, tier, rng))
        for i, j in enumerate(jobs):
            if "seed" not in j:
                j["seed"] = i
    else:
        famname, out = sys.argv[1:3]
        jobs = [json.loads(l) for l in sys.stdin if l.strip()]
        importlib.import_module("harness.fam_" + famname)
    n, skipped = execute_jobs(famname, jobs, out, procs=min(8, max(1, len(jobs))))
    print(json.dumps({"recorded": n, "skipped_after_hang": skipped}))


if __name__ == "__main__":
    main()
