#!/usr/bin/env python3
"""Entry point of the verification framework.

  run.py check ID [--tier quick|thorough]   decide one property (exit 0 / 1)
  run.py all [--tier ...]                   all properties, one after another
  run.py replay PATH                        re-execute and re-judge one violation
  run.py setup                              parse every specification (used as setup_cmd)
"""
import sys, os, json, re, time, subprocess, tempfile, shutil, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")

from harness.checks import CHECKS  # noqa: E402


class Broken(Exception):
    """The machinery itself failed: neither quiet nor a violation."""


def tlc(module, cfg, work, env=None, workers=8, timeout=800, extra=(), xmx="6g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
           "-metadir", meta, "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    p.stdout = re.sub(r"(?m)^(Parsing file|Semantic processing|Linting of|TLC2 Version|Running breadth|Starting\.\.\.).*\n", "", p.stdout)
    m = re.findall(r"^([\d,]+) states generated(?:.*?), ([\d,]+) distinct states found", p.stdout, re.M)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return p.returncode, p.stdout, gen, dist


def judge(fam, trace, work, tier):
    """Validate a recorded log against the family's trace specification."""
    lines = [l for l in open(trace) if l.strip()]
    n = len(lines)
    rejects = {}
    states = trans = 0
    if n == 0:
        return rejects, 0, 0, 0
    offset = list(range(n))       # positions still to judge (a crash of the evaluator removes one)
    cur = lines
    for attempt in range(6):
        path = os.path.join(work, "judge-%s-%d.ndjson" % (fam["trace"], attempt))
        with open(path, "w") as f:
            f.writelines(cur)
        rc, out, gen, dist = tlc(fam["trace"], fam["trace"] + ".cfg", work, env={"TRACE": path},
                                 timeout=fam.get("timeout", 850))
        for a, b in re.findall(r'REJECT\|(\d+)\|([^"\n]*)', out):
            rejects[offset[int(a) - 1]] = b
        states += dist
        trans += gen
        if fam.get("hist"):
            want = sum(len(json.loads(x)["in"]["ops"]) + 1 for x in cur)
        else:
            want = len(cur) + (len(cur) + 7) // 8
        if rc == 0 and "No error has been found" in out:
            if dist != want and not (fam.get("hist") and rejects):
                raise Broken("trace not consumed: %d states, %d expected\n%s" % (dist, want, out[-2000:]))
            return rejects, states, trans, n
        # the evaluator met a value it cannot handle: attribute it to the event being judged
        m = re.findall(r"/\\ %s = (\d+)" % ("h" if fam.get("hist") else "l"), out)
        if not m or "is an unnamed" in out or "Parsing or semantic analysis failed" in out:
            raise Broken(out[-4000:])
        i = int(m[-1]) - (1 if fam.get("hist") else 0)
        if i >= len(cur):
            raise Broken(out[-4000:])
        if os.environ.get("VERIF_DEBUG"):
            print("EVALUATOR ERROR at", i, cur[i][:600], out[-2500:])
        rejects[offset[i]] = "unevaluable-value"
        del cur[i]
        del offset[i]
        if not cur:
            break
    return rejects, states, trans, n


def known_findings():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\{.*\}) :: (.*)", line.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


def is_known(prop, ev, findings):
    for p, match, what in findings:
        if p == prop and match.get("op") == ev["op"] and match.get("in") == ev["in"] \
                and ("clause" not in match or match["clause"] == ev.get("clause")):
            return what
    return None


def record_gen(fam, prop, tier, seed, out):
    p = subprocess.run([PY, os.path.join(ROOT, "harness", "record.py"), "--gen", fam, prop, tier, str(seed), out],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ROOT, timeout=800,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    if p.returncode:
        raise Broken("recorder failed:\n" + p.stdout[-1000:] + p.stderr[-4000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def record_jobs(fam, jobs, out):
    p = subprocess.run([PY, os.path.join(ROOT, "harness", "record.py"), fam, out],
                       input="\n".join(json.dumps(j) for j in jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, cwd=ROOT, timeout=800,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    if p.returncode:
        raise Broken("recorder failed:\n" + p.stdout[-1000:] + p.stderr[-4000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.remove(f)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "model_states": 0, "model_transitions": 0, "models": [], "events_by_operation": {}, "rejected": 0,
           "known_findings": 0, "skipped_after_hang": 0}
    timing = {}
    violations = []
    known = []
    try:
        # 1. the design: model checking of the specification itself
        for mc in spec.get("mc", []):
            if mc.get("tier") and mc["tier"] != tier:
                continue
            t1 = time.time()
            rc, out, gen, dist = tlc(mc["module"], mc["cfg"], work, workers=mc.get("workers", 8))
            if rc != 0 or "No error has been found" not in out:
                raise Broken("model checking %s failed:\n%s" % (mc["cfg"], out[-5000:]))
            cov["model_states"] += dist
            cov["model_transitions"] += gen
            cov["models"].append({"module": mc["module"], "config": mc["cfg"], "distinct_states": dist, "states_generated": gen})
            timing[mc["cfg"]] = round(time.time() - t1, 1)
        findings = known_findings()
        for fam in spec["families"]:
            t1 = time.time()
            jobs = []
            # 2. behaviours generated by TLC from the specification, to be replayed into the code
            for g in fam.get("gen", []):
                if g.get("tier") and g["tier"] != tier:
                    continue
                rc, out, gen, dist = tlc(g["module"], g["cfg"], work, workers=8)
                if rc != 0 or "No error has been found" not in out:
                    raise Broken("generation %s failed:\n%s" % (g["cfg"], out[-5000:]))
                n0 = len(jobs)
                for line in out.splitlines():
                    if line.startswith('"GEN|'):
                        jobs.append(json.loads(json.loads(line)[4:]))
                cov["model_states"] += dist
                cov["model_transitions"] += gen
                cov["models"].append({"module": g["module"], "config": g["cfg"], "distinct_states": dist,
                                      "states_generated": gen, "behaviours_generated": len(jobs) - n0})
                if len(jobs) == n0:
                    raise Broken("no behaviours generated by %s:\n%s" % (g["cfg"], out[-3000:]))
            timing["gen " + fam["driver"]] = round(time.time() - t1, 1)
            t1 = time.time()
            trace = os.path.join(work, "trace-%s.ndjson" % fam["driver"])
            info = record_gen(fam["driver"], fam.get("prop", prop), tier, seed, trace)
            if jobs:
                info2 = record_jobs(fam["driver"], jobs, trace + ".g")
                with open(trace, "a") as f, open(trace + ".g") as g:
                    shutil.copyfileobj(g, f)
                info = {k: info[k] + info2[k] for k in info}
            cov["skipped_after_hang"] += info["skipped_after_hang"]
            timing["record " + fam["driver"]] = round(time.time() - t1, 1)
            t1 = time.time()
            # 3. conformance: TLC decides every recorded event
            rejects, states, trans, n = judge(fam, trace, work, tier)
            timing["judge " + fam["driver"]] = round(time.time() - t1, 1)
            cov["states"] += states
            cov["transitions"] += trans
            cov["traces_validated_against_impl"] += n - len(rejects)
            cov["rejected"] += len(rejects)
            lines = [l for l in open(trace) if l.strip()]
            if not lines:
                raise Broken("nothing recorded")
            for i, l in enumerate(lines):
                ev = json.loads(l)
                cov["events_by_operation"][ev["op"]] = cov["events_by_operation"].get(ev["op"], 0) + 1
                if len(cov["samples"]) < 6 and cov["events_by_operation"][ev["op"]] == 2 and len(l) < 600:
                    cov["samples"].append(ev)
                if i in rejects:
                    ev["clause"] = rejects[i]
                    ev["family"] = fam["trace"]
                    w = is_known(prop, ev, findings)
                    if w:
                        known.append((ev, w))
                    else:
                        violations.append(ev)
            if not cov["samples"]:
                cov["samples"] = [json.loads(lines[0])]
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)
    cov["states"] += cov["model_states"]
    cov["transitions"] += cov["model_transitions"]
    cov["known_findings"] = len(known)
    cov["timing_s"] = timing
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + [
              "single-threaded calls: the linearization point of every call is its return",
              "conformance covers the recorded executions; the specification itself is checked on the listed small models"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w in sorted({w for _, w in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if violations:
        # the smallest rejected events first, at most one replay file per (operation, clause)
        violations.sort(key=lambda e: len(json.dumps(e["in"])))
        seen = {}
        for v in violations:
            key = (v["op"], v["clause"])
            if key in seen or len(seen) >= 8:
                continue
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            seen[key] = path
            v["property"] = prop
            with open(path, "w") as f:
                json.dump(v, f)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   op=%s clause=%s in=%s out=%s" % (v["op"], v["clause"], json.dumps(v["in"])[:300], json.dumps(v["out"])[:300]))
        print("%d events rejected" % len(violations))
        return 1
    print("ok property=%s tier=%s states=%d traces=%d wall=%.1fs %s" % (
        prop, tier, cov["states"], cov["traces_validated_against_impl"], time.time() - t0, json.dumps(timing)))
    return 0


def replay(path):
    v = json.load(open(path))
    fams = [f for f in CHECKS[v["property"]]["families"] if f["trace"] == v["family"]]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        trace = os.path.join(work, "t.ndjson")
        job = {k: v[k] for k in ("op", "in", "seed") if k in v}
        record_jobs(fams[0]["driver"], [job], trace)
        print(open(trace).read().strip()[:2000])
        rejects, _, _, _ = judge(fams[0], trace, work, "quick")
        print("verdict:", rejects.get(0, "ok"))
        return 1 if rejects else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    from concurrent.futures import ThreadPoolExecutor

    def sany(p):
        r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(p)], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = r.returncode != 0 or "*** Errors" in r.stdout or "Could not find" in r.stdout
        return p, bad, r.stdout
    ok = True
    with ThreadPoolExecutor(6) as ex:
        for p, bad, out in ex.map(sany, sorted(glob.glob(os.path.join(SPEC, "*.tla")))):
            if bad:
                ok = False
                print(p, out[-3000:])
    print("specifications parse" if ok else "PARSE ERRORS")
    return 0 if ok else 2


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        if a[0] == "check":
            return check(a[1], tier, seed)
        if a[0] == "all":
            rc = 0
            for p in (a[1:] or CHECKS):
                try:
                    r = check(p, tier, seed)
                except Broken as e:
                    print("BROKEN", p, str(e)[-1500:])
                    r = 2
                rc = max(rc, r)
                sys.stdout.flush()
            return rc
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "setup":
            return setup()
    except Broken as e:
        print("BROKEN:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
