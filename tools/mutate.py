"""mutate.py: mutation analysis of the checks (development aid, not a check).

  mutate.py base                 record the quick traces of every driver on the unchanged code, note the files each executes
  mutate.py run FILE... [--n K]  mutate the files (relative to rosemary/), K random mutants per file, 8 at a time

A mutant whose recorded trace equals the unchanged one is "unseen"; otherwise the events that differ are judged by TLC:
"caught" if one is rejected, "allowed" if all are accepted.  Unseen and allowed mutants are printed as diffs for inspection."""
import ast, copy, difflib, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run
from harness.checks import CHECKS
B = "/tmp/mut/base"
PY = run.PY
PAIRS = []
for p, c in CHECKS.items():
    for f in c["families"]:
        PAIRS.append((p, f))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
KEY = lambda p, f: f.get("prop", p) + "-" + f["driver"]


def record(p, f, out, repo, cov=None, limit="20", timeout=600):
    cmd = [PY, os.path.join(ROOT, "tools", "mutrec.py"), f["driver"], f.get("prop", p), out] + ([cov] if cov else [])
    return subprocess.run(cmd, env=dict(ENV, VERIF_REPO=repo, VERIF_CALL_LIMIT=limit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def base():
    shutil.rmtree(B, ignore_errors=True)
    os.makedirs(B)
    def one(x):
        p, f = x
        k = KEY(p, f)
        r = record(p, f, "%s/%s.nd" % (B, k), "/repo", "%s/%s.cov" % (B, k), timeout=3000)
        print(k, r.returncode, r.stdout[-200:] if r.returncode else "", flush=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, PAIRS))


class Site(ast.NodeTransformer):
    """Enumerates the mutations; applies the one with number `want`."""
    def __init__(self, want=None):
        self.n = 0
        self.want = want
        self.info = {}
        self.fn = 0
        self.sites = []

    def offer(self, node, new, what):
        if not self.fn:
            return node
        self.sites.append((getattr(node, "lineno", 0), what))
        self.n += 1
        if self.want == self.n - 1:
            return ast.copy_location(new(), node)
        return node

    def visit_FunctionDef(self, node):
        self.fn += 1
        doc = node.body[0] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else None
        node.body = [x if x is doc else self.visit(x) for x in node.body]
        self.fn -= 1
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            o = type(node.ops[0])
            swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if o in swap:
                node = self.offer(node, lambda: ast.Compare(node.left, [swap[o]()], node.comparators), "cmp")
        return node

    def visit_Constant(self, node):
        if type(node.value) is int:
            node = self.offer(node, lambda: ast.Constant(node.value + 1), "const+1")
            if isinstance(node, ast.Constant):
                v = node.value
                node = self.offer(node, lambda: ast.Constant(v - 1), "const-1")
        elif type(node.value) is bool:
            node = self.offer(node, lambda: ast.Constant(not node.value), "bool")
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        o = type(node.op)
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult,
               ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}
        if o in alt and not isinstance(node.left, ast.Constant) or o in alt and isinstance(node.left, ast.Constant) and not isinstance(node.left.value, str):
            node = self.offer(node, lambda: ast.BinOp(node.left, alt[o](), node.right), "arith")
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        for i in range(len(node.values)):
            if not isinstance(node, ast.BoolOp):
                break
            vals = node.values
            node = self.offer(node, lambda: (lambda r: r[0] if len(r) == 1 else ast.BoolOp(node.op, r))(vals[:i] + vals[i + 1:]), "drop-operand")
        if isinstance(node, ast.BoolOp):
            b = node
            node = self.offer(node, lambda: ast.BoolOp(ast.Or() if isinstance(b.op, ast.And) else ast.And(), b.values), "and-or")
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("list", "sorted", "set", "tuple", "abs", "dict", "reversed", "frozenset") and len(node.args) == 1:
            node = self.offer(node, lambda: node.args[0], "unwrap")
        elif isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            node = self.offer(node, lambda: node.func.value, "no-copy")
        elif isinstance(node.func, ast.Name) and node.func.id in ("min", "max") and node.args:
            node = self.offer(node, lambda: ast.Call(ast.Name("max" if node.func.id == "min" else "min", ast.Load()), node.args, node.keywords), "minmax")
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) and node.slice.lower is None and node.slice.upper is None and isinstance(node.ctx, ast.Load):
            node = self.offer(node, lambda: node.value, "no-slice-copy")
        return node

    def stmt(self, node):
        self.generic_visit(node)
        return self.offer(node, lambda: ast.Pass(), "delete " + type(node).__name__)
    visit_AugAssign = visit_Expr = visit_Delete = stmt

    def visit_Assign(self, node):
        self.generic_visit(node)
        return self.offer(node, lambda: ast.Pass(), "delete Assign")

    def visit_Break(self, node):
        node = self.offer(node, lambda: ast.Pass(), "delete break")
        if isinstance(node, ast.Break):
            node = self.offer(node, lambda: ast.Continue(), "break-continue")
        return node

    def visit_Continue(self, node):
        return self.offer(node, lambda: ast.Pass(), "delete continue")

    def visit_Return(self, node):
        self.generic_visit(node)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        node2 = self.offer(node, lambda: ast.If(ast.Constant(True), node.body, node.orelse), "if-true")
        if node2 is node:
            node2 = self.offer(node, lambda: ast.If(ast.Constant(False), node.body, node.orelse), "if-false")
        return node2

    def visit_Raise(self, node):
        return node


def mutants(path):
    src = open(path).read()
    s = Site()
    s.visit(ast.parse(src))
    return src, s.sites


def make(src, i):
    t = ast.fix_missing_locations(Site(i).visit(ast.parse(src)))
    return ast.unparse(t)


def judge_diff(p, f, lines):
    w = tempfile.mkdtemp(prefix="mutj")
    try:
        t = w + "/t.nd"
        open(t, "w").writelines(lines)
        rej = run.judge(f, t, w, "quick")[0]
        return rej
    finally:
        shutil.rmtree(w)


def evaluate(rel, src, norm, i, site, covs, outdir):
    w = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/rosemary", w + "/repo/rosemary")
        new = make(src, i)
        if new == norm:
            return "same", ""
        open(w + "/repo/rosemary/" + rel, "w").write(new)
        verdicts = []
        for p, f in PAIRS:
            k = KEY(p, f)
            if rel not in covs[k] or site[0] not in covs[k][rel]:
                continue
            try:
                r = record(p, f, w + "/o.nd", w + "/repo", limit="4", timeout=150)
            except subprocess.TimeoutExpired:
                return "caught", "timeout " + k
            if r.returncode:
                return "caught", "recorder " + k
            a = open("%s/%s.nd" % (B, k)).readlines()
            b = open(w + "/o.nd").readlines()
            if a == b:
                continue
            if len(a) != len(b):
                return "caught", "length " + k
            d = [y for x, y in zip(a, b) if x != y]
            d = [d[j] for j in sorted(random.Random(1).sample(range(len(d)), min(len(d), 60)))]
            if any('"out":{"k":"hang"' in x for x in d):
                return "caught", "hang " + k
            try:
                rej = judge_diff(p, f, d)
            except Exception as e:
                return "caught", "evaluator? %s %s" % (k, str(e)[-150:])
            if rej:
                return "caught", k
            verdicts.append(k)
        diff = "\n".join(x for x in difflib.unified_diff(norm.split("\n"), new.split("\n"), lineterm="", n=2) if not x.startswith(("---", "+++")))
        return ("allowed " + ",".join(verdicts) if verdicts else "unseen"), diff
    finally:
        shutil.rmtree(w)


def main():
    if sys.argv[1] == "base":
        return base()
    args = sys.argv[2:]
    n = None
    if "--n" in args:
        j = args.index("--n")
        n = int(args[j + 1])
        del args[j:j + 2]
    covs = {}
    for p, f in PAIRS:
        k = KEY(p, f)
        c = {}
        for a, l in json.load(open("%s/%s.cov" % (B, k))):
            c.setdefault(a.split("/rosemary/", 1)[1], set()).add(l)
        covs[k] = c
    for rel in args:
        src, sites = mutants("/repo/rosemary/" + rel)
        norm = ast.unparse(ast.parse(src))
        ids = list(range(len(sites)))
        if n and n < len(ids):
            ids = sorted(random.Random(rel).sample(ids, n))
        tot = {}
        out = open("/tmp/mut/out-" + rel.replace("/", "_") + ".txt", "w")
        with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "8"))) as ex:
            for i, (v, d) in zip(ids, ex.map(lambda i: evaluate(rel, src, norm, i, sites[i], covs, None), ids)):
                tot[v.split()[0]] = tot.get(v.split()[0], 0) + 1
                if v != "caught" and v != "same":
                    out.write("#%d line %d %s: %s\n%s\n\n" % (i, sites[i][0], sites[i][1], v, d))
                    out.flush()
                elif "evaluator" in d or "timeout" in d:
                    out.write("#%d line %d %s: %s %s\n\n" % (i, sites[i][0], sites[i][1], v, d))
        print(rel, len(sites), tot, flush=True)


main()
