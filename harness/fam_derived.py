import os, tempfile
from harness.enc import *
from harness.gens import *
from rosemary.graphs import graphs as R

CONS = ("complete_graph", "coprime_pairs_graph", "grid_graph", "petersen_graph", "odd_graph", "random_graph", "load_graph", "load_dimacs_graph")


def matrix(m, n):
    return [[small(m[i][j]) for j in range(len(m[i]))] for i in range(n)]


def graph(g, idx):
    vs = sorted(g.vertices())
    if set(vs) != set(g.graph_dict):
        raise Bad("vertices")
    es = []
    for u in vs:
        for v, w in g[u].items():
            if g[v].get(u) != w:
                raise Bad("not symmetric")
            if u < v:
                es.append([idx(u), idx(v), small(w)])
            elif u == v:
                raise Bad("loop")
    return {"vs": [idx(u) for u in vs], "es": es}


def execute(op, a):
    if op in CONS:
        n = a.get("n")
        if op == "petersen_graph":
            return graph(R.petersen_graph(), small)
        if op == "random_graph":
            return graph(R.random_graph(n, a["d"] / 100.0), small)
        if op in ("load_graph", "load_dimacs_graph"):
            fd, path = tempfile.mkstemp()
            try:
                with os.fdopen(fd, "w") as f:
                    if op == "load_graph":
                        text = "\n".join("%d %d" % tuple(p) for p in a["pairs"])
                    else:
                        lines = ["c comment line %d" % i for i in range(a["junk"])]
                        lines += ["p edge 99 %d" % len(a["pairs"])] + ["e %d %d" % tuple(p) for p in a["pairs"]]
                        text = "\n".join(lines)
                    f.write(text + ("\n" if a["nl"] else ""))
                return graph(getattr(R, op)(path), small)
            finally:
                os.unlink(path)
        g = getattr(R, op)(n)
        if op == "odd_graph":
            vs = sorted(g.vertices())
            pos = {v: i + 1 for i, v in enumerate(vs)}
            r = graph(g, lambda u: pos[u])
            r["names"] = [[int(c) for c in v] for v in vs] if n <= 5 else []
            return r
        return graph(g, small)
    g, lab, idx = build_edges(a)
    n = a["n"]
    rank = [idx[v] for v in sorted(lab[1:])]
    ix = lambda u: idx[u]
    if op in ("adjacency_matrix", "degree_matrix", "laplacian_matrix"):
        return {"rank": rank, "m": matrix(getattr(g, op)(), n)}
    if op == "order_rev":
        return {"rank": rank, "order": [idx[v] for v in g.vertices(reverse=True)]}
    if op.startswith("order_"):
        kw = {"reverse": True} if op.endswith("_rev") else {}
        return [idx[v] for v in g.vertices(order=op.split("_")[1], **kw)]
    if op in ("maximum_degree", "minimum_degree"):
        return small(getattr(g, op)())
    if op in ("maximum_degree_vertex", "minimum_degree_vertex"):
        return idx[getattr(g, op)()]
    if op == "total_degree":
        return small(g.total_degree([lab[v] for v in a["sub"]]))
    if op == "density":
        x = g.density() * n * (n - 1)
        return [round(x), int(abs(x - round(x)) < 1e-6)]
    if op == "induced_subgraph":
        return graph(g.induced_subgraph([list, set, tuple][a["kind"]](lab[v] for v in a["sub"])), ix)
    if op == "complement":
        return graph(g.complement(), ix)


def jobs(prop, tier, rng):
    big = tier == "thorough"
    ops = ["adjacency_matrix", "degree_matrix", "laplacian_matrix", "order_degree", "order_degree_rev", "order_induced", "order_induced_rev",
           "order_rev", "maximum_degree", "minimum_degree", "maximum_degree_vertex", "minimum_degree_vertex", "total_degree", "density",
           "induced_subgraph", "complement"]

    def emit(op, n, edges, k):
        if op == "density" and n < 2 or op.endswith("matrix") and n == 0:
            return
        yield {"op": op, "in": {"n": n, "edges": edges, "lab": k % 4, "order": k, "kind": k % 3,
                                "sub": rng.sample(range(1, n + 1), rng.randint(0, n))}}
    k = 0
    for n in (0, 1, 2, 3, 4):
        for edges in all_weighted_graphs(n, (1,) if n == 4 else (1, 3)):
            k += 1
            for op in ops:
                yield from emit(op, n, edges, k)
    for i in range(2000 if big else 250):
        n = rng.randint(3, 14)
        edges = random_edges(rng, n, rng.choice([0.1, 0.3, 0.5, 0.8, 1]), rng.choice([(1, 1), (-3, 9)]))
        for op in rng.sample(ops, 5):
            yield from emit(op, n, edges, i)
    for i in range(60 if big else 12):
        n = rng.randint(20, 45)
        edges = random_edges(rng, n, rng.choice([0.05, 0.15, 0.4]))
        for op in rng.sample(ops, 5):
            yield from emit(op, n, edges, i)
    top = 40 if big else 24
    for n in range(0, top):
        yield {"op": "complete_graph", "in": {"n": n}}
        yield {"op": "coprime_pairs_graph", "in": {"n": n}}
        yield {"op": "random_graph", "in": {"n": n, "d": [0, 100, 50, 20][n % 4]}}
        yield {"op": "random_graph", "in": {"n": n, "d": [100, 0, 80, 3][n % 4]}}
    for d in (10, 30, 50, 70, 90):
        yield {"op": "random_graph", "in": {"n": 60, "d": d}}
    for n in (30, 31, 36, 45, 60):
        yield {"op": "coprime_pairs_graph", "in": {"n": n}}
        yield {"op": "complete_graph", "in": {"n": n}}
    for n in (12, 15):
        yield {"op": "grid_graph", "in": {"n": n}}
    for n in range(0, 12 if big else 9):
        yield {"op": "grid_graph", "in": {"n": n}}
    for k in range(1, 8 if big else 7):
        yield {"op": "odd_graph", "in": {"n": k}}
    yield {"op": "petersen_graph", "in": {"n": 10}}
    for i in range(60):
        pairs_ = [rng.sample(range(0, 14), 2) for _ in range(rng.randint(0, 25))]
        if i % 5 == 0:
            pairs_ = [[u * 1001, v * 1001] for u, v in pairs_]
        if pairs_ and rng.random() < 0.4:
            pairs_.append(pairs_[0][::-1])
        yield {"op": "load_graph", "in": {"pairs": pairs_, "nl": 1 if pairs_ and i % 2 else 0}}
        yield {"op": "load_dimacs_graph", "in": {"pairs": pairs_, "nl": i % 2, "junk": i % 3}}
