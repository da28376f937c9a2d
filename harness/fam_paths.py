from harness.enc import *
from harness.gens import *
from math import inf
from rosemary.graphs.algorithms import paths as P

INF = 999999999


def full(x, half):
    if x == inf:
        return INF
    if half:
        x = 2 * x
    if isinstance(x, float) and x == int(x):
        x = int(x)
    return small(x)


def build(a):
    """Graph over labels; weights may differ by direction (arcs)."""
    return build_arcs(a)


def execute(op, a):
    g, lab, idx = build(a)
    n = a["n"]
    half = a.get("half", False)          # every weight is w / 2, a float

    def dist(x):
        return full(x, half)
    s = lab[a["s"]] if a["s"] else "no such vertex"

    def single(r):
        d, p = r
        if set(d) != set(lab[1:]):
            raise Bad("distance keys %r" % (d,))
        if not set(p) <= set(lab[1:]):
            raise Bad("predecessor keys %r" % (p,))
        return [[dist(d[lab[v]]) for v in range(1, n + 1)],
                [idx[p[lab[v]]] if p.get(lab[v]) is not None else 0 for v in range(1, n + 1)]]
    if op in ("dijkstra", "dijkstra_buckets", "dijkstra_pairing_heap", "bellman_ford"):
        return single(getattr(P, op)(g, s))
    if op == "dijkstra_iterator":
        return [[idx[v], dist(d), [idx[x] for x in p]] for v, d, p in list(P.dijkstra_iterator(g, s))]
    if op == "dijkstra_bidirectional":
        r = P.dijkstra_bidirectional(g, s, lab[a["t"]] if a["t"] else "no such vertex")
        if r == inf:
            return [INF, []]
        return [dist(r[0]), [idx[x] for x in r[1]]]
    if op == "floyd_warshall":
        d, p = P.floyd_warshall(g)
        r = range(1, n + 1)
        return [[[dist(d[lab[u], lab[v]]) for v in r] for u in r],
                [[idx[p[lab[u], lab[v]]] if p.get((lab[u], lab[v])) is not None else 0 for v in r] for u in r]]


SS = ["dijkstra", "dijkstra_buckets", "dijkstra_pairing_heap", "dijkstra_iterator", "bellman_ford"]


def arcs_of(edges):
    return [[u, v, w] for u, v, w in edges] + [[v, u, w] for u, v, w in edges]


def jobs(prop, tier, rng):
    big = tier == "thorough"
    # every graph on at most 4 vertices with weights in {0,1,2} up to sampling
    k = 0
    for n in (1, 2, 3, 4):
        for edges in all_weighted_graphs(n, (1, 2) if n == 4 else (0, 1, 3)):
            k += 1
            if n == 4 and not big and k % 3:
                continue
            s = 1 + k % n
            a = {"n": n, "arcs": arcs_of(edges), "s": s, "t": 1 + (k // 4) % n, "lab": k % 3}
            for op in (SS if big or n < 4 else [SS[k % 5]]):
                yield {"op": op, "in": a}
            yield {"op": "dijkstra_bidirectional", "in": a}
            if big or k % 4 == 0 or n < 4:
                yield {"op": "floyd_warshall", "in": a}
    for i in range(6000 if big else 700):
        n = rng.randint(2, 9 if not big or i % 5 else 14)
        edges = random_edges(rng, n, rng.choice([0.15, 0.3, 0.5, 0.8, 1.0]),
                             rng.choice([(0, 1), (1, 1), (0, 3), (1, 4), (1, 20), (0, 100), (1, 100000)]))
        a = {"n": n, "arcs": arcs_of(edges), "s": rng.randint(1, n), "t": rng.randint(1, n), "lab": rng.randint(0, 2)}
        rng.shuffle(a["arcs"])
        for op in SS:
            if op == "dijkstra_buckets" and edges and max(w for _, _, w in edges) > 1000:
                continue
            yield {"op": op, "in": a}
        yield {"op": "dijkstra_bidirectional", "in": a}
        yield {"op": "dijkstra_bidirectional", "in": dict(a, s=a["t"], t=a["s"])}
        if i % 4 == 0:
            yield {"op": "floyd_warshall", "in": a}
        if i % 8 == 0:
            h = dict(a, half=True)
            for op in SS + ["dijkstra_bidirectional", "floyd_warshall"]:
                yield {"op": op, "in": h}
    for i in range(80 if big else 12):
        n = rng.randint(20, 45)
        edges = random_edges(rng, n, rng.choice([0.05, 0.1, 0.2]), rng.choice([(1, 1), (1, 4), (0, 100)]))
        if i % 3 == 0:                                   # long chains with shortcuts
            edges = [[u, u + 1, rng.randint(1, 3)] for u in range(1, n)] + [[u, u + 2, rng.randint(2, 8)] for u in range(1, n - 1, 3)]
        a = {"n": n, "arcs": arcs_of(edges), "s": rng.randint(1, n), "t": rng.randint(1, n), "lab": i % 3}
        for op in rng.sample(SS, 3) + ["dijkstra_bidirectional", "dijkstra_bidirectional"]:
            yield {"op": op, "in": dict(a, t=rng.randint(1, n))}
    # as many improvements of one distance as there can be: every further arc of a path pays
    for n in range(2, 16 if big else 11):
        p = list(range(1, n + 1))
        rng.shuffle(p)
        arcs = [[p[i], p[j], rng.choice([-1, -1, -2]) if n % 2 else -1] for i in range(n) for j in range(i + 1, n)]
        far = [[v, u, 2 * n + 3] for u, v, w in arcs]
        for back in (2 * n + 3, 2 * n - 2, n - 2):      # the longest arc back: the least sum of a cycle is positive, at least 0, negative
            more = arcs + [x if x[:2] != [p[-1], p[0]] else x[:2] + [back] for x in far]
            for order in (lambda t: 0, lambda t: -t[0] * 100 - t[1], lambda t: (t[1] * 7 + t[0]) % 11):
                a = {"n": n, "arcs": sorted(more, key=order), "s": p[0], "t": p[-1], "lab": n % 3}
                yield {"op": "bellman_ford", "in": a}
                yield {"op": "floyd_warshall", "in": a}
    # negative weights: potentials make asymmetric weights without negative cycles, plus free ones with
    for i in range(2000 if big else 300):
        n = rng.randint(1, 6)
        edges = random_edges(rng, n, rng.choice([0.3, 0.6, 1.0]), (0, 4))
        pot = [0] + [rng.randint(-5, 5) for _ in range(n)]
        arcs = [[u, v, w + pot[v] - pot[u]] for u, v, w in arcs_of(edges)]
        if i % 3 == 0 and arcs:
            j = rng.randrange(len(arcs))
            arcs[j][2] -= rng.randint(1, 6)
        a = {"n": n, "arcs": arcs, "s": rng.randint(1, n), "t": 1, "lab": rng.randint(0, 2)}
        yield {"op": "bellman_ford", "in": a}
        yield {"op": "floyd_warshall", "in": a}
    for op in SS + ["dijkstra_bidirectional"]:
        yield {"op": op, "in": {"n": 2, "arcs": [[1, 2, 3], [2, 1, 3]], "s": 0, "t": 1, "lab": 0}}
    yield {"op": "dijkstra_bidirectional", "in": {"n": 2, "arcs": [[1, 2, 3], [2, 1, 3]], "s": 1, "t": 0, "lab": 0}}
    yield {"op": "dijkstra_bidirectional", "in": {"n": 2, "arcs": [[1, 2, 3], [2, 1, 3]], "s": 0, "t": 0, "lab": 0}}
