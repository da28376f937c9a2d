from harness.enc import *
from harness.gens import *
from rosemary.graphs.algorithms import spanning_trees as S, traversal as T, connectivity as C


def execute(op, a):
    g, lab, idx = build_edges(a)
    n = a["n"]

    def edges(r):
        w, es = r
        return [small(w), [[idx[u], idx[v]] for u, v in es]]

    def pred(p):
        if not set(p) <= set(lab[1:]):
            raise Bad("keys %r" % (p,))
        return [(-1 if lab[v] not in p else 0 if p[lab[v]] is None else idx[p[lab[v]]]) for v in range(1, n + 1)]

    s = lab[a["s"]] if a.get("s") else None
    d = a.get("d", -1)
    md = {} if d < 0 else {"max_depth": d}
    if op in ("kruskal", "cheriton_tarjan"):
        return edges(getattr(S, op)(g))
    if op == "prim":
        return edges(S.prim(g, s))
    if op == "prim_default":
        return edges(S.prim(g))
    if op == "prim_pred":
        w, p = S.prim(g, s, edge_list=False)
        return [small(w), [max(0, x) for x in pred(p)]]
    if op == "gabow":
        r = S.gabow(g, a["k"]) if a["k"] else S.gabow(g)
        return [edges(x) for x in list(r)]
    if op == "bfs":
        return [idx[v] for v in T.breadth_first_search(g, s, **md)]
    if op == "dfs":
        return [idx[v] for v in T.depth_first_search(g, s, **md)]
    if op == "bfs_tree":
        return pred(T.breadth_first_search_tree(g, s))
    if op == "dfs_tree":
        return pred(T.depth_first_search_tree(g, s))
    if op == "components":
        return [[idx[v] for v in c] for c in list(C.connected_components(g))]
    if op == "component":
        c = C.connected_component(g, s)
        len(c)                  # a list, not an iterator
        return [idx[v] for v in c]
    if op == "is_connected":
        return boolean(C.is_connected(g))


def trees_count(n, edges):
    """number of spanning trees, to keep TLC's enumeration small"""
    import itertools
    return len(edges)


def jobs(prop, tier, rng):
    big = tier == "thorough"
    if prop == "G04":
        k = 0
        for n in (1, 2, 3, 4):
            for edges in all_weighted_graphs(n, (1, 2)):
                k += 1
                a = {"n": n, "edges": edges, "s": 1 + k % n, "lab": k % 3, "order": k}
                yield {"op": "kruskal", "in": a}
                yield {"op": "cheriton_tarjan", "in": a}
                yield {"op": "prim", "in": a}
                if k % 3 == 0 or big:
                    yield {"op": "prim_pred", "in": a}
        for i in range(4000 if big else 500):
            n = rng.randint(2, 10 if not big else 14)
            wr = rng.choice([(1, 1), (1, 3), (-5, 5), (0, 2), (1, 50), (-100000, 100000)])
            conn = rng.random() < 0.75
            edges = (random_connected if conn else random_edges)(rng, n, rng.choice([0, 0.1, 0.3, 0.6, 1.0]), wr)
            a = {"n": n, "edges": edges, "s": rng.randint(1, n), "lab": i % 3, "order": rng.randint(0, 99)}
            for op in ("kruskal", "cheriton_tarjan", "prim", "prim_pred"):
                yield {"op": op, "in": a}
            if conn:
                yield {"op": "prim_default", "in": a}
        for i in range(80 if big else 15):
            n = rng.randint(20, 45)
            edges = (random_connected if i % 3 else random_edges)(rng, n, rng.choice([0.02, 0.1, 0.3]), rng.choice([(1, 1), (1, 9), (-50, 50)]))
            a = {"n": n, "edges": edges, "s": rng.randint(1, n), "lab": i % 3, "order": rng.randint(0, 99)}
            for op in ("kruskal", "cheriton_tarjan", "prim", "prim_pred"):
                yield {"op": op, "in": a}
    if prop == "G05":
        k = 0
        for n in (1, 2, 3, 4):
            for edges in all_weighted_graphs(n, (1, 2)):
                if not connected(n, edges):
                    continue
                k += 1
                if n == 4 and not big and k % 2:
                    continue
                yield {"op": "gabow", "in": {"n": n, "edges": edges, "k": 0, "lab": k % 3, "order": k}}
        for i in range(700 if big else 150):
            n = rng.randint(3, 7 if big else 6)
            wr = rng.choice([(1, 1), (1, 3), (-5, 5), (0, 2), (1, 50), (-100000, 100000), (10 ** 6, 10 ** 6 + 9), (-9 - 10 ** 6, -10 ** 6)])
            for _ in range(50):
                edges = random_connected(rng, n, rng.choice([0.1, 0.3, 0.6, 1.0]), wr)
                if len(edges) <= (12 if big else 10):
                    break
            else:
                continue
            yield {"op": "gabow", "in": {"n": n, "edges": edges, "k": rng.choice([0, 0, 1, 2, 3, 5, 10, 30]),
                                         "lab": i % 3, "order": rng.randint(0, 99)}}
    if prop == "G06":
        k = 0

        def ops(a):
            yield {"op": "bfs", "in": a}
            yield {"op": "dfs", "in": a}
            yield {"op": "bfs_tree", "in": a}
            yield {"op": "dfs_tree", "in": a}
            yield {"op": "components", "in": a}
            yield {"op": "component", "in": a}
            yield {"op": "is_connected", "in": a}
        for n in (1, 2, 3, 4, 5):
            for edges in all_graphs(n):
                k += 1
                if n == 5 and not big and k % 2:
                    continue
                a = {"n": n, "edges": edges, "s": 1 + k % n, "d": (k // 3) % 5 - 1, "lab": k % 3, "order": k}
                yield from ops(a)
        for i in range(3000 if big else 200):
            n = rng.randint(5, 14)
            edges = random_edges(rng, n, rng.choice([0.05, 0.12, 0.2, 0.4, 0.8]))
            a = {"n": n, "edges": edges, "s": rng.randint(1, n), "d": rng.choice([-1, -1, 0, 1, 2, 3, 4, 6]), "lab": i % 3,
                 "order": rng.randint(0, 99)}
            yield from ops(a)
        for i in range(80 if big else 15):
            n = rng.randint(25, 70)
            edges = random_edges(rng, n, rng.choice([0.02, 0.04, 0.1]))
            if i % 3 == 0:                               # long chains: deep trees
                edges = [[u, u + 1, 1] for u in range(1, n) if rng.random() < 0.97] + [[u, u + 5, 1] for u in range(1, n - 5) if rng.random() < 0.1]
            yield from ops({"n": n, "edges": edges, "s": rng.randint(1, n), "d": rng.choice([-1, -1, 5, 12, 30]), "lab": i % 3, "order": rng.randint(0, 99)})
        yield {"op": "is_connected", "in": {"n": 0, "edges": []}}
        yield {"op": "components", "in": {"n": 0, "edges": []}}
