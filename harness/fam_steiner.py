from harness.enc import *
from harness.gens import *
from rosemary.graphs.algorithms import steiner_trees as S


def execute(op, a):
    g, lab, idx = build_edges(a)
    t = [lab[v] for v in a["t"]]
    t = kept([list, tuple, set][a.get("kind", 0)](t))
    w, es = getattr(S, op)(g, t)
    return [small(w), [[idx[u], idx[v]] for u, v in es]]


def jobs(prop, tier, rng):
    big = tier == "thorough"
    ops = ("distance_network_heuristic", "minimum_cost_paths_heuristic")
    k = 0
    for n in (1, 2, 3, 4):
        for edges in all_weighted_graphs(n, (1, 3) if n == 4 else (0, 1, 3)):
            if not connected(n, edges):
                continue
            k += 1
            if n == 4 and k % (1 if big else 3):
                continue
            t = rng.sample(range(1, n + 1), rng.randint(1, n))
            for op in ops:
                yield {"op": op, "in": {"n": n, "edges": edges, "t": t, "lab": k % 3, "order": k, "kind": k % 3}}
    for i in range(150 if big else 25):
        n = rng.randint(12, 26)
        t = rng.sample(range(1, n + 1), n - rng.randint(0, 6))
        edges = random_connected(rng, n, rng.choice([0, 0.05, 0.2]), rng.choice([(1, 1), (1, 3), (1, 30)]))
        for op in ops:
            yield {"op": op, "in": {"n": n, "edges": edges, "t": t, "lab": i % 3, "order": rng.randint(0, 99), "kind": i % 3}}
    for i in range(3000 if big else 500):
        n = rng.randint(4, 10 if big else 8)
        wr = rng.choice([(1, 1), (1, 3), (1, 10), (1, 1000), (0, 1), (0, 0)])
        edges = random_connected(rng, n, rng.choice([0, 0.1, 0.3, 0.6, 1.0]), wr)
        t = rng.sample(range(1, n + 1), rng.randint(1 if i % 10 == 0 else 2, n))
        if rng.random() < 0.3:                       # a hub makes terminal-to-terminal paths misleading
            edges = [[u, v, w * 2] for u, v, w in edges if 1 not in (u, v)] + [[1, v, rng.randint(1, 3)] for v in range(2, n + 1)]
            t = [x for x in t if x != 1] or [n]
        elif rng.random() < 0.4:                     # a rim of subdivided edges around a hub: the tree is rebuilt and whole chains hang off it
            k = rng.randint(3, 5)
            w = rng.randint(3, 6)
            edges = [[1, v, w + rng.randint(0, 1)] for v in range(2, k + 2)]
            n = k + 1
            for v in rng.sample(range(2, k + 2), rng.randint(1, 2)):
                u = v + 1 if v <= k else 2
                m = rng.randint(1, 3)
                total = 2 * w + rng.randint(-2, 1)
                ws = [1] * m
                ws.insert(rng.choice([0, m, rng.randint(0, m)]), max(1, total - m))
                if n + m <= 10:
                    chain = [v] + list(range(n + 1, n + m + 1)) + [u]
                    n += m
                    edges += [[a, b, x] for a, b, x in zip(chain, chain[1:], ws)]
            t = list(range(2, k + 2))
            if rng.random() < 0.2:
                t.append(rng.randint(k + 2, n) if n > k + 1 else 1)
            rng.shuffle(t)
        for op in ops:
            yield {"op": op, "in": {"n": n, "edges": edges, "t": t, "lab": i % 3, "order": rng.randint(0, 99), "kind": i % 3}}
