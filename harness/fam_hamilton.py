from harness.enc import *
from harness.gens import *
from harness.record import fresh
from rosemary.graphs.algorithms import hamiltonian_paths as H

LISTS = ("hamiltonian_paths", "hamiltonian_paths_con")
COUNTS = ("number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits", "number_of_hamiltonian_paths_bits_con",
          "number_of_hamiltonian_paths5", "number_of_hamiltonian_paths5_con")


def execute(op, a):
    if op == "session":
        return [execute(c["op"], c["in"]) for c in a["calls"]]
    g, lab, idx = build_edges(a)
    if op == "is_connected2":
        return boolean(H.is_connected2(g, {lab[v] for v in a["sub"]}))
    if op == "walks":
        w = H.walks(g, lab[a["s"]], a["len"], {lab[v] for v in a["sub"]})
        return sorted([idx[u], small(k)] for u, k in w.items())
    if op in LISTS:
        return [[idx[v] for v in p] for p in list(getattr(H, op)(g))]
    return small(getattr(H, op)(g))


def jobs(prop, tier, rng):
    big = tier == "thorough"
    k = 0
    for n in (1, 2, 3, 4, 5):
        for edges in all_graphs(n):
            k += 1
            if n == 5 and not big and k % 6:
                continue
            for op in (LISTS + COUNTS if n < 5 else rng.sample(LISTS + COUNTS, 4)):
                yield {"op": op, "in": {"n": n, "edges": edges, "lab": k % 3, "order": k}}
    for i in range(2000 if big else 200):
        n = rng.randint(5, 8 if big else 7)
        p = rng.choice([0.2, 0.4, 0.5, 0.7, 1.0])
        if n > 6 and p > 0.6:
            n = 6
        edges = random_edges(rng, n, p)
        for op in rng.sample(LISTS + COUNTS, 3):
            yield {"op": op, "in": {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}}
    for i in range(150 if big else 25):                  # long sparse graphs: rings, ladders, trees of few branches
        n = rng.randint(8, 12 if big else 11)
        if i % 3 == 0:
            edges = [[u, u + 1, 1] for u in range(1, n)] + [[1, n, 1]] + random_edges(rng, n, 0.04)
        elif i % 3 == 1:
            edges = [[u, u + 2, 1] for u in range(1, n - 1)] + [[u, u + 1, 1] for u in range(1, n, 2)]
        else:
            edges = [[u, u + 1, 1] for u in range(1, n)] + [[rng.randint(1, u - 2), u, 1] for u in range(3, n + 1) if rng.random() < 0.4]
        edges = [list(e) for e in sorted({tuple(e) for e in edges})]
        for op in rng.sample(LISTS + COUNTS, 4):
            yield {"op": op, "in": {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}}
    for i in range(2000 if big else 300):
        n = rng.randint(1, 7)
        edges = random_edges(rng, n, rng.choice([0.2, 0.3, 0.5, 0.8]))
        sub = rng.sample(range(1, n + 1), rng.randint(0, n))
        yield {"op": "is_connected2", "in": {"n": n, "edges": edges, "lab": i % 3, "order": i, "sub": sub}}
        if sub:
            yield {"op": "walks", "in": {"n": n, "edges": edges, "lab": i % 3, "order": i, "sub": sub, "s": rng.choice(sub), "len": rng.randint(0, 8)}}
    for i in range(400 if big else 60):
        calls = []
        for _ in range(rng.randint(2, 4)):
            n = rng.randint(1, 5)
            calls.append({"op": rng.choice(LISTS + COUNTS),
                          "in": {"n": n, "edges": random_edges(rng, n, rng.choice([0.3, 0.6, 1.0])), "lab": 0, "order": rng.randint(0, 9)}})
        yield {"op": "session", "in": {"calls": calls}}
