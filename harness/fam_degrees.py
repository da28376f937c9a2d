import itertools
from harness.enc import *
from rosemary.graphs.algorithms import degree_sequences as D


def execute(op, a):
    s = tuple(a["s"]) if a.get("tuple") else list(a["s"])
    r = getattr(D, op)(s)
    return [boolean(r), ints(s)]


def jobs(prop, tier, rng):
    big = tier == "thorough"
    ops = ("is_graphic", "is_graphic_erdos_gallai")
    for n in range(0, 5):
        for s in itertools.product(range(-1, n + 1), repeat=n):
            for op in ops:
                yield {"op": op, "in": {"s": list(s), "tuple": sum(s) % 5 == 0}}
    for s in itertools.combinations_with_replacement(range(0, 6), 5):
        s = list(s)
        rng.shuffle(s)
        for op in ops:
            yield {"op": op, "in": {"s": s}}
    for i in range(4200 if big else 840):
        n = rng.randint(6, 14) if i % 20 else rng.randint(25, 60)
        p = rng.random()
        deg = [0] * n
        for u, v in itertools.combinations(range(n), 2):
            if rng.random() < p:
                deg[u] += 1
                deg[v] += 1
        for _ in range(rng.choice([0, 1, 2, 2, 4])):        # near-graphic sequences
            j = rng.randrange(n)
            deg[j] += rng.choice([-1, 1, 2, -2])
        if rng.random() < 0.3:
            h = rng.randint(1, n)
            deg = [rng.choice([n - 1, n - 2, h]) for _ in range(h)] + [rng.randint(0, h) for _ in range(n - h)]
        for op in ops:
            yield {"op": op, "in": {"s": deg, "tuple": i % 4 == 0}}
