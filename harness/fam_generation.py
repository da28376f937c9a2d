import itertools
from harness.enc import *
from rosemary.combinatorics.generation import permutations as P
from rosemary.combinatorics.generation.combinations import combinations
from rosemary.combinatorics.generation.partitions import integer_partitions
from rosemary.combinatorics.generation.tuples import n_tuples

CAP = 30000


def label(kind):
    """order preserving relabelling of the values 1, 2, ..."""
    if kind == 1:
        return lambda x: "abcdefghij"[x]
    if kind == 2:
        return lambda x: (x // 2, x % 2)
    if kind == 3:
        return lambda x: -1000 + 7 * x
    return lambda x: x


def drain(make, weave):
    """all items; the items themselves are kept (not copied) until the end"""
    g = make()
    other = make() if weave else None
    out = []
    for i, x in enumerate(g):
        if i >= CAP:
            raise Bad("more than %d items" % CAP)
        out.append(x)
        if other is not None:
            for _ in range(2):
                next(other, None)
    return out


def execute(op, a):
    weave = a.get("w", 0)
    if op in ("phillips", "knuth_algorithm_l", "knuth_algorithm_l_variations", "knuth_algorithm_l_rvariations"):
        lab = label(a.get("lab", 0))
        back = {lab(x): x for x in a["s"]}
        arg = [lab(x) for x in a["s"]]
        if a.get("tuple"):
            arg = tuple(arg)
        f = getattr(P, op)
        rest = (a["r"],) if "r" in a else ()
        L = drain(lambda: f(arg, *rest), weave)
        for x in L:
            if not isinstance(x, (list, tuple)):
                raise Bad("item %r" % (x,))
        return [[[back[y] for y in x] for x in L], [back[y] for y in arg]]
    if op == "combinations":
        return intss(drain(lambda: combinations(a["n"], a["t"]), weave))
    if op == "integer_partitions":
        kw = {}
        if a["k"]:
            kw["num_parts"] = a["k"]
        if a["d"]:
            kw["distinct"] = True
        parts = None
        if a["p"] != [0]:
            parts = kw["parts"] = tuple(a["p"]) if a.get("tuple") else list(a["p"])
        L = drain(lambda: integer_partitions(a["n"], **kw), weave)
        return [intss(L), [0] if parts is None else list(parts)]
    if op == "n_tuples":
        m = a["m"]
        kind = a["kind"]
        arg = list(m)
        if kind == "list":
            args = (len(m), arg)
        elif kind == "tuple":
            args = (len(m), tuple(m))
        elif kind == "int":
            args = (len(m), m[0])
        else:
            args = (len(m),)
        return [intss(drain(lambda: n_tuples(*args), weave)), int(arg == m)]


def perm_jobs(s, rng, ops, lab=0):
    s = list(s)
    rng.shuffle(s)
    base = {"s": s, "lab": lab, "w": rng.randint(0, 1)}
    if rng.random() < .3:
        base["tuple"] = True
    for op in ops:
        if op.endswith("rvariations"):
            for r in range(0, len(s) + 3):
                yield {"op": op, "in": dict(base, r=r)}
        else:
            yield {"op": op, "in": base}


ALL = ("phillips", "knuth_algorithm_l", "knuth_algorithm_l_variations", "knuth_algorithm_l_rvariations")


def jobs(prop, tier, rng):
    big = tier == "thorough"
    if prop == "C01":
        for n in range(0, 6 if big else 5):
            for s in itertools.combinations_with_replacement(range(1, n + 1 if n else 2), n):
                yield from perm_jobs(s, rng, ALL, rng.choice([0, 0, 1, 2, 3]))
        pats = [[1] * 5, [1, 1, 1, 1, 2], [1, 2, 2, 2, 2], [1, 1, 2, 2, 3], [1, 1, 1, 2, 2, 2], [1, 1, 2, 2, 3, 3],
                [1, 2, 3, 4, 5], [1, 1, 2, 3, 4], [1] * 7, [1] * 6 + [2] * 2, [1, 2] + [3] * 5, [1, 2, 2, 3, 3, 3]]
        for s in pats:
            yield from perm_jobs(s, rng, ALL, rng.randint(0, 3))
        for s in [[1, 2, 3, 4, 5, 6], [1, 1, 2, 2, 3, 3, 4], [1, 1, 1, 2, 2, 3, 4], [1, 2, 3, 4, 5, 5, 5]]:
            yield from perm_jobs(s, rng, ALL[:2], rng.randint(0, 3))
        if big:
            for s in [list(range(1, 8)), [1, 1, 2, 2, 3, 3, 4, 4]]:
                yield from perm_jobs(s, rng, ALL[:2])
        for _ in range(200 if big else 40):
            n = rng.randint(5, 7 if big else 6)
            k = rng.randint(1, 4)
            yield from perm_jobs([rng.randint(1, k) for _ in range(n)], rng, ALL, rng.randint(0, 3))
    else:
        for n in range(0, 10):
            for t in range(0, n + 3):
                yield {"op": "combinations", "in": {"n": n, "t": t, "w": (n + t) % 2}}
        for n, t in [(12, 5), (11, 8), (14, 3), (40, 1), (25, 2), (12, 11)]:
            yield {"op": "combinations", "in": {"n": n, "t": t}}
        for n, t in [(18, 17), (24, 23), (30, 29), (16, 14), (45, 2), (64, 1), (70, 70), (64, 63)]:
            yield {"op": "combinations", "in": {"n": n, "t": t, "w": rng.randint(0, 1)}}
        for n, k, d in [(60, 2, 0), (61, 2, 1), (40, 3, 1), (45, 44, 0), (64, 62, 0), (50, 1, 0), (36, 8, 1), (45, 9, 1), (28, 6, 1), (80, 79, 0), (60, 57, 0)]:
            yield {"op": "integer_partitions", "in": {"n": n, "k": k, "d": d, "p": [0], "w": rng.randint(0, 1)}}
        for n, k, d, p in [(100, 0, 0, [25, 50, 10]), (60, 0, 1, list(range(30, 7, -1))), (97, 3, 0, list(range(20, 50, 2)) + [7, 31]), (200, 0, 0, [100, 70, 30, 45]),
                           (64, 12, 0, [1, 2, 4, 8, 16, 32]), (127, 0, 1, [1, 2, 4, 8, 16, 32, 64]), (90, 30, 0, [3, 5]), (101, 0, 0, [40, 60])]:
            yield {"op": "integer_partitions", "in": {"n": n, "k": k, "d": d, "p": p, "w": rng.randint(0, 1)}}
        N = 16 if big else 12
        for n in range(0, N + 1):
            for k in range(0, n + 3):
                for d in (0, 1):
                    yield {"op": "integer_partitions", "in": {"n": n, "k": k, "d": d, "p": [0], "w": (n + k) % 2}}
        for n, k in [(18, 0), (20, 4), (22, 3), (20, 7), (25, 2), (30, 28), (19, 10), (17, 5)]:
            for d in (0, 1):
                yield {"op": "integer_partitions", "in": {"n": n, "k": k, "d": d, "p": [0]}}
        for n in range(0, 6):
            for m in range(1, 5):
                for p in itertools.combinations(range(1, 7), m):
                    p = list(p)
                    rng.shuffle(p)
                    yield {"op": "integer_partitions", "in": {"n": n, "k": rng.choice([0, 0, 0, 1, 2, 3]), "d": rng.randint(0, 1), "p": p}}
        for _ in range(1500 if big else 400):
            n = rng.randint(4, 20)
            p = rng.sample(range(1, n + 4), rng.randint(0, 6))
            yield {"op": "integer_partitions", "in": {"n": n, "k": rng.choice([0, 0, 0, 1, 2, 3, 4, 5, n, n + 1]), "d": rng.randint(0, 1), "p": p,
                                                      "tuple": rng.random() < .3, "w": rng.randint(0, 1)}}
        for n in range(0, 7):
            yield {"op": "n_tuples", "in": {"m": [2] * n, "kind": "none"}}
            for b in (0, 1, 2, 3, 4):
                if b ** n < 1500 and n:
                    yield {"op": "n_tuples", "in": {"m": [b] * n, "kind": "int"}}
        for n in range(0, 4):
            for m in itertools.product(range(0, 4), repeat=n):
                yield {"op": "n_tuples", "in": {"m": list(m), "kind": "list", "w": sum(m) % 2}}
        for m in ([1] * 12, [1] * 40, [2] * 10, [1] * 5 + [3] + [1] * 6 + [2], [2, 1] * 8, [1] * 20 + [7], [9] + [1] * 20, [200], [1, 130, 1], [1] * 15 + [0], [3] * 6):
            yield {"op": "n_tuples", "in": {"m": m, "kind": rng.choice(["list", "tuple"])}}
        for _ in range(60):
            n = rng.randint(3, 6)
            yield {"op": "n_tuples", "in": {"m": [rng.randint(1, 4) for _ in range(n)], "kind": rng.choice(["list", "tuple"])}}
