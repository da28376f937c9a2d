import itertools
from harness.enc import *
from harness import record
from rosemary.combinatorics.enumeration import enumeration as E


def call(op, a):
    return big({"domino": E.number_of_domino_tilings, "triomino": E.triomino_tilings}[op](*a))


def execute(op, a):
    if op == "tilings":
        return record.fresh(call, [(c[0], (c[1], c[2])) for c in a["calls"]])
    if op == "bell_number":
        return big(E.bell_number(a["n"]))
    if op == "stirling_number2":
        return big(E.stirling_number2(a["m"], a["n"]))
    if op == "binomial":
        return big(E.binomial(a["n"], a["k"]))
    if op == "multinomial":
        return big(E.multinomial(a["n"], tuple(a["k"]) if a.get("tuple") else kept(list(a["k"]))))
    if op == "bipartitions":
        return big(E.bipartitions(a["m"], a["n"]))
    if op == "partition_number":
        return big(E.partition_number(a["n"]))
    if op == "partition_list":
        return bigs(E.partition_list(a["n"]))
    if op == "rth_power_partition_number":
        return big(E.rth_power_partition_number(a["r"], a["n"]))
    if op == "necklaces":
        w = list(a["w"])
        if not w:
            return [big(E.necklaces(a["n"], a["k"])), []]
        arg = tuple(w) if a.get("tuple") else w
        return [big(E.necklaces(a["n"], a["k"], arg)), list(arg)]


def compositions(n, k):
    for c in itertools.combinations(range(1, n), k - 1):
        b = (0,) + c + (n,)
        yield [b[i + 1] - b[i] for i in range(k)]


def jobs(prop, tier, rng):
    big_ = tier == "thorough"
    if prop == "C04":
        kinds = ("domino", "triomino")
        top = 7 if big_ else 6
        all_ = [(k, m, n) for k in kinds for m in range(1, top + 1) for n in range(1, top + 1)]
        all_ += [("domino", 2, 12), ("domino", 12, 2), ("domino", 1, 14), ("domino", 14, 1), ("domino", 4, 9), ("domino", 9, 4), ("domino", 3, 10),
                 ("triomino", 2, 12), ("triomino", 12, 2), ("triomino", 3, 10), ("triomino", 10, 3), ("triomino", 1, 15), ("triomino", 15, 1),
                 ("triomino", 4, 9), ("triomino", 9, 4), ("triomino", 2, 10), ("domino", 7, 8), ("domino", 8, 7), ("domino", 8, 8), ("domino", 2, 20), ("domino", 1, 24), ("domino", 5, 12),
                 ("domino", 16, 2), ("triomino", 1, 24), ("triomino", 2, 15), ("triomino", 3, 15), ("triomino", 7, 6), ("triomino", 5, 9), ("triomino", 9, 5), ("triomino", 7, 9), ("triomino", 9, 7)]
        for c in all_:
            yield {"op": "tilings", "in": {"calls": [list(c)]}}
        small = [c for c in all_ if c[1] * c[2] <= 20]
        for _ in range(300 if big_ else 80):
            base = [rng.choice(small) for _ in range(rng.randint(2, 4))]
            calls = []
            for k, m, n in base:
                calls += [[k, m, n], [rng.choice(kinds), n, m]]
            rng.shuffle(calls)
            yield {"op": "tilings", "in": {"calls": calls[:6]}}
        return
    for n in list(range(-2, 26)) + [30, 40, 55, 57, 58, 60, 64, 75, 90] + ([120, 150] if big_ else []):
        yield {"op": "bell_number", "in": {"n": n}}
    for m in range(0, 12):
        for n in range(0, m + 3):
            yield {"op": "stirling_number2", "in": {"m": m, "n": n}}
    for m, n in [(20, 7), (25, 13), (30, 2), (30, 29), (18, 18), (15, 40), (40, 11), (50, 25), (60, 7), (64, 60), (70, 3)]:
        yield {"op": "stirling_number2", "in": {"m": m, "n": n}}
    for n in range(0, 17):
        for k in range(0, n + 3):
            yield {"op": "binomial", "in": {"n": n, "k": k}}
    for n, k in [(60, 30), (64, 31), (100, 3), (100, 98), (200, 100), (70, 69), (1000, 2), (57, 58), (256, 120), (400, 20), (10 ** 6, 3), (10 ** 4, 9), (67, 33), (68, 34), (255, 128)]:
        yield {"op": "binomial", "in": {"n": n, "k": k}}
    for n in range(1, 8):
        for k in range(0, n + 1):
            if k == 0:
                yield {"op": "multinomial", "in": {"n": n, "k": []}}
                continue
            for c in compositions(n, k):
                yield {"op": "multinomial", "in": {"n": n, "k": c, "tuple": n % 2 == 0}}
    for _ in range(80):
        k = [rng.randint(1, 8) for _ in range(rng.randint(1, 6))]
        yield {"op": "multinomial", "in": {"n": sum(k) + rng.choice([0, 0, 1, 3, -1, 5]), "k": k}}
    for k in ([30, 30], [20, 20, 20], [9] * 9, [50, 1, 1, 1], [1] * 40, [100, 3, 5], [2] * 30, [40, 30, 20, 10], [64, 64], [17, 23, 31]):
        yield {"op": "multinomial", "in": {"n": sum(k), "k": k}}
    for m in range(0, 8):
        for n in range(0, 8):
            yield {"op": "bipartitions", "in": {"m": m, "n": n}}
    for m, n in [(20, 0), (0, 15), (12, 10), (9, 14), (1, 25)]:
        yield {"op": "bipartitions", "in": {"m": m, "n": n}}
    for n in range(0, 41):
        yield {"op": "partition_number", "in": {"n": n}}
        yield {"op": "partition_list", "in": {"n": n}}
    for n in (57, 70, 92, 99, 100, 101, 117, 145, 160, 200, 256, 300):
        yield {"op": "partition_number", "in": {"n": n}}
        yield {"op": "partition_list", "in": {"n": n}}
    for r in range(-6, 9):
        for n in range(0, 12):
            yield {"op": "rth_power_partition_number", "in": {"r": r, "n": n}}
    for r, n in [(24, 15), (2, 40), (3, 30), (-24, 12), (-1, 40), (-3, 30), (1, 50), (0, 20)]:
        yield {"op": "rth_power_partition_number", "in": {"r": r, "n": n}}
    for n in range(1, 17):
        for k in range(2, 7):
            yield {"op": "necklaces", "in": {"n": n, "k": k, "w": []}}
    for n, k in [(30, 2), (24, 3), (36, 10), (49, 2), (64, 2), (60, 7), (97, 3)]:
        yield {"op": "necklaces", "in": {"n": n, "k": k, "w": []}}
    for n in range(2, 10):
        for k in range(2, 5):
            for c in compositions(n, k):
                if n <= 6 or rng.random() < .25:
                    yield {"op": "necklaces", "in": {"n": n, "k": k, "w": c, "tuple": rng.random() < .5}}
    for w in [[2, 2, 2], [4, 4], [6, 6, 6], [3, 6, 9], [8, 4], [12, 12], [4, 6, 2], [5, 5, 10], [9, 9], [12], [1], [10, 20]]:
        yield {"op": "necklaces", "in": {"n": sum(w), "k": len(w), "w": w}}
