from harness.enc import *
from itertools import combinations
from rosemary.number_theory import arithmetic_progressions as A


def execute(op, a):
    xs = kept(list(a["a"]))
    if op == "longest":
        return seq(ints)(A.longest_ap(xs))
    r = A.has_three_term_ap(xs, indices=True) if op == "three_indices" else A.has_three_term_ap(xs)
    return [] if r is False else ints(r)


def J(op, xs):
    return {"op": op, "in": {"a": sorted(set(xs))}}


def free(rng, n, span):
    """a set without three terms in progression, grown greedily from random candidates"""
    out = []
    for x in rng.sample(range(1, span), min(span - 1, 12 * n)):
        s = set(out)
        if all(2 * x - y not in s and 2 * y - x not in s and ((x + y) % 2 or (x + y) // 2 not in s) for y in out):
            out.append(x)
        if len(out) >= n:
            break
    return sorted(out)


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    for xs in ([], [5], [1, 2], [3, 9]):
        yield J("three", xs)
        yield J("three_indices", xs)
        if len(xs) > 1:
            yield J("longest", xs)
    top = 11 if hard else 9
    for n in range(2, top + 1):
        for xs in combinations(range(1, top + 1), n):
            yield J("longest", xs)
            yield J("three", xs)
    for i in range(700 * rep):
        n = rng.randrange(3, 26) if i % 9 else rng.randrange(30, 65)
        span = rng.choice([n + 2, 2 * n, 4 * n, 50 * n, 10 ** 8])
        kind = i % 4
        if kind == 0:
            xs = [rng.randrange(1, span + 1) for _ in range(n)]
        elif kind == 1:      # progression free, then at most one progression added
            xs = free(rng, n, 30 * n)
            if i % 8 == 1 and len(xs) > 2:
                x, y = rng.sample(xs, 2)
                xs.append(rng.choice([z for z in (2 * x - y, 2 * y - x) if z > 0]))
        elif kind == 2:      # long progressions hidden among other numbers
            d, x, m = rng.randrange(1, 40), rng.randrange(1, 200), rng.randrange(3, 14)
            xs = [x + d * t for t in range(m)] + [rng.randrange(1, 900) for _ in range(n // 2)]
            if rng.random() < .5:
                d2, x2 = rng.randrange(1, 40), rng.randrange(1, 200)
                xs += [x2 + d2 * t for t in range(m)]
            if rng.random() < .4:
                xs.remove(rng.choice(xs))
        else:                # geometric growth: extreme positions only
            xs = [3 ** t + rng.randrange(2) for t in range(1, rng.randrange(4, 17))]
            if rng.random() < .7:
                a, b = sorted(rng.sample(xs, 2))
                xs.append(2 * b - a)
        if rng.random() < .15:
            xs = [-x for x in xs]
        xs = [x for x in set(xs) if abs(x) < 4 * 10 ** 8]
        if len(xs) > 1:
            yield J("longest", xs)
            yield J("three", xs)
            yield J("three_indices", xs)
    if hard:
        from harness import nt
        for n in (60, 120, 200):
            yield J("longest", nt.SMALL[:n])
            yield J("three", nt.SMALL[:n])
