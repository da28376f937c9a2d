from harness.enc import *
from harness import nt
from harness.record import fresh
from rosemary.number_theory.primes import prime_counting as P

COUNTERS = ("legendre", "meissel", "lehmer", "lmo", "lmo_bit")
SUMS = ("prime_sum", "prime_sum2")


def execute(op, a):
    if op == "session":
        return fresh(execute, [(c["op"], c) for c in a["calls"]])
    n = a["n"]
    if op in COUNTERS:
        return small(getattr(P, op)(n))
    if op in SUMS:
        return big(getattr(P, op)(n))
    if op == "prime_count":
        r = P.prime_count(n)
        return [[small(k), small(v)] for k, v in sorted(r.items(), reverse=True)]
    if op == "pi_table":
        return tup(seq(small), seq(small))(P.pi_table(n))
    if op == "pi_table_large":
        ps, t = P.pi_table(n)
        return [len(ps), len(t), [[i, small(t[i])] for i in a["at"]]]
    raise KeyError(op)


def J(op, **kw):
    return {"op": op, "in": kw}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    for n in range(0, 1500 if hard else 450):
        for op in COUNTERS + SUMS:
            yield J(op, n=n)
        if n:
            yield J("prime_count", n=n)
        if n < 200:
            yield J("pi_table", n=n)
    for p in nt.SMALL:
        if p > 100:
            break
        for n in (p * p - 1, p * p, p * p + 1, p ** 3 - 1, p ** 3, p ** 3 + 1, p ** 3 + 7):
            if n < 10 ** 6:
                for op in ("lmo_bit",) + SUMS + ("prime_count",):
                    yield J(op, n=n)
    special = [999982, 999983, 999984, 999985, 1000002, 1000003, 1000004, 10 ** 6, 10 ** 6 + 1]
    for p in nt.SMALL:
        for k, lo, hi in ((2, 1000, 1200 if not hard else 2000), (3, 100, 130 if not hard else 400), (4, 31, 47 if not hard else 101)):
            if lo < p < hi:
                special += [p ** k - 1, p ** k, p ** k + 1]
        # products around which the special leaves change
    for q in (101, 103, 107):
        special += [q * q * 103, q * 103 * 107 - 1, q * 103 * 107, q * 103 * 109]
    for n in special:
        for op in COUNTERS[:4] + ("lmo_bit",) + SUMS[:1]:
            yield J(op, n=n)
    for i in range(25 * rep):
        n = rng.randrange(10 ** 6, 10 ** rng.choice([7, 7, 8] if hard else [6, 7, 7]) * 3)
        if i % 3 == 0:
            n = nt.next_prime(n) - (i % 2)
        for op in COUNTERS + SUMS:
            yield J(op, n=n)
    for i in range(20 * rep):
        n = rng.randrange(500, 10 ** 6)
        for op in COUNTERS + SUMS + ("prime_count",) * (i % 4 == 0):
            yield J(op, n=n)
        yield J("pi_table_large", n=n, at=sorted(rng.sample(range(n + 1), 3)) + [n])
    for n in (5, 999983, 10 ** 6, 1000003):
        yield J("pi_table_large", n=n, at=[0, 2, n // 2, n - 1, n])
    # several functions in one process, arguments of different size after each other
    for i in range(12 * rep):
        top = rng.choice([3000, 10 ** 6 + 5000, 5 * 10 ** 6])
        lo = 2 if top < 10 ** 6 else 999990
        calls = []
        for _ in range(rng.randint(3, 7)):
            n = rng.randrange(lo, top)
            for op in rng.sample(COUNTERS + SUMS, rng.randint(1, 2)):
                calls.append({"op": op, "n": n})
        if i % 2:
            calls.append(dict(calls[0]))
        yield J("session", calls=calls)
