from harness.enc import *
from harness import nt
from rosemary.number_theory.factorization import factorization as F

facs = seq(tup(small, small))


def execute(op, a):
    if op == "factored_range":
        l = F.factored_range(a["a"], a["b"][0]) if a["b"] else F.factored_range(a["a"])
        return seq(tup(small, facs))(l)
    if op == "far_range":
        lo = unbig(a["a"])
        return seq(tup(big, seq(tup(big, small))))(F.factored_range(lo, lo + len(a["fs"])))
    if op == "none":
        r = getattr(F, a["f"])()
        return list(r)
    n = unbig(a["n"])
    f = [(p, e) for p, e in (([(-1, 1)] if a["unit"] else []) + [(unbig(p), e) for p, e in a["f"]["fs"]])]
    keep = f[:]
    args = {"n": {"n": n}, "f": {"factorization": f}, "both": {"n": n, "factorization": f}}[a["form"]]
    r = getattr(F, op)(**args)
    r = seq(tup(big, big))(r) if op == "divisor_pairs" else seq(big)(r)
    if f != keep:
        raise AssertionError("factorization changed")
    return r


OPS = ("divisors", "xdivisors", "unitary_divisors", "prime_divisors", "divisor_pairs")


def D(op, n, form, unit=False):
    return {"op": op, "in": {"n": big(n), "f": nt.fact(abs(n)), "form": form, "unit": unit}}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 5 if hard else 1
    for n in range(1, 1500 if hard else 260):
        for i, op in enumerate(OPS):
            yield D(op, n, "n")
            yield D(op, n, ("f", "both")[(n + i) % 2])
    for n in (1, 2, 3, 4, 6, 12, 30, 36, 360, 97, 128):
        for op in OPS:
            yield D(op, -n, "n")
            yield D(op, n, "f", True)
    for op in ("divisors", "unitary_divisors", "prime_divisors", "divisor_pairs"):
        yield {"op": "none", "in": {"f": op}}
    yield {"op": "none", "in": {"f": "xdivisors"}}
    for i in range(60 * rep):
        n = 1
        for _ in range(rng.randint(1, 5)):
            n *= rng.choice(nt.SMALL[:rng.choice([3, 10, 60])]) ** rng.randint(1, 3)
        if i % 3 == 0:
            n *= nt.random_prime(rng, 10 ** 5, 10 ** 9)
        if i % 7 == 0:
            n = rng.randrange(2, 10 ** 6) ** 2
        if i % 11 == 0:
            n = nt.random_prime(rng, 10 ** 6, 10 ** 10) * nt.random_prime(rng, 10 ** 6, 10 ** 10)
        for f in nt.factor(n):
            while n % f[0] == 0 and [e for p, e in nt.factor(n) if p == f[0]] > [3]:
                n //= f[0]
        for op in OPS:
            if op in ("prime_divisors",) or len(nt.factor(n)) < 9:
                t = 1
                for _, e in nt.factor(n):
                    t *= e + 1
                if t <= 400:
                    yield D(op, n, rng.choice(["n", "f", "both"]))
    R = lambda a, *b: {"op": "factored_range", "in": {"a": a, "b": list(b)}}
    top = 60 if hard else 36
    for a in range(-2, top):
        yield R(a)
        for b in range(-1, top):
            if hard or a < 12 or (a + b) % 3 == 0:
                yield R(a, b)
    for i in range(120 * rep):
        a = rng.randrange(1, 10 ** rng.randint(2, 6))
        r = rng.randrange(2, 300)
        # ends next to squares, starts on block boundaries
        yield R(a, a + rng.randrange(0, 40))
        yield R(max(1, r * r - rng.randrange(0, 30)), r * r + rng.randrange(-1, 4))
        b = rng.randrange(50, 3000)
        yield R(max(1, b - nt.isqrt(b) * rng.randrange(1, 4)), b)
    yield R(1, 1500)
    yield R(1200)
    for a in (10 ** 7, 10 ** 8 + 6, 2 ** 31 - 5, 10 ** 10 - 3)[:4 if hard else 3]:
        yield {"op": "far_range", "in": {"a": big(a), "fs": [nt.fact(a + i) for i in range(12)]}}
