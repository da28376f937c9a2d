from harness.enc import *
from harness import nt
from math import factorial, isqrt
from rosemary.number_theory import classification as C


def found(shape):
    return lambda v: [] if v is False else shape(v)


def execute(op, a):
    n = unbig(a["n"])
    x = [(unbig(p), e) for p, e in a["f"]["fs"]] if a.get("form") == "f" else n
    if a.get("form") == "f" and n < 0:
        x = [(-1, 1)] + x
    kept(x)
    if op == "is_squarefree":
        return boolean(C.is_squarefree(x))
    if op == "is_factorial":
        return boolean(C.is_factorial(n))
    if op == "is_square":
        return found(big)(C.is_square(x))
    if op == "is_power2":
        return found(tup(big, small))(C.is_power2(n))
    return found(tup(big, small))(C.is_power(x, *a["k"]))


def primitive(b):
    L = b.bit_length()
    return {"L": L, "rs": [big(nt.iroot(b, q)) for q in range(2, L + 1) if all(q % d for d in range(2, q))]}


def decompose(n):
    k = 1
    b = n
    again = True
    while again:
        again = False
        for q in range(2, b.bit_length() + 1):
            r = nt.iroot(b, q)
            if r ** q == b and r > 1:
                b, k, again = r, k * q, True
                break
    return dict(primitive(b), b=big(b), k=k)


def P(n, k=None, op="is_power", form="n", f=None):
    c = decompose(n) if n > 1 else {}
    return {"op": op, "in": {"n": big(n), "k": [] if k is None else [k], "c": c, "form": form, "f": f or {"fs": [], "pratt": []}}}


def S(n, form="n"):
    f = nt.fact(n) if form == "f" else {"fs": [], "pratt": []}
    return {"op": "is_square", "in": {"n": big(n), "r": big(isqrt(max(n, 0))), "form": form, "f": f}}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 8 if hard else 1
    for n in range(-5, 4000 if hard else 700):
        yield S(n)
        yield {"op": "is_factorial", "in": {"n": big(n)}}
        yield {"op": "is_squarefree", "in": {"n": big(n), "form": "n", "f": nt.fact(n) if n > 0 else {}}}
        if n > 0:
            yield P(n)
            yield P(n, op="is_power2")
            yield P(n, rng.randrange(1, 7))
            if n % 3 == 0 or n < 40:
                f = nt.fact(n)
                yield S(n, "f")
                yield P(n, None, "is_power", "f", f)
                yield P(n, rng.randrange(1, 5), "is_power", "f", f)
                yield {"op": "is_squarefree", "in": {"n": big(n), "form": "f", "f": f}}
        else:
            yield P(n)
            yield P(n, 3)
    for n in (-4, 1, 4, 7, 64):
        yield P(n, 0)
        yield P(n, -1)
    for n in (1, 2, 4, 12, 36, 64, 97, 900):           # a factorization may carry the unit -1
        f = nt.fact(n)
        yield dict(S(n, "f"), **{"in": dict(S(n, "f")["in"], n=big(-n))})
        for k in (None, 1, 2, 3):
            yield {"op": "is_power", "in": {"n": big(-n), "k": [] if k is None else [k], "c": {}, "form": "f", "f": f}}
    for n in (4, 64, 97):
        yield P(n, 0, "is_power", "f", nt.fact(n))
    # every residue class of the square filters, with roots of all sizes and neighbours
    for i in range(900 * rep):
        r = rng.randrange(1, 10 ** rng.choice([3, 5, 8, 12, 16, 20, 30]))
        yield S(r * r)
        yield S(r * r + rng.choice([-2, -1, 1, 2, r, 2 * r]))
    for r in range(1, 700 if hard else 260):
        yield S((2 ** 26 + r) ** 2 - r % 3)
        yield S((94906265 + r) ** 2 + r % 3 - 1)
    seen = set()
    for r in range(1, 22523):              # every class of squares modulo 64 and modulo 45045
        if r * r % 45045 not in seen or r < 65:
            seen.add(r * r % 45045)
            yield S((r + 45045 * rng.randrange(0, 1000)) ** 2)
    # squares with a prescribed root residue (the largest classes of the tables)
    for r in list(range(22515, 22530)) + list(range(45030, 45050)) + [31, 32, 33, 63, 64, 65]:
        for t in (0, 1, 10 ** 6):
            yield S((r + 45045 * 64 * t) ** 2)
    for b in (2, 3, 5, 6, 7, 10, 12, 15, 30, 97, 1000, 1001):
        for k in range(1, 70):
            if b ** k < 10 ** 45:
                n = b ** k
                yield P(n)
                if k % 2 == 0:
                    yield P(n, op="is_power2")
                    yield S(n)
                yield P(n, rng.choice([1, 2, 3, 4, 6, k]))
                if k % 3 == 0:
                    yield P(n + 1)
                    yield P(n - 1)
    for i in range(150 * rep):
        b = rng.randrange(2, 10 ** rng.randint(1, 18))
        k = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12])
        while b ** k > 10 ** 60:
            k -= 1
        n = b ** k
        yield P(n)
        yield P(n, rng.randrange(1, 13))
        yield P(n + rng.choice([-1, 1]))
        m = 1
        for _ in range(rng.randint(1, 5)):
            m *= rng.choice(nt.SMALL[:12]) ** rng.choice([1, 2, 2, 3, 4, 6])
        f = nt.fact(m)
        yield P(m, None, "is_power", "f", f)
        yield P(m, rng.choice([1, 2, 3]), "is_power", "f", f)
        yield S(m, "f")
        yield {"op": "is_squarefree", "in": {"n": big(m), "form": rng.choice("nf"), "f": f}}
        q = 1
        for p in rng.sample(nt.SMALL[:40], rng.randint(1, 6)):
            q *= p
        q *= rng.choice([1, 1, nt.random_prime(rng, 2000, 10 ** 7)])
        yield {"op": "is_squarefree", "in": {"n": big(q), "form": "n", "f": nt.fact(q)}}
        p = nt.random_prime(rng, 2000, 10 ** 7)
        yield {"op": "is_squarefree", "in": {"n": big(p * p * 6), "form": "n", "f": nt.fact(p * p * 6)}}
    for k in range(0, 40):
        for d in (-1, 0, 1):
            yield {"op": "is_factorial", "in": {"n": big(factorial(k) + d)}}
        yield {"op": "is_factorial", "in": {"n": big(2 * factorial(k))}}
