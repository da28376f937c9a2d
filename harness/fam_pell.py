from harness.enc import *
from harness import nt
from itertools import islice
from math import gcd, isqrt
from io import StringIO
from contextlib import redirect_stdout
from rosemary.number_theory.diophantine_equations import pell as P

pair = tup(big, big)


def execute(op, a):
    d, n = unbig(a["d"]), unbig(a["n"])
    if op == "fundamental":
        return pair(P.pell_fundamental_solution(d) if n == 1 and a.get("short") else P.pell_fundamental_solution(d, n))
    if op == "resolvent":
        return pair(P.PellEquation(d, n).resolvent_solution())
    if op == "minimal":
        return seq(pair)(P.pell_minimal_positive_solutions(d, n))
    if op == "generate":
        return seq(pair)(P.pell_solution_generator(d, n, unbig(a["b"])))
    if op == "farey":
        with redirect_stdout(StringIO()):                # it prints every fraction it visits
            return pair(P.farey(d, n))
    return seq(pair)(islice(P.pell_small(d, n), a["k"]))


def J(op, d, n, **kw):
    return {"op": op, "in": dict({"d": big(d), "n": big(n), "r": big(isqrt(max(d, 0)))}, **kw)}


def cycle(d):
    """period and fundamental unit"""
    r = isqrt(d)
    p, q, a = 0, 1, r
    x0, x1, y0, y1 = 1, r, 0, 1
    L = 0
    while True:
        p = a * q - p
        q = (d - p * p) // q
        L += 1
        if q == 1 and x1 * x1 - d * y1 * y1 == 1:
            return L, x1, y1
        a = (r + p) // q
        x0, x1 = x1, a * x1 + x0
        y0, y1 = y1, a * y1 + y0


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    ds = [d for d in range(2, 400) if isqrt(d) ** 2 != d]
    units = {d: cycle(d) for d in ds}
    for d in range(-3, 700 if hard else 260):
        yield J("fundamental", d, 1, short=d % 2)
        yield J("fundamental", d, -1)
        if d % 4 == 1 or d < 20:
            yield J("resolvent", d, 1 if d % 3 else -1)
    for d in (5, 12, 16, 61):
        for n in (-2, 0, 2, 3):
            yield J("fundamental", d, n)
            yield J("resolvent", d, n)
    for i in range(60 * rep):
        d = rng.randrange(400, 10 ** rng.choice([3, 4, 4, 5]))
        if isqrt(d) ** 2 != d and cycle(d)[0] < 160:
            yield J("fundamental", d, rng.choice([1, -1]))
            yield J("resolvent", d, rng.choice([1, -1]))
    for k in range(2, 24):      # x^2 - D y^2 = -1 with D = k^2 + 1, and other short periods
        for d in (k * k + 1, k * k - 1, k * k + 2, k * k - 2, k * k + k, 4 * k * k + 4, 5 * k * k):
            if d > 1 and isqrt(d) ** 2 != d and cycle(d)[0] < 100:
                yield J("fundamental", d, 1)
                yield J("fundamental", d, -1)
    lim = 1 << 30
    # classes: all small N for small units, squares, multiples of D and of squares in particular
    for d in ds[:40 if hard else 17]:
        L, u, v = units[d]
        top = 60 if hard else 26
        for n in range(-top, top + 1):
            if n and u * abs(n) < lim // 8:
                if (u + 1) * abs(n) < 3 * 10 ** 6 or rng.random() < 0.1:
                    yield J("minimal", d, n, p=[])
                    yield J("generate", d, n, b=big(rng.choice([20, 300, 10 ** 4, 10 ** 8, 10 ** 25])), p=[])
    for i in range(150 * rep):
        d = rng.choice(ds)
        L, u, v = units[d]
        k = rng.randrange(1, 12)
        n = rng.choice([k * k, -d * k * k, d * d - d * k * k, rng.randrange(-300, 300), u * u - d * rng.randrange(1, 5) ** 2, -d, d * k, 1, -1, 4, -4])
        x, y = rng.randrange(0, 40), rng.randrange(0, 12)
        if i % 2:
            n = x * x - d * y * y
        if n and (u + 1) * abs(n) < 2 * 10 ** 7:
            yield J("minimal", d, n, p=[])
            yield J("generate", d, n, b=big(rng.choice([300, 10 ** 4, 10 ** 9, 10 ** 30])), p=[])
    # bounds that are themselves coordinates of a solution
    for i in range(40 * rep):
        d = rng.choice(ds[:20])
        L, u, v = units[d]
        x, y = rng.randrange(1, 25), rng.randrange(1, 9)
        n = x * x - d * y * y
        if n and (u + 1) * abs(n) < 2 * 10 ** 6:
            for _ in range(rng.randrange(1, 5)):
                x, y = x * u + d * y * v, x * v + y * u
            for b in (x - 1, x, y):
                yield J("generate", d, n, b=big(b), p=[])
    # bounds below and between the coordinates of the least solutions
    for i in range(40 * rep):
        d = rng.choice(ds[:25])
        x, y = rng.randrange(1, 9), rng.randrange(1, 14)
        n = x * x - d * y * y
        if n and (units[d][1] + 1) * abs(n) < 2 * 10 ** 6:
            for b in {0, min(x, y), max(x, y) - 1, max(x, y), rng.randrange(1, 30)}:
                yield J("generate", d, n, b=big(b), p=[])
    # D with many square roots of N modulo D
    for i in range(15 * rep):
        d, u = rng.choice([(120, 11), (168, 13), (528, 23), (840, 29), (1155, 34), (1680, 41), (5040, 71), (7920, 89)])
        x, y = rng.choice([rng.randrange(1, 6 * u), rng.randrange(1, min(d, 800))]), rng.randrange(0, 5)
        n = x * x - d * y * y
        if n and (u + 1) * abs(n) < 2 * 10 ** 7:
            yield J("minimal", d, n, p=[])
            yield J("generate", d, n, b=big(10 ** 9), p=[])
    for i in range(12 * rep):
        d, u = rng.choice([(840, 29), (840, 29), (1680, 41), (5040, 71)])
        x, y = rng.randrange(d // 2, d), rng.randrange(1, 6)
        n = x * x - d * y * y
        if gcd(x, d) == 1 and (u + 1) * n < 10 ** 9:
            yield J("minimal", d, n, p=[])
    # no solution for a quadratic reason, at any size of the unit
    for i in range(30 * rep):
        p = rng.choice(nt.SMALL[2:40])
        d = p * rng.randrange(1, 60)
        n = rng.choice([x for x in range(1, p) if pow(x, (p - 1) // 2, p) == p - 1]) * rng.choice([1, 4, 9])
        n -= p * rng.randrange(0, 3)
        if n and isqrt(d) ** 2 != d:
            yield J("minimal", d, n, p=big(p))
            yield J("generate", d, n, b=big(10 ** 12), p=big(p))
    for p in (1000099, 1000003, 999983):
        n = next(x for x in range(2, p) if pow(x, (p - 1) // 2, p) == p - 1)
        yield J("minimal", p, n, p=big(p))
    for d in (-2, 0, 1, 4, 25):
        yield J("minimal", d, 3, p=[])
        yield J("generate", d, 3, b=big(100), p=[])
        yield J("small", d, 1, k=1, m=4)
    for d in ds[:60 if hard else 40]:
        r = isqrt(d)
        L = units[d][0]
        c = convergents(d, 3 * L + 2)
        for n in range(-r - 2, r + 3):
            if n * n > d:
                yield J("small", d, n, k=1, m=1)
            elif n:
                m = [i for i, (x, y) in enumerate(c) if x * x - d * y * y == n]
                if m:
                    if c[m[0]][1] < 10 ** 12:
                        yield J("farey", d, n, m=m[0] + 1)
                    k = rng.randrange(1, min(len(m), 5) + 1)
                    yield J("small", d, n, k=k, m=m[k - 1] + 1)


def convergents(d, k):
    r = isqrt(d)
    p, q, a = 0, 1, r
    x0, x1, y0, y1 = 1, r, 0, 1
    out = [(x1, y1)]
    while len(out) < k:
        p = a * q - p
        q = (d - p * p) // q
        a = (r + p) // q
        x0, x1 = x1, a * x1 + x0
        y0, y1 = y1, a * y1 + y0
        out.append((x1, y1))
    return out
