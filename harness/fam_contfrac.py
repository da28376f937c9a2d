from harness.enc import *
from itertools import islice
from math import isqrt
from rosemary.number_theory.continued_fractions import QuadraticIrrational as QI


def text(s):
    if not isinstance(s, str):
        raise Bad("not a string")
    return s


def execute(op, a):
    d, p, q = unbig(a["d"]), unbig(a["p"]), unbig(a["q"])
    x = QI(d) if a.get("short") else QI(d, p, q)
    if op == "repr":
        return text(repr(x))
    if op == "period":
        return small(x.period_length)
    if op == "quotients":
        return bigs(islice(x.partial_quotients(), a["n"]))
    if op == "convergents":
        return seq(tup(big, big))(islice(x.convergents(), a["n"]))
    g = x.partial_quotients()
    h = x.convergents()
    for _ in range(a["skip"]):
        next(g)
        next(h)
        next(x.partial_quotients())
    return bigs(islice(g, a["n"] - a["skip"]))


def state_count(d, p, q):
    """number of states until the first repetition"""
    if (d - p * p) % q:
        P, Q, D = abs(q) * p, abs(q) * q, q * q * d
    else:
        P, Q, D = p, q, d
    r = isqrt(D)
    seen = {}
    n = 0
    while (P, Q) not in seen:
        seen[P, Q] = n
        a = (P + r) // Q if Q > 0 else (P + r + 1) // Q
        P = a * Q - P
        Q = (D - P * P) // Q
        n += 1
    return n, n - seen[P, Q], D


def J(op, d, p=0, q=1, n=30, **kw):
    D = d if (d - p * p) % q == 0 else q * q * d
    return {"op": op, "in": dict({"d": big(d), "p": big(p), "q": big(q), "n": n, "r": big(isqrt(D)), "rd": big(isqrt(d))}, **kw)}


def period_job(d, p, q, cap=700):
    n, L, D = state_count(d, p, q)
    return [J("period", d, p, q, n + 1)] if n < cap else []


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    square = {k * k for k in range(2000)}
    for d in range(2, 60 if hard else 24):
        for p in range(-6, 7):
            for q in (-6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6):
                if d in square:
                    if p in (0, 3) and q in (1, -2):
                        yield J("quotients", d, p, q)
                    continue
                if hard or rng.random() < 0.45:
                    yield J("quotients", d, p, q, rng.choice([1, 8, 30, 45]))
                    yield from period_job(d, p, q)
                if rng.random() < 0.2:
                    yield J("repr", d, p, q)
                    yield J("convergents", d, p, q, 25)
                    yield J("again", d, p, q, 40, skip=rng.randrange(1, 30))
    for d in (0, 1, 4, 9, 121, 10 ** 6):
        yield J("quotients", d)
        yield J("quotients", d, 1, 2)
        yield J("repr", d, 1, 2)
    # square roots: whole periods, then beyond
    for d in [x for x in range(2, 900 if hard else 260) if x not in square]:
        n, L, _ = state_count(d, 0, 1)
        yield J("quotients", d, 0, 1, min(2 * n + 5, 160), short=d % 2)
        yield J("period", d, 0, 1, n + 1, short=d % 2)
        yield J("convergents", d, 0, 1, min(n + 4, 30))
        yield J("again", d, 0, 1, min(2 * n + 3, 100), skip=min(2 * n + 2, rng.randrange(1, 99)))
    # scaled expansions, negative denominators, quotients that start negative, big values
    for i in range(220 * rep):
        big_ = 10 ** rng.choice([2, 2, 3, 4, 6])
        d = rng.randrange(2, big_)
        if isqrt(d) ** 2 == d:
            continue
        p = rng.randrange(-300, 300)
        q = rng.choice([1, -1]) * rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 18])
        n, L, D = state_count(d, p, q)
        m = min(n + L + 3, 150)
        yield J("quotients", d, p, q, m)
        if n < 260:
            yield from period_job(d, p, q)
        if i % 4 == 0:
            yield J("convergents", d, p, q, 30)
            yield J("again", d, p, q, 40, skip=rng.randrange(1, 40))
            yield J("repr", d, p, q)
        # the start of a scaled expansion against its unscaled name
        e, s = rng.randrange(2, 12), rng.randrange(2, 7)
        if e not in (4, 9):
            yield J("quotients", e, s * rng.randrange(-3, 4), s * rng.randrange(1, 5), 40)
            yield from period_job(e, s * rng.randrange(-3, 4), s * rng.randrange(1, 5))
    # reduced starts (purely periodic), and denominators dividing d - p^2
    for i in range(60 * rep):
        d = rng.randrange(2, 4000)
        r = isqrt(d)
        if r * r == d:
            continue
        p = rng.randrange(1, r + 1)
        ds = [x for x in range(1, 2 * r + 2) if (d - p * p) % x == 0]
        q = rng.choice(ds)
        n, L, D = state_count(d, p, q)
        if n < 260:
            yield J("period", d, p, q, n + 1)
            yield J("quotients", d, p, q, min(2 * n + 3, 150))
            yield J("quotients", d, p, -q, min(2 * n + 3, 60))
    for i in range(8 * rep):
        d = rng.randrange(10 ** 9, 10 ** 10)       # the whole period is computed by the constructor
        yield J("quotients", d, rng.randrange(-10 ** 6, 10 ** 6), rng.randrange(1, 3), 40)
