import itertools
from harness.enc import *
from harness import nt
from rosemary.number_theory.primes import sieves as S

M1 = 46337
smalls = seq(small)


def summary(it):
    n = s1 = s2 = 0
    inc = True
    last = 0
    head, tail = [], []
    for p in it:
        small(p)
        if p <= last:
            inc = False
        last = p
        n += 1
        s1 += p
        s2 += p * p
        if n <= 20:
            head.append(p)
        tail.append(p)
        if len(tail) > 40:
            del tail[:20]
    return [n, s1 % M1, s2 % M1, inc, head, tail[-20:]]


def execute(op, a):
    if op == "primes_first_n":
        return smalls(S.primes_first_n(a["n"]))
    if op.endswith("_large") and op != "prime_range_large":
        return summary(getattr(S, op[:-6])(a["n"]))
    if op == "prime_range":
        return smalls(list(S.prime_range(a["a"], a["b"])))
    if op == "prime_range_upto":
        return smalls(list(S.prime_range(a["b"])))
    if op == "prime_range_large":
        return summary(S.prime_range(a["a"], a["b"]))
    if op == "prime_range_head":
        return smalls(list(itertools.islice(S.prime_range(a["a"], a["b"]), a["k"])))
    if op == "prime_range_interleaved":
        g = [S.prime_range(x, y) for x, y in a["r"]]
        out = [[], []]
        for _ in range(a["k"]):
            for i in range(2):
                out[i].append(small(next(g[i])))
        return out
    if op == "prime_range_window":
        x = unbig(a["a"])
        return [big(p) for p in S.prime_range(x, x + len(a["cs"]))]
    return smalls(getattr(S, op)(a["n"]))


def J(op, **kw):
    return {"op": op, "in": kw}


LISTS = ("primes", "eratosthenes1", "eratosthenes2", "luo", "chartres", "pritchard")


def window(a, k):
    return J("prime_range_window", a=big(a), cs=[nt.certs(n) for n in range(a, a + k)])


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 5 if hard else 1
    for op in LISTS:
        for n in range(-2, 700 if hard else 260):
            yield J(op, n=n)
        for _ in range(12 * rep):
            p = nt.random_prime(rng, 30, 60)
            for n in (p * p - 1, p * p, p * p + 1):
                yield J(op, n=n)
            yield J(op, n=rng.randrange(700, 4000))
        top = 2 * 10 ** 5 if op == "chartres" else 10 ** 6 if op == "pritchard" else 3 * 10 ** 6
        for _ in range(8 * rep):
            yield J(op + "_large", n=rng.randrange(4000, top))
            p = nt.random_prime(rng, 64, int(top ** .5))
            yield J(op + "_large", n=p * p + rng.choice([-1, 0, 1]))
            yield J(op + "_large", n=nt.next_prime(rng.randrange(4000, top // 2)) + rng.choice([0, -1]))
    for n in (999982, 999983, 999984, 1000002, 1000003, 1000004):
        yield J("primes_large", n=n)
    for n in range(-1, 260):
        yield J("primes_first_n", n=n)
    for n in (78496, 78497, 78498, 78499, 78500, 80000) + tuple(rng.randrange(300, 120000) for _ in range(6 * rep)):
        yield J("primes_first_n_large", n=n)
    top = 60 if hard else 36
    for a in range(1, top):
        for b in range(a, top + 5):
            yield J("prime_range", a=a, b=b)
    for b in range(1, 140):
        yield J("prime_range_upto", b=b)
    for i in range(60 * rep):
        a = rng.randrange(1, 10 ** 6)
        if i % 2:
            a = nt.next_prime(a)
        b = a + rng.randrange(0, 300)
        if i % 3 == 0:
            b = nt.next_prime(b)
        yield J("prime_range", a=a, b=b)
    for a in (999900, 999983, 999984, 10 ** 7 - 200):
        for b in (999983, 999984, 1000003, 1000004, 10 ** 7 - 9, 10 ** 7 - 8, 10 ** 7):
            if a <= b < a + 500:
                yield J("prime_range", a=a, b=b)
    # above the cut-off: small start, start around the square root of the end
    b = 10 ** 7 + 1
    for b in (10 ** 7 + 1, 10 ** 7 + 2, 10 ** 8, 10 ** 9 + 7):
        r = int(b ** .5)
        for a in (1, 2, 3, 5, 6, 7, 97, 100, 3119, 3121, r - 40, nt.next_prime(r - 60), r - 1, r, r + 1, r + 2, r + 3, nt.next_prime(r), nt.next_prime(nt.next_prime(r))):
            yield J("prime_range_head", a=a, b=b, k=40)
        if b < 10 ** 8:
            # the root of the end is a prime (or next to one), the start around it
            for _ in range(6 * rep):
                p = nt.random_prime(rng, 3200, 30000)
                e = p * p + rng.choice([0, 1, 2, rng.randrange(2 * p)])
                for a in (p - 2, p - 1, p, p + 1, p + 2):
                    yield J("prime_range_head", a=a, b=e, k=10)
            yield J("prime_range_large", a=rng.choice([2, 3, 1000, 1009]), b=b)
    yield J("prime_range_large", a=10 ** 7 - 3000, b=10 ** 7 + 60000 + rng.randrange(1000))
    for _ in range(4 * rep):
        a = rng.randrange(3200, 2 * 10 ** 7)
        yield J("prime_range_large", a=a, b=max(10 ** 7, a) + rng.randrange(2, 3 * 10 ** 5))
    for _ in range(4 * rep):
        a, c = rng.randrange(1, 10 ** 6), rng.randrange(10 ** 6, 10 ** 7)
        yield J("prime_range_interleaved", r=[[a, 10 ** 7 + 10 ** 5], [c, 2 * 10 ** 7]], k=30)
    for i in range(40 * rep):
        e = rng.randrange(7, 12)
        a = rng.randrange(10 ** e + 100, 10 ** (e + 1))
        p = nt.next_prime(a)
        if i % 4 == 0:
            yield window(p, rng.randrange(1, 80))
        elif i % 4 == 1:
            yield window(p - 20, 20)
        elif i % 4 == 2:
            yield window(p - 20, 21)
        else:
            q = nt.random_prime(rng, 3200, 10 ** 5)
            yield window(q * q - rng.randrange(0, 30), rng.randrange(1, 60)) if q * q > 10 ** 7 + 40 else window(a, 60)
    for k in range(1, 12):
        yield window(10 ** 9 + 1 + rng.randrange(100), k)
        yield window(10 ** 8 + 2 * k, k)
    for d in range(8):
        yield window(10 ** 12 + 39 - d, 1 + d % 4)
