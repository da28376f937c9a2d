from harness.enc import *
from harness import nt
from rosemary.number_theory.primes import primality as P

LIMITS = {"is_prime": 40}


def execute(op, a):
    if op == "lucas_lehmer":
        return boolean(P.lucas_lehmer(a["p"]))
    if op == "random_prime":
        return small(P.random_prime(a["lo"], a["hi"]))
    n = unbig(a["n"])
    if op in ("miller_rabin", "solovay_strassen"):
        return boolean(getattr(P, op)(n, unbig(a["a"])))
    if op.startswith("random_base_"):
        return boolean(getattr(P, op[12:])(n))
    if op.startswith("next_"):
        return big(getattr(P, op)(n))
    return boolean(getattr(P, op)(n))


def J(op, **kw):
    kw.setdefault("n", [0])
    kw.setdefault("c", {"d": [0], "pratt": []})
    return {"op": op, "in": kw}


def N(op, n, **kw):
    return J(op, n=big(n), c=nt.certs(n) if n > 1 else {"d": [0], "pratt": []}, **kw)


def nextp(op, n):
    q = nt.next_prime(max(n, 1))
    k = q - (max(n, 1) + 1)
    return J(op, n=big(n), q=big(q), pratt=nt.pratt(q), gaps=[big(nt.factor(q - i)[0][0]) for i in range(1, k + 1)])


PSEUDO = [341, 561, 645, 1105, 1387, 1729, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4681, 5461, 6601, 8321, 8911, 9, 25, 49, 121, 169, 91, 121,
          703, 1541, 1891, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1093 ** 2, 3511 ** 2,
          1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 118670087467, 4759123141, 1122004669633, 21652684502221,
          9080191, 172947529, 75361, 46657, 512461, 825265, 321197185, 9746347772161]
PASS_ALL = [341550071728321, 3825123056546413051, 318665857834031151167461]
ARNAULT = 1195068768795265792518361315725116351898245581


def carmichael(rng):
    while True:
        k = rng.randrange(1, 10 ** 4)
        a, b, c = 6 * k + 1, 12 * k + 1, 18 * k + 1
        if nt.is_prime(a) and nt.is_prime(b) and nt.is_prime(c):
            return a * b * c


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 5 if hard else 1
    for n in range(-3, 1500 if hard else 400):
        yield N("is_prime", n)
        yield N("miller_rabin_deterministic", n)
        if n > 1:
            yield N("is_probable_prime", n)
        yield nextp("next_prime", n)
        yield nextp("next_probable_prime", n)
    top = 120 if hard else 64
    for n in range(3, top, 2):
        for a in range(1, n + 2):
            if a % n:
                yield N("miller_rabin", n, a=big(a))
                yield N("solovay_strassen", n, a=big(a))
    for n in range(3, 300, 2):
        if nt.is_prime(n):
            for s in range(2):
                yield N("random_base_miller_rabin", n)
                yield N("random_base_solovay_strassen", n)
    # the table of primes ends at 999983
    for n in list(range(999950, 1000060)) + [10 ** 6 + 3, 1000081]:
        for op in ("is_prime", "is_probable_prime", "miller_rabin_deterministic"):
            yield N(op, n)
        if n % 7 == 0 or 999975 < n < 1000004:
            yield nextp("next_prime", n)
            yield nextp("next_probable_prime", n)
    for n in PSEUDO:
        for op in ("is_prime", "is_probable_prime", "miller_rabin_deterministic"):
            yield N(op, n)
        for a in (2, 3, 5, 7, n - 2, n - 1):
            yield N("miller_rabin", n, a=big(a))
            yield N("solovay_strassen", n, a=big(a))
    for n in [9, 15, 21, 49, 91, 341, 561, 1105, 2047, 9409, 10 ** 6 + 3] + PSEUDO[:12]:    # bases beyond the modulus
        for b in (1, 2, 3, n - 1, rng.randrange(1, n), rng.randrange(1, n)):
            for m in (1, 2, rng.randrange(3, 10 ** 6), 10 ** 20):
                yield N("miller_rabin", n, a=big(b + m * n))
                yield N("solovay_strassen", n, a=big(b + m * n))
    for n in PASS_ALL:
        yield N("is_prime", n)
        yield N("is_probable_prime", n)
    for n in PASS_ALL + [ARNAULT]:
        c = {"d": big(24444516448431392447461), "pratt": []} if n == ARNAULT else nt.certs(n)
        yield J("miller_rabin_deterministic", n=big(n), c=c)
        for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
            yield J("miller_rabin", n=big(n), a=big(a), c=c)
    for i in range(60 * rep):
        k = i % 4
        if k == 0:
            n = carmichael(rng)
        elif k == 1:                       # p (2p - 1) style pseudoprimes
            while True:
                p = nt.random_prime(rng, 100, 10 ** 5)
                if nt.is_prime(2 * p - 1):
                    break
            n = p * (2 * p - 1)
        elif k == 2:
            n = nt.random_prime(rng, 1000, 10 ** 6) ** 2
        else:
            n = rng.randrange(10 ** 6, 10 ** 11) | 1
        yield N("is_prime", n)
        yield N("is_probable_prime", n)
        yield N("miller_rabin_deterministic", n)
        for _ in range(4):
            a = rng.randrange(1, n)
            yield N("miller_rabin", n, a=big(a))
            yield N("solovay_strassen", n, a=big(a))
        q = nt.factor(n)[0][0]
        for a in (q, n - q):
            yield N("miller_rabin", n, a=big(a % n or 1))
            yield N("solovay_strassen", n, a=big(a % n or 1))
        p = nt.random_prime(rng, 10 ** 6, 10 ** 11)
        yield N("is_prime", p)
        yield N("is_probable_prime", p)
        yield nextp("next_prime", p - rng.randrange(1, 5))
        yield nextp("next_prime", rng.randrange(10 ** 6, 10 ** 10))
        yield nextp("next_probable_prime", rng.randrange(10 ** 6, 10 ** 18))
    for i in range(6 * rep):
        p = nt.smooth_prime(rng, rng.choice([20, 25, 30, 40] if hard else [20, 24, 28]))
        yield N("miller_rabin_deterministic", p)
        yield N("is_probable_prime", p)
        if i % 6 == 0:
            yield N("random_base_miller_rabin", p)
            yield N("random_base_solovay_strassen", p)
        yield N("miller_rabin", p, a=big(rng.randrange(2, p)))
        yield N("solovay_strassen", p, a=big(rng.randrange(2, p)))
    for p in nt.SMALL[1:]:
        m = 2 ** p - 1
        if p in (3, 5, 7, 13, 17, 19, 31, 61) or (hard and p in (89, 107, 127)):
            yield J("lucas_lehmer", p=p, known=True, mc=nt.certs(m))
        if p in (89, 101, 107) or (hard and p in (103, 127, 137, 149, 199, 227, 521, 607)):
            yield J("lucas_lehmer", p=p, known=False)
        elif p < (1000 if hard else 400):
            d = 193707721 if p == 67 else next((2 * k * p + 1 for k in range(1, 200000) if m % (2 * k * p + 1) == 0), m)
            if d < m:
                yield J("lucas_lehmer", p=p, known=True, mc={"d": big(d), "pratt": []})
    for i in range(150 * rep):
        lo = rng.randrange(0, 1200000)
        hi = nt.next_prime(lo) + rng.choice([0, 0, 1, 50])
        yield J("random_prime", lo=lo, hi=hi)
    for lo, hi in ((0, 2), (1, 2), (2, 2), (2, 3), (3, 3), (999983, 999983), (999984, 1000003)):
        yield J("random_prime", lo=lo, hi=hi)
