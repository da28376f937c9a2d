from harness.enc import *
from harness import nt
from rosemary.number_theory.factorization import algorithms as A
from rosemary.number_theory.factorization import factorization as F

facs = seq(tup(big, small))


def execute(op, a):
    n = unbig(a["n"])
    if op == "factor":
        return facs(F.factor(n, **a["opt"]))
    if op == "factor_back":
        return big(F.factor_back(kept([(unbig(p), e) for p, e in a["l"]])))
    if op == "trial_division":
        b = unbig(a["bound"]) if a["bound"] else None
        return big(A.trial_division(n) if b is None else A.trial_division(n, b))
    if op == "pollard_rho_limited":
        return big(A.pollard_rho(n, a["limit"]))
    if op == "pollard_p_minus_1":
        return big(A.pollard_p_minus_1(n, a["limit"]))
    if op == "cfrac":
        d = A.cfrac(n)
        return [] if d is None else big(d)
    if op == "smooth_factor":
        return seq(small)(A.smooth_factor(n, kept(a["base"])))
    return big(getattr(A, op)(n))


def J(op, n, **kw):
    kw["n"] = big(n)
    return {"op": op, "in": kw}


def W(op, n, **kw):
    f = nt.fact(abs(n)) if n else {"fs": [], "pratt": []}
    return J(op, n, f=f, **kw)


OPTS = ({}, {"skip_trial_division": True}, {"skip_power_detection": False}, {"use_cfrac": True},
        {"skip_power_detection": False, "use_cfrac": True})
PSEUDO = [341550071728321, 3825123056546413051, 318665857834031151167461, 3215031751, 3474749660383]


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 5 if hard else 1
    top = 1200 if hard else 320
    for n in range(-top, top):
        for i, o in enumerate(OPTS):
            if i == 0 or abs(n) < 130 or n % 7 == i:
                yield W("factor", n, opt=o)
    for n in range(2, top):
        yield W("trial_division", n, bound=[])
        yield W("trial_division", n, bound=big(rng.randrange(1, 25)))
        yield W("fermat", n)
        yield W("lehman", n)
        if not nt.is_prime(n):
            for op in ("pollard_rho", "pollard_rho_brent", "cfrac"):
                yield J(op, n)
            yield J("pollard_p_minus_1", n, limit=rng.choice([1, 2, 5, 30]))
            yield J("pollard_rho_limited", n, limit=rng.choice([0, 1, 3, 150]))
    # beyond the table of primes: products of large primes, squares, cubes, pseudoprimes
    P = lambda lo=10 ** 6, hi=10 ** 7: nt.random_prime(rng, lo, hi)
    for i in range(14 * rep):
        p, q, r = P(), P(), P()
        near = nt.next_prime(p)
        ns = [p * q, p * p, p * near, p * p * q, p ** 3, p * q * rng.choice([2, 3, 999983, 12]), (p * 2) ** 2, p * q * r, 4 * p * p * q * q,
              p * p * near, 999983 * p, 999983 ** 2, 1000003 ** 2, 1000003 * 999983, -p * q, -p * p, p ** 4]
        for j, n in enumerate(ns):
            for k, o in enumerate(OPTS):
                if (i + j + k) % 3 == 0 or i == 0:
                    yield W("factor", n, opt=o)
        yield W("factor", p, opt={})
        yield W("factor", P(10 ** 12, 10 ** 14), opt=OPTS[2])
        for n in (p * q, p * p, p * near, 6 * p, p * q * r):
            yield J("pollard_rho", n)
            yield J("pollard_rho_brent", n)
            yield J("cfrac", n)
            yield J("pollard_p_minus_1", n, limit=rng.choice([50, 1000, 10 ** 4]))
            yield J("pollard_rho_limited", n, limit=rng.choice([1, 99, 100, 101, 1000]))
    for n in PSEUDO:
        for o in OPTS:
            yield W("factor", n, opt=o)
    for k in range(2, 60, 3):
        for b in (2, 3, 6, 10, 12, 30, 97):
            for o in (OPTS[0], OPTS[2]):
                if b ** k < 10 ** 40:
                    yield W("factor", b ** k * rng.choice([1, -1]), opt=o)
    for i in range(100 * rep):
        # close factors (Fermat), balanced and unbalanced products (Lehman), squares of primes
        p = nt.random_prime(rng, 1000, 10 ** rng.choice([5, 7, 9]))
        q = nt.next_prime(p + rng.randrange(0, 40))
        yield W("fermat", p * q)
        yield W("fermat", p * p)
        n = rng.randrange(2, 30000)
        yield W("fermat", n)
        m = rng.randrange(2, 10 ** rng.choice([4, 6, 8, 9]))
        yield W("lehman", m)
        s = nt.random_prime(rng, 50, 5000)
        t = nt.random_prime(rng, 50, 5000)
        yield W("lehman", s * t)
        yield W("lehman", s * s)
        yield W("lehman", nt.random_prime(rng, 1000, 10 ** 7))
        c = rng.randrange(2, 1000)
        yield W("lehman", s * c)
        u = nt.random_prime(rng, 2, 10 ** 6)
        v = nt.random_prime(rng, 2, 2 * 10 ** 6)
        yield W("trial_division", u * v, bound=[])
        yield W("trial_division", u * v, bound=big(min(u, v) + rng.choice([-1, 0, 1])))
        l = sorted({nt.random_prime(rng, 2, 10 ** rng.randint(1, 15)): rng.randint(1, 6) for _ in range(rng.randint(0, 4))}.items())
        m = 1
        for p, k in l:
            m *= p ** k
        if i % 3 == 0:
            l = [(-1, 1)] + l
            m = -m
        yield J("factor_back", m, l=[[big(p), k] for p, k in l])
        base = sorted(rng.sample(nt.SMALL[:25], rng.randint(1, 8)))
        if i % 2:
            base = [-1] + base
        m = rng.choice([1, -1])
        for _ in range(rng.randint(0, 12)):
            m *= rng.choice([p for p in base if p > 0])
        if i % 5 == 0:
            m *= rng.choice([101, 103, 2, 3])
        yield J("smooth_factor", m, base=base)
    for i in range(700 * rep):             # both factors beyond the trial division of lehman
        s = nt.random_prime(rng, 50, rng.choice([300, 1000, 5000]))
        t = nt.random_prime(rng, s, min(s * s, 10 * s))
        yield W("lehman", s * t)
    for n in range(-40, 41):
        for base in ([-1], [2], [-1, 2], [2, 3], [-1, 3, 5], [-1, 2, 3, 5, 7]):
            if n:
                yield J("smooth_factor", n, base=base)
    yield J("factor_back", 1, l=[])
    yield J("factor_back", -1, l=[[big(-1), 1]])
    for d in (1000003, 1000033, 1000037, 1000039, 1000081, 1000099, 1000117, 1000121, 1000133):   # first wheel steps beyond the table
        yield W("trial_division", d, bound=[])
        yield W("trial_division", d * d, bound=[])
        yield W("trial_division", d * 1000003, bound=[])
        yield W("trial_division", d * d, bound=big(d - 1))
