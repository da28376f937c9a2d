from harness.enc import *
from harness import nt
from fractions import Fraction
from rosemary.number_theory import misc as M


def rational(x):
    if isinstance(x, bool) or not isinstance(x, (int, Fraction)):
        raise Bad("not exact: %r" % (x,))
    x = Fraction(x)
    return [big(x.numerator), big(x.denominator)]


def most(v):
    t, n = tup(small, big)(v)
    return [t, n, nt.fact(v[1]) if v[1] > 0 else {"fs": [], "pratt": []}]


def execute(op, a):
    if op == "largest_divisor":
        return big(M.largest_divisor(unbig(a["n"]), unbig(a["b"])))
    if op == "maximize_divisors":
        return most(M.maximize_divisors(unbig(a["b"])))
    return seq(rational)(M.bernoulli_list(a["n"]))


def D(n, b):
    return {"op": "largest_divisor", "in": {"n": big(n), "b": big(b), "f": nt.fact(n)}}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    for n in range(1, 130 if hard else 64):
        for b in range(1, n + 1):
            yield D(n, b)
    for i in range(500 * rep):
        n = 1
        for p in rng.sample(nt.SMALL[:rng.choice([4, 10, 40])], rng.randint(1, 4)):
            n *= p ** rng.choice([1, 1, 2, 3, 5])
        n *= rng.choice([1, 1, 1, nt.random_prime(rng, 2000, 10 ** 7)])
        ds = [1]
        for p, e in nt.factor(n):
            ds = [d * p ** k for d in ds for k in range(e + 1)]
        if len(ds) > 1500:
            continue
        d = rng.choice(ds)
        for b in {d, d - 1, d + 1, rng.randrange(1, n + 1), n - 1, 1}:
            if 1 <= b <= n:
                yield D(n, b)
    tops = list(range(1, 700 if hard else 320)) + [10 ** k for k in range(3, 22 if hard else 15)]
    for i in range(60 * rep):
        tops.append(rng.randrange(1, 10 ** rng.randint(3, 13)))
    for n in (2, 6, 30, 210, 2310, 30030, 510510, 9699690, 223092870, 6469693230, 200560490130, 840, 5040, 55440, 720720, 1441440, 3603600, 73513440, 6983776800, 963761198400):
        tops += [n - 1, n, n + 1]
    tops += [2 ** k + d for k in range(2, 40, 3) for d in (-1, 0, 1)]
    for b in tops:
        yield {"op": "maximize_divisors", "in": {"b": big(b)}}
    for n in list(range(0, 41)) + ([60, 61, 80, 100] if hard else [50]):
        yield {"op": "bernoulli", "in": {"n": n}}
