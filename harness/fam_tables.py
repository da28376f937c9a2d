from harness.enc import *
from harness import nt
from rosemary.number_theory.arithmetic_functions import sieves as S
from rosemary.number_theory.arithmetic_functions import sums as U


def execute(op, a):
    n = a["n"] if "n" in a else None
    if op in ("euler_phi_list", "totient_list", "moebius_list", "tau_list"):
        return seq(small)(getattr(S, op)(n))
    if op == "sigma_list":
        return seq(small if a["k"] == 1 else big)(S.sigma_list(n) if a["k"] == 1 and n % 2 else S.sigma_list(n, a["k"]))
    if op == "moebius_range":
        return seq(tup(small, small))(S.moebius_range(n, *a["b"]))
    if op == "far_moebius":
        lo = unbig(a["a"])
        return seq(tup(big, small))(S.moebius_range(lo, lo + len(a["fs"])))
    return big(getattr(U, op)(n))


LISTS = ("euler_phi_list", "totient_list", "moebius_list", "tau_list", "sigma_list")
SUMS = ("moebius_sum", "mertens", "euler_phi_sum", "totient_sum", "euler_phi_weighted_sum", "sigma_sum")


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    T = lambda op, n, k=1: {"op": op, "in": {"n": n, "k": k}}
    for n in range(-2, 400 if hard else 140):
        for op in LISTS:
            yield T(op, n)
        for k in (0, 2, 3, 5, -1):
            if n < 40 or n % 9 == k:
                yield T("sigma_list", n, k)
    for n in [9998, 9999, 10000, 10001, 10002, 12000] + [rng.randrange(1000, 12000) for _ in range(4 * rep)]:
        yield T("sigma_list", n)
    for i in range(12 * rep):
        r = rng.randrange(10, 100)
        for op in LISTS:
            yield T(op, r * r + rng.choice([-1, 0, 1]))
        yield T("sigma_list", rng.randrange(100, 900), rng.choice([0, 2, 3, 4]))
    R = lambda a, *b: {"op": "moebius_range", "in": {"n": a, "b": list(b)}}
    top = 60 if hard else 36
    for a in range(-2, top):
        yield R(a)
        for b in range(-1, top):
            if hard or a < 12 or (a + b) % 3 == 0:
                yield R(a, b)
    for i in range(150 * rep):
        a = rng.randrange(1, 10 ** rng.randint(2, 6))
        r = rng.randrange(2, 300)
        yield R(a, a + rng.randrange(0, 60))
        yield R(max(1, r * r - rng.randrange(0, 30)), r * r + rng.randrange(-1, 4))
        b = rng.randrange(50, 6000)
        yield R(max(1, b - nt.isqrt(b) * rng.randrange(1, 4)), b)
    yield R(1, 4000)
    yield R(3000)
    for a in (10 ** 7, 10 ** 8 + 6, 2 ** 31 - 5, 10 ** 10 - 3)[:4 if hard else 3]:
        yield {"op": "far_moebius", "in": {"a": big(a), "fs": [nt.fact(a + i) for i in range(12)]}}
    U_ = lambda op, n: {"op": op, "in": {"n": n}}
    for op in SUMS:
        for n in range(-2, 600 if hard else 160):
            yield U_(op, n)
    for i in range(30 * rep):
        r = rng.randrange(10, 140)
        for op in SUMS:
            yield U_(op, r * r + rng.choice([-1, 0, 1]))
            yield U_(op, r * (r + 1) + rng.choice([-1, 0, 1]))
            if i % 2 == 0:
                yield U_(op, rng.randrange(100, 40000))
    for i in range(8 * rep):
        for op in ("sigma_sum", "moebius_sum", "euler_phi_sum"):
            yield U_(op, rng.randrange(10 ** 5, 3 * 10 ** 5))
        yield U_("sigma_sum", rng.randrange(10 ** 8, 10 ** 9))
    for op in SUMS:
        yield U_(op, 10 ** 6 if hard else 2 * 10 ** 5)
        yield U_(op, 999 ** 2 - 1 if hard else 399 ** 2 - 1)
