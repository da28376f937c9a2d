from harness.enc import *
from harness import nt
from rosemary.number_theory.arithmetic_functions import inverse_functions as I

BADS = {"str": "12", "none": None, "tuple": (2, 3), "neg": [(-1, 1), (2, 2)], "float": 2.5}


def execute(op, a):
    if op == "invalid":
        return seq(small)(I.euler_phi_inverse(BADS[a["x"]]))
    n = a["n"]
    if a["form"] == "f":
        n = kept([tuple(x) for x in a["f"]])
    elif a["form"] == "unit":
        n = [(1, 1)]
    return seq(small)(getattr(I, op)(n))


def V(op, n, form="n"):
    return {"op": op, "in": {"n": n, "form": form, "f": nt.factor(n) if n > 0 else []}}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 8 if hard else 1
    for n in range(1, 2500 if hard else 500):
        yield V("euler_phi_inverse", n)
        yield V("euler_phi_inverse", n, "f")
        yield V("inverse_phi", n)
    for n in range(-4, 1):
        yield V("euler_phi_inverse", n)
    yield V("euler_phi_inverse", 1, "unit")
    for x in BADS:
        yield {"op": "invalid", "in": {"x": x}}
    some = [720, 1440, 2880, 5040, 2 ** 12, 2 ** 16, 2 ** 20, 3 ** 5 * 2, 3 ** 9 * 2, 5 ** 4 * 4, 7 ** 3 * 6, 7 ** 5 * 6, 65536 * 3, 10 ** 4, 10 ** 5, 10 ** 6,
            2 * 3 ** 3 * 7 ** 2, 18 ** 3, 42 ** 3, 110 ** 2, 12 ** 4, 16 * 17 * 3, 2 * 999983, 4 * 999983, 999983, 10 ** 8, 2 * 5 ** 9, 2 * 7 * 7, 2 * 13 ** 3, 2 * 43 * 43, 2 * 47, 47 * 46, 46 * 47 ** 2]
    for i in range(60 * rep):
        p = nt.random_prime(rng, 3, 10 ** rng.randint(1, 4))
        some.append((p - 1) * p ** rng.randrange(0, 2 if p > 500 else 3))
        n = 2
        while rng.random() < 0.75 and n < 10 ** 5:
            n *= rng.choice([2, 2, 3, 3, 5, 7, 11])
        some.append(n)
        some.append(2 * rng.randrange(250, 10 ** 5))
    for n in some:
        if n < 2 * 10 ** 8:
            yield V("euler_phi_inverse", n, rng.choice("nf"))
            yield V("inverse_phi", n)
