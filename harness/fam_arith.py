from harness.enc import *
from harness import nt
from rosemary.number_theory.arithmetic_functions import functions as A

BADS = {"str": "12", "none": None, "tuple": (2, 3), "neg": [(-1, 1), (2, 2)], "float": 2.5, "zero": 0, "minus": -6}


def execute(op, a):
    if op == "invalid":
        return big(getattr(A, a["f"])(BADS[a["x"]], *a["k"]))
    if op in ("factorial", "primorial"):
        return big(getattr(A, op)(a["n"]))
    n = unbig(a["n"])
    if a["form"] == "f":
        n = [(unbig(p), e) for p, e in a["f"]["fs"]]
    elif a["form"] == "unit":
        n = [(1, 1)]
    keep = list(n) if isinstance(n, list) else None
    k = [] if a["k"] == 1 and a["plain"] else [a["k"]]
    r = big(getattr(A, a["name"])(n, *k) if op == "divisor_sigma" else getattr(A, a["name"])(n))
    assert keep is None or keep == n
    return r


OPS = ("euler_phi", "moebius_mu", "divisor_sigma", "divisor_tau", "carmichael_lambda")
ALIAS = {"divisor_sigma": "sum_of_divisors", "divisor_tau": "number_of_divisors"}


def V(op, n, form="n", k=1, plain=True, name=None):
    return {"op": op, "in": {"n": big(n), "f": nt.fact(n), "form": form, "k": k, "plain": plain, "name": name or op}}


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 6 if hard else 1
    for n in range(1, 2500 if hard else 420):
        for i, op in enumerate(OPS):
            yield V(op, n)
            yield V(op, n, "f", name=ALIAS.get(op) if n % 3 == 0 else None)
        k = rng.choice([0, 2, 3, 4, 5])
        yield V("divisor_sigma", n, rng.choice(["n", "f"]), k)
    for op in OPS:
        yield V(op, 1, "unit")
        for x in BADS:
            yield {"op": "invalid", "in": {"f": op, "x": x, "k": []}}
    for x in BADS:
        yield {"op": "invalid", "in": {"f": "divisor_sigma", "x": x, "k": [0]}}
        yield {"op": "invalid", "in": {"f": "divisor_sigma", "x": x, "k": [3]}}
    for k in (0, 1, 2, 7):
        yield V("divisor_sigma", 1, "unit", k, False)
        yield V("divisor_sigma", 1, "f", k, False)
        yield V("divisor_sigma", 1, "n", k, False)
    for n in (1, 6, 28):
        yield V("divisor_sigma", n, "n", -1, False)
        yield V("divisor_sigma", n, "f", -2, False)
    for p in (2, 3, 5, 7, 11, 999983, 1000003):
        for e in range(1, 16):
            for op in OPS:
                if p < 20 or e < 5:
                    yield V(op, p ** e, "f" if (e + p) % 2 else "n")
    for i in range(130 * rep):
        n = 1
        for _ in range(rng.randint(1, 6)):
            n *= rng.choice(nt.SMALL[:rng.choice([2, 5, 20, 200])]) ** rng.randint(1, 4)
        if i % 3 == 0:
            n *= nt.random_prime(rng, 10 ** 5, 10 ** rng.choice([6, 9, 12]))
        if i % 7 == 0:
            n = nt.random_prime(rng, 10 ** 6, 10 ** 10) * nt.random_prime(rng, 10 ** 6, 10 ** 10)
        for op in OPS:
            yield V(op, n, rng.choice(["n", "f"]) if n < 10 ** 24 else "f", 1)
        yield V("divisor_sigma", n, rng.choice(["n", "f"]) if n < 10 ** 24 else "f", rng.choice([0, 2, 3, 6]), False)
    for n in range(-3, 140):
        yield {"op": "factorial", "in": {"n": n}}
    for n in (200, 255, 256, 257, 400, 511, 512, 513) + ((1000, 1023, 1024, 1500) if hard else ()):
        yield {"op": "factorial", "in": {"n": n}}
    l = [2] + [p for p in range(3, 8000, 2) if nt.is_prime(p)]
    for n in list(range(-2, 60)) + [100, 167, 168, 169, 200] + ([500, 800] if hard else []):
        yield {"op": "primorial", "in": {"n": n, "top": l[n - 1] if n > 0 else 2}}
