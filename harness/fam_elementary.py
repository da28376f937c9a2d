from harness.enc import *
from rosemary.number_theory import core as C

bigs = seq(big)
SMALL_PRIMES = [p for p in range(3, 400) if all(p % d for d in range(2, p))]
BIG_PRIMES = [2 ** 31 - 1, 2 ** 61 - 1, 10 ** 9 + 7, 999999999989, 2 ** 89 - 1, 2 ** 127 - 1]


def execute(op, a):
    u = unbig
    if op in ("gcd", "lcm"):
        return big(getattr(C, op)(u(a["x"]), u(a["y"])))
    if op in ("gcd_list", "lcm_list"):
        l = [u(x) for x in a["l"]]
        r = getattr(C, op)(l)
        return [big(r), bigs(l)]
    if op == "ext_gcd":
        return tup(big, big, big)(C.ext_gcd(u(a["x"]), u(a["y"])))
    if op == "inverse_mod":
        return big(C.inverse_mod(u(a["a"]), u(a["m"])))
    if op == "chinese":
        return big(C.chinese(kept([(u(r), u(m)) for r, m in zip(a["r"], a["m"])])))
    if op == "chinese_preconditioned":
        m = kept([u(x) for x in a["m"]])
        data = kept(C.crt_preconditioning_data(m))
        return [big(C.chinese_preconditioned([(u(r), k) for r, k in zip(rs, m)], data)) for rs in a["rs"]]
    if op == "crt_preconditioning_data":
        return tup(small, bigs, bigs, bigs, big)(C.crt_preconditioning_data([u(x) for x in a["m"]]))
    if op == "power_mod":
        return big(C.power_mod(u(a["a"]), u(a["k"]), u(a["m"])))
    if op == "bit_count":
        return small(C.bit_count(u(a["n"])))
    if op == "integer_log":
        return small(C.integer_log(u(a["b"]), u(a["n"])))
    if op == "integer_sqrt":
        return big(C.integer_sqrt(u(a["n"])))
    if op == "integer_nth_root":
        return big(C.integer_nth_root(a["n"], u(a["m"])))
    if op == "jacobi_symbol":
        return small(C.jacobi_symbol(u(a["a"]), u(a["m"])))
    if op == "valuation":
        return small(C.valuation(u(a["p"]), u(a["n"])))
    raise KeyError(op)


def number(rng, digits=40, sign=True):
    """an integer with a size chosen first, often next to a machine limit"""
    k = rng.randint(0, 5)
    if k == 0:
        n = rng.randint(0, 200)
    elif k == 1:
        n = 2 ** rng.choice([15, 16, 31, 32, 52, 53, 60, 62, 63, 64, 100]) + rng.randint(-3, 3)
    else:
        n = rng.randrange(10 ** rng.randint(1, digits))
    return -n if sign and rng.random() < .4 else n


def J(op, **kw):
    return {"op": op, "in": kw}


def coprime_moduli(rng, k, cap):
    from math import gcd
    out = []
    while len(out) < k:
        m = rng.randrange(2, cap)
        if all(gcd(m, x) == 1 for x in out):
            out.append(m)
    return out


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 4 if hard else 1
    if prop == "N01":
        R = range(-14 if hard else -8, 15 if hard else 9)
        for x in R:
            for y in R:
                for op in ("gcd", "lcm", "ext_gcd"):
                    yield J(op, x=big(x), y=big(y))
        for m in range(-2, 40 if hard else 24):
            for x in range(-m - 3, 2 * m + 3):
                yield J("inverse_mod", a=big(x), m=big(m))
        for l in range(1, 4):
            import itertools
            for c in itertools.product(range(-3, 5) if l < 3 else (-4, 0, 1, 6, 9), repeat=l):
                for op in ("gcd_list", "lcm_list"):
                    yield J(op, l=[big(x) for x in c])
        for _ in range(400 * rep):
            g = number(rng, 12)
            x, y = number(rng) * g, number(rng) * g
            for op in ("gcd", "lcm", "ext_gcd"):
                yield J(op, x=big(x), y=big(y))
            m = abs(number(rng)) + 2
            yield J("inverse_mod", a=big(number(rng)), m=big(m))
            f = rng.choice([2, 3, 1, 1])
            yield J("inverse_mod", a=big(number(rng) * f), m=big(m * f))
            l = [number(rng, 15) * rng.choice([1, g, g]) for _ in range(rng.randint(1, 7))]
            for op in ("gcd_list", "lcm_list"):
                yield J(op, l=[big(x) for x in l])
        a, b = 1, 1
        for _ in range(120):
            a, b = b, a + b
            yield J("ext_gcd", x=big(a), y=big(-b))
            yield J("inverse_mod", a=big(a), m=big(b))
    elif prop == "N02":
        from math import gcd, prod
        for m1 in range(1, 9):
            for r1 in range(-m1, 2 * m1 + 1):
                yield J("chinese", r=[big(r1)], m=[big(m1)])
                if m1 > 1:
                    yield J("chinese_preconditioned", rs=[[big(r1)]], m=[big(m1)])
            for m2 in range(1, 9):
                for r1 in range(-1, m1 + 1):
                    for r2 in range(-1, m2 + 1):
                        yield J("chinese", r=[big(r1), big(r2)], m=[big(m1), big(m2)])
                if gcd(m1, m2) == 1 and m1 > 1 and m2 > 1:
                    yield J("crt_preconditioning_data", m=[big(m1), big(m2)])
                    yield J("chinese_preconditioned", m=[big(m1), big(m2)],
                            rs=[[big(x), big(y)] for x in range(-1, m1 + 2) for y in range(-1, m2 + 2)])
        for _ in range(250 * rep):
            k = rng.randint(1, 9) if _ % 12 else rng.randint(10, 20)
            ms = coprime_moduli(rng, k, rng.choice([40, 1000, 10 ** 9, 10 ** 25]) if k < 10 else 10 ** 4)
            res = [[rng.randint(-2 * m, 2 * m) if rng.random() < .6 else rng.choice([0, 1, m - 1, -1, m]) for m in ms] for _ in range(3)]
            yield J("chinese", r=[big(x) for x in res[0]], m=[big(x) for x in ms])
            yield J("crt_preconditioning_data", m=[big(x) for x in ms])
            yield J("chinese_preconditioned", rs=[[big(x) for x in r] for r in res], m=[big(x) for x in ms])
            if k > 1:
                i, j = rng.sample(range(k), 2)
                f = rng.choice([2, 3, 7])
                bad = list(ms)
                bad[i] *= f
                bad[j] *= f
                yield J("chinese", r=[big(x) for x in res[0]], m=[big(x) for x in bad])
    else:
        M = 12 if hard else 7
        for a in range(-1, M):
            for k in range(-1, M):
                for m in range(-1, M):
                    yield J("power_mod", a=big(a), k=big(k), m=big(m))
        for n in range(-70, 600 if hard else 300):
            yield J("bit_count", n=big(n))
            yield J("integer_sqrt", n=big(n))
            for b in (-1, 0, 1, 2, 3, 4, 5, 7, 10):
                yield J("integer_log", b=big(b), n=big(n))
            for k in (0, 1, 2, 3, 4, 5, 9):
                yield J("integer_nth_root", n=k, m=big(n))
        for n in range(-60, 61):
            for p in (-7, -3, -2, 2, 3, 4, 5, 6, 10, 60, 61):
                if n:
                    yield J("valuation", p=big(p), n=big(n))
        for m in range(-1, 80 if hard else 50):
            if m < 0 or m % 2 == 0:
                yield J("jacobi_symbol", a=big(5), m=big(m - 1 if m < 0 else m), ps=[])
                continue
            ps, x, d = [], m, 3
            while x > 1:
                while x % d == 0:
                    ps.append(d)
                    x //= d
                d += 2
            for a in range(-m - 1, m + 2):
                yield J("jacobi_symbol", a=big(a), m=big(m), ps=[big(p) for p in ps])
        for i in range(500 * rep):
            a, k, m = abs(number(rng)), abs(number(rng, 20)), abs(number(rng)) + 1
            if i % 5 == 0:
                a *= m
            if i % 7 == 0:
                k = 0
            yield J("power_mod", a=big(a), k=big(k), m=big(m))
            n = number(rng)
            yield J("bit_count", n=big(n))
            r = abs(number(rng, 25))
            for d in (-1, 0, 1, r, 2 * r):
                yield J("integer_sqrt", n=big(max(0, r * r + d)))
            k = rng.randint(2, 12)
            r = abs(number(rng, 60 // k))
            for d in (-1, 0, 1):
                yield J("integer_nth_root", n=k, m=big(max(0, r ** k + d)))
            yield J("integer_nth_root", n=rng.randint(1, 70), m=big(abs(number(rng, 50))))
            b = rng.choice([2, 3, 5, 10, abs(number(rng, 8)) + 2])
            e = rng.randint(1, 40 if b < 11 else 8)
            for d in (-1, 0, 1):
                yield J("integer_log", b=big(b), n=big(b ** e + d))
            if i % 5 == 0:
                b = rng.choice([2, 2, 3, 4, 10, 16, 255, 256])
                e = rng.randint(30, 700 if b < 4 else 120)
                for d in (-1, 0, 1, b ** e * (b - 1) - 1):
                    yield J("integer_log", b=big(b), n=big(b ** e + d))
                k = rng.choice([2, 3, 5, 7, 13, 31, 64, 100, 150])
                r = rng.choice([1, 2, 3, rng.randrange(2, 50), rng.randrange(2, 2 ** (1 + 500 // k))])
                for d in (-1, 0, 1):
                    yield J("integer_nth_root", n=k, m=big(max(0, r ** k + d)))
                r = rng.getrandbits(rng.randrange(60, 400))
                for d in (-1, 0, 1, 2 * r):
                    yield J("integer_sqrt", n=big(max(0, r * r + d)))
                yield J("bit_count", n=big(rng.choice([1, -1]) * rng.choice([rng.getrandbits(600), 2 ** rng.randrange(50, 600), 2 ** rng.randrange(50, 600) - 1])))
            p = rng.choice([2, 3, 6, 10, abs(number(rng, 6)) + 2]) * rng.choice([1, -1])
            e = rng.randint(0, 20)
            yield J("valuation", p=big(p), n=big(p ** e * (rng.choice([1, -1]) * (abs(number(rng, 6)) + 1))))
            ps = [rng.choice(SMALL_PRIMES) for _ in range(rng.randint(0, 5))]
            if i % 3 == 0:
                ps.append(rng.choice(BIG_PRIMES))
            m = 1
            for p in ps:
                m *= p
            yield J("jacobi_symbol", a=big(number(rng, 30)), m=big(m), ps=[big(p) for p in ps])
        # the fast path for square roots: around squares on both sides of the machine precision
        for bits in range(20, 70):
            for _ in range(2 * rep):
                r = rng.randrange(2 ** ((bits - 1) // 2), 2 ** ((bits + 1) // 2))
                for d in (-1, 0, 1, 2 * r):
                    yield J("integer_sqrt", n=big(r * r + d))
