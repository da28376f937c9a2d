from harness.enc import *
from harness import nt
from math import gcd, lcm
from rosemary.number_theory import zn_arithmetic as Z


def pairs(f):
    return [(unbig(p), e) for p, e in f["fs"]]


def execute(op, a):
    n = unbig(a["n"])
    opt = a.get("opt", 0)
    if op == "multiplicative_order":
        x = unbig(a["a"])
        if opt:
            phi = euler(n)
            kw = {"phi": phi}
            if opt == 2:
                kw["phi_divisors"] = kept(divisors(phi))
            return big(Z.multiplicative_order(x, n, **kw))
        return big(Z.multiplicative_order(x, n))
    if op == "is_primitive_root":
        kw = {}
        if opt:
            kw["phi"] = euler(n)
        if opt == 2:
            kw["phi_divisors"] = kept([unbig(p) for p, _ in a["fphi"]["fs"]])
        return boolean(Z.is_primitive_root(unbig(a["a"]), n, **kw))
    if op == "primitive_root":
        kw = {}
        if opt:
            kw["n_factorization"] = kept(pairs(a["fn"]))
        if opt >= 2:
            kw["phi"] = euler(n)
        if opt == 3:
            kw["phi_divisors"] = kept([unbig(p) for p, _ in a["fphi"]["fs"]])
        return big(Z.primitive_root(n, **kw))
    if op == "fibonacci_primitive_roots":
        return bigs(Z.fibonacci_primitive_roots(n))
    if op == "discrete_log":
        return big(Z.discrete_log(unbig(a["a"]), unbig(a["b"]), n))
    if op == "sqrts_mod_p":
        return bigs(Z.sqrts_mod_p(unbig(a["a"]), n))
    if op == "sqrts_mod_n":
        return bigs(Z.sqrts_mod_n(unbig(a["a"]), n, kept(pairs(a["fn"]))) if opt else Z.sqrts_mod_n(unbig(a["a"]), n))
    if op == "roots_of_unity":
        return bigs(Z.nth_roots_of_unity_mod_p(unbig(a["k"]), n, *([nt.primitive_root(n)] if opt else [])))
    if op == "roots_of_minus1":
        return bigs(Z.nth_roots_of_minus1_mod_p(unbig(a["k"]), n, *([nt.primitive_root(n)] if opt else [])))
    if op == "linear_congruence":
        return bigs(Z.linear_congruence(unbig(a["a"]), unbig(a["b"]), n))
    c = kept([unbig(x) for x in a["c"]])
    return bigs(Z.quadratic_congruence(c, n, kept(pairs(a["fn"]))) if opt else Z.quadratic_congruence(c, n))


def euler(n):
    r = 1
    for p, e in nt.factor(n):
        r *= p ** (e - 1) * (p - 1)
    return r


def divisors(n):
    ds = [1]
    for p, e in nt.factor(n):
        ds = [d * p ** i for d in ds for i in range(e + 1)]
    return sorted(ds)


def order(a, n):
    d = euler(n)
    for p, e in nt.factor(d):
        while d % p == 0 and pow(a, d // p, n) == 1 % n:
            d //= p
    return d


def Ord(a, n, opt=0):
    c = {}
    if gcd(a, n) == 1:
        d = order(a, n)
        c = {"d": big(d), "fd": nt.fact(d)}
    return {"op": "multiplicative_order", "in": dict(c, a=big(a), n=big(n), opt=opt)}


def Gen(a, n, opt=0):
    return {"op": "is_primitive_root", "in": {"a": big(a), "n": big(n), "opt": opt if n > 1 else 0,
            "fn": nt.fact(n) if n > 0 else {}, "fphi": nt.fact(euler(n)) if n > 0 else {}}}


def PR(n, opt=0):
    return {"op": "primitive_root", "in": {"n": big(n), "opt": opt, "fn": nt.fact(n), "fphi": nt.fact(euler(n))}}


def Fib(p):
    s = []
    for r in (Fibroot(p),):
        s = [] if r is None else big(r)
    return {"op": "fibonacci_primitive_roots", "in": {"n": big(p), "s": s, "fn": nt.fact(p), "fphi": nt.fact(p - 1)}}


def sqrt_p(a, p):
    """a square root modulo the odd prime p by Cipolla's algorithm"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    t = 0
    while pow(t * t - a, (p - 1) // 2, p) != p - 1:
        t += 1
    w = (t * t - a) % p

    def mul(x, y):
        return ((x[0] * y[0] + x[1] * y[1] * w) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    r, b, k = (1, 0), (t, 1), (p + 1) // 2
    while k:
        if k & 1:
            r = mul(r, b)
        b = mul(b, b)
        k >>= 1
    return r[0]


def Fibroot(p):
    if p == 2:
        return None
    r = sqrt_p(5, p)
    return None if r is None else (1 + r) * pow(2, -1, p) % p


def Log(a, b, p, prime=True):
    x = a % p
    d = order(x, p) if prime and x else (1 if prime else None)
    return {"op": "discrete_log", "in": {"a": big(a), "b": big(b), "n": big(p), "d": [] if d is None else big(d),
            "fd": nt.fact(d or 1), "fn": nt.fact(p) if prime else {"fs": [], "pratt": []}}}


def Sp(a, p):
    return {"op": "sqrts_mod_p", "in": {"a": big(a), "n": big(p), "fn": nt.fact(p) if p > 1 else {}}}


def Sn(a, n, opt=0):
    return {"op": "sqrts_mod_n", "in": {"a": big(a), "n": big(n), "opt": opt, "fn": nt.fact(n)}}


def RU(k, p, opt=0):
    return {"op": "roots_of_unity", "in": {"k": big(k), "n": big(p), "opt": opt, "fn": nt.fact(p)}}


def RM(k, p, opt=0):
    return {"op": "roots_of_minus1", "in": {"k": big(k), "n": big(p), "opt": opt, "fn": nt.fact(p)}}


def L(a, b, n):
    return {"op": "linear_congruence", "in": {"a": big(a), "b": big(b), "n": big(n)}}


def Q(c, n, opt=0):
    return {"op": "quadratic_congruence", "in": {"c": [big(x) for x in c], "n": big(n), "opt": opt, "fn": nt.fact(n)}}


def n12(hard, rng):
    rep = 6 if hard else 1
    for n in range(1, 130 if hard else 52):
        for a in range(-2, n + 2):
            yield Ord(a, n, (a + n) % 3 if n > 1 else 0)
            yield Gen(a, n, (a * n) % 3)
        if n > 1:
            for o in range(4):
                yield PR(n, o)
    for n in (-4, 0, 1):
        yield Gen(3, n)
    for n in range(130, 900 if hard else 420):
        yield PR(n, n % 4)
        for _ in range(2):
            a = rng.randrange(1, n)
            yield Ord(a, n, rng.randrange(3))
            yield Gen(a, n, rng.randrange(3))
    for p in nt.SMALL[:300 if hard else 130]:
        yield Fib(p)
        g = nt.primitive_root(p) if p > 2 else 1
        yield Gen(g, p)
        yield Gen(g * g, p)
        q = rng.choice(nt.primes_of(p - 1) or [1])
        yield Gen(pow(g, q, p), p)
        yield Ord(pow(g, rng.choice(divisors(p - 1)), p), p)
    for i in range(60 * rep):
        p = nt.random_prime(rng, 2000, 10 ** rng.randint(4, 8 if i % 8 else 12))
        yield Fib(p)
        yield PR(p, rng.randrange(4))
        q = nt.random_prime(rng, 20, 10 ** rng.randint(2, 4))
        yield PR(2 * q * q, rng.randrange(4))
        yield PR(q ** rng.randint(2, 4), rng.randrange(4))
        yield PR(rng.choice([4 * p, 3 * p, p * 5, 2 * p * 7, 30 * p]), rng.randrange(4))
        g = nt.primitive_root(p)
        q = rng.choice(nt.primes_of(p - 1))
        yield Gen(pow(g, q, p), p, rng.randrange(3))
        yield Ord(pow(g, rng.choice(divisors(p - 1)), p), p, rng.randrange(3))
        n = 1
        for _ in range(rng.randint(1, 4)):
            n *= rng.choice(nt.SMALL[:30]) ** rng.randint(1, 3)
        a = rng.randrange(1, n + 5)
        yield Ord(a, n, rng.randrange(3))
        yield Ord(-a, n)
        yield Gen(a, n)
    # primes whose least primitive root is large, powers with an exceptional root (2^(p-1) = 1 mod p^2)
    for p in (41, 71, 191, 409, 2161, 5881, 36721, 55441, 71761, 110881):
        yield PR(p)
        if hard:
            yield PR(p * p)
        yield PR(2 * p)
    for p in (1093, 3511, 11, 20771, 29, 37, 40487, 53471161, 487, 71, 1006003):
        for a in (2, 3, 5, 10, 14):
            if a % p:
                yield Gen(a, p * p)
                yield Gen(a, p ** 3)
                yield Ord(a, p * p)
        yield PR(p * p)
    for p in nt.SMALL[:16 if hard else 9]:
        for a in range(-1, p + 1):
            for b in range(-1, p + 1):
                yield Log(a, b, p)
    for i in range(160 * rep):
        p = nt.random_prime(rng, 24, 10 ** rng.choice([2, 3, 4, 5, 7, 9, 10]))
        g = nt.primitive_root(p)
        h = pow(g, rng.choice(divisors(p - 1)), p)
        a = rng.choice([g, h, h, rng.randrange(1, p)])
        e = rng.choice([1, 2, p - 1, p - 2, rng.randrange(1, p), (p - 1) // 2])
        yield Log(a, pow(a, e, p), p)
        yield Log(a + rng.choice([-p, p]), pow(a, e, p) + rng.choice([-p, p]), p)
        yield Log(a, rng.randrange(0, p), p)
    for i in range(60 * rep):
        n = rng.randrange(4, 5000)
        a = rng.randrange(0, n)
        yield Log(a, pow(a, rng.randrange(1, n), n), n, False)
    # perfect-square neighbours: the number of giant steps is just enough
    for r in range(2, 40 if hard else 22):
        for p in range(r * r - 3, r * r + 4):
            if p > 4 and nt.is_prime(p):
                g = nt.primitive_root(p)
                for e in range(p - 1 - min(p - 2, 2 * r), p):
                    if e > 0:
                        yield Log(g, pow(g, e, p), p)
                for e in range(1, min(2 * r, p - 1)):
                    yield Log(g, pow(g, e, p), p)


def n13(hard, rng):
    rep = 6 if hard else 1
    for p in nt.SMALL[:24 if hard else 14]:
        for a in range(-3, p + 3):
            yield Sp(a, p)
        for k in range(1, 2 * p if p < 20 else 24):
            yield RU(k, p, k % 2)
            yield RM(k, p, k % 2)
    for p in nt.SMALL[14:300 if hard else 90]:
        for _ in range(4):
            yield Sp(rng.randrange(p) if _ else -1, p)
        yield Sp(pow(rng.randrange(1, p), 2, p), p)
        d = rng.choice(divisors(p - 1))
        for k in {d, 2 * d, rng.randrange(1, p)}:
            if gcd(k, p - 1) < 400:
                yield RU(k, p, rng.randrange(2))
                yield RM(k, p, rng.randrange(2))
    for p in (-3, 0, 1):
        yield Sp(10, p)
    for i in range(90 * rep):
        p = nt.random_prime(rng, 2000, 10 ** (rng.choice([5, 6, 8]) if i % 9 else rng.choice([10, 13, 18])))
        yield Sp(rng.randrange(p), p)
        x = rng.randrange(p)
        yield Sp(x * x, p)
        yield Sp(p * rng.randrange(5), p)
        k = rng.randrange(1, 60)
        yield RU(k, p)
        yield RM(k, p)
    # many factors of two in p - 1
    for p in (17, 97, 193, 257, 641, 769, 12289, 40961, 65537, 786433, 5767169, 7340033, 23068673, 104857601, 167772161,
              469762049, 998244353, 3221225473, 2013265921, 75161927681, 77309411329):
        for _ in range(6 * rep):
            x = rng.randrange(1, p)
            yield Sp(x * x, p)
        yield Sp(rng.randrange(1, p), p)
        yield Sp(-1, p)
        yield RU(8, p)
        yield RM(16, p)
    for i in range(4 * rep):
        p = nt.smooth_prime(rng, rng.choice([12, 20, 30]))
        x = rng.randrange(1, p)
        yield Sp(x * x, p)
        yield Sp(x, p)
    for n in range(1, 160 if hard else 73):
        for a in range(-1, n + 1):
            yield Sn(a, n, a % 2)
    for q in [2 ** k for k in range(1, 12)] + [3 ** k for k in range(1, 7)] + [5 ** k for k in range(1, 5)] + [7 ** 3, 7 ** 4, 11 ** 3, 13 ** 3]:
        p = nt.primes_of(q)[0]
        for _ in range(8 * rep):
            x = rng.randrange(q)
            yield Sn(x * x, q, _ % 2)
            x = p ** rng.randrange(0, 6) * rng.randrange(q)
            yield Sn(x * x + rng.choice([0, 0, p, q // p]), q)
            yield Sn(p ** rng.randrange(0, 9) * rng.randrange(q), q)
    for q in (2 ** 15, 2 ** 16, 3 ** 9, 3 ** 10, 5 ** 6, 13 ** 4, 13 ** 5, 101 ** 2, 101 ** 3, 211 ** 2):      # many roots
        p = nt.primes_of(q)[0]
        for v in (0, q // p, q // p ** 2):
            yield Sn(v, q)
    for i in range(60 * rep):      # high powers: long chains of lifts, few roots
        p = rng.choice([2, 2, 2, 3, 5, 7, 11, 101])
        k = rng.randrange(5, max(7, int(140 / p.bit_length() / (1 if i % 4 else 3))))
        q = p ** k
        v = p ** rng.choice([0, 0, 0, 1, 2, 2]) if p < 12 else 1
        x = rng.randrange(1, q) * p + 1 if p == 2 else rng.randrange(1, q) * p + rng.randrange(1, p)
        yield Sn((v * x) ** 2 % q, q, i % 2)
        yield Sn(rng.choice([-1, 1]) * ((v * x) ** 2 % q + rng.choice([q // p, q // p ** 2, q, v * v])), q)
        m = q * rng.choice([1, 3, 15, 1009, 49])
        if p not in (3, 5, 7):
            yield Sn((v * x) ** 2, m)
            a, r, s = rng.choice([1, 2, 3, 4]), rng.randrange(q), rng.randrange(q)
            if i % 3 == 0:
                r = 2 * r + s + 1
            if (r - s) % (4 if p == 2 else p):
                yield Q((a, -a * (r + s), a * r * s), m, i % 2)
                yield Q((a, -a * (r + s), a * r * s + 1), q)
    for i in range(120 * rep):
        n = 1
        for p in rng.sample(nt.SMALL[:12], rng.randint(1, 4)):
            n *= p ** rng.choice([1, 1, 1, 2, 2, 3] if p < 8 else [1, 1, 2])
        if n > 10 ** 7:
            continue
        x = rng.randrange(n)
        c = 1
        for p, e in nt.factor(n):
            c *= p ** (e // 2)
        if c < 300:
            yield Sn(x * x, n, i % 2)
            yield Sn(x, n)
            yield Sn(-x * x, n)
        p, q = nt.random_prime(rng, 2000, 10 ** 9), nt.random_prime(rng, 2000, 10 ** 6)
        m = p * p * rng.choice([1, 4, 8, 16, 15, 49]) * (q if q != p else 1)
        x = rng.randrange(m)
        yield Sn(x * x, m, i % 2)
        yield Sn(x, m, i % 2)
    for n in range(2, 40 if hard else 24):
        for a in range(-2, n + 2):
            for b in (range(-2, n + 2) if n < 14 else [rng.randrange(-n, 2 * n) for _ in range(4)]):
                yield L(a, b, n)
    for n in (-1, 0, 1):
        yield L(10, 3, n)
    for i in range(120 * rep):
        n = rng.randrange(2, 10 ** rng.choice([3, 6, 15, 30]))
        d = rng.choice([1, 2, 6, 30, 49, 200])
        a = rng.randrange(-10 ** 20, 10 ** 20) * d
        yield L(a, rng.randrange(10 ** 25) * rng.choice([1, d]), n * d)
        n2 = rng.randrange(2, 10 ** rng.choice([4, 8, 9, 12]))
        yield L(rng.randrange(-n2, n2), rng.randrange(-10 ** 9, 10 ** rng.choice([7, 8, 9, 10])) * rng.choice([1, d]), n2 * rng.choice([1, d]))
        yield L(rng.randrange(1, n), rng.randrange(n), n)
        m = rng.randrange(2 ** 26, 2 ** rng.choice([27, 28, 29, 32]))       # products a little over 2^53
        yield L(rng.randrange(1, m), rng.randrange(m // 2, m), m)
    for n in range(2, 26 if hard else 17):
        for a in range(-2, 4):
            for b in range(-1, 4):
                for c in (range(-3, 4) if n < 10 else [rng.randrange(-n, n) for _ in range(3)]):
                    yield Q((a, b, c), n, (a + b + c) % 2)
    for i in range(220 * rep):
        n = 1
        for p in rng.sample(nt.SMALL[:9], rng.randint(1, 3)):
            n *= p ** rng.choice([1, 1, 2, 3] if p < 8 else [1, 1, 2])
        if n > 4000:
            continue
        f = rng.choice([1, 1, 2, 3, 4, 6])
        r, s = rng.randrange(n), rng.randrange(n)
        yield Q((f, -f * (r + s), f * r * s), n, i % 2)
        yield Q((rng.randrange(-20, 20), rng.randrange(-50, 50), rng.randrange(-50, 50)), n, i % 2)
    for i in range(60 * rep):
        p = nt.random_prime(rng, 4000, 10 ** rng.choice([4, 5, 7]))
        m = rng.choice([1, 1, 2, 4, 9, 15, 36])
        a = rng.choice([1, 2, 3, 5, 6, 12])
        n = p ** rng.choice([1, 1, 2]) * m
        r, s = rng.randrange(n), rng.randrange(n)
        yield Q((a, -a * (r + s), a * r * s), n, i % 2)
        yield Q((a, r, s), n)


def jobs(prop, tier, rng):
    yield from (n12 if prop == "N12" else n13)(tier == "thorough", rng)
