from harness.enc import *
from rosemary.algebra.polynomials import polynomials as P, algorithms as L
from rosemary.algebra.power_series import power_series as S

Z = P.PolyZZ


def poly(x):
    if not isinstance(x, P.Polynomial):
        raise Bad("not a polynomial: %r" % (x,))
    return bigs(x.coefficients())


def lst(x):
    if not isinstance(x, (list, tuple)):
        raise Bad("not a list: %r" % (x,))
    return bigs(x)


def execute(op, a):
    if op == "show":
        return str(Z(a["f"], a["x"]))
    if op == "mul_small":
        f, g = list(a["f"]), list(a["g"])
        if a["how"] == "poly":
            F, G = Z(f), Z(g)
            h = (F * G).coefficients()
            return [ints(h), ints(F.coefficients()), ints(G.coefficients())]
        if a["how"] == "kar":
            h = L.mul_karatsuba(f, g)
        elif a["how"] == "classical":
            h = L.mul_classical(f, g)
        elif a["how"] == "ps":
            h = S.ps_mult_karatsuba(f, g)
        else:
            h = S.ps_mult_karatsuba(f, g, int(a["how"]))
        return [ints(h), ints(f), ints(g)]
    f = [unbig(c) for c in a["f"]] if "f" in a else None
    g = [unbig(c) for c in a["g"]] if "g" in a else None
    s = unbig(a["s"]) if "s" in a else None
    k = a.get("k")
    # list functions
    if op in ("mul_classical", "mul_karatsuba", "list_add", "list_subtract"):
        if a.get("same"):
            g = f
        r = getattr(L, op)(f, g)
        return [lst(r), lst(f), lst(g)]
    if op == "power_jcp":
        r = L.power_jcp(f, k)
        return [lst(r), lst(f)]
    if op == "ps_mult_classical":
        return [lst(S.ps_mult_classical(f, g)), lst(f), lst(g)]
    if op == "ps_mult_karatsuba":
        r = S.ps_mult_karatsuba(f, g, k) if k else S.ps_mult_karatsuba(f, g)
        return [lst(r), lst(f), lst(g)]
    if op == "ps_invert":
        return [lst(S.ps_invert(f)), lst(f)]
    if op == "ps_power":
        return [lst(S.ps_power(f, k)), lst(f)]
    if op == "eta":
        return lst(S.eta_series() if a["n"] == 1000 else S.eta_series(a["n"]))
    if op == "delta":
        return lst(S.delta_series(a["n"]))
    if op == "construct":
        F = {"list": lambda: Z(f), "tuple": lambda: Z(tuple(f)), "scalar": lambda: Z(f[0]), "none": lambda: Z(), "named": lambda: P.Polynomial(f, 't')}[a["how"]]()
        return [poly(F), small(F.degree), big(F.lead_coeff)]
    F = Z(f, a.get("x", "x"))
    G = None if g is None else (F if a.get("same") else Z(g))
    if op == "equal":
        return [boolean(F == G), boolean(F != G)]
    if op == "equal_scalar":
        return [boolean(F == s), boolean(F != s)]
    if op == "compose":
        r = (F + G) * (F - G) + F * F - s
        return [poly(r), poly(F), poly(G)]
    if op == "copy":
        c = F.coefficients()
        c[0] += 17
        c.append(5)
        return [poly(F), poly(F)]
    two = {"add": lambda: F + G, "sub": lambda: F - G, "mul": lambda: F * G, "gcd": lambda: F.gcd(G),
           "pseudo": lambda: F.pseudo_quo_rem(G), "quo_rem": lambda: F.quo_rem(G)}
    one = {"neg": lambda: -F, "add_scalar": lambda: F + s, "scalar_add": lambda: s + F, "sub_scalar": lambda: F - s,
           "scalar_sub": lambda: s - F, "mul_scalar": lambda: F * s, "scalar_mul": lambda: s * F, "pow": lambda: F ** k,
           "power_binary": lambda: F.power_binary(k), "primitive_part": lambda: F.primitive_part(),
           "pseudo_scalar": lambda: F.pseudo_quo_rem(s), "quo_rem_scalar": lambda: F.quo_rem(s)}
    num = {"eval": lambda: F(s), "coefficient": lambda: F[k], "content": lambda: F.content()}
    if op in num:
        return [big(num[op]()), poly(F)]
    if op in two:
        r = two[op]()
        v = [poly(F), poly(G)]
    else:
        r = one[op]()
        v = [poly(F)]
    return [[poly(x) for x in r] if isinstance(r, tuple) else poly(r)] + v


def J(op, **kw):
    for k in ("f", "g"):
        if k in kw and op not in ("mul_small", "show"):
            kw[k] = [big(c) for c in kw[k]]
    if "s" in kw:
        kw["s"] = big(kw["s"])
    return {"op": op, "in": kw}


def mul(f, g):
    if not f or not g:
        return []
    out = [0] * (len(f) + len(g) - 1)
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            out[i + j] += a * b
    return out


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 8 if hard else 3

    def coef(m):
        return rng.choice([0, 0, 1, -1, 1, -1, rng.randrange(-m, m + 1)])

    def rnd(n=None, m=None):
        n = rng.randrange(1, 9) if n is None else n
        m = rng.choice([1, 2, 9, 9, 100, 10 ** 9, 10 ** 20]) if m is None else m
        k = rng.randrange(3)
        f = [coef(m) if k else rng.randrange(-m, m + 1) for _ in range(n)]
        if rng.random() < 0.1:
            f += [0] * rng.randrange(1, 3)
        return f

    def nz(n=None, m=None):
        while True:
            f = rnd(n, m)
            if any(f):
                return f

    tiny = [[], [0], [0, 0], [1], [-1], [2], [0, 1], [1, 1], [-1, 1], [1, -1], [0, -2], [1, 0, 1], [-1, 0, 1], [0, 0, 3], [2, 4, -2], [1, 2, 1], [6, 0, 0, -4], [0, 0, 0, 1]]
    if prop == "A01":
        for f in tiny:
            for g in tiny:
                for op in ("add", "sub", "mul", "equal"):
                    yield J(op, f=f, g=g)
                for op in ("mul_classical", "mul_karatsuba", "list_add", "list_subtract"):
                    yield J(op, f=f, g=g)
            for op in ("add", "sub", "mul"):
                yield J(op, f=f, g=f, same=1)
            for op in ("mul_karatsuba", "list_add", "list_subtract"):
                yield J(op, f=f, g=f, same=1)
            yield J("neg", f=f)
            yield J("copy", f=f)
            for how in ("list", "tuple", "named"):
                yield J("construct", f=f, how=how)
            for s in (-3, 0, 1, 2, 10 ** 15):
                for op in ("add_scalar", "scalar_add", "sub_scalar", "scalar_sub", "mul_scalar", "scalar_mul", "eval", "equal_scalar"):
                    yield J(op, f=f, s=s)
            for k in range(0, 7):
                yield J("pow", f=f, k=k)
                yield J("power_binary", f=f, k=k)
                yield J("power_jcp", f=f, k=k)
            yield J("show", f=f, x=rng.choice(["x", "y", "long"]))
        yield J("construct", f=[0, 1], how="none")
        for s in (-5, 0, 7, 10 ** 30):
            yield J("construct", f=[s], how="scalar")
        for i in range(70 * rep):
            f, g = rnd(), rnd()
            for op in ("add", "sub", "mul", "mul_classical", "mul_karatsuba", "list_add", "list_subtract"):
                yield J(op, f=f, g=g)
            # cancellation at the top, in the middle, everywhere
            h = list(g)
            h[rng.randrange(len(h)):] = []
            d = [a + b for a, b in zip(f, h + [0] * len(f))]
            yield J("sub", f=f, g=d)
            yield J("add", f=f, g=[-x for x in d])
            yield J("equal", f=f, g=rng.choice([d, f, f + [0], f[:-1] or [0]]))
            s = rng.choice([0, 1, -1, rng.randrange(-99, 100), rng.randrange(-10 ** 25, 10 ** 25), -f[0], f[0]])
            for op in ("add_scalar", "scalar_add", "sub_scalar", "scalar_sub", "mul_scalar", "scalar_mul", "eval"):
                yield J(op, f=f, s=s)
            yield J("equal_scalar", f=rng.choice([f, [s], [s, 1]]), s=s)
            yield J("neg", f=f)
            yield J("compose", f=f, g=g, s=s)
            yield J("compose", f=f, g=f, s=s, same=1)
            yield J("construct", f=f, how=rng.choice(["list", "tuple", "named"]))
            yield J("coefficient", f=f if f[-1] else f + [1], k=rng.randrange(len(f)))
            b = rnd(rng.randrange(1, 5), rng.choice([1, 2, 9, 1000]))
            b = [0] * rng.choice([0, 0, 0, 1, 3]) + b
            k = rng.randrange(0, 13 if len(b) < 4 else 7)
            for op in ("pow", "power_binary", "power_jcp"):
                yield J(op, f=b, k=k)
            yield J("show", f=rnd(None, rng.choice([1, 12, 10 ** 8])), x=rng.choice(["x", "t"]))
        for k in (1, 2, 3, 31, 32, 33, 64):
            for f in ([1, 1], [-2, 1], [0, 3], [-1], [1, -1]):
                yield J(rng.choice(["pow", "power_binary", "power_jcp"]), f=f, k=k)
        # products across the Karatsuba thresholds
        sizes = [1, 2, 28, 29, 30, 31, 32, 33, 45, 59, 60, 61, 62, 63, 75] + ([90, 119, 120, 121, 123, 150] if hard else [121])
        for m in sizes:
            for n in (sizes if hard else rng.sample(sizes, 5) + [m, 30, 31]):
                if m * n > 30000 or (m * n > 6000 and rng.random() < 0.5):
                    continue
                d = rng.choice([1, 3, 900])
                yield J("mul_small", f=nz(m, d)[:m], g=nz(n, d)[:n], how=rng.choice(["poly", "kar", "kar"]))
        for i in range(6 * rep):
            m, n = rng.choice([(30, 30), (31, 30), (30, 63), (33, 35), (64, 31)])
            yield J(rng.choice(["mul", "mul_karatsuba"]), f=nz(m, 10 ** rng.choice([2, 12, 25])), g=nz(n, 10 ** rng.choice([2, 12])))
        # long polynomials: powers, values, equality, sums
        for i in range(5 * rep):
            n = rng.randrange(40, 130)
            f = nz(n, rng.choice([1, 9, 10 ** 6]))[:n]
            f[-1] = f[-1] or 1
            s = rng.choice([0, 1, -1, 2, -3, 10, 10 ** 6])
            yield J("eval", f=f, s=s)
            yield J("neg", f=f)
            yield J("mul_scalar", f=f, s=s)
            yield J("coefficient", f=f, k=rng.randrange(n))
            g = list(f)
            g[rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)])] += rng.choice([1, -1, 2 ** 64, 10 ** 20])
            yield J("equal", f=f, g=g if i % 3 else list(f))
            for op in ("add", "sub", "list_add", "list_subtract"):
                h = rng.choice([g, nz(rng.randrange(1, 130), 9)])
                yield J(op, f=f, g=h)
                yield J(op, f=h, g=f)
            yield J("copy", f=f)
            yield J("construct", f=f, how=rng.choice(["list", "tuple", "named"]))
        for n in (2, 3, 5, 9, 41, 64, 65, 100):
            f = [1] * n
            for k in sorted({0, 1, n // 2, n - 1}):
                g = list(f)
                g[k] = rng.choice([0, -1, 2])
                yield J("equal", f=f, g=g)
                yield J("equal", f=g, g=f)
        for i in range(4 * rep):
            f = nz(rng.choice([20, 33, 50, 66, 70, 75]), rng.choice([1, 2]))
            for op, k in (("pow", 2), ("power_binary", 2), ("power_jcp", rng.choice([2, 3]))):
                yield J(op, f=f, k=k)
            f = [0] * rng.choice([5, 8, 9, 12, 17, 20]) + nz(rng.randrange(1, 6), 5)
            for op in ("pow", "power_binary", "power_jcp"):
                yield J(op, f=f, k=rng.randrange(1, 7))
        # sparse, and vanishing halves
        for i in range(10 * rep):
            m, n = rng.randrange(30, 70), rng.randrange(30, 70)
            f, g = [0] * m, [0] * n
            for _ in range(3):
                f[rng.randrange(m)] = rng.choice([1, -1, 5])
                g[rng.randrange(n)] = rng.choice([1, -1, 7])
            yield J("mul_small", f=f, g=g, how=rng.choice(["poly", "kar"]))
    elif prop == "A02":
        for f in tiny:
            yield J("content", f=f)
            yield J("primitive_part", f=f)
            for g in tiny:
                yield J("gcd", f=f, g=g)
                if any(g):
                    yield J("pseudo", f=f, g=g)
                    yield J("quo_rem", f=f, g=g)
            for s in (1, -1, 2, -3):
                yield J("pseudo_scalar", f=f, s=s)
                yield J("quo_rem_scalar", f=f, s=s)
        for i in range(90 * rep):
            m = rng.choice([2, 9, 9, 100, 10 ** 12])
            f, g, h = nz(rng.randrange(1, 6), m), nz(rng.randrange(1, 5), m), nz(rng.randrange(1, 5), m)
            c = rng.choice([1, 1, 2, -6, 12, 10 ** 9])
            yield J("content", f=[c * x for x in f])
            yield J("primitive_part", f=[c * x for x in f])
            yield J("pseudo", f=f, g=g)
            yield J("pseudo", f=mul(f, g), g=g)
            yield J("pseudo", f=nz(rng.randrange(4, 9), 9), g=nz(rng.randrange(1, 4), 9))
            p = mul(f, g)
            yield J("quo_rem", f=p, g=g)
            r = nz(rng.randrange(1, len(g) + 1), m)
            q = [x + y for x, y in zip(p, r + [0] * len(p))]
            yield J("quo_rem", f=q, g=g)
            p[rng.randrange(len(p))] += rng.choice([1, -1])
            yield J("quo_rem", f=p, g=g)
            mon = g[:-1] + [rng.choice([1, -1])]
            yield J("quo_rem", f=nz(rng.randrange(1, 9), m), g=mon)
            s = rng.choice([2, -2, 3, 7, 10 ** 6])
            yield J("quo_rem_scalar", f=[s * x for x in f] if i % 3 else f, s=s)
            yield J("pseudo_scalar", f=f, s=s)
            yield J("gcd", f=mul(f, h), g=mul(g, h))
            yield J("gcd", f=[c * x for x in mul(f, h)], g=[rng.choice([4, 6, -9]) * x for x in mul(g, h)])
            yield J("gcd", f=f, g=g)
            yield J("gcd", f=mul(h, mul(h, g)), g=mul(h, f))
        # higher degrees
        for i in range(4 * rep):
            f, g, h = nz(rng.randrange(20, 40), 9), nz(rng.randrange(5, 20), 9), nz(rng.randrange(4, 12), 5)
            yield J("quo_rem", f=mul(f, g), g=g)
            yield J("quo_rem", f=f, g=g[:-1] + [rng.choice([1, -1])])
            p = mul(f, g)
            p[rng.randrange(len(p))] += 1
            yield J("quo_rem", f=p, g=g)
            yield J("pseudo", f=f[:16], g=nz(rng.randrange(2, 12), 9))
            s = rng.choice([2, -3, 10 ** 6])
            yield J("quo_rem_scalar", f=[s * x for x in f], s=s)
            yield J("content", f=[6 * x for x in p])
            yield J("primitive_part", f=[-6 * x for x in p])
            yield J("gcd", f=mul(h, f[:8]), g=mul(h, g[:7]))
            yield J("gcd", f=mul(f, [1, 1]), g=[x * 3 for x in f])
            yield J("gcd", f=[0] * 12 + f[:6], g=[0] * 10 + g[:5])
        # jumps in the degree of the remainders
        add = lambda x, y: [(x[i] if i < len(x) else 0) + (y[i] if i < len(y) else 0) for i in range(max(len(x), len(y)))]
        for i in range(100 * rep):
            # a chain with chosen degrees of the quotients, backwards from the gcd
            a, b = [0], nz(rng.randrange(1, 4), 3)
            for _ in range(rng.randrange(2, 6)):
                a, b = b, add(mul(nz(rng.choice([2, 2, 3, 4, 5]), 3), b), a)
            yield J("gcd", f=b, g=a)
        for i in range(60 * rep):
            n = rng.randrange(5, 9)
            f = [rng.choice([0, 0, 0, 1, -1, 3]) for _ in range(n)] + [rng.choice([1, 2, 3])]
            g = [rng.choice([0, 0, 0, 1, -5, 9]) for _ in range(rng.randrange(3, n))] + [rng.choice([1, 2, 3])]
            h = nz(rng.randrange(1, 4), 3)
            yield J("gcd", f=f, g=g)
            yield J("gcd", f=mul(f, h), g=mul(g, h))
        # x^i f and x^j f' : derivative, the classical example of Knuth and cyclotomic ones
        K = ([-5, 2, 8, -3, -3, 0, 1, 0, 1], [21, -9, -4, 0, 5, 0, 3])
        yield J("gcd", f=K[0], g=K[1])
        yield J("gcd", f=K[1], g=K[0])
        for a in range(1, 13):
            for b in range(1, 13, 1 if hard else 3):
                yield J("gcd", f=[-1] + [0] * (a - 1) + [1], g=[-1] + [0] * (b - 1) + [1])
        for i in range(10 * rep):
            f = mul(nz(2, 5), mul(nz(2, 5), nz(3, 4)))
            f = mul(f, nz(2, 3))
            d = [k * x for k, x in enumerate(f)][1:] or [0]
            yield J("gcd", f=f, g=d)
            e = nz(2, 4)
            ff = mul(e, mul(e, f))
            yield J("gcd", f=ff, g=[k * x for k, x in enumerate(ff)][1:])
    else:
        for n in list(range(1, 60 if not hard else 160)) + [100, 150, 255]:
            yield J("eta", n=n)
        for n in (600, 1000):
            yield J("eta", n=n)
        for n in list(range(1, 12)) + [16, 25] + ([40, 60] if hard else []):
            yield J("delta", n=n)
        for i in range(60 * rep):
            f = rnd(rng.randrange(1, 14), rng.choice([1, 3, 9, 10 ** 6]))
            f[0] = rng.choice([1, -1])
            yield J("ps_invert", f=f)
            yield J("ps_power", f=f, k=-rng.randrange(1, 9))
            yield J("ps_power", f=f, k=rng.randrange(0, 9))
            g = rnd(rng.randrange(1, 10), rng.choice([1, 3, 9, 10 ** 6]))
            g[0] = g[0] or rng.choice([2, -2, 3, 6, -5])
            yield J("ps_power", f=g, k=rng.randrange(0, 9))
            h = rnd(rng.randrange(1, 9))
            yield J("ps_mult_classical", f=f, g=h)
            for k in (0, 2, 3, 4):
                yield J("ps_mult_karatsuba", f=f, g=rng.choice([h, g]), k=k)
        for n in (15, 20, 25, 31, 32, 33, 40, 41, 50, 64, 65):
            f = rnd(n, 3)[:n]
            f += [1] * (n - len(f))
            f[0] = rng.choice([1, -1])
            yield J("ps_invert", f=f)
            yield J("ps_power", f=f, k=rng.choice([-1, -2, 2, 3]))
            yield J("ps_mult_classical", f=f, g=rnd(rng.randrange(1, 9), 9))
            f = [rng.choice([1, -1, 2])] + [0] * rng.randrange(1, n - 5) + rnd(5, 9)[:5]
            f += [0] * (n - len(f))
            yield J("ps_power", f=f, k=rng.randrange(0, 12))
        for f in ([1], [-1], [1, 0, 0], [1, 1], [-1, 2], [1, -1, 0, 0, 0], [1] * 12, [-1] * 7, [1, 0, 5, 0, 0, 0], [1, 2, 3, 4, 5, 6]):
            yield J("ps_invert", f=f)
            for k in range(-6, 7):
                yield J("ps_power", f=f, k=k)
            for g in ([1], [0], [0, 0, 1], [2, 1]):
                for k in (0, 2, 3):
                    yield J("ps_mult_karatsuba", f=f, g=g, k=k)
                yield J("ps_mult_classical", f=f, g=g)
        for k in (12, 24, 25, -24, 48):
            yield J("ps_power", f=[1, -1, -1, 0, 0, 1, 0, 1, 0, 0], k=k)
        for m in range(1, 34 if hard else 15):
            for n in range(1, 34 if hard else 15, 1 if hard else 2):
                yield J("mul_small", f=nz(m, 9)[:m], g=nz(n, 9)[:n], how=str(rng.choice([2, 3, 4, 5, 8])))
        for m in (1, 38, 39, 40, 41, 42, 43, 79, 80, 81, 83):
            for n in (40, 41, rng.choice([39, 80, 81, 83])):
                yield J("mul_small", f=nz(m, 99)[:m], g=nz(n, 99)[:n], how="ps")
