from harness.enc import *
from rosemary.algebra.matrices.matrices import Matrix, MatrixZZ


def make(f):
    return [[unbig(x) for x in r] for r in f]


def mat(M):
    if not isinstance(M, Matrix):
        raise Bad("not a matrix: %r" % (M,))
    text = repr(M)
    m, n = text.count("\n") + 1, len(text.split("\n")[0].strip("[]").split())
    out = []
    for i in range(m):
        row = M[i]
        if len(row) != n:
            raise Bad("ragged")
        out.append([big(row[j]) for j in range(n)])
        for j in range(n):
            if M[i, j] != row[j]:
                raise Bad("M[i, j] differs from M[i][j]")
    return out


def execute(op, a):
    K = MatrixZZ if a.get("zz") else Matrix
    if op == "zero":
        return mat(K(a["m"]) if a["m"] == a["n"] and a["short"] else K(a["m"], a["n"]))
    if op == "set_zero":
        M = K(a["m"]) if a["m"] == a["n"] and a["short"] else K(a["m"], a["n"])
        M[a["i"] - 1, a["j"] - 1] = unbig(a["s"])
        return mat(M)
    src = make(a["f"])
    F = K(src)
    G = None
    if "g" in a:
        G = F if a.get("same") else K(make(a["g"]))
    s = unbig(a["s"]) if "s" in a else None
    i, j = a.get("i", 0) - 1, a.get("j", 0) - 1
    if op == "construct":
        t = mat(K(tuple(tuple(r) for r in src)) if a.get("tup") else F)
        src[0][0] += 1
        if mat(F) != a["f"]:
            raise Bad("shares the list it was built from")
        return t
    if op == "show":
        return repr(K([list(r) for r in a["small"]]))
    if op == "get":
        return [big(F[i, j]), mat(F)]
    if op == "row":
        return [bigs(F[i]), mat(F)]
    if op == "set":
        H = F + K(len(src), len(src[0]))
        N = -(-F)
        H[i, j] = s
        return [mat(H), mat(F), mat(N)]
    if op == "set_row":
        F[i] = [unbig(x) for x in a["r"]]
        return mat(F)
    if op == "set_after":
        D = F.delete_row(i)
        E = F.delete_col(j)
        for R in (D, E, F + F, -F, F - F, F * 1, 1 * F, F * G, G * F if len(a["g"][0]) == len(a["f"]) else F * G):
            R[0, 0] = 12345
            R[0][-1] = 54321
        return [mat(F), mat(G)]
    if op == "compose":
        r = F * G - G * F + s * F
        return [mat(r), mat(F), mat(G)]
    if op == "det_product":
        return [big((F * G).determinant()), mat(F), mat(G)]
    two = {"add": lambda: F + G, "radd": lambda: G.__radd__(F), "sub": lambda: F - G, "rsub": lambda: G.__rsub__(F),
           "mul": lambda: F * G, "rmul": lambda: G.__rmul__(F)}
    if op in two:
        r = two[op]()
        return [mat(r), mat(F), mat(G)]
    one = {"neg": lambda: -F, "mul_scalar": lambda: F * s, "scalar_mul": lambda: s * F, "add_scalar": lambda: F + s,
           "scalar_add": lambda: s + F, "sub_scalar": lambda: F - s, "scalar_sub": lambda: s - F,
           "delete_row": lambda: F.delete_row(i), "delete_col": lambda: F.delete_col(j if "j" in a else i),
           "minor": lambda: F.delete_row(i).delete_col(j)}
    if op == "det":
        d = F.determinant()
        if F.determinant() != d:
            raise Bad("second determinant differs")
        return [big(d), mat(F)]
    return [mat(one[op]()), mat(F)]


def J(op, f=None, g=None, s=None, **kw):
    if f is not None:
        kw["f"] = [[big(x) for x in r] for r in f]
    if g is not None:
        kw["g"] = [[big(x) for x in r] for r in g]
    if s is not None:
        kw["s"] = big(s)
    return {"op": op, "in": kw}


def mulm(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    rep = 8 if hard else 3
    scalars = (0, 1, -1, 7, 10 ** 20)

    def rnd(m, n, size=None):
        size = size or rng.choice([1, 2, 9, 9, 1000, 10 ** 12])
        k = rng.randrange(3)
        return [[rng.randrange(-size, size + 1) if k or rng.random() < 0.5 else 0 for _ in range(n)] for _ in range(m)]

    def singular(n):
        k = rng.randrange(4)
        A = rnd(n, n, 9)
        if k == 0:
            r = rng.randrange(n)
            for row in A:
                row[r] = 0
        elif k == 1 and n > 1:
            i, j = rng.sample(range(n), 2)
            A[i] = [rng.choice([1, -2, 3]) * x for x in A[j]]
        elif k == 2 and n > 1:
            A = mulm(rnd(n, n - 1, 5), rnd(n - 1, n, 5))
        else:
            A[rng.randrange(n)] = [0] * n
        return A

    def zeros_ahead(n):
        """leading minors vanish, so rows must be exchanged at various steps"""
        A = rnd(n, n, 5)
        for k in range(n):
            if rng.random() < 0.5:
                for i in range(rng.randrange(1, n + 1)):
                    A[(k + i) % n][k] = 0
        return A

    def permutation(n):
        p = list(range(n))
        rng.shuffle(p)
        return [[rng.choice([1, -1, 3]) if p[i] == j else 0 for j in range(n)] for i in range(n)]

    for m in range(1, 5):
        for n in range(1, 5):
            for short in (False, True):
                yield J("zero", m=m, n=n, short=short)
                yield J("set_zero", m=m, n=n, short=short, i=rng.randrange(1, m + 1), j=rng.randrange(1, n + 1), s=5)
    import itertools
    bits = [[list(r) for r in itertools.batched(t, 2)] for t in itertools.product((-1, 0, 2), repeat=4)]
    for f in bits:
        yield J("det", f)
    for t in itertools.product((0, 1), repeat=9):
        if hard or rng.random() < 0.3:
            yield J("det", [list(r) for r in itertools.batched(t, 3)])
    shapes = [(m, n) for m in range(1, 5) for n in range(1, 5)]
    for m, n in shapes:
        for p, q in shapes:
            if (m, n) == (p, q) or n == p or rng.random() < 0.25:
                f, g = rnd(m, n), rnd(p, q)
                for op in ("add", "sub", "mul", "radd", "rsub", "rmul"):
                    yield J(op, f, g, zz=rng.randrange(2))
    for i in range(60 * rep):
        m, n, q = rng.randrange(1, 6), rng.randrange(1, 6), rng.randrange(1, 6)
        f, g, h = rnd(m, n), rnd(m, n), rnd(n, q)
        for op in ("add", "sub", "radd", "rsub"):
            yield J(op, f, g)
        for op in ("mul", "rmul"):
            yield J(op, f, h)
        yield J("neg", f)
        for op in ("mul_scalar", "scalar_mul"):
            yield J(op, f, s=rng.choice(scalars))
        for op in ("add_scalar", "scalar_add", "sub_scalar", "scalar_sub"):
            if i < 8:
                yield J(op, f, s=rng.choice(scalars))
        yield J("construct", f, tup=rng.randrange(2), zz=rng.randrange(2))
        yield J("get", f, i=rng.randrange(1, m + 1), j=rng.randrange(1, n + 1))
        yield J("row", f, i=rng.randrange(1, m + 1))
        yield J("set", f, i=rng.randrange(1, m + 1), j=rng.randrange(1, n + 1), s=10 ** 15)
        yield J("set_row", f, i=rng.randrange(1, m + 1), r=[big(x) for x in rnd(1, n)[0]])
        if m > 1:
            yield J("delete_row", f, i=rng.randrange(1, m + 1))
        if n > 1:
            yield J("delete_col", f, i=rng.randrange(1, n + 1))
        if m > 1 and n > 1:
            yield J("minor", f, i=rng.randrange(1, m + 1), j=rng.randrange(1, n + 1))
            yield J("set_after", f, h, i=rng.randrange(1, m + 1), j=rng.randrange(1, n + 1))
        w = [[rng.choice([0, -1, 7, -12, 345, 10 ** rng.randrange(8)]) for _ in range(n)] for _ in range(m)]
        yield J("show", w, small=w)
        k = rng.randrange(1, 5)
        A, B = rnd(k, k), rnd(k, k)
        yield J("compose", A, B, s=rng.choice(scalars))
        yield J("compose", A, A, s=rng.choice(scalars), same=1)
        for op in ("add", "sub", "mul"):
            yield J(op, A, A, same=1)
        if m != n:
            yield J("det", f)
    for i in range(90 * rep):
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6] + ([8, 9] if hard else []))
        yield J("det", rnd(n, n))
        yield J("det", singular(n))
        yield J("det", zeros_ahead(n))
        yield J("det", permutation(n))
        yield J("det_product", zeros_ahead(n), rnd(n, n, 9))
    for n in (7, 8):
        yield J("det", [[(i * j + i + 1) % 7 - 3 for j in range(n)] for i in range(n)])
        yield J("det", permutation(n))
        yield J("det", [[x ** k for k in range(n)] for x in range(1, n + 1)])
