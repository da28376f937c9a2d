import itertools
from harness.enc import *
from rosemary.combinatorics.optimization import exact_cover as X

CAP = 20000


def labs(n, kind):
    if kind == 1:
        return {i: "e%d" % (n - i) for i in range(1, n + 1)}
    if kind == 2:
        return {i: (i % 2, i) for i in range(1, n + 1)}
    return {i: i for i in range(1, n + 1)}


def bits(x):
    return [i + 1 for i in range(x.bit_length()) if x >> i & 1]


def execute(op, a):
    if op in ("algorithmx", "algorithm_dlx"):
        lab = labs(a["n"], a.get("lab", 0))
        back = {v: k for k, v in lab.items()}
        shape = {"list": list, "set": set, "tuple": tuple}[a.get("shape", "list")]
        sets = [shape([lab[x] for x in s]) for s in a["sets"]]
        keep = [shape(s) for s in sets]
        target = set(lab.values()) if a.get("tset", 1) else sorted(lab.values())
        kept(target)
        f = getattr(X, op)
        g = f(target, sets)
        other = f(set(target), sets) if a.get("w") else None
        out = []
        for s in g:
            out.append(s)
            if len(out) > CAP:
                raise Bad("too many")
            if other is not None:
                next(other, None)
                next(other, None)
        return [[[sorted(back[x] for x in m) for m in s] for s in out],
                a["sets"] if sets == keep else 0]
    if op == "binary":
        ints_ = [sum(1 << (x - 1) for x in s) for s in a["sets"]]
        kept(ints_)
        E = X.ExactCoverBinary(ints_)
        if a.get("w"):
            F = X.ExactCoverBinary([1, 2, 4, 3])
            n1 = small(E.number_of_solutions())
            F.number_of_solutions()
            s1 = []
            g = F.solutions()
            for s in E.solutions():
                s1.append(s)
                next(g, None)
        else:
            n1 = small(E.number_of_solutions())
            s1 = list(E.solutions())
        n2 = small(E.number_of_solutions())
        s2 = list(E.solutions())
        return [n1, [[bits(v) for v in s] for s in s1], n2, [[bits(v) for v in s] for s in s2]]
    if op == "langford_pairings":
        return small(X.langford_pairings(a["n"]))
    if op == "domino_tilings":
        return small(X.domino_tilings(a["n"]))
    if op == "latin_square_ints":
        return small(X.ExactCoverBinary(X.latin_square_ints(a["n"])).number_of_solutions())
    if op == "sudoku":
        s = X.sudoku_dlx("".join(map(str, a["g"])))
        if not isinstance(s, str):
            raise Bad("not a str")
        return [int(c) for c in s]
    if op == "grid":
        return [int(c) for c in X.to_string(X.parse("".join(map(str, a["g"]))))]


BASE = "123456789456789123789123456231564897564897231897231564312645978645978312978312645"


def scramble(rng):
    g = [[int(c) for c in BASE[9 * i:9 * i + 9]] for i in range(9)]
    p = list(range(1, 10))
    rng.shuffle(p)
    g = [[p[x - 1] for x in r] for r in g]

    def order():
        bands = [0, 1, 2]
        rng.shuffle(bands)
        out = []
        for b in bands:
            t = [0, 1, 2]
            rng.shuffle(t)
            out += [3 * b + x for x in t]
        return out
    ro, co = order(), order()
    g = [[g[r][c] for c in co] for r in ro]
    if rng.random() < .5:
        g = [list(t) for t in zip(*g)]
    return sum(g, [])


def jobs(prop, tier, rng):
    big = tier == "thorough"
    solvers = ("algorithmx", "algorithm_dlx", "binary")

    def cover(n, sets):
        for op in solvers:
            yield {"op": op, "in": {"n": n, "sets": sets, "lab": rng.randint(0, 2), "shape": rng.choice(["list", "set", "tuple"]),
                                    "w": rng.randint(0, 1), "tset": rng.randint(0, 1)}}
    for n in range(0, 4):
        subs = [list(c) for k in range(0, n + 1) for c in itertools.combinations(range(1, n + 1), k)]
        for m in range(0, 4 if n < 3 else 3):
            for fam in itertools.combinations_with_replacement(subs, m):
                fam = list(fam)
                rng.shuffle(fam)
                yield from cover(n, fam)
    for n, k in [(3, 8), (4, 16)]:
        subs = [list(c) for j in range(0, n + 1) for c in itertools.combinations(range(1, n + 1), j)]
        yield from cover(n, subs)
    for n in (5, 6):        # columns met by many sets
        subs = [list(c) for j in range(1, n + 1) for c in itertools.combinations(range(1, n + 1), j)]
        if n == 6 and not big:
            subs = rng.sample(subs, 40)
        rng.shuffle(subs)
        yield from cover(n, subs)
    for n in (10, 13):      # one column in which every set lies
        sets = [[1] + sorted(rng.sample(range(2, n + 1), rng.randint(0, 3))) for _ in range(18)] + [[x] for x in range(2, n + 1)]
        yield from cover(n, sets)
    for i in range(60 if big else 15):      # large universes
        n = rng.choice([20, 33, 52, 53, 54, 63, 64, 65, 66, 90, 130])
        sets = []
        p = list(range(1, n + 1))
        rng.shuffle(p)
        while p:
            k = min(len(p), rng.randint(4, 18))
            sets.append(sorted(p[:k]))
            p = p[k:]
        for _ in range(3):      # merged and split blocks give further covers
            a, b = rng.sample(sets, 2)
            if not set(a) & set(b):
                sets.append(sorted(a + b))
            c = rng.choice(sets)
            k = rng.randint(1, len(c))
            sets += [s for s in (c[:k], c[k:]) if s]
        for _ in range(4):
            sets.append(sorted(rng.sample(range(1, n + 1), rng.randint(1, 9))))
        if i % 5 == 0:
            sets.pop(0)
        rng.shuffle(sets)
        yield from cover(n, sets)
    for _ in range(2000 if big else 350):
        n = rng.randint(3, 9)
        sets = []
        for _ in range(rng.randint(1, 3)):      # planted partitions, then noise
            p = list(range(1, n + 1))
            rng.shuffle(p)
            while p:
                k = min(len(p), rng.randint(1, 4))
                sets.append(sorted(p[:k]))
                p = p[k:]
        for _ in range(rng.randint(0, 5)):
            sets.append(sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 4)))))
        rng.shuffle(sets)
        yield from cover(n, sets[:14])
    for n in range(1, 10 if big else 9):
        yield {"op": "langford_pairings", "in": {"n": n}}
    for n in range(1, 9 if big else 8):
        yield {"op": "domino_tilings", "in": {"n": n}}
    for n in range(1, 5):
        yield {"op": "latin_square_ints", "in": {"n": n}}
    for _ in range(200 if big else 40):
        g = scramble(rng)
        yield {"op": "grid", "in": {"g": g}}
        k = rng.randint(28, 60)
        given = set(rng.sample(range(81), k))
        p = [d if i in given else 0 for i, d in enumerate(g)]
        yield {"op": "sudoku", "in": {"g": p, "feasible": True}}
        if rng.random() < .4:
            i = rng.choice(sorted(given))
            r, c = divmod(i, 9)
            q = list(p)
            mates = [j for j in given if j != i and (j // 9 == r or j % 9 == c or (j // 27 == i // 27 and (j % 9) // 3 == c // 3))]
            if mates:
                q[i] = q[rng.choice(mates)]
                yield {"op": "sudoku", "in": {"g": q, "feasible": False}}
    known = ["530070000600195000098000060800060003400803001700020006060000280000419005000080079",
             "000000907000420180000705026100904000050000040000507009920108000034059000507000000",
             "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
             "0" * 81]
    for s in known:
        yield {"op": "sudoku", "in": {"g": [int(c) for c in s], "feasible": True}}
