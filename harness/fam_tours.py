import itertools, math, random
from harness.enc import *
from rosemary.combinatorics.optimization import tsp as T
from rosemary.combinatorics.optimization.genetic_tsp import TravelingSalesman

LIMITS = {"simulated_annealing_two_opt": 150, "g_solve": 60}
SC = 1000


def scaled(x, a):
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x != x or abs(x) == float("inf"):
        raise Bad("not a length: %r" % (x,))
    if a["tol"] == 0:
        if x != int(x):
            raise Bad("not integral: %r" % (x,))
        return small(int(x))
    return small(round(x * SC))


def path(p):
    return [small(x) + 1 for x in p]


def result(r, a):
    if len(r) != 2:
        raise Bad("shape %r" % (r,))
    return [scaled(r[0], a), path(r[1])]


def execute(op, a):
    n = a["n"]
    if op.startswith("g_"):
        t = TravelingSalesman(kept([tuple(x) for x in a["pts"]]))
        if op == "g_cost":
            return scaled(t.cost([x - 1 for x in a["p"]]), a)
        if op == "g_two_opt":
            return result(t.two_opt([x - 1 for x in a["p"]]), a)
        if op == "g_select":
            return [result(r, a) for r in t.select(a["k"])]
        if op == "g_mgkrec":
            return [result(r, a) for r in t.mgkrec([x - 1 for x in a["p"]], [x - 1 for x in a["q"]])]
        if op == "g_solve":
            return result(t.solve(a["pop"], a["gens"]), a)
    if op == "random_two_opt":
        p = [x - 1 for x in a["p"]]
        q = T.random_two_opt(p)
        return [path(q), path(p)]
    if "pts" in a:
        args = ([tuple(x) for x in a["pts"]],)
    else:
        inf = float("inf")
        m = [[(inf if a["diag"] else 0) if i == j else a["D"][i][j] for j in range(n)] for i in range(n)]
        # the points then only name the vertices; their own distances must not matter
        args = ([(7 * i % 5, 3 * i % 7) for i in range(n)], m)
    for x in args:
        kept(x)
    if op == "matrix":
        m = T.euclidean_distance_matrix(*args)
        return [[-1 if m[i][j] == float("inf") else scaled(m[i][j], a) for j in range(len(m[i]))] for i in range(len(m))]
    if op == "farthest_insertion_edges":
        return [[small(u) + 1, small(v) + 1] for u, v in T.farthest_insertion(*args, edges=True)]
    return result(getattr(T, op)(*args), a)


def points(rng, n):
    kind = rng.randint(0, 4)
    if kind == 0:
        p = [[rng.randint(0, 3), rng.randint(0, 3)] for _ in range(n)]      # coincident points
    elif kind == 1:
        p = [[rng.randint(0, 50), 0] for _ in range(n)]                     # collinear
    elif kind == 2:
        p = [[rng.uniform(0, 100), rng.uniform(-50, 50)] for _ in range(n)]
    elif kind == 3:
        p = [[round(50 * math.cos(2 * math.pi * i / n), 3), round(50 * math.sin(2 * math.pi * i / n), 3)] for i in range(n)]
        rng.shuffle(p)
    else:
        p = [[rng.randint(0, 100), rng.randint(0, 100)] for _ in range(n)]
    return p


def pt_in(pts):
    n = len(pts)
    D = [[round(math.hypot(a[0] - b[0], a[1] - b[1]) * SC) for b in pts] for a in pts]
    return {"n": n, "pts": pts, "D": D, "tol": n + 2}


def mat_in(rng, n, w):
    D = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            D[i][j] = D[j][i] = rng.randint(*w)
    return {"n": n, "D": D, "tol": 0, "diag": rng.randint(0, 1)}


EXACT = ("depth_first", "branch_and_bound")
HEUR = ("farthest_insertion", "farthest_insertion_edges", "steepest_ascent_two_opt", "two_opt")


def jobs(prop, tier, rng):
    big = tier == "thorough"
    slow = []
    for i in range(16 if big else 6):
        n = rng.randint(3, 6)
        slow.append({"op": "simulated_annealing_two_opt", "in": pt_in(points(rng, n)) if i % 2 else mat_in(rng, n, (1, 30))})
    yield from slow
    for n in (2, 3, 4):
        for _ in range(40):
            a = mat_in(rng, n, rng.choice([(0, 2), (1, 3), (1, 100), (5, 5)]))
            b = pt_in(points(rng, n))
            for op in EXACT + HEUR:
                yield {"op": op, "in": a}
                yield {"op": op, "in": b}
            yield {"op": "matrix", "in": b}
    for i in range(300 if big else 50):
        n = rng.randint(5, 8 if big else 7)
        a = mat_in(rng, n, rng.choice([(0, 2), (1, 9), (1, 100), (20, 30)]))
        b = pt_in(points(rng, n))
        for op in EXACT + HEUR:
            yield {"op": op, "in": a}
            yield {"op": op, "in": b}
        yield {"op": "matrix", "in": b}
    for i in range(150 if big else 40):
        n = rng.randint(8, 16)
        a = mat_in(rng, n, rng.choice([(0, 3), (1, 50), (1, 1000)]))
        b = pt_in(points(rng, n))
        for op in HEUR:
            yield {"op": op, "in": a}
            yield {"op": op, "in": b}
    for i in range(200):
        n = rng.randint(4, 9)
        p = list(range(1, n + 1))
        rng.shuffle(p)
        yield {"op": "random_two_opt", "in": {"n": n, "p": p}, "seed": rng.randrange(10 ** 6)}
    for i in range(300 if big else 80):
        n = rng.choice([3, 4, 5, 6, 8, 12, 20, 21, 22, 25])
        a = pt_in(points(rng, n))
        p = list(range(1, n + 1))
        rng.shuffle(p)
        q = list(p)
        rng.shuffle(q)
        yield {"op": "g_cost", "in": dict(a, p=p)}
        yield {"op": "g_two_opt", "in": dict(a, p=p)}
        if n >= 20:
            yield {"op": "g_mgkrec", "in": dict(a, p=p, q=q, k=2), "seed": rng.randrange(10 ** 6)}
        if i % 4 == 0:
            yield {"op": "g_select", "in": dict(a, k=rng.randint(1, 4)), "seed": rng.randrange(10 ** 6)}
    for i in range(40 if big else 12):
        a = pt_in([[rng.randint(0, 200), rng.randint(0, 200)] for _ in range(rng.randint(20, 28))])
        yield {"op": "g_solve", "in": dict(a, pop=rng.choice([2, 2, 4, 3]), gens=rng.randint(0, 6)), "seed": rng.randrange(10 ** 6)}
