from harness.enc import *
from harness.gens import *
from rosemary.graphs.algorithms import cliques as Q, independent_sets as I, coloring as K


def execute(op, a):
    g, lab, idx = build_edges(a)
    n = a["n"]

    def vs(c):
        return [idx[v] for v in c]

    def sized(r):
        k, c = r
        return [small(k), vs(c)]

    def color(r):
        k, c = r
        if a["map"]:
            if set(c) != set(lab[1:]):
                raise Bad("keys %r" % (c,))
            return [small(k), [small(c[lab[v]]) for v in range(1, n + 1)]]
        return [small(k), [vs(x) for x in c]]

    cl = not a["map"]
    if op in ("bron_kerbosch", "bron_kerbosch_binary", "tomita"):
        return [vs(list(c)) for c in list(getattr(Q, op)(g))]
    if op == "maximal_cliques":
        alg = ["tomita", "bron_kerbosch", "bron_kerbosch_binary", None][a["alg"] % 4]
        return [vs(c) for c in list(Q.maximal_cliques(g, algorithm=alg) if alg else Q.maximal_cliques(g))]
    if op == "maximal_independent_sets":
        return [vs(c) for c in list(I.maximal_independent_sets(g))]
    if op in ("pardalos", "pardalos_binary", "ostergard", "ostergard_binary"):
        return sized(getattr(Q, op)(g))
    if op == "maximum_clique":
        alg = ["ostergard", "pardalos", None][a["alg"] % 3]
        return sized(Q.maximum_clique(g, algorithm=alg) if alg else Q.maximum_clique(g))
    if op == "maximum_weight_clique":
        if a.get("keys"):
            return sized(Q.maximum_weight_clique(g))
        return sized(Q.maximum_weight_clique(g, kept({lab[i + 1]: w for i, w in enumerate(a["vw"])})))
    if op == "is_branch_and_bound":
        return sized(I.branch_and_bound(g))
    if op == "is_greedy":
        return sized(I.greedy(g))
    if op == "is_culberson":
        return sized(I.culberson(g))
    if op == "maximum_independent_set":
        return sized(I.maximum_independent_set(g))
    if op == "dsatur":
        return color(K.dsatur(g, classes=cl))
    if op == "greedy_sequential":
        kw = {"vertices": kept([lab[v] for v in a["seq"]])} if a["seq"] else {}
        return color(K.greedy_sequential(g, passes=a["passes"], classes=cl, **kw))
    if op == "maxis":
        return color(K.maxis(g, classes=cl, color_limit=a["limit"], mis_limit=a["mis"], use_greedy=bool(a["greedy"])))
    if op == "korman":
        return color(K.korman(g, classes=cl))
    if op == "exact_coloring":
        return color(K.exact_coloring(g, classes=cl))
    if op == "co_branch_and_bound":
        return color(K.branch_and_bound(g, classes=cl))


OPS = {"G07": ["bron_kerbosch", "bron_kerbosch_binary", "tomita", "maximal_cliques", "maximal_independent_sets"],
       "G08": ["pardalos", "pardalos_binary", "ostergard", "ostergard_binary", "maximum_clique", "maximum_weight_clique"],
       "G09": ["dsatur", "greedy_sequential", "greedy_sequential", "maxis", "maxis", "korman", "exact_coloring", "co_branch_and_bound"],
       "G10": ["is_branch_and_bound", "is_greedy", "is_culberson", "maximum_independent_set"]}


LARGE = {p: [o for o in OPS[p] if o not in ("korman", "exact_coloring", "co_branch_and_bound", "maxis", "is_culberson", "maximal_independent_sets")] for p in OPS}
CHEAP = ("dsatur", "greedy_sequential", "is_greedy")


def structured(rng, n):
    """graphs with many ties and dense blocks: unions of cliques, complete multipartite, cycles, stars, wheels"""
    kind = rng.randrange(7)
    ps = pairs(n)
    if kind == 0:
        c = [rng.randint(1, 3) for _ in range(n + 1)]
        es = [p for p in ps if c[p[0]] == c[p[1]]]
    elif kind == 1:
        c = [rng.randint(1, 4) for _ in range(n + 1)]
        es = [p for p in ps if c[p[0]] != c[p[1]]]
    elif kind == 2:
        es = [p for p in ps if p[1] - p[0] in (1, n - 1)]
    elif kind == 3:
        es = [p for p in ps if p[0] == 1 or p[1] - p[0] in (1, n - 2)]
    elif kind == 4:
        es = [p for p in ps if (p[1] - p[0]) in (1, 2, n - 1, n - 2)]
    elif kind == 5:
        c = [rng.randint(1, 2) for _ in range(n + 1)]
        es = [p for p in ps if c[p[0]] != c[p[1]] and rng.random() < 0.7]
    else:
        es = [p for p in ps if p[1] - p[0] not in (1, n - 1)]
    if rng.random() < 0.5 and es:
        es = [p for p in es if rng.random() < 0.9]
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    return [sorted((perm[u - 1], perm[v - 1])) + [1] for u, v in es]


def circulant(rng, n):
    """a circulant graph that lost some edges, in a random numbering"""
    steps = {rng.randint(1, n // 2) for _ in range(rng.randint(2, 4))}
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    return [sorted((perm[u - 1], perm[v - 1])) + [1] for u, v in pairs(n)
            if steps & {v - u, n - v + u} and rng.random() < 0.9]


def trifree(rng, n):
    ps = pairs(n)
    rng.shuffle(ps)
    nb = {v: set() for v in range(1, n + 1)}
    es = []
    for u, v in ps:
        if not nb[u] & nb[v]:
            nb[u].add(v)
            nb[v].add(u)
            es.append((u, v))
    return es


def misled(n, es):
    """does colouring by saturation use more colours than some other order of the vertices?"""
    nb = {v: set() for v in range(1, n + 1)}
    for u, v in es:
        nb[u].add(v)
        nb[v].add(u)

    def greedy(pick):
        col = {}
        while len(col) < n:
            u = pick(col)
            used = {col[v] for v in nb[u] if v in col}
            col[u] = next(c for c in range(n) if c not in used)
        return max(col.values()) + 1
    sat = greedy(lambda col: max((u for u in nb if u not in col),
                                 key=lambda u: (len({col[v] for v in nb[u] if v in col}), sum(v not in col for v in nb[u]), u) if col else (len(nb[u]), 0, -u)))

    def fits(k, col):
        if len(col) == n:
            return True
        u = max((u for u in nb if u not in col), key=lambda u: len({col[v] for v in nb[u] if v in col}))
        used = {col[v] for v in nb[u] if v in col}
        for c in range(min(k, max(col.values(), default=-1) + 2)):
            if c not in used and fits(k, {**col, u: c}):
                return True
        return False
    return fits(sat - 1, {})


def hard_colouring(rng):
    while True:
        n = rng.randint(12, 16)
        if rng.random() < 0.5:
            es = trifree(rng, n)
        else:
            k = rng.choice([3, 4, 5])
            c = [rng.randrange(k) for _ in range(n + 1)]
            p = rng.choice([0.5, 0.7])
            es = [(u, v) for u, v in pairs(n) if c[u] != c[v] and rng.random() < p]
        if misled(n, es):
            return n, [[u, v, 1] for u, v in es]


def culberson_cost(n, edges):
    """bound on the recursive calls of the truncated backtracking, which is factorial on sparse graphs"""
    nb = {v: set() for v in range(1, n + 1)}
    for u, v, _ in edges:
        nb[u].add(v)
        nb[v].add(u)
    memo = {}

    def cost(s):
        if not s:
            return 1
        if s not in memo:
            cs = [cost(s - nb[v] - {v}) for v in s]
            memo[s] = 1 + (sum(cs) if len(s) < 10 else sum(sorted(cs)[-3:]))
        return memo[s]
    return cost(frozenset(nb))


def fill(prop, a, rng):
    n = a["n"]
    a.update(map=rng.randrange(2), alg=rng.randrange(12), vw=[], seq=[], passes=1, limit=58, mis=100, greedy=0)
    return a


def variants(prop, op, a, rng):
    n = a["n"]
    a = fill(prop, dict(a), rng)
    if op == "maximum_weight_clique":
        if a["lab"] == 0 and rng.random() < 0.3:
            a["keys"] = 1
            a["vw"] = list(range(n))
        else:
            a["vw"] = [rng.randint(rng.randint(0, 1), rng.choice([2, 5, 100])) for _ in range(n)]
    if op == "greedy_sequential":
        a["passes"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.7:
            s = list(range(1, n + 1))
            rng.shuffle(s)
            a["seq"] = s
    if op == "maxis":
        a["limit"] = rng.choice([0, 1, 2, 3, 4, 58])
        a["mis"] = rng.choice([0, 0, 2, 100])
        a["greedy"] = rng.randrange(2)
        if a["limit"] < n > a["mis"] and not a["greedy"] and culberson_cost(n, a["edges"]) > 4000:
            a["greedy"] = 1
    if op == "is_culberson" and culberson_cost(n, a["edges"]) > 4000:
        op = "is_greedy"
    return {"op": op, "in": a}


def jobs(prop, tier, rng):
    big = tier == "thorough"
    ops = OPS[prop]
    k = 0
    for n in (1, 2, 3, 4, 5):
        for edges in all_graphs(n):
            k += 1
            if n == 5 and not big and k % 4:
                continue
            for op in ops:
                yield variants(prop, op, {"n": n, "edges": edges, "lab": k % 3, "order": k}, rng)
    # minimality of pruning bounds shows from 6 vertices on
    top = {"G07": (12, 10), "G08": (16, 13), "G09": (10, 9), "G10": (14, 12)}[prop][0 if big else 1]
    for i in range(8000 if big else 1200):
        n = rng.randint(5, top)
        if i % 2:
            edges = structured(rng, n)
        else:
            edges = random_edges(rng, n, rng.choice([0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0]))
        for op in (ops if i % 4 == 0 else rng.sample(ops, 2)):
            yield variants(prop, op, {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
    for i in range((300 if big else 90) if prop in ("G07", "G08") else 0):      # large cliques that overlap
        n = rng.randint(10, 18)
        edges = random_edges(rng, n, rng.choice([0.75, 0.8, 0.9, 0.94]))
        if i % 4 == 0:          # everything but small groups: many maximal cliques, all of them large
            n = rng.randint(12, 17)
            k = rng.choice([2, 2, 3, 4])
            perm = rng.sample(range(1, n + 1), n)
            edges = [[u, v, 1] for u, v in pairs(n) if perm[u - 1] // k != perm[v - 1] // k]
        for op in ops:
            if op != "maximal_independent_sets":
                yield variants(prop, op, {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
    for i in range(160 if big else 25):
        n = rng.randint(18, 34)
        if i % 3 == 0:
            edges = structured(rng, n)
        elif prop == "G10":
            edges = random_edges(rng, n, rng.choice([0.6, 0.8]))
        else:
            edges = random_edges(rng, n, rng.choice([0.08, 0.15, 0.3]))
        for op in LARGE[prop]:
            if i % 3 == 0 and op not in CHEAP and len(edges) < n * (n - 1) // (3 if prop == "G10" else 1) or op == "maximal_independent_sets":
                continue
            yield variants(prop, op, {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
    for i in range(12 if prop == "G09" else 0):          # beyond the default limit of 58 vertices
        n = rng.randint(59, 66)
        c = [rng.randint(1, 9) for _ in range(n + 1)]
        edges = [[u, v, 1] for u, v in pairs(n) if c[u] != c[v]]
        a = fill(prop, {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
        a.update(limit=[58, 40][i % 2], mis=[100, 60][i // 2 % 2], greedy=i // 2 % 2)
        yield {"op": "maxis", "in": a}
    # graphs on which the first colouring is not optimal
    for i in range((400 if big else 50) if prop == "G09" else 0):
        n, edges = hard_colouring(rng)
        for op in ("korman", "co_branch_and_bound", "dsatur"):
            yield variants(prop, op, {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
    # the branch and bound backtracks over several vertices only from a dozen on
    for i in range((1500 if big else 240) if prop == "G09" else 0):
        n = rng.choice([11, 12, 13])
        edges = circulant(rng, n) if i % 2 else random_edges(rng, n, 0.5)
        yield variants(prop, "korman" if i % 6 == 0 else "co_branch_and_bound", {"n": n, "edges": edges, "lab": i % 3, "order": rng.randint(0, 99)}, rng)
