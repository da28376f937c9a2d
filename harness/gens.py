"""Input generators and graph builders shared by the family drivers."""
import itertools
import random as _random
from harness.enc import Bad
from rosemary.graphs.graphs import Graph


BUILT = []          # the graphs handed to the code under test, with what they were


def built(g):
    BUILT.append((g, {u: dict(x) for u, x in g.graph_dict.items()}))


def unchanged():
    """No graph given to the code may come back changed."""
    for g, was in BUILT:
        if g.graph_dict != was:
            raise Bad("the graph passed was changed")
    BUILT.clear()


def labels(n, kind):
    if kind == 0:
        lab = list(range(n))                # 0 is a vertex like any other
    elif kind == 1:
        lab = ["v%02d" % (n - i) for i in range(n)]
    elif kind == 2:
        lab = [(i % 3, -i) for i in range(n)]
    else:
        lab = [10 * ((i * 7) % (n + 1 if (n + 1) % 7 else n + 2)) - 30 for i in range(1, n + 1)]
    lab = [None] + lab
    return lab, {v: i for i, v in enumerate(lab) if i}


def build_edges(a):
    """Graph from {"n", "edges": [[u,v,w]...], "lab", "order"}."""
    lab, idx = labels(a["n"], a.get("lab", 0))
    g = Graph()
    order = list(range(1, a["n"] + 1))
    if a.get("order"):
        _random.Random(a["order"]).shuffle(order)
    if a.get("order", 0) % 2 == 0:
        for v in order:
            g.add_vertex(lab[v])
    es = list(a["edges"])
    if a.get("order"):
        _random.Random(a["order"] + 1).shuffle(es)
    for u, v, w in es:
        if a.get("order", 0) % 3 == 1:
            u, v = v, u
        g.add_edge(lab[u], lab[v], w)
    for v in order:
        g.add_vertex(lab[v])
    built(g)
    return g, lab, idx


def build_arcs(a):
    lab, idx = labels(a["n"], a.get("lab", 0))
    g = Graph()
    for v in range(1, a["n"] + 1):
        g.add_vertex(lab[v])
    for u, v, w in a["arcs"]:
        if lab[v] not in g[lab[u]]:
            g.add_edge(lab[u], lab[v], w)
    for u, v, w in a["arcs"]:
        g[lab[u]][lab[v]] = w / 2 if a.get("half") else w
    built(g)
    return g, lab, idx


def pairs(n):
    return list(itertools.combinations(range(1, n + 1), 2))


def all_weighted_graphs(n, weights):
    ps = pairs(n)
    for ws in itertools.product((None,) + tuple(weights), repeat=len(ps)):
        yield [[u, v, w] for (u, v), w in zip(ps, ws) if w is not None]


def all_graphs(n):
    return all_weighted_graphs(n, (1,))


def random_edges(rng, n, p, wr=(1, 1)):
    return [[u, v, rng.randint(*wr)] for u, v in pairs(n) if rng.random() < p]


def random_connected(rng, n, p, wr=(1, 1)):
    es = {}
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for i in range(1, n):
        u, v = order[i], order[rng.randrange(i)]
        es[min(u, v), max(u, v)] = rng.randint(*wr)
    for u, v in pairs(n):
        if (u, v) not in es and rng.random() < p:
            es[u, v] = rng.randint(*wr)
    out = [[u, v, w] for (u, v), w in es.items()]
    rng.shuffle(out)
    return out


def connected(n, edges):
    seen = {1}
    todo = [1]
    while todo:
        x = todo.pop()
        for u, v, _ in edges:
            for a, b in ((u, v), (v, u)):
                if a == x and b not in seen:
                    seen.add(b)
                    todo.append(b)
    return len(seen) == n
