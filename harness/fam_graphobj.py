from harness.enc import *
from harness.fam_structs import run
from rosemary.graphs.graphs import Graph

KINDS = [lambda i: i, lambda i: "v%d" % i, lambda i: (i, -i), lambda i: float(i) + 0.5]


def execute(op, a):
    name = KINDS[a.get("lab", 0)]
    fwd = {i: name(i) for i in range(1, 31)}
    back = {v: k for k, v in fwd.items()}
    hs = {1: Graph(), 2: Graph(), 3: Graph()}

    def observe(g):
        vs = g.vertices()
        adj = [[[back[v], small(w)] for v, w in g[u].items()] for u in vs]
        return {
            "v": [back[u] for u in vs], "vset": [back[u] for u in g.vertex_set()], "iter": [back[u] for u in g],
            "nv": small(g.num_vertices()), "ne": small(g.num_edges()),
            "e": [[back[u], back[v], small(w)] for u, v, w in g.edges(weights=True)],
            "ep": [[back[u], back[v]] for u, v in g.edge_set()],
            "adj": adj, "deg": [small(g.degree(u)) for u in vs],
            "nb": [[back[v] for v in g.neighbors(u)] for u in vs],
            "cnb": [[back[v] for v in g.closed_neighborhood(u)] for u in vs],
            "leaves": [back[u] for u in g.leaves()], "tot": small(g.total_degree()),
        }

    def one(o):
        k, h = o[0], o[1]
        g = hs[h]
        if k == "new":
            hs[h] = Graph()
        elif k == "touch":      # results of queries belong to the caller
            vs = g.vertices()
            for u in list(vs):
                g.neighbors(u).clear()
                g.closed_neighborhood(u).clear()
            g.vertex_set().clear()
            g.edge_set().clear()
            g.edges().clear()
            g.edges(weights=True).clear()
            g.leaves().clear()
            vs.clear()
        elif k in ("add_vertex", "delete_vertex"):
            getattr(g, k)(fwd[o[2]])
        elif k in ("add_vertices", "delete_vertices"):
            getattr(g, k)([fwd[x] for x in o[2]])
        elif k == "add_edge":
            u, v, w = fwd[o[2]], fwd[o[3]], o[4]
            form = o[5] % 4
            if w == 1 and form == 0:
                g.add_edge(u, v)
            elif w == 1 and form == 1:
                g.add_edge((u, v))
            elif form == 2:
                g.add_edge((u, v, w))
            elif form == 3:
                g.add_edge(u, v, weight=w)
            else:
                g.add_edge(u, v, w)
        elif k == "add_edges":
            g.add_edges([(fwd[u], fwd[v], w) for u, v, w in o[2]])
        elif k == "delete_edge":
            form = o[4] % 3
            u, v = fwd[o[2]], fwd[o[3]]
            if form == 0:
                g.delete_edge(u, v)
            elif form == 1:
                g.delete_edge((u, v))
            else:
                g.delete_edge((u, v, 1))
        elif k == "copy":
            hs[o[2]] = g.copy()
        elif k == "complement":
            hs[o[2]] = g.complement()
        elif k == "remove_edge":
            u, v = fwd[o[2]], fwd[o[3]]
            hs[o[4]] = [lambda: g.remove_edge(u, v), lambda: g.remove_edge((u, v)), lambda: g.remove_edge((u, v, 1))][(o[2] + 2 * o[3]) % 3]()
        elif k == "bad_edge":      # neither a pair nor a triple
            t = tuple(fwd[x] for x in o[2])
            try:
                g.delete_edge(t) if o[3] == 0 else g.remove_edge(t)
            except ValueError:
                pass
            else:
                raise Bad("accepted")
        elif k in ("remove_vertices", "induced_subgraph"):
            hs[o[3]] = getattr(g, k)([fwd[x] for x in o[2]])
        else:
            hs[o[3]] = getattr(g, k)(fwd[o[2]])
        return [observe(hs[i]) for i in (1, 2, 3)]
    return run(a["ops"], one)


def jobs(prop, tier, rng):
    for i in range(2500 if tier == "thorough" else 250):
        m = rng.choice([3, 4, 5, 6, 8] if i % 8 else [10, 16, 24])
        ops = []
        sim = {1: [set(), set()], 2: [set(), set()], 3: [set(), set()]}   # only to keep calls inside their domain

        def vx():
            return rng.randint(1, m)

        def pair():
            return rng.sample(range(1, m + 1), 2)
        for _ in range(rng.randint(3, 25)):
            if m > 8 and rng.random() < 0.2:        # many edges at once, some of them at one vertex
                h, c = rng.randint(1, 3), vx()
                e = [pair() + [rng.randint(-2, 9)] for _ in range(rng.randint(4, 2 * m))]
                e += [[c, v, rng.randint(1, 4)] for v in rng.sample(range(1, m + 1), m // 2) if v != c]
                ops.append(["add_edges", h, e])
                for u, v, _ in e:
                    sim[h][0] |= {u, v}
            h = rng.randint(1, 3)
            r = rng.random()
            k = rng.randint(1, 3)
            vs, es = sim[h]
            if r < 0.3:
                u, v = pair()
                ops.append(["add_edge", h, u, v, rng.choice([1, 1, 2, 7, -3, 0]), rng.randint(0, 3)])
                vs |= {u, v}
            elif r < 0.38:
                e = [pair() + [rng.randint(-2, 9)] for _ in range(rng.randint(0, 6))]
                ops.append(["add_edges", h, e])
                for u, v, _ in e:
                    vs |= {u, v}
            elif r < 0.44:
                u = vx()
                ops.append(["add_vertex", h, u])
                vs.add(u)
            elif r < 0.48:
                u = [vx() for _ in range(rng.randint(0, 4))]
                ops.append(["add_vertices", h, u])
                vs |= set(u)
            elif r < 0.55:
                u = vx()
                ops.append(["delete_vertex", h, u])
                vs.discard(u)
            elif r < 0.59:
                u = [vx() for _ in range(rng.randint(0, 3))]
                ops.append(["delete_vertices", h, u])
                vs -= set(u)
            elif r < 0.68:
                u, v = pair()
                ops.append(["delete_edge", h, u, v, rng.randint(0, 2)])
            elif r < 0.71:
                ops.append(["touch", h])
            elif r < 0.72:
                ops.append(["bad_edge", h, [vx() for _ in range(rng.choice([0, 1, 4]))], rng.randint(0, 1)])
            elif r < 0.76:
                ops.append(["copy", h, k])
                sim[k] = [set(vs), set()]
            elif r < 0.8:
                u, v = pair()
                ops.append(["remove_edge", h, u, v, k])
                sim[k] = [set(vs), set()]
            elif r < 0.84:
                u = vx()
                ops.append(["remove_vertex", h, u, k])
                sim[k] = [vs - {u}, set()]
            elif r < 0.88:
                u = [vx() for _ in range(rng.randint(0, 3))]
                ops.append(["remove_vertices", h, u, k])
                sim[k] = [vs - set(u), set()]
            elif r < 0.93:
                if vs and k != h:
                    u = rng.choice(sorted(vs))
                    ops.append([rng.choice(["remove_neighborhood", "remove_closed_neighborhood"]), h, u, k])
                    sim[k] = [set(), set()]     # unknown here: nothing is assumed about it until rebuilt
                    ops.append(["new", k])
            elif r < 0.97:
                u = [x for x in sorted(vs) if rng.random() < 0.6]
                ops.append(["induced_subgraph", h, u, k])
                sim[k] = [set(u), set()]
            else:
                ops.append(["complement", h, k])
                sim[k] = [set(vs), set()]
        yield {"op": "graph", "in": {"ops": ops, "lab": i % 4}}
