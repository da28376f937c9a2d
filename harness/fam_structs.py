from harness.enc import *
from harness.fam_heaps import outcome
from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
from rosemary.data_structures import bit_sieve
from rosemary.utilities import cached_function


def run(ops, one):
    outs = []
    for op in ops:
        outs.append(outcome(lambda: one(op)))
        if outs[-1]["k"] != "ret":
            outs += [{"k": "skipped", "v": 0}] * (len(ops) - len(outs))
            break
    return outs


def lab(kind, n):
    return [None] + ([("e", i) for i in range(n)] if kind else list(range(1, n + 1)))


def execute(op, a):
    ops = a["ops"]
    n = a.get("n", 0)
    if op == "unionfind":
        L = lab(a.get("lab", 0), n)
        ix = {x: i for i, x in enumerate(L)}
        u = UnionFind(L[1:])

        def one(o):
            if o[0] == "find":
                return ix[u.find(L[o[1]])]
            if o[0] == "all":
                return [ix[u.find(x)] for x in L[1:]]
            x, y = L[o[1]], L[o[2]]
            p, q = u.find(x), u.find(y)
            if p != q:
                if o[0] == "unite":
                    u.union(p, q)
                else:
                    u.union(x, y)
            return [ix[p], ix[q]]
        return run(ops, one)
    if op == "named":
        L = lab(0, n)
        u = NamedUnionFind(L[1:])

        def one(o):
            if o[0] == "find":
                return small(u.find(o[1]))
            if o[0] == "all":
                return [small(u.find(x)) for x in L[1:]]
            u.union(o[1], o[2], o[3])
            return 0
        return run(ops, one)
    if op in ("bitsieve", "bitsieve_array"):
        s = (bit_sieve.BITSieve if op == "bitsieve" else bit_sieve.BITSieveArray)(n)

        def one(o):
            if o[0] == "mark":
                s.mark_multiples(o[1])
                return 0
            if o[0] == "update":
                s.update()
                return 0
            if o[0] == "sum":
                return small(s.partial_sum(o[1]))
            if o[0] == "sums":
                return [small(s.partial_sum(m)) for m in range(1, n + 1)]
            e = ints(s.entries())
            return e if op == "bitsieve" else e[1:]
        return run(ops, one)
    if op == "memo":
        runs = {1: 0, 2: 0, 3: 0}

        def make(f):
            def g(*args):
                runs[f] += 1
                if 7 in args:
                    raise ValueError("scripted")
                if 8 in args:
                    return None
                if 9 in args:
                    return 0
                return 100000*f + sum(x*10**i for i, x in enumerate(args))
            return cached_function(g)
        fs = {f: make(f) for f in runs}

        def one(o):
            f, args = o[1], o[2]
            try:
                v = fs[f](*args)
            except ValueError:
                return ["exc", 0, runs[f]]
            return ["val", -1 if v is None else small(v), runs[f]]
        return run(ops, one)


# -1 and -2 have the same hash
CALLARGS = ([0, 1, 2, 3, 7, 8, 9, -1], [-1, -2, 0, 1, 7], [1, 2, -2, -1])


def jobs(prop, tier, rng):
    k = 8 if tier == "thorough" else 1
    if prop == "D03":
        for i in range(400 * k):
            n = rng.choice([1, 2, 5, 10, 20, 40])
            ops = []
            for _ in range(rng.randint(1, 60)):
                r = rng.random()
                x, y = rng.randint(1, n), rng.randint(1, n)
                if r < 0.25:
                    ops.append(["find", x])
                elif r < 0.6:
                    ops.append(["unite", x, y])
                elif r < 0.97:
                    ops.append(["unite_elements", x, y])
                else:
                    ops.append(["all"])
            ops.append(["all"])
            yield {"op": "unionfind", "in": {"n": n, "ops": ops, "lab": i % 2}}
        for i in range(6 * k):      # hundreds of elements
            n = rng.choice([200, 400])
            ops = []
            for _ in range(rng.randint(200, 400)):
                r = rng.random()
                x, y = rng.randint(1, n), rng.randint(1, n)
                ops.append(["find", x] if r < 0.3 else ["unite", x, y] if r < 0.6 else ["unite_elements", x, y])
            ops.append(["all"])
            yield {"op": "unionfind", "in": {"n": n, "ops": ops, "lab": i % 2}}
    if prop == "D03n":
        for i in range(400 * k):
            n = rng.choice([1, 2, 5, 10, 20])
            name = list(range(n + 1))
            ops = []
            fresh = n + 1
            for _ in range(rng.randint(1, 40)):
                r = rng.random()
                if r < 0.3:
                    ops.append(["find", rng.randint(1, n)])
                    continue
                names = sorted(set(name[1:]))
                if len(names) < 2:
                    ops.append(["all"])
                    continue
                u, v = rng.sample(names, 2)
                unused = [x for x in range(1, n + 1) if x not in names]
                w = rng.choice([u, v, fresh] + unused[:2])
                if w == fresh:
                    fresh += 1
                ops.append(["union", u, v, w])
                name = [w if x in (u, v) else x for x in name]
                if rng.random() < 0.1:
                    ops.append(["all"])
            ops.append(["all"])
            yield {"op": "named", "in": {"n": n, "ops": ops}}
    if prop == "D04":
        for i in range(150 * k):
            n = rng.choice([0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, rng.randint(1, 300)])
            ops = []
            for _ in range(rng.randint(1, 15)):
                r = rng.random()
                if r < 0.55:
                    ops.append(["mark", rng.choice([2, 3, 5, 7, 11, rng.randint(1, n + 2)])])
                elif r < 0.9:
                    ops.append(["sum", rng.randint(0, n)])
                elif r < 0.95:
                    ops.append(["entries"])
                else:
                    ops.append(["sums"])
            ops += [["sums"], ["entries"]]
            yield {"op": "bitsieve", "in": {"n": n, "ops": ops}}
            for _ in range(rng.randint(1, 3)):       # recomputing the tree at any time changes nothing
                ops.insert(rng.randint(0, len(ops)), ["update"])
            yield {"op": "bitsieve", "in": {"n": n, "ops": ops}}
            ops = [o for o in ops if o[0] != "update"]
            yield {"op": "bitsieve_array", "in": {"n": n, "ops": ops}}
        for n in [511, 512, 513, 700, 1023, 1024, 1025, 2047, 2050] + [rng.randint(300, 3000) for _ in range(4 * k)]:
            ops = []
            for _ in range(rng.randint(4, 9)):
                ops.append(["mark", rng.choice([2, 3, 5, 7, rng.randint(1, 60), rng.randint(1, n)])])
                ops += [["sum", rng.choice([n, n - 1, n // 2, rng.randint(0, n)])] for _ in range(6)]
            ops.append(["entries"])
            yield {"op": "bitsieve", "in": {"n": n, "ops": ops}}
            yield {"op": "bitsieve_array", "in": {"n": n, "ops": ops}}
    if prop == "U01":
        for m in [130, 257, 513, 1025, 1200] * k:      # many distinct arguments, then some of them again
            f = rng.randint(1, 3)
            calls = [["call", rng.choice([f, f, f, f, 1]), [x]] for x in range(10, 10 + m)]
            rng.shuffle(calls)
            again = calls[:60] + calls[-60:]
            rng.shuffle(again)
            yield {"op": "memo", "in": {"ops": calls + again}}
        for i in range(500 * k):
            ops = [["call", rng.randint(1, 3), [rng.choice(CALLARGS[i % 3]) for _ in range(rng.randint(0, 3))]]
                   for _ in range(rng.randint(1, 40))]
            yield {"op": "memo", "in": {"ops": ops}}
