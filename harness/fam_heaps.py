import sys
from harness.enc import *
from rosemary.data_structures.heaps import LeftistHeap, PairingHeap


def outcome(f):
    try:
        return {"k": "ret", "v": f()}
    except Bad as e:
        return {"k": "bad", "v": str(e)[:100]}
    except Exception as e:
        return {"k": "exc", "t": type(e).__name__, "v": 0}


def leftist(ops):
    hs = {}
    outs = []

    def one(op):
        name, i = op[0], op[1]
        if name == "new":
            kind = len(op[3:]) and op[3]
            vals = {0: list, 1: tuple}.get(kind, list)(op[2])
            hs[i] = LeftistHeap(vals)
            return small(len(hs[i]))
        h = hs[i]
        if name == "insert":
            h.insert(op[2])
            return small(len(h))
        if name == "delete_min":
            r = h.delete_min()
            return [small(len(h)), 0] if r is None else [small(len(h)), 1, small(r)]
        if name == "find_min":
            return small(h.find_min())
        if name == "merge":
            h.merge(hs[op[2]])
            return small(len(h))
        if name == "insert_many":
            for x in op[2]:
                h.insert(x)
            return small(len(h))
        if name == "delete_many":
            return [ints([h.delete_min() for _ in range(op[2])]), small(len(h))]
        if name == "drain":
            return ints(list(h))
    for op in ops:
        outs.append(outcome(lambda: one(op)))
        if outs[-1]["k"] != "ret":
            outs += [{"k": "skipped", "v": 0}] * (len(ops) - len(outs))
            break
    return outs


def pairing(ops):
    h = PairingHeap()
    outs = []

    def one(op):
        name = op[0]
        if name == "insert":
            h.insert(op[1], op[2])
            return 0
        if name == "insert_values":
            h.insert_values([tuple(p) for p in op[1]])
            return 0
        if name == "decrease_key":
            h.decrease_key(op[1], op[2])
            return 0
        if name == "list":
            return seq(tup(small, small))(h.list_elements())
        if name == "delete_min":
            r = h.delete_min()
            return [] if r is None else [small(r.key), small(r.value)]
    for op in ops:
        outs.append(outcome(lambda: one(op)))
        if outs[-1]["k"] != "ret":
            outs += [{"k": "skipped", "v": 0}] * (len(ops) - len(outs))
            break
    return outs


def execute(op, a):
    if a.get("deep"):
        sys.setrecursionlimit(1000)     # what a user has
    return {"leftist": leftist, "pairing": pairing}[op](a["ops"])


def jobs(prop, tier, rng):
    n = 4000 if tier == "thorough" else 400
    if prop == "D01":
        for i in range(n):
            top = rng.choice([2, 5, 50, 1000])
            v = lambda: rng.randint(-top, top)
            size = {1: 0, 2: 0, 3: 0}
            ops = []
            for j in (1, 2, 3):
                k = rng.choice([0, 1, 2, 3, 5, 8, 16, 33])
                ops.append(["new", j, [v() for _ in range(k)]])
                size[j] = k
            mode = rng.random()
            for _ in range(rng.randint(5, 60)):
                j = rng.randint(1, 3)
                r = rng.random()
                if r < 0.35 + 0.2 * mode:
                    ops.append(["insert", j, v()])
                    size[j] += 1
                elif r < 0.8:
                    ops.append(["delete_min", j])
                    size[j] = max(0, size[j] - 1)
                elif r < 0.88:
                    if size[j]:
                        ops.append(["find_min", j])
                else:
                    k = 1 + j % 3
                    ops.append(["merge", j, k])
                    size[j] += size[k]
                    m = rng.choice([0, 1, 4])
                    ops.append(["new", k, [v() for _ in range(m)]])
                    size[k] = m
            ops += [["drain", j] for j in (1, 2, 3)]
            yield {"op": "leftist", "in": {"ops": ops}}
        # heaps with thousands of values: their depth must not follow their size
        for i in range(12 if tier == "quick" else 60):
            k = rng.randint(1500, 2500)
            pat = [lambda x: x, lambda x: -x, lambda x: (x * 7919) % 2003, lambda x: x if x % 2 else -x, lambda x: 5][i % 5]
            vals = [pat(x) for x in range(k)]
            ops = [["new", 1, []], ["insert_many", 1, vals]] if i % 4 else [["new", 1, vals]]
            ops += [["find_min", 1], ["delete_many", 1, rng.randint(1, k // 2)], ["new", 2, [pat(-x) for x in range(k // 2)]]]
            ops += [["insert_many", 2, [pat(x + k) for x in range(k // 2)]], ["merge", 1, 2], ["new", 2, []], ["insert_many", 1, vals[::2]],
                    ["delete_many", 1, rng.randint(1, k)], ["drain", 1]]
            yield {"op": "leftist", "in": {"ops": ops, "deep": 1}}
    else:
        for i in range(n):
            # the generator follows the code's own choice among ties only through distinct keys or list
            top = rng.choice([3, 10, 1000])
            ops, live, nxt = [], {}, 1
            style = rng.random()
            h = PairingHeap()       # used to know which entry left among ties
            try:
                for _ in range(rng.randint(5, 70)):
                    r = rng.random()
                    if r < 0.35 or not live:
                        if rng.random() < 0.1:
                            vals = []
                            for _ in range(rng.randint(1, 5)):
                                vals.append([rng.randint(-top, top), nxt])
                                live[nxt] = vals[-1][0]
                                nxt += 1
                            ops.append(["insert_values", vals])
                        else:
                            k = rng.randint(-top, top)
                            ops.append(["insert", k, nxt])
                            live[nxt] = k
                            nxt += 1
                    elif r < 0.35 + 0.4 * style:
                        x = rng.choice(sorted(live))
                        k = live[x] - rng.choice([0, 1, 1, 2, top])
                        live[x] = k
                        ops.append(["decrease_key", x, k])
                    elif r < 0.95:
                        m = min(live.values())
                        who = [x for x in live if live[x] == m]
                        if len(who) == 1:
                            ops.append(["delete_min"])
                            del live[who[0]]
                            if rng.random() < 0.2:      # a removed value may come back
                                k = rng.randint(-top, top)
                                ops.append(["insert", k, who[0]])
                                live[who[0]] = k
                        else:
                            ops.append(["decrease_key", who[0], m - 1])
                            live[who[0]] = m - 1
                    else:
                        ops.append(["list"])
            except Exception:
                pass
            ops.append(["list"])
            ops += [["delete_min"]] * (len(live) + 1)
            yield {"op": "pairing", "in": {"ops": ops}}
        # many entries: long lists of children, and keys lowered deep inside
        for i in range(n // 10):
            k = rng.randint(25, 150)
            keys = rng.sample(range(-10 ** 6, 10 ** 6), 4 * k)
            live, ops = {}, []
            for x in range(1, k + 1):
                live[x] = keys.pop()
                ops.append(["insert", live[x], x])
            if i % 3 == 0:
                ops = [["insert_values", [o[1:] for o in ops]]]
            for _ in range(rng.randint(10, 60)):
                r = rng.random()
                if r < 0.35 and live:
                    ops.append(["delete_min"])
                    del live[min(live, key=live.get)]
                elif r < 0.75 and live:
                    x = rng.choice(sorted(live))
                    y = live[x] - rng.choice([1, 1000, 10 ** 6, 3 * 10 ** 6])
                    if y not in live.values():
                        live[x] = y
                        ops.append(["decrease_key", x, y])
                elif r < 0.97:
                    k += 1
                    live[k] = keys.pop()
                    if list(live.values()).count(live[k]) == 1:
                        ops.append(["insert", live[k], k])
                    else:
                        del live[k]
                else:
                    ops.append(["list"])
            ops += [["delete_min"]] * (len(live) + 1)
            yield {"op": "pairing", "in": {"ops": ops}}
