import itertools
from harness.enc import *
from rosemary.combinatorics.optimization import knapsack as K

LIMITS = {"simulated_annealing": 60}


def execute(op, a):
    num = big if a.get("big") else small

    def pair(x):
        x = tuple(x)
        if len(x) != 2:
            raise Bad("item %r" % (x,))
        return [num(x[0]), small(x[1])]
    items = [(unbig(v), w) if a.get("big") else (v, w) for v, w in a["items"]]
    arg = tuple(items) if a.get("tuple") else list(items)
    r = getattr(K, op)(arg, a["cap"])
    if len(r) != 2:
        raise Bad("shape %r" % (r,))
    after = [pair(x) for x in arg]
    if op == "simulated_annealing":
        return [num(r[0]), ints(r[1]), after]
    if op == "branch_and_bound_depth_first":
        return [num(r[0]), [pair(x[:2]) for x in r[1]], after, [small(x[2]) + 1 for x in r[1]]]
    return [num(r[0]), [pair(x) for x in r[1]], after]


EXACT = ("depth_first", "dynamic_programming", "branch_and_bound_depth_first")


def jobs(prop, tier, rng):
    hard = tier == "thorough"
    its = list(itertools.product(range(0, 3), range(0, 4)))
    for n in range(0, 3):
        for c in itertools.product(its, repeat=n):
            for cap in (range(0, 6) if n < 2 else (rng.randint(0, 3), rng.randint(2, 6))):
                for op in EXACT:
                    yield {"op": op, "in": {"items": [list(x) for x in c], "cap": cap, "tuple": cap == 3}}
    for i in range(2500 if hard else 500):
        n = rng.randint(3, 11 if hard else 9)
        kind = i % 5
        if kind == 0:       # close densities
            w = [rng.randint(5, 40) for _ in range(n)]
            items = [[x + rng.randint(-2, 2), x] for x in w]
        elif kind == 1:     # equal densities
            w = [rng.randint(1, 9) for _ in range(n)]
            k = rng.randint(1, 4)
            items = [[k * x, x] for x in w]
        elif kind == 2:     # duplicates, worthless and weightless items
            base = [[rng.randint(0, 5), rng.randint(0, 6)] for _ in range(3)]
            items = [list(rng.choice(base)) for _ in range(n)]
        elif kind == 3:     # one item beats the greedy choice
            items = [[rng.randint(1, 5), rng.randint(1, 4)] for _ in range(n - 1)] + [[rng.randint(10, 30), rng.randint(8, 20)]]
        else:
            items = [[rng.randint(0, 100), rng.randint(1, 60)] for _ in range(n)]
        rng.shuffle(items)
        tot = sum(x[1] for x in items)
        cap = rng.choice([0, rng.randint(0, tot + 2), rng.randint(0, tot // 2 + 1), tot, tot - 1, tot // 2])
        for op in EXACT:
            yield {"op": op, "in": {"items": items, "cap": cap}}
        if i % 2:           # values that are equal as floating point numbers
            m = 10 ** rng.choice([9, 15, 16, 17, 19, 30])
            its = [[big(x[1] * m + rng.randint(0, 4)), x[1]] for x in items if x[1]]
            for op in EXACT:
                yield {"op": op, "in": {"items": its, "cap": min(cap, 400), "big": True}}
        if i % (100 if not hard else 25) == 0:
            yield {"op": "simulated_annealing", "in": {"items": items, "cap": cap}, "seed": rng.randrange(10 ** 6)}
    yield {"op": "simulated_annealing", "in": {"items": [], "cap": 3}}
    yield {"op": "simulated_annealing", "in": {"items": [[3, 4]], "cap": 3}}
    yield {"op": "simulated_annealing", "in": {"items": [[3, 3]], "cap": 3}}
    kn = [[135, 70], [139, 73], [149, 77], [150, 80], [156, 82], [163, 87], [173, 90], [184, 94], [192, 98], [201, 106], [210, 110],
          [214, 113], [221, 115], [229, 118], [240, 120]]
    for cap in (750, 0, 69, 400):
        for op in EXACT + ("simulated_annealing",):
            yield {"op": op, "in": {"items": kn, "cap": cap}}
