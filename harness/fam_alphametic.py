import itertools
from harness.enc import *
from rosemary.combinatorics.recreational.alphametics import solve

CAP = 30000
ALPHA = {0: "abcdefghijklmnop", 1: "zyxwvutsrqponmlk", 2: "ABCDEFGHIJabcdef"}


def digits(n):
    if isinstance(n, bool) or not isinstance(n, int) or n < 0:
        raise Bad("not a number: %r" % (n,))
    return [int(c) for c in str(n)]


def execute(op, a):
    al = ALPHA[a.get("lab", 0)]
    w = lambda ws: ["".join(al[x] for x in word) for word in ws]
    l, r = w(a["l"]), w(a["r"])
    out = []
    for s in solve(kept(l), kept(r)):
        s = list(s)
        if len(s) != 2:
            raise Bad("shape")
        out.append(s)
        if len(out) > CAP:
            raise Bad("too many")
    return [[[digits(x) for x in s[0]], [digits(x) for x in s[1]]] for s in out]


def plant(rng, k, nl, nr, ml):
    """a puzzle with a planted solution: random digits, rhs built from the sum"""
    for _ in range(200):
        nums = [rng.randint(1, 10 ** rng.randint(1, ml) - 1) for _ in range(nl)]
        tot = sum(nums)
        rest = []
        for _ in range(nr - 1):
            if tot < 2:
                break
            x = rng.randint(1, tot - 1)
            rest.append(x)
            tot -= x
        rest.append(tot)
        ds = set("".join(map(str, nums + rest)))
        if len(ds) <= k:
            perm = list(range(len(ds)))
            rng.shuffle(perm)
            m = dict(zip(sorted(ds), perm))
            return [[m[c] for c in str(x)] for x in nums], [[m[c] for c in str(x)] for x in rest]
    return [[0]], [[0]]


def cost(l, r, limit):
    """size of the specification's column search (to bound the checking time)"""
    firsts = {w[0] for w in l + r}
    S, n = [({}, 0)], 0
    for c in range(max(map(len, l + r))):
        cl = [w[-1 - c] for w in l if len(w) > c]
        cr = [w[-1 - c] for w in r if len(w) > c]
        out = []
        for m, k in S:
            new = sorted(set(cl + cr) - set(m))
            for p in itertools.permutations([d for d in range(10) if d not in m.values()], len(new)):
                n += 1
                if n > limit:
                    return n
                q = dict(m)
                q.update(zip(new, p))
                if any(q[x] == 0 for x in new if x in firsts):
                    continue
                t = sum(q[x] for x in cl) - sum(q[x] for x in cr) + k
                if t % 10 == 0:
                    out.append((q, t // 10))
        S = out
    return n


FAMOUS = [(["send", "more"], ["money"]), (["to", "go"], ["out"]), (["ab", "ba"], ["cc"]), (["ein", "ein", "ein", "ein"], ["vier"]),
          (["fish", "n", "chips"], ["supper"]), (["this", "isa", "great", "time"], ["waster"]), (["forty", "ten", "ten"], ["sixty"]),
          (["see", "three", "little"], ["wolves"]), (["violin", "violin", "viola"], ["trio", "sonata"]), (["no", "no"], ["yes"]),
          (["couple", "couple"], ["quartet"]), (["happy", "holidays", "to", "all"], ["hohohoho"]),
          (["abcdefghij"], ["jihgfedcba"]), (["abcdefghijk"], ["a"]), (["abc", "def"], ["ghij", "k"])]

# ten letters; each would have another solution if some word could begin with 0
TEN = [([[5, 0, 8, 7], [9, 6, 2, 0]], [[3, 4, 1, 1, 1, 1]]), ([[7, 8], [6, 4, 7, 8], [2, 7, 1, 5]], [[0, 9, 3, 1, 3, 7]]),
       ([[3, 4, 9, 0], [0, 5, 9, 0], [5, 9], [3, 1, 7, 5]], [[8, 6, 5, 2, 9, 5]]), ([[8, 5], [1, 6, 8, 8], [5, 8, 3], [7, 4, 5, 5]], [[0, 9, 4, 8, 2]])]


def jobs(prop, tier, rng):
    big = tier == "thorough"
    words = [list(w) for n in (1, 2) for w in itertools.product(range(3), repeat=n)]
    for l in words:
        for r in words:
            yield {"op": "solve", "in": {"l": [l], "r": [r]}}
    for _ in range(250):
        yield {"op": "solve", "in": {"l": [rng.choice(words) for _ in range(2)], "r": [rng.choice(words) for _ in range(rng.randint(1, 2))], "lab": rng.randint(0, 2)}}
    famous = []
    for l, r in FAMOUS:
        cs = sorted(set("".join(l + r)))
        f = lambda ws: [[cs.index(c) for c in w] for w in ws]
        if cost(f(l), f(r), 130000) <= (120000 if big else 24000):
            famous.append({"op": "solve", "in": {"l": f(l), "r": f(r)}})
    for l, r in TEN:
        yield {"op": "solve", "in": {"l": l, "r": r, "lab": rng.randint(0, 2)}}
    for i in range(800 if big else 260):
        if i % 10 == 0 and famous:
            yield famous.pop()
        k = rng.randint(2, 8 if big else 7)
        l, r = plant(rng, k, rng.randint(2, 4), rng.choice([1, 1, 1, 2]), rng.randint(2, 6 if big else 5))
        if cost(l, r, 50000) <= (30000 if big else 1200):
            yield {"op": "solve", "in": {"l": l, "r": r, "lab": rng.randint(0, 2)}}
