"""Encoding of values that cross the boundary between the real code and TLC.

TLC integers are 32 bit, so a "small" integer must satisfy |n| < 2^30 and an
unbounded one travels as a big integer: [sign, limb0, limb1, ...] with base
10^3 little-endian limbs (spec/Big.tla).  A shape describes what a public call
promises to return; a value of another shape is recorded as outcome "bad",
which no specification clause accepts.
"""
import copy

LIM = 1 << 30
BASE = 1000


KEPT = []           # arguments the code was given, with what they were
LENT = []           # lists the code returned


class Bad(Exception):
    pass


def kept(x):
    KEPT.append((x, copy.deepcopy(x)))
    return x


def untouched():
    """No argument may come back changed."""
    for x, was in KEPT:
        if type(x) is not type(was) or x != was:
            raise Bad("an argument was changed")
    KEPT.clear()


def overwrite():
    """What a caller may do with the lists returned to him."""
    for x in LENT:
        x[:] = ["overwritten"]
    LENT.clear()


def small(n):
    if isinstance(n, bool):
        return int(n)
    if not isinstance(n, int):
        raise Bad("not an int: %r" % (n,))
    if not -LIM < n < LIM:
        raise Bad("int too large: %r" % (n,))
    return n


def big(n):
    if isinstance(n, bool) or not isinstance(n, int):
        raise Bad("not an int: %r" % (n,))
    s = 0 if n == 0 else (1 if n > 0 else -1)
    n = abs(n)
    out = [s]
    while n:
        n, r = divmod(n, BASE)
        out.append(r)
    return out


def unbig(l):
    v = 0
    for d in reversed(l[1:]):
        v = v * BASE + d
    return v * l[0] if l else 0


def boolean(b):
    if isinstance(b, bool):
        return b
    raise Bad("not a bool: %r" % (b,))


def truthy(b):
    return bool(b)


def none(x):
    if x is None:
        return 0
    raise Bad("not None: %r" % (x,))


def anything(x):
    return 0


def seq(shape):
    def f(x):
        if isinstance(x, (str, bytes, dict, int, float)) or x is None:
            raise Bad("not a sequence: %r" % (x,))
        if type(x) is list and not any(x is k for k, _ in KEPT):
            LENT.append(x)
        # the items are kept until the end, so that one changed after it was handed out is seen
        return [shape(v) for v in list(x)]
    return f


def tup(*shapes):
    def f(x):
        if isinstance(x, (str, bytes, dict, int, float)) or x is None:
            raise Bad("not a tuple: %r" % (x,))
        x = list(x)
        if len(x) != len(shapes):
            raise Bad("wrong length: %r" % (x,))
        return [s(v) for s, v in zip(shapes, x)]
    return f


ints = seq(small)
bigs = seq(big)
intss = seq(ints)
