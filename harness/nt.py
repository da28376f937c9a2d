"""Number theory used to build inputs and certificates, independent of /repo.
Nothing computed here is trusted by a verdict: a certificate is checked inside
the specification, and a certificate that does not check stops the run."""
import random as _r
from functools import lru_cache
from math import gcd, isqrt
from harness.enc import big

SMALL = [p for p in range(2, 2000) if all(p % d for d in range(2, isqrt(p) + 1))]


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL[:60]:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in SMALL[:30]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _rho(n, rng):
    while True:
        c, x = rng.randrange(1, n), rng.randrange(n)
        y, d, k = x, 1, 0
        while d == 1:
            q = 1
            xs, ys = x, y
            for _ in range(128):
                x = (x * x + c) % n
                y = (y * y + c) % n
                y = (y * y + c) % n
                q = q * (x - y) % n
            d = gcd(q, n)
        if d == n:
            x, y, d = xs, ys, 1
            while d == 1:
                x = (x * x + c) % n
                y = (y * y + c) % n
                y = (y * y + c) % n
                d = gcd(x - y, n)
        if d != n:
            return d


def factor(n):
    """sorted list of (p, e), n >= 1"""
    out = {}
    for p in SMALL:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        if p * p > n:
            break
    todo = [n] if n > 1 else []
    rng = _r.Random(7)
    while todo:
        m = todo.pop()
        r = isqrt(m)
        if is_prime(m):
            out[m] = out.get(m, 0) + 1
        elif r * r == m:
            todo += [r, r]
        else:
            d = _rho(m, rng)
            todo += [d, m // d]
    return sorted(out.items())


def primes_of(n):
    return [p for p, _ in factor(n)]


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def random_prime(rng, lo, hi):
    while True:
        p = rng.randrange(lo, hi) | 1
        if is_prime(p):
            return p


def primitive_root(p):
    qs = primes_of(p - 1)
    g = 1
    while True:
        g += 1
        if all(pow(g, (p - 1) // q, p) != 1 for q in qs):
            return g


TRIAL = 1 << 20      # primes below it are checked by trial division in the specification


@lru_cache(None)
def _pratt(p):
    """entries for p, prerequisites first; each [p, g, [[q, e], ...]] as python ints"""
    if p < TRIAL:
        return ()
    if p == 2:
        return ()
    fs = factor(p - 1)
    out = []
    for q, _ in fs:
        for ent in _pratt(q):
            if ent not in out:
                out.append(ent)
    out.append((p, primitive_root(p), tuple(fs)))
    return tuple(out)


def pratt(*ps):
    """Pratt certificates of all given primes, encoded"""
    out = []
    for p in ps:
        for ent in _pratt(p):
            if ent not in out:
                out.append(ent)
    return [[big(p), big(g), [[big(q), e] for q, e in fs]] for p, g, fs in out]


def smooth_prime(rng, digits):
    """a large prime p with p - 1 = k 2^a 3^b, so that its certificate is cheap"""
    while True:
        m = 2
        q = rng.choice([3, 5, 7])
        while m < 10 ** (digits - 1):
            m *= rng.choice([2, 2, q])
        for k in range(1, 400):
            if is_prime(m * k + 1):
                return m * k + 1


def certs(n):
    """what the specification needs to know about n >= 2: a certificate of primality or a divisor"""
    if is_prime(n):
        return {"d": big(n), "pratt": pratt(n)}
    return {"d": big(factor(n)[0][0]), "pratt": []}


def fact(n):
    """a checkable factorization of n >= 1"""
    fs = factor(n)
    return {"fs": [[big(p), e] for p, e in fs], "pratt": pratt(*[p for p, _ in fs])}


def iroot(n, k):
    """floor of the k-th root"""
    if n < 2:
        return n
    lo, hi = 1, 1 << (n.bit_length() // k + 1)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mid ** k <= n:
            lo = mid
        else:
            hi = mid
    return lo
