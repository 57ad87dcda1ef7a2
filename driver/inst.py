"""Generators of instances. An instance is an integer matrix together with the factor mul/div by
which its costs are multiplied before the library sees them."""
import math
from common import INF

SCALES = [(1, 1)] * 4 + [(1, 8), (1, 10), (1, 3), (1, 1000), (2.0 ** 40, 1), (1, 2.0 ** 40), (2.0 ** 200, 1), (1e6, 1)]


def from_upper(n, f):
    c = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            c[i][j] = c[j][i] = f(i, j)
    return c


def uniform(rng, n, lo, hi):
    return from_upper(n, lambda i, j: rng.randint(lo, hi))


def euclid(rng, n, size=100, k=10):
    """ceil(k * distance) is a metric"""
    pts = [(rng.randint(0, size), rng.randint(0, size)) for _ in range(n)]
    return from_upper(n, lambda i, j: math.ceil(k * math.dist(pts[i], pts[j]) - 1e-12))


def line(rng, n):
    x = [rng.randint(0, 60) for _ in range(n)]
    return from_upper(n, lambda i, j: abs(x[i] - x[j]))


def clusters(rng, n):
    cl = [rng.randrange(max(2, n // 3)) for _ in range(n)]
    return from_upper(n, lambda i, j: rng.randint(1, 3) if cl[i] == cl[j] else rng.randint(40, 60))


def tree_metric(rng, n, wmax=9):
    """shortest path distances in a random tree"""
    par = [None] + [rng.randrange(max(0, i - 3), i) if rng.random() < .5 else rng.randrange(i) for i in range(1, n)]
    w = [0] + [rng.randint(1, wmax) for _ in range(1, n)]
    d = [[INF] * n for _ in range(n)]
    for i in range(n):
        d[i][i] = 0
        for j in range(i):
            d[i][j] = d[j][i] = d[par[i]][j] + w[i] if j != par[i] else w[i]
    perm = list(range(n))
    rng.shuffle(perm)
    return [[d[perm[i]][perm[j]] for j in range(n)] for i in range(n)]


def star(rng, n):
    """cheap edges at a hub, everything else via the hub"""
    h = rng.randrange(n)
    w = [rng.randint(1, 9) for _ in range(n)]
    w[h] = 0
    return from_upper(n, lambda i, j: w[i] + w[j])


def closure(c):
    n = len(c)
    d = [r[:] for r in c]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i][k] + d[k][j] < d[i][j]:
                    d[i][j] = d[i][k] + d[k][j]
    return d


def hidden_cycle(rng, n):
    """one cheap tour, everything else more expensive, in a random order of the cities"""
    p = list(range(n))
    rng.shuffle(p)
    cheap = {frozenset((p[i], p[(i + 1) % n])) for i in range(n)}
    a, b = rng.choice([(0, 1), (1, 2), (1, 50), (5, 6)])
    return from_upper(n, lambda i, j: a if frozenset((i, j)) in cheap else b + rng.randint(0, 2))


def spiky(rng, n):
    """mostly cheap, some cities (often the last ones) far away from everything"""
    far = {rng.choice([n - 1, 0, rng.randrange(n)]) for _ in range(rng.randint(1, 2))}
    return from_upper(n, lambda i, j: rng.randint(500, 1000) if (i in far or j in far) else rng.randint(0, 9))


def trap(rng, n):
    """cheap edges that no optimal tour can use: a cheap star or path with an expensive way back"""
    s = rng.randrange(n)
    return from_upper(n, lambda i, j: rng.randint(0, 1) if s in (i, j) else rng.randint(20, 40))


def ring(rng, n, chords=4, swaps=1, far=1000):
    """(instance, tour): cheap edges along a ring and a few more, so that few tours are any good, and no solver
    that prunes has to look at many of the others"""
    p = list(range(n))
    for _ in range(swaps):
        i = rng.randrange(n - 1)
        j = min(n - 1, i + rng.randint(1, 2))
        p[i], p[j] = p[j], p[i]
    more = {}
    for _ in range(chords):
        i = rng.randrange(n)
        more[frozenset((i, (i + rng.choice([2, 2, 3])) % n))] = rng.randint(2, 9)

    def cost(i, j):
        d = abs(p[i] - p[j])
        if min(d, n - d) == 1:
            return rng.randint(5, 9)
        return more.get(frozenset((p[i], p[j])), far + rng.randint(0, 99))
    at = [0] * n
    for i in range(n):
        at[p[i]] = i
    return from_upper(n, cost), at


GENERAL = [lambda r, n: uniform(r, n, 0, 1), lambda r, n: uniform(r, n, 0, 3), lambda r, n: uniform(r, n, 1, 10),
           lambda r, n: uniform(r, n, 1, 100), lambda r, n: uniform(r, n, 0, 1000), lambda r, n: uniform(r, n, 90, 100),
           euclid, line, clusters, tree_metric, star, hidden_cycle, spiky, trap]
METRIC = [euclid, lambda r, n: euclid(r, n, 10, 10), line, tree_metric, star, lambda r, n: uniform(r, n, 1, 2),
          lambda r, n: uniform(r, n, 50, 100), lambda r, n: closure(uniform(r, n, 1, 30)),
          lambda r, n: closure(uniform(r, n, 0, 9)), lambda r, n: closure(clusters(r, n)), lambda r, n: closure(trap(r, n)),
          lambda r, n: closure(hidden_cycle(r, n))]


def is_metric(c):
    n = len(c)
    return all(c[i][j] <= c[i][k] + c[k][j] for i in range(n) for j in range(n) for k in range(n))


def general(rng, n):
    return rng.choice(GENERAL)(rng, n)


def metric(rng, n):
    return rng.choice(METRIC)(rng, n)


def close(rng, case, often=.12, most=1000):
    """sometimes: the same number is added to all costs. All sums stay exact, no tour, tree or matching
    changes its place, but costs differ only in their last digits"""
    if 1 < len(case['c']) <= most and rng.random() < often:
        case['mul'] = case['div'] = 1
        case['off'] = 2.0 ** rng.choice([20, 33, 44, 44])
    return case


def scale(rng, case, scales=SCALES):
    case['mul'], case['div'] = rng.choice(scales)
    return case
