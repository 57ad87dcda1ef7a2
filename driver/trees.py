"""C05: spanning trees. C06: 1-trees and the 1-tree bound."""
import inst
from common import *
from exact import exhaustive, number


def holes(rng, c):
    """removes some edges"""
    n = len(c)
    q = rng.choice([.2, .5, .8])
    for i in range(n):
        for j in range(i):
            if rng.random() < q:
                c[i][j] = c[j][i] = INF
    return c


def msts(rng, n, ex=None):
    ops = [{'op': 'mst', 'var': v, 'ex': e} for e in (ex or []) for v in ('seq', 'par', 'pq')]
    return [{'op': 'mst', 'var': v} for v in ('prim_seq', 'prim_par')] + \
           [{'op': 'mst', 'var': v, 'ex': []} for v in ('seq', 'par', 'pq')] + ops


def subsets(rng, n, k):
    out = [[i] for i in range(n)] if k > n else []
    while len(out) < k:
        e = rng.sample(range(n), rng.randint(1, n))
        if e not in out:
            out.append(e)
        elif n < 3:
            break
    # some vertices are named more than once
    for e in rng.sample(out, len(out) // 2 + rng.randint(0, 1) if out else 0)[:2]:
        out.append([rng.choice(e) for _ in range(rng.randint(len(e), 2 * len(e)))] + [rng.choice(e)])
    return out


def c05(ctx, bg):
    bg.go(ctx.model, 'PrimMachine', 'PrimMachine.cfg', workers=3)
    bg.go(ctx.model, 'PrimMachine', 'PrimMachineInf.cfg', workers=2)
    bg.go(ctx.model, 'PrimMachine', 'PrimMachineRewire.cfg', workers=1, expect={'IsMinimal'})
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    if not ctx.quick:
        bg.go(ctx.model, 'PrimMachine', 'PrimMachine5.cfg')
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(1, [0]), (2, [0, 1, INF]), (3, [0, 1, 2, INF]), (4, [1, 2, INF])],
                                     [(1, [0]), (2, [0, 1, INF]), (3, [0, 1, 2, 3, INF]), (4, [0, 1, 2, INF]), (5, [1, INF]), (5, [1, 2])]))
    for c in cases:
        n = len(c['c'])
        full = [[i for i in range(n) if m >> i & 1] for m in range(1, 2 ** n)]
        few = full if n <= 3 else rng.sample(full, 4)
        twice = rng.choice(few) if few else []
        c['ops'] = msts(rng, n, few + [twice + twice[::-1]])
    for n, count in ctx.sizes([(5, 250), (6, 250), (8, 200), (11, 150), (16, 100), (25, 50), (50, 12), (70, 4), (135, 2)],
                             [(5, 2000), (6, 2000), (8, 2000), (11, 1500), (16, 1000), (25, 600), (50, 200), (70, 50), (135, 20), (260, 2)]):
        for _ in range(count):
            c = inst.general(rng, n)
            if rng.random() < .35:
                c = holes(rng, c)
            case = inst.close(rng, inst.scale(rng, {'c': c}))
            case['ops'] = msts(rng, n, subsets(rng, n, 3 if n < 20 else 1))
            cases.append(case)
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceTree', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})


def c06(ctx, bg):
    bg.go(ctx.model, 'OneTreeMachine', 'OneTreeMachine.cfg', workers=3)
    bg.go(ctx.model, 'OneTreeMachine', 'OneTreeForget.cfg', workers=1, expect={'TwoEdges'})
    bg.go(ctx.model, 'PrimMachine', 'PrimMachine.cfg', workers=3)
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(2, range(4)), (3, range(4)), (4, [0, 1, 3])],
                                     [(2, range(5)), (3, range(6)), (4, range(4)), (5, [0, 1]), (5, [1, 3])]))
    for n, count in ctx.sizes([(5, 250), (6, 250), (7, 200), (8, 120), (11, 80), (16, 40), (30, 8)],
                             [(5, 2000), (6, 2000), (7, 1500), (8, 1000), (11, 800), (16, 400), (30, 80), (60, 6)]):
        for _ in range(count):
            cases.append(inst.close(rng, inst.scale(rng, {'c': inst.general(rng, n)})))
    # many cities: the best special vertex may be any of them
    for n in ctx.pick([66, 100], [66, 70, 100, 130]):
        for far in ctx.pick([n - 1], [n - 1, n // 2, 0]):
            cases.append({'c': inst.from_upper(n, lambda i, j: 100 + min(i, j) % 7 if far in (i, j) else rng.choice([0, 1, 1]) + (i + j) % 3), 'mul': 1, 'div': 1})
    for c in cases:
        n = len(c['c'])
        c['ops'] = [{'op': 'onetree', 's': s} for s in (range(n) if n <= 11 else rng.sample(range(n), 4))] + \
                   [{'op': 'otb', 'mode': m} for m in ('seq', 'par')]
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceTree', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})
