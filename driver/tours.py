"""C07: nearest neighbour. C08: the randomized matching. C09: Christofides. C17: everything is ordered."""
import inst
from common import *
from exact import exhaustive, number

EXACT_SCALES = [(1, 1)] * 3 + [(1, 8), (2.0 ** 40, 1), (2.0 ** 200, 1), (1e6, 1), (1, 10), (1, 3)]
# the metric test has an absolute slack of 1e-10
COARSE = [(1, 1)] * 3 + [(1, 8), (1, 10), (1, 3), (1, 1000), (2.0 ** 40, 1), (2.0 ** 200, 1), (1e6, 1)]


def distinct(rng, n):
    """no two costs are equal, so there is only one greedy tour per start"""
    k = n * (n - 1) // 2
    w = rng.sample(range(1, 20 * k + 10), k)
    it = iter(w)
    return inst.from_upper(n, lambda i, j: next(it))


def far_last(rng, n):
    """the best start is one particular city"""
    c = distinct(rng, n)
    s = rng.choice([0, n - 1, rng.randrange(n)])
    for i in range(n):
        if i != s:
            c[i][s] = c[s][i] = c[i][s] + 30 * n * n
    return c


def c07(ctx, bg):
    bg.go(ctx.model, 'Greedy', ctx.pick('GreedyQ.cfg', 'Greedy.cfg'), workers=4)
    bg.go(ctx.model, 'Greedy', 'GreedyOpen.cfg', workers=1, expect={'Right'})
    bg.go(ctx.model, 'Greedy', 'GreedyRepeat.cfg', workers=1, expect={'BestOfLog'})
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(3)), (4, [0, 1, 3])],
                                     [(2, range(4)), (3, range(5)), (4, range(4)), (5, [0, 1]), (5, [1, 3])]))
    for n, count in ctx.sizes([(5, 120), (6, 120), (7, 120), (10, 100), (15, 60), (25, 20), (60, 4), (70, 2), (135, 1)],
                             [(5, 1500), (6, 1500), (7, 1200), (10, 1000), (15, 600), (25, 300), (60, 40), (70, 10), (135, 6)]):
        for _ in range(count):
            c = inst.general(rng, n) if n <= 6 and rng.random() < .6 else rng.choice([distinct, distinct, far_last])(rng, n)
            cases.append(inst.close(rng, inst.scale(rng, {'c': c}, EXACT_SCALES)))
    for case in cases:
        n = len(case['c'])
        ops = [{'op': 'nn1', 's': s} for s in (range(n) if n <= 8 else rng.sample(range(n), 5))]
        for m in ('seq', 'par'):
            ops.append({'op': 'nn', 'mode': m})
            for k in ({1, 2, n - 1, n, rng.randint(1, n)} - {0} if n > 4 else range(1, n + 1)):
                ops += [{'op': 'nnk', 'mode': m, 'num': k}] * (2 if k == n - 1 else 1)
        case['ops'] = ops
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceTour', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})


def c08(ctx, bg):
    bg.go(ctx.model, 'MatchingMachine', 'MatchingMachine.cfg', workers=3)
    bg.go(ctx.model, 'MatchingMachine', 'MatchingDup.cfg', workers=1, expect={'Perfect'})
    bg.go(ctx.model, 'MatchingMachine', 'MatchingSwap.cfg', workers=1, expect={'NeverWorse'})
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    if not ctx.quick:
        bg.go(ctx.model, 'MatchingMachine', 'MatchingMachine5.cfg')
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(4, range(3))], [(4, range(4)), (5, [0, 1])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = [{'op': 'match', 'mode': m, 'verts': v, 'tries': t}
                    for m in ('seq', 'par') for v in (list(range(4)), [n - 1, 0, 2, 1]) for t in (1, 1, 2)]
    for n, count in ctx.sizes([(4, 40), (5, 100), (6, 100), (7, 100), (9, 100), (14, 60), (40, 20)],
                             [(4, 400), (5, 1500), (6, 1500), (7, 1500), (9, 1500), (14, 800), (40, 200), (150, 20)]):
        for _ in range(count):
            case = inst.close(rng, inst.scale(rng, {'c': inst.general(rng, n)}))
            ops = []
            for _ in range(4):
                k = 2 * rng.randint(0, n // 2)
                for kk in {k, min(n // 2 * 2, rng.choice([4, 4, 6, 8]))}:
                    v = rng.sample(range(n), kk)
                    ops.append({'op': 'match', 'mode': rng.choice(['seq', 'par']), 'verts': v,
                                'tries': rng.choice([0, 1, 1, 2, 5, 30] if kk > 8 or rng.random() < .5 else [400])})
            # a pair and no pair
            ops.append({'op': 'match', 'mode': rng.choice(['seq', 'par']), 'verts': rng.sample(range(n), 2), 'tries': 3})
            ops.append({'op': 'match', 'mode': rng.choice(['seq', 'par']), 'verts': [], 'tries': 3})
            case['ops'] = ops
            cases.append(case)
    # large enough for the work to be split between threads
    for size in ctx.pick([3998, 4002, 8006, 8012], [1998, 3998, 4000, 4002, 4006, 8000, 8002, 8006, 8012, 9000]):
        v = list(range(9050))
        rng.shuffle(v)
        cases.append({'ops': [{'op': 'match', 'mode': m, 'dim': 9050, 'verts': v[:size], 'tries': t} for m, t in (('par', 3), ('seq', 2))]})
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceTour', cases, obs)
    ctx.notes['instances'] = len(cases)


def c09(ctx, bg):
    bg.go(ctx.model, 'ChristofidesMachine', 'Christofides4.cfg', workers=3)
    bg.go(ctx.model, 'ChristofidesMachine', 'Christofides5.cfg', workers=3)
    bg.go(ctx.model, 'ChristofidesMachine', 'Christofides4Append.cfg', workers=1, expect={'EulerIsEuler'})
    bg.go(ctx.model, 'ChristofidesMachine', 'Christofides4Simple.cfg', workers=1, expect={'WalkCloses'})
    if not ctx.quick:
        bg.go(ctx.model, 'ChristofidesMachine', 'Christofides5Any.cfg')
    binary = build_harness()
    rng = ctx.rng
    cases = [c for c in exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(5)), (4, [1, 2])],
                                                 [(2, range(4)), (3, range(6)), (4, range(5)), (5, [1, 2])]))
             if inst.is_metric(c['c'])]
    for n, count in ctx.sizes([(4, 60), (5, 120), (6, 150), (7, 150), (8, 120), (9, 50), (12, 50), (20, 30), (45, 6), (70, 2), (140, 2), (260, 1)],
                             [(4, 500), (5, 1500), (6, 1500), (7, 1500), (8, 1200), (9, 500), (12, 500), (20, 300), (45, 80), (70, 20), (135, 3)]):
        for _ in range(count):
            c = inst.metric(rng, n) if n <= 70 else rng.choice([inst.euclid, inst.tree_metric, inst.line])(rng, n)
            assert n > 70 or inst.is_metric(c)
            cases.append(inst.scale(rng, {'c': c}, COARSE))
    for case in cases:
        n = len(case['c'])
        with_ = ['exact', 'naive', 'nested', 'tree', 'approx']
        if n > 12:
            with_.remove('exact')
        case['ops'] = [{'op': 'chris', 'mode': m} for m in ('seq', 'par')] + \
                      [{'op': 'chris', 'mode': m, 'with': w} for w in with_ for m in ('seq', 'par')]
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceTour', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})


def c17(ctx, bg):
    bg.go(ctx.model, 'Greedy', ctx.pick('GreedyQ.cfg', 'Greedy.cfg'), workers=4)
    bg.go(ctx.model, 'OneTreeMachine', 'OneTreeMachine.cfg', workers=3)
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(4)), (4, [0, 1, 3])],
                                     [(2, range(4)), (3, range(6)), (4, range(4)), (5, [0, 1]), (5, [1, 3])]))
    for n, count in ctx.sizes([(5, 120), (6, 120), (7, 100), (8, 50), (9, 16), (12, 20), (25, 6), (60, 2), (70, 2)],
                             [(5, 1500), (6, 1500), (7, 1200), (8, 600), (9, 200), (12, 300), (25, 100), (60, 20), (70, 6), (135, 1)]):
        for _ in range(count):
            metric = rng.random() < .5
            cases.append(inst.scale(rng, {'c': inst.metric(rng, n) if metric else inst.general(rng, n)}, COARSE))
    for case in cases:
        n = len(case['c'])
        ops = [{'op': 'mst', 'var': v} for v in ('prim_seq', 'prim_par')] + [{'op': 'mst', 'var': 'pq', 'ex': []}]
        ops += [{'op': 'otb', 'mode': m} for m in ('seq', 'par')]
        if n <= 9:
            ops += [{'op': s} for s in ('v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6') if n <= 6 or s >= 'v3' and n <= 7 or s >= 'v5']
            ops += [{'op': 'thr', 't': t} for t in sorted({1, rng.randint(2, min(8, NCPU)) if NCPU > 1 else 1})]
        for m in ('seq', 'par'):
            ops.append({'op': 'nn', 'mode': m})
            ops.append({'op': 'nnk', 'mode': m, 'num': rng.randint(1, n)})
            if inst.is_metric(case['c']):
                ops.append({'op': 'chris', 'mode': m})
        case['ops'] = ops
    number(cases)
    obs = run_cases(ctx, binary, cases, limit=60)
    for o in obs.values():
        o.pop('ev', None)
        o.pop('adj', None)
    ctx.check('TraceOrder', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})
