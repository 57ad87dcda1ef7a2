"""C01: the sequential exact solvers. C02: the multi-threaded exact solver. C11: enumeration."""
import os, json
import inst
from common import *

SOLVERS = ['v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6']


def enumerate_instances(ctx, n, W):
    """all instances with n cities and costs from W, listed by TLC"""
    k = ctx.tick()
    out = os.path.join(ctx.work, 'inst%d.ndjson' % k)
    cfg = os.path.join(ctx.work, 'GenInst%d.cfg' % k)
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS N = %d W = {%s}\nCHECK_DEADLOCK FALSE\n' % (n, ', '.join(map(str, W))))
    tlc(ctx, 'GenInst', cfg, env={'OUT': out}, workers=1)
    return [json.loads(l) for l in open(out)]


def exhaustive(ctx, sizes):
    cases = []
    for n, W in sizes:
        for c in enumerate_instances(ctx, n, W):
            cases.append({'c': c, 'mul': 1, 'div': 1})
    ctx.notes['exhaustive_instances'] = ctx.notes.get('exhaustive_instances', 0) + len(cases)
    return cases


def huge_case(rng, n):
    """a tour of small cost exists, some other edges are astronomically expensive"""
    p = list(range(n))
    rng.shuffle(p)
    good = {frozenset((p[i], p[(i + 1) % n])) for i in range(n)}
    H = 10 ** 7
    c = inst.from_upper(n, lambda i, j: rng.randint(0, 9) if frozenset((i, j)) in good or rng.random() < .4 else H)
    return {'c': c, 'mul': 1, 'div': 1, 'huge': H}


def number(cases):
    for i, c in enumerate(cases):
        c['id'] = i
    return cases


def c01(ctx, bg):
    bg.go(ctx.model, 'BranchBound', 'BranchBound.cfg', workers=4)
    bg.go(ctx.model, 'BranchBound', 'BranchBoundLive.cfg', workers=2)
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    for k, inv in (('v4full', 'PruneIsAdmissible'), ('v5directed', 'PruneIsAdmissible'), ('v6length', 'PruneIsAdmissible'), ('v1skip', 'Optimal')):
        bg.go(ctx.model, 'BranchBound', 'BranchBound_%s.cfg' % k, workers=2, expect={inv})
    if not ctx.quick:
        bg.go(ctx.model, 'BranchBound', 'BranchBound5.cfg')
    binary = build_harness()
    rng = ctx.rng

    cases = exhaustive(ctx, ctx.pick([(2, range(4)), (3, range(4)), (4, [0, 1, 3])],
                                     [(2, range(4)), (3, range(6)), (4, range(4)), (5, [0, 1]), (5, [1, 2]), (5, [2, 9])]))
    for c in cases:
        c['ops'] = [{'op': s, 'rep': 'na'} for s in SOLVERS]
    # random instances of all families; larger ones for the solvers that can manage them
    for n, count in ctx.sizes([(4, 30), (5, 160), (6, 220), (7, 200), (8, 60), (9, 16), (10, 4)],
                             [(4, 200), (5, 2000), (6, 3000), (7, 2500), (8, 600), (9, 160), (10, 24), (11, 6)]):
        for _ in range(count):
            if rng.random() < .05 and n >= 4:
                case = huge_case(rng, n)
            else:
                c = inst.general(rng, n) if n < 10 else rng.choice([inst.euclid, inst.clusters, lambda r, m: inst.uniform(r, m, 1, 1000)])(rng, n)
                case = inst.close(rng, inst.scale(rng, {'c': c}), most=8)      # bounds do not prune there
            todo = [s for s in SOLVERS if n <= 7 or (s == 'v1' and n <= 9) or s in ('v2', 'v3', 'v4', 'v5', 'v6') and n <= 8 or
                    s in ('v3', 'v4', 'v5', 'v6') and n <= 9 or s in ('v4', 'v5', 'v6')]
            case['ops'] = [{'op': s, 'rep': 'vec' if s < 'v5' and rng.random() < .5 else 'na'} for s in todo]
            cases.append(case)
    # many cities, for the solvers that prune
    for n, count in ctx.sizes([(11, 6), (12, 6), (13, 6), (16, 6), (20, 4), (24, 3), (33, 2)], [(n, 40 if n < 20 else 8) for n in range(11, 34)] + [(40, 4)]):
        for _ in range(count):
            c, known = inst.ring(rng, n, rng.randint(1, 4), rng.randint(0, 1 if n < 40 else 0))
            cases.append(inst.scale(rng, {'c': c, 'known': known, 'ops': [{'op': s, 'rep': 'vec' if s < 'v5' and rng.random() < .5 else 'na'} for s in SOLVERS[3:]]}))
    number(cases)
    obs = run_cases(ctx, binary, cases, limit=60)
    ctx.check('TraceExact', cases, obs)
    ctx.notes['instances'] = len(cases)
    ctx.notes['distinct_instances'] = len({json.dumps((c['c'], c['mul'], c['div'], c.get('off'))) for c in cases})
    ctx.notes['sizes'] = sorted({len(c['c']) for c in cases})
    ctx.assumptions += ['costs are integers times a common factor, so that sums are decided without rounding tolerance']


def digits(v, b, w):
    return [(v // b ** (w - 1 - i)) % b for i in range(w)]


def c11(ctx, bg):
    bg.go(ctx.model, 'EnumerateMC', ctx.pick('EnumerateQ.cfg', 'EnumerateMC.cfg'))
    bg.go(ctx.model, 'EnumerateMC', 'EnumerateBad.cfg', workers=1, expect={'NotFromAnywhere'})
    binary = build_harness()
    rng = ctx.rng
    ops = []
    import itertools
    # permutations: every start of up to 4 values, then random longer ones
    for n in range(1, ctx.pick(5, 6)):
        for a in itertools.product(range(min(n, 4)), repeat=n):
            ops.append({'op': 'perm', 'a': list(a), 'limit': 200})
    for n in range(5, ctx.pick(8, 9)):
        ops.append({'op': 'perm', 'a': list(range(n)), 'limit': 50000})
    for _ in range(ctx.many(150, 1500)):
        n = rng.randint(4, 9)
        vals = rng.choice([range(2), range(3), range(n), [-5, 0, 7], range(-3, 60)])
        a = [rng.choice(vals) for _ in range(n)]
        if rng.random() < .5:
            a.sort()
        ops.append({'op': 'perm', 'a': a, 'limit': rng.choice([50, 400, 3000])})
    for _ in range(ctx.many(60, 300)):
        # the last steps before the end
        n = rng.randint(2, 12)
        a = sorted(rng.sample(range(40), n), reverse=True)
        k = rng.randint(1, min(n, 5))
        tail = a[n - k:]
        rng.shuffle(tail)
        ops.append({'op': 'perm', 'a': a[:n - k] + tail, 'limit': 500})
    for _ in range(ctx.many(40, 300)):
        # long ones, somewhere and just before a large carry
        n = rng.choice([20, 50, 130, 257, 300])
        a = rng.sample(range(-1000, 1000), n)
        k = rng.choice([1, 2, 5, n // 2, n - 3])
        a[n - k:] = sorted(a[n - k:], reverse=True)
        a[n - k - 1] = min(a) - 1
        ops.append({'op': 'perm', 'a': a, 'limit': rng.randint(2, 6)})
    # successors: every number in small bases, then random ones, many at a carry
    for b in range(1, ctx.pick(7, 9)):
        for w in range(1, 4):
            for v in range(b ** w):
                ops.append({'op': 'next', 'd': digits(v, b, w), 'b': b})
    for _ in range(ctx.many(400, 4000)):
        b, w = rng.randint(2, 200), rng.randint(1, 9)
        d = [rng.randrange(b) for _ in range(w)]
        for i in range(w - rng.randint(0, w), w):
            d[i] = b - 1
        ops.append({'op': 'next', 'd': d, 'b': b})
    for b in [127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 10 ** 6, 2 ** 31 - 2] + \
            [int(2 ** rng.uniform(8, 30)) for _ in range(ctx.many(20, 200))]:
        # wide digits: around the powers of two and at the carry
        for _ in range(8):
            w = rng.randint(1, 4)
            near = [v for v in (0, 126, 127, 128, 254, 255, 256, 32767, 65534, 65535, 65536, b - 2, b - 1) if 0 <= v < b]
            d = [rng.choice(near) if rng.random() < .6 else rng.randrange(b) for _ in range(w)]
            for i in range(w - rng.choice([0, 1, 1, w]), w):
                d[i] = b - 1
            ops.append({'op': 'next', 'd': d, 'b': b})
    # chunks: every number of chunks of small spaces, then random ones
    for b in range(2, ctx.pick(6, 8)):
        for w in range(1, 4):
            for num in range(1, b ** w):
                if num <= 40 or num % 7 == 0 or num > b ** w - 8:
                    ops.append({'op': 'split', 'd': w, 'b': b, 'num': num})
    for _ in range(ctx.many(200, 2000)):
        w = rng.randint(1, 4)
        b = rng.randint(2, {1: 5000, 2: 1000, 3: 200, 4: 60}[w])
        num = rng.randint(1, min(b ** w - 1, rng.choice([4, 16, 64, 200])))
        ops.append({'op': 'split', 'd': w, 'b': b, 'num': num})
    for _ in range(ctx.many(40, 300)):
        # large spaces: the ends of few chunks
        w = rng.randint(1, 4)
        b = rng.randint(2, {1: 2 * 10 ** 9, 2: 44000, 3: 1200, 4: 200}[w])
        ops.append({'op': 'split', 'd': w, 'b': b, 'num': rng.randint(1, min(b ** w - 1, 30))})
    for _ in range(ctx.many(150, 1500)):
        # very large spaces: some of many chunks
        while True:
            w = rng.randint(1, 8)
            b = min(2 ** 31 - 2, max(2, int(2 ** (rng.uniform(8, 62.9) / w))))
            if b ** w < 2 ** 63:
                break
        num = min(b ** w - 1, int(2 ** rng.uniform(0, rng.choice([5, 16, 33, 62]))))
        ks = {0, num - 1}
        for _ in range(8):
            k = rng.choice([rng.randrange(num), int(2 ** rng.uniform(0, 63)), (2 ** rng.choice([8, 16, 31, 32]) * num) // (b ** w), (2 ** rng.choice([8, 16, 31, 32]))])
            ks |= {i for i in range(k - 1, k + 2) if 0 <= i < num}
        ops.append({'op': 'splitat', 'd': w, 'b': b, 'num': str(num), 'ks': [str(k) for k in sorted(ks)]})
    rng.shuffle(ops)
    cases = number([{'ops': ops[a:a + 20]} for a in range(0, len(ops), 20)])
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceEnum', cases, obs)
    ctx.notes['operations'] = {k: sum(o['op'] == k for o in ops) for k in ('perm', 'next', 'split', 'splitat')}


def schedules(ctx, num):
    """schedules of the critical sections, generated by TLC from ThreadedGen.tla"""
    r = tlc(ctx, 'ThreadedGen', 'ThreadedGen.cfg', workers=1,
            args=['-simulate', 'num=%d' % num, '-depth', '600', '-seed', str(ctx.seed)])
    out = {}
    for m in re.finditer(r'^"SCHED (.*)"$', r.out, re.M):
        s = json.loads(m.group(1).replace('\\"', '"'))
        out.setdefault((s['n'], s['t']), []).append(s['s'])
    return out


def follows(ops):
    """does the recorded sequence of updates follow Threaded.tla? (a note, never a verdict)"""
    bad = 0
    for x in ops:
        best = INF
        if any(e[1] < 0 or e[2] < 0 for e in x.get('ev', [])):
            continue
        for w, b, a, p in x.get('ev', []):
            if b != best or a > b:
                bad += 1
                break
            best = a
    return bad


def c02(ctx, bg):
    bg.go(ctx.model, 'Threaded', 'Threaded.cfg', workers=4)
    bg.go(ctx.model, 'Threaded', 'ThreadedLive.cfg', workers=2)
    bg.go(ctx.model, 'Threaded', 'ThreadedOutside.cfg', workers=1, expect={'BestOfAll'})
    bg.go(ctx.model, 'Threaded', 'ThreadedOverwrite.cfg', workers=1, expect={'BestOfAll'})
    bg.go(ctx.model, 'EnumerateMC', 'EnumerateQ.cfg', workers=2)
    if not ctx.quick:
        bg.go(ctx.model, 'Threaded', 'Threaded4.cfg')
    binary = build_harness(hooks=True)
    rng = ctx.rng
    cpus = len(os.sched_getaffinity(0))
    ctx.notes['largest_thread_count'] = cpus
    sched = schedules(ctx, ctx.pick(300, 3000))
    ctx.notes['schedules'] = sum(map(len, sched.values()))

    def op(t, s=None):
        o = {'op': 'thr', 't': t}
        if s:
            o['sched'] = s
        return o
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(3)), (4, [0, 1, 3])],
                                     [(2, range(4)), (3, range(4)), (4, range(4)), (5, [1, 2])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = [op(t) for t in sorted({1, 2, 3, n, 8}) if t <= cpus]
    # free running threads, every number of threads
    for n, count in ctx.sizes([(4, 60), (5, 150), (6, 150), (7, 60), (8, 20), (9, 4)],
                             [(4, 300), (5, 1500), (6, 1500), (7, 800), (8, 250), (9, 60)]):
        for _ in range(count):
            case = huge_case(rng, n) if rng.random() < .05 else inst.close(rng, inst.scale(rng, {'c': inst.general(rng, n)}), most=8)
            case['ops'] = [op(t) for t in range(1, cpus + 1) if t <= n + 1] * (1 if n > 6 else 2)
            cases.append(case)
    for n, count in ctx.sizes([(10, 4), (11, 3), (12, 2)], [(10, 30), (11, 30), (12, 20), (13, 10)]):
        for _ in range(count):
            c, known = inst.ring(rng, n, rng.randint(1, 4), rng.randint(0, 1))
            cases.append(inst.scale(rng, {'c': c, 'known': known, 'ops': [op(t) for t in sorted({rng.randint(2, 7), min(8, cpus)}) if t <= cpus]}))
    # the schedules of the specification
    for (n, t), ss in sorted(sched.items()):
        if t > cpus:
            continue
        for a in range(0, len(ss), 6):
            case = inst.scale(rng, {'c': inst.general(rng, n)})
            case['ops'] = [op(t, s) for s in ss[a:a + 6]]
            cases.append(case)
    number(cases)
    obs = run_cases(ctx, binary, cases, limit=60, shards=max(2, cpus // 2))
    for o in obs.values():
        ctx.notes['critical_sections'] = ctx.notes.get('critical_sections', 0) + len(o.get('ev', []))
        ctx.notes['scheduled_turns_skipped'] = ctx.notes.get('scheduled_turns_skipped', 0) + o.get('forced', 0)
    ctx.notes['update_logs_off_the_model'] = follows(obs.values())
    for o in obs.values():
        o.pop('ev', None)
    ctx.check('TraceExact', cases, obs)
    ctx.notes['instances'] = len(cases)
