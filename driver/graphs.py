"""C10: the parser. C12: evaluation and matrices. C15: Hamiltonian cycles. C16: graph histories."""
import itertools
import inst
from common import *
from exact import exhaustive, number
from tours import COARSE


def emitted(ctx, module, cfg, word):
    """what TLC printed while it explored"""
    r = tlc(ctx, module, cfg, workers=1)
    ctx.model_states += r.distinct
    ctx.model_transitions += r.generated
    return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"%s (.*)"$' % word, r.out, re.M)]


# ------------------------------------------------------------------- documents

HEADS = [('burma14', 'TSPLIB', '14-Staedte in Burma (Zaw Win)', 15, 5),
         ('x', 'y', 'z', 0, 0),
         ('a b', 'Gr\u00f6\u00dfe & <Quelle>', 'a "quoted" \'text\'; 1 > 0', 4294967295, 1),
         ('n', 's', '\u65e5\u672c', 1, 4294967295),
         ('1', '2', '3', 7, 9)]


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def number_text(rng, v, mul, div, style=None):
    """the decimal text of the cost v * mul / div"""
    x = v * mul / div
    s = style or rng.choice(['repr', 'repr', 'repr', 'sci', 'Sci', 'plus', 'zeros', 'lead'])
    if s == 'sci':
        m = '%.17e' % x
        return m
    if s == 'Sci':
        return repr(x).upper() if 'e' in repr(x) else '%.17E' % x
    if s == 'plus':
        return '+' + repr(x)
    if s == 'zeros' and 'e' not in repr(x):
        return repr(x) + '000'
    if s == 'lead' and 'e' not in repr(x):
        return '00' + repr(x)
    if s == 'int' or (float(x).is_integer() and x < 1e15 and rng.random() < .5):
        return str(int(x))
    return repr(x)


def document(rng, adj, head, mul=1, div=1, pretty=None, style=None):
    nl, tab = ('\n', '  ') if (rng.random() < .5 if pretty is None else pretty) else ('', '')
    out = []
    if rng.random() < .6:
        out.append('<?xml version="1.0" encoding="UTF-8" standalone="no" ?>')
    out.append('<travellingSalesmanProblemInstance>')
    fields = [('name', esc(head[0])), ('source', esc(head[1])), ('description', esc(head[2])),
              ('doublePrecision', head[3]), ('ignoredDigits', head[4])]
    if rng.random() < .3:
        rng.shuffle(fields)
    body = [tab + '<%s>%s</%s>' % (k, v, k) for k, v in fields]
    g = [tab + '<graph>']
    for v in adj:
        g.append(2 * tab + '<vertex>')
        for to, w in v:
            q = rng.choice('""\'')
            g.append(3 * tab + '<edge cost=%s%s%s>%d</edge>' % (q, number_text(rng, w, mul, div, style), q, to))
        g.append(2 * tab + '</vertex>')
        if rng.random() < .05:
            g.append('<!-- a comment with <edge> -->')
    g.append(tab + '</graph>')
    if rng.random() < .15:
        body = g + body          # elements may come in any order
    else:
        body += g
    return nl.join(out + body + ['</travellingSalesmanProblemInstance>']) + nl


def complete(rng, n, lo=0, hi=1000):
    c = inst.from_upper(n, lambda i, j: rng.randint(lo, hi))
    adj = [[[j, c[i][j]] for j in range(n) if j != i] for i in range(n)]
    r = rng.random()
    for v in adj:
        if r < .4:
            rng.shuffle(v)
        elif r < .5:
            v.reverse()
    return adj


def mutate(rng, adj):
    """one or two changes, most of which make the document invalid; TLC decides"""
    adj = [[e[:] for e in v] for v in adj]
    how = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        n = len(adj)
        u = rng.randrange(n)
        e = rng.randrange(len(adj[u])) if adj[u] else None
        kind = rng.choice(['cost', 'cost', 'cost', 'drop', 'dup', 'replace', 'replace', 'loop', 'unknown', 'extra', 'vertex', 'gone', 'both', 'exchange', 'parallel', 'order', 'swapcost'])
        how.append(kind)
        if kind == 'vertex':
            adj.append([])
        elif kind == 'gone':
            adj.pop(rng.choice([u, n - 1]))
        elif e is None:
            continue
        elif kind == 'cost':
            adj[u][e][1] += rng.choice([1, 1, 2, 100])
        elif kind == 'drop':
            adj[u].pop(e)
        elif kind == 'dup':
            adj[u].insert(rng.randint(0, len(adj[u])), adj[u][e][:])
        elif kind == 'replace':
            adj[u][e][0] = rng.randrange(n)
        elif kind == 'loop':
            adj[u][e][0] = u
        elif kind == 'unknown':
            adj[u][e][0] = n + rng.choice([0, 0, 1, 5])
        elif kind == 'extra':
            adj[u].append([rng.randrange(n + 1), rng.randint(0, 9)])
        elif kind == 'both':
            v = adj[u][e][0]
            adj[u].pop(e)
            if v < n:
                adj[v] = [x for x in adj[v] if x[0] != u]
        elif kind == 'exchange' and len(adj[u]) > 1:
            f = (e + 1) % len(adj[u])
            adj[u][e][0], adj[u][f][0] = adj[u][f][0], adj[u][e][0]
        elif kind == 'parallel':
            # an edge is there twice, another one is missing
            f = rng.randrange(len(adj[u]))
            adj[u][f] = adj[u][e][:]
        elif kind == 'order':
            rng.shuffle(adj[u])
        elif kind == 'swapcost':
            # the costs of one vertex are rotated
            w = [x[1] for x in adj[u]]
            for i, x in enumerate(adj[u]):
                x[1] = w[(i + 1) % len(w)]
        if not adj:
            break
    return adj, '+'.join(how)


def malformed(rng, xml):
    """(text, how) of documents that are not well-formed or lack something that is required"""
    out = []
    def sub(pat, rep, how, count=1):
        t = re.sub(pat, rep, xml, count=count)
        if t != xml:
            out.append((t, how))
    sub(r'<name>.*?</name>', '', 'no name')
    sub(r'<source>.*?</source>', '', 'no source')
    sub(r'<description>.*?</description>', '', 'no description')
    sub(r'<doublePrecision>.*?</doublePrecision>', '', 'no doublePrecision')
    sub(r'<ignoredDigits>.*?</ignoredDigits>', '', 'no ignoredDigits')
    sub(r'(?s)<graph>.*</graph>', '', 'no graph')
    sub(r'(?s)<graph>.*</graph>', '<graph></graph>', 'empty graph')
    sub(r'cost=(["\']).*?["\']', r'cost=\1abc\1', 'cost is no number')
    sub(r'cost=(["\']).*?["\']', r'cost=\1\1', 'cost is empty')
    sub(r'cost=(["\']).*?["\']', r'cost=\1NaN\1', 'cost is NaN')
    sub(r'cost=(["\']).*?["\']', r'cost=\1nan\1', 'all costs are NaN', 0)
    sub(r'cost=(["\']).*?["\']', '', 'cost is missing')
    sub(r'cost=(["\']).*?["\']', r'cost=\1 1,5\1', 'decimal comma')
    sub(r' cost=', ' price=', 'cost has another name')
    sub(r'>(\d+)</edge>', r'>-\1</edge>' if rng.random() < .5 else r'>-1</edge>', 'negative target')
    sub(r'>(\d+)</edge>', r'>\1.5</edge>', 'fractional target')
    sub(r'>(\d+)</edge>', r'>x</edge>', 'target is no number')
    sub(r'>(\d+)</edge>', r'></edge>', 'empty target')
    sub(r'</edge>', '</vertex>', 'wrong end tag')
    sub(r'</vertex>', '', 'missing end tag of a vertex')
    sub(r'</graph>', '', 'missing end tag of the graph')
    sub(r'<doublePrecision>.*?<', '<doublePrecision>many<', 'precision is no number')
    sub(r'<ignoredDigits>.*?<', '<ignoredDigits>-1<', 'negative digits')
    sub(r'(?s)(<graph>.*</graph>)', r'\1\1', 'two graphs')
    sub(r'<name>', '<name', 'broken tag')
    return [(t, h) for t, h in out]


def c10(ctx, bg):
    bg.go(ctx.model, 'ParserMachine', 'ParserMachine.cfg', workers=4)
    bg.go(ctx.model, 'ParserMachine', 'ParserCount.cfg', workers=1, expect={'CountIsNotEnough'})
    binary = build_harness()
    rng = ctx.rng
    docs = emitted(ctx, 'ParserMachine', 'ParserEmit.cfg', 'DOC')
    ctx.notes['documents_from_the_model'] = len(docs)
    cases, ops = [], []

    def op(adj, how, mul=1, div=1, style=None, head=None):
        h = head or rng.choice(HEADS)
        return {'op': 'parse', 'xml': document(rng, adj, h, mul, div, style=style), 'doc': adj, 'how': how, 'broken': False,
                'head': dict(zip(('name', 'source', 'description', 'dp', 'ig'), h))}

    def broken(xml, how):
        return {'op': 'parse', 'xml': xml, 'how': how, 'broken': True, 'doc': [], 'head': {}}

    for d in docs:
        ops.append(op(d, 'model'))
    for a in range(0, len(ops), 60):
        cases.append({'mul': 1, 'div': 1, 'ops': ops[a:a + 60]})
    # larger documents, valid ones and ones with a few changes
    for n, count in ctx.sizes([(2, 40), (3, 250), (4, 250), (5, 200), (6, 150), (9, 40), (20, 8), (36, 2), (70, 2)],
                             [(2, 400), (3, 2500), (4, 2500), (5, 2000), (6, 1500), (9, 400), (20, 60), (36, 10), (70, 6), (135, 1)]):
        for _ in range(count):
            # fine: costs that differ by less than any sensible tolerance
            mul, div = rng.choice([(1, 1), (1, 1), (1, 8), (1, 10), (1, 3), (1, 1000), (1, 1e9), (1, 2.0 ** 40), (1e6, 1), (2.0 ** 200, 1), (1, 2.0 ** 200)])
            adj = complete(rng, n, 0, rng.choice([1, 9, 1000]))
            l = [op(adj, 'valid', mul, div), op(adj, 'valid', mul, div)]
            for _ in range(3):
                m, how = mutate(rng, adj)
                if m:
                    l.append(op(m, how, mul, div))
            cases.append({'mul': mul, 'div': div, 'ops': l})
    # malformed documents: every truncation of some of them, and changes of the text
    for n, count in ctx.sizes([(2, 3), (3, 3), (4, 1)], [(2, 20), (3, 20), (4, 10), (6, 4)]):
        for _ in range(count):
            xml = document(rng, complete(rng, n), rng.choice(HEADS), pretty=rng.random() < .5)
            end = xml.rstrip()
            l = [broken(end[:k], 'truncated to %d of %d' % (k, len(end))) for k in range(len(end) - 1)]
            cases.append({'mul': 1, 'div': 1, 'key': 'last-byte-missing', 'ops': [broken(end[:-1], 'without its last byte')]})
            l += [broken(t, h) for t, h in malformed(rng, xml)]
            for a in range(0, len(l), 100):
                cases.append({'mul': 1, 'div': 1, 'ops': l[a:a + 100]})
    for _ in range(ctx.many(60, 600)):
        xml = document(rng, complete(rng, rng.randint(2, 5)), rng.choice(HEADS))
        l = [broken(t, h) for t, h in malformed(rng, xml)]
        end = xml.rstrip()
        for _ in range(6):
            k = rng.randrange(len(end) - 1)
            l.append(broken(end[:k], 'truncated to %d of %d' % (k, len(end))))
        cases.append({'mul': 1, 'div': 1, 'ops': l})
    number(cases)
    for c in cases:
        c['c'] = []
    obs = run_cases(ctx, binary, cases)
    kinds = [o['k'] for o in obs.values()]
    ctx.notes['verdicts_of_the_parser'] = {k: kinds.count(k) for k in sorted(set(kinds))}
    # TLC needs the description of the document, not its text
    texts = {}
    for c in cases:
        for o, x in enumerate(c['ops']):
            texts[c['id'], o] = x.pop('xml')
    before = len(ctx.violations)
    ctx.check('TraceParse', cases, obs)
    for _, detail, _ in ctx.violations[before:]:
        c = detail['case']
        detail['xml'] = [texts[c['id'], o] for o in range(len(c['ops']))][:120]


# ------------------------------------------------------------------ evaluation

def c12(ctx, bg):
    bg.go(ctx.model, 'SelfCheck', 'SelfCheck.cfg', workers=2)
    bg.go(ctx.model, 'MetricMachine', 'MetricMachine.cfg', workers=3)
    bg.go(ctx.model, 'MetricMachine', 'MetricHalf.cfg', workers=1, expect={'OneTriangleIsNotEnough'})
    binary = build_harness()
    rng = ctx.rng
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(5)), (4, [0, 1, 2])],
                                     [(2, range(4)), (3, range(7)), (4, range(4)), (5, [1, 2]), (5, [1, 3])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = [{'op': 'matrices'}] + [{'op': 'eval', 'p': [rng.randrange(n) for _ in range(rng.randint(0, n + 2))]} for _ in range(3)]
    for n in (2, 3, 4):
        c = inst.uniform(rng, n, 1, 50)
        ps = [list(p) for k in range(0, ctx.pick(4, 5)) for p in itertools.product(range(n), repeat=k)]
        cases.append({'c': c, 'ops': [{'op': 'eval', 'p': p} for p in ps]})
    for n, count in ctx.sizes([(4, 120), (5, 200), (6, 200), (8, 150), (12, 60), (25, 10), (40, 2), (70, 1)],
                             [(4, 1200), (5, 2000), (6, 2000), (8, 1500), (12, 600), (25, 100), (40, 20), (70, 4)]):
        for _ in range(count):
            r = rng.random()
            c = inst.metric(rng, n) if r < .6 else inst.general(rng, n)
            if r < .35:
                # one edge is a little too long
                i, j = rng.sample(range(n), 2)
                if rng.random() < .4:
                    i, j = rng.choice([(0, n - 1), (n - 2, n - 1), (0, 1)])
                w = min(c[i][k] + c[k][j] for k in range(n) if k not in (i, j)) if n > 2 else 1
                c[i][j] = c[j][i] = w + rng.choice([0, 1, 1, 2])
            case = inst.scale(rng, {'c': c}, COARSE)
            case['ops'] = [{'op': 'matrices'}] + [{'op': 'eval', 'p': p} for p in
                           [[], [rng.randrange(n)], rng.sample(range(n), n), rng.sample(range(n), rng.randint(2, n)),
                            [rng.randrange(n) for _ in range(rng.randint(2, 2 * n))]]]
            cases.append(case)
    for _ in range(ctx.many(150, 1500)):
        # edges that are too long by very little, compared with their length
        n = rng.randint(3, 9)
        b = int(2 ** rng.uniform(10, 27))
        c = inst.uniform(rng, n, b, 2 * b)
        i, j = rng.choice([(0, n - 1), (n - 2, n - 1), (0, 1), rng.sample(range(n), 2)])
        c[i][j] = c[j][i] = min(c[i][k] + c[k][j] for k in range(n) if k not in (i, j)) + rng.choice([-1, 0, 0, 1, 1, 1, 2])
        cases.append({'c': c, 'mul': 1, 'div': 1, 'ops': [{'op': 'matrices'}]})
    for _ in range(ctx.many(200, 2000)):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 15])
        ps = rng.choice([1, 1, 1 / 8, 1024, 2.0 ** 20])
        at = [0, 0] if rng.random() < .5 else [ps * rng.randint(-1000, 1000), ps * rng.randint(-1000, 1000)]
        cases.append({'ops': [{'op': 'points', 'ps': ps, 'at': at, 'metric': ps <= 1024, 'pts': [[rng.randint(-7, 7), rng.randint(-7, 7)] for _ in range(n)]}]})
    for n in ctx.pick([40, 70, 140], [40, 70, 140, 300]):
        for _ in range(1 if n > 100 else 3):
            cases.append({'ops': [{'op': 'points', 'ps': 1, 'at': [0, 0], 'metric': True, 'pts': [[rng.randint(-7, 7), rng.randint(-7, 7)] for _ in range(n)]}]})
    number(cases)
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceGraph', cases, obs)
    ctx.notes['instances'] = len(cases)


# ------------------------------------------------------------ Hamiltonian cycles

def c15(ctx, bg):
    bg.go(ctx.model, 'HamMachine', 'HamMachine.cfg', workers=3)
    bg.go(ctx.model, 'HamMachine', 'HamOpen.cfg', workers=1, expect={'Exactly'})
    bg.go(ctx.model, 'HamMachine', 'HamTwice.cfg', workers=1, expect={'Exactly'})
    binary = build_harness()
    rng = ctx.rng
    ops = []
    # every sequence over the cities and one unknown city
    for n, top in ctx.pick([(2, 6), (3, 5), (4, 4)], [(2, 9), (3, 7), (4, 6), (5, 5)]):
        for k in range(0, top + 1):
            for p in itertools.product(range(n + 1), repeat=k):
                ops.append({'op': 'ham', 'n': n, 'p': list(p)})
    for p in itertools.product(range(4), repeat=4):
        ops.append({'op': 'ham', 'n': 4, 'p': list(p) + [p[0]]})
    for _ in range(ctx.many(4000, 40000)):
        n = rng.randint(2, 12) if rng.random() < .9 else rng.choice([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300])
        p = rng.sample(range(n), n)
        p.append(p[0])
        r = rng.random()
        m = rng.choice(['ok', 'twice', 'miss', 'long', 'unknown', 'miss2', 'walk', 'three'])
        if m == 'twice':
            p[rng.randrange(1, n)] = rng.randrange(n)
        elif m == 'miss':
            p.pop(rng.randrange(1, n))
        elif m == 'long':
            p.insert(rng.randrange(1, n + 1), rng.randrange(n))
        elif m == 'unknown':
            i = rng.randrange(0, n + 1)
            if i in (0, n):
                p[0] = p[n] = n + rng.randint(0, 3)
            else:
                p[i] = n + rng.randint(0, 3)
        elif m == 'miss2' and n > 2:
            # one city is missing, another one is there twice
            i, j = rng.sample(range(1, n), 2)
            p[i] = p[j]
        elif m == 'walk':
            p = [rng.randrange(n) for _ in range(rng.randint(1, 2 * n))]
            p.append(p[0])
        elif m == 'three':
            # the first city in between, too
            p.insert(rng.randrange(1, n + 1), p[0])
        ops.append({'op': 'ham', 'n': n, 'p': p})
    for often in [255, 256, 257, 258, 511, 512, 513, 514] + ctx.pick([], [65535, 65536, 65537, 65538]):
        for n in (2, 3, 5):
            # a city that is visited so often, everywhere or at once
            x = rng.randrange(n)
            p = rng.sample([y for y in range(n) if y != x], n - 1)
            for _ in range(often):
                p.insert(rng.randrange(n if rng.random() < .5 else len(p) + 1), x)
            ops.append({'op': 'ham', 'n': n, 'p': p + [p[0]]})
            ops.append({'op': 'ham', 'n': n, 'p': [x] * often + [y for y in range(n) if y != x] + [x]})
    cases = number([{'ops': ops[a:a + 200]} for a in range(0, len(ops), 200)])
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceGraph', cases, obs)
    ctx.notes['sequences'] = len(ops)


# ------------------------------------------------------------------- histories

def c16(ctx, bg):
    bg.go(ctx.model, 'HistoryMachine', 'HistoryMachine.cfg', workers=4)
    binary = build_harness()
    rng = ctx.rng
    hs = emitted(ctx, 'HistoryMachine', 'HistoryEmit.cfg', 'HIST')
    ctx.notes['histories_from_the_model'] = len(hs)
    ops = [{'op': 'hist', 'n': h['n'], 'h': h['h']} for h in hs]
    if ctx.quick and len(ops) > 3000:
        ops = rng.sample(ops, 3000)
    for _ in range(ctx.many(600, 6000)):
        n = rng.randint(2, 9)
        h = []
        for _ in range(rng.randint(1, 14)):
            if h and rng.random() < .3:
                u, v, w = rng.choice(h)
                if rng.random() < .5:
                    u, v = v, u
                w = w if rng.random() < .5 else rng.randint(0, 99)
            elif rng.random() < .08:
                u = v = rng.randrange(n)
                w = rng.randint(0, 99)
            else:
                (u, v), w = rng.sample(range(n), 2), rng.randint(0, 99)
            h.append([u, v, w])
        ops.append({'op': 'hist', 'n': n, 'h': h})
    # many vertices, and many edges at a vertex
    for n, m in ctx.pick([(33, 60), (66, 40), (130, 20), (257, 6), (3, 80)], [(33, 150), (65, 100), (66, 100), (130, 60), (257, 20), (300, 10), (2, 300), (3, 300)]):
        ops.append({'op': 'hist', 'n': n, 'h': [[rng.choice([0, n - 1, rng.randrange(n)]), rng.choice([n - 1, rng.randrange(n)]), rng.randint(0, 99)] for _ in range(m)]})
    rng.shuffle(ops)
    cases = number([inst.scale(rng, {'ops': ops[a:a + 20]}) for a in range(0, len(ops), 20)])
    obs = run_cases(ctx, binary, cases)
    ctx.check('TraceGraph', cases, obs)
    ctx.notes['histories'] = len(ops)
