"""C14: runs of the program. C18: the instance generators and the program on what they generate."""
import contextlib
import math
import threading
import inst
from common import *
from exact import number
from graphs import HEADS, document, emitted, malformed
from message import build_mpi, mpirun, real_works, world
from tours import COARSE, distinct, far_last


def build_programs():
    """what a user runs"""
    return cargo(VERIF + '/harness', 'release', ['--release', '--bin', 'walkycli', '--bin', 'gen_matrix_fast'], clean=('walky', 'walkyh'))


# ---------------------------------------------------------------- reading output

WORDS = [('best cost', 'cost'), ('best permutation', 'tour'), ('christofides solution weight', 'chris'),
         ('nearest neighbour solution weight', 'nn'), ('nearest neighbour solution', 'nntour'),
         ('1-tree lower bound', 'onetree'), ('mst lower bound', 'mst')]


def encode(text, mul, div, approximate=False):
    """the number as an integer of the model, as Inst::enc of the harness does it"""
    try:
        x = float(text)
    except ValueError:
        return 'garbage', -1
    if math.isnan(x) or math.isinf(x):
        return 'inf', -1
    y = x / mul * div
    r = round(y)
    if not approximate and abs(y - r) > 1e-6 * max(1.0, abs(r)):
        return 'frac', -1
    if abs(r) > 2e9:
        return 'big', -1
    return 'num', r


def results(out, mul, div, approximate=False):
    items = []
    for line in out.splitlines():
        l = line.lower()
        w = next((w for t, w in WORDS if t in l), None)
        if w is None:
            continue
        text = line[line.rindex(':') + 1:].strip() if ':' in line else ''
        y = {'w': w, 'k': 'num', 'v': 0, 'p': []}
        if w in ('tour', 'nntour'):
            ns = re.findall(r'-?\d+', text)
            y['p'] = [int(x) if len(x) < 9 else -1 for x in ns]
        else:
            y['k'], y['v'] = encode(text, mul, div, approximate)
        items.append(y)
    return items


# --------------------------------------------------------------------- running

def arguments(cmd, path):
    a = [cmd['sub'], cmd['alg'], path]
    if cmd['par'] != 'default':
        a += ['-p', cmd['par']]
    if cmd['lb'] != 'none':
        a += ['-l', cmd['lb']]
    return a


def run_program(binary, args, cwd, cpus=None, rayon=None, timeout=60, env=None):
    e = dict(os.environ)
    e.pop('RUST_BACKTRACE', None)
    if rayon:
        e['RAYON_NUM_THREADS'] = str(rayon)
    e.update(env or {})
    cmd = (['taskset', '-c', ','.join(map(str, cpus))] if cpus else []) + [binary] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', False, '', ''
    return ('exit' if r.returncode >= 0 else 'crash'), r.returncode == 0, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')[-400:]


class Changing:
    """a file that contains one thing when it is opened first, and another thing from then on (a named pipe),
    possibly written in several pieces"""
    def __init__(self, path, first, then, cuts=()):
        self.path, self.texts, self.ended, self.cuts = path, [first, then], False, [0, *sorted(cuts)]
        os.mkfifo(path)

    def __enter__(self):
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def __exit__(self, *_):
        self.ended = True
        self.thread.join()
        os.unlink(self.path)

    def opened(self):
        try:
            return os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            return None         # nobody reads

    def serve(self):
        i = 0
        while not self.ended:
            fd = self.opened()
            if fd is None:
                time.sleep(.002)
                continue
            os.set_blocking(fd, True)
            try:
                with os.fdopen(fd, 'wb') as f:
                    text = self.texts[min(i, 1)]
                    for a, b in zip(self.cuts, self.cuts[1:] + [len(text)]):
                        f.write(text[a:b])
                        f.flush()
                        if b < len(text):
                            time.sleep(.03)
            except BrokenPipeError:
                pass
            i += 1
            while not self.ended:
                # until the reader has seen the end and is gone
                fd = self.opened()
                if fd is None:
                    break
                os.close(fd)
                time.sleep(.005)


# -------------------------------------------------------------------- the files

def adjacency(c):
    n = len(c)
    return [[[j, c[i][j]] for j in range(n) if j != i] for i in range(n)]


def valid_file(rng, case):
    adj = adjacency(case['c'])
    if rng.random() < .5:
        for v in adj:
            rng.shuffle(v)
    return document(rng, adj, rng.choice(HEADS), case['mul'], case['div'])


def invalid_text(rng):
    """(bytes, what is wrong) of a file that has to be refused"""
    n = rng.randint(2, 5)
    c = inst.uniform(rng, n, 0, 99)
    adj = adjacency(c)
    for v in adj:
        rng.shuffle(v)
    kind = rng.choice(['empty', 'binary', 'utf8', 'utf8', 'text', 'truncated', 'truncated', 'malformed', 'malformed', 'malformed',
                       'asymmetric', 'asymmetric', 'dropped', 'double', 'loop', 'unknown', 'no edges of a vertex', 'onesided'])
    u = rng.randrange(n)
    e = rng.randrange(len(adj[u]))
    head = rng.choice(HEADS)
    if kind == 'empty':
        return b'', kind
    if kind == 'binary':
        return bytes(rng.randrange(256) for _ in range(200)), kind
    if kind == 'text':
        return b'0 1 2\n1 0 3\n2 3 0\n', kind
    if kind == 'asymmetric':
        adj[u][e][1] += rng.choice([1, 1, 100])
    elif kind == 'dropped':
        adj[u].pop(e)
    elif kind == 'double':
        adj[u].insert(rng.randint(0, len(adj[u])), adj[u][e][:])
    elif kind == 'loop':
        adj[u][e][0] = u
    elif kind == 'unknown':
        adj[u][e][0] = n + rng.randint(0, 3)
    elif kind == 'no edges of a vertex':
        adj.append([])
    elif kind == 'onesided':
        # an edge is missing in both directions
        v = adj[u][e][0]
        adj[u].pop(e)
        adj[v] = [x for x in adj[v] if x[0] != u]
    xml = document(rng, adj, head)
    if kind == 'utf8':
        b = xml.encode()
        i = rng.randrange(len(b.rstrip()) - 1)
        if rng.random() < .7:
            # where any text is allowed
            i = b.index(b'</' + rng.choice([b'name', b'source', b'description']) + b'>')
        return b[:i] + rng.choice([b'\xff\xfe', b'\xe9', b'\xc3', b'\x80']) + b[i:], kind
    if kind == 'truncated':
        t = xml.rstrip()
        return t[:rng.randrange(len(t) - 1)].encode(), kind
    if kind == 'malformed':
        t, how = rng.choice(malformed(rng, xml))
        return t.encode(), how
    return xml.encode(), kind


# ------------------------------------------------------------------------- C14

def usage_errors(path, missing):
    return [['exact', 'v7', path], ['exact', 'v1'], ['approx', 'christofides'], ['lower-bound', 'two-tree', path], ['approx', 'mst', path],
            ['exact', 'christofides', path], ['exact', 'v1', path, '-p', 'many'], ['approx', 'christofides', path, '-l', 'none'],
            ['lower-bound', path], [path], ['exact', 'v1', path, 'extra'], ['solve', path], ['exact', 'v1', path, '-l', 'mst']]


def c14(ctx, bg):
    bg.go(ctx.model, 'Program', 'Program.cfg', workers=3)
    for m, e in (('leave', 'deadlock'), ('twice', 'Answers'), ('early', 'Refuses'), ('swallow', 'Refuses'), ('either', 'Answers'), ('careless', 'Honest')):
        bg.go(ctx.model, 'Program', 'Program_%s.cfg' % m, workers=1, expect={e})
    cmds = []
    for c in emitted(ctx, 'Program', 'ProgramEmit.cfg', 'RUN'):
        if c not in cmds:
            cmds.append(c)
    ctx.notes['commands'] = len(cmds)
    cli = build_programs() + '/walkycli'
    mpidir = build_mpi('mpisim', 'mpireal', 'walkympicli')
    rng = ctx.rng
    files = os.path.join(ctx.work, 'files')
    os.makedirs(files)
    plain = [c for c in cmds if c['par'] != 'mpi']
    mpi = [c for c in cmds if c['par'] == 'mpi']
    offered = [c for c in mpi if c['sub'] != 'exact' or c['alg'] in ('v0', 'v1')]
    ncpu = len(os.sched_getaffinity(0))

    def put(data):
        p = os.path.join(files, 'f%d.xml' % ctx.tick())
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    # ---- what to run
    cases, jobs = [], []          # a job: (case, op index, path, arguments)

    def case_of(n, metric=None):
        metric = rng.random() < .6 if metric is None else metric
        # with many cities only few ties, since all ways to break them are considered
        c = (inst.metric(rng, n) if n < 8 else inst.euclid(rng, n, 2000, 20)) if metric else \
            rng.choice([distinct, far_last])(rng, n) if n >= 8 or rng.random() < .6 else inst.general(rng, n)
        case = inst.scale(rng, {'c': c}, COARSE)
        case['ops'] = []
        cases.append(case)
        return case

    def add(case, cmd, path, file='valid', args=None, **kw):
        op = {'cmd': cmd, 'file': file, 'size': 1}
        op.update(kw)
        case['ops'].append(op)
        jobs.append((case, len(case['ops']) - 1, path, args or arguments(cmd, path)))
    # every command on some file of every small size
    for n in (2, 3, 4, 5, 6, 7):
        for part in range(ctx.pick(3, 12)):
            case = case_of(n)
            path = put(valid_file(rng, case))
            for cmd in (plain if part < 1 or not ctx.quick else rng.sample(plain, 18)):
                if n == 7 and cmd['alg'] == 'v0' and rng.random() < .5:
                    continue
                add(case, cmd, path, cpus=rng.choice([None, 1, 2, 3, ncpu]), rayon=rng.choice([None, 1, 2, 5]))
    for n, count in ctx.sizes([(3, 10), (4, 15), (5, 20), (6, 20), (7, 20), (8, 12), (9, 6)], [(2, 20), (3, 80), (4, 150), (5, 200), (6, 200), (7, 200), (8, 120), (9, 40)]):
        for _ in range(count):
            case = case_of(n)
            path = put(valid_file(rng, case))
            for cmd in rng.sample([x for x in plain if n < 9 or x['alg'] not in ('v0',)], 8):
                add(case, cmd, path, cpus=rng.choice([None, 1, 2, ncpu]), rayon=rng.choice([None, 1, 3]))
    # many cities and few good tours, for the algorithms that prune
    rings = []
    for n, count in ctx.sizes([(10, 3), (12, 3), (16, 2), (24, 1)], [(10, 20), (12, 20), (16, 15), (24, 6)]):
        for _ in range(count):
            c, known = inst.ring(rng, n, rng.randint(1, 4), rng.randint(0, 1))
            case = inst.scale(rng, {'c': c, 'known': known, 'ops': []}, COARSE)
            cases.append(case)
            rings.append(case)
            path = put(valid_file(rng, case))
            for cmd in [x for x in plain if x['sub'] == 'exact' and (x['alg'] in ('v3', 'v4', 'v5', 'v6') and x['par'] != 'multi-threaded' or n <= 10 and x['par'] == 'multi-threaded')]:
                add(case, cmd, path)
    # larger ones for everything that can manage them
    for n, count in ctx.sizes([(12, 3), (25, 2), (70, 1)], [(12, 20), (25, 10), (70, 3), (135, 1)]):
        for _ in range(count):
            case = case_of(n, metric=rng.random() < .7)
            path = put(valid_file(rng, case))
            for cmd in rng.sample([x for x in plain if x['sub'] != 'exact'], 12):
                add(case, cmd, path)
    # files that are broken when they are read again
    for n in (3, 5, 6):
        case = case_of(n, True)
        doc = valid_file(rng, case).encode()
        for cmd in [x for x in plain if x['lb'] != 'none'] + rng.sample([x for x in plain if x['lb'] == 'none'], 5):
            then = doc
            while then == doc:
                then = rng.choice([b'', b'text', doc[:len(doc) // 2], invalid_text(rng)[0]])
            add(case, cmd, os.path.join(files, 'p%d' % ctx.tick()), file='changing', texts=(doc, then))
    # files that do not come all at once
    for n in (3, 5, 6):
        for _ in range(ctx.pick(2, 10)):
            case = case_of(n, True)
            doc = valid_file(rng, case).encode()
            for cmd in rng.sample([x for x in plain if x['lb'] == 'none'], 4):
                cuts = rng.sample(range(1, len(doc)), rng.randint(1, 3))
                add(case, cmd, os.path.join(files, 'p%d' % ctx.tick()), texts=(doc, doc, cuts))
    # files that have to be refused
    refuse = []
    for _ in range(ctx.many(60, 600)):
        case = {'c': [], 'mul': 1, 'div': 1, 'ops': []}
        cases.append(case)
        r = rng.random()
        if r < .08:
            path, how = os.path.join(files, 'does-not-exist.xml'), 'missing'
        elif r < .14:
            path, how = files, 'a directory'
        else:
            b, how = invalid_text(rng)
            path = put(b)
        refuse.append((path, how))
        for cmd in rng.sample(plain, ctx.pick(5, 8)):
            add(case, cmd, path, file=how)
    case = {'c': [], 'mul': 1, 'div': 1, 'ops': []}
    cases.append(case)
    small = case_of(4, True)
    good = put(valid_file(rng, small))
    for args in usage_errors(good, refuse[0][0]):
        add(case, {'sub': 'exact', 'alg': 'v1', 'par': 'default', 'lb': 'none'}, good, file='used in a wrong command: ' + ' '.join(args[:-1] if args[-1] == good else args).replace(good, 'FILE'), args=args)
    number(cases)
    obs = {}

    def one(job):
        case, o, path, args = job
        op = case['ops'][o]
        cpus = rng_cpus[case['id'], o]
        with Changing(path, *texts[case['id'], o]) if (case['id'], o) in texts else contextlib.nullcontext():
            k, okay, out, err = run_program(cli, args, files, cpus, op.get('rayon'))
        obs[case['id'], o] = {'k': k, 'good': okay, 'out': [results(out, case['mul'], case['div'])], 'stderr': err if k != 'exit' or (not okay and op['file'] == 'valid') else ''}
    avail = sorted(os.sched_getaffinity(0))
    rng_cpus, texts = {}, {}
    for case, o, _, _ in jobs:
        if 'texts' in case['ops'][o]:
            texts[case['id'], o] = case['ops'][o].pop('texts')
        m = case['ops'][o].pop('cpus', None)
        rng_cpus[case['id'], o] = None if m is None or not shutil.which('taskset') else rng.sample(avail, min(m, len(avail)))
        case['ops'][o]['cpus'] = len(rng_cpus[case['id'], o] or avail)
        if case['ops'][o].get('rayon') is None:
            case['ops'][o].pop('rayon', None)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    ctx.notes['runs_of_the_program'] = len(jobs)

    # ---- the same over message passing
    worlds = []

    def addw(case, cmd, path, size, file='valid'):
        op = world(rng, size, [{'op': 'cli', 'args': arguments(cmd, path)}], init=False, stdout=True)
        op.update({'cmd': cmd, 'file': file})
        case['ops'].append(op)
    for n in (2, 3, 4, 5, 6):
        for _ in range(ctx.pick(3, 15)):
            case = case_of(n, metric=True)
            path = put(valid_file(rng, case))
            worlds.append(case)
            for cmd in offered:
                for k in {rng.randint(1, 3), rng.randint(2, 7)}:
                    addw(case, cmd, path, k)
    for n, count in ctx.sizes([(3, 10), (5, 15), (7, 6)], [(3, 100), (4, 150), (5, 150), (6, 100), (7, 60)]):
        for _ in range(count):
            metric = rng.random() < .6
            case = case_of(n, metric)
            path = put(valid_file(rng, case))
            worlds.append(case)
            # the debug build insists on the triangle inequality before Christofides
            for cmd in rng.sample([x for x in offered if metric or x['alg'] != 'christofides'], 6):
                addw(case, cmd, path, rng.randint(1, n + 2))
    for case in rings:
        if len(case['c']) <= 16:
            case = {**case, 'ops': []}
            cases.append(case)
            path = put(valid_file(rng, case))
            worlds.append(case)
            for cmd in offered:
                if cmd['sub'] == 'exact':
                    addw(case, cmd, path, rng.randint(2, 6))
    for path, how in rng.sample(refuse, min(len(refuse), ctx.pick(25, 200))):
        case = {'c': [], 'mul': 1, 'div': 1, 'ops': []}
        cases.append(case)
        worlds.append(case)
        for cmd in rng.sample(offered, 4):
            addw(case, cmd, path, rng.randint(1, 4), file=how)
    case = case_of(4, True)
    worlds.append(case)
    path = put(valid_file(rng, case))
    for cmd in mpi:
        if cmd not in offered:
            addw(case, cmd, path, 2)
    number(cases)
    raw = run_cases(ctx, mpidir + '/mpisim', worlds, limit=25)
    ctx.notes['worlds'] = len(raw)
    lost = 0
    for case in worlds:
        for o, op in enumerate(case['ops']):
            x = raw.get((case['id'], o))
            if x is None:
                continue
            if x['k'] == 'unsupported':
                lost += 1
                if not real_works(ctx, mpidir):
                    raise ToolError('unsupported MPI function: ' + x['msg'])
                if lost > ctx.pick(60, 300):
                    continue
                x = real_cli(ctx, mpidir, case, op)
                obs[case['id'], o] = x
                continue
            out = [results(t, case['mul'], case['div']) for t in x.get('out', [''] * op['size'])]
            okay = x['k'] == 'ok' and all(r and r[0]['k'] == 'ok' for r in x['res'])
            k = 'exit' if x['k'] == 'ok' else 'crash' if x['k'] == 'panic' else x['k']
            if k not in ('exit', 'crash') and op['file'] == 'valid' and op['cmd'] not in offered:
                k = 'crash'
            obs[case['id'], o] = {'k': k, 'good': okay, 'out': out, 'msg': x.get('msg', '')}
    if lost:
        ctx.notes['worlds_outside_of_the_simulation'] = lost
    # ---- and on the installed MPI
    if real_works(ctx, mpidir):
        some = [(c, op) for c in worlds for op in c['ops'] if op['size'] <= 5 and op['cmd'] in offered]
        for c, op in rng.sample(some, min(len(some), ctx.pick(10, 80))):
            r = real_cli(ctx, mpidir, c, op)
            ctx.notes['worlds_on_open_mpi'] = ctx.notes.get('worlds_on_open_mpi', 0) + 1
            c['ops'].append(dict(op, open_mpi=True))
            obs[c['id'], len(c['ops']) - 1] = r
    for c in cases:
        for op in c['ops']:
            op.pop('calls', None)
    cases = [c for c in cases if c['ops']]
    ctx.check('TraceProgram', cases, obs)
    ctx.notes['invalid_files'] = sorted({h for _, h in refuse})
    ctx.notes['cities'] = sorted({len(c['c']) for c in cases})


def real_cli(ctx, mpidir, case, op):
    """the program on the installed MPI; which process has printed what cannot be told apart"""
    for timeout in (60, 100):
        rc, out = mpirun(ctx, mpidir + '/walkympicli', op['size'], op['calls'][0]['args'], timeout)
        if rc == 0 or rc is not None and op['file'] != 'valid' or getattr(ctx, 'real_again', 0) >= 3:
            break
        # it has to happen again, with more time
        ctx.real_again = getattr(ctx, 'real_again', 0) + 1
    if rc is None:
        return {'k': 'timeout', 'good': False, 'out': [[]], 'msg': 'on the installed MPI'}
    seen = []
    for y in results(out, case['mul'], case['div']):
        if y not in seen:
            seen.append(y)
    return {'k': 'exit', 'good': rc == 0, 'out': [seen], 'msg': 'on the installed MPI: exit %d' % rc}


# ------------------------------------------------------------------------- C18

UTILS = REPO + '/utils'
PYTHON = 'python3-vt'


def build_chosen():
    """the generator with its random numbers chosen by the check, or None if it uses more of the
    crate `rand` than the stand-in has"""
    try:
        return cargo(VERIF + '/harness-gen', 'gen', [], clean=('walkygen',), sources=[UTILS + '/gen_matrix_fast/src', VERIF + '/harness-gen']) + '/gen_chosen'
    except ToolError as e:
        log('the generator cannot be built with chosen numbers:', str(e)[-600:])
        return None


def read_document(text):
    """the edges of each vertex, or None"""
    import xml.etree.ElementTree as ET
    try:
        g = ET.fromstring(text).findall('graph')
        return None if len(g) != 1 else [[(int(e.text), float(e.get('cost'))) for e in v.findall('edge')] for v in g[0].findall('vertex')]
    except (ET.ParseError, ValueError, TypeError):
        return None


UNITS = 10 ** 7


def units(x, top):
    return int(round(x / top * UNITS)) if top > 0 and math.isfinite(x) else 0


RUST = """#![allow(dead_code, unused, non_snake_case)]
struct Edge { to: usize, cost: f64 }
struct Vertex { edges: Vec<Edge> }
struct Graph { vertices: Vec<Vertex> }
fn show(id: usize, graph: Graph) {
    for (i, v) in graph.vertices.iter().enumerate() {
        println!("{id} {i} -1 0");
        for e in &v.edges {
            println!("{id} {i} {} {:e}", e.to, e.cost);
        }
    }
}
"""


def read_rust(ctx, texts):
    """the edges that the Rust code describes, as the Rust compiler understands it; None if it is no Rust"""
    out = [None] * len(texts)

    def attempt(ids):
        if not ids:
            return
        d = os.path.join(ctx.work, 'rust%d' % ctx.tick())
        os.makedirs(d)
        with open(d + '/x.rs', 'w') as f:
            f.write(RUST + ''.join('fn f%d() {\n%s\nshow(%d, graph);\n}\n' % (i, texts[i], i) for i in ids) + 'fn main() {\n' + ''.join('f%d();\n' % i for i in ids) + '}\n')
        c = subprocess.run(['rustc', '--edition', '2021', '-C', 'debuginfo=0', '--crate-name', 'x', '-o', 'x', 'x.rs'], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        r = subprocess.run([d + '/x'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100) if c.returncode == 0 else None
        shutil.rmtree(d)
        if r is None or r.returncode != 0:
            if len(ids) > 1:
                attempt(ids[:len(ids) // 2])
                attempt(ids[len(ids) // 2:])
            return
        for i in ids:
            out[i] = []
        for line in r.stdout.decode().splitlines():
            i, v, to, cost = line.split()
            g = out[int(i)]
            if to == '-1':
                g.append([])
            else:
                g[int(v)].append((int(to), float(cost)))
    probe = subprocess.run(['rustc', '--version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if probe.returncode != 0:
        raise ToolError('rustc does not run')
    attempt(list(range(len(texts))))
    return out


def as_document(doc):
    return ('<travellingSalesmanProblemInstance><name>x</name><source>x</source><description>x</description><doublePrecision>15</doublePrecision><ignoredDigits>0</ignoredDigits><graph>'
            + ''.join('<vertex>%s</vertex>' % ''.join('<edge cost="%r">%d</edge>' % (c, t) for t, c in v) for v in doc) + '</graph></travellingSalesmanProblemInstance>\n')


def record(how, n, good, doc):
    r = {'how': how, 'n': n, 'good': doc is not None, 'doc': [], 'u': [], 'finite': True, 'p': {'k': 'none', 'n': -1, 'm': [], 'metric': False}}
    if doc is None:
        return r
    costs = sorted({w for v in doc for _, w in v} | {0.0}, key=lambda w: (w == w, w))
    rank = {w: i for i, w in enumerate(costs)}
    r['finite'] = all(math.isfinite(w) and w >= 0 for w in costs)
    r['doc'] = [[[min(to, 10 ** 9) if to >= 0 else -1, rank.get(w, -1)] for to, w in v] for v in doc]
    r['zero'] = rank[0.0]
    top = max(costs) if r['finite'] else 0
    k = len(doc)
    if all(sorted(to for to, _ in v) == [j for j in range(k) if j != i] for i, v in enumerate(doc)) and r['finite']:
        m = [dict(v) for v in doc]
        r['u'] = [[0 if i == j else units(m[i][j], top) for j in range(k)] for i in range(k)]
    r['rank'], r['top'] = rank, top
    return r


def c18(ctx, bg):
    bg.go(ctx.model, 'Generator', 'Generator.cfg', workers=3)
    for m, e in (('skipzero', 'Valid'), ('upper', 'Valid'), ('squared', 'Metric'), ('last', 'Valid'), ('ids', 'Valid'), ('minor', 'Valid')):
        bg.go(ctx.model, 'Generator', 'Generator_%s.cfg' % m, workers=1, expect={e})
    points = []
    for p in emitted(ctx, 'Generator', 'GeneratorEmit.cfg', 'POINTS'):
        if p not in points:
            points.append(p)
    ctx.notes['choices_of_points_from_the_model'] = len(points)
    bindir = build_programs()
    chosen = build_chosen()
    binary = build_harness()
    rng = ctx.rng
    files = os.path.join(ctx.work, 'files')
    os.makedirs(files)
    have_numpy = bool(shutil.which(PYTHON)) and subprocess.run([PYTHON, '-c', 'import numpy'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    ctx.notes['python_generators_executed'] = have_numpy
    ctx.notes['random_numbers_chosen'] = chosen is not None

    def choices(pts):
        """grid points, near to each other or far, as numbers in [0, 1)"""
        s, ox, oy = rng.choice([(1, 0, 0), (1, 77, 5), (1 << 18, 0, 0), (1 << 16, 3, 9), (1 << 17, 12345, 54321), (1000, 500000, 1)])
        return ','.join('%d,%d' % (ox + s * x, oy + s * y) for x, y in pts)

    def random_points(n):
        r = rng.random()
        if r < .25:
            return [(rng.randint(0, 3), rng.randint(0, 3)) for _ in range(n)]
        if r < .4:
            return [(i % 4, 0) for i in rng.sample(range(n), n)] if rng.random() < .5 else [(0, rng.randint(0, 3)) for _ in range(n)]
        return None
    jobs = []                     # (how, n, command, environment, file that is written or None)

    def fast(n, ch=None):
        if ch is not None and chosen:
            jobs.append(('gen_matrix_fast', n, [chosen, str(n)], {'CHOICES': ch}, None))
        else:
            jobs.append(('gen_matrix_fast', n, [bindir + '/gen_matrix_fast', str(n)], {}, None))

    def simple(n, ch=None):
        if have_numpy:
            jobs.append(('simple_gen.py', n, [PYTHON, VERIF + '/driver/genwrap.py', UTILS + '/simple_gen.py', 'xml', str(n)],
                         {'CHOICES': ch} if ch is not None else {'SEED': str(rng.randrange(1 << 30))}, None))

    def rust(n, ch=None):
        if have_numpy:
            jobs.append(('simple_gen.py, Rust code', n, [PYTHON, VERIF + '/driver/genwrap.py', UTILS + '/simple_gen.py', 'rust', str(n)],
                         {'CHOICES': ch} if ch is not None else {'SEED': str(rng.randrange(1 << 30))}, None))

    def bench(l, r, ch=None):
        if have_numpy:
            jobs.append(('benchmark_gen.py', (l, r), [PYTHON, VERIF + '/driver/genwrap.py', UTILS + '/benchmark_gen.py', str(l), str(r)],
                         {'CHOICES': ch} if ch is not None else {'SEED': str(rng.randrange(1 << 30))}, 'results'))
    some = points if not ctx.quick else rng.sample(points, 250)
    for p in some:
        fast(len(p), choices(p))
    for p in rng.sample(points, ctx.pick(15, 150)):
        simple(len(p), choices(p))
    for p in rng.sample(points, ctx.pick(12, 60)):
        rust(len(p), choices(p))
    for n in range(2, ctx.pick(9, 16)):
        rust(n)
        p = random_points(n)
        if p:
            rust(n, choices(p))
    for n in range(2, ctx.pick(13, 26)):
        for _ in range(ctx.pick(4, 15)):
            fast(n)
            p = random_points(n)
            fast(n, choices(p) if p else ','.join(str(rng.randrange(1 << 20)) for _ in range(2 * n)))
        for _ in range(ctx.pick(1, 4)):
            simple(n)
            p = random_points(n)
            if p:
                simple(n, choices(p))
    for n in ctx.pick([20, 40], [20, 33, 40, 64, 100]):
        fast(n)
        simple(n)
    for l, r in ctx.pick([(2, 8), (3, 3), (5, 14)], [(2, 8), (3, 3), (2, 2), (5, 14), (9, 24), (4, 11)]):
        bench(l, r)
        bench(l, r, choices([(rng.randint(0, 3), rng.randint(0, 3)) for _ in range(r)]))

    def generate(job):
        how, n, cmd, env, folder = job
        e = dict(os.environ)
        e.update(env)
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        d = os.path.join(ctx.work, 'gen%d' % ctx.tick())
        os.makedirs(d)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise ToolError('%s %s does not end' % (how, n))
        good = r.returncode == 0
        if folder is None:
            return [(how, n, good, r.stdout, env)]
        out = []
        for k in range(n[0], n[1] + 1):
            p = os.path.join(d, folder, '%d.xml' % k)
            there = os.path.exists(p)
            out.append((how, k, good and there, open(p, 'rb').read() if there else b'', env))
        shutil.rmtree(d)
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        docs = [x for l in ex.map(generate, jobs) for x in l]
    recs, hcases = [], []
    code = [i for i, x in enumerate(docs) if x[0].endswith('Rust code')]
    graphs = dict(zip(code, read_rust(ctx, [docs[i][3].decode('utf-8', 'replace') for i in code])))
    for i, (how, n, good, data, env) in enumerate(docs):
        doc = None if not good else graphs[i] if i in graphs else read_document(data.decode('utf-8', 'replace'))
        if i in graphs and doc is not None:
            data = as_document(doc).encode()
        r = record(how, n, good, doc)
        r['id'] = len(recs)
        r['env'] = json.dumps(env)[:300]
        r['path'] = os.path.join(files, '%d.xml' % r['id'])
        with open(r['path'], 'wb') as f:
            f.write(data)
        r['ops'] = []
        recs.append(r)
        hcases.append({'id': r['id'], 'c': [], 'mul': 1, 'div': 1, 'ops': [{'op': 'doc', 'path': r['path'], 'chris': n <= 40}]})
    # the library, with its assertions
    obs = run_cases(ctx, binary, hcases)
    for r in recs:
        x = obs.get((r['id'], 0), {'k': 'not executed'})
        rank = r.pop('rank', {})
        if x['k'] == 'accepted':
            r['p'] = {'k': 'accepted', 'n': x['n'], 'metric': x['metric'], 'm': [[0 if i == j else rank.get(w, -1) for j, w in enumerate(l)] for i, l in enumerate(x['raw'])]}
        else:
            r['p']['k'] = x['k'] + (' (%s)' % x['msg'] if x.get('msg') else '')
    # the program
    cmds = [c for c in emitted(ctx, 'Program', 'ProgramEmit.cfg', 'RUN') if c['par'] != 'mpi']
    cmds = [c for i, c in enumerate(cmds) if c not in cmds[:i]]
    runs = []
    for r in rng.sample(recs, min(len(recs), ctx.pick(150, 1200))):
        n = r['n']
        if n > 40 or not r['good']:
            continue
        able = [c for c in cmds if c['sub'] != 'exact' or n <= 7 or (n <= 9 and c['alg'] in ('v4', 'v5', 'v6') and c['par'] != 'multi-threaded')]
        for c in rng.sample(able, min(len(able), ctx.pick(4, 6))):
            r['ops'].append({'cmd': c})
            runs.append((r, len(r['ops']) - 1))

    def go(job):
        r, o = job
        op = r['ops'][o]
        k, okay, out, _ = run_program(bindir + '/walkycli', arguments(op['cmd'], r['path']), files, timeout=120)
        op.update({'k': k, 'good': okay, 'out': results(out, r['top'] or 1, UNITS, True)})
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, runs))
    recs += scripts(ctx) + (references(ctx) if have_numpy else [])
    for i, r in enumerate(recs):
        r['id'] = i
    ctx.evaluations += len(recs) + len(runs)
    ctx.samples += [{k: v for k, v in r.items() if k in ('how', 'n', 'doc', 'u', 'p', 'files')} for r in (recs[0], recs[-1])]
    ctx.notes.update({'generated_files': len(docs), 'runs_of_the_program': len(runs), 'cities': sorted({r['n'] for r in recs if r['how'] not in ('script', 'reference')})})
    for rec, why in validate(ctx, 'TraceGen', recs):
        text = ''
        if rec.get('path') and os.path.exists(rec['path']):
            text = open(rec['path'], 'rb').read()[:20000].decode('utf-8', 'replace')
        ctx.violation(why, {'module': 'TraceGen', 'file': text, 'observed': rec})


def references(ctx):
    """the reference implementation of nearest neighbour: its matrix, and the tour and the cost for every start"""
    def go(job):
        n, env = job
        e = dict(os.environ)
        e.update(env)
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        name = UTILS + '/NN_approx.py'
        x = subprocess.run([PYTHON, VERIF + '/driver/genwrap.py', name], env=e, cwd=ctx.work, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if x.returncode == 77:
            return None
        text = x.stdout.decode('utf-8', 'replace')
        m = re.search(r'\[\[.*?\]\s*\]', text, re.S)
        rows = [[float(w) for w in re.findall(r'-?\d+(?:\.\d*)?', l)] for l in re.findall(r'\[([^\[\]]*)\]', m.group(0))] if m else []
        tours = []
        for p, c in re.findall(r'^Path:\s*\[([^\]]*)\]\s*^Cost:\s*(-?[\d.]+)', text, re.M):
            tours.append([[int(w) for w in re.findall(r'-?\d+', p)], float(c)])
        code = [l for l in text.splitlines() if 'Graph {' in l]
        if x.returncode == 0 and (not m or not tours or len(rows) < 2 or any(len(l) != len(rows) for l in rows)):
            return None           # printed in another form
        whole = all(w == int(w) for l in rows for w in l) and all(c == int(c) for _, c in tours)
        return {'how': 'reference', 'n': len(rows), 'asked': n, 'good': x.returncode == 0 and whole, 'c': [[int(w) for w in l] for l in rows], 'ops': [],
                'tours': [{'p': p, 'v': int(c)} for p, c in tours], 'text': code[-1] if code else ''}
    jobs = [(0, {})] + [(n, {'REFERENCE': '%d,%d' % (ctx.rng.randrange(1 << 30), n)}) for n in range(2, ctx.pick(12, 20)) for _ in range(ctx.pick(2, 8))]
    with ThreadPoolExecutor(NCPU) as ex:
        out = [r for r in ex.map(go, jobs) if r is not None]
    ctx.notes['reference_tours'] = sum(len(r['tours']) for r in out)
    for r, doc in zip(out, read_rust(ctx, [r.pop('text') or '-' for r in out])):
        r['code'] = doc is not None
        r['doc'] = [[[to, int(w) if w == int(w) else -1] for to, w in v] for v in doc or []]
    return out


def scripts(ctx):
    """the shell scripts, with a generator that writes down its argument"""
    out = []
    for name in sorted(os.listdir(UTILS + '/gen_matrix_fast')):
        if not name.endswith('.sh') or not shutil.which('bash'):
            continue
        d = os.path.join(ctx.work, 'script-' + name)
        os.makedirs(d + '/target/release')
        os.makedirs(d + '/bin')
        text = open(os.path.join(UTILS, 'gen_matrix_fast', name)).read()
        if '/scratch/users' in text or re.search(r'\brm\b(?! -rf results\b)', text):
            continue              # writes to a place outside of the folder it is called in
        for p, body in ((d + '/target/release/gen_matrix_fast', 'echo "$1"'), (d + '/bin/cargo', 'for a; do last=$a; done; [ "$1" != run ] || echo "$last"')):
            with open(p, 'w') as f:
                f.write('#!/bin/sh\n%s\n' % body)
            os.chmod(p, 0o755)
        with open(d + '/script.sh', 'w') as f:
            f.write(text + '\nwait\n')
        e = dict(os.environ)
        e['PATH'] = d + '/bin:' + e['PATH']
        try:
            subprocess.run(['bash', 'script.sh'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            pass
        fs = []
        for f in sorted(os.listdir(d + '/results')) if os.path.isdir(d + '/results') else []:
            a = open(os.path.join(d, 'results', f)).read().strip()
            stem = f[:-4] if f.endswith('.xml') else ''
            fs.append([int(stem) if stem.isdigit() else -1, int(a) if a.isdigit() else -2])
        out.append({'how': 'script', 'n': 0, 'files': fs, 'ops': [], 'name': name})
        shutil.rmtree(d)
    return out
