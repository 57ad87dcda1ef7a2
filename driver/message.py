"""C03, C04: the exact solvers over message passing. C13: nearest neighbour, 1-tree bound and matching.

The real ranks run as processes of a simulated MPI world (harness-mpi): a scheduler decides which
message is delivered when, whether a send waits for its receiver, and in which order and association
reductions are done, and it sees every deadlock. A few worlds run on the installed Open MPI as well."""
import inst
from common import *
from exact import exhaustive, number, huge_case
from tours import COARSE, EXACT_SCALES, distinct, far_last

SOURCES = [REPO + '/src', REPO + '/Cargo.toml', VERIF + '/harness-mpi', VERIF + '/harness/src/ops.rs', VERIF + '/harness/src/hooks.rs']


def build_mpi(*bins):
    args = []
    for b in bins or ('mpisim', 'mpireal'):
        args += ['--bin', b]
    return cargo(VERIF + '/harness-mpi', 'mpi', args, False, clean=('walky', 'walkympi'), sources=SOURCES)


def schedules(ctx, num):
    r = tlc(ctx, 'MpiGen', 'MpiGen.cfg', workers=1, args=['-simulate', 'num=%d' % num, '-depth', '900', '-seed', str(ctx.seed)])
    out = {}
    for m in re.finditer(r'^"SCHED (.*)"$', r.out, re.M):
        s = json.loads(m.group(1).replace('\\"', '"'))
        out.setdefault((s['kind'], s['n'], s['t'], s['d']), []).append(s['s'])
    return out


def world(rng, size, calls, **kw):
    o = {'op': 'mpi', 'size': size, 'seed': rng.randrange(1 << 30), 'sync': rng.randrange(3), 'loose': rng.random() < .8,
         'prio': rng.random() < .4, 'calls': calls}
    o.update(kw)
    return o


# ------------------------------------------------------------ the installed MPI

def mpirun(ctx, binary, size, args, timeout=60, stdout=None):
    """(exit code or None, stdout); the processes do not outlive the call"""
    env = dict(os.environ)
    env.update({'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'TMPDIR': ctx.work, 'RAYON_NUM_THREADS': '2'})
    p = subprocess.Popen(['mpirun', '--oversubscribe', '--mca', 'btl', 'self,vader', '--mca', 'btl_vader_single_copy_mechanism', 'none',
                          '-n', str(size), binary] + args, env=env, cwd=ctx.work, start_new_session=True,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.terminate()
        try:
            p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            pass
        return None, ''
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()


def real_works(ctx, bindir):
    """can worlds be started at all here?"""
    if not hasattr(ctx, 'mpi_ok'):
        ctx.mpi_ok = False
        if shutil.which('mpirun'):
            r = real_world(ctx, bindir, {'c': [[0, 1], [1, 0]], 'mul': 1, 'div': 1}, {'size': 2, 'calls': []})
            ctx.mpi_ok = r is not None and r['k'] == 'ok'
        ctx.notes['open_mpi_usable'] = ctx.mpi_ok
    return ctx.mpi_ok


def real_world(ctx, bindir, case, op):
    """A world on the installed MPI. What goes wrong because the machine is busy does not count:
    a failure has to happen again, with more time."""
    r = real_attempt(ctx, bindir, case, op, 60)
    if r['k'] != 'ok' and getattr(ctx, 'real_again', 0) < 3:
        ctx.real_again = getattr(ctx, 'real_again', 0) + 1
        r = real_attempt(ctx, bindir, case, op, 100)
    return r


def real_attempt(ctx, bindir, case, op, timeout):
    d = os.path.join(ctx.work, 'real%d' % ctx.tick())
    c = {k: v for k, v in case.items() if k != 'ops'}
    c['ops'] = [op]
    with open(d + '.json', 'w') as f:
        json.dump(c, f)
    rc, _ = mpirun(ctx, bindir + '/mpireal', op['size'], [d + '.json', d], timeout)
    res = []
    for r in range(op['size']):
        try:
            res.append(json.load(open('%s.%d' % (d, r))))
        except (OSError, ValueError):
            res.append(None)
    bad = [r for r in range(op['size']) if res[r] is None or any(x['k'] == 'panic' for x in res[r])]
    if rc is None:
        return {'k': 'timeout', 'msg': 'on the installed MPI'}
    if rc != 0 or bad:
        return {'k': 'crash', 'msg': 'on the installed MPI: exit %s, ranks without a result: %s' % (rc, bad)}
    return {'k': 'ok', 'msg': '', 'res': res, 'log': []}


def run_worlds(ctx, bindir, cases, real=0, limit=25, **kw):
    """the observations of all worlds; `real` of them are repeated on the installed MPI"""
    obs = run_cases(ctx, bindir + '/mpisim', cases, limit=limit, **kw)
    unsupported = []
    for c in cases:
        for o, op in enumerate(c['ops']):
            x = obs.get((c['id'], o))
            if x is None:
                continue
            ctx.notes['worlds'] = ctx.notes.get('worlds', 0) + 1
            ctx.notes['scheduler_steps'] = ctx.notes.get('scheduler_steps', 0) + x.get('steps', 0)
            ctx.notes['scheduled_receives_skipped'] = ctx.notes.get('scheduled_receives_skipped', 0) + x.get('forced', 0)
            ctx.notes['messages_never_received'] = ctx.notes.get('messages_never_received', 0) + x.get('left', 0)
            if x['k'] == 'unsupported':
                unsupported.append((c, o, op))
    if unsupported:
        # the code uses a part of MPI that the simulated world does not have
        ctx.notes['worlds_outside_of_the_simulation'] = len(unsupported)
        log('not simulated: %s' % obs[(unsupported[0][0]['id'], unsupported[0][1])]['msg'])
        if not real_works(ctx, bindir):
            raise ToolError('unsupported MPI function: %s' % obs[(unsupported[0][0]['id'], unsupported[0][1])]['msg'])
        for c, o, op in unsupported:
            obs.pop((c['id'], o))
        ctx.rng.shuffle(unsupported)
        for c, o, op in unsupported[:ctx.pick(40, 150)]:
            obs[(c['id'], o)] = real_world(ctx, bindir, c, op)
    elif real and real_works(ctx, bindir):
        some = [(c, o) for c in cases for o, op in enumerate(c['ops']) if 2 <= op['size'] <= 6 and (c['id'], o) in obs]
        for c, o in ctx.rng.sample(some, min(real, len(some))):
            r = real_world(ctx, bindir, c, c['ops'][o])
            ctx.notes['worlds_on_open_mpi'] = ctx.notes.get('worlds_on_open_mpi', 0) + 1
            # judged as one more operation of this case
            c['ops'].append(dict(c['ops'][o], open_mpi=True))
            obs[(c['id'], len(c['ops']) - 1)] = r
            if r['k'] != 'ok':
                break       # the next one would only take as long
    return obs


def judge(ctx, cases, obs, **kw):
    ctx.check('TraceMessage', cases, obs, **kw)
    ctx.notes['instances'] = len(cases)
    ctx.notes['cities'] = sorted({len(c['c']) for c in cases})
    ctx.notes['processes'] = sorted({o['size'] for c in cases for o in c['ops']})
    ctx.assumptions += ['costs are integers times a common factor, so that sums are decided without rounding tolerance']


# ---------------------------------------------------------------- exact solvers

def exact_instance(rng, n):
    return huge_case(rng, n) if n >= 4 and rng.random() < .05 else inst.close(rng, inst.scale(rng, {'c': inst.general(rng, n)}))


def many_cities(ctx):
    """instances on which the solvers are fast although there are many cities"""
    for n, count in ctx.sizes([(9, 5), (11, 5), (12, 4), (16, 4), (20, 2)], [(n, 25) for n in range(9, 21)] + [(24, 6)]):
        for _ in range(count):
            c, known = inst.ring(ctx.rng, n, ctx.rng.randint(1, 4), ctx.rng.randint(0, 1))
            yield n, inst.scale(ctx.rng, {'c': c, 'known': known, 'ops': []})


def c03(ctx, bg):
    bg.go(ctx.model, 'MpiStatic', 'MpiStatic.cfg', workers=3)
    bg.go(ctx.model, 'MpiStatic', 'MpiStatic3.cfg', workers=2)
    for m, e in (('early', 'deadlock'), ('silent', 'deadlock'), ('noanswer', 'deadlock'), ('stale', 'Agree'), ('last', 'Agree'), ('overwrite', 'Agree')):
        bg.go(ctx.model, 'MpiStatic', 'MpiStatic_%s.cfg' % m, workers=1, expect={e})
    bg.go(ctx.model, 'EnumerateMC', 'EnumerateQ.cfg', workers=2)
    if not ctx.quick:
        bg.go(ctx.model, 'MpiStatic', 'MpiStatic32.cfg')
    bindir = build_mpi()
    rng = ctx.rng
    sched = {k: v for k, v in schedules(ctx, ctx.pick(400, 3000)).items() if k[0] == 'static'}
    ctx.notes['schedules'] = sum(map(len, sched.values()))

    def prefixes(n, size):
        # more workers than prefixes are outside of what the solver promises
        return [d for d in (1, 2, 3, 4, n, n + 1) if d > n or size - 1 < n ** d]

    def call(n, size, d=None):
        if d is None:
            d = rng.choice(prefixes(n, size) + [None])
            if d is None:
                d = 3 if size - 1 < n ** 3 or n < 3 else n + 1
                return {'op': 'mstatic'} if d == 3 else {'op': 'mstatic', 'prefix': d}
        return {'op': 'mstatic', 'prefix': d}
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(3)), (4, [0, 1])], [(2, range(4)), (3, range(4)), (4, [0, 1, 3])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = [world(rng, k, [call(n, k)]) for k in sorted({1, 2, 3, rng.randint(4, 9)})]
    for n, count in ctx.sizes([(2, 30), (3, 60), (4, 120), (5, 120), (6, 60), (7, 8)], [(2, 200), (3, 400), (4, 1200), (5, 1500), (6, 800), (7, 150), (8, 16)]):
        for _ in range(count):
            case = exact_instance(rng, n)
            case['ops'] = []
            for k in rng.sample(range(1, 10), 2) + ([rng.randint(10, 40)] if rng.random() < .1 else []):
                if n <= 6 and rng.random() < .5:
                    d = rng.choice(prefixes(n, k))
                    calls = [call(n, k, d)]
                elif n > 6:
                    calls = [{'op': 'mstatic', 'prefix': rng.choice([d for d in (1, 2, 3) if k - 1 < n ** d])}]
                else:
                    # several computations of one program
                    calls = [call(n, k) for _ in range(rng.randint(1, 2))]
                case['ops'].append(world(rng, k, calls, init=len(calls) > 1 or rng.random() < .5))
            cases.append(case)
    for n, case in many_cities(ctx):
        for k in rng.sample(range(2, 9), 2):
            case['ops'].append(world(rng, k, [{'op': 'mstatic', 'prefix': d} if d else {'op': 'mstatic'} for d in [rng.choice([1, 2, 2, 3, None] if n < 16 else [1, 2])]]))
        cases.append(case)
    # the schedules of the specification
    for (_, n, t, d), ss in sorted(sched.items()):
        case = exact_instance(rng, n)
        case['ops'] = [world(rng, t + 1, [call(n, t + 1, d)], sched=s) for s in ss]
        cases.append(case)
    number(cases)
    obs = run_worlds(ctx, bindir, cases, real=ctx.pick(4, 30))
    judge(ctx, cases, obs)


def c04(ctx, bg):
    bg.go(ctx.model, 'MpiDynamic', ctx.pick('MpiDynamic3.cfg', 'MpiDynamic.cfg'), workers=3)
    for m, e in (('early', 'deadlock'), ('drop', 'Agree'), ('result', 'Agree'), ('firstrank', 'Agree'), ('tight', 'Agree'), ('skip', '')):
        bg.go(ctx.model, 'MpiDynamic', 'MpiDynamic_%s.cfg' % m, workers=1, expect={e} if e else set())
    bg.go(ctx.model, 'EnumerateMC', 'EnumerateQ.cfg', workers=2)
    if not ctx.quick:
        bg.go(ctx.model, 'MpiDynamic', 'MpiDynamic35.cfg')
    bindir = build_mpi()
    rng = ctx.rng
    sched = {k: v for k, v in schedules(ctx, ctx.pick(400, 3000)).items() if k[0] == 'dynamic'}
    ctx.notes['schedules'] = sum(map(len, sched.values()))
    call = {'op': 'mdyn'}
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(3)), (4, [0, 1, 3])], [(2, range(4)), (3, range(4)), (4, range(4)), (5, [1, 2])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = [world(rng, k, [call]) for k in ({1, 2, 3, rng.randint(4, 9)} if n < 5 else {rng.randint(2, 5)})]
    for n, count in ctx.sizes([(2, 20), (3, 40), (4, 150), (5, 200), (6, 100), (7, 12)], [(2, 100), (3, 200), (4, 1500), (5, 2500), (6, 1200), (7, 200), (8, 24)]):
        for _ in range(count):
            case = exact_instance(rng, n)
            case['ops'] = []
            # also more workers than prefixes
            for k in rng.sample(range(1, 10), 2) + ([rng.randint(16, 40)] if n <= 4 and rng.random() < .2 else []):
                calls = [call] * (2 if n <= 5 and rng.random() < .3 else 1)
                case['ops'].append(world(rng, k, calls, init=len(calls) > 1 or rng.random() < .5))
            cases.append(case)
    for n, case in many_cities(ctx):
        case['ops'] = [world(rng, k, [call]) for k in rng.sample(range(2, 9), 2 if n < 20 else 1)]
        cases.append(case)
    for (_, n, t, d), ss in sorted(sched.items()):
        for a in range(0, len(ss), 8):
            case = exact_instance(rng, n)
            case['ops'] = [world(rng, t + 1, [call], sched=s) for s in ss[a:a + 8]]
            cases.append(case)
    number(cases)
    obs = run_worlds(ctx, bindir, cases, real=ctx.pick(4, 30))
    judge(ctx, cases, obs)


# --------------------------------------------------- approximations and bounds

def c13(ctx, bg):
    bg.go(ctx.model, 'MpiReduce', ctx.pick('MpiReduce.cfg', 'MpiReduce5.cfg'), workers=3)
    for m, e in (('notie', 'SameWinner'), ('norest', 'Right'), ('zero', 'Right'), ('minmax', 'Right')):
        bg.go(ctx.model, 'MpiReduce', 'MpiReduce_%s.cfg' % m, workers=1, expect={e})
    bg.go(ctx.model, 'MpiMatching', ctx.pick('MpiMatching.cfg', 'MpiMatching4.cfg'), workers=2)
    for m in ('anysource', 'untagged', 'local', 'last'):
        bg.go(ctx.model, 'MpiMatching', 'MpiMatching_%s.cfg' % m, workers=1, expect={'Agree'})
    bindir = build_mpi()
    rng = ctx.rng

    def verts(n):
        k = 2 * rng.randint(1, n // 2)
        if n >= 4 and rng.random() < .4:
            k = 4
        return rng.sample(range(n), k)

    def matching(n):
        v = verts(n)
        tries = rng.choice([0, 1, 2, 5, 400] if len(v) > 2 else [0, 1, 5])
        m = {'op': 'mmatch', 'verts': v, 'tries': tries}
        if rng.random() < .4:
            m['var'] = 'given'
        return m

    def other(n, ties=False):
        x = rng.choice([{'op': 'mnn'}, {'op': 'mnn', 'var': 'direct'}, {'op': 'mnn', 'var': 'n', 'num': rng.randint(1, n)},
                        {'op': 'motb'}, {'op': 'motb'}, {'op': 'mmst'}])
        # too many greedy tours for the specification to look at all of them
        return {'op': 'motb'} if ties and x['op'] == 'mnn' else x
    cases = exhaustive(ctx, ctx.pick([(2, range(3)), (3, range(3)), (4, [0, 1])], [(2, range(4)), (3, range(5)), (4, [0, 1, 3])]))
    for c in cases:
        n = len(c['c'])
        c['ops'] = []
        for k in sorted({1, 2, n, n + 1, rng.randint(3, 9)}):
            calls = [{'op': 'mnn'}, {'op': 'motb'}, matching(n)] + ([{'op': 'mchris'}] if inst.is_metric(c['c']) else [])
            rng.shuffle(calls)
            c['ops'].append(world(rng, k, calls))
    for n, count in ctx.sizes([(2, 10), (3, 30), (4, 60), (5, 120), (6, 120), (7, 120), (8, 80), (11, 30), (20, 8), (36, 2), (70, 1)],
                             [(2, 60), (3, 200), (4, 500), (5, 1200), (6, 1200), (7, 1200), (8, 600), (11, 300), (20, 100), (36, 20), (70, 6), (135, 1)]):
        for _ in range(count):
            metric = rng.random() < .5
            c = inst.metric(rng, n) if metric else rng.choice([distinct, far_last])(rng, n) if rng.random() < .6 else inst.general(rng, n)
            case = inst.scale(rng, {'c': c}, COARSE if metric else EXACT_SCALES)
            if not metric:
                inst.close(rng, case)
            case['ops'] = []
            ties = n > 8 and len({c[i][j] for i in range(n) for j in range(i)}) < n * (n - 1) // 2
            for k in rng.sample(range(1, min(n + 4, 26)), min(3, n + 2)) + ([rng.randint(min(n, 20), 30)] if rng.random() < .05 else []):
                what = rng.random()
                if what < .15:
                    # each of these can also be called without MPI being up
                    case['ops'].append(world(rng, k, [rng.choice([{'op': 'motb'}] if ties else [{'op': 'mnn'}, {'op': 'motb'}, {'op': 'mnn', 'var': 'direct'}])], init=False))
                elif what < .45:
                    case['ops'].append(world(rng, k, [matching(n)], log=True))
                else:
                    # a history of calls
                    calls = []
                    for _ in range(rng.randint(1, 4)):
                        x = rng.random()
                        calls.append({'op': 'mchris'} if x < .3 and metric else matching(n) if x < .6 else other(n, ties))
                    case['ops'].append(world(rng, k, calls))
            cases.append(case)
    number(cases)
    obs = run_worlds(ctx, bindir, cases, real=ctx.pick(4, 30))
    judge(ctx, cases, obs)
