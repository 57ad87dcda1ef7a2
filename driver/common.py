"""Shared machinery of all checks: building the code under test, running TLC, executing cases on
the real code, validating what was observed against the specification, reporting.

A check ends in exactly one of three ways:
  exit 0   the property held on everything explored
  exit 1   a line  VIOLATION property=<id> replay=<path>  was printed
  exit 2   the check itself could not be carried out (never a verdict)
"""
import math, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WALKY_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
INF = 1000000000
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print('[%7.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ------------------------------------------------------------------ building

def cargo_env(hooks=False):
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTFLAGS'] = '-Ctarget-cpu=x86-64' + (' --cfg walky_verif' if hooks else '')
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                h.update(open(f, 'rb').read())
            except OSError:
                pass
    return h.hexdigest()


def cargo(crate, target, args, hooks=False, timeout=800, clean=('walky',), sources=None):
    """Builds `crate` (a directory) into .build/<target>. Everything that may have changed is
    compared by content, not by time stamp: copies of the tree may have any time stamps."""
    tdir = os.path.join(BUILD, target)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(BUILD, target + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = cargo_env(hooks)
        stamp = os.path.join(tdir, 'tree.sha')
        now = tree_hash(sources or [REPO + '/src', REPO + '/Cargo.toml', REPO + '/utils/gen_matrix_fast/src', crate])
        old = open(stamp).read() if os.path.exists(stamp) else ''
        if old and old != now:
            for p in clean:
                subprocess.run(['cargo', 'clean', '--offline', '-p', p, '--target-dir', tdir] +
                               (['--release'] if '--release' in args else []),
                               cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
        try:
            r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', tdir] + args, cwd=crate, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('build of %s timed out' % crate)
        if r.returncode != 0:
            raise ToolError('build of %s failed:\n%s' % (crate, r.stdout[-6000:]))
        with open(stamp, 'w') as f:
            f.write(now)
    return os.path.join(tdir, 'release' if '--release' in args else 'debug')


def build_harness(hooks=False):
    if hooks:
        try:
            return cargo(VERIF + '/harness', 'hooked', ['--bin', 'walkyh'], True, clean=('walky', 'walkyh')) + '/walkyh'
        except ToolError as e:
            log('build with hooks failed, going on without hooks:', str(e)[-1500:])
    return cargo(VERIF + '/harness', 'plain', ['--bin', 'walkyh'], False, clean=('walky', 'walkyh')) + '/walkyh'


# ----------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        g, d = m[-1] if m else ('0', '0')
        self.generated, self.distinct = int(g.replace(',', '')), int(d.replace(',', ''))
        self.ok = rc == 0
        v = re.search(r'Error: (?:Invariant|Action property|Property) (\S+) (?:is|was) violated', out)
        self.violated = v.group(1) if v else ('deadlock' if rc == 11 else 'liveness' if rc == 13 else
                                              'temporal' if 'Temporal properties were violated' in out else None)


def tlc(ctx, module, cfg, env=None, workers=None, timeout=600, args=(), xmx='6g', dfs=False, expect=None):
    """Runs TLC. expect=None: the model has to be free of errors. expect=<set of names>: one of
    these properties has to be violated (a sensitivity check of the specification itself)."""
    n = ctx.tick()
    meta = os.path.join(ctx.work, 'tlc%d' % n)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + meta]
    if dfs:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', JAR, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or NCPU),
            '-config', os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC %s/%s timed out' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult(r.stdout, r.returncode, time.time() - t)
    if expect is None:
        if not res.ok:
            raise ToolError('TLC %s/%s: exit %d\n%s' % (module, cfg, r.returncode, r.stdout[-5000:]))
    else:
        if res.violated is None or (expect and res.violated not in expect):
            raise ToolError('TLC %s/%s: expected a violation of %s, got exit %d %s\n%s' %
                            (module, cfg, expect, r.returncode, res.violated, r.stdout[-3000:]))
    log('TLC %s %s: %d distinct, %d generated, %.1fs%s' % (module, cfg, res.distinct, res.generated, res.wall,
                                                        '' if expect is None else ' (violates %s as it has to)' % res.violated))
    return res


# --------------------------------------------------------------------- cases

def run_cases(ctx, binary, cases, limit=20, shards=None, env=None):
    """Executes the cases on the real code. Returns {(id, op index): observation}. A crash or a
    timeout is an observation, too."""
    shards = shards or min(NCPU, max(1, len(cases)))
    obs = {}
    slow = [0]
    lock = threading.Lock()

    def shard(k):
        todo = cases[k::shards]
        restarts = 0
        while todo:
            p = subprocess.Popen([binary, str(limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, env=env)

            def feed(p=p, todo=todo):
                try:
                    for c in todo:
                        p.stdin.write(json.dumps(c) + '\n')
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            th = threading.Thread(target=feed)
            th.start()
            last = None
            for line in p.stdout:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue          # a line that was cut off by a crash
                if r['k'] == 'start':
                    last = (r['id'], r['o'])
                else:
                    with lock:
                        obs[(r['id'], r['o'])] = r
                    last = None
            rc = p.wait()
            th.join()
            if rc == 0:
                break
            if last is None:
                raise ToolError('harness died with %d outside of an operation' % rc)
            # the operation `last` killed the process
            restarts += 1
            what = 'timeout' if rc == -signal.SIGALRM else 'crash'
            with lock:
                obs[last] = {'id': last[0], 'o': last[1], 'k': what, 'msg': 'signal %d' % -rc}
            at = next(i for i, c in enumerate(todo) if c['id'] == last[0])
            rest = dict(todo[at])
            rest['from'] = last[1] + 1
            todo = ([rest] if rest['from'] < len(rest['ops']) else []) + todo[at + 1:]
            with lock:
                slow[0] += what == 'timeout'
            if restarts > 25 or slow[0] > 10:
                break                 # enough evidence
    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(shard, k) for k in range(shards)]:
            f.result()
    return obs


def merge(cases, obs):
    """one record per case: the instance, the operations and what was observed"""
    out = []
    for c in cases:
        r = {k: v for k, v in c.items() if k not in ('ops', 'from', 'mul', 'div', 'off')}
        r['ops'] = []
        for o, op in enumerate(c['ops']):
            got = obs.get((c['id'], o))
            if got is None:
                continue              # not executed: the shard gave up after many crashes
            x = {k: v for k, v in op.items()}
            x.update({k: v for k, v in got.items() if k not in ('id', 'o')})
            r['ops'].append(x)
        out.append(r)
    return out


def validate(ctx, module, records, cfg=None, timeout=800, env=None, chunk=None, workers=None):
    """Lets TLC decide for every record whether it is a behaviour the specification allows.
    Returns [(record, set of reasons)] for the rejected ones."""
    rej = []
    if not records:
        return rej
    chunk = chunk or 15000
    for a in range(0, len(records), chunk):
        part = records[a:a + chunk]
        path = os.path.join(ctx.work, 'trace%d.ndjson' % ctx.tick())
        with open(path, 'w') as f:
            for r in part:
                f.write(json.dumps(r) + '\n')
        e = {'TRACE': path}
        e.update(env or {})
        res = tlc(ctx, module, cfg or module + '.cfg', env=e, timeout=timeout, workers=workers)
        m = re.search(r'"VALIDATED (\d+)"', res.out)
        if res.distinct != 2 * len(part):
            raise ToolError('%s validated %d states for %d records\n%s' % (module, res.distinct, len(part), res.out[-2000:]))
        ctx.states += res.distinct
        ctx.transitions += res.generated
        ctx.traces += len(part)
        for m in re.finditer(r'^"REJECT (\d+) (.*)"$', res.out, re.M):
            rej.append((part[int(m.group(1)) - 1], m.group(2).replace('\\"', '"')))
        if ctx.keep_traces:
            shutil.copy(path, ctx.keep_traces)
        os.remove(path)
    return rej


# --------------------------------------------------------------------- check

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s-%s' % (pid, seed))
        self.work = os.path.join(BUILD, 'work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self._n = 0
        self._l = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.model_states = self.model_transitions = 0
        self.evaluations = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.keep_traces = os.environ.get('KEEP_TRACES')

    @property
    def quick(self):
        return self.tier != 'thorough'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sizes(self, quick, base, q=.5, t=5):
        """[(size, how many random cases)]: a part of `base`, but at least `quick`, or a multiple of it"""
        if not self.quick:
            return [(n, math.ceil(k * t)) for n, k in base]
        least = dict(quick)
        return [(n, max(least.get(n, 0), math.ceil(k * q))) for n, k in base] + [x for x in quick if x[0] not in dict(base)]

    def many(self, quick, base, q=.5, t=5):
        return max(quick, math.ceil(base * q)) if self.quick else math.ceil(base * t)

    def tick(self):
        with self._l:
            self._n += 1
            return self._n

    def model(self, module, cfg, **kw):
        """model checks a design configuration"""
        r = tlc(self, module, cfg, **kw)
        with self._l:
            self.model_states += r.distinct
            self.model_transitions += r.generated
            self.notes.setdefault('design_runs', []).append(
                {'module': module, 'cfg': cfg, 'distinct': r.distinct, 'generated': r.generated,
                 'expected_violation': sorted(kw['expect']) if kw.get('expect') else None})
        return r

    def observe(self, cases, obs, sample=2):
        self.evaluations += len(obs)
        for r in merge(cases[:sample], obs):
            s = json.dumps(r)
            self.samples.append(json.loads(s) if len(s) < 4000 else s[:4000])

    def violation(self, what, detail, key=None):
        self.violations.append((what, detail, key))

    def check(self, module, cases, obs, describe=None, **kw):
        """validates the observations and turns rejections into violations"""
        recs = merge(cases, obs)
        self.observe(cases, obs)
        for rec, why in validate(self, module, recs, **kw):
            case = next((c for c in cases if c['id'] == rec['id']), None)
            self.violation(why, {'module': module, 'case': case, 'observed': rec}, (case or {}).get('key'))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level='model_checking'):
    known = [k for k in load_known() if k[0] == ctx.pid]
    real = []
    for what, detail, key in ctx.violations:
        if key is not None and any(k[1] == key for k in known):
            continue
        real.append((what, detail))
    for pid, key, text in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    lines = []
    if real:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, (what, detail) in enumerate(real[:5]):
            p = os.path.join(d, '%s-%d.json' % (ctx.pid, i))
            with open(p, 'w') as f:
                json.dump({'property': ctx.pid, 'seed': ctx.seed, 'tier': ctx.tier, 'what': what, 'detail': detail}, f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (ctx.pid, p))
            print('  %s' % what[:600])
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
          'coverage': {'states': ctx.model_states + ctx.states, 'transitions': ctx.model_transitions + ctx.transitions,
                       'traces_validated_against_impl': ctx.traces,
                       'design_states': ctx.model_states, 'trace_states': ctx.states,
                       'evaluations': ctx.evaluations,
                       'samples': ctx.samples[:6]},
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(real)}
    ev['coverage'].update(ctx.notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d design states, %d observations of the real code in %d validated records, %d violations, %.1fs' %
          (ctx.pid, ctx.tier, ctx.model_states, ctx.evaluations, ctx.traces, len(real), time.time() - T0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    shutil.rmtree(ctx.work, ignore_errors=True)
    return 1 if real else 0


class Background:
    """runs the design checks while the code is being built and executed"""
    def __init__(self, n=2):
        self.ex = ThreadPoolExecutor(n)
        self.fs = []

    def go(self, f, *a, **k):
        self.fs.append(self.ex.submit(f, *a, **k))

    def join(self):
        for f in self.fs:
            f.result()
