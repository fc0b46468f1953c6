"""Building, running workers, minimising, reporting."""
import array
import copy
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
SIM = os.path.join(VERIF, 'sim')
JOBS = min(8, os.cpu_count() or 1)
START = time.time()


# seconds without any progress after which a run counts as stuck: far above the
# milliseconds a run takes, however loaded the machine is
STUCK = 240


class HarnessError(Exception):
    pass


def say(*a):
    print('[%6.1fs]' % (time.time() - START), *a, flush=True)


def scratch():
    d = tempfile.mkdtemp(prefix='chompsim-')
    return d


def cargo_env():
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = TARGET
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def build(packages):
    """Build packages of the simulator workspace; returns {target name: {kind: path}}."""
    cmd = ['cargo', 'build', '--offline', '--locked', '--message-format=json']
    for p in packages:
        cmd += ['-p', p]
    p = subprocess.run(cmd, cwd=SIM, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {}
    for line in p.stdout.splitlines():
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        if m.get('reason') == 'compiler-artifact':
            t = out.setdefault(m['target']['name'], {})
            if m.get('executable'):
                t['bin'] = m['executable']
            else:
                for f in m['filenames']:
                    if f.endswith('.rlib'):
                        t['rlib'] = f
                    elif f.endswith('.so'):
                        t['so'] = f
    if p.returncode != 0:
        errors = [json.loads(l)['message'].get('rendered', '') for l in p.stdout.splitlines()
                  if l.startswith('{"reason":"compiler-message"') and '"level":"error"' in l]
        raise HarnessError('build failed\n' + p.stderr[-3000:] + '\n'.join(errors)[-5000:])
    say('built', ', '.join(packages))
    return out


def limits(cpu, mem=6 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def death(code):
    if code >= 0:
        return 'exit %d' % code
    names = {-11: 'stack overflow or bad access (SIGSEGV)', -6: 'abort (SIGABRT)', -24: 'endless (CPU limit)',
             -9: 'killed', -14: 'endless (alarm)'}
    return names.get(code, 'signal %d' % -code)


def cpu_seconds(pid):
    """CPU time of a child of ours and the children it waited for."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12]) + int(v[13]) + int(v[14])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Totals:
    def __init__(self):
        self.runs = 0
        self.logs = 0
        self.counters = {}
        self.sim_time = 0
        self.states = set()
        self.schedules = set()
        self.seconds = 0.0
        self.capped = False
        self.repeat = None

    def add(self, r, prefix=None):
        self.runs += r['runs']
        self.logs = (self.logs + int(r['logs'], 16)) % (1 << 64)
        for k, v in r['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.sim_time += r['sim_time']
        self.seconds += r['seconds']
        self.capped = self.capped or r['capped']
        if prefix:
            for name, s in (('states', self.states), ('schedules', self.schedules)):
                p = prefix + '.' + name
                if os.path.exists(p):
                    a = array.array('Q')
                    with open(p, 'rb') as f:
                        a.frombytes(f.read())
                    s.update(a)
                    os.unlink(p)


class Task:
    """One worker process: a slice of the run indices of one binary."""

    def __init__(self, argv, start, count, stride=1, env=None, label=''):
        self.argv = argv
        self.start = start
        self.count = count
        self.stride = stride
        self.env = env
        self.label = label


def run_workers(tasks, prop, seed, tmp, seconds, hang_cpu=60, keep_going=False):
    """Run the tasks, JOBS at a time. Returns (Totals, [found]); found entries
    carry the task and index, and a scenario or a death."""
    totals = Totals()
    found = []
    lock = threading.Lock()
    queue = list(enumerate(tasks))
    stop = threading.Event()
    errors = []

    def one(k, t):
        start, count = t.start, t.count
        while count > 0 and not stop.is_set():
            prog = os.path.join(tmp, 'progress_%d' % k)
            pref = os.path.join(tmp, 'sets_%d' % k)
            if os.path.exists(prog):
                os.unlink(prog)
            cmd = t.argv + ['run', '--property', prop, '--seed', str(seed), '--start', str(start), '--count',
                            str(count), '--stride', str(t.stride), '--progress', prog, '--sets', pref,
                            '--seconds', str(max(1, seconds))]
            if keep_going:
                cmd.append('--keep-going')
            out = open(os.path.join(tmp, 'out_%d' % k), 'w+b')
            err = open(os.path.join(tmp, 'err_%d' % k), 'w+b')
            p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=t.env,
                                 preexec_fn=limits(0))
            last, since, wall = None, 0.0, time.time()
            hung = False
            while p.poll() is None:
                time.sleep(0.05)
                if stop.is_set():
                    p.kill()
                    p.wait()
                    return
                try:
                    with open(prog) as f:
                        cur = f.read().strip()
                except OSError:
                    cur = None
                cpu = cpu_seconds(p.pid)
                if cur != last:
                    last, since, wall = cur, cpu, time.time()
                elif cur and (cpu - since > hang_cpu or time.time() - wall > STUCK):
                    hung = True
                    p.kill()
                    p.wait()
            out.seek(0)
            text = out.read().decode('utf8', 'replace')
            if p.returncode == 0 and text.strip():
                r = json.loads(text.strip().splitlines()[-1])
                with lock:
                    totals.add(r, pref)
                    for f in r['found']:
                        f['task'] = t
                        found.append(f)
                if r['found'] and not keep_going:
                    stop.set()
                return
            # it died at the index it last wrote down
            if not last:
                err.seek(0)
                errors.append('%s: %s before the first run: %s' % (
                    t.label, death(p.returncode), err.read().decode('utf8', 'replace')[-2000:]))
                return
            index = int(last)
            why = 'endless' if hung else death(p.returncode)
            err.seek(0)
            tail = err.read().decode('utf8', 'replace')[-600:]
            with lock:
                found.append({'index': index, 'death': why, 'stderr': tail, 'task': t})
                totals.runs += (index - start) // t.stride
            if not keep_going:
                stop.set()
                return
            done = (index - start) // t.stride + 1
            start, count = index + t.stride, count - done

    def pump():
        while True:
            with lock:
                if not queue or stop.is_set():
                    return
                k, t = queue.pop(0)
            try:
                one(k, t)
            except Exception as e:  # noqa
                errors.append('%s: %r' % (t.label, e))
                return

    threads = [threading.Thread(target=pump) for _ in range(JOBS)]
    for th in threads:
        th.start()
    for th in threads:
        th.join()
    if errors and not found:
        raise HarnessError('\n'.join(errors))
    return totals, found


def scenario_of(task, prop, seed, index):
    cmd = task.argv + ['scenario', '--property', prop, '--seed', str(seed), '--index', str(index)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=task.env, preexec_fn=limits(60))
    if p.returncode != 0:
        raise HarnessError('cannot rebuild scenario %d: %s' % (index, p.stderr[-800:]))
    return json.loads(p.stdout.decode().strip().splitlines()[-1])


def replay_once(argv, prop, scenario, tmp, env=None, cpu=60, name='replay.json'):
    """Returns (class, detail, log) of the first finding for prop, or None."""
    path = os.path.join(tmp, name)
    with open(path, 'w') as f:
        json.dump(scenario, f)
    try:
        p = subprocess.run(argv + ['replay', path, '--property', prop], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, preexec_fn=limits(cpu), timeout=STUCK)
    except subprocess.TimeoutExpired:
        return ('death', 'stuck', '')
    if p.returncode != 0:
        if p.returncode == 101:
            say('replay panicked: %s' % p.stderr.decode('utf8', 'replace')[-600:])
        return ('death', death(p.returncode), '')
    r = json.loads(p.stdout.decode().strip().splitlines()[-1])
    for f in r['findings']:
        return (f['class'], f['detail'], r['log'])
    return None


def shrink(scenario, fails, spec, budget=60.0):
    """Greedy delta debugging of the listed fields. `fails(scenario)` keeps the
    same class. `spec(scenario)` yields paths; a path is a list of keys."""
    end = time.time() + budget
    tries = [0]

    def get(s, path):
        for k in path:
            s = s[k]
        return s

    def put(s, path, v):
        s = copy.deepcopy(s)
        t = s
        for k in path[:-1]:
            t = t[k]
        t[path[-1]] = v
        return s

    def ok(s):
        tries[0] += 1
        return fails(s)

    changed = True
    while changed and time.time() < end:
        changed = False
        for path in list(spec(scenario)):
            try:
                v = get(scenario, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, (list, str)):
                n = len(v)
                size = max(1, n // 2)
                while size >= 1 and time.time() < end:
                    i = 0
                    while i < len(v) and time.time() < end:
                        w = v[:i] + v[i + size:]
                        cand = put(scenario, path, w)
                        if ok(cand):
                            scenario, v, changed = cand, w, True
                        else:
                            i += size
                    size //= 2
            elif isinstance(v, int) and not isinstance(v, bool):
                for w in sorted({0, 1, v // 2, v - 1}):
                    if 0 <= w < v and ok(put(scenario, path, w)):
                        scenario, changed = put(scenario, path, w), True
                        break
    return scenario, tries[0]


def save_replay(prop, scenario, meta):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    s = dict(scenario)
    s['property'] = prop
    s['about'] = meta
    text = json.dumps(s, indent=1, ensure_ascii=True)
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def evidence(prop, tier, seed, level, coverage, assumptions, violations):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
         'assumptions': assumptions, 'wall_s': round(time.time() - START, 2), 'violations': violations}
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')


def coverage_of(totals, rule, samples, real, stub, extra=None, measure=None):
    wall = max(0.01, time.time() - START)
    faults = {k[6:]: v for k, v in sorted(totals.counters.items()) if k.startswith('fault:')}
    outcomes = {k[8:]: v for k, v in sorted(totals.counters.items()) if k.startswith('outcome:')}
    other = {k: v for k, v in sorted(totals.counters.items()) if not k.startswith(('fault:', 'outcome:'))}
    c = {
        'evaluations': totals.runs,
        'distinct_nontrivial': len(totals.schedules),
        'rule': rule,
        'samples': samples,
        'simulated_runs': totals.runs,
        'runs_per_hour': int(totals.runs / wall * 3600),
        'seeds_per_hour': int(totals.runs / wall * 3600),
        'simulated_time_ticks': totals.sim_time,
        'faults_fired': faults,
        'outcomes': outcomes,
        'counters': other,
        'distinct_states': len(totals.states),
        'distinct_histories': len(totals.schedules),
        'log_hash': '%016x' % totals.logs,
        'components_real': real,
        'components_stub': stub,
        'stopped_early_by_wall_clock': totals.capped,
    }
    if totals.repeat is not None:
        c['repeated_runs_identical'] = totals.repeat
    if measure:
        c['state_measure'] = measure
    if extra:
        c.update(extra)
    return c


def known_findings(prop):
    """Lines `KNOWN-FINDING property=<id> key=<key> <text>` of the committed file."""
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    rest = line.split(' ', 2)[2].strip()
                    key = ''
                    if rest.startswith('key='):
                        key, rest = rest[4:].split(' ', 1)
                    out.append((key, rest))
    return out


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)
