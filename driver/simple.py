"""Properties decided by one simulator binary of the workspace: run slices of
the run indices in parallel, confirm, minimise."""
import json

import common
from common import HarnessError, Task, say


class Spec:
    def __init__(self, package, quick, thorough, shrink, rule, measure, real, stub, assume, packages=None,
                 hang=60, env=None, extra=None, quick_s=400, fatal=True):
        self.package = package
        self.quick = quick
        self.thorough = thorough
        self.shrink = shrink
        self.rule = rule
        self.measure = measure
        self.real = real
        self.stub = stub
        self.assume = assume
        self.packages = packages or [package]
        self.hang = hang
        self.env = env            # function(arts) -> environment, or None
        self.extra = extra        # function(prop, argv, env, tmp) -> dict merged into the coverage
        self.quick_s = quick_s
        self.fatal = fatal        # the death of a worker breaks the property


SPECS = {}


def setup(prop):
    s = SPECS[prop]
    arts = common.build(s.packages)
    argv = [arts[s.package]['bin']]
    return s, argv, (s.env(arts) if s.env else None)


def check(prop, seed, tier, tmp, keep_going=False):
    s, argv, env = setup(prop)
    runs = s.quick if tier == 'quick' else s.thorough
    seconds = s.quick_s if tier == 'quick' else 3000
    jobs = common.JOBS
    tasks = [Task(argv, k, (runs - k + jobs - 1) // jobs, jobs, env=env, label='%s %d' % (s.package, k))
             for k in range(jobs)]
    extra = {}
    if s.extra:
        extra = s.extra(prop, argv, env, tmp)
    totals, found = common.run_workers(tasks, prop, seed, tmp, seconds, hang_cpu=s.hang, keep_going=keep_going)
    say('%d runs' % totals.runs)
    violation = pick(s, prop, seed, found, tmp, env) if found else None
    samples = [common.scenario_of(tasks[0], prop, seed, i) for i in (0, 8, 16)]
    if not found:
        totals.repeat = repeat(argv, env, prop, seed, min(200, max(16, runs // 50)))
    cov = common.coverage_of(totals, s.rule, samples, s.real, s.stub, extra, s.measure)
    return cov, violation, s.assume


def repeat(argv, env, prop, seed, n):
    """The same runs in other processes, cut differently: the same logs?"""
    import subprocess
    logs = []
    for cuts in ([(0, 1, n)], [(0, 2, (n + 1) // 2), (1, 2, n // 2)]):
        tot = 0
        for start, stride, count in cuts:
            p = subprocess.run(argv + ['run', '--property', prop, '--seed', str(seed), '--start', str(start),
                                       '--count', str(count), '--stride', str(stride), '--keep-going'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                               preexec_fn=common.limits(300), timeout=600)
            if p.returncode != 0:
                return None
            tot += int(json.loads(p.stdout.decode().strip().splitlines()[-1])['logs'], 16)
        logs.append(tot % (1 << 64))
    if logs[0] != logs[1]:
        say('the repeated runs differ: something escapes the simulator')
    return logs[0] == logs[1]


def pick(s, prop, seed, found, tmp, env):
    for f in found:
        task = f['task']
        if 'death' in f and not s.fatal:
            raise HarnessError('a worker died: %s\n%s' % (f['death'], f['stderr']))
        sc = f.get('scenario') or common.scenario_of(task, prop, seed, f['index'])
        cpu = s.hang * 2
        r = common.replay_once(task.argv, prop, sc, tmp, env=env, cpu=cpu)
        if r is None:
            raise HarnessError('not reproducible: index %d %s %s' % (
                f['index'], f.get('finding') or f.get('death'), json.dumps(sc)[:1500]))
        cls = r[0]
        say('violation (%s), minimising: %s' % (cls, r[1][:300]))

        def fails(x):
            try:
                y = common.replay_once(task.argv, prop, x, tmp, env=env, cpu=min(20, cpu))
            except HarnessError:
                return False
            return y is not None and y[0] == cls
        small, tries = common.shrink(sc, fails, s.shrink, 60)
        r1 = common.replay_once(task.argv, prop, small, tmp, env=env, cpu=cpu)
        r2 = common.replay_once(task.argv, prop, small, tmp, env=env, cpu=cpu)
        if r1 is None or r1 != r2:
            small, r1 = sc, r
        path = common.save_replay(prop, small, {'class': cls, 'detail': r1[1], 'seed': seed, 'index': f['index'],
                                                'minimiser_runs': tries})
        return {'path': path, 'class': cls, 'detail': r1[1]}
    return None


def replay(prop, scenario, tmp):
    s, argv, env = setup(prop)
    return common.replay_once(argv, prop, scenario, tmp, env=env, cpu=s.hang * 2)


# ---- the reader ----------------------------------------------------------

def reader_shrink(sc):
    for k in ('ops', 'dry', 'delays', 'text'):
        yield [k]


_R = dict(
    package='chewsim', quick=300000, thorough=12000000, shrink=reader_shrink,
    rule='Histories of 0-120 reading operations (next, peek, position, skip while, literal, characters of a set, '
         'separated list, take, resume, final parse) over a text of 0-400 characters rich in line ends, odd and '
         'multi-byte characters; the source runs dry and resumes, delays, and ends anywhere. Through IterWrapper '
         '(sized, as dyn, over a boxed iterator) and through the trait\'s own methods on another reader. Non-trivial: '
         'distinct observed history (hash of every result and position).',
    measure='hash of (characters available, next three, operation) before each operation',
    real=['chewed: IterWrapper, every Parser operation, Iter, the Parse entry points, Epsilon, Box'],
    stub=['character source: simulated peer with dry spells, delays and ends', 'clock: simulated ticks'],
    assume=['the model (a list and a cursor) is right',
            'straight after a CR whose LF is next the position is left open; a CR read while the source was dry, '
            'followed by LF after it resumed, may count as one line end or two'],
)
SPECS['C05'] = Spec(**_R)
SPECS['C06'] = Spec(**_R)


# ---- the commands ---------------------------------------------------------

def cli_env(arts):
    """Build the simulated operating system; tell the simulator what to run."""
    import os
    import subprocess
    d = os.path.join(common.TARGET, 'shim')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'shim.%d.so' % os.getpid())
    final = os.path.join(d, 'shim.so')
    p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                        os.path.join(common.SIM, 'clisim', 'shim', 'shim.c')], stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise HarnessError('the shim does not build: ' + p.stderr[-2000:])
    os.replace(so, final)
    e = dict(os.environ)
    e['CLISIM_SHIM'] = final
    e['CLISIM_CHOMP'] = arts['sut-chomp']['bin']
    e['CLISIM_AUTONIBBLE'] = arts['sut-autonibble']['bin']
    return e


def cli_shrink(sc):
    yield ['plans']
    yield ['texts']
    yield ['text']
    yield ['inject']
    for i, _ in enumerate(sc.get('texts', [])):
        yield ['texts', i]
    plans = [['plans', i] for i, _ in enumerate(sc.get('plans', []))]
    if 'plan' in sc:
        plans.append(['plan'])
    for p in plans:
        for k in ('in', 'out', 'err', 'env'):
            yield p + [k]


def divergent(prop, argv, env, tmp):
    """The recorded finding: expansion that does not terminate."""
    import subprocess
    p = subprocess.run([env['CLISIM_CHOMP']], input=b'let w x = x x;\nmatch w w;\n', stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, preexec_fn=common.limits(60))
    return {'known_findings_seen': ['divergent'] if p.returncode < 0 else []}


_CLI = dict(
    package='clisim', shrink=cli_shrink, env=cli_env,
    measure='hash of (command, reads, bytes read, writes, faults fired, exit)',
    real=['the chomp and autonibble commands, built from /repo/src/main.rs and /repo/autonibble/src/main.rs, as whole '
          'processes', 'syn, proc-macro2, the Rust standard library'],
    stub=['the system calls and libc functions read, write, malloc and kin, getrandom, clocks, sleep, getpid and getenv: '
          'a preloaded shim following the plan', 'standard streams: memory files or filled pipes'],
)
SPECS['C08'] = Spec(
    quick=14000, thorough=600000,
    rule='A grammar (three quarters well formed), its fault-free run, then 2-4 runs with faults on the output, the '
         'diagnostic, the input or memory: full device after n bytes, error at the n-th write (once or again), short, '
         'interrupted and zero writes, failing allocations (one or all from the n-th on). Non-trivial: distinct '
         '(system calls, outcome, output) per process.',
    assume=['a descriptor closed before the start (EBADF) is outside: the standard library counts it as written',
            'a crash without faults is C10\'s business'], **_CLI)
SPECS['C09'] = Spec(
    quick=16000, thorough=700000,
    rule='A text (a quarter damaged), one run fed at once and 2-4 fed otherwise: any chunks down to single bytes, '
         'interrupted and delayed reads, file or pipe; read errors after any number of bytes or reads; stray bytes or '
         'a cut inside a character. Non-trivial: distinct (system calls, outcome, output) per process.',
    assume=['the code in this process is the reference for the plain run'], **_CLI)
SPECS['C10'] = Spec(
    quick=20000, thorough=1000000, extra=divergent,
    rule='4-16 texts per run: random grammars, near misses of the typing rules, other spellings (comments, raw strings, '
         'escapes), and damage: cut, lost, repeated or damaged ranges, lost, repeated, swapped or foreign lines, lost, '
         'repeated, swapped, replaced or inserted tokens. All through the stages in this process, the last through the '
         'command. Non-trivial: distinct text and outcome.',
    assume=['the reference reader and typing rules are right; texts with tokens they do not know are not judged',
            'expansions beyond the reference\'s fuel are not judged', 'the stack suffices for the nesting'], **_CLI)
SPECS['C11'] = Spec(
    quick=9000, thorough=400000,
    rule='One text in 4-8 processes that differ in the kernel\'s random bytes, padding and contents of every '
         'allocation, clock, process id, environment (also every variable the command is seen to ask for), working '
         'directory and delivery. Non-trivial: distinct (system calls, outcome, output) per process.',
    assume=['address space randomisation is off and replaced by the padding of allocations'], **_CLI)


# ---- the library and the front ends ----------------------------------------

def comp_shrink(sc):
    yield ['preempts']
    yield ['jobs']
    for i, _ in enumerate(sc.get('jobs', [])):
        yield ['jobs', i, 'times']
        yield ['jobs', i, 'inner']
        yield ['jobs', i, 'text']


SPECS['C12'] = Spec(
    package='compsim', shrink=comp_shrink, quick=5200, thorough=260000, hang=200,
    rule='2-6 compilations (likenesses: the same text again, respelt, renamed or damaged) through the library on 1-4 '
         'threads of which one runs; every allocation is a point where the seeded scheduler may switch. Compilations are '
         'abandoned or torn down by a panic between stages, nested in others, stalled for ever at an allocation, or '
         'repeated up to 400 times in one process. Each is compared with itself alone in a fresh process. Non-trivial: '
         'distinct sequence of switches and jobs.',
    measure='hash of what a compilation gave',
    real=['chomp: nibble, name conversion, typing, lowering, code generation', 'autonibble\'s conversion', 'syn, '
          'proc-macro2, the Rust standard library (locks and once-cells scheduled by the simulator)'],
    stub=['threads: one runs at a time, switched at allocations and futex calls', 'getrandom: seeded'],
    assume=['no data races below the granularity of an allocation or a lock (Rust excludes them outside unsafe code; '
            'chomp has none)'])


def text_shrink(sc):
    yield ['text']


SPECS['C13'] = Spec(
    package='frontsim', shrink=text_shrink, quick=90000, thorough=4000000,
    rule='A grammar text, as generated, respelt (white space, escapes, comments) or with names exchanged, then damaged '
         'in transit 0-3 times, or its sender going quiet after n characters; now and then the published grammars '
         'themselves. Read by both front ends; the published grammar, frozen, decides membership through the reference '
         'machine. Non-trivial: distinct text.',
    measure='hash of (state of the reference machine at the end, verdicts)',
    real=['the autonibble parser as chomp-macro generates it at build time, its conversion', 'chomp\'s syn-based front '
          'end and name conversion', 'chewed'],
    stub=['character source: simulated peer that goes quiet'],
    assume=['the copy of the published grammar in sim/corpus/autonibble.nb is the specification',
            'which texts beyond its own grammar chomp\'s front end accepts is left open'])


def bench_shrink(sc):
    yield ['preempts']
    yield ['docs']
    for i, _ in enumerate(sc.get('docs', [])):
        yield ['docs', i, 'delays']
        yield ['docs', i, 'text']


def halves(prop, argv, env, tmp):
    """The recorded finding: half a surrogate pair."""
    sc = {'docs': [{'text': '"\\ud800"', 'harm': [], 'delays': [], 'kind': 0}], 'preempts': [], 'shared': True, 'halves': True}
    r = common.replay_once(argv, prop, sc, tmp, env=env, cpu=100)
    return {'known_findings_seen': ['half-pair'] if r and r[0] == 'crash' else []}


_B = dict(
    package='benchsim', shrink=bench_shrink,
    measure='hash of the text',
    real=['chomp-bench: the parsers generated by chomp-macro and lalrpop, the hand-written ones, the conversions to '
          'values', 'chewed, lalrpop-util, regex'],
    stub=['character sources: simulated deliveries with delays, cuts and deaths', 'threads: one runs at a time'])
SPECS['C14'] = Spec(
    quick=70000, thorough=5000000,
    rule='1-3 arithmetic texts (deep, long, odd spacing, large numbers), damaged 0-3 times (cut, lost, repeated, '
         'swapped, damaged, inserted characters and ranges, foreign text), each through three evaluators at once: nine '
         'readers interleaved at every character, delayed, or dying by a panic of their source; table-driven parsers '
         'shared or not. Non-trivial: distinct sequence of switches.',
    assume=['the reference evaluator (two stacks, checked arithmetic) is right',
            'overflow and division by zero are not judged'], **_B)
SPECS['C15'] = Spec(
    quick=50000, thorough=4000000,
    rule='1-3 JSON documents (escapes, surrogate pairs, odd numbers, repeated keys, deep, long), damaged 0-3 times, each '
         'through three readers at once: nine readers interleaved at every character, delayed, or dying by a panic of '
         'their source; values read are printed, half of them also into a sink that fills up, and read back. '
         'Non-trivial: distinct sequence of switches.',
    assume=['the reference reader is right; decimal to binary conversion is the standard library\'s',
            'lone surrogate escapes are not judged, except for the recorded finding'], extra=halves, **_B)


# ---- the macro -------------------------------------------------------------

def macro_env(arts):
    """The compiler process: rustc itself, the macro, and its random bytes."""
    import os
    import subprocess
    d = os.path.join(common.TARGET, 'shim')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'random.%d.so' % os.getpid())
    final = os.path.join(d, 'random.so')
    p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                        os.path.join(common.SIM, 'macrosim', 'shim.c')], stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise HarnessError('the shim does not build: ' + p.stderr[-2000:])
    os.replace(so, final)
    root = subprocess.run(['rustc', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    e = dict(os.environ)
    e['MACROSIM_SHIM'] = final
    e['MACROSIM_RUSTC'] = os.path.join(root, 'bin', 'rustc')
    e['MACROSIM_SO'] = (arts.get('chomp-macro') or arts['chomp_macro'])['so']
    e['MACROSIM_CHEWED'] = arts['chewed']['rlib']
    return e


def macro_shrink(sc):
    yield ['invocations']
    for i, _ in enumerate(sc.get('invocations', [])):
        yield ['invocations', i, 'text']


_M = dict(
    package='macrosim', shrink=macro_shrink, env=macro_env, hang=120,
    measure='hash of the text of an invocation',
    real=['chomp-macro in rustc, with chomp and syn as it links them', 'rustc: lexing, expansion, spans'],
    stub=['getrandom: seeded', 'address randomisation: off', 'environment, working directory: as the scenario says'])
SPECS['C19'] = Spec(
    quick=1200, thorough=60000,
    rule='1-40 invocations of the macro in one compiler process, written four ways: good grammars, the same ones again, '
         'respelt, renamed, and texts damaged in transit (cut, lost, repeated, swapped tokens, lines and ranges) that '
         'still are Rust tokens; under seeded hash seeds, environment size and working directory. Non-trivial: distinct '
         'sequence of texts.',
    assume=['code is compared after expansion, literals by value',
            'texts the reference reader cannot lex or whose expansion exceeds its fuel are not placed'], **_M)


def unnormalised(prop, argv, env, tmp):
    """The recorded finding: names that are equal only in normal form."""
    sc = {'sim': 'builds', 'random': 1, 'padding': 0, 'elsewhere': False, 'edition': 2018, 'invocations': [
        {'text': 'match "a" : \u00e9 | "b" : e\u0301;', 'damage': [], 'place': 6}]}
    r = common.replay_once(argv, prop, sc, tmp, env=env, cpu=100)
    return {'known_findings_seen': ['normal-form'] if r and 'defined multiple times' in r[1] else []}


SPECS['C17'] = Spec(
    quick=900, thorough=40000, extra=unnormalised,
    rule='2-8 accepted grammars in one crate whose parameters, let names and labels come from names that generated code '
         'itself uses, numbers, imports or derives (Lit1, part, Branch2, Ast, Box, Ok, Self, a1, a11, x_1, keywords, '
         'case variants); as macro invocations written four ways, in modules, functions and trait methods, or as the '
         'command\'s code in a module; editions 2018 to 2024; a tenth beside damaged neighbours. Each is used through '
         'its Ast. Non-trivial: distinct sequence of texts.',
    assume=['user items do not shadow the standard prelude in the module of the parser',
            'names in normal form C, except for the recorded finding',
            'errors inside damaged neighbours are theirs'], **dict(_M, real=_M['real'] + ['rustc: resolution, types, borrows']))

SPECS['C18'] = Spec(
    quick=2400, thorough=150000,
    rule='4-12 invocations of the macro in one compiler process, written four ways: grammars with one or more rules '
         'broken (undeclared names, calls, sequences, alternatives, leading recursion, also inside function bodies and '
         'arguments), with random spacing, line ends and comments between all tokens, next to grammars in order. '
         'Non-trivial: distinct sequence of texts.',
    assume=['where a call or a recursive use is written in parentheses, behind a label, or is the whole goal, the place '
            'of those may be given instead',
            'where several rules are broken any of the broken places of the stage may be given',
            'a function where a grammar is needed, and ! of something else than a function, are not judged'], **_M)
