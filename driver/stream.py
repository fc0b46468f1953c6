"""C01 to C04 and C07: freshly generated parsers under the stream simulator."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import common
from common import HarnessError, Task, say

QUICK = {  # grammars, runs per grammar
    'C01': (640, 500), 'C02': (480, 500), 'C03': (480, 500), 'C04': (480, 500), 'C07': (320, 60),
    'C16': (400, 300), 'C20': (480, 100),
}
THOROUGH = {
    'C01': (8000, 2500), 'C02': (6000, 2500), 'C03': (6000, 2500), 'C04': (6000, 2500), 'C07': (3200, 300),
    'C16': (6000, 1500), 'C20': (4000, 400),
}


def rustc(src, out, arts):
    deps = os.path.dirname(arts['streamrt']['rlib']) + '/deps'
    cmd = ['rustc', '--edition=2018', '--crate-name', 'batch', '-C', 'opt-level=0', '-C', 'debuginfo=0',
           '-C', 'debug-assertions=on', '-C', 'codegen-units=4', '--cap-lints=allow', '-L',
           'dependency=' + deps, '--extern', 'streamrt=' + arts['streamrt']['rlib'],
           '--extern', 'chewed=' + arts['chewed']['rlib'], '--error-format=short', '-o', out, src]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          env=common.cargo_env())


def compile_batch(src, out, arts):
    """Compile; grammars whose code does not compile are taken out and returned."""
    bad = []
    for _ in range(12):
        p = rustc(src, out, arts)
        if p.returncode == 0:
            return out, bad
        text = open(src).read()
        lines = text.split('\n')
        owner = {}
        cur = None
        for n, l in enumerate(lines, 1):
            m = re.match(r'mod g(\d+) \{$', l)
            if m:
                cur = int(m.group(1))
            elif l.startswith('fn main'):
                cur = None
            e = re.match(r'        streamrt::entry::<g(\d+)::Ast>', l)
            owner[n] = int(e.group(1)) if e else cur
        gids = {}
        for l in p.stderr.splitlines():
            m = re.match(r'.*?:(\d+):\d+: error(.*)', l)
            if m and owner.get(int(m.group(1))) is not None:
                gids.setdefault(owner[int(m.group(1))], m.group(2)[:200])
        if not gids:
            raise HarnessError('rustc: ' + p.stderr[-3000:])
        for g, why in gids.items():
            bad.append((g, why))
            text = re.sub(r'(?ms)^mod g%d \{$.*?^\}$\n(?=mod g|fn main)' % g, '', text)
            text = re.sub(r'(?m)^        streamrt::entry::<g%d::Ast>.*\n' % g, '', text)
        if 'streamrt::entry' not in text:
            return None, bad
        with open(src, 'w') as f:
            f.write(text)
    raise HarnessError('batch does not compile: ' + p.stderr[-2000:])


def forge(arts, seed, start, count, batches, out, more=()):
    def part(k):
        p = subprocess.run([arts['forge']['bin'], '--seed', str(seed), '--start', str(start), '--count', str(count),
                            '--batches', str(batches), '--out', out, '--part', str(k), '--parts', str(common.JOBS)] + list(more),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=common.limits(0))
        if p.returncode != 0:
            raise HarnessError('forge: %s %s' % (common.death(p.returncode), p.stderr[-1500:]))
        return json.loads(p.stdout)
    with ThreadPoolExecutor(common.JOBS) as ex:
        meta = [m for ms in ex.map(part, range(common.JOBS)) for m in ms]
    return sorted(meta, key=lambda m: m['gid'])


def prepare(arts, seed, start, count, batches, out, more=()):
    meta = forge(arts, seed, start, count, batches, out, more)
    srcs = sorted(f for f in os.listdir(out) if re.match(r'batch_\d+\.rs$', f))
    say('%d grammars generated and run through the real generator' % len(meta))

    def comp(f):
        return compile_batch(os.path.join(out, f), os.path.join(out, f[:-3]), arts)
    with ThreadPoolExecutor(common.JOBS) as ex:
        res = list(ex.map(comp, srcs))
    bins = [b for b, _ in res if b]
    bad = [x for _, b in res for x in b]
    say('%d batches compiled, %d grammars dropped' % (len(bins), len(bad)))
    return meta, bins, bad


def shrink_spec(s):
    if s.get('sim') == 'sessions':
        yield ['preempts']
        yield ['nested']
        yield ['echo']
        for i in range(len(s['sessions'])):
            for k in ('text', 'delays', 'dry'):
                yield ['sessions', i, k]
            yield ['sessions', i, 'turns']
            yield ['sessions', i, 'times']
    elif s.get('sim') == 'weigh':
        yield ['parts']
        yield ['ops']
        for i in range(len(s['parts'])):
            yield ['parts', i, 'faults']
            yield ['parts', i, 'base']
    else:
        for k in ('faults', 'delays', 'dry', 'skips', 'base'):
            yield [k]


def one_off(arts, scenario, tmp):
    """A binary for the grammars of one replay file."""
    d = os.path.join(tmp, 'oneoff')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'programs.json')
    with open(path, 'w') as f:
        json.dump(scenario, f)
    p = subprocess.run([arts['forge']['bin'], '--programs', path, '--out', d], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise HarnessError('forge: ' + p.stderr.decode()[-1500:])
    accepted = {x['gid'] for x in json.loads(p.stdout) if x['verdict'] == 'accept'}
    out, bad = compile_batch(os.path.join(d, 'batch_0.rs'), os.path.join(d, 'batch_0'), arts)
    return out, [(g, why) for g, why in bad if g in accepted]


def one_accepted(arts, scenario, tmp):
    """Does the generator accept one of the two wordings and refuse the other?"""
    path = os.path.join(tmp, 'pair.json')
    with open(path, 'w') as f:
        json.dump(scenario, f)
    p = subprocess.run([arts['forge']['bin'], '--programs', path, '--out', os.path.join(tmp, 'pair')],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=common.limits(60))
    if p.returncode != 0:
        raise HarnessError('forge: ' + p.stderr.decode()[-1500:])
    took = {x['gid'] for x in json.loads(p.stdout)}
    if len(took) != 1:
        return None
    return 'acceptance', 'accepts %s and refuses %s' % tuple(
        json.dumps(scenario['grammars'][k]) for k in (min(took), 1 - min(took)))


def no_parser(arts, scenario, tmp):
    """Is there no parser for the (well-formed) grammar of this replay file?"""
    _, bad = one_off(arts, scenario, tmp)
    if bad:
        return 'no-parser', 'the code generated for a well-formed grammar does not compile' + bad[0][1]
    return None


def shrink_grammar(arts, prop, scenario, cls, tmp, budget):
    """Drop parts of the grammar text while the violation stays."""
    end = time.time() + budget
    text = scenario['grammars'][0]
    tries = 0

    def fails(t):
        s = dict(scenario)
        s['grammars'] = [t] + scenario['grammars'][1:]
        try:
            if cls == 'no-parser':
                return no_parser(arts, s, tmp) is not None
            b, _ = one_off(arts, s, tmp)
            if not b:
                return False
            r = common.replay_once([b], prop, s, tmp)
        except HarnessError:
            return False
        return r is not None and r[0] == cls
    # whole statements first, then alternatives and labels, token-wise
    for splitter in (r'(?<=;)', r'(?=\|)', r'(?= : )|(?= \. )'):
        parts = [p for p in re.split(splitter, text) if p]
        i = 0
        while i < len(parts) and time.time() < end:
            cand = ''.join(parts[:i] + parts[i + 1:])
            tries += 1
            if cand.strip() and fails(cand):
                parts = parts[:i] + parts[i + 1:]
            else:
                i += 1
        text = ''.join(parts)
    s = dict(scenario)
    s['grammars'] = [text] + scenario['grammars'][1:]
    return s, tries


def check(prop, seed, tier, tmp, keep_going=False):
    arts = common.build(['forge', 'streamrt'])
    grammars, per = (QUICK if tier == 'quick' else THOROUGH)[prop]
    totals = common.Totals()
    samples, kinds, verdicts, dropped = [], {}, {}, []
    chunk = 160
    seconds = 500 if tier == 'quick' else 3000
    violation = None
    made = 0
    for start in range(0, grammars, chunk):
        d = os.path.join(tmp, 'forge_%d' % start)
        n = min(chunk, grammars - start)
        batches = common.JOBS * 2
        meta, bins, bad = prepare(arts, seed, start, n, batches, d, ['--pairs', '1'] if prop == 'C16' else [])
        made += len(meta)
        by_gid = {m['gid']: m for m in meta}
        if prop == 'C16':
            for m in meta:
                a = m['accepted']
                k = 'both accepted' if all(a) else 'one accepted' if any(a) else 'both refused'
                verdicts[k] = verdicts.get(k, 0) + 1
                kinds[m['kind']] = kinds.get(m['kind'], 0) + 1
                if a[0] != a[1] and not violation:
                    sc = {'sim': 'pair', 'grammars': m['texts']}
                    r = one_accepted(arts, sc, tmp)
                    if r is None:
                        raise HarnessError('not reproducible: ' + json.dumps(sc)[:2000])
                    path = common.save_replay(prop, sc, {'class': r[0], 'detail': r[1], 'seed': seed,
                                                         'grammar': m['gid'], 'minimiser_runs': 0})
                    violation = {'path': path, 'class': r[0], 'detail': r[1]}
            for g, why in bad:
                dropped.append({'grammar': by_gid[g // 2]['texts'][g % 2][:500], 'why': why})
            meta, bad = [m for m in meta if all(m['accepted'])], []
        for m in meta if prop != 'C16' else []:
            k = m['kind'].split(':')[0]
            kinds[k] = kinds.get(k, 0) + 1
            verdicts[m['verdict']] = verdicts.get(m['verdict'], 0) + 1
        for g, why in bad:
            dropped.append({'grammar': by_gid[g]['text'][:500], 'why': why})
            if prop == 'C01' and by_gid[g]['verdict'] == 'accept' and not violation:
                violation = report_no_parser(arts, by_gid[g]['text'], seed, g, tmp)
        if violation:
            break
        tasks = []
        for b in bins:
            k = int(re.search(r'batch_(\d+)$', b).group(1))
            here = sum(1 for m in meta if m['batch'] == k)
            if not here:
                continue
            tasks.append(Task([b], 0, here * per, label=b))
        t, found = common.run_workers(tasks, prop, seed, tmp, seconds, keep_going=keep_going)
        merge(totals, t)
        if len(samples) < 3 and tasks:
            for i in (0, 1, 2):
                s = common.scenario_of(tasks[i % len(tasks)], prop, seed, 7 + i)
                samples.append(s)
        if totals.repeat is None and tasks:
            totals.repeat = repeat(tasks[0], prop, seed, tmp, min(60, tasks[0].count))
        if found:
            violation = pick(arts, prop, seed, found, tmp)
            if violation:
                break
        common.rmtree(d)
        say('%d runs so far' % totals.runs)
    extra = {
        'pairs' if prop == 'C16' else 'grammars': made, 'grammar_kinds': kinds, 'reference_verdicts': verdicts,
        'grammars_dropped_uncompilable': len(dropped), 'dropped_samples': dropped[:3],
    }
    cov = common.coverage_of(totals, RULE[prop], samples, REAL, STUB[prop], extra, MEASURE[prop])
    return cov, violation, ASSUME


def report_no_parser(arts, text, seed, gid, tmp):
    sc = {'sim': 'compile', 'grammars': [text]}
    if no_parser(arts, sc, tmp) is None:
        raise HarnessError('compiles on its own: ' + text[:2000])
    small, tries = shrink_grammar(arts, 'C01', sc, 'no-parser', tmp, 60)
    cls, detail = no_parser(arts, small, tmp)
    path = common.save_replay('C01', small, {'class': cls, 'detail': detail, 'seed': seed, 'grammar': gid,
                                             'minimiser_runs': tries})
    return {'path': path, 'class': cls, 'detail': detail}


def merge(a, b):
    a.runs += b.runs
    a.logs = (a.logs + b.logs) % (1 << 64)
    for k, v in b.counters.items():
        a.counters[k] = a.counters.get(k, 0) + v
    a.sim_time += b.sim_time
    a.seconds += b.seconds
    a.capped |= b.capped
    a.states |= b.states
    a.schedules |= b.schedules


def repeat(task, prop, seed, tmp, n):
    """The same runs in two more processes, cut differently: same logs?"""
    logs = []
    for cuts in ([(0, 1, n)], [(0, 2, (n + 1) // 2), (1, 2, n // 2)]):
        tot = 0
        for start, stride, count in cuts:
            p = subprocess.run(task.argv + ['run', '--property', prop, '--seed', str(seed), '--start', str(start),
                                            '--count', str(count), '--stride', str(stride), '--keep-going'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=task.env,
                               preexec_fn=common.limits(120), timeout=600)
            if p.returncode != 0:
                return None
            tot += int(json.loads(p.stdout.decode().strip().splitlines()[-1])['logs'], 16)
        logs.append(tot % (1 << 64))
    return logs[0] == logs[1]


def pick(arts, prop, seed, found, tmp):
    """Confirm, minimise and save the first finding that reproduces."""
    for f in found:
        task = f['task']
        sc = f.get('scenario') or common.scenario_of(task, prop, seed, f['index'])
        r = common.replay_once(task.argv, prop, sc, tmp)
        if r is None:
            say('finding does not reproduce: index %d' % f['index'])
            raise HarnessError('not reproducible: ' + json.dumps(sc)[:2000])
        cls = r[0]
        say('violation (%s), minimising: %s' % (cls, r[1][:300]))

        def fails(s):
            try:
                x = common.replay_once(task.argv, prop, s, tmp, cpu=20)
            except HarnessError:
                return False
            return x is not None and x[0] == cls
        small, tries = common.shrink(sc, fails, shrink_spec, 40)
        if prop not in ('C07', 'C16'):
            small, more = shrink_grammar(arts, prop, small, cls, tmp, 60)
            tries += more
        b, _ = one_off(arts, small, tmp)
        r1 = common.replay_once([b], prop, small, tmp)
        r2 = common.replay_once([b], prop, small, tmp)
        if r1 is None or r1 != r2:
            small, r1 = sc, r
        detail = r1[1]
        path = common.save_replay(prop, small, {'class': cls, 'detail': detail, 'seed': seed, 'index': f['index'],
                                                'minimiser_runs': tries})
        return {'path': path, 'class': cls, 'detail': detail}
    return None


def replay(prop, scenario, tmp):
    arts = common.build(['forge', 'streamrt'])
    if scenario.get('sim') == 'compile':
        return no_parser(arts, scenario, tmp)
    if scenario.get('sim') == 'pair':
        r = one_accepted(arts, scenario, tmp)
        if r or 'base' not in scenario:
            return r
    b, bad = one_off(arts, scenario, tmp)
    if bad or not b:
        say('the grammar is rejected, or its code does not compile: %s' % bad)
        if not b:
            return None
    return common.replay_once([b], prop, scenario, tmp)


REAL = ['chewed runtime (reader, operations, errors, positions)', 'chomp parser, converter, reducer, type '
        'inference and Rust backend (they produce the parsers)', 'the generated parsers, compiled by rustc']
_S = ['character source: simulated peer (delays, dry spells, damage, reset, stall, end)',
      'clock: simulated ticks']
STUB = {
    'C01': _S, 'C02': _S, 'C03': _S, 'C04': _S,
    'C16': _S,
    'C20': _S + ['memory allocator: the system\'s, with every allocation weighed'],
    'C07': _S + ['thread scheduler: one thread at a time, switched at allocations, source requests and futex calls '
                 'as the scenario says', 'futex, sleep and yield calls: simulated'],
}
_R = ('Grammars: a fixed corpus plus seeded random well-typed grammars (biased towards repeated and open fix points, '
      'shared parts, nullable tails, functions) and near misses the generator accepts. Runs: a sentence derived from '
      'the grammar, damaged by 0-3 faults (cut, drop, dup, swap, set, ins, splice), delivered with delays, dry spells '
      'and an ending (end, reset, stall). Non-trivial: distinct observed history (hash of every result and the '
      'requests made).')
_P = ('Pairs of wordings of one grammar: a seeded random grammar (well typed or with one rule just broken) and the same '
      'with bound names renamed (shared and shadowing wherever allowed) and 0-30 calls and names expanded by hand, '
      'preferring pairs whose generated code differs. Both must be accepted or both refused, and both parsers must tell '
      'the same of every stream (values, their ends, places of errors). Streams: as in C01. Non-trivial: distinct '
      'observed history.')
_W = ('Grammars as in C01. Runs: 6-16 whole sessions one after another, or one stream of up to 30 000 characters (rarely '
      'longer) taken value by value, or reading operations on such a stream; sentences and damaged sentences, ends, resets '
      'and stalls. The allocator reports bytes and blocks in use, the peak and the total for every value, error and '
      'operation. Non-trivial: distinct hash of all weights.')
RULE = {'C20': _W, 'C16': _P, 'C01': _R, 'C02': _R, 'C03': _R, 'C04': _R,
        'C07': _R + ' Here 2-4 such sessions run at once on 1-4 threads, some nested in a request of another, with up '
        'to 80 forced switches; distinct by schedule hash and session list.'}
_M = 'hash of the reference recogniser\'s stack after each delivered character, per grammar'
MEASURE = {'C20': 'hash of the weights, per grammar', 'C16': 'hash of everything both parsers told', 'C01': _M, 'C02': _M, 'C03': _M, 'C04': _M, 'C07': 'hash of everything a session saw'}
ASSUME = ['the reference recogniser (cross-checked against an Earley recogniser and a tree builder) is right',
          'rustc compiles the generated code faithfully', 'stack of 256 MB is enough for streams of 3000 characters']
