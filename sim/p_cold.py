'''C16: the first imports and first calls of a process, from several threads.

Workers for this property have never imported blmath.  In every run the
threads import modules, make their own arguments and call, scheduled
instruction by instruction, module bodies included; a thread that waits for
another's import gives way through the module-lock seam.  Every outcome must
be the one the same thread has alone in a fresh process.
'''
import importlib
import re
import sys

import canon
import forkrun
import monitor
import ops
import program
import sched
import simnative
import worker
from core import Prop, clone, key_of, rng, shrink_threads
from p_threads import sched_spec


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


def do(step, world):
    if step['do'] == 'import':
        def go():
            m = importlib.import_module(step['m'])
            return surface(m)
        return Thunk(go)
    if step['do'] == 'from':
        def go():
            m = __import__(step['m'], fromlist=[step['n']])
            return describe(getattr(m, step['n']))
        return Thunk(go)
    return ops.prepare(step['f'], step['s'], world)


def describe(x):
    if isinstance(x, (int, float, str)):
        return x
    if isinstance(x, dict):
        return ('dict', sorted(map(str, x)))
    if isinstance(x, type):
        return ('class', x.__name__, sorted(k for k in vars(x) if not k.startswith('__')))
    return (type(x).__name__, getattr(x, '__name__', ''))


def surface(m):
    '''What an importer can reach in a module, apart from submodules, which
    other imports add.'''
    out = {}
    for k, v in sorted(vars(m).items()):
        if k.startswith('_') or type(v).__name__ == 'module':
            continue
        out[k] = describe(v)
    return out


def execute(job):
    simnative.np_install()
    if job.get('preload'):
        # everything is imported before the threads begin: only the first
        # calls are theirs
        monitor.set_instr(False)
        for m in ops.IMPORTS:
            importlib.import_module(m)
    monitor.set_instr(job.get('gran', 'instr') == 'instr')
    threads = job['threads']
    results = [[None] * len(t) for t in threads]
    res = {'viol': None, 'threads': results}

    def body(t):
        def go():
            world = ops.World('%s/%d' % (job['world'], job['ids'][t]), job.get('p_share', .5))
            for i, step in enumerate(threads[t]):
                try:
                    call = do(step, world)
                except BaseException as e:
                    results[t][i] = {'out': ('prepare', canon.canon(e)), 'ev': 0}
                    continue
                rec, raw = program.run_step(call)
                results[t][i] = {'out': rec['out'], 'ev': rec['ev']}
                del raw
        return go

    def hang(why):
        res['viol'] = {'kind': 'hang', 'msg': why}
        res['trace'], res['steps'], res['switches'] = s.trace, s.steps, s.switches
        forkrun.Child.finish(res)

    spec = job.get('sched') or {'kind': 'segments', 'segments': []}
    s = sched.Sched([body(t) for t in range(len(threads))], sched.make_policy(spec, rng(job['seed'], 'cold')),
                    budget=job.get('budget', 4000000), on_hang=hang, setup=lambda i: simnative.np_install())
    if job.get('survey'):
        monitor.record = []
    s.run()
    monitor.paused = True
    if job.get('survey'):
        res['places'] = monitor.places(monitor.record)
        monitor.record = None
    res['trace'], res['steps'], res['switches'] = s.trace, s.steps, s.switches
    res['partly'] = [n for n, m in list(sys.modules.items()) if n.startswith('blmath') and getattr(getattr(m, '__spec__', None), '_initializing', False)]
    return res


_cache = {}


def alone(job, t):
    key = repr((job['world'], job['ids'][t], job['threads'][t], job.get('p_share'), job.get('preload')))
    if key not in _cache:
        if len(_cache) > 500:
            _cache.clear()
        one = clone(job)
        one['threads'] = [job['threads'][t]]
        one['ids'] = [job['ids'][t]]
        one['sched'] = None
        one['survey'] = True
        _cache[key] = forkrun.run(execute, one, timeout=60)
    return _cache[key]


def deadlock(out):
    '''The module whose import lock Python refused to wait for.'''
    m = re.search(r"_DeadlockError.*_ModuleLock\('([^']*)'\)", repr(out).replace('\\', ''))
    return m and m.group(1)


class C16(Prop):
    id = 'C16'
    warm = False

    def make(self, i, seed, tier):
        r = rng(seed, 'C16', i)
        fams = ops.FAMILIES
        first = fams[i % len(fams)]
        group = [g for g in ops.GROUP.values() if first in g][0]
        nt = r.choice([2, 2, 3, 4])
        threads = []
        for t in range(nt):
            steps = []
            k = r.random()
            if k < .25:
                steps.append({'do': 'import', 'm': r.choice(ops.IMPORTS)})
            if k < .1:
                steps.append({'do': 'import', 'm': r.choice(ops.IMPORTS)})
            f = first if t == 0 or r.random() < .5 else r.choice(group) if r.random() < .5 else r.choice(fams)
            if k < .9:
                steps.append({'do': 'call', 'f': f, 's': r.randrange(10 ** 6)})
            else:
                steps += [{'do': 'import', 'm': r.choice(ops.IMPORTS)} for _ in range(2)]
            if r.random() < .2:
                steps.append({'do': 'call', 'f': r.choice(group), 's': r.randrange(10 ** 6)})
            threads.append(steps)
        if r.random() < .3:
            for t in range(1, nt):
                threads[t] = [dict(x) for x in threads[0]]
        job = {'seed': r.randrange(1 << 30), 'world': r.randrange(1 << 30), 'p_share': r.choice([0, .5]), 'threads': threads, 'ids': list(range(nt)),
               'gran': 'instr', 'n_scheds': 10 if tier == 'quick' else 30}
        if i // len(fams) % 2:
            job['preload'] = True
            job['threads'] = [[s for s in t if s['do'] == 'call'] or [{'do': 'call', 'f': first, 's': r.randrange(10 ** 6)}] for t in threads]
        return job

    def run(self, job, res):
        refs = []
        for t in range(len(job['threads'])):
            st = alone(job, t)
            if st[0] != 'ok':
                res.stats['skipped: %s alone' % st[0]] += 1
                return
            if st[1]['viol']:
                res.n += 1
                j = clone(job)
                j['threads'], j['ids'] = [job['threads'][t]], [job['ids'][t]]
                j['sched'] = {'kind': 'segments', 'segments': []}
                res.fail(st[1]['viol']['kind'], 'alone: ' + st[1]['viol']['msg'], j)
                return
            refs.append(st[1])
        lengths = [max(1, x['steps']) for x in refs]
        r = rng(job['seed'], 'scheds')
        specs = [job['sched']] if job.get('sched') else [sched_spec(r, lengths, [x['places'] for x in refs]) for _ in range(job['n_scheds'])]
        res.sample = {'threads': job['threads'], 'schedules': specs[:2], 'events_alone': lengths}
        dead = {}
        for spec in specs:
            one = clone(job)
            one['sched'] = spec
            one['budget'] = 20 * sum(lengths) + 200000
            st = forkrun.run(execute, one, timeout=60)
            if st[0] == 'timeout':
                st = forkrun.run(execute, one, timeout=240)
            res.n += 1
            if st[0] != 'ok':
                res.fail('hang' if st[0] == 'timeout' else 'crash', 'process: %s' % (st,), one)
                return
            out = st[1]
            rep = clone(one)
            rep['sched'] = {'kind': 'segments', 'segments': out['trace']}
            res.stats['scheduler_steps'] += out['steps']
            res.stats['context_switches'] += out['switches']
            if len(out['trace']) > len(job['threads']):
                res.keys.append(key_of(job['threads'], out['trace']))
            if out['viol']:
                res.fail(out['viol']['kind'], out['viol']['msg'], rep)
                return
            if out['partly']:
                res.fail('partly', 'modules left half imported: %s' % out['partly'], rep)
                return
            for t, steps in enumerate(job['threads']):
                for k, step in enumerate(steps):
                    d = canon.diff(refs[t]['threads'][0][k]['out'], out['threads'][t][k]['out'])
                    if d:
                        name = step.get('f') or step.get('m')
                        lock = deadlock(out['threads'][t][k]['out'])
                        if lock:
                            dead.setdefault(lock, ('%s: %s' % (name, d[:300]), rep))
                            break
                        res.fail('cold', '%s: alone vs here %s' % (name, d[:300]), rep, what=name)
                        return
        known = worker.load_known('C16')
        for lock in sorted(dead, key=lambda x: bool(worker.match_known(known, {'kind': 'import deadlock', 'what': x, 'msg': ''}))):
            res.fail('import deadlock', dead[lock][0], dead[lock][1], what=lock)
        for t in job['threads']:
            for s in t:
                res.stats['step: ' + s['do']] += 1

    def shrink(self, job):
        for j in shrink_threads(job, min_threads=1):
            if len(j['threads']) != len(j['ids']):
                gone = [t for t in range(len(job['threads'])) if job['threads'][:t] + job['threads'][t + 1:] == j['threads']]
                j['ids'] = [x for n, x in enumerate(job['ids']) if n != (gone[0] if gone else 0)]
            yield j
