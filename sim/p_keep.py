'''C19: nothing is kept after a call.

In one process the same call is made over and over on arguments made anew,
undisturbed or cut short at one seeded point each time; and long series of
ever new calls are made.  Afterwards nothing the caller passed may still be
alive, and the process may not have grown with every repetition.
'''
import array
import atexit
import gc
import os
import sys
import threading
import weakref

import numpy as np
import scipy.sparse as sp

import forkrun
import monitor
import ops
import program
import sched
import simnative
from core import Prop, clone, key_of, rng
from p_memory import reach

# What the libraries keep for reuse fills up within some hundred calls, so
# what looks like growth is followed for longer before it is called that.
FIRST = 4           # not counted
WINDOW = 10         # calls between readings
LEAST = 8           # rise in each of them
LONG, LAST = (900, 2000), 12
S_FIRST, S_WINDOW, S_LEAST, S_TOTAL = 120, 40, 1, 5
S_LONG, S_LAST = (1200, 3200), 12

COUNTERS = ('memory blocks', 'open files', 'threads', 'exit handlers')


class Meter(object):
    """Readings of the process, kept where taking them changes nothing."""

    def __init__(self, size=64):
        self.n = 0
        self.at = array.array('q', [0] * (size * len(COUNTERS)))

    def read(self):
        at, k = self.at, self.n * len(COUNTERS)
        at[k] = sys.getallocatedblocks()
        at[k + 1] = len(os.listdir('/proc/self/fd'))
        at[k + 2] = len(os.listdir('/proc/self/task'))
        at[k + 3] = atexit._ncallbacks()
        self.n += 1

    def row(self, k):
        return list(self.at[k:self.n * len(COUNTERS):len(COUNTERS)])

    def grew(self, least, total):
        """What rose by that much (nearly always) from each reading to the
        next, and altogether."""
        for k, name in enumerate(COUNTERS):
            row = self.row(k)
            if len(row) < 2:
                return name, row
            steps = [y - x for x, y in zip(row, row[1:])]
            if sum(x >= least for x in steps) >= len(steps) - len(steps) // 6 and row[-1] - row[0] >= total * len(steps):
                return name, row
        return None


def referents(call):
    '''Weak references to what the caller passes.'''
    ids, arrays = {}, []
    for a in call.args:
        reach(a, ids, arrays)
    out = []
    for x in ids.values():
        if isinstance(x, (type, type(os))) or callable(x) and not sp.issparse(x):
            continue
        if getattr(type(x), '__module__', '').startswith(('stubs', 'numpy', 'scipy', 'blmath')):
            try:
                out.append((type(x).__name__, weakref.ref(x)))
            except TypeError:
                pass
    return out


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


def once(step, world, fault, in_thread):
    '''The call, from arguments to letting go of the result; what it left
    behind of its arguments.'''
    box = {}

    def body():
        call = ops.prepare(step['f'], step['s'], ops.World(world, .3))
        box['refs'] = referents(call)
        rec, raw = program.run_step(call, fault)
        box['fired'] = rec['fired']
        box['counts'] = {'intr': rec['ki'], 'memcall': rec['mc']}
        box['where'] = rec['where']
        del rec, raw, call
    if in_thread:
        s = sched.Sched([body], sched.SegmentPolicy([]), on_hang=lambda why: forkrun.Child.finish({'viol': ('hang', why), 'n': 1}),
                        setup=lambda i: simnative.np_install())
        s.run()
        del s
    else:
        body()
    gc.collect()
    alive = [n for n, w in box.pop('refs') if w() is not None]
    box['alive'] = alive
    return box


def repeat(job):
    """One call, again and again, each time cut short at the same point."""
    gc.collect()
    monitor.set_instr(False)
    program.leave_traceback = True
    out = {'viol': None, 'n': 0, 'fired': None, 'counts': None}
    f = job.get('fault')
    meter, n = Meter(), 0
    while n <= FIRST + WINDOW or n <= LONG[-1] + LAST * WINDOW and meter.grew(LEAST, LEAST):
        b = once(job['step'], job['world'], f, job['threads'] and n % 2 == 0 or job['threads'] == 2)
        out['n'] += 1
        if n == 0:
            out['counts'], out['fired'], out['where'] = b['counts'], b['fired'], b['where']
        if b['alive']:
            out['viol'] = ('kept', 'the caller let go of its arguments, but of %s these are still alive: %s%s' % (
                job['step']['f'], sorted(set(b['alive'])), ' (cut short at %s)' % b['where'] if b['fired'] else ''))
            return out
        del b
        n += 1
        if n in LONG:
            meter.n = 0
        if n in (FIRST, FIRST + WINDOW) or any(0 <= n - m <= LAST * WINDOW and n % WINDOW == 0 for m in LONG):
            meter.read()
    k = meter.grew(LEAST, LEAST)
    if k and n > LONG[-1]:
        out['viol'] = ('grows', '%s: every ten calls leave more %s: %s%s' % (
            job['step']['f'], k[0], k[1], ' (cut short at %s)' % out['where'] if out['fired'] else ''))
    return out


def points(job):
    monitor.set_instr(False)
    call = ops.prepare(job['step']['f'], job['step']['s'], ops.World(job['world'], .3))
    monitor.record = []
    rec, raw = program.run_step(call)
    monitor.record = None
    return {'intr': rec['ki'], 'memcall': rec['mc'], 'klocs': rec['klocs'], 'mlocs': rec['mlocs']}


def series(job):
    '''Ever new calls.'''
    gc.collect()
    monitor.set_instr(False)
    program.leave_traceback = True
    r = rng(job['seed'], 'series')
    out = {'viol': None, 'n': 0, 'fired': 0}
    meter = Meter()
    n = 0
    while n <= S_FIRST + 3 * S_WINDOW or n <= S_LONG[-1] + S_LAST * S_WINDOW and meter.grew(S_LEAST, S_TOTAL):
        step = {'f': job['f'] or r.choice(ops.FAMILIES), 's': r.randrange(10 ** 6)}
        fault = None
        if job['faults'] and r.random() < .5:
            fault = {'kind': r.choice(['intr', 'memcall']), 'at': r.randint(1, 12)}
        b = once(step, '%s/%d' % (job['world'], n), fault, job['threads'] == 2)
        out['n'] += 1
        out['fired'] += bool(b['fired'])
        if b['alive']:
            out['viol'] = ('kept', 'the caller let go of its arguments, but of %s these are still alive: %s%s' % (
                step['f'], sorted(set(b['alive'])), ' (cut short at %s)' % b['where'] if b['fired'] else ''))
            return out
        del b
        n += 1
        if n in S_LONG:
            meter.n = 0
        if n % S_WINDOW == 0 and (S_FIRST <= n <= S_FIRST + 3 * S_WINDOW or any(0 <= n - m <= S_LAST * S_WINDOW for m in S_LONG)):
            meter.read()
    k = meter.grew(S_LEAST, S_TOTAL)
    if k and n > S_LONG[-1]:
        out['viol'] = ('grows', '%s: with ever new arguments the process has more and more %s: %s' % (job['f'] or 'all kinds of calls', k[0], k[1]))
    return out


class C19(Prop):
    id = 'C19'

    def make(self, i, seed, tier):
        r = rng(seed, 'C19', i)
        f, turn = ops.FAMILIES[i % len(ops.FAMILIES)], i // len(ops.FAMILIES) % 5
        if turn == 4:
            # anything goes
            f = None
        return {'seed': r.randrange(1 << 30), 'f': f, 'world': r.randrange(1 << 30), 'tier': tier,
                'n': {'quick': 6, 'thorough': 20}[tier], 'series': turn % 2 == 0, 'faults': r.random() < .6, 'threads': r.choice([0, 0, 1, 2])}

    def run(self, job, res):
        if job.get('kind') == 'repeat':
            return self.one(repeat, job, res)
        if job.get('series') or job.get('kind') == 'series':
            one = clone(job)
            one['kind'] = 'series'
            self.one(series, one, res)
            return
        r = rng(job['seed'], 'repeat')
        for _ in range(job['n']):
            one = {'kind': 'repeat', 'step': {'f': job['f'], 's': r.randrange(10 ** 6)}, 'world': job['world'], 'threads': job['threads'], 'f': job['f']}
            if job['faults']:
                st = forkrun.run(points, one, timeout=60)
                if st[0] == 'ok':
                    kinds = [k for k in ('intr', 'memcall') if st[1][k]]
                    if kinds:
                        k = r.choice(kinds)
                        at = r.randint(1, st[1][k])
                        places = st[1]['klocs' if k == 'intr' else 'mlocs']
                        if places and r.random() < .7:
                            at = r.choice(r.choice(places))
                        one['fault'] = {'kind': k, 'at': at}
            self.one(repeat, one, res)
            if res.viol:
                return

    def one(self, fn, job, res):
        st = forkrun.run(fn, job, timeout=90)
        if st[0] == 'timeout':
            st = forkrun.run(fn, job, timeout=240)
        if st[0] != 'ok':
            res.n += 1
            if forkrun.run(points, {'step': job.get('step') or {'f': job['f'] or ops.FAMILIES[0], 's': 0}, 'world': job['world']}, timeout=60)[0] != 'ok':
                res.stats['skipped: %s alone' % st[0]] += 1
                return
            res.fail('crash' if st[0] == 'crash' else 'hang', 'process: %s' % (st,), job, what=job['f'])
            return
        o = st[1]
        res.n += o['n']
        res.stats['histories: ' + job['kind']] += 1
        if o.get('fired'):
            res.stats['calls cut short'] += o['n'] if job['kind'] == 'repeat' else o['fired']
        res.keys.append(key_of(job))
        res.sample = job
        if o['viol']:
            res.fail(o['viol'][0], o['viol'][1], job, what=job['f'])

    def shrink(self, job):
        if job.get('fault'):
            j = clone(job)
            del j['fault']
            yield j
        if job.get('kind') == 'series' and job.get('faults'):
            j = clone(job)
            j['faults'] = False
            yield j
        if job.get('threads'):
            j = clone(job)
            j['threads'] = 0
            yield j
