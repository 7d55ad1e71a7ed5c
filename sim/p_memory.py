'''C04: no hidden memory between calls.

One thread with a few calls prepared ahead ("slots").  A history makes calls,
overwrites the contents of the callers' arrays and objects in place between
them, replaces a slot's arguments by fresh ones, and scribbles over results
that were handed out.  Each call's outcome must be the one of a fresh process
in which the same arguments were prepared and overwritten and nothing else was
ever called.
'''
import gc
import random

import numpy as np
import scipy.sparse as sp

import canon
import forkrun
import monitor
import ops
import program
from core import Prop, clone, key_of, rng, shrink_steps

SEP = 'slot'


def reach(x, ids, arrays, depth=0):
    '''Objects a caller owns through its arguments.'''
    if depth > 6 or x is None or isinstance(x, (int, float, str, bytes, bool, type)):
        return
    if id(x) in ids:
        return
    ids[id(x)] = x
    if isinstance(x, np.ndarray):
        arrays.append(x)
        if x.dtype == object:
            for i in x.ravel().tolist():
                reach(i, ids, arrays, depth + 1)
        return
    if isinstance(x, (list, tuple, set)):
        for i in x:
            reach(i, ids, arrays, depth + 1)
        return
    if isinstance(x, dict):
        for i in x.values():
            reach(i, ids, arrays, depth + 1)
        return
    for a in getattr(x, '__dict__', {}).values():
        reach(a, ids, arrays, depth + 1)


def rewrite_array(a, r):
    if not a.flags.writeable or a.size == 0 or a.dtype == object:
        return
    k = r.randrange(9)
    if k == 8:
        # the same numbers in another shape
        n = a.size
        shapes = [x for x in [(n,), (1, n), (n // 3, 3), (3, n // 3)] if x != a.shape and np.prod(x) == n]
        a.shape = shapes[r.randrange(len(shapes))]
    elif a.dtype.kind == 'f':
        if k == 5:
            a[tuple(r.randrange(n) for n in a.shape)] = r.choice([float('nan'), float('inf'), 0., 1e3])
        elif k == 6:
            a[...] = r.choice([0., 1., -2.])
        elif k == 7:
            # a little change, somewhere in it
            i = tuple(r.randrange(n) for n in a.shape)
            a[i] = a[i] + r.choice([1e-3, .5, -3.])
        elif k == 0:
            a[...] = a * r.choice([2., -1., .5])
        elif k == 1:
            a[...] = a[::-1].copy() if a.ndim else a
        elif k == 2 and a.ndim == 2 and a.shape[0] == a.shape[1]:
            a[...] = a * r.choice([2., 3., .25])
        else:
            rs = np.random.RandomState(r.randrange(1 << 30))
            a[...] = a + rs.uniform(-.5, .5, a.shape)
    elif k < 4 or a.dtype.kind not in 'iu' or a.size > 60:
        a[...] = a[::-1].copy() if a.ndim else a
    else:
        # stays a valid index, if that is what it is
        i = tuple(r.randrange(n) for n in a.shape)
        a[i] = a[tuple(r.randrange(n) for n in a.shape)]


def rewrite(x, r, depth=0):
    '''New contents for an argument, in place, as a caller may.'''
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        rewrite_array(x, r)
    elif isinstance(x, list):
        if len(x) > 1 and r.random() < .7:
            x.reverse()
        else:
            for i in x:
                rewrite(i, r, depth + 1)
    elif isinstance(x, dict):
        for k in list(x):
            rewrite(x[k], r, depth + 1)
    elif sp.issparse(x):
        if x.dtype.kind == 'f' and x.format in ('csc', 'csr', 'coo'):
            x.data *= r.choice([2., 4., .5])
    else:
        n = type(x).__name__
        if n == 'Value':
            x.value = x.value * 2 + 1
            if r.random() < .4 and x.units in ops.CLASSES['length']:
                x.units = r.choice(ops.CLASSES['length'])
        elif n == 'Polyline':
            k = r.randrange(4) if x.v is not None else 2
            if k == 3:
                x.flip()
            elif k == 0:
                rewrite_array(x.v, r)
            elif k == 1:
                x.v = np.array(x.v)[::-1] * 1.5
            elif x.v is None or len(x.v):
                x.closed = not x.closed
        elif n == 'Mesh':
            if x.v is not None:
                rewrite_array(x.v, r)
        elif n == 'CompositeTransform':
            if r.random() < .7:
                x.translate([r.uniform(-2, 2) for _ in range(3)])
            else:
                x.scale(r.choice([.5, 2.]))
        elif n == 'CoordinateManager':
            k = r.randrange(3)
            if k == 0:
                x.tag_as(r.choice('abcs'))
            elif k == 1:
                x.translate([r.uniform(-2, 2) for _ in range(3)])
            else:
                setattr(x, r.choice('abc'), np.array([[r.uniform(-2, 2) for _ in range(3)] for _ in range(2)]))


def scribble(x, owned, arrays, depth=0):
    '''Overwrite a result, except where it is one of the caller's own objects.'''
    if depth > 5 or id(x) in owned:
        return 0
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and not any(np.shares_memory(x, a) for a in arrays):
            if x.dtype.kind == 'f':
                x[...] = -77.5
            elif x.dtype.kind in 'iu':
                x[...] = 1
            elif x.dtype.kind == 'b':
                x[...] = ~x
            return 1
        return 0
    if isinstance(x, (list, tuple, set)):
        for i in list(x):
            n += scribble(i, owned, arrays, depth + 1)
        if isinstance(x, list):
            x.append('scribbled')
            n += 1
        return n
    if isinstance(x, dict):
        for i in list(x.values()):
            n += scribble(i, owned, arrays, depth + 1)
        x['scribbled'] = 1
        return n + 1
    if sp.issparse(x):
        for a in canon.arrays_in(x):
            n += scribble(a, owned, arrays, depth + 1)
        return n
    name = type(x).__name__
    if name == 'Value':
        x.value = -31.25
        return 1
    if name == 'Polyline':
        if x.v is not None and len(x.v):
            n += scribble(x.v, owned, arrays, depth + 1)
        x.v = [[9., 9., 9.], [8., 8., 8.]]
        return n + 1
    if name in ('Mesh', 'Lines'):
        return scribble(x.v, owned, arrays, depth + 1)
    if name == 'Plane':
        return scribble(x.reference_point, owned, arrays, depth + 1) + scribble(x.normal, owned, arrays, depth + 1)
    if name == 'Box':
        return scribble(x.origin, owned, arrays, depth + 1)
    if name == 'CompositeTransform':
        x.scale(3.)
        return 1
    return 0


def touches(x, owned, arrays):
    '''Does a result share anything with the caller's own objects?'''
    ids, arr = {}, []
    reach(x, ids, arr)
    if any(i in owned for i in ids):
        return True
    return any(np.shares_memory(a, b) for a in arr for b in arrays)


def apply_step(st, slots, world):
    """A step other than a call or a scribble."""
    if st['do'] == 'new':
        slots.pop(st['slot'], None)
        try:
            slots[st['slot']] = ops.prepare(st['f'], st['s'], world)
        except ValueError:
            pass            # the shared objects do not lend themselves any more
    elif st['do'] == 'rewrite' and st['slot'] in slots:
        q = random.Random('rw/%s' % st['s'])
        for a in slots[st['slot']].args:
            try:
                rewrite(a, q)
            except Exception:
                pass        # refused by the object itself


def everything(slots, world):
    owned, arrays = {}, []
    for c in slots.values():
        for a in c.args:
            reach(a, owned, arrays)
    for a in world.pool.values():
        reach(a, owned, arrays)
    return owned, arrays


def history(job, upto=None):
    """Do the history (up to a step)."""
    world = ops.World(job['world'], job['p_share'])
    slots = {}
    monitor.set_instr(False)
    out = []
    kept = []
    scribbles = 0
    steps = job['steps'] if upto is None else job['steps'][:upto + 1]
    for n, st in enumerate(steps):
        out.append(None)
        if st['do'] == 'call':
            if st['slot'] not in slots:
                continue
            rec, raw = program.run_step(slots[st['slot']])
            out[n] = rec['out']
            kept.append([n, raw, rec['out'], slots[st['slot']].alias, False, st['slot']])
            del raw
        elif st['do'] == 'scribble':
            cand = [x for x in kept if not x[4] and ('slot' not in st or x[5] == st['slot'])]
            if not cand:
                continue
            x = cand[-1] if st.get('last') else cand[st['s'] % len(cand)]
            if x[3] or isinstance(x[1], BaseException):
                continue
            owned, arrays = everything(slots, world)
            m = scribble(x[1], owned, arrays)
            scribbles += m
            if m:
                # what it shared with other results is scribbled too
                ids, arr = {}, []
                reach(x[1], ids, arr)
                for y in kept:
                    if y is x or not y[4] and touches(y[1], ids, arr):
                        y[4] = True
        elif st['do'] == 'drop':
            # the caller lets go of everything it got
            kept = []
        else:
            apply_step(st, slots, world)
    late = None
    owned, arrays = everything(slots, world)
    for n, raw, was, alias, dead, slot in kept:
        if dead or alias or isinstance(raw, BaseException) or touches(raw, owned, arrays):
            continue
        if any(s['do'] == 'new' and s['slot'] == slot for s in steps[n + 1:]):
            continue    # its arguments are gone; cannot tell what it shared
        d = canon.diff(was, canon.canon(raw))
        if d:
            late = (n, d)
            break
    return {'out': out, 'late': late, 'scribbles': scribbles}


def needed(job, n):
    """The steps that decide what call n is given."""
    gen, now = {}, {}
    for m, st in enumerate(job['steps'][:n]):
        if st['do'] == 'new':
            now[st['slot']] = m
            gen[m] = [m]
        elif st['do'] == 'rewrite' and st['slot'] in now:
            gen[now[st['slot']]].append(m)
    mine = now.get(job['steps'][n]['slot'])
    keep = [m for g, ms in gen.items() if g == mine or job['p_share'] and len(ms) > 1 for m in ms]
    return [job['steps'][m] for m in sorted(keep)]


def fresh_call(job, n):
    """Prepare and rewrite as the history does, and make its call n only."""
    world = ops.World(job['world'], job['p_share'])
    slots = {}
    monitor.set_instr(False)
    for st in needed(job, n):
        apply_step(st, slots, world)
    k = job['steps'][n]['slot']
    if k not in slots:
        return None
    return program.run_step(slots[k])[0]['out']


def reverse(job):
    """Every call of the history on objects of its own, the last call first."""
    return {n: fresh_call(job, n) for n in range(len(job['steps']) - 1, -1, -1) if job['steps'][n]['do'] == 'call'}


class C04(Prop):
    id = 'C04'

    def make(self, i, seed, tier):
        r = rng(seed, 'C04', i)
        fams = ops.FAMILIES
        first = fams[i % len(fams)]
        group = [g for g in ops.GROUP.values() if first in g][0]
        steps = []
        nslots = r.choice([2, 2, 3, 4])

        def fam():
            k = r.random()
            return first if k < .75 else r.choice(group) if k < .92 else r.choice(fams)

        def add(do, k, **kw):
            steps.append(dict({'do': do, 'slot': k}, **kw))

        def call(k):
            add('call', k)

        def new(k, f=None, s=None):
            args[k] = (f or fam(), s if s is not None else r.randrange(10 ** 6))
            add('new', k, f=args[k][0], s=args[k][1])
        args = {}
        for k in range(nslots):
            new(k, first if k == 0 else None)
            if r.random() < .7:
                call(k)
        n = r.randint(6, 14) if tier == 'quick' else r.randint(10, 30)
        for _ in range(n):
            k = r.randrange(nslots)
            x = r.random()
            if x < .22:
                # what was handed out is overwritten, and the same is asked again
                call(k)
                add('scribble', k, s=0, last=True)
                call(k)
                if r.random() < .3:
                    call(r.randrange(nslots))
            elif x < .47:
                # the same objects with new contents
                if r.random() < .5:
                    call(k)
                add('rewrite', k, s=r.randrange(10 ** 6))
                call(k)
                if r.random() < .3:
                    add('rewrite', k, s=r.randrange(10 ** 6))
                    call(k)
            elif x < .62:
                # equal objects elsewhere; what one call got is overwritten
                j = r.randrange(nslots)
                if j != k:
                    new(j, *args[k])
                    call(k)
                    if r.random() < .5:
                        add('scribble', k, s=0, last=True)
                    call(j)
                    if r.random() < .5:
                        add('scribble', j, s=0, last=True)
                        call(k)
            elif x < .82:
                # other objects, perhaps where the old ones were
                if r.random() < .5:
                    steps.append({'do': 'drop'})
                call(k)
                if r.random() < .5:
                    steps.append({'do': 'drop'})
                new(k, args[k][0] if r.random() < .7 else None)
                call(k)
            elif x < .9:
                add('scribble', k, s=r.randrange(1000))
                call(k)
            else:
                call(k)
                call(k)
        return {'world': r.randrange(1 << 30), 'p_share': r.choice([0., 0., .4, .8]), 'steps': steps, 'anchor': r.random()}

    def name(self, job, n):
        return [x for x in job['steps'][:n + 1] if x.get('slot') == job['steps'][n]['slot'] and x['do'] == 'new'][-1]['f']

    def run(self, job, res):
        if job.get('order') == 'reverse':
            st = forkrun.run(reverse, job, timeout=30)
            got = {'out': [st[1].get(n) for n in range(len(job['steps']))], 'late': None, 'scribbles': 0} if st[0] == 'ok' else None
        else:
            st = forkrun.run(history, job, timeout=30)
            got = st[1]
        res.n += 1
        calls = [n for n, s in enumerate(job['steps']) if s['do'] == 'call']
        if st[0] != 'ok':
            # alone?
            for n in calls:
                if forkrun.run(fresh_call, job, n, timeout=30)[0] != 'ok':
                    res.stats['skipped: %s alone' % st[0]] += 1
                    return
            res.fail('crash', 'process died or hung in a history that is fine call by call: %s' % (st,), job)
            return
        res.sample = job['steps']
        for s in job['steps']:
            res.stats['step: ' + s['do']] += 1
        res.stats['results overwritten'] += got['scribbles']
        if 'exact' in job or job.get('order'):
            suspects = calls
        else:
            # the same calls on separate objects in the opposite order: what
            # agrees is right, unless both remember the same wrong thing
            back = forkrun.run(reverse, job, timeout=30)
            res.n += 1
            if back[0] != 'ok':
                suspects = calls
            else:
                suspects = [n for n in calls if canon.diff(back[1][n], got['out'][n])]
                anchor = calls[int(job['anchor'] * len(calls))]
                if anchor not in suspects:
                    suspects.append(anchor)
        for n in sorted(suspects):
            ref = forkrun.run(fresh_call, job, n, timeout=30)
            res.stats['calls repeated in a fresh process'] += 1
            if ref[0] != 'ok':
                res.stats['skipped: %s alone' % ref[0]] += 1
                continue
            d = canon.diff(ref[1], got['out'][n])
            if d:
                res.fail('memory', '%s at step %d: fresh vs here %s' % (self.name(job, n), n, d[:300]), self.exact(job), what=self.name(job, n))
                return
            if 'exact' not in job and not job.get('order') and back[0] == 'ok':
                d = canon.diff(ref[1], back[1][n])
                if d:
                    j = clone(job)
                    j['order'] = 'reverse'
                    res.fail('memory', '%s at step %d, calls in reverse: fresh vs here %s' % (self.name(job, n), n, d[:300]), j,
                             what=self.name(job, n))
                    return
        if got['late']:
            n, d = got['late']
            res.fail('late', 'result of %s (step %d) changed after it was returned: %s' % (self.name(job, n), n, d[:300]), self.exact(job),
                     what=self.name(job, n))
            return
        res.stats['calls compared'] += len(calls)
        if len(calls) > 1:
            res.keys.append(key_of(job['world'], job['steps']))

    def exact(self, job):
        j = clone(job)
        j['exact'] = True
        return j

    def shrink(self, job):
        return shrink_steps(job)
