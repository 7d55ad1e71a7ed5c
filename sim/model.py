'''Histories on one object against a small reference model, cut short at will.

A job is a list of steps.  The history runs once undisturbed, which counts the
points at which each step can be cut short; then again and again from scratch,
each time with one or two steps cut short at seeded points, all inside one
fork.  `History` subclasses do a step, and after every step compare everything
a caller can see with the model.
'''
import forkrun
import monitor
import program
import simnative
from core import Prop, Result, clone, key_of, rng, shrink_steps


class Broken(Exception):
    '''The object and the model disagree.'''
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


class Did(object):
    '''What became of one attempted operation.'''
    def __init__(self, rec, raw):
        self.rec = rec
        self.ok = 'mem' not in rec
        self.value = raw if self.ok else None
        self.err = None if self.ok else raw
        self.interrupted = (not self.ok) and rec['intr']
        self.memory = (not self.ok) and (rec['mem'] or rec['stack'])
        self.fired = rec['fired']

    @property
    def refused(self):
        return not self.ok and not self.interrupted and not self.memory

    def text(self):
        return 'returned' if self.ok else repr(self.rec['out'])


class History(object):
    kinds = ('intr', 'memcall', 'np', 'stack')

    def __init__(self, job):
        self.job = job
        self.fault = None
        self.recs = []
        self.probes = {}

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def attempt(self, fn):
        rec, raw = program.run_step(Thunk(fn), self.fault)
        self.fault = None
        self.recs.append(rec)
        return Did(rec, raw)

    def start(self):
        pass

    def step(self, st):
        raise NotImplementedError

    def check(self):
        pass

    def finish(self):
        pass


def play(cls, job, faults):
    '''One execution; returns (violation, counts per step, fired, probes).'''
    h = cls(job)
    counts, fired = [], []
    viol = None
    n = -1
    try:
        h.start()
        h.check()
        for n, st in enumerate(job['steps']):
            h.fault = faults.get(n)
            h.recs = []
            h.step(st)
            first = h.recs[0] if h.recs else None
            counts.append({'intr': first['ki'], 'memcall': first['mc'], 'np': first['np'], 'ss': first['ss'], 'stack': 9} if first else {})
            if first and first['fired']:
                fired.append((n, first['fired'], first['where']))
            h.fault = None
            h.check()
        h.finish()
    except Broken as b:
        what = job['steps'][n]['do'] if n >= 0 else 'start'
        viol = {'kind': b.kind, 'msg': 'step %d (%s)%s: %s' % (n, what, ', cut short by %s' % faults[n] if n in faults else '', b)}
    return viol, counts, fired, h.probes


def variants(job, counts, r, limit, kinds):
    points = []
    for n, c in enumerate(counts):
        for k in kinds:
            for at in range(1, c.get(k, 0) + 1):
                points.append((n, {'kind': k, 'at': at}))
    out = []
    if not points:
        return out, 0
    if len(points) <= limit:
        singles = points
    else:
        # spread over steps and kinds first, then within
        by = {}
        for p in points:
            by.setdefault((p[0], p[1]['kind']), []).append(p)
        groups = list(by.values())
        singles = []
        while len(singles) < limit:
            g = r.choice(groups)
            singles.append(r.choice(g))
    for n, f in singles:
        v = {n: f}
        if r.random() < .25:
            m, g = r.choice(points)
            if m != n:
                v[m] = g
        if f['kind'] == 'np' and r.random() < .2:
            f = dict(f, sustained=True)
            v[n] = f
        out.append(v)
    return out, len(points)


def batch(cls, job, limit):
    '''In a fork.'''
    monitor.set_instr(False)
    if job.get('faults') is not None:
        f = {int(k): v for k, v in job['faults'].items()}
        viol, counts, fired, probes = play(cls, job, f)
        return {'viol': viol, 'n': 1, 'fired': fired, 'probes': probes, 'points': 0, 'faults': job['faults'], 'keys': []}
    viol, counts, fired, probes = play(cls, job, {})
    out = {'viol': viol, 'n': 1, 'fired': [], 'probes': probes, 'points': 0, 'faults': {}, 'keys': [{}]}
    if viol:
        return out
    vs, out['points'] = variants(job, counts, rng(job['seed'], 'faults'), limit, cls.kinds)
    for v in vs:
        viol, _, fired, pr = play(cls, job, v)
        out['n'] += 1
        out['fired'] += [(k, w) for _, k, w in fired]
        for k, c in pr.items():
            out['probes'][k] = out['probes'].get(k, 0) + c
        if fired:
            out['keys'].append(v)
        if viol:
            out['viol'] = viol
            out['faults'] = {str(k): f for k, f in v.items()}
            break
    return out


class ModelProp(Prop):
    history = None
    limit = {'quick': 40, 'thorough': 200}
    crash_ok = True

    def run(self, job, res):
        limit = self.limit[job.get('tier', 'quick')]
        st = forkrun.run(batch, self.history, job, limit, timeout=120)
        if st[0] == 'timeout':
            st = forkrun.run(batch, self.history, job, limit, timeout=360)
        if st[0] != 'ok':
            self.not_ok(st, job, res, limit)
            return
        o = st[1]
        self.take(o, job, res)
        if o['viol']:
            one = clone(job)
            one['faults'] = o['faults']
            again = forkrun.run(batch, self.history, one, limit, timeout=60)
            rep = one if again[0] == 'ok' and again[1]['viol'] and again[1]['viol']['kind'] == o['viol']['kind'] else job
            res.fail(o['viol']['kind'], o['viol']['msg'], rep)

    def not_ok(self, st, job, res, limit):
        '''The process died: find the variant by running each in its own fork.'''
        def counts_of():
            monitor.set_instr(False)
            return play(self.history, job, {})
        if job.get('faults') is not None:
            if st[0] == 'crash' and self.tolerated(job['faults']):
                res.stats['third-party crash on failed array allocation'] += 1
                return
            res.fail(st[0], 'process: %s' % (st,), job)
            return
        base = forkrun.run(counts_of, timeout=120)
        if base[0] != 'ok':
            j = clone(job)
            j['faults'] = {}
            res.fail(base[0], 'process: %s with no fault' % (base,), j)
            return
        vs, _ = variants(job, base[1][1], rng(job['seed'], 'faults'), limit, self.history.kinds)
        for v in vs:
            j = clone(job)
            j['faults'] = {str(k): f for k, f in v.items()}
            one = forkrun.run(batch, self.history, j, limit, timeout=60)
            res.n += 1
            if one[0] == 'ok':
                self.take(one[1], j, res)
                if one[1]['viol']:
                    res.fail(one[1]['viol']['kind'], one[1]['viol']['msg'], j)
                    return
                continue
            if one[0] == 'crash' and self.tolerated(j['faults']):
                res.stats['third-party crash on failed array allocation'] += 1
                continue
            res.fail(one[0], 'process: %s' % (one,), j)
            return

    def tolerated(self, faults):
        return any(f['kind'] == 'np' for f in faults.values())

    def take(self, o, job, res):
        res.n += o['n']
        for k, w in [(x[-2], x[-1]) for x in o['fired']]:
            res.stats['fault: ' + k] += 1
        res.stats['fault points found'] += o['points']
        for s in job['steps']:
            res.stats['step: ' + s['do']] += o['n']
        for k, c in o['probes'].items():
            res.stats['probe: ' + k] += c
        for v in o['keys']:
            res.keys.append(key_of(job['steps'], sorted(v.items(), key=str)))
        if res.sample is None:
            res.sample = {'steps': job['steps'], 'cut_short': o['keys'][-1] if o['keys'] else None}

    def shrink(self, job):
        faults = job.get('faults')
        if faults:
            for k in list(faults):
                j = clone(job)
                del j['faults'][k]
                yield j
        n = len(job['steps'])
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                j = clone(job)
                gone = set(range(i, min(n, i + size)))
                if len(gone) == n:
                    continue
                j['steps'] = [s for k, s in enumerate(job['steps']) if k not in gone]
                if faults is not None:
                    if any(int(k) in gone for k in faults):
                        continue
                    j['faults'] = {str(int(k) - sum(g < int(k) for g in gone)): f for k, f in faults.items()}
                yield j
            size //= 2
