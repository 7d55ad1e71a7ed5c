'''What every simulated property shares: seeds, results, minimisation.'''
import collections
import copy
import hashlib
import json
import random


def rng(*key):
    return random.Random('/'.join(str(k) for k in key))


def key_of(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()


class Result(object):
    '''Outcome of one simulated run (which may be several executions).'''
    def __init__(self):
        self.viol = None        # {'kind', 'msg', ...}
        self.replay = None      # job that shows it
        self.n = 0              # executions
        self.keys = []          # one per distinct non-trivial execution
        self.stats = collections.Counter()
        self.sample = None

    def fail(self, kind, msg, replay, **more):
        if self.viol is None:
            self.viol = dict(kind=kind, msg=msg, **more)
            self.replay = replay
        return self


class Prop(object):
    id = None
    warm = True
    runs = {'quick': 400, 'thorough': 20000}
    cap = {'quick': 100, 'thorough': 1800}      # seconds
    level = 'exploration'
    rule = ''
    real = 'blmath, numpy, scipy, simplejson'
    stub = 'lace, chumpy'

    def make(self, i, seed, tier):
        raise NotImplementedError

    def run(self, job, res):
        raise NotImplementedError

    def shrink(self, job):
        '''Simpler jobs to try, best first.'''
        return iter(())


def clone(job):
    return json.loads(json.dumps(job))


def drop_chunks(seq):
    '''Copies of seq with runs of items removed, large runs first.'''
    n = len(seq)
    size = n // 2 if n > 1 else n
    while size >= 1:
        for i in range(0, n, size):
            yield seq[:i] + seq[i + size:]
        size //= 2


def shrink_threads(job, min_threads=1):
    '''For jobs with threads of steps and a recorded schedule.'''
    th = job['threads']
    if len(th) > min_threads:
        for t in range(len(th)):
            j = clone(job)
            del j['threads'][t]
            if j.get('sched') and j['sched']['kind'] == 'segments':
                j['sched']['segments'] = [[a - (a > t), n] for a, n in j['sched']['segments'] if a != t]
            yield j
    for t in range(len(th)):
        if len(th[t]) > 1:
            for i in range(len(th[t])):
                j = clone(job)
                del j['threads'][t][i]
                yield j
    for t in range(len(th)):
        for i in range(len(th[t])):
            if th[t][i].get('fault'):
                j = clone(job)
                j['threads'][t][i].pop('fault')
                yield j
    sc = job.get('sched')
    if sc and sc['kind'] == 'segments':
        segs = sc['segments']
        if segs:
            j = clone(job)
            j['sched']['segments'] = []
            yield j
        for s in drop_chunks(segs):
            j = clone(job)
            out = []
            for a, n in s:
                if out and out[-1][0] == a:
                    out[-1][1] += n
                else:
                    out.append([a, n])
            j['sched']['segments'] = out
            yield j


def shrink_steps(job, key='steps'):
    seq = job[key]
    for s in drop_chunks(seq):
        if s:
            j = clone(job)
            j[key] = copy.deepcopy(s)
            yield j
    for i, st in enumerate(seq):
        if st.get('fault'):
            j = clone(job)
            j[key][i].pop('fault')
            yield j
