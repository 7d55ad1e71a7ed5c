'''C01, C02, C03, C13, C14: simulated caller threads running operations.

A run draws a pool of operations, surveys each (outcome alone, and the places
where its thread can be switched and its call cut short), and executes rounds:
a few threads of operations under one schedule with some faults.  Rounds share
a forked process in groups, each on arguments of its own.  Whatever a round
contradicts is decided by the outcome of the operation as the first thing a
fresh process does.
'''
import canon
import forkrun
import monitor
import ops
import program
import sched
from core import Prop, clone, drop_chunks, key_of, rng, shrink_threads


def related(r, first, p_same=.5, p_group=.3):
    k = r.random()
    if k < p_same:
        return first
    if k < p_same + p_group:
        return r.choice([g for g in ops.GROUP.values() if first in g][0])
    return r.choice(ops.FAMILIES)


def pick_point(r, n, places):
    '''An event of a thread to stop it at: places rather than events are
    drawn, so that loops do not hide the rest; often right after a write.'''
    k = r.random()
    if places and k < .8:
        hot = [x for x in places if x[0]]
        if k < .45 and hot:
            return r.choice(r.choice(hot)[1]) + 1
        return r.choice(r.choice(places)[1])
    return r.randint(1, max(1, n))


def sched_spec(r, lengths, places=None):
    '''lengths: rough number of events of each thread'''
    n = len(lengths)

    def point(t):
        return pick_point(r, lengths[t], places and places[t])
    k = r.random()
    a = r.randrange(n)
    if k < .4 or n < 2:
        return {'kind': 'preempt', 'points': [[a, point(a)]]}
    b = r.choice([t for t in range(n) if t != a])
    if k < .55:
        return {'kind': 'preempt', 'points': [[a, point(a)], [b, point(b)]] + ([[a, sched.BIG]] if r.random() < .6 else [])}
    if k < .65:
        # back and forth
        out, at = [], {a: 0, b: 0}
        for x in (a, b, a, b, a, b)[:r.randint(3, 6)]:
            p = point(x)
            if p > at[x]:
                out.append([x, p - at[x]])
                at[x] = p
        return {'kind': 'preempt', 'points': out}
    if k < .8:
        return {'kind': 'random', 'mean': r.choice([1, 2, 3])}
    return {'kind': 'random', 'mean': r.choice([5, 10, 20, 50, 100, 300])}


def outcome_name(rec):
    o = rec['out']
    if isinstance(o, tuple) and len(o) == 3 and o[0] == 'exc':
        return o[1]
    return 'value'


STACK = 14          # calls deep: what an operation needs, roughly


def choose_fault(r, ref, kinds):
    '''A fault that will fire: one of the points the call has.'''
    avail = []
    for k in kinds:
        n = {'intr': ref['ki'], 'memcall': ref['mc'], 'np': ref['np'], 'ss': ref['ss'], 'stack': STACK}[k]
        if n > 0:
            avail.append((k, n))
    if not avail:
        return None
    k, n = r.choice(avail)
    at = r.randint(1, n)
    places = {'intr': ref['klocs'], 'memcall': ref['mlocs']}.get(k)
    if places and r.random() < .6:
        at = r.choice(r.choice(places))
    if k == 'stack':
        at = min(at, r.randint(1, n))
    f = {'kind': k, 'at': at}
    if k in ('np', 'ss') and r.random() < .3:
        f['sustained'] = True
    return f


class Threads(Prop):
    base = {}
    kinds = ()
    p_fault = 0.
    n_rounds = {'quick': (3, 8), 'thorough': (6, 12)}     # processes, rounds in each

    # -- to say --
    def pool(self, r, first):
        raise NotImplementedError

    def threads(self, r, job, refs):
        '''Threads of steps for a round.'''
        raise NotImplementedError

    def judge(self, rd, out, ref):
        '''None or (kind, text, what).  ref(step) is the step's reference.'''
        return None

    def counts(self, rd, out):
        return len(out['trace']) > len(rd['threads'])

    isolated = False        # only what a round does in a process of its own counts

    # -- machinery --
    def make(self, i, seed, tier):
        r = rng(seed, self.id, i)
        first = ops.FAMILIES[i % len(ops.FAMILIES)]
        job = {'seed': r.randrange(1 << 30), 'world': r.randrange(1 << 30), 'p_share': self.share(r), 'first': first,
               'pool': [{'f': f, 's': r.randrange(10 ** 6)} for f in self.pool(r, first)], 'n_rounds': self.n_rounds[tier]}
        job.update(self.base)
        job.update(self.extra(r))
        return job

    def share(self, r):
        return .4

    def extra(self, r):
        return {}

    def spec(self, r, th, lengths, places):
        return sched_spec(r, lengths, places)

    def fault(self, r, step, ref):
        if r.random() < self.p_fault:
            f = choose_fault(r, ref, self.kinds)
            if f:
                step['fault'] = f

    def run(self, job, res):
        if 'rounds' in job:
            self.fresh = True
            self.process(job, job['rounds'], res)
            return
        refs = program.references(job, job['pool'])
        good = [(s, x[1]) for s, x in zip(job['pool'], refs) if x[0] == 'ok']
        if len(good) < len(job['pool']):
            # does not run alone either: not these properties' business
            res.stats['skipped: cannot run alone'] += 1
        if not good or good[0][0] != job['pool'][0]:
            return
        r = rng(job['seed'], 'rounds')
        self.fresh = False
        self.refs = {(s['f'], s['s']): x for s, x in good}
        if r.random() < .15:
            # the references themselves, against a fresh process
            s, x = r.choice(good)
            st = program.solo(job, s)
            if st[0] == 'ok':
                self.refs[s['f'], s['s']] = st[1]
                res.stats['references taken in a fresh process'] += 1
        base = clone(job)
        for k in ('pool', 'n_rounds', 'first'):
            base.pop(k)
        groups, per = job['n_rounds']
        seen = set()
        for g in range(groups):
            rounds = []
            for k in range(per):
                th = self.threads(r, job, good)
                rd = {'threads': th, 'seed': '%s/%d/%d' % (job['seed'], g, k), 'world': base['world']}
                lengths, places = [], []
                for steps in th:
                    n, pl = 0, []
                    for s in steps:
                        x = self.refs[s['f'], s['s']]
                        pl += [[h, [n + w for w in v]] for h, v in x['locs']]
                        n += x['steps']
                    lengths.append(max(1, n))
                    places.append(pl)
                rd['sched'] = self.spec(r, th, lengths, places) if len(th) > 1 else None
                rd['budget'] = 20 * sum(lengths) + 200000
                sig = repr((th, rd['sched']))
                if sig in seen:
                    continue
                seen.add(sig)
                rounds.append(rd)
            if not rounds:
                continue
            res.sample = {'threads': rounds[0]['threads'], 'schedule': rounds[0]['sched']}
            self.process(base, rounds, res)
            if res.viol:
                return

    def execute(self, base, rounds, timeout=60):
        one = clone(base)
        one['rounds'] = rounds
        st = forkrun.run(program.execute_rounds, one, timeout=timeout)
        if st[0] == 'timeout':
            st = forkrun.run(program.execute_rounds, one, timeout=3 * timeout)
        return st

    def process(self, base, rounds, res):
        '''A group of rounds in one process.'''
        st = self.execute(base, rounds)
        res.n += len(rounds)
        if st[0] != 'ok':
            if len(rounds) == 1 or self.fresh:
                self.died(st, base, rounds, res)
                return
            res.stats['groups repeated round by round'] += 1
            for rd in rounds:
                st1 = self.execute(base, [rd])
                if st1[0] != 'ok':
                    self.died(st1, base, [rd], res)
                else:
                    self.check(base, [rd], st1[1], res)
                if res.viol:
                    return
            if not any(has_np(rd) for rd in rounds):
                self.died(st, base, rounds, res)
            return
        self.check(base, rounds, st[1], res)

    def died(self, st, base, rounds, res):
        job = clone(base)
        job['rounds'] = rounds
        if st[0] == 'crash' and any(has_np(rd) for rd in rounds):
            # numpy and OpenCV themselves do not survive every failed
            # allocation; blmath's own native code is C12's
            res.stats['third-party crash on failed array allocation'] += 1
        elif st[0] == 'crash':
            res.fail('crash', 'process died: %s' % st[1], job)
        elif st[0] == 'timeout':
            res.fail('hang', 'run did not finish', job)

    def reference(self, base, rd):
        one = dict(base)
        one.update(rd)

        def get(step, fresh=self.fresh):
            key = (step['f'], step['s'])
            if not fresh and rd['world'] == base['world'] and key in self.refs:
                return self.refs[key]
            st = program.solo(one, step)
            return st[1] if st[0] == 'ok' else None
        return get

    def check(self, base, rounds, outs, res):
        for k, (rd, out) in enumerate(zip(rounds, outs)):
            res.stats['scheduler_steps'] += out['steps']
            res.stats['context_switches'] += out['switches']
            if rd['sched']:
                res.stats['schedule: ' + rd['sched']['kind']] += 1
            fired = False
            for t, row in enumerate(out['threads']):
                for j, rec in enumerate(row):
                    if rec is None:
                        continue
                    res.stats['outcome: ' + ('value' if outcome_name(rec) == 'value' else 'exception')] += 1
                    if rec['fired']:
                        fired = True
                        res.stats['fault: ' + rec['fired']] += 1
                    elif rd['threads'][t][j].get('fault'):
                        res.stats['fault not reached'] += 1
            if fired or self.counts(rd, out):
                res.keys.append(key_of(rd['threads'], rd['world'], out['trace']))
            v = self.verdict(base, rd, out)
            if not v:
                continue
            # the whole history up to here, or this round by itself
            hist = [self.recorded(x, o) for x, o in zip(rounds[:k + 1], outs)]
            job = clone(base)
            job['rounds'] = hist
            if k:
                st = self.execute(base, hist[-1:])
                res.n += 1
                w = self.verdict(base, hist[-1], st[1][-1]) if st[0] == 'ok' else None
                if w:
                    v = w
                    job['rounds'] = hist[-1:]
                elif self.isolated:
                    res.stats['only after earlier rounds (C14\'s business)'] += 1
                    continue
            res.fail(v[0], v[1], job, what=v[2])
            return

    def recorded(self, rd, out):
        rd = clone(rd)
        rd['sched'] = {'kind': 'segments', 'segments': out['trace']} if len(rd['threads']) > 1 else None
        return rd

    def verdict(self, base, rd, out):
        if out['viol']:
            v = out['viol']
            s = v.get('step')
            return v['kind'], v['msg'], v.get('what') or (rd['threads'][s[0]][s[1]]['f'] if s else None)
        ref = self.reference(base, rd)
        v = self.judge(rd, out, ref)
        if v and not self.fresh:
            v = self.judge(rd, out, lambda step: ref(step, True))
        return v

    def shrink(self, job):
        rounds = job.get('rounds') or []
        if len(rounds) > 1:
            for c in drop_chunks(rounds[:-1]):
                j = clone(job)
                j['rounds'] = clone(c) + rounds[-1:]
                yield j
        for k in range(len(rounds) - 1, -1, -1):
            for rd in shrink_threads(rounds[k]):
                j = clone(job)
                j['rounds'][k] = rd
                yield j


def has_np(rd):
    return any((s.get('fault') or {}).get('kind') == 'np' for t in rd['threads'] for s in t)


class C01(Threads):
    id = 'C01'
    base = {'gran': 'instr', 'oracles': []}
    n_rounds = {'quick': (3, 10), 'thorough': (6, 14)}

    def share(self, r):
        return r.choice([0, .3, .6, .9])

    def pool(self, r, first):
        return [first, first, first] + [related(r, first, .3, .4) for _ in range(r.choice([1, 2, 2, 3]))]

    def threads(self, r, job, good):
        nt = r.choice([2, 2, 2, 2, 3, 4])
        steps = [s for s, _ in good]
        mine = [s for s in steps if s['f'] == job['first']]
        out = [[dict(r.choice(mine))]]
        for _ in range(nt - 1):
            out.append([dict(r.choice(mine if r.random() < .45 else steps))])
        if r.random() < .15:
            out = [[dict(out[0][0])] for _ in range(nt)]
        for t in out:
            if r.random() < .2:
                t.append(dict(r.choice(steps)))
        return out

    def judge(self, rd, out, ref):
        for t, steps in enumerate(rd['threads']):
            for j, step in enumerate(steps):
                x = ref(step)
                if x is None:
                    continue
                d = canon.diff(x['out'], out['threads'][t][j]['out'])
                if d:
                    return 'differs', '%s on thread %d: alone vs interleaved %s' % (step['f'], t, d[:300]), step['f']


class C02(Threads):
    id = 'C02'
    base = {'oracles': ['settings']}
    kinds = ['intr', 'intr', 'memcall', 'np']
    p_fault = .55

    def extra(self, r):
        return {'gran': r.choice(['instr', 'instr', 'break']), 'ambient': r.randrange(1 << 30)}

    def pool(self, r, first):
        return [first, first, first] + [related(r, first, .3, .3) for _ in range(2)]

    def threads(self, r, job, good):
        refs = dict(((s['f'], s['s']), x) for s, x in good)
        mine = [s for s, _ in good if s['f'] == job['first']]
        out = []
        for t in range(r.choice([1, 2, 2, 3])):
            out.append([dict(r.choice(mine if t == 0 or r.random() < .5 else [s for s, _ in good]))])
            if r.random() < .3:
                out[-1].append(dict(r.choice(good)[0]))
            for s in out[-1]:
                self.fault(r, s, refs[s['f'], s['s']])
        return out


class C03(Threads):
    id = 'C03'
    base = {'oracles': ['args']}
    kinds = ['intr', 'memcall', 'np']
    p_fault = .5

    def extra(self, r):
        return {'gran': r.choice(['instr', 'break', 'break'])}

    def pool(self, r, first):
        return [first] * 9 + [related(r, first, .5, .5)]

    def threads(self, r, job, good):
        refs = dict(((s['f'], s['s']), x) for s, x in good)
        mine = [s for s, _ in good if s['f'] == job['first']]
        out = [[dict(r.choice(mine))]]
        if r.random() < .2:
            out.append([dict(r.choice(good)[0])])
        for t in out:
            self.fault(r, t[0], refs[t[0]['f'], t[0]['s']])
        return out

    def counts(self, rd, out):
        return True


class C13(Threads):
    id = 'C13'
    base = {'oracles': [], 'gran': 'break'}
    kinds = ['intr', 'memcall', 'memcall', 'np', 'ss', 'stack']
    p_fault = 1.
    isolated = True
    n_rounds = {'quick': (2, 30), 'thorough': (6, 40)}

    def share(self, r):
        return .2

    def pool(self, r, first):
        return [first] * 8

    def threads(self, r, job, good):
        s, ref = r.choice(good)
        s = dict(s)
        self.fault(r, s, ref)
        return [[s]]

    def judge(self, rd, out, ref):
        for t, steps in enumerate(rd['threads']):
            for j, step in enumerate(steps):
                x = ref(step)
                rec = out['threads'][t][j]
                v = x and swallowed(rec, x)
                if v:
                    return 'swallowed', '%s with %s at %s %s' % (step['f'], step.get('fault'), rec['where'], v), step['f']


def swallowed(rec, ref):
    '''None, or how a faulted call broke "that error or the right answer".'''
    d = canon.diff(ref['out'], rec['out'])
    if d is None:
        return None
    if not rec['fired']:
        return 'no fault fired, yet the outcome differs: %s' % d[:200]
    if rec['fired'] == 'stack':
        if rec.get('stack'):
            return None
        if 'chain' in rec and not program.in_blmath(rec['chain']):
            return None     # third-party code reported it its own way
        return 'ended as %s instead of RecursionError or the right answer' % canon.short(rec['out'])
    if rec['fired'] == 'intr':
        if rec.get('intr'):
            return None
        return 'ended as %s instead of the interrupt or the right answer' % canon.short(rec['out'])
    if rec.get('mem'):
        return None
    if rec['fired'] == 'np' and rec['out'][1] in ('SystemError', 'error'):
        return None         # compiled third-party code garbled it (cv2)
    if 'chain' in rec and not program.in_blmath(rec['chain']):
        return None         # third-party code reported it its own way
    return 'ended as %s instead of MemoryError or the right answer' % canon.short(rec['out'])


class C14(Threads):
    id = 'C14'
    base = {'oracles': [], 'gran': 'break'}
    kinds = ['intr', 'memcall', 'memcall', 'np', 'ss', 'stack']
    p_fault = 1.
    n_rounds = {'quick': (5, 4), 'thorough': (10, 5)}

    def share(self, r):
        return r.choice([0., .5, .8])

    def pool(self, r, first):
        return [first, first, first] + [related(r, first, .2, .4) for _ in range(2)]

    def threads(self, r, job, good):
        refs = dict(((s['f'], s['s']), x) for s, x in good)
        mine = [s for s, _ in good if s['f'] == job['first']]
        first = dict(r.choice(mine))
        cut = [dict(first)]
        if r.random() < .3:
            cut.append(dict(r.choice(good)[0]))
        for s in cut:
            self.fault(r, s, refs[s['f'], s['s']])
        later = [dict(first)] if r.random() < .6 else []
        for _ in range(r.choice([1, 2, 3])):
            later.append(dict(r.choice(mine if r.random() < .5 else [s for s, _ in good])))
        out = [cut + later]
        if r.random() < .3:
            out.append([dict(r.choice(good)[0]) for _ in range(r.choice([1, 2]))])
        return out

    def judge(self, rd, out, ref):
        for t, steps in enumerate(rd['threads']):
            for j, step in enumerate(steps):
                if step.get('fault'):
                    continue
                x = ref(step)
                d = x and canon.diff(x['out'], out['threads'][t][j]['out'])
                if d:
                    return 'residue', '%s after %s: fresh vs after %s' % (
                        step['f'], [(s['f'], s['fault']) for s in rd['threads'][0] if s.get('fault')], d[:300]), step['f']
