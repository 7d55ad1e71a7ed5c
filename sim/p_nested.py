'''C17, C18: calls made in the middle of calls.

C17: at seeded points inside a call, the same thread makes other calls, as a
signal handler, a finaliser, a warning hook or an argument's own method would.
C18: while threads are stopped in the middle of calls, another thread forks the
process and the child goes on to make calls of its own.
'''
import canon
import sched
from core import clone, rng
from p_threads import Threads, pick_point, related, sched_spec


class C17(Threads):
    id = 'C17'
    base = {'oracles': []}
    n_rounds = {'quick': (3, 12), 'thorough': (6, 20)}

    def extra(self, r):
        return {'gran': r.choice(['instr', 'break'])}

    def share(self, r):
        return r.choice([0., .5, .8])

    def pool(self, r, first):
        return [first, first, first, first] + [related(r, first, .3, .4) for _ in range(2)]

    def threads(self, r, job, good):
        refs = dict(((s['f'], s['s']), x) for s, x in good)
        steps = [s for s, _ in good]
        mine = [s for s in steps if s['f'] == job['first']]
        out = [[dict(r.choice(mine))]]
        if r.random() < .2:
            out.append([dict(r.choice(mine if r.random() < .5 else steps))])
        if r.random() < .3:
            out[0].append(dict(r.choice(mine if r.random() < .5 else steps)))
        for t in out:
            for s in t:
                if s is out[0][0] or r.random() < .5:
                    self.nest(r, job, s, refs[s['f'], s['s']], r.choice(mine if r.random() < .6 else steps))
        return out

    def nest(self, r, job, step, ref, inner):
        if not ref['ki'] or step['f'] == inner['f'] == 'console.input':
            return          # (they would share the keyboard)
        ats = set()
        for _ in range(r.choice([1, 1, 2, 4])):
            if job['gran'] == 'instr':
                at = pick_point(r, ref['steps'], ref['locs'])
            else:
                at = r.randint(1, ref['ki'])
                if ref['klocs'] and r.random() < .7:
                    at = r.choice(r.choice(ref['klocs']))
            ats.add(at)
        step['fault'] = {'kind': 'nest', 'ats': sorted(ats), 'f': inner['f'], 's': inner['s']}
        if job['gran'] == 'instr':
            step['fault']['instr'] = True
        elif r.random() < .15:
            step['fault']['then'] = max(ats)

    def judge(self, rd, out, ref):
        for t, steps in enumerate(rd['threads']):
            for j, step in enumerate(steps):
                rec = out['threads'][t][j]
                x = ref(step)
                f = step.get('fault') or {}
                if x is not None and not (f.get('then') and rec.get('intr')):
                    d = canon.diff(x['out'], rec['out'])
                    if d:
                        return 'outer', '%s with %s called in its middle (last at %s): alone vs so %s' % (
                            step['f'], f.get('f'), rec.get('where'), d[:300]), step['f']
                if not rec.get('nested'):
                    continue
                y = ref({'f': f['f'], 's': f['s']})
                for o in rec['nested']:
                    d = y and canon.diff(y['out'], o)
                    if d:
                        return 'inner', '%s called in the middle of %s (last at %s): alone vs so %s' % (
                            f['f'], step['f'], rec.get('where'), d[:300]), f['f']

    def counts(self, rd, out):
        return False


class C18(Threads):
    id = 'C18'
    base = {'oracles': [], 'gran': 'instr'}
    n_rounds = {'quick': (3, 6), 'thorough': (6, 8)}

    def share(self, r):
        return r.choice([0., .4, .8])

    def pool(self, r, first):
        return [first, first, first] + [related(r, first, .3, .4) for _ in range(2)]

    def threads(self, r, job, good):
        steps = [s for s, _ in good]
        mine = [s for s in steps if s['f'] == job['first']]
        out = [[dict(r.choice(mine))]]
        if r.random() < .3:
            out.append([dict(r.choice(steps))])
        fork = dict(r.choice(mine if r.random() < .6 else steps))
        fork['fork'] = True
        fork['also'] = [dict(r.choice(mine if r.random() < .6 else steps)) for _ in range(r.choice([0, 1, 1]))]
        out.append([fork])
        if r.random() < .2:
            out[-1].append(dict(r.choice(mine)))
        return out

    def spec(self, r, th, lengths, places):
        n = len(th) - 1
        pts = [[t, pick_point(r, lengths[t], places[t])] for t in range(n)]
        r.shuffle(pts)
        if r.random() < .85:
            # then the forking thread, to its end
            return {'kind': 'preempt', 'points': pts + [[n, sched.BIG]]}
        return sched_spec(r, lengths, places)

    def judge(self, rd, out, ref):
        for t, steps in enumerate(rd['threads']):
            for j, step in enumerate(steps):
                rec = out['threads'][t][j]
                for s, o in zip([step] + step.get('also', []), [rec['out']] + rec.get('also', [])):
                    x = ref({'f': s['f'], 's': s['s']})
                    d = x and canon.diff(x['out'], o)
                    if d:
                        return 'child' if step.get('fork') else 'parent', '%s %s: alone vs so %s' % (
                            s['f'], 'in a forked child' if step.get('fork') else 'while another thread forked', d[:300]), s['f']

    def shrink(self, job):
        for j in Threads.shrink(self, job):
            yield j
        for k, rd in enumerate(job.get('rounds') or []):
            for t, steps in enumerate(rd['threads']):
                for i, s in enumerate(steps):
                    for a in range(len(s.get('also') or [])):
                        j = clone(job)
                        del j['rounds'][k]['threads'][t][i]['also'][a]
                        yield j
