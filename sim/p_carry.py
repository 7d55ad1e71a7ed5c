'''C20: copies and restored objects carry on.

Histories of C05 to C08, in whose course the objects are copied or pickled, in
the same process or in another one in which only the pickled bytes survive.
The history goes on with the copy or with the original against the same
reference model; the other one must stay as it was.  And what any call
returns or raises reads the same after a trip through another process.
'''
import copy
import pickle

import canon
import forkrun
import model
import monitor
import ops
import p_process
import program
from core import Prop, clone, key_of, rng, shrink_steps
from model import Broken

HOWS = ['copy', 'deepcopy'] + ['pickle%d' % p for p in range(6)]


def carried(how, objs):
    if how == 'copy':
        return [copy.copy(o) for o in objs]
    if how == 'deepcopy':
        return copy.deepcopy(objs)
    return pickle.loads(pickle.dumps(objs, int(how[6:])))


# Per kind of history: the names of its model's fields; its objects; putting
# others in their place.

def _both(h):
    return [h.both[0][0], h.both[1][0]]


def _set_both(h, objs):
    h.both = [[o, m] for o, (_, m) in zip(objs, h.both)]
    h.choose(h.who)


def kinds():
    import p_polyline
    import p_transform
    import p_value

    def set_objs(h, o):
        h.objs = list(o)

    def set_manager(h, o):
        h.m, h.decoy = o
    return {
        'polyline': (p_polyline.PolylineHistory, p_polyline.C05, ('objs', 'model'), lambda h: list(h.objs), set_objs),
        'composite': (p_transform.CompositeHistory, p_transform.C06, ('both',), _both, _set_both),
        'manager': (p_transform.ManagerHistory, p_transform.C07, ('model', 'tags', 'held'), lambda h: [h.m, h.decoy], set_manager),
        'value': (p_value.ValueHistory, p_value.C08, ('objs', 'model'), lambda h: list(h.objs), set_objs),
    }


def twin(h, kind, objs):
    '''Another history in the same state, whose objects are those given.'''
    cls, _, fields, _, put = kinds()[kind]
    t = cls.__new__(cls)
    t.__dict__.update(h.__dict__)
    for f in fields:
        if f != 'objs':
            v = getattr(h, f)
            if f == 'both':
                v = [[None, list(m)] for _, m in v]
            elif f in ('model',):
                v = [list(x) if isinstance(x, list) else x for x in v]
                v = [[None if y is None else copy.deepcopy(y) for y in x] if isinstance(x, list) else x for x in v]
            elif f == 'tags':
                v = dict(v)
            setattr(t, f, v)
    t.recs, t.probes, t.fault = [], h.probes, None
    if kind == 'composite':
        t.out, t.own = [], []
    if kind == 'manager':
        t.own = []
    put(t, objs)
    return t


def frozen(h, kind):
    '''The history as plain bytes, with its objects.'''
    d = dict(h.__dict__)
    for k in ('job', 'P', 'probes', 'recs', 'fault', 'own', 'out', 'keep', 't', 'model' if kind == 'composite' else 't'):
        d.pop(k, None)
    return d


def thawed(job, kind, d):
    cls = kinds()[kind][0]
    h = cls(job)
    if kind == 'polyline':
        from blmath.geometry import Polyline
        h.P = Polyline
    h.own, h.out, h.keep = [], [], []
    h.__dict__.update(d)
    if kind == 'composite':
        h.choose(h.who)
    if kind == 'value':
        # a value's state are two plain things
        h.model = [tuple(m) for m in h.model]
    return h


def stretch(job, n, blob, faults):
    '''From step n to the end or to where the process is left; in a fork.
    Returns (violation, counts, fired, probes, next step, blob).'''
    monitor.set_instr(False)
    kind = job['of']
    cls, _, _, get, put = kinds()[kind]
    counts, fired, viol = [], [], None
    lefts = []
    h = None
    at = n - 1
    try:
        if blob is None:
            h = cls(job)
            h.start()
        else:
            try:
                monitor.paused = True
                d = pickle.loads(blob)
            except Exception as e:
                raise Broken('refused', 'what was pickled cannot be restored in another process: %s: %s' % (type(e).__name__, e))
            finally:
                monitor.paused = False
            h = thawed(job, kind, d)
        h.check()
        for at in range(n, len(job['steps'])):
            st = job['steps'][at]
            h.fault = faults.get(at)
            h.recs = []
            if st['do'] == 'carry' and st['how'] == 'restart':
                h.fault = None
                for x in lefts:
                    x.check()
                    x.finish()
                d = frozen(h, kind)
                try:
                    data = pickle.dumps(d, st['proto'])
                except Exception as e:
                    raise Broken('refused', 'cannot be pickled: %s: %s' % (type(e).__name__, e))
                # making bytes of it does not change it
                h.check()
                return None, counts + [{}], fired, h.probes, at + 1, data
            if st['do'] == 'carry':
                objs = get(h)
                did = h.attempt(lambda: carried(st['how'], objs))
                if did.ok:
                    t = twin(h, kind, did.value)
                    h.probe('carried on after ' + st['how'])
                    if st['how'] == 'copy':
                        # the two share what they are made of, as copies do: one goes on
                        if not st['stay']:
                            h = t
                    else:
                        lefts.append(h if not st['stay'] else t)
                        h = h if st['stay'] else t
                elif did.refused and not did.fired:
                    raise Broken('refused', '%s: %s' % (st['how'], did.text()))
                recs = [did.rec]
            else:
                h.step(st)
                recs = h.recs
            first = recs[0] if recs else None
            counts.append({'intr': first['ki'], 'memcall': first['mc'], 'np': first['np']} if first else {})
            if first and first['fired']:
                fired.append((at, first['fired'], first['where']))
            h.fault = None
            h.check()
        h.finish()
        for x in lefts:
            try:
                x.check()
                x.finish()
            except Broken as b:
                raise Broken('left', 'the one left behind: %s' % b)
    except Broken as b:
        what = job['steps'][at]['do'] if 0 <= at < len(job['steps']) else 'start'
        viol = {'kind': b.kind, 'msg': '%s, step %d (%s)%s: %s' % (kind, at, what, ', cut short by %s' % faults[at] if at in faults else '', b)}
    return viol, counts, fired, h.probes if h else {}, None, None


def first_half(step, world, proto):
    '''A call; what came of it as seen here, and as bytes.'''
    monitor.set_instr(False)
    call = ops.prepare(step['f'], step['s'], ops.World(world, 0.))
    rec, raw = program.run_step(call)
    if isinstance(raw, BaseException):
        raw.__context__ = raw.__cause__ = None
    try:
        return rec['out'], pickle.dumps(raw, proto), None
    except Exception as e:
        return rec['out'], None, '%s: %s' % (type(e).__name__, e)


def second_half(data):
    monitor.set_instr(False)
    monitor.paused = True
    try:
        raw = pickle.loads(data)
    except Exception as e:
        return None, '%s: %s' % (type(e).__name__, e)
    finally:
        monitor.paused = False
    return canon.canon(raw), None


def far(seed, fn, *args):
    '''In a separately started interpreter, with hash seed `seed`.'''
    st = p_process.server(seed).ask({'_call': ('p_carry', fn, args), 'timeout': 120})
    if st[0] == 'harness':
        raise forkrun.HarnessError(st[1])
    return st

class C20(Prop):
    id = 'C20'
    limit = {'quick': 6, 'thorough': 40}

    def make(self, i, seed, tier):
        r = rng(seed, 'C20', i)
        hashes = [rng(seed, 'hash', k).randrange(1, 2 ** 31) for k in range(2)]
        if i % 3 == 2:
            f = ops.FAMILIES[(i // 3) % len(ops.FAMILIES)]
            return {'kind': 'result', 'steps': [{'f': f, 's': r.randrange(10 ** 6), 'proto': r.randrange(6)} for _ in range(8)],
                    'world': r.randrange(1 << 30), 'hash': r.choice(hashes), 'seed': 0, 'tier': tier}
        of = r.choice(['polyline', 'composite', 'manager', 'manager', 'value'])
        base = kinds()[of][1]().make(r.randrange(10 ** 6), seed, tier)
        steps = base['steps']
        if of == 'manager' and r.random() < .6:
            # something is likely to be held
            steps = [s for s in steps if s['do'] != 'read'][:8] + [s for s in steps if s['do'] == 'read']
        for _ in range(r.choice([1, 1, 2, 3])):
            how = r.choice(HOWS + ['restart'] * 5)
            st = {'do': 'carry', 'how': how, 'stay': r.random() < .35, 'proto': r.randrange(6), 'hash': r.choice(hashes + [None, None])}
            steps.insert(r.randint(1, len(steps)), st)
        return {'kind': 'history', 'of': of, 'seed': base['seed'], 'tier': tier, 'steps': steps}

    def play(self, job, faults, res):
        n, blob, where = 0, None, None
        counts, fired = [], []
        while True:
            args = (job, n, blob, faults)
            st = far(where, 'stretch', *args) if where else forkrun.run(stretch, *args, timeout=120)
            if st[0] != 'ok':
                return st, counts, fired
            viol, c, f, probes, n, blob = st[1]
            counts += c
            fired += f
            for k, v in probes.items():
                res.stats['probe: ' + k] += v
            if viol or n is None:
                return ('ok', viol), counts, fired
            res.stats['restarts in another process'] += 1
            where = job['steps'][n - 1]['hash']
            if where:
                res.stats['restarts under another hash seed'] += 1

    def history(self, job, res):
        given = job.get('faults')
        first = {int(k): v for k, v in given.items()} if given else {}
        runs = [first]
        while runs:
            faults = runs.pop(0)
            st, counts, fired = self.play(job, faults, res)
            res.n += 1
            for _, k, _w in fired:
                res.stats['fault: ' + k] += 1
            res.keys.append(key_of(job['of'], job['steps'], sorted(faults.items(), key=str)))
            rep = clone(job)
            rep['faults'] = {str(k): v for k, v in faults.items()}
            if st[0] == 'crash' and any(f['kind'] == 'np' for f in faults.values()):
                res.stats['third-party crash on failed array allocation'] += 1
                continue
            if st[0] != 'ok':
                res.fail(st[0], '%s: process: %s' % (job['of'], st), rep)
                return
            if st[1]:
                res.fail(st[1]['kind'], st[1]['msg'], rep, what=job['of'])
                return
            if given is None and not faults and faults is first:
                vs, points = model.variants(job, counts, rng(job['seed'], 'faults'), self.limit[job['tier']], ('intr', 'memcall', 'np'))
                # most of them where the object is carried
                own = [(k, c) for k, c in enumerate(counts) if job['steps'][k]['do'] == 'carry' and any(c.values())]
                q = rng(job['seed'], 'carry')
                for k, c in own:
                    for kind in [x for x in ('intr', 'memcall') if c.get(x)]:
                        runs.append({k: {'kind': kind, 'at': q.randint(1, c[kind])}})
                runs += vs
                res.stats['fault points found'] += points
        for s in job['steps']:
            res.stats['step: ' + (s['how'] if s['do'] == 'carry' else s['do'])] += 1
        res.sample = {'of': job['of'], 'steps': job['steps']}

    def results(self, job, res):
        for s in job['steps']:
            res.n += 1
            one = dict(clone(job), steps=[s])
            res.keys.append(key_of(one))
            st = forkrun.run(first_half, s, job['world'], s['proto'], timeout=120)
            if st[0] != 'ok':
                res.stats['skipped: %s alone' % st[0]] += 1
                continue
            out, data, why = st[1]
            if data is None:
                res.fail('refused', 'what %s returned or raised cannot be pickled: %s' % (s['f'], why), one, what=s['f'])
                return
            st = far(job['hash'], 'second_half', data)
            if st[0] != 'ok':
                res.fail(st[0], '%s: restoring what it returned: %s' % (s['f'], st), one, what=s['f'])
                return
            got, why = st[1]
            if why:
                res.fail('refused', 'what %s returned or raised cannot be restored in another process: %s' % (s['f'], why), one, what=s['f'])
                return
            d = canon.diff(out, got)
            if d:
                res.fail('differs', 'what %s returned or raised reads otherwise in another process: %s' % (s['f'], d[:300]), one, what=s['f'])
                return
            res.stats['results sent to another process'] += 1
        res.sample = {'results of': job['steps'][0]['f']}

    def run(self, job, res):
        (self.results if job['kind'] == 'result' else self.history)(job, res)

    def shrink(self, job):
        if job['kind'] == 'result':
            return
        if job.get('faults'):
            j = clone(job)
            j['faults'] = {}
            yield j
            return
        for j in shrink_steps(job):
            j['faults'] = {}
            yield j

    def close(self):
        p_process.close_all()
