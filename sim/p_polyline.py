'''C05: a polyline changes completely or not at all.'''
import math
import random

import numpy as np

import monitor
import ops
from core import rng
from model import Broken, History, ModelProp


def vertices(kind, seed):
    '''(what to assign, expected vertices or None for "no vertices", valid?)'''
    r = random.Random('verts/%s/%s' % (kind, seed))
    n = r.choice([1, 2, 2, 3, 4, 5, 6, 8])
    if seed % 23 == 0:
        n = r.choice([17, 40, 130])
    if kind == 'list':
        v = [[float(r.randint(-5, 5)) for _ in range(3)] for _ in range(n)]
        return v, np.array(v), True
    if kind == 'ints':
        # signed, unsigned, and as wide as the type goes
        dt, top = r.choice([(np.int64, 5), (np.int64, 5), (np.int8, 127), (np.uint8, 255), (np.int16, 32767), (np.uint32, 2 ** 32 - 1), (bool, 1)])
        low = 0 if dt in (np.uint8, np.uint32, bool) else -top
        v = np.array([[r.randint(low, top) for _ in range(3)] for _ in range(n)], dtype=dt)
        return v, v.astype(float), True
    if kind == 'array':
        v = np.array([[r.uniform(-5, 5) for _ in range(3)] for _ in range(n)])
        lay = r.randrange(5)
        if lay == 0:
            return np.asfortranarray(v), v, True
        if lay == 1:
            return np.repeat(v, 2, axis=0)[::2], v, True
        if lay == 2:
            w = v.copy()
            w.flags.writeable = False
            return w, v, True
        return v, v.copy(), True
    if kind == 'f32':
        v = np.array([[r.uniform(-5, 5) for _ in range(3)] for _ in range(n)], dtype=r.choice([np.float32, np.float32, np.float16, '>f8', '>f4']))
        return v, v.astype(np.float64), True
    if kind == 'transposed':
        n = r.choice([2, 4, 5])
        v = np.array([[r.uniform(-5, 5) for _ in range(3)] for _ in range(n)])
        return v.T.copy(), v, True
    if kind == 'none':
        return None, None, True
    bad = r.choice([
        [[1., 2.], [3., 4.]], [1., 2., 3.], [[float('nan'), 0, 0]], [[0, 0, float('inf')], [1, 1, 1]], 'abc', [['a', 'b', 'c']],
        [[1, 2, 3], [4, 5]], np.zeros((2, 3, 3)), {}, 7, [[1j, 2, 3]], [[None, 1, 2]], np.zeros((4, 5))])
    return bad, None, False


def expected_edges(n, closed):
    m = n if closed else n - 1
    e = [[i, i + 1] for i in range(max(m, 0))]
    if closed and e:
        e[-1][1] = 0
    return np.array(e, dtype=int).reshape(-1, 2)


def partitioned(v, closed, limit):
    '''Independent rendering of partition_by_length; None when refused.'''
    out, idx = [], []
    segs = [(v[i], v[i + 1]) for i in range(len(v) - 1)] + ([(v[-1], v[0])] if closed else [])
    for a, b in segs:
        d = math.sqrt(sum((float(y) - float(x)) ** 2 for x, y in zip(a, b)))
        q = d / limit
        idx.append(len(out))
        k = max(1, int(math.ceil(q)))
        for j in range(k):
            out.append([float(x) + (float(y) - float(x)) * j / k for x, y in zip(a, b)])
    if not closed:
        idx.append(len(out))
        out.append([float(x) for x in v[-1]])
    return np.array(out).reshape(-1, 3), idx


def borderline(v, closed, limit):
    w = np.vstack([v, v[:1]]) if closed else v
    d = np.sqrt(((w[1:] - w[:-1]) ** 2).sum(axis=1)) / limit
    return bool(np.any((np.abs(d - np.round(d)) < 1e-6) & (d > .5)))


def pieces(v, closed, limit):
    w = np.vstack([v, v[:1]]) if closed else v
    return float(np.sqrt(((w[1:] - w[:-1]) ** 2).sum(axis=1)).sum() / limit)


class PolylineHistory(History):
    def start(self):
        self.objs = []
        self.model = []        # [v or None, closed]
        self.prev = None
        from blmath.geometry import Polyline
        self.P = Polyline

    def same(self, p, m):
        '''None when everything visible of p is what (v, closed) implies.'''
        v, closed = m
        pv = p.v
        if v is None:
            if pv is not None:
                return 'v is not None'
            if bool(p.closed) != closed:
                return 'closed is %r' % (p.closed,)
            if p.e is not None:
                return 'e is not None'
            if len(p.segment_lengths) != 0 or p.total_length != 0:
                return 'lengths of nothing'
            return None
        if not isinstance(pv, np.ndarray) or pv.shape != v.shape or not np.allclose(pv, v, rtol=1e-9, atol=1e-9):
            return 'v is %s, expected %s' % (np.asarray(pv).tolist(), v.tolist())
        if bool(p.closed) != closed:
            return 'closed is %r' % (p.closed,)
        e = expected_edges(len(v), closed)
        pe = np.asarray(p.e)
        if pe.shape != e.shape or not np.array_equal(pe, e):
            return 'e is %s, expected %s' % (pe.tolist(), e.tolist())
        if len(p) != len(v):
            return 'len is %d, expected %d' % (len(p), len(v))
        seg = v[e]
        if p.segments.shape != seg.shape or not np.allclose(p.segments, seg, atol=1e-9):
            return 'segments disagree with v'
        vec = seg[:, 1] - seg[:, 0]
        if p.segment_vectors.shape != vec.shape or not np.allclose(p.segment_vectors, vec, atol=1e-9):
            return 'segment_vectors disagree with v'
        lens = np.sqrt((vec ** 2).sum(axis=1))
        pl = np.asarray(p.segment_lengths)
        if pl.shape != lens.shape or not np.allclose(pl, lens, atol=1e-9):
            return 'segment_lengths %s, expected %s' % (pl.tolist(), lens.tolist())
        if not np.isclose(p.total_length, lens.sum(), atol=1e-9):
            return 'total_length %r, expected %r' % (p.total_length, lens.sum())
        return None

    def check(self):
        monitor.paused = True
        try:
            for k, (p, m) in enumerate(zip(self.objs, self.model)):
                try:
                    why = self.same(p, m)
                except Exception as e:
                    why = 'reading it raised %s: %s' % (type(e).__name__, e)
                if why:
                    raise Broken('state', 'polyline %d: %s' % (k, why))
        finally:
            monitor.paused = False

    def settle(self, did, k, after, valid=True):
        '''Decide which of before / after the model goes on from.'''
        p = self.objs[k]
        before = self.model[k]
        if did.ok:
            if after is None:
                # accepted although it should not be: not judged here
                monitor.paused = True
                v = p.v
                self.model[k] = [None if v is None else np.array(v, dtype=float), bool(p.closed)]
                monitor.paused = False
                self.probe('invalid accepted')
                return
            self.model[k] = after
            self.probe('changed')
            return
        if did.interrupted or did.memory:
            self.probe('cut short')
            monitor.paused = True
            try:
                wb = self.same(p, before)
                if wb is None:
                    return
                wa = 'no after state' if after is None else self.same(p, after)
            except Exception as e:
                raise Broken('torn', 'after %s reading it raised %s: %s' % (did.text(), type(e).__name__, e))
            finally:
                monitor.paused = False
            if wa is None:
                self.model[k] = after
                self.probe('cut short after the change')
                return
            raise Broken('torn', 'after %s neither as before (%s) nor as after (%s)' % (did.text(), wb, wa))
        self.probe('refused')
        if valid and not did.fired:
            raise Broken('refused', 'a valid operation was refused: %s' % did.text())

    def step(self, st):
        do = st['do']
        if do == 'new':
            what, v, valid = vertices(st['kind'], st['s'])
            if v is not None and st['closed'] and len(v) == 0:
                valid = False
            did = self.attempt(lambda: self.P(what, closed=st['closed']))
            if did.ok and valid:
                self.objs.append(did.value)
                self.model.append([v, st['closed']])
            elif did.refused and valid and not did.fired:
                raise Broken('refused', 'constructor: %s' % did.text())
            return
        if not self.objs:
            return
        k = st['k'] % len(self.objs)
        p = self.objs[k]
        v, closed = self.model[k]
        if do == 'v':
            what, nv, valid = vertices(st['kind'], st['s'])

            def go():
                p.v = what
            did = self.attempt(go)
            self.settle(did, k, [nv, closed] if valid else None, valid)
        elif do == 'del':
            def go():
                del p.v
            self.settle(self.attempt(go), k, [None, closed])
        elif do == 'closed':
            def go():
                p.closed = st['to']
            self.settle(self.attempt(go), k, [v, st['to']])
        elif do == 'flip':
            did = self.attempt(p.flip)
            self.settle(did, k, None if v is None else [v[::-1].copy(), closed], v is not None)
        elif do == 'partition':
            lim = st['limit']
            after, ok, idx = None, False, None
            if v is not None and isinstance(lim, (int, float)) and lim > 0 and (len(v) > 1 or not closed):
                if borderline(v, closed, lim) or pieces(v, closed, lim) > 700:
                    return
                nv, idx = partitioned(v, closed, lim)
                after, ok = [nv, closed], True
            did = self.attempt(lambda: p.partition_by_length(lim, ret_indices=st['ret']))
            if did.ok and ok:
                if st['ret']:
                    if list(did.value) != idx:
                        raise Broken('result', 'partition_by_length returned %s, expected %s' % (list(did.value), idx))
                elif did.value is not p:
                    raise Broken('result', 'partition_by_length did not return the polyline')
                self.probe('partitioned' if len(after[0]) > len(v) else 'partition left as is')
            if did.ok and not ok:
                return self.settle(did, k, None, False)
            self.settle(did, k, after, ok)
        elif do == 'poke':
            if v is not None and len(v):
                i, j = st['s'] % len(v), st['s'] % 3
                try:
                    p.v[i, j] = st['x']
                except ValueError:
                    return      # read-only now: nothing changed
                v = v.copy()
                v[i, j] = st['x']
                self.model[k] = [v, closed]
                for q in range(len(self.objs)):
                    if q != k and self.model[q][0] is not None and np.shares_memory(self.objs[q].v, p.v):
                        raise Broken('shared', 'polylines %d and %d share vertices' % (k, q))
        elif do == 'copy':
            if len(self.objs) < 3:
                did = self.attempt(p.copy)
                if did.ok:
                    self.objs.append(did.value)
                    self.model.append([None if v is None else v.copy(), closed])
        elif do == 'read':
            self.attempt(lambda: (p.segments if v is not None else None, p.segment_lengths, p.total_length, repr(p), p.e))


class C05(ModelProp):
    id = 'C05'
    history = PolylineHistory

    def make(self, i, seed, tier):
        r = rng(seed, 'C05', i)
        good = ['list', 'ints', 'array', 'array', 'f32', 'transposed']
        steps = [{'do': 'new', 'kind': r.choice(good + ['none']), 's': r.randrange(10 ** 6), 'closed': r.random() < .5}]
        for _ in range(r.randint(2, 9)):
            x = r.random()
            k = r.randrange(3)
            if x < .3:
                steps.append({'do': 'v', 'k': k, 'kind': r.choice(good + ['none', 'bad', 'bad']), 's': r.randrange(10 ** 6)})
            elif x < .5:
                steps.append({'do': 'closed', 'k': k, 'to': r.random() < .5})
            elif x < .62:
                steps.append({'do': 'flip', 'k': k})
            elif x < .8:
                steps.append({'do': 'partition', 'k': k, 'limit': r.choice([.37, .9, 1.7, 3.1, 50., 2, 'x', None, .043, .11]), 'ret': r.random() < .5})
                if r.random() < .3:
                    steps.append(dict(steps[-1], limit=r.choice([.9, .57, 1.3])))
            elif x < .86:
                steps.append({'do': 'poke', 'k': k, 's': r.randrange(100), 'x': r.uniform(-5, 5)})
            elif x < .9:
                steps.append({'do': 'copy', 'k': k})
            elif x < .93:
                steps.append({'do': 'del', 'k': k})
            elif x < .97:
                steps.append({'do': 'read', 'k': k})
            else:
                steps.append({'do': 'new', 'kind': r.choice(good), 's': r.randrange(10 ** 6), 'closed': r.random() < .5})
        return {'seed': r.randrange(1 << 30), 'tier': tier, 'steps': steps}
