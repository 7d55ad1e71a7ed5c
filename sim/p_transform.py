'''C06: a composite transform is exactly its committed steps.
C07: reference frames stay attached to the states they name.'''
import math
import random

import numpy as np

import monitor
import ops
from core import rng
from model import Broken, History, ModelProp
from stubs import Mesh, PlainMesh

TO_M = {'m': 1., 'mm': .001, 'cm': .01, 'in': .0254, 'ft': .3048, 'inches': .0254, 'feet': .3048, 'cubits': .4572}
TOL = 1e-7


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL * (1 + np.abs(b).max(initial=0.))))


def rodrigues(v):
    t = math.sqrt(float((v ** 2).sum()))
    if t < 1e-12:
        return np.eye(3)
    k = v / t
    x = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * x + (1 - math.cos(t)) * x.dot(x)


def look_rotation(up, look):
    '''Rows: right-handed frame whose y is up and whose z is the part of look square to it.'''
    y = up / np.linalg.norm(up)
    z = look / np.linalg.norm(look)
    x = np.cross(y, z)
    x = x / np.linalg.norm(x)
    z = np.cross(x, y)
    return np.stack([x, y, z])


def m44(m):
    out = np.eye(4)
    out[:3, :3] = m
    return out


def lay(r, a):
    '''Other memory layouts, integers and lower precision.'''
    return ops.layout(r, a)


def tame(r, gen):
    '''Nothing that overflows or is not a number: what products of such
    matrices are depends on the order they are multiplied in.'''
    while True:
        v = gen(r)
        if np.all(np.abs(v) < 1e6):
            return v


def make_step(st):
    '''(method, args, kwargs, arrays owned by the caller, expected (F, R) or None when it must be refused)'''
    r = random.Random('tstep/%s' % st['s'])
    k = st['kind']
    if k == 'scale':
        f = r.choice([.5, 2, 3., 1.25, .2, 1, 1., np.float64(1.5), np.int64(4), np.float32(.5), .001, 1000,
                      r.choice([np.int8(100), np.uint8(3), np.uint16(300), np.int32(70000), np.float16(.3), np.float32(.7), np.uint8(200), np.float16(20)])])
        if isinstance(f, np.generic):
            w = float(f)
            return 'scale', (f,), {}, [], (m44(np.eye(3) * w), m44(np.eye(3) / w))
        return 'scale', (f,), {}, [], (m44(np.eye(3) * f), m44(np.eye(3) / f))
    if k == 'scale_bad':
        return 'scale', (r.choice([0, -1., -.5, 'x', None]),), {}, [], None
    if k == 'units':
        a, b = r.choice(list(TO_M)), r.choice(list(TO_M))
        f = TO_M[a] / TO_M[b]
        return 'convert_units', (a, b), {}, [], (m44(np.eye(3) * f), m44(np.eye(3) / f))
    if k == 'units_bad':
        return 'convert_units', r.choice([('cm', 'kg'), ('kg', 'lbs'), ('bogus', 'cm'), ('cm', 'bogus'), ('deg', 'rad')]), {}, [], None
    if k == 'translate':
        v = tame(r, ops.new_vec)
        if r.random() < .2:
            v = np.array([r.randrange(100) for _ in range(3)], dtype=r.choice(NARROW))
        f, b = np.eye(4), np.eye(4)
        f[:3, 3], b[:3, 3] = v, -v.astype(float)
        if r.random() < .5:
            return 'translate', (v,), {}, [v], (f, b)
        l = v.tolist()
        return 'translate', (l,), {}, [l], (f, b)
    if k == 'translate_bad':
        return 'translate', (r.choice([[1., 2.], np.zeros(4), 'abc', [[1, 2], [3, 4]]]),), {}, [], None
    if k == 'reorient':
        while True:
            up, look = tame(r, ops.new_nz).astype(float), tame(r, ops.new_nz).astype(float)
            if np.linalg.norm(np.cross(up, look)) > .2 * np.linalg.norm(up) * np.linalg.norm(look):
                break
        m = m44(look_rotation(up, look))
        return 'reorient', (up, look), {}, [up, look], (m, m.T)
    if k == 'reorient_bad':
        return 'reorient', r.choice([(np.zeros(3), np.ones(3)), ('x', 'y'), (np.ones(2), np.ones(3))]), {}, [], 'either'
    if k == 'rotate':
        if r.random() < .5:
            m = lay(r, ops.new_rot(r))
            return 'rotate', (m,), {}, [m], (m44(np.array(m, dtype=float)), m44(np.array(m.T, dtype=float)))
        x = r.random()
        if x < .6:
            v = np.array([r.uniform(-1.5, 1.5) for _ in range(3)])
        elif x < .75:
            v = np.zeros(3)
        elif x < .85:
            v = np.eye(3)[r.randrange(3)] * r.choice([math.pi, -math.pi, math.pi / 2, 2 * math.pi])
        else:
            v = np.array([r.uniform(-4, 4) for _ in range(3)])
        m = rodrigues(v)
        l = r.choice([v, v.reshape(3, 1), v.reshape(1, 3)])
        return 'rotate', (l,), {}, [l], (m44(m), m44(m.T))
    if k == 'rotate_bad':
        return 'rotate', (r.choice([np.zeros((2, 2)), np.zeros(4), 'abc']),), {}, [], 'either'
    if k == 'append3':
        x = r.random()
        if x < .4:
            m = ops.new_rot(r) * r.choice([1., 2., .5]) + np.array([[0, r.uniform(0, .2), 0], [0, 0, 0], [0, 0, 0]])
        elif x < .7:
            # keeps volumes, but not lengths
            m = np.eye(3)
            a, b = r.sample(range(3), 2)
            if r.random() < .6:
                m[a, b] = r.choice([1., -2., .5])
            else:
                m[a, a], m[b, b] = 2., .5
        elif x < .8:
            m = np.diag([r.choice([1., -1.]) for _ in range(3)])
        elif x < .85:
            m = np.eye(3)
        else:
            m = np.diag([r.choice([1., -1., .5, 3.]) for _ in range(3)])[[1, 2, 0]]
        m = lay(r, m)
        if r.random() < .1:
            m = np.diag([r.choice([20, 1, 100]) for _ in range(3)])[[0, 2, 1]].astype(r.choice(NARROW))
        keep = np.array(m, dtype=float)
        i = np.linalg.inv(keep)
        if r.random() < .6:
            return 'append_transform3', (m,), {}, [m], (m44(keep), m44(i))
        if r.random() < .5:
            return 'append_transform3', (m, i), {}, [m, i], (m44(keep), m44(i.copy()))
        return 'append_transform3', (m,), {'reverse': i}, [m, i], (m44(keep), m44(i.copy()))
    if k == 'append3_bad':
        return 'append_transform3', (r.choice([np.eye(4), np.eye(2), np.zeros((3, 3)), 'x', [[1, 2], [3, 4]]]),), {}, [], None
    if k == 'append4':
        m = lay(r, ops.new_affine(r)) if r.random() < .85 else np.eye(4)
        if r.random() < .1:
            m = np.diag([r.choice([20, 1, 100]), 20, 3, 1]).astype(r.choice(NARROW))
            m[:3, 3] = [100, 0, 7]
        keep = np.array(m, dtype=float)
        i = np.linalg.inv(keep)
        x = r.random()
        if x < .5:
            return 'append_transform4', (m,), {}, [m], (keep, i)
        if x < .7:
            return 'append_transform4', (m, i), {}, [m, i], (keep, i.copy())
        if x < .8:
            l, il = keep.tolist(), i.tolist()
            return 'append_transform4', (l, il), {}, [l, il], (keep, i)
        return 'append_transform4', (m,), {'reverse': i}, [m, i], (keep, i.copy())
    if k == 'append4_bad':
        return 'append_transform4', (r.choice([np.zeros((4, 4)), np.ones((4, 4)), np.ones((4, 3)), 'x', np.diag([1., 0, 1, 1])]),), {}, [], None
    raise ValueError(k)


def narrowed(r, v):
    """v, now and then as numbers of a smaller type."""
    if r.random() < .75:
        return v
    return np.abs(v).astype(r.choice(NARROW))


NARROW = [np.int8, np.uint8, np.int16, np.float16, np.int32]
GOOD = ['scale', 'units', 'translate', 'reorient', 'rotate', 'append3', 'append4']
BAD = ['scale_bad', 'units_bad', 'translate_bad', 'reorient_bad', 'rotate_bad', 'append3_bad', 'append4_bad']


def scribble_own(objs):
    for o in objs:
        if isinstance(o, np.ndarray):
            if o.flags.writeable:
                o[...] = 123.5
        elif isinstance(o, list):
            o[:] = [99.] * len(o)


def total(model, start, stop, reverse):
    m = np.eye(4)
    for f, b in model[start:stop]:
        m = f.dot(m) if not reverse else m.dot(b)
    return m


class CompositeHistory(History):
    def start(self):
        from blmath.geometry.transform import CompositeTransform
        # Two, so that what happens to one can be seen not to happen to the other.
        self.both = [[CompositeTransform(), []], [CompositeTransform(), []]]
        self.own = []
        self.out = []           # [matrix given out, copy at that time]
        self.pts = np.array([[0., 0., 0.], [1., 2., -3.], [4., -.5, 2.]])
        self.choose(0)

    def choose(self, who):
        self.who = who
        self.t, self.model = self.both[who]

    def mismatch(self, model, quick=False):
        n = len(model)
        spans = [(None, None)]
        for a in range(n + 1):
            for b in range(a, n + 1):
                if not quick or b - a <= 1 or (a, b) == (0, n):
                    spans.append((a, b))
        if not quick:
            spans.append((n // 2, n + 3))
        for a, b in spans:
            for rev in (False, True):
                want = total(model, a or 0, n if b is None else b, rev)
                rng_ = None if a is None else (a, b)
                got = self.t.matrix_for(from_range=rng_, reverse=rev)
                if not near(got, want):
                    return 'matrix_for(%s, reverse=%s) is %s, expected %s' % (rng_, rev, np.asarray(got).tolist(), want.tolist())
        for rev, pts in ((False, self.pts), (True, self.pts), (False, self.pts.astype(NARROW[n % len(NARROW)])),
                         (n % 2 == 0, self.pts.astype(NARROW[(n + 3) % len(NARROW)])[n % 3:n % 3 + 1])):
            want = (total(model, 0, n, rev).dot(np.hstack([pts, np.ones((len(pts), 1))]).T).T)[:, :3]
            got = self.t(pts, reverse=rev)
            if not near(got, want):
                return 'applied to points, reverse=%s: %s, expected %s' % (rev, np.asarray(got).tolist(), want.tolist())
        return None

    def why_not(self, model, quick=False):
        try:
            return self.mismatch(model, quick)
        except Exception as e:
            return 'reading it raised %s: %s' % (type(e).__name__, e)

    def compare(self, quick):
        monitor.paused = True
        try:
            for t, model in self.both:
                was, self.t = self.t, t
                why = self.why_not(model, quick)
                self.t = was
                if why:
                    raise Broken('state', why)
            for m, was in self.out:
                if not np.array_equal(m, was):
                    raise Broken('handed-out', 'a matrix returned earlier changed from %s to %s' % (was.tolist(), m.tolist()))
        finally:
            monitor.paused = False

    def check(self):
        self.compare(True)

    def finish(self):
        self.compare(False)

    def span(self, st):
        """The range asked for, and the steps it stands for."""
        n = len(self.model)
        if st['range'] is None:
            return None, 0, n
        if st.get('beyond'):
            # as given: it may reach past the last step so far
            a, b = sorted(st['range'])
            return (a, b), min(a, n), min(b, n)
        a = st['range'][0] % (n + 1)
        b = a + st['range'][1] % (n + 1 - a)
        return (a, b), a, b

    def step(self, st):
        do = st['do']
        self.choose(st.get('who', 0))
        if do == 'append':
            name, args, kw, own, want = make_step(st)
            fn = getattr(self.t, name)
            did = self.attempt(lambda: fn(*args, **kw))
            self.own.extend(own)
            if did.ok:
                if want is None or isinstance(want, str):
                    # accepted a step it should not, or may, refuse: take its own word for it
                    monitor.paused = True
                    try:
                        n = len(self.model)
                        got = [np.array(self.t.matrix_for(from_range=(n, n + 1), reverse=x)) for x in (False, True)]
                    except Exception as e:
                        raise Broken('state', 'accepted %s%r, then reading it raised %r' % (name, args, e))
                    finally:
                        monitor.paused = False
                    if np.all(np.isfinite(got[0])) and np.all(np.isfinite(got[1])):
                        self.model.append(tuple(got))
                        self.probe('invalid accepted')
                    else:
                        # poisoned by the caller; nothing further can be compared
                        self.start()
                    return
                if did.value != len(self.model):
                    raise Broken('index', '%s returned %r for step %d' % (name, did.value, len(self.model)))
                self.model.append(want)
                self.probe('appended')
                return
            if did.interrupted:
                self.probe('interrupted')
                if isinstance(want, tuple):
                    monitor.paused = True
                    wb = self.why_not(self.model)
                    if wb is not None:
                        wa = self.why_not(self.model + [want])
                        monitor.paused = False
                        if wa is not None:
                            raise Broken('torn', 'after an interrupt, neither as before (%s) nor as after (%s)' % (wb, wa))
                        self.model.append(want)
                        self.probe('interrupted after the append')
                    elif near(want[0], np.eye(4)):
                        # a step that does nothing: its index tells
                        at = self.t.scale(2.)
                        if at == len(self.model) + 1:
                            self.model.append(want)
                        elif at != len(self.model):
                            raise Broken('index', 'after an interrupt, scale returned %r for step %d' % (at, len(self.model)))
                        self.model.append((m44(np.eye(3) * 2.), m44(np.eye(3) / 2.)))
                    monitor.paused = False
                return
            self.probe('out of memory' if did.memory else 'refused')
            if did.refused and isinstance(want, tuple) and not did.fired:
                raise Broken('refused', 'valid %s was refused: %s' % (name, did.text()))
            return      # check() compares with the unchanged model
        if do == 'scribble_own':
            scribble_own(self.own)
            self.own = []
            self.probe('caller reused its arrays')
        elif do == 'matrix':
            rg, a, b = self.span(st)
            did = self.attempt(lambda: self.t.matrix_for(from_range=rg, reverse=st['reverse']))
            if did.ok:
                if not near(did.value, total(self.model, a, b, st['reverse'])):
                    raise Broken('state', 'matrix_for%s is wrong' % (rg,))
                if st['scribble']:
                    if isinstance(did.value, np.ndarray) and did.value.flags.writeable:
                        did.value[...] = -55.
                        self.probe('returned matrix overwritten')
                else:
                    self.out.append((did.value, np.array(did.value)))
            elif did.refused and not did.fired:
                raise Broken('refused', 'matrix_for%s: %s' % (rg, did.text()))
        elif do == 'apply':
            rg, a, b = self.span(st)
            r = random.Random(st['s'])
            pts = lay(r, np.array([[ops.num(r) for _ in range(3)] for _ in range(r.randint(1, 4))]))
            keep = pts.copy()
            did = self.attempt(lambda: self.t(pts, from_range=rg, reverse=st['reverse']))
            if did.ok:
                want = total(self.model, a, b, st['reverse']).dot(np.hstack([keep, np.ones((len(keep), 1))]).T).T[:, :3]
                if not near(did.value, want):
                    raise Broken('state', 'applying steps %d to %d gave %s, expected %s' % (a, b, np.asarray(did.value).tolist(), want.tolist()))
                if isinstance(did.value, np.ndarray) and did.value.flags.writeable:
                    did.value[...] = -77.
            elif did.refused and not did.fired:
                raise Broken('refused', 'applying: %s' % did.text())
            if not np.array_equal(pts, keep):
                raise Broken('state', 'the points given, or the result being overwritten, changed: %s to %s' % (keep.tolist(), pts.tolist()))


class C06(ModelProp):
    id = 'C06'
    history = CompositeHistory

    def make(self, i, seed, tier):
        r = rng(seed, 'C06', i)
        steps = []
        # a few ranges, asked for again and again as the transform grows
        ranges = [[r.randrange(8), r.randrange(10)] for _ in range(2)] + [[0, r.choice([1, 2, 3, 99])]]
        two = r.random() < .3
        for _ in range(r.randint(2, 10 if r.random() < .3 else 7)):
            x = r.random()
            if x < .47:
                st = {'do': 'append', 'kind': r.choice(GOOD), 's': r.randrange(10 ** 6)}
            elif x < .6:
                st = {'do': 'append', 'kind': r.choice(BAD), 's': r.randrange(10 ** 6)}
            elif x < .67:
                st = {'do': 'scribble_own'}
            else:
                st = {'do': 'matrix', 'range': None if r.random() < .3 else r.choice(ranges), 'beyond': r.random() < .6,
                      'reverse': r.random() < .5}
                if x < .88:
                    st['scribble'] = r.random() < .6
                else:
                    st.update({'do': 'apply', 's': r.randrange(10 ** 6)})
            if two:
                st['who'] = r.randrange(2)
            steps.append(st)
        return {'seed': r.randrange(1 << 30), 'tier': tier, 'steps': steps}


TAGS = ['source', 'floored', 'frame_a', 'frame_b', 'centered_at_origin', 'x1']


class ManagerHistory(History):
    def start(self):
        from blmath.geometry.transform import CoordinateManager
        # Another one in use at the same time, which must not matter.
        self.decoy = CoordinateManager()
        self.decoy.tag_as('source')
        self.decoy.scale(7.)
        self.decoy.tag_as('x1')
        self.decoy.x1 = np.array([[7., 14., -7.]])
        self.m = CoordinateManager()
        self.model = []
        self.tags = {}
        self.held = None        # (tag, 'points'|'mesh'|'empty', vertices, faces, the object)
        self.keep = []          # meshes assigned, with their contents then
        self.own = []

    def expect(self, frm, to, v):
        a, b = self.tags[frm], self.tags[to]
        if a == b:
            return v
        m = total(self.model, a, b, False) if a < b else total(self.model, b, a, True)
        return m.dot(np.hstack([v, np.ones((len(v), 1))]).T).T[:, :3]

    def read_ok(self, got, to, held):
        '''None if `got` is what reading `to` must give.'''
        frm, kind, v, f, obj = held
        if kind == 'points':
            want = self.expect(frm, to, v)
            if not isinstance(got, np.ndarray) or not near(got, want):
                return 'frame %r reads %s, expected %s' % (to, got if not isinstance(got, np.ndarray) else got.tolist(), want.tolist())
            return None
        if kind == 'empty':
            return None if getattr(got, 'v', 0) is None else 'frame %r of a mesh without vertices has some' % to
        want = self.expect(frm, to, v)
        if not hasattr(got, 'v') or not near(got.v, want):
            return 'frame %r reads vertices %s, expected %s' % (to, np.asarray(getattr(got, 'v', None)).tolist(), want.tolist())
        if got is obj:
            return 'frame %r gives the assigned mesh itself' % to
        if not np.array_equal(got.f, f):
            return 'frame %r lost the faces' % to
        return None

    def mismatch(self, held, tags=None):
        was = self.tags
        if tags is not None:
            self.tags = tags
        try:
            if held is None:
                for t in self.tags or ['source']:
                    try:
                        getattr(self.m, t)
                    except Exception:
                        continue
                    return 'reading %r before anything was assigned gave a result' % t
                return None
            for t in self.tags:
                why = self.read_ok(getattr(self.m, t), t, held)
                if why:
                    return why
            return None
        except Exception as e:
            return 'reading raised %s: %s' % (type(e).__name__, e)
        finally:
            self.tags = was

    def check(self):
        monitor.paused = True
        try:
            why = self.mismatch(self.held)
            if why is None:
                why = self.probe_points()
            if why:
                raise Broken('state', why)
            if not near(self.decoy.source, np.array([[1., 2., -1.]])) or not near(self.decoy.x1, np.array([[7., 14., -7.]])):
                raise Broken('state', 'another manager is affected: %s, %s' % (self.decoy.source, self.decoy.x1))
            for obj, v, f in self.keep:
                if not np.array_equal(obj.v, v) or not np.array_equal(obj.f, f):
                    raise Broken('mesh', 'an assigned mesh was changed')
            try:
                self.m.no_such_frame
            except Exception:
                pass
            else:
                raise Broken('unknown', 'reading an unknown frame gave a result')
        finally:
            monitor.paused = False

    def probe_points(self, tags=None):
        '''The steps between any two tags, whatever is held.'''
        was = self.tags
        if tags is not None:
            self.tags = tags
        try:
            p = np.array([[1., -2., .5], [0., 3., 1.]])
            for a in self.tags:
                for b in self.tags:
                    got = self.m.do_transform(p.copy(), a, b)
                    want = self.expect(a, b, p)
                    if not near(got, want):
                        return 'from %r to %r takes %s to %s, expected %s' % (a, b, p.tolist(), np.asarray(got).tolist(), want.tolist())
            return None
        except Exception as e:
            return 'do_transform raised %s: %s' % (type(e).__name__, e)
        finally:
            self.tags = was

    def either(self, did, what, before, after):
        '''For an interrupted step: adopt whichever of the two holds.'''
        monitor.paused = True
        try:
            if before() is None:
                return False
            why = after()
            if why is None:
                self.probe('interrupted after the change')
                return True
        finally:
            monitor.paused = False
        raise Broken('torn', '%s interrupted: neither before nor after: %s' % (what, why))

    def step(self, st):
        do = st['do']
        if do == 'append':
            name, args, kw, own, want = make_step(st)
            if isinstance(want, str):
                return
            fn = getattr(self.m, name)
            did = self.attempt(lambda: fn(*args, **kw))
            self.own.extend(own)
            if did.ok:
                if want is None:
                    # accepted a step that should be refused: not judged here
                    self.start()
                    return
                self.model.append(want)
                self.probe('appended')
            elif did.interrupted:
                if isinstance(want, tuple):
                    # a step after the last tag shows once it is tagged
                    monitor.paused = True
                    try:
                        probe = '_sim_probe_%d' % len(self.model)
                        n0 = len(self.model)
                        self.m.tag_as(probe)
                        tags = dict(self.tags)
                        tags[probe] = n0
                        before = self.probe_points(tags)
                        if before is None:
                            pass
                        else:
                            self.model.append(want)
                            tags[probe] = n0 + 1
                            why = self.probe_points(tags)
                            if why is not None:
                                raise Broken('torn', '%s interrupted: %s; %s' % (name, before, why))
                        self.tags = tags
                    finally:
                        monitor.paused = False
            elif did.refused and isinstance(want, tuple) and not did.fired:
                raise Broken('refused', 'valid %s was refused: %s' % (name, did.text()))
        elif do == 'tag':
            t = st['tag']
            tags = dict(self.tags)
            tags[t] = len(self.model)
            did = self.attempt(lambda: self.m.tag_as(t))
            if did.ok:
                if t in self.tags and self.tags[t] != tags[t]:
                    self.probe('tag reused')
                self.tags = tags
            elif did.interrupted:
                if self.either(did, 'tag_as', lambda: self.mismatch(self.held) or self.probe_points(),
                               lambda: self.mismatch(self.held, tags) or self.probe_points(tags)):
                    self.tags = tags
                else:
                    # it may have happened without a visible difference yet: settle by repeating
                    self.m.tag_as(t)
                    self.tags = tags
            elif did.refused and not did.fired:
                raise Broken('refused', 'tag_as(%r): %s' % (t, did.text()))
        elif do == 'assign':
            t = st['tag']
            r = random.Random('assign/%s' % st['s'])
            kind = st['kind']
            if kind == 'points':
                obj = lay(r, narrowed(r, np.array([[ops.num(r) for _ in range(3)] for _ in range(r.randint(1, 4))])))
                v, f = obj.copy(), None
            elif kind == 'empty':
                obj, v, f = Mesh(), None, None
            else:
                obj = ops.new_mesh(r, Mesh if kind == 'mesh' else PlainMesh)
                v, f = np.array(obj.v), np.array(obj.f)
                self.keep.append((obj, v, f))
                kind = 'mesh'
            new = (t, kind, v, f, obj)

            def go():
                setattr(self.m, t, obj)
            did = self.attempt(go)
            if did.ok:
                if t not in self.tags:
                    raise Broken('unknown', 'assigning to unknown frame %r was accepted' % t)
                self.held = new
                self.probe('assigned')
            elif did.interrupted and t in self.tags:
                if self.either(did, 'assignment', lambda: self.mismatch(self.held), lambda: self.mismatch(new)):
                    self.held = new
            elif did.refused and t in self.tags and not did.fired:
                raise Broken('refused', 'assigning to %r: %s' % (t, did.text()))
            else:
                self.probe('assignment refused or out of memory')
        elif do == 'read':
            t = st['tag']
            did = self.attempt(lambda: getattr(self.m, t))
            if did.ok:
                if t not in self.tags or self.held is None:
                    raise Broken('unknown', 'reading %r gave a result' % t)
                why = self.read_ok(did.value, t, self.held)
                if why:
                    raise Broken('state', why)
                self.probe('read')
            elif did.refused and not did.fired and t in self.tags and self.held is not None:
                raise Broken('refused', 'reading %r: %s' % (t, did.text()))
        elif do == 'transform':
            r = random.Random('dt/%s' % st['s'])
            obj = narrowed(r, np.array([[ops.num(r) for _ in range(3)] for _ in range(r.randint(1, 4))]))
            v = obj.copy()
            a, b = st['tag'], st['to']
            did = self.attempt(lambda: self.m.do_transform(obj, a, b))
            if did.ok:
                if a not in self.tags or b not in self.tags:
                    raise Broken('unknown', 'do_transform from %r to %r gave a result' % (a, b))
                if not near(did.value, self.expect(a, b, v)):
                    raise Broken('state', 'do_transform from %r to %r is wrong' % (a, b))
            elif did.refused and not did.fired and a in self.tags and b in self.tags:
                raise Broken('refused', 'do_transform: %s' % did.text())
        elif do == 'scribble_own':
            scribble_own(self.own)
            self.own = []


class C07(ModelProp):
    id = 'C07'
    history = ManagerHistory

    def make(self, i, seed, tier):
        r = rng(seed, 'C07', i)
        tags = r.sample(TAGS, r.choice([2, 3, 4]))
        steps = []
        if r.random() < .8:
            steps.append({'do': 'tag', 'tag': tags[0]})
        for _ in range(r.randint(4, 11)):
            x = r.random()
            t = r.choice(tags)
            if x < .3:
                steps.append({'do': 'append', 'kind': r.choice(GOOD if r.random() < .85 else BAD), 's': r.randrange(10 ** 6)})
            elif x < .52:
                steps.append({'do': 'tag', 'tag': t})
            elif x < .72:
                steps.append({'do': 'assign', 'tag': t, 'kind': r.choice(['points', 'points', 'mesh', 'plain', 'empty']), 's': r.randrange(10 ** 6)})
            elif x < .9:
                steps.append({'do': 'read', 'tag': t})
            elif x < .96:
                steps.append({'do': 'transform', 'tag': t, 'to': r.choice(tags), 's': r.randrange(10 ** 6)})
            else:
                steps.append({'do': 'scribble_own'})
        return {'seed': r.randrange(1 << 30), 'tier': tier, 'steps': steps}
