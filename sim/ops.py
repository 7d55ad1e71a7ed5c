'''The operations simulated callers perform: all of blmath's public functions
and read-only methods, plus the mutators on objects of their own, with valid
and invalid arguments.

An operation is (family, seed).  `prepare(family, seed, world)` makes the
arguments; the returned Call's `thunk` does the imports and the call, so that
it can be used cold.  Running a thunk twice does the same thing twice.
'''
import decimal
import fractions
import importlib
import io
import math
import os
import random

import numpy as np
import scipy.sparse as sp

import keys
from stubs import ChArray, Mesh, MeshViewer, PlainMesh

I = importlib.import_module
OPS = {}
GROUP = {}


class Call(object):
    def __init__(self, thunk, *args, **flags):
        self.thunk = thunk
        self.args = args
        self.alias = flags.get('alias', False)      # result may be a window into an argument
        self.nofault = flags.get('nofault', False)


def op(name, group=None, **meta):
    def deco(fn):
        OPS[name] = (fn, meta)
        GROUP.setdefault(group or name.split('.')[0], []).append(name)
        return fn
    return deco


def prepare(family, seed, world):
    fn, _ = OPS[family]
    try:
        return fn(random.Random('%s/%s' % (family, seed)), world)
    except Exception as e:
        # blmath refuses to make what the call needs: that is its outcome
        if os.environ.get('SIM_STRICT'):
            raise
        return Call(again(type(e), e.args))


def again(cls, args):
    def thunk():
        raise cls(*args)
    return thunk


# ---------------------------------------------------------------------------
# data

def num(r):
    k = r.random()
    if k < .35:
        return float(r.randint(-4, 4))
    if k < .5:
        return r.choice([0.5, -0.25, 1.5, 2.25, 10., -7.])
    return r.uniform(-10, 10)


def layout(r, a):
    '''The same contents in another memory layout now and then.'''
    k = r.random()
    if k < .7:
        return a
    if k < .8:
        return np.asfortranarray(a)
    if k < .9:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if k < .93 and a.ndim:
        return a[::-1].copy()[::-1]
    if k < .95:
        b = a.copy()
        b.flags.writeable = False
        return b
    if k < .98 and np.all(a == np.floor(a)):
        return a.astype(np.int64)
    return a.astype(np.float32) if a.dtype == np.float64 else a


# No infinities: LAPACK's decompositions need not end on them.
ODD = [float('nan'), -0., 1e-310, 1e150, -1e150]


def odd(r, a):
    '''Extraordinary numbers in it now and then.'''
    if r.random() < .04 and a.size and a.flags.writeable and a.dtype == np.float64:
        for _ in range(r.choice([1, 1, 2])):
            a[tuple(r.randrange(n) for n in a.shape)] = r.choice(ODD)
    return a


def new_vec(r):
    k = r.random()
    if k < .25:
        v = np.array([r.choice([-1., 0., 1.]) for _ in range(3)])
    elif k < .35:
        v = np.eye(3)[r.randrange(3)] * r.choice([1., -1., 2.5])
    else:
        v = np.array([num(r) for _ in range(3)])
    return layout(r, odd(r, v))


def new_nz(r):
    while True:
        v = new_vec(r)
        if np.abs(v).sum() > .2:
            return v


def new_pts(r, lo=1, hi=9):
    n = r.randint(lo, hi)
    k = r.random()
    if k < .04 and hi >= 9:
        # many
        rs = np.random.RandomState(r.randrange(1 << 30))
        return rs.uniform(-5, 5, (r.choice([40, 130, 300, 1100]), 3))
    if k < .1:
        # repeated, zero and aligned rows
        a = np.array([[num(r) for _ in range(3)] for _ in range(n)])
        for _ in range(n):
            a[r.randrange(n)] = r.choice([a[r.randrange(n)] * r.choice([1., 2., -1.]), np.zeros(3), np.array([0., 1., 0.])])
        return a
    if k < .16:
        return np.array([[float(r.randint(-3, 3)) for _ in range(3)] for _ in range(n)])
    return layout(r, odd(r, np.array([[num(r) for _ in range(3)] for _ in range(n)]).reshape(-1, 3)))


def new_curve(r, lo=2, hi=9, closed=False):
    n = r.randint(lo, hi)
    k = r.random()
    if k < .5:
        a = np.linspace(0, 2 * math.pi, n, endpoint=False)
        s = [r.uniform(.5, 3) for _ in range(2)]
        v = np.stack([s[0] * np.cos(a), s[1] * np.sin(a), 0 * a + r.choice([0., 1., -2.])], axis=1)
        return v[:, r.choice([[0, 1, 2], [0, 2, 1], [2, 0, 1]])]
    v = np.array([[num(r) for _ in range(3)] for _ in range(n)])
    if k < .58:
        v[r.randrange(n)] = v[r.randrange(n)]       # a repeated vertex
    elif k < .66:
        v = np.round(v)
    elif k < .7:
        rs = np.random.RandomState(r.randrange(1 << 30))
        v = rs.uniform(-3, 3, (r.choice([20, 20, 60, 60, 150, 300]), 3))
    return v


def new_mesh(r, cls=Mesh):
    '''One or two closed, or one open, triangulated surfaces.'''
    vs, fs, off = [], [], 0
    for part in range(r.choice([1, 1, 2, 3])):
        n, m = r.randint(3, 5), r.randint(2, 4)
        if r.random() < .02:
            n, m = r.choice([(17, 9), (30, 20)])
        c = np.array([4. * part + r.uniform(-.3, .3), r.uniform(-.3, .3), r.uniform(-.3, .3)])
        v = [c + [0, 1.3, 0]]
        for i in range(1, m):
            t = math.pi * i / m
            for j in range(n):
                p = 2 * math.pi * (j + .31) / n
                v.append(c + [math.sin(t) * math.cos(p), 1.3 * math.cos(t), math.sin(t) * math.sin(p)])
        v.append(c - [0, 1.3, 0])
        last = len(v) - 1
        f = []
        for j in range(n):
            f.append([0, 1 + j, 1 + (j + 1) % n])
        for i in range(m - 2):
            for j in range(n):
                a, b = 1 + i * n + j, 1 + i * n + (j + 1) % n
                f.append([a, a + n, b])
                f.append([b, a + n, b + n])
        for j in range(n):
            f.append([last, 1 + (m - 2) * n + (j + 1) % n, 1 + (m - 2) * n + j])
        if r.random() < .15:
            f = f[:-2]
        vs.append(np.array(v))
        fs.append(np.array(f) + off)
        off += len(v)
    if r.random() < .15:
        # vertices where cutting planes like to be
        vs = [np.round(v * 2) / 2 for v in vs]
    f = np.vstack(fs)
    if r.random() < .3:
        order = list(range(len(f)))
        r.shuffle(order)
        f = f[order]
    return cls(v=np.vstack(vs), f=f.astype(r.choice([np.int64, np.uint32, np.int32])))


def new_rot(r):
    k = r.random()
    if k < .05:
        return np.eye(3)
    if k < .1:
        return np.diag(r.choice([[1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.]]))
    if k < .15:
        return np.eye(3)[r.choice([[1, 2, 0], [2, 0, 1]])]
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def new_affine(r):
    m = np.eye(4)
    k = r.random()
    if k < .05:
        return m
    if k < .2:
        m[:3, :3] += r.uniform(-1, 1) * np.eye(3)[:, [1, 2, 0]]     # a shear
        return m
    m[:3, :3] = new_rot(r) * r.choice([1., 2., .5])
    m[:3, 3] = [num(r) for _ in range(3)]
    return m


def untidy(r, m):
    '''The same matrix stored otherwise now and then: other formats, entries
    out of order, in two parts, or stored zeros.'''
    k = r.random()
    if k < .5:
        return m
    rs = np.random.RandomState(r.randrange(1 << 30))
    c = m.tocoo()
    row, col, data = c.row, c.col, c.data
    if k < .8 and len(data):
        twice = rs.random_sample(len(data)) < .3
        row, col = np.r_[row, row[twice]], np.r_[col, col[twice]]
        data = np.r_[np.where(twice, data * .25, data), data[twice] * .75]
    if k < .7:
        z = rs.randint(0, min(m.shape), 2)
        row, col, data = np.r_[row, z], np.r_[col, z[::-1]], np.r_[data, 0., 0.]
    p = rs.permutation(len(data))
    row, col, data = row[p], col[p], data[p]
    if k > .92:
        return sp.coo_matrix((data, (row, col)), shape=m.shape)
    make, major, minor = r.choice([(sp.csc_matrix, col, row), (sp.csr_matrix, row, col)])
    o = np.argsort(major, kind='stable')
    ptr = np.r_[0, np.cumsum(np.bincount(major, minlength=m.shape[0]))]
    return make((data[o], minor[o], ptr), shape=m.shape)


def new_spd(r, lo=1, hi=8):
    n = r.randint(lo, hi)
    rs = np.random.RandomState(r.randrange(1 << 30))
    d = rs.standard_normal((n, n)) * (rs.random_sample((n, n)) < .5)
    return sp.csc_matrix(d.dot(d.T) + np.eye(n))


UNITS = ['m', 'mm', 'cm', 'in', 'ft', 'fathoms', 'cubits', 'kg', 'g', 'lbs', 'stone', 'deg', 'rad', 'sec', 'min',
         'hr', 'day', 'yr', 'hours_per_week', 'meters', 'inches', 'pounds', 'degrees', 'radians', 'years', 'lb']
CLASSES = {'length': ['m', 'mm', 'cm', 'in', 'ft', 'fathoms', 'cubits', 'meter', 'inches', 'feet'],
           'weight': ['kg', 'g', 'lbs', 'stone', 'pounds', 'lb'],
           'angle': ['deg', 'rad', 'degrees', 'radians'],
           'time': ['sec', 'min', 'hr', 'day', 'yr', 'hours', 'years'],
           'time_rate': ['hours_per_week']}


def same_class(r):
    c = CLASSES[r.choice(['length', 'length', 'weight', 'angle', 'time'])]
    return r.choice(c), r.choice(c)


def unit_pair(r):
    k = r.random()
    if k < .8:
        return same_class(r)
    if k < .95:
        return r.choice(UNITS), r.choice(UNITS)
    return r.choice([None, '', 'cm', 'bogus']), r.choice([None, '', 'cm', 'bogus'])


def blm(name):
    mod, attr = name.rsplit('.', 1)
    return getattr(I('blmath.' + mod if mod != 'blmath' else 'blmath'), attr)


def Polyline(*a, **k):
    return I('blmath.geometry').Polyline(*a, **k)


def Plane(*a, **k):
    return I('blmath.geometry').Plane(*a, **k)


def Value(*a, **k):
    return I('blmath.value').Value(*a, **k)


def V():
    return I('blmath.numerics').vx


class World(object):
    '''Objects simulated callers may share, built from a seed on demand.'''
    def __init__(self, seed, p_share=.5):
        self.seed = seed
        self.p = p_share
        self.pool = {}

    def _get(self, kind, make, r, n=2):
        if r.random() >= self.p:
            return make(r)
        k = (kind, r.randrange(n))
        if k not in self.pool:
            self.pool[k] = make(random.Random('%s/%s/%d' % (self.seed, kind, k[1])))
        return self.pool[k]

    def vec(self, r):
        return self._get('vec', new_vec, r)

    def nz(self, r):
        return self._get('nz', new_nz, r)

    def pts(self, r):
        return self._get('pts', lambda q: new_pts(q, 2, 9), r)

    def vp(self, r):
        return self.nz(r) if r.random() < .5 else self._get('npts', lambda q: new_pts(q, 2, 5) + .1, r)

    def curve(self, r):
        return self._get('curve', lambda q: new_curve(q, 3, 9), r)

    def polyline(self, r, closed=None):
        def make(q):
            c = closed if closed is not None else q.random() < .5
            return Polyline(new_curve(q, 3, 9), closed=c)
        return self._get('polyline%s' % closed, make, r)

    def plane(self, r):
        return self._get('plane', lambda q: Plane(new_vec(q) * .1, new_nz(q)), r)

    def box(self, r):
        return self._get('box', lambda q: I('blmath.geometry').Box(new_vec(q), np.abs(new_vec(q))), r)

    def mesh(self, r):
        return self._get('mesh', new_mesh, r)

    def value(self, r, cls=None):
        def make(q):
            c = CLASSES[cls or q.choice(['length', 'length', 'weight', 'angle', 'time'])]
            return Value(q.choice([num(q), abs(num(q)) + .5, q.randint(1, 200)]), q.choice(c))
        return self._get('value%s' % cls, make, r)

    def mat4(self, r):
        return self._get('mat4', new_affine, r)

    def mat3(self, r):
        return self._get('mat3', new_rot, r)

    def spd(self, r):
        return self._get('spd', new_spd, r)

    def composite(self, r):
        def make(q):
            t = I('blmath.geometry.transform').CompositeTransform()
            for _ in range(q.choice([0, 1, 1, 2, 2, 3, 4])):
                k = q.randrange(4)
                if k == 0:
                    t.scale(q.choice([.5, 2., 3.]))
                elif k == 1:
                    t.translate([num(q) for _ in range(3)])
                elif k == 2:
                    t.append_transform3(new_rot(q))
                else:
                    t.append_transform4(new_affine(q))
            return t
        return self._get('composite', make, r)

    def manager(self, r):
        def make(q):
            m = I('blmath.geometry.transform').CoordinateManager()
            m.tag_as('a')
            m.translate([num(q) for _ in range(3)])
            if q.random() < .7:
                m.scale(2.)
            m.tag_as('b')
            m.append_transform3(new_rot(q))
            m.tag_as('c')
            m.b = new_pts(q, 2, 5) if q.random() < .6 else new_mesh(q)
            return m
        return self._get('manager', make, r)

    def any_numeric(self, r):
        k = min(r.randrange(15), 12)
        return [lambda: new_vec(r), lambda: new_pts(r), lambda: [1, 2, 3], lambda: [[1., 2., 3.], [4, 5, 6]],
                lambda: 3, lambda: 2.5, lambda: float('nan'), lambda: np.array([0., 1., 0.]),
                lambda: decimal.Decimal('1.5'), lambda: 'abc', lambda: [1, 'x'],
                lambda: r.choice([True, None, 1j, 0, np.float64(0), decimal.Decimal(0), fractions.Fraction(1, 3), np.array([1, 2], dtype=object), np.array(['a']), np.array([True, False]), float('inf'), [], (), np.zeros((0, 3)), '',
                                  {}, np.float32(2), np.array(3), [0, 0, 0], object]),
                lambda: r.choice([fractions.Fraction(2, 7), [fractions.Fraction(1, 3), fractions.Fraction(2)], I('blmath.value').Value(num(r), 'cm'),
                                  [I('blmath.value').Value(num(r), 'cm')], np.array([fractions.Fraction(1, 3), 2])])][k]()


# ---------------------------------------------------------------------------
# vector shortcuts

for _n in ('normalize', 'magnitude'):
    def _mk(n):
        @op('vx.' + n)
        def _(r, w):
            a = w.vp(r)
            k = r.random()
            if k < .1:
                a = np.zeros((2, 2, 2))
            elif k < .2:
                a = r.choice([np.zeros(3), np.zeros((2, 3)), list(a)])
            return Call(lambda: getattr(V(), n)(a), a)
    _mk(_n)

for _n, _kw in (('sproj', 'onto'), ('proj', 'onto'), ('reject', 'from_v')):
    def _mk(n, kw):
        @op('vx.' + n)
        def _(r, w):
            a, b = w.vp(r), w.nz(r)
            return Call(lambda: getattr(V(), n)(a, **{kw: b}), a, b)
    _mk(_n, _kw)


@op('vx.reject_axis')
def _(r, w):
    a, ax, sq = w.vp(r), r.choice([0, 1, 2, 2, 3]), r.random() < .5
    return Call(lambda: V().reject_axis(a, ax, squash=sq), a)


@op('vx.angle')
def _(r, w):
    a, b, c = w.nz(r), w.nz(r), w.nz(r)
    return Call(lambda: V().angle(a, b, look=c), a, b, c)


@op('vx.signed_angle')
def _(r, w):
    a, b, c = w.nz(r), w.nz(r), w.nz(r)
    return Call(lambda: V().signed_angle(a, b, look=c), a, b, c)


@op('vx.almost_zero')
def _(r, w):
    a = r.choice([w.vec(r), np.zeros(3), np.full(3, 1e-9)])
    return Call(lambda: V().almost_zero(a), a)


@op('vx.almost_collinear')
def _(r, w):
    a = w.vec(r)
    b = r.choice([w.vec(r), a * 2, a])
    return Call(lambda: V().almost_collinear(a, b), a, b)


@op('vx.pad_with_ones')
def _(r, w):
    a = w.pts(r) if r.random() < .85 else w.vec(r)
    return Call(lambda: V().pad_with_ones(a), a)


@op('vx.misfit')
def _(r, w):
    '''Shapes the shortcuts do not take.'''
    a = r.choice([np.zeros((2, 2, 3)), np.ones((1, 2, 3)), np.array(2.), np.zeros((2, 4)), np.ones(4), w.pts(r)])
    b = r.choice([w.nz(r), w.pts(r), np.ones((2, 2, 3))])
    n = r.choice(['normalize', 'magnitude', 'sproj', 'proj', 'reject', 'reject_axis', 'squash', 'pad_with_ones', 'unpad', 'apply_homogeneous',
                  'almost_zero', 'almost_collinear', 'angle', 'signed_angle', 'cross', 'vdot', 'dot'])
    m = w.mat4(r)

    def go():
        v = V()
        if n in ('sproj', 'proj'):
            return getattr(v, n)(a, onto=b)
        if n == 'reject':
            return v.reject(a, from_v=b)
        if n in ('reject_axis', 'squash'):
            return v.reject_axis(a, 1, squash=(n == 'squash'))
        if n == 'apply_homogeneous':
            return v.apply_homogeneous(a, m)
        if n in ('almost_collinear',):
            return v.almost_collinear(a, b)
        if n in ('angle', 'signed_angle'):
            return getattr(v, n)(a, b, look=np.array([0., 0., 1.]))
        return getattr(v, n)(a)
    return Call(go, a, b, m, alias=True)


@op('vx.unpad')
def _(r, w):

    p = w.pts(r)
    a = np.hstack([p, np.ones((len(p), 1))])
    if r.random() < .2:
        a[0, 3] = 2.
    elif r.random() < .1:
        a = p
    return Call(lambda: V().unpad(a), a)


@op('vx.apply_homogeneous')
def _(r, w):
    a, m = w.pts(r), w.mat4(r)
    if r.random() < .1:
        m = np.eye(3)
    elif r.random() < .1:
        a = w.vec(r)
    return Call(lambda: V().apply_homogeneous(a, m), a, m)


@op('vx.basis')
def _(r, w):
    n = r.choice(['x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z'])
    return Call(lambda: getattr(V().basis, n))


# ---------------------------------------------------------------------------
# numerics

@op('num.as_numeric_array')
def _(r, w):
    a = r.choice([w.vec, w.pts, w.any_numeric, w.any_numeric])(r)
    kw = {}
    if r.random() < .12:
        # emptying something the old way
        a = r.choice([[], np.array([]), (), np.zeros((0, 3))])
        kw = {'allow_none': True, 'empty_as_none': True}
        if r.random() < .5:
            kw['shape'] = (-1, 3)
        return Call(lambda: I('blmath.numerics').as_numeric_array(a, **kw), a, alias=True)
    if r.random() < .08:
        a = None
    if r.random() < .6:
        kw['shape'] = r.choice([(3,), (-1, 3), (-1,), (3, -1)])
        if r.random() < .2:
            # of the wrong size
            a = np.arange(1., 1 + r.choice([2, 4, 8]))
            if r.random() < .6:
                a = a.reshape(r.choice([(-1, 2), (2, -1), (-1, 1)]))
    if r.random() < .4:
        kw['allow_none'] = True
        kw['empty_as_none'] = r.random() < .5
    if r.random() < .3:
        kw['dtype'] = r.choice([np.float64, np.uint64, np.float32])
    return Call(lambda: I('blmath.numerics').as_numeric_array(a, **kw), a, alias=True)


for _n in ('isnumeric', 'isnumericscalar', 'isnumericarray', 'is_empty_arraylike'):
    def _mk(n):
        @op('num.' + n)
        def _(r, w):
            a = r.choice([w.vec, w.pts, w.any_numeric, w.any_numeric, w.any_numeric])(r)
            return Call(lambda: getattr(I('blmath.numerics'), n)(a), a)
    _mk(_n)


@op('num.scale_to_range')
def _(r, w):
    a = w.pts(r)
    lo, hi = num(r), num(r)
    return Call(lambda: I('blmath.numerics').scale_to_range(a, lo, hi), a)


@op('num.zero_safe_divide')
def _(r, w):
    a, b = w.pts(r), w.nz(r)
    if r.random() < .5:
        b = np.array([0., 1., 2.])
    elif r.random() < .3:
        b = np.array([r.choice(ODD), r.choice([0., 1.]), float(r.choice(['inf', '-inf', 'nan']))])
    e = r.choice([0., 7., -1., float('nan'), float('inf')])
    k = r.random()
    if k < .1:
        a, b = num(r), r.choice([0., 0, num(r), 2])
    elif k < .2:
        a, b = [num(r), 0, 3], [0, 0, 2.]
    elif k < .3:
        a, b = np.array([[1, 0], [2, -3]]), np.array([0, 2])
    elif k < .35:
        a, b = num(r), np.array([0., 2.])
    elif k < .4:
        e = r.choice(['x', None])
    return Call(lambda: I('blmath.numerics').zero_safe_divide(a, b, e), a, b)


@op('num.round_to')
def _(r, w):
    a, b = r.uniform(-50, 50), r.choice([.05, .1, .25, 2., 5, 0])
    k = r.random()
    if k < .15:
        a = r.choice([float('nan'), float('inf'), 7, np.float64(2.26), fractions.Fraction(7, 3), '3', None, -0., 1e300, np.array([1.26, 2.])])
    elif k < .25:
        a = w.value(r)
    elif k < .3:
        b = r.choice([float('nan'), float('inf'), -.5, 1e-320, fractions.Fraction(1, 8), np.float32(.5), None])
    return Call(lambda: I('blmath.numerics').round_to(a, b), a)


@op('num.rounded_list')
def _(r, w):
    a, p = [r.choice([None, num(r)]) for _ in range(4)], r.randint(0, 3)
    return Call(lambda: I('blmath.numerics').rounded_list(a, p), a)


@op('num.np_reshape_safe')
def _(r, w):
    a = np.array([num(r) for _ in range(6)])
    s = r.choice([(2, 3), (3, 2), (6, 1), (4, 2)])
    jw = r.random() < .4
    if r.random() < .3:
        a = a.reshape(2, 3).T
    return Call(lambda: I('blmath.numerics').np_reshape_safe(a, s, just_warn=jw), a, alias=True)


@op('num.np_make_readonly')
def _(r, w):
    vals = [num(r) for _ in range(3)]

    def go():
        a, b = np.array(vals), np.array(vals[:2])
        res = I('blmath.numerics').np_make_readonly([a, 'x', b])
        return res, a.flags.writeable, b.flags.writeable, a
    return Call(go, vals)


@op('num.matlab')
def _(r, w):
    a = w.pts(r)
    k = r.choice(['row', 'col', 'sparse', 'bsxfun', 'bsxfun2', 'bsxfun3', 'bsxfun4'])
    i = np.array([0, 1, 2])
    d = w.vec(r)

    def go():
        m = I('blmath.numerics.matlab')
        if k == 'row':
            return m.row(a)
        if k == 'col':
            return m.col(a)
        if k == 'sparse':
            return m.sparse(i, i, d, 4, 4) if len(a) % 2 else m.sparse(i, i, d)
        if k == 'bsxfun':
            return m.bsxfun(np.subtract, a, a)
        if k == 'bsxfun3':
            return m.bsxfun(np.add, i.reshape(-1, 1), np.ones((1, 4)))
        if k == 'bsxfun4':
            return m.bsxfun(np.add, np.ones((2, 3)), np.ones((4, 5)))
        return m.bsxfun(np.add, d.reshape(1, -1), i.reshape(-1, 1))
    return Call(go, a, i, d, alias=True)


# ---------------------------------------------------------------------------
# linear algebra

@op('la.orthogonalize')
def _(r, w):
    a = np.array([[num(r) + (4. if i == j else 0) for j in range(3)] for i in range(3)])
    idx = r.choice([None, [0], [1, 2]])
    k = r.random()
    if k % .5 < .1:
        n = r.choice([2, 4, 12])
        a = np.array([[num(r) + (4. if i == j else 0) for j in range(n)] for i in range(min(n, 6))])
    elif k % .5 < .12:
        a = np.zeros((3, 3))
    G = 'blmath.numerics.linalg.gram_schmidt'
    if k < .5:
        return Call(lambda: I(G).orthogonalize(a), a)
    return Call(lambda: I(G).orthonormalize(a, idx), a, idx)


@op('la.gs_proj')
def _(r, w):
    a, b = w.nz(r), w.nz(r)
    return Call(lambda: I('blmath.numerics.linalg.gram_schmidt').proj(a, b), a, b)


@op('la.isomorphism')
def _(r, w):
    a, b = w.mat3(r), w.mat3(r) * 2
    k = r.random()
    if k < .1:
        b = np.ones((3, 3))
    elif k < .2:
        b = np.eye(2)
    elif k < .25:
        a = a * np.array([[1.], [1.], [0.]])
    elif k < .3:
        b = np.hstack([b, b])
    elif k < .35:
        a, b = [list(x) for x in a], [list(x) for x in b]
    elif k < .4:
        a, b = np.array([[1., 2.], [0., 1.]]), np.array([[2., 0.], [1., 1.]])
    return Call(lambda: I('blmath.numerics.linalg.isomorphism').isomorphism(a, b), a, b)


@op('la.lchol')
def _(r, w):
    A = w.spd(r)
    k = r.random()
    if k < .15:
        A = sp.csc_matrix(-A.toarray())
    elif k < .4:
        A = w._get('spd2', lambda q: untidy(q, new_spd(q)), r)
    elif k < .43:
        A = sp.csc_matrix(A.toarray() * 1j)
    return Call(lambda: I('blmath.numerics.linalg.lchol').lchol(A), A)


def _sparse(r):
    n = r.randint(3, 8)
    rs = np.random.RandomState(r.randrange(1 << 30))
    d = rs.standard_normal((n, n)) * (rs.random_sample((n, n)) < .35) + 3 * np.eye(n)
    for _ in range(r.randrange(3)):
        k = r.randrange(n)
        d[k, :] = rs.standard_normal(n)
        d[k, k] = 5
        if r.random() < .5:
            d[:, k] = d[k, :]
    return untidy(r, sp.csc_matrix(d))


@op('la.block_sparse')
def _(r, w):
    A = w._get('sparse', _sparse, r)
    v = np.array([num(r) for _ in range(A.shape[0])])
    thr = r.choice([.05, .5, .9, 20])
    if r.random() < .15:
        # dense rows, no dense columns
        rs = np.random.RandomState(r.randrange(1 << 30))
        d = np.zeros((r.randint(4, 8), r.randint(10, 14)))
        d[np.arange(len(d)), rs.randint(0, d.shape[1], len(d))] = 2.
        d[r.randrange(len(d))] = rs.standard_normal(d.shape[1])
        A, thr = untidy(r, sp.csc_matrix(d)), .45
        v = np.array([num(r) for _ in range(d.shape[1])])
    elif r.random() < .08:
        A, v = sp.csc_matrix([[2.]]), np.array([num(r)])
    if r.random() < .3:
        # one matrix for several callers
        def make(q):
            a = sp.csc_matrix(_sparse(q))
            return I('blmath.numerics.linalg.static_block_sparse_matrix').StaticBlockSparseMatrix(a, sparsity_threshold=q.choice([.05, .9, 20, 20]))
        M0 = w._get('blocks', make, r)
        v = np.array([num(r) for _ in range(M0.shape[0])])
        k = r.choice(['matvec', 'matvec', 'matmat', 'MTM', 'MMT'])
        return Call(lambda: getattr(M0, k)(*([v] if k.startswith('mat') else [])), getattr(M0, 'M', None), v)
    k = r.choice(['MTM', 'MMT', 'MMT', 'matvec', 'matmat', 'shape', 'blocks', 'mask', 'props', 'linop', 'given', 'cg', 'counts', 'sides'])
    half = r.randrange(4)

    def go():
        m = I('blmath.numerics.linalg.static_block_sparse_matrix')
        if k == 'mask':
            row, co = np.arange(A.shape[0]) % 2 == 0, np.arange(A.shape[1]) % 2 == 1
            row, co = row & (half != 1), co & (half != 2)
            return m.mask_sparse_matrix(A, row, co), m.mask_sparse_matrix_by_rows(A, row), m.mask_sparse_matrix_by_columns(A, co)
        if k == 'given':
            row = np.arange(A.shape[0]) % 3 == 0
            M = m.StaticBlockSparseMatrix(A, row, np.arange(A.shape[1]) % 3 == 0)
            return M.matvec(v), M.row_density, M.column_density, M.num_sparse_rows, M.num_sparse_columns, M.row_sparsity
        M = m.StaticBlockSparseMatrix(A, sparsity_threshold=thr)
        if k == 'shape':
            return M.shape, M.num_dense_rows, M.num_dense_columns
        if k == 'blocks':
            return M.block_ss, M.block_dd, M.block_sd, M.block_ds
        if k == 'props':
            return M.sparse_row_indices, M.dense_row_indices, M.sparse_column_indices, M.dense_column_indices
        if k == 'counts':
            return M.num_sparse_rows, M.num_dense_rows, M.num_sparse_columns, M.num_dense_columns, M.row_sparsity, M.column_sparsity, M.num_rows
        if k == 'sides':
            return M.sparse_block, M.row_density, M.column_density, M.MMT()
        if k == 'matvec':
            return M.matvec(v)
        if k == 'matmat':
            return M.matmat(v)
        if k == 'linop':
            return M.linOp
        if k == 'cg':
            return M.conjGradSolve(v, x0=v) if half else M.conjGradSolve(v)
        return getattr(M, k)()
    return Call(go, A, v)


def _ch(n):
    return getattr(I('blmath.optimization.objectives.normals'), n)


@op('opt.normals')
def _(r, w):
    m = w.mesh(r)
    if len(m.v) > 80:
        m = new_mesh(random.Random(1))      # derivatives are dense here
    k = r.choice(['tri', 'scaled', 'norm', 'norm_dr', 'edges', 'edges_dr', 'cross_dr', 'reuse'])
    b = np.array([num(r) for _ in range(m.v.size)])

    def go():
        v = ChArray(m.v)
        if k == 'tri':
            return _ch('TriNormals')(v, m.f).r
        if k == 'scaled':
            return _ch('TriNormalsScaled')(v, m.f).r
        if k == 'norm':
            return _ch('NormalizedNx3')(v).r
        if k == 'norm_dr':
            return _ch('NormalizedNx3')(v).compute_dr_wrt(v)
        e = _ch('TriEdges')(f=m.f, cplus=1, cminus=0, v=v)
        if k == 'edges':
            return e.r
        if k == 'edges_dr':
            return e.compute_dr_wrt(v), e.compute_dr_wrt(e)
        u = ChArray(b)
        c = _ch('CrossProduct')(v, u)
        if k == 'cross_dr':
            return c.r, c.compute_dr_wrt(v), c.compute_dr_wrt(u)
        n = _ch('NormalizedNx3')(v)
        first = n.r
        n.v = u
        c.compute_dr_wrt(v)
        c.a, c.b = u, v
        return first, n.r, n.compute_dr_wrt(u), c.r, c.compute_dr_wrt(u)
    return Call(go, m, b)


@op('opt.vert_normals', 'opt')
def _(r, w):
    m = w.mesh(r)
    if len(m.v) > 80:
        m = new_mesh(random.Random(1))      # derivatives are dense here
    n = r.choice([None, True, False])
    k = r.choice(['r', 'r', 'dr', 'move', 'faces', 'rodrigues'])
    other = m.v + np.array([[num(r), 0., .5]]) * m.v[:, ::-1]
    rv = w.nz(r) if r.random() < .6 else w.mat3(r)
    f2 = m.f[::-1].copy()

    def go():
        if k == 'rodrigues':
            u = ChArray(rv)
            R = I('blmath.geometry.transform.rodrigues').Rodrigues(u)
            return R.r, R.compute_dr_wrt(u), R.compute_dr_wrt(R)
        v = ChArray(m.v)
        kw = {} if n is None else {'normalized': n}
        x = _ch('VertNormals')(v=v, f=m.f, **kw)
        out = [x.r]
        if k == 'dr' and n is not False:
            out += [x.compute_dr_wrt(v), x.compute_dr_wrt(x)]
        elif k == 'move':
            x.v = ChArray(other)
            out += [x.r]
        elif k == 'faces':
            x.f = f2
            out += [x.r]
        return out
    return Call(go, m, other, rv, f2)


@op('la.block_sparse_cg')
def _(r, w):
    A = w.spd(r)
    v = np.array([num(r) for _ in range(A.shape[0])])
    return Call(lambda: I('blmath.numerics').block_sparse_cg_solve(A, v), A, v)


# ---------------------------------------------------------------------------
# geometry

@op('geo.apex')
def _(r, w):
    a, b = w.pts(r), w.nz(r)
    return Call(lambda: I('blmath.geometry.apex').apex(a, b), a, b, alias=True)


@op('geo.inflection_points')
def _(r, w):
    n = r.randint(4, 9)
    a = np.array([[i + r.uniform(0, .3), num(r), 0.] for i in range(n)])
    ax, span = np.array([0., 1, 0]), np.array([1., 0, 0])
    return Call(lambda: I('blmath.geometry.apex').inflection_points(a, ax, span), a, ax, span)


@op('geo.farthest')
def _(r, w):
    a, b = w.vec(r), w.pts(r)
    return Call(lambda: I('blmath.geometry.apex').farthest(a, b), a, b, alias=True)


@op('geo.barycentric')
def _(r, w):
    if r.random() < .5:
        p, q, u, v = w.vec(r), w.vec(r), w.nz(r), w.nz(r)
    else:
        n = r.randint(1, 4)
        p, q, u, v = [np.array([[num(r) for _ in range(3)] for _ in range(n)]) for _ in range(4)]
        if r.random() < .4:
            u[0] = v[0]
    f = 'barycentric_coordinates_of_projection'
    return Call(lambda: getattr(I('blmath.geometry.barycentric'), f)(p, q, u, v), p, q, u, v)


@op('geo.convexify')
def _(r, w):
    p = w._get('planar', lambda q: Polyline(_planar(q), closed=q.random() < .7), r)
    wv = r.random() < .5
    if r.random() < .05:
        p = Polyline(r.choice([None, [[1., 2., 3.]], [[0., 0., 0.], [1., 0., 0.], [2., 0., 0.], [3., 0., 0.]]]), closed=True)
    nm = r.choice([None, None, np.array([0., 0., 1.]), np.array([0., -1., 0.])])
    if r.random() < .1:
        p = Polyline(p.v[:r.choice([0, 1, 2])] if p.closed is False else p.v[:2], closed=p.closed)
    return Call(lambda: I('blmath.geometry.convexify').convexify_planar_curve(p, want_vertices=wv, normal=nm), p, nm, alias=True)


@op('geo.flatten', 'geo')
def _(r, w):
    how = r.random()
    p = w._get('planar%d' % (how < .5), lambda q: Polyline(_planar(q, how < .5), closed=q.random() < .7), r)
    wv = r.random() < .5
    if r.random() < .05:
        p = Polyline(r.choice([None, [[1., 2., 3.]], [[0., 0., 0.], [1., 0., 0.], [2., 0., 0.], [3., 0., 0.]]]), closed=True)
    nm = r.choice([None, None, None, np.array([0., 1., 0.]), [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0.6, 0.8, 0.]])
    if r.random() < .3:
        return Call(lambda: I('blmath.geometry.convexify').convexify_and_flatten_planar_curve(p, want_vertices=wv, normal=nm), p, nm, alias=True)
    return Call(lambda: I('blmath.geometry.convexify').convexify_planar_curve(p, flatten=True, want_vertices=wv, normal=nm), p, nm, alias=True)


def _planar(q, level=False):
    n = q.randint(5, 9)
    k = q.random()
    v = np.array([[q.uniform(-3, 3), q.uniform(-3, 3), q.uniform(-1e-3, 1e-3) if k < .5 else q.uniform(-1e-8, 1e-8)] for _ in range(n)])
    if level or q.random() < .4:
        v -= np.mean(v, axis=0)                 # around the origin
    if q.random() < .2:
        v = np.vstack([v, -v])
    if q.random() < .08:
        # many points
        rs = np.random.RandomState(q.randrange(1 << 30))
        v = np.vstack([v + rs.uniform(-1, 1, 3) * [1, 1, 1e-9] for _ in range(q.choice([6, 20, 60, 150]))])
        if level:
            v -= np.mean(v, axis=0)
    if level:
        return v[:, q.choice([[0, 2, 1], [0, 2, 1], [1, 2, 0]])]
    v = v[:, q.choice([[0, 1, 2], [0, 2, 1], [2, 0, 1], [0, 2, 1]])]
    if q.random() < .4:
        v = v + [num(q), num(q), num(q)]
    if q.random() < .2:
        v = v.dot(new_rot(q).T)
    return v


@op('geo.partition')
def _(r, w):
    a, n = w.curve(r), r.randint(2, 6)
    return Call(lambda: I('blmath.geometry.segment').partition(a, n), a)


@op('geo.partition_segment')
def _(r, w):
    a, b, n, e = w.vec(r), w.nz(r), r.choice([2, 3, 5, 1, 2.5]), r.random() < .5
    old = r.random() < .4

    def go():
        m = I('blmath.geometry.segment')
        return m.partition_segment_old(a, b, n) if old else m.partition_segment(a, b, n, endpoint=e)
    return Call(go, a, b)


@op('geo.line_intersect')
def _(r, w):
    p = [np.array([num(r), num(r)]) for _ in range(4)]
    if r.random() < .2:
        p[3] = p[2] + (p[1] - p[0])
    return Call(lambda: I('blmath.geometry.segment').line_intersect(*p), p)


@op('geo.line_intersect3')
def _(r, w):
    c = new_vec(r)
    d1, d2 = new_nz(r), new_nz(r)
    p = [c - d1, c + 2 * d1, c - d2, c + d2]
    k = r.random()
    if k < .1:
        p[2] = p[0]
    elif k < .15:
        p[3] = p[0].copy()
    elif k < .2:
        p[r.choice([2, 3])] = p[1].copy()
    elif k < .3:
        p[3] = p[2] + d1
    return Call(lambda: I('blmath.geometry.segment').line_intersect3(*p), p, alias=True)


@op('geo.surface_normal')
def _(r, w):
    a = np.array([[num(r) for _ in range(3)] for _ in range(3)])
    if r.random() < .5:
        a = np.array([[[num(r) for _ in range(3)] for _ in range(3)] for _ in range(r.randint(1, 4))])
    n = r.random() < .5
    return Call(lambda: I('blmath.geometry.surface_normals').surface_normal(a, normalize=n), a)


@op('geo.shapes')
def _(r, w):
    o, s, h = w.vec(r), np.abs(w.nz(r)) + .1, r.choice([1., 2.5])
    k, u = r.randrange(4), r.random() < .5
    p = [np.array([num(r) for _ in range(3)]) for _ in range(3)]

    def go():
        m = I('blmath.geometry.shapes')
        if k == 0:
            return m.create_rectangular_prism(o, s, u)
        if k == 1:
            return m.create_cube(o, h, u)
        if k == 2:
            return m.create_triangular_prism(p[0], p[1], p[2], h, u)
        return m.create_horizontal_plane(u)
    return Call(go, o, s, p)


@op('geo.box')
def _(r, w):
    o, s = w.vec(r), np.abs(w.vec(r))
    if r.random() < .2:
        s = w.vec(r)
    shared = w.box(r) if r.random() < .5 else None
    names = ['ranges', 'min_x', 'min_y', 'min_z', 'max_x', 'max_y', 'max_z', 'mid_x', 'mid_y', 'mid_z', 'width',
             'height', 'depth', 'center_point', 'floor_point', 'volume', 'surface_area']
    pick = r.sample(names, 4)

    def go():
        b = I('blmath.geometry').Box(o, s) if shared is None else shared
        return [getattr(b, n) for n in pick]
    return Call(go, o, s, shared)


# ---------------------------------------------------------------------------
# planes

@op('plane.make')
def _(r, w):
    a, b, c = w.vec(r), w.nz(r), w.vec(r)
    k = r.randrange(5)

    def go():
        P = I('blmath.geometry').Plane
        if k == 0:
            return P(a, b)
        if k == 1:
            return P.from_points(a, b, c)
        if k == 2:
            return P.from_points_and_vector(a, b, c)
        if k == 3:
            return P(a, np.zeros(3))
        return P.from_points(list(a), list(b), [1, 2, 'x'])
    return Call(go, a, b, c, alias=True)


@op('plane.fit')
def _(r, w):
    a = w._get('fit', lambda q: _planar(q), r)
    return Call(lambda: I('blmath.geometry').Plane.fit_from_points(a), a)


@op('plane.props')
def _(r, w):
    p = w.plane(r)
    n = r.choice(['equation', 'canonical_point', 'flipped', '__repr__', 'equation'])

    def go():
        x = getattr(p, n)
        return x() if callable(x) else x
    return Call(go, p)


@op('plane.attrs')
def _(r, w):
    p = w.plane(r)
    return Call(lambda: (p.reference_point, p.normal), p, alias=True)


for _n in ('sign', 'signed_distance', 'distance'):
    def _mk(n):
        @op('plane.' + n)
        def _(r, w):
            p = w.plane(r)
            a = w.pts(r) if r.random() < .8 else w.vec(r)
            return Call(lambda: getattr(p, n)(a), p, a)
    _mk(_n)


@op('plane.points_in_front')
def _(r, w):
    p, a, i, ri = w.plane(r), w.pts(r), r.random() < .5, r.random() < .5
    return Call(lambda: p.points_in_front(a, inverted=i, ret_indices=ri), p, a)


@op('plane.project_point')
def _(r, w):
    p, a = w.plane(r), w.vec(r)
    return Call(lambda: p.project_point(a), p, a)


@op('plane.line_xsection')
def _(r, w):
    p, a, b = w.plane(r), w.vec(r), w.nz(r)
    seg = r.random() < .5
    return Call(lambda: (p.line_segment_xsection if seg else p.line_xsection)(a, b), p, a, b)


@op('plane.line_xsections')
def _(r, w):
    p = w.plane(r)
    n = r.randint(1, 5)
    a, b = [np.array([[num(r) for _ in range(3)] for _ in range(n)]) for _ in range(2)]
    if r.random() < .3:
        b[0] = np.cross(p.normal, [1., 2., 3.])
    seg = r.random() < .5
    return Call(lambda: (p.line_segment_xsections if seg else p.line_xsections)(a, b), p, a, b)


def _cut_plane(r):
    return Plane(np.array([0., r.uniform(-.9, .9), 0.]), np.array([r.uniform(-.2, .2), 1., r.uniform(-.2, .2)]))


@op('plane.mesh_xsections')
def _(r, w):
    m = w.mesh(r)
    k = r.random()
    if k < .7:
        p = w._get('cut', _cut_plane, r)
    elif k < .8:
        p = Plane(np.array([1.3, 0, 0]), np.array([1., .1, .2]))
    elif k < .85:
        # surfaces that leave several open ends
        p = w._get('cut', _cut_plane, r)
        f = [x for i, x in enumerate(m.f) if i % r.choice([3, 4, 5])]
        m = type(m)(v=m.v, f=np.array(f or m.f))
    elif k < .9:
        p = Plane(np.array([0., r.choice([0., .5, -.5, 1., 1.3]), 0.]), np.array([0., 1., 0.]))     # often through vertices
    else:
        p = Plane(np.array([0., r.choice([9., -9.]), 0.]), np.array([0., 1., 0.]))                 # misses
    nb = np.array([[r.choice([0., 4., 8.]), 0., 0.]]) if r.random() < .4 else None
    one = r.random() < .4
    return Call(lambda: (p.mesh_xsection if one else p.mesh_xsections)(m, neighborhood=nb), p, m, nb)


@op('plane.mesh_intersecting_faces')
def _(r, w):
    m, p = w.mesh(r), w._get('cut', _cut_plane, r)
    if r.random() < .2:
        p = Plane(np.array([0., r.choice([9., 0., 1.3]), 0.]), np.array([0., 1., 0.]))
    return Call(lambda: p.mesh_intersecting_faces(m), p, m)


@op('plane.polyline_xsection')
def _(r, w):
    p, l, ri = w.plane(r), w.polyline(r), r.random() < .5
    return Call(lambda: p.polyline_xsection(l, ret_edge_indices=ri), p, l)


# ---------------------------------------------------------------------------
# polylines

@op('poly.make')
def _(r, w):
    a, c = r.choice([w.curve(r), w.pts(r), [[0, 0, 0], [1, 2, 3]], None, [[1, 2]], 'x', np.zeros((0, 3))]), r.random() < .5
    return Call(lambda: Polyline(a, closed=c), a, alias=True)


@op('poly.reads')
def _(r, w):
    p = w.polyline(r)
    if r.random() < .1:
        p = Polyline(r.choice([None, [[1., 2., 3.]], np.zeros((0, 3))]), closed=False)
    n = r.choice(['segments', 'segment_lengths', 'total_length', 'segment_vectors', '__len__', '__repr__', 'to_dict'])

    def go():
        x = getattr(p, n)
        return x() if callable(x) else x
    return Call(go, p, alias=(n == 'to_dict'))


@op('poly.copy')
def _(r, w):
    p = w.polyline(r)

    def go():
        return p.copy()
    return Call(go, p)


@op('poly.as_lines')
def _(r, w):
    p = w.polyline(r)
    return Call(lambda: p.as_lines(vc='red'), p, alias=True)


@op('poly.apex')
def _(r, w):
    p, a = w.polyline(r), w.nz(r)
    return Call(lambda: p.apex(a), p, a, alias=True)


@op('poly.reindexed')
def _(r, w):
    p, i, rm = w.polyline(r), r.randrange(3), r.random() < .5
    return Call(lambda: p.reindexed(i, ret_edge_mapping=rm), p)


@op('poly.intersect_plane')
def _(r, w):
    p, l, ri = w.plane(r), w.polyline(r), r.random() < .5
    return Call(lambda: l.intersect_plane(p, ret_edge_indices=ri), p, l)


@op('poly.cut_by_plane')
def _(r, w):
    l = w.polyline(r)
    c = np.mean(l.v, axis=0)
    p = Plane(c + .01, new_nz(r)) if r.random() < .7 else w.plane(r)
    if r.random() < .3:
        # through vertices
        l = Polyline(r.choice([[[0., 0., 0.], [2., 0., 0.], [2., 2., 0.], [0., 2., 0.]], [[0., 0., 0.], [1., 1., 0.], [2., 0., 0.], [1., -1., 0.]],
                               [[0., 0., 0.], [1., 0., 0.], [2., 0., 0.], [2., 2., 1.], [1., 2., 1.], [0., 2., 0.]]]), closed=r.random() < .8)
        p = Plane(np.array([r.choice([0., 1., 2., .5]), r.choice([0., 1.]), 0.]),
                  np.array(r.choice([[1., 0., 0.], [0., 1., 0.], [1., 1., 0.], [-1., 0., 0.], [0., -1., 0.], [-1., 1., 0.]])))
    return Call(lambda: l.cut_by_plane(p), p, l)


@op('poly.mutate')
def _(r, w):
    a, b, c = w.curve(r), w.pts(r), r.random() < .5
    k, m = r.randrange(4), r.choice([.3, .7, 1.5])

    def go():
        p = Polyline(a, closed=c)
        if k == 0:
            out = p.flip()
        elif k == 1:
            out = p.partition_by_length(m, ret_indices=True)
        elif k == 2:
            p.v = b
            out = None
        else:
            p.closed = not c
            out = p.total_length
        return out, p
    return Call(go, a, b, alias=True)


# ---------------------------------------------------------------------------
# transforms

@op('xf.convert')
def _(r, w):
    a, b, k = w.mat3(r), w.mat4(r), r.random() < .5
    if r.random() < .1:
        a, b = b, a
    C = 'blmath.geometry.transform.composite'
    return Call(lambda: I(C).convert_33_to_44(a) if k else I(C).convert_44_to_33(b), a, b, alias=True)


@op('xf.composite_call')
def _(r, w):
    t, a, rev = w.composite(r), w.pts(r), r.random() < .5
    rg = r.choice([None, None, (0, 1), (0, 0), (1, 2), (1, 4), (0, 9), [0, 2], (2, 1), (-1, 9)])
    k = r.random() < .6
    return Call(lambda: t(a, from_range=rg, reverse=rev) if k else t.matrix_for(from_range=rg, reverse=rev), t, a)


@op('xf.composite_build')
def _(r, w):
    seed, a = r.random(), w.pts(r)
    m3, m4, v = w.mat3(r), w.mat4(r), w.nz(r)
    u = same_class(random.Random(seed))
    f = r.choice([2., .5, -1.])

    def go():
        q = random.Random(seed)
        t = I('blmath.geometry.transform').CompositeTransform()
        out = []
        for _ in range(q.randint(1, 4)):
            k = q.randrange(7)
            if k == 0:
                out.append(t.scale(f))
            elif k == 1:
                out.append(t.translate(v))
            elif k == 2:
                out.append(t.append_transform3(m3))
            elif k == 3:
                out.append(t.append_transform4(m4))
            elif k == 4:
                out.append(t.reorient(v, m3[0]))
            elif k == 5:
                t.convert_units(*u)
            else:
                out.append(t.rotate(m3 if q.random() < .5 else v))
        return out, t(a), t(a, reverse=True), t
    return Call(go, a, m3, m4, v)


@op('xf.manager_read')
def _(r, w):
    m, n = w.manager(r), r.choice(['a', 'b', 'c', 'c', 'nope'])
    if r.random() < .1:
        m = I('blmath.geometry.transform').CoordinateManager()
        if r.random() < .6:
            m.tag_as('a')
    return Call(lambda: getattr(m, n), m, alias=True)


@op('xf.manager_do')
def _(r, w):
    m, a = w.manager(r), w.pts(r) if r.random() < .6 else w.mesh(r)
    x, y = r.choice('abc'), r.choice('abcz')
    return Call(lambda: m.do_transform(a, x, y), m, a, alias=True)


@op('xf.manager_build')
def _(r, w):
    a, v, m3 = w.pts(r) if r.random() < .5 else w.mesh(r), w.nz(r), w.mat3(r)
    m4, look = w.mat4(r), w.nz(r)
    k = r.randrange(5)
    if r.random() < .1:
        a = r.choice([None, 'points', [[1., 2., 3.]], 7, type(w.mesh(r))()])

    def go():
        m = I('blmath.geometry.transform').CoordinateManager()
        m.tag_as('s')
        m.translate(v)
        m.tag_as('t')
        if k == 0:
            m.append_transform3(m3)
        elif k == 1:
            m.append_transform4(m4)
        elif k == 2:
            m.reorient(v, look)
        elif k == 3:
            m.rotate(m3)
        else:
            m.scale(2.5)
        m.convert_units('cm', 'm')
        m.tag_as('u')
        m.t = a
        return m.s, m.u
    return Call(go, a, v, m3, m4, look)


@op('xf.rodrigues')
def _(r, w):
    a = r.choice([w.nz(r), w.mat3(r), new_rot(r), np.zeros(3), np.eye(3), np.eye(2), np.diag([1., -1., -1.]),
                  np.array([[0., math.pi, 0.]]), w.nz(r).reshape(3, 1), [0., .3, 0.], np.array([1e-9, 0., 0.])])
    if r.random() < .2:
        # half turns
        n = r.choice([w.nz(r), np.array([0., r.choice([1., -1.]), r.choice([1., -2.])]), np.array([1., -1., 0.]), np.array([.1, -2., 3.])])
        n = n / np.linalg.norm(n)
        a = 2 * np.outer(n, n) - np.eye(3)
    k, j = r.random() < .7, r.random() < .5
    R = 'blmath.geometry.transform.rodrigues'
    return Call(lambda: I(R).rodrigues(a, calculate_jacobian=j) if k else I(R).as_rotation_matrix(a), a)


@op('xf.estimate_normal')
def _(r, w):
    a = w._get('fit', lambda q: _planar(q), r)
    return Call(lambda: I('blmath.geometry.transform.rotation').estimate_normal(a), a)


@op('xf.rotate_to_xz')
def _(r, w):
    how = r.random() < .5
    a = w._get('fit%d' % how, lambda q: _planar(q, how), r)
    n = r.choice([None, None, None, [0., 1., 0.], [0., -1., 0.], [0., 0.6, 0.8], (1., 0., 0.)])
    if r.random() < .05:
        a = r.choice([None, np.zeros((0, 3))])
    return Call(lambda: I('blmath.geometry.transform.rotation').rotate_to_xz_plane(a, normal=n), a, n)


@op('xf.up_and_look')
def _(r, w):
    a, b = w.vec(r), w.vec(r)
    if r.random() < .3:
        a, b = list(a), list(b)
    if r.random() < .2:
        a, b = r.choice([([0, 1, 0], [0, 0, 1]), ([0., 1., 0.], [1., 0., 0.]), ([0, 2, 0], [0, -1, 0])])
    return Call(lambda: I('blmath.geometry.transform').rotation_from_up_and_look(a, b), a, b)


@op('xf.euler')
def _(r, w):
    a = r.choice([w.vec(r), [10, 20, 30], 45., 0., [0., 0., 0.], [180, 0, 90], (90, 90)])
    o, u = r.choice(['xyz', 'zyx', 'yxz', 'x']), r.choice(['deg', 'rad'])
    return Call(lambda: I('blmath.geometry.transform.rotation').euler(a, order=o, units=u), a)


@op('xf.rigid')
def _(r, w):
    a = w._get('rig', lambda q: np.array([[q.uniform(-3, 3) for _ in range(5)] for _ in range(3)]), r)
    R = new_rot(r)
    b = R.dot(a) + np.array([[1.], [2.], [3.]])
    k = r.randrange(4)
    if k == 1 and r.random() < .5:
        a, b = a.T, b.T
    if k == 3:
        a, b = a[:, :1].copy(), R.dot(a[:, :1])
    z = r.random()
    if z < .15:
        b = b * (np.array([[1.], [1.], [-1.]]) if len(b) == 3 else -1.)              # a reflection
    elif z < .3:
        a = (a if len(a) == 3 else a.T) * np.array([[1.], [1.], [0.]])                # flat
        b = R.dot(a) * (1. if z < .2 else np.array([[1.], [-1.], [1.]]))
    s = r.random() < .5
    see = r.random() < .15

    def go():
        m = I('blmath.geometry.transform.rigid_transform')
        if k < 2 and see:
            mv = MeshViewer()
            return m.find_rigid_transform(a, b, visualize=mv), mv.shown
        return m.find_rigid_transform(a, b) if k < 2 else m.find_rigid_rotation(a, b, allow_scaling=s)
    return Call(go, a, b)


@op('xf.translation')
def _(r, w):
    a, t = w.pts(r), w.vec(r) if r.random() < .5 else None
    return Call(lambda: I('blmath.geometry.transform.translation').translation(a, t), a, t, alias=True)


# ---------------------------------------------------------------------------
# units and values

@op('units.convert')
def _(r, w):
    x, (a, b) = r.choice([num(r), None, 3]), unit_pair(r)
    c = r.choice([None, None, 'length'])
    return Call(lambda: I('blmath.units').convert(x, a, b, units_class=c))


@op('units.factor')
def _(r, w):
    a, b = unit_pair(r)
    c = r.choice([None, None, 'length', 'weight'])
    return Call(lambda: I('blmath.units').factor(a, b, units_class=c))


@op('units.convert_list')
def _(r, w):
    x, (a, b) = [num(r) for _ in range(r.choice([0, 1, 3, 3, 3, 40]))], same_class(r)
    if r.random() < .1 and x:
        x[r.randrange(len(x))] = r.choice([None, 'x', float('nan'), np.ones(2), 2])
    return Call(lambda: I('blmath.units').convert_list(x, a, b), x)


@op('units.defaults')
def _(r, w):
    s, e = r.choice(['metric', 'united_states', 'martian']), r.choice([None, {'length': 'm'}])
    return Call(lambda: I('blmath.units').default_units(s, e) if e else I('blmath.units').default_units(s), e)


@op('units.to_default')
def _(r, w):
    x, u = num(r), r.choice(UNITS + [None])
    d = {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'}
    s = r.choice(['metric', 'united_states'])
    k = r.random() < .5
    return Call(lambda: I('blmath.units').convert_to_default(x, u, d) if k
                else I('blmath.units').convert_to_system_default(x, u, s), d)


@op('units.prettify')
def _(r, w):
    x, u, p = r.uniform(0, 300), r.choice(UNITS), r.choice([None, None, 0, 1, 2])
    return Call(lambda: I('blmath.units').prettify(x, u, precision=p))


@op('units.lookup')
def _(r, w):
    k, u, c = r.randrange(4), r.choice(UNITS + [None, 'bogus']), r.choice(list(CLASSES) + ['bogus'])

    def go():
        m = I('blmath.units')
        if k == 0:
            return m.units_class(u)
        if k == 1:
            return m.units_in_class(c)
        if k == 2:
            return m.raw(u)
        return sorted(m.all_units), sorted(m.all_units_classes), m.lengths, m.weights, m.angles, m.times, m.time_rates
    return Call(go, alias=(k == 3))


@op('units.object')
def _(r, w):
    c = r.choice(['lengths', 'weights', 'angles', 'times', 'time_rates', 'all_units'])
    if r.random() < .6:
        # one table for several callers
        shared = w._get('units', lambda q: I('blmath.units').Units(), r, n=1)
        k, cls = r.randrange(6), r.choice(list(CLASSES))
        a, b = r.choice(CLASSES[cls]), r.choice(CLASSES[cls] + ['bogus'])

        def many():
            if k == 0:
                return shared.units_in_class(cls)
            if k == 1:
                return list(getattr(shared, c))
            if k == 2:
                return shared.convert(3.5, a, b), shared.factor(a, b)
            if k == 3:
                return sorted(shared.all_units_classes), shared.units_class(b), shared.raw(a)
            if k == 4:
                return shared.default_units('united_states', {cls: a}), shared.convert_to_system_default(2., a, 'united_states')
            return shared.prettify(71.25, b), shared.prettify(1.5, a, precision=1)
        return Call(many)

    def go():
        u = I('blmath.units').Units()
        return list(getattr(u, c))
    return Call(go)


@op('value.make')
def _(r, w):
    x, u = r.choice([num(r), None, 'abc', '3.5', 4]), r.choice(UNITS + [None, 'bogus'])
    return Call(lambda: Value(x, u))


@op('value.convert')
def _(r, w):
    v = w.value(r)
    u = r.choice(UNITS + ['bogus']) if r.random() < .4 else None
    if u is None:
        for c in CLASSES.values():
            if v.units in c:
                u = r.choice(c)
    if r.random() < .1:
        v = Value(num(r), None)
    k = r.randrange(3)

    def go():
        if k == 0:
            return v.convert(u)
        if k == 1:
            return getattr(v, u)
        return v.convert_to_system_default('united_states'), v.convert_to_system_default('metric')
    return Call(go, v, alias=True)


@op('value.arith')
def _(r, w):
    a = w.value(r)
    same = [c for c in CLASSES if a.units in CLASSES[c]]
    b = w.value(r, same[0]) if same and r.random() < .4 else r.choice([w.value(r), a, 2.5, 3, [1., 2.], np.array([1., 2.])])
    k = r.choice(['truediv', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'radd', 'rsub', 'rmul', 'mod', 'pow', 'rdiv', 'by name', 'by name'])
    name = r.choice(['__div__', '__rdiv__', '__rfloordiv__', '__pos__', '__nonzero__', '__unicode__', '__cmp__', '__rtruediv__', '__floordiv__', '__rpow__',
                     '__mod__', '__rsub__', '__float__', '__int__', '__abs__', '__neg__'])

    def go():
        import operator
        if k == 'by name':
            f = getattr(a, name)
            return f() if name in ('__pos__', '__nonzero__', '__unicode__', '__float__', '__int__', '__abs__', '__neg__') else f(b)
        if k == 'pow':
            return a ** 2
        if k[0] == 'r':
            return {'radd': operator.add, 'rsub': operator.sub, 'rmul': operator.mul, 'rdiv': operator.truediv}[k](
                b if not isinstance(b, np.ndarray) else list(b), a)
        return getattr(operator, k)(a, b)
    return Call(go, a, b, alias=(k == 'by name'))


@op('value.compare')
def _(r, w):
    a, b = w.value(r, 'length'), r.choice([w.value(r, 'length'), w.value(r), 3.])
    if r.random() < .4:
        # the same quantity, perhaps in other units
        a = Value(float(r.randint(-9, 9)), r.choice(CLASSES['length']))
        b = r.choice([a, Value(a.value, a.units), a.value] + [a.convert(u) for u in CLASSES['length']])
    return Call(lambda: [a == b, a != b, a < b, a > b, a <= b, a >= b], a, b)


@op('value.text')
def _(r, w):
    a = w.value(r)
    k = r.randrange(8)
    n = r.choice([.1, .25, 5.])
    stored = {'__value__': r.choice([{'value': a.value, 'units': a.units}] * 4 + [{'value': 2.5}, {'value': 1, 'units': None}, {'value': 3., 'units': 'parsec'},
                                                                            {'value': 3., 'unit': 'cm'}, {'units': 'cm'}, {}])}

    def go():
        if k == 0:
            return str(a), repr(a)
        if k == 1:
            return a.for_json(), type(a).from_json(a.for_json())
        if k == 2:
            return a.prettified
        if k == 3:
            return a.round(n)
        if k == 4:
            return round(a, 1), abs(a), -a, float(a), int(a)
        if k == 5:
            return a[0], a[1]
        if k == 6:
            return a.from_json(stored)
        return a[2]
    return Call(go, a, stored)


# ---------------------------------------------------------------------------
# JSON and console

def new_doc(r, depth=0):
    k = r.random()
    if depth > 2 or k < .35:
        return r.choice([None, True, 'text', u'h\u00e9', num(r), r.randint(-9, 9), ''])
    if k < .6:
        return Value(num(r), r.choice(UNITS + [None]))
    if k < .8:
        return [new_doc(r, depth + 1) for _ in range(r.randint(0, 4))]
    return {r.choice('abcdef') + str(i): new_doc(r, depth + 1) for i in range(r.randint(0, 4))}


@op('json.dumps')
def _(r, w):
    d = [new_doc(r), new_doc(r)]
    kw = r.choice([{}, {'indent': 2}, {'sort_keys': True}])
    f = r.random() < .4

    def go():
        m = I('blmath.util.json')
        if f:
            s = io.StringIO()
            m.dump(d, s, **kw)
            return s.getvalue()
        return m.dumps(d, **kw)
    return Call(go, d)


TEXTS = [
    '{"__value__": {"value": 1.5, "units": "cm"}}', '[{"__value__": {"value": 2, "units": null}}, 3]',
    '{"__value__": {"value": 1.5, "units": "bogus"}}', '{"__value__": {"value": null, "units": "cm"}}',
    '{"__ndarray__": [[1, 2], [3, 4]], "dtype": "int32"}', '{"__ndarray__": [1.5, 2]}',
    '{"__scipy.sparse.sparsematrix__": true, "dtype": "float64", "shape": [3, 3], "data": [1.0, 2.0], "format": "csc", "row": [0, 2], "col": [1, 2]}',
    '{"__scipy.sparse.sparsematrix__": true, "dtype": "float64"}', '{"a": [1, 2, {"b": null}]}', '[1, 2', '', '12 13',
    '{"x": {"__value__": {"value": 3, "units": "kg"}}, "y": {"__ndarray__": [], "dtype": "float64"}}']


@op('json.loads')
def _(r, w):
    t, f = r.choice(TEXTS), r.random() < .4
    if r.random() < .2:
        # the hook, on what the caller has parsed
        import json
        d = json.loads(r.choice([x for x in TEXTS if x.startswith('{')]))
        return Call(lambda: I('blmath.util.json').decode_json(d), d, alias=True)
    return Call(lambda: I('blmath.util.json').load(io.StringIO(t)) if f else I('blmath.util.json').loads(t))


@op('console.input')
def _(r, w):
    lines = [r.choice(['', ' ', 'abc', '12 cm', '1,5', '--1', 'nan'] + ['%.3g' % num(r), ' 7 ', '1e3', '-.5']) for _ in range(r.randint(0, 3))]
    if r.random() < .8:
        lines.append('%d.25' % r.randint(-50, 50))
    if r.random() < .3:
        lines.append('99')
    label, u, e = r.choice(['Height', 'waist', u'délka', 'a: b']), r.choice(UNITS + ['bogus', None]), r.random() < .4
    k = r.random() < .4

    def go():
        c = I('blmath.console')
        with keys.Session(lines) as s:
            try:
                out = c.input_float(label, allow_empty=e) if k else c.input_value(label, u, allow_empty=e)
            except EOFError:
                out = 'end of input'
            return out, s.lines, ''.join(s.screen)
    return Call(go, lines)


@op('util.setter_property')
def _(r, w):
    x = num(r)

    def go():
        sp_ = I('blmath.util.decorators').setter_property

        class T(object):
            @sp_
            def a(self, val):
                self.__dict__['a'] = (val, 2)
        t = T()
        first = t.a
        t.a = x
        return first, t.a
    return Call(go)


FAMILIES = sorted(OPS)
# imports only, for cold starts
IMPORTS = ['blmath', 'blmath.units', 'blmath.value', 'blmath.numerics', 'blmath.geometry', 'blmath.geometry.transform',
           'blmath.util.json', 'blmath.console', 'blmath.geometry.convexify', 'blmath.geometry.shapes',
           'blmath.geometry.primitives.plane', 'blmath.geometry.primitives.polyline', 'blmath.geometry.primitives.box',
           'blmath.numerics.vector_shortcuts', 'blmath.numerics.coercion', 'blmath.numerics.linalg.lchol',
           'blmath.geometry.transform.composite', 'blmath.geometry.transform.coordinate_manager',
           'blmath.geometry.transform.rodrigues', 'blmath.geometry.segment', 'blmath.geometry.apex',
           'blmath.numerics.predicates', 'blmath.numerics.rounding']
