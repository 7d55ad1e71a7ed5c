'''Stand-ins for third-party packages that are not installed here.

`chumpy` (does not import on this Python) and `lace` (not installed).  Only as
much of each as blmath's own code needs to run.  They are stubs: nothing in
them is under test.
'''
import copy as _copy
import sys
import types

import numpy as np
import scipy.sparse as sp


class Mesh(object):
    '''The part of lace.mesh.Mesh that blmath touches.'''
    def __init__(self, v=None, f=None):
        self.v = v
        self.f = f

    def set_vertex_colors(self, vc):
        self.vc = vc
        return self

    def copy(self):
        return Mesh(None if self.v is None else np.array(self.v), None if self.f is None else np.array(self.f))


class PlainMesh(object):
    '''Something with vertices but no copy method of its own.'''
    def __init__(self, v=None, f=None):
        self.v = v
        self.f = f


class Lines(object):
    def __init__(self, v=None, e=None, vc=None):
        self.v, self.e, self.vc = v, e, vc

    def getvalue(self):
        return repr((np.asarray(self.v).tolist() if self.v is not None else None,
                     np.asarray(self.e).tolist() if self.e is not None else None, self.vc))


def quads_to_tris(quads):
    quads = np.asarray(quads)
    out = np.empty((2 * len(quads), 3), dtype=quads.dtype)
    out[0::2] = quads[:, [0, 1, 2]]
    out[1::2] = quads[:, [0, 2, 3]]
    return out


class Ch(object):
    '''chumpy.Ch, reduced to: declared terms, on_changed, compute_r, r, dr_wrt,
    expressions given as a function of their terms.'''
    terms = ()
    dterms = ()
    term_order = ()

    def __init__(self, *args, **kwargs):
        names = self._all()
        if args and type(self) is Ch:
            fn, args = args[0], ()
            object.__setattr__(self, '_fn', fn)
            names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
            object.__setattr__(self, '_own', tuple(names))
        object.__setattr__(self, '_names', tuple(names))
        order = tuple(self.term_order) or self._names
        for n, a in zip(order, args):
            kwargs[n] = a
        for n, a in kwargs.items():
            object.__setattr__(self, n, a)
        self.on_changed(set(kwargs))

    @classmethod
    def _all(cls):
        t = (cls.terms,) if isinstance(cls.terms, str) else tuple(cls.terms)
        d = (cls.dterms,) if isinstance(cls.dterms, str) else tuple(cls.dterms)
        return t + d

    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if name in self._names:
            self.on_changed({name})

    def on_changed(self, which):
        pass

    def _expr(self):
        return self._fn(*[getattr(self, n) for n in self._own])

    def compute_r(self):
        return self._expr().r

    def compute_dr_wrt(self, wrt):
        return self._expr().dr_wrt(wrt)

    @property
    def r(self):
        return self.compute_r()

    @property
    def size(self):
        return np.asarray(self.r).size

    @property
    def shape(self):
        return np.asarray(self.r).shape

    def dr_wrt(self, wrt):
        if wrt is self:
            return sp.identity(self.size, format='csc')
        if hasattr(self, '_fn'):
            return self._expr().dr_wrt(wrt)
        out = None
        for n in (self.dterms,) if isinstance(self.dterms, str) else self.dterms:
            t = getattr(self, n)
            if t is wrt:
                d = self.compute_dr_wrt(t)
            elif isinstance(t, Ch):
                d = t.dr_wrt(wrt)
                if d is not None:
                    d = self.compute_dr_wrt(t).dot(d)
            else:
                d = None
            if d is not None:
                out = d if out is None else out + d
        return out

    def reshape(self, *shape):
        return Lazy(lambda x: x.reshape(*shape), self)

    def __pow__(self, n):
        return Lazy(lambda x: x ** n, self)

    def __truediv__(self, other):
        return Lazy(lambda x, y: x / y, self, other)


class Lazy(Ch):
    '''Some function of other expressions, without derivatives.'''
    def __init__(self, fn, *args):
        object.__setattr__(self, 'fn', fn)
        object.__setattr__(self, 'args', args)
        Ch.__init__(self)

    def compute_r(self):
        return self.fn(*[a.r if isinstance(a, Ch) else a for a in self.args])


class MatVecMult(Ch):
    terms = ('mtx',)
    dterms = ('vec',)

    def compute_r(self):
        return self.mtx.dot(self.vec.r.ravel()).ravel()

    def compute_dr_wrt(self, wrt):
        return self.mtx if wrt is self.vec else None


def ch_sum(x, axis=None):
    return Lazy(lambda a: np.sum(a, axis=axis), x)


class ChArray(Ch):
    '''A leaf: the numbers themselves.'''
    terms = ('x',)

    def compute_r(self):
        return self.x

    def compute_dr_wrt(self, wrt):
        return None


class MeshViewer(object):
    def __init__(self, *args, **kwargs):
        self.shown = []

    def set_dynamic_meshes(self, meshes):
        self.shown.append([(np.array(m.v), list(m.f), m.vc) for m in meshes])


def depends_on(*names):
    def wrap(fn):
        return property(fn)
    return wrap


def install():
    ch = types.ModuleType('chumpy')
    ch.Ch = Ch
    ch.depends_on = depends_on
    ch.MatVecMult = MatVecMult
    ch.sum = ch_sum
    sys.modules['chumpy'] = ch
    lace = types.ModuleType('lace')
    lace.__path__ = []
    topology = types.ModuleType('lace.topology')
    topology.quads_to_tris = quads_to_tris
    lines = types.ModuleType('lace.lines')
    lines.Lines = Lines
    mesh = types.ModuleType('lace.mesh')
    mesh.Mesh = Mesh
    viewer = types.ModuleType('lace.meshviewer')
    viewer.MeshViewer = MeshViewer
    lace.topology, lace.lines, lace.mesh, lace.meshviewer = topology, lines, mesh, viewer
    for m in (lace, topology, lines, mesh, viewer):
        sys.modules[m.__name__] = m
