'''Reduce any outcome to plain data, compare outcomes, fingerprint arguments.'''
import hashlib
import math
import re

import numpy as np
import scipy.sparse as sp

ADDR = re.compile(r'0x[0-9a-fA-F]+')
RTOL, ATOL = 1e-7, 1e-9


def canon(x, depth=0):
    if depth > 12:
        return ('deep',)
    d = depth + 1
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, complex):
        return ('complex', x.real, x.imag)
    if isinstance(x, BaseException):
        text = ADDR.sub('0x', str(x))
        if type(x).__name__ == 'QhullError':
            text = text.split('\n')[0]         # the rest has run numbers and timings
        return ('exc', type(x).__name__, text[:500])
    if isinstance(x, np.ma.MaskedArray):
        return ('ma', canon(x.filled(0), d), canon(np.ma.getmaskarray(x), d))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('ndobj', x.shape, [canon(i, d) for i in x.ravel().tolist()])
        tag = 'matrix' if isinstance(x, np.matrix) else 'nd'
        return (tag, x.dtype.kind, x.shape, np.array(x, subok=False).copy())
    if sp.issparse(x):
        c = x.tocoo()
        dense = np.zeros(c.shape, dtype=c.dtype)
        np.add.at(dense, (c.row, c.col), c.data)
        return ('sparse', x.format, ('nd', dense.dtype.kind, dense.shape, dense))
    if isinstance(x, dict):
        return ('dict', [(canon(k, d), canon(v, d)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((canon(i, d) for i in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if type(x) in (list, tuple) else 'tuple', [canon(i, d) for i in x])
    if isinstance(x, type({}.keys())) or isinstance(x, type({}.values())):
        return ('list', [canon(i, d) for i in x])
    if isinstance(x, range):
        return ('list', list(x))
    name = type(x).__name__
    if name == 'Polyline':
        return ('Polyline', canon(x.v, d), bool(x.closed), canon(x.e, d))
    if name == 'Plane':
        return ('Plane', canon(x.reference_point, d), canon(x.normal, d))
    if name == 'Value':
        return ('Value', canon(x.value, d), canon(x.units, d))
    if name == 'Box':
        return ('Box', canon(x.origin, d), canon(x.shape, d))
    if name == 'Mesh':
        return ('Mesh', canon(x.v, d), canon(x.f, d))
    if name == 'CompositeTransform':
        return ('CompositeTransform', canon(x.matrix_for(), d), canon(x.matrix_for(reverse=True), d))
    if name == 'StaticBlockSparseMatrix':
        return ('SBSM', x.shape, canon(x.block_ss, d), canon(x.block_dd, d), canon(x.block_sd, d), canon(x.block_ds, d))
    if hasattr(type(x), 'getvalue'):
        return ('stream', x.getvalue())
    if isinstance(x, type):
        return ('type', x.__name__)
    if isinstance(x, np.dtype):
        return ('dtype', str(x))
    if callable(x):
        return ('callable', getattr(x, '__name__', '?'))
    return ('obj', name, ADDR.sub('0x', repr(x))[:300])


def _close(a, b):
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= ATOL + RTOL * max(abs(a), abs(b))


def diff(a, b, path=''):
    '''None when equal (floating point to a tolerance), else a short text.'''
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b) else '%s: %r vs %r' % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if _close(float(a), float(b)) else '%s: %r vs %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, short(a), short(b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return '%s: shape %s vs %s' % (path, a.shape, b.shape)
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                scale = np.nanmax(np.abs(np.where(np.isfinite(a), a, 0))) if a.size else 0.
                ok = np.isclose(a, b, rtol=RTOL, atol=ATOL + RTOL * float(scale), equal_nan=True)
            if not np.all(ok):
                return '%s: %s vs %s' % (path, short(a), short(b))
            return None
        return None if np.array_equal(a, b) else '%s: %s vs %s' % (path, short(a), short(b))
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %s vs %s' % (path, short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if a == b or (isinstance(a, str) and alike(a, b)):
        return None
    return '%s: %s vs %s' % (path, short(a), short(b))


NUMBER = re.compile(r'(-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?)')


def alike(a, b):
    """The same text but for the last bits of numbers in it."""
    if abs(len(a) - len(b)) > 40:
        return False
    p, q = NUMBER.split(a), NUMBER.split(b)
    return len(p) == len(q) and all(x == y if i % 2 == 0 else _close(float(x), float(y)) for i, (x, y) in enumerate(zip(p, q)))


def short(x, n=160):
    s = np.array2string(x, threshold=12, precision=6) if isinstance(x, np.ndarray) else repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def digest(c):
    '''A hash that ignores the last bits of floating point numbers.'''
    h = hashlib.blake2b(digest_size=8)

    def go(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            if x.dtype.kind in 'fc':
                for v in x.ravel().tolist():
                    go(v)
            else:
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b'(')
            for i in x:
                go(i)
            h.update(b')')
        elif isinstance(x, float):
            h.update(('%.6g' % (x + 0.0)).encode())
        else:
            h.update(repr(x).encode())
    go(c)
    return h.hexdigest()


# ---------------------------------------------------------------------------
# fingerprints of arguments: what a caller can see of them, cheap enough to
# take at every scheduling point

def fingerprint(x, depth=0):
    t = type(x)
    if t in (int, float, str, bool, bytes) or x is None:
        return x if x == x else 'nan'
    if depth > 6:
        return 'deep'
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('O', x.shape, [fingerprint(i, depth + 1) for i in x.ravel().tolist()])
        return (x.tobytes(), x.shape, x.strides, x.dtype.str, x.flags.writeable)
    if t in (list, tuple):
        return (t.__name__, [fingerprint(i, depth + 1) for i in x])
    if isinstance(x, dict):
        return [(k, fingerprint(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if sp.issparse(x):
        parts = [x.format, x.shape]
        for n in ('data', 'indices', 'indptr', 'row', 'col'):
            a = x.__dict__.get(n)
            if isinstance(a, np.ndarray):
                parts.append(fingerprint(a))
        return parts
    n = t.__name__
    if n == 'Polyline':
        return (n, fingerprint(x.v), bool(x.closed), fingerprint(x.e))
    if n == 'Plane':
        return (n, fingerprint(x.reference_point), fingerprint(x.normal))
    if n == 'Value':
        return (n, fingerprint(x.value), x.units)
    if n == 'Box':
        return (n, fingerprint(x.origin), fingerprint(x.shape))
    if n == 'Mesh':
        return (n, fingerprint(x.v), fingerprint(x.f))
    if n == 'CompositeTransform':
        return (n, fingerprint(x.matrix_for()), fingerprint(x.matrix_for(reverse=True)))
    return n


def arrays_in(x, out=None, depth=0):
    '''numpy arrays visible to a caller through x'''
    if out is None:
        out = []
    if depth > 6:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple, set)):
        for i in x:
            arrays_in(i, out, depth + 1)
    elif isinstance(x, dict):
        for i in x.values():
            arrays_in(i, out, depth + 1)
    elif sp.issparse(x):
        for n in ('data', 'indices', 'indptr', 'row', 'col'):
            a = x.__dict__.get(n)
            if isinstance(a, np.ndarray):
                out.append(a)
    else:
        n = type(x).__name__
        names = {'Polyline': ('v', 'e'), 'Plane': ('reference_point', 'normal'),
                 'Box': ('origin', 'shape'), 'Mesh': ('v', 'f')}.get(n, ())
        for a in names:
            arrays_in(getattr(x, a), out, depth + 1)
    return out
