'''C09, C10: JSON on a simulated device.

A job holds one document (as plain data), how streams are opened, what lies in
them already, and lists of device temperaments to go through; every one is an
execution.  Streams are Python's own io classes on a `device.Device`.
'''
import errno
import io
import json
import math
import random
import re

import numpy as np
import scipy.sparse as sp
import simplejson

import canon
import device
import forkrun
import monitor
import ops
import program
from core import Prop, clone, key_of, rng

J = None


def m():
    return ops.I('blmath.util.json')


# ---------------------------------------------------------------------------
# documents: plain specs, what is dumped, and what must come back

DTYPES = ['float64', 'float32', 'int64', 'int32', 'uint8', 'bool', '>f8', '<i2', 'uint64', 'int8', 'float16', '>u4', 'complex-free']


def gen(r, depth=0, big=False):
    k = r.random()
    if depth > 3 or (depth and k < .3):
        return ['s', scalar(r)]
    if k < .45:
        return ['val', fl(r).hex(), r.choice(ops.UNITS + [None])]
    if k < .6:
        dt = r.choice(DTYPES[:-1] + [None])
        shape = r.choice([[3], [0], [2, 3], [4, 1], [2, 2, 2], [1], [], [5, 3]])
        if big and r.random() < .4:
            shape = [r.choice([300, 3000]), 3]
        return ['nd', r.randrange(1 << 30), dt, shape]
    if k < .7:
        return ['sp', r.randrange(1 << 30), r.choice(['float64', 'float32', 'int64']), r.choice(['csc', 'csr', 'coo', 'lil', 'dok', 'bsr']),
                [r.randint(1, 6), r.randint(1, 6)]]
    n = r.randint(0, 4)
    if k < .74 and depth < 3:
        return ['twice', r.randint(1, 3), gen(r, depth + 1)]
    if k < .85:
        return ['list' if r.random() < .8 else 'tuple', [gen(r, depth + 1, big) for _ in range(n)]]
    return ['dict', [[key(r, i), gen(r, depth + 1, big)] for i in range(n)]]


def key(r, i):
    return r.choice(['a', 'key', 'v%d' % i, u'ключ', 'with "quotes"', 'x y', 'value', 'units', '\u2028', 'k%d' % i, '']) + str(i)


def fl(r):
    return r.choice([0.1, 1 / 3., 1e-310, 5e-324, 1.7976931348623157e308, -0.0, 123456789.123456789, 2. ** 53 + 2, 1e22, 1e16, 9007199254740993.0,
                     r.uniform(-1, 1), r.gauss(0, 1e6), r.gauss(0, 1e-6), float(r.randint(-100, 100)), r.random() * 10 ** r.randint(-300, 300)])


def scalar(r):
    k = r.randrange(6)
    if k == 0:
        return fl(r)
    if k == 1:
        return r.choice([0, 1, -1, 2 ** 53 + 1, 10 ** 30, r.randint(-10 ** 9, 10 ** 9)])
    if k == 2:
        return r.choice([True, False, None])
    return r.choice(['', 'text', u'žluťoučký', u'\U0001F600', 'line\nbreak\ttab', '\\"/', u'\u2028\u2029', '\x00\x1f', '__value__', 'x' * r.choice([10, 200]),
                     'NaN', 'null', '</script>', 'cm'])


def array(seed, dt, shape):
    rs = np.random.RandomState(seed)
    a = rs.standard_normal(shape) * 10 ** rs.randint(-3, 4)
    dt = np.dtype(dt or 'float64')
    if dt.kind == 'f':
        return np.array(a, dtype=dt)
    if dt.kind == 'b':
        return np.array(a > 0)
    if seed % 4 == 0:
        # the whole range of the type
        i = np.iinfo(dt)
        return np.asarray(rs.randint(i.min, i.max, size=shape, dtype=dt), dtype=dt)
    return np.array(np.abs(a * 7) % 100 if dt.kind == 'u' else a * 7 % 100).astype(dt)


def coo(seed, dt, fmt, shape):
    rs = np.random.RandomState(seed)
    d = rs.standard_normal(shape) * 5 * (rs.random_sample(shape) < .5)
    c = sp.coo_matrix(np.array(d).astype(dt))
    if seed % 3 == 0 and dt == 'int64':
        c.data[...] = rs.randint(-2 ** 62, 2 ** 62, size=c.data.shape)
    if seed % 5 == 0 and c.nnz:
        # the same place twice, and a zero that is stored
        k = rs.randint(c.nnz)
        c = sp.coo_matrix((np.append(c.data, [c.data[k] // 4 if dt == 'int64' else 1, 0]).astype(dt),
                           (np.append(c.row, [c.row[k], 0]), np.append(c.col, [c.col[k], 0]))), shape=c.shape)
    return c


def build(s):
    t = s[0]
    if t == 's':
        return s[1]
    if t == 'val':
        return ops.Value(float.fromhex(s[1]), s[2])
    if t == 'nd':
        a = array(*s[1:])
        d = {'__ndarray__': a.tolist()}
        if s[2] is not None:
            d['dtype'] = s[2]
            d['shape'] = list(a.shape)
        return d
    if t == 'sp':
        c = coo(*s[1:])
        return {'__scipy.sparse.sparsematrix__': True, 'dtype': s[2], 'shape': list(c.shape), 'data': c.data.tolist(), 'format': s[3],
                'row': c.row.tolist(), 'col': c.col.tolist()}
    if t == 'list':
        return [build(x) for x in s[1]]
    if t == 'tuple':
        return tuple(build(x) for x in s[1])
    if t == 'rep':
        return [build(s[2]) for _ in range(s[1])]
    if t == 'twice':
        # one and the same object in several places
        x = build(s[2])
        return [x] * s[1] + [[x], {'again': x}]
    if t == 'long':
        return ''.join(random.Random(s[2]).choice(u'abc žé"\\\n') for _ in range(s[1]))
    return dict((k, build(v)) for k, v in s[1])


def expect(s):
    '''Same structure as `same` below compares with.'''
    t = s[0]
    if t == 's':
        return s[1]
    if t == 'val':
        return ('Value', float.fromhex(s[1]), s[2])
    if t == 'nd':
        return ('nd', array(*s[1:]))
    if t == 'sp':
        return ('sp', s[3], coo(*s[1:]).toarray())
    if t in ('list', 'tuple'):
        return [expect(x) for x in s[1]]
    if t == 'rep':
        return [expect(s[2])] * s[1]
    if t == 'twice':
        x = expect(s[2])
        return [x] * s[1] + [[x], {'again': x}]
    if t == 'long':
        return build(s)
    return dict((k, expect(v)) for k, v in s[1])


def same(want, got, path='doc'):
    if isinstance(want, tuple):
        if want[0] == 'Value':
            if type(got).__name__ != 'Value':
                return '%s: %r instead of a Value' % (path, got)
            if type(got.value) is not float or got.value.hex() != want[1].hex() or got.units != want[2]:
                return '%s: Value %r %r, stored %r %r' % (path, got.value, got.units, want[1], want[2])
            return None
        if want[0] == 'nd':
            a = want[1]
            if type(got) is not np.ndarray or got.dtype != a.dtype or got.shape != a.shape or got.tobytes() != a.tobytes():
                return '%s: array %s differs from %s' % (path, canon.short(got), canon.short(a))
            return None
        if not sp.issparse(got) or got.format != want[1] or got.dtype != want[2].dtype or got.shape != want[2].shape or \
                not np.array_equal(got.toarray(), want[2], equal_nan=want[2].dtype.kind == 'f'):
            return '%s: sparse matrix %r differs' % (path, got)
        return None
    if isinstance(want, dict):
        if type(got) is not dict or sorted(got) != sorted(want):
            return '%s: %s, expected keys %s' % (path, canon.short(got), sorted(want))
        for k in want:
            d = same(want[k], got[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(want, list):
        if type(got) is not list or len(got) != len(want):
            return '%s: %s instead of a list of %d' % (path, canon.short(got), len(want))
        for i, x in enumerate(want):
            d = same(x, got[i], '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(want, float):
        if type(got) is not float or (got.hex() != want.hex()):
            return '%s: %r instead of %r' % (path, got, want)
        return None
    if type(got) is not type(want) or got != want:
        return '%s: %r instead of %r' % (path, got, want)
    return None


# ---------------------------------------------------------------------------
# what bytes encode, decided without blmath: the value of every annotation,
# as `same` understands it

class NotADocument(Exception):
    pass


class Unclear(Exception):
    '''Annotations inside annotations: what they mean is not laid down.'''


def plain(x):
    if isinstance(x, tuple):
        raise Unclear()
    if isinstance(x, list):
        for y in x:
            plain(y)
    if isinstance(x, dict):
        for y in x.values():
            plain(y)


def decode(data):
    try:
        text = data.decode('utf-8')
        return annotate(simplejson.loads(text))
    except (NotADocument, Unclear):
        raise
    except Exception as e:
        raise NotADocument('%s: %s' % (type(e).__name__, e))


def annotate(x):
    if isinstance(x, list):
        return [annotate(i) for i in x]
    if not isinstance(x, dict):
        return x
    d = dict((k, annotate(v)) for k, v in x.items())
    if '__value__' in d or '__ndarray__' in d or '__scipy.sparse.sparsematrix__' in d:
        plain(d)
    if '__value__' in d:
        v = d['__value__']
        if not isinstance(v, dict) or not set(v) <= {'value', 'units'} or 'value' not in v or v['value'] is None:
            raise NotADocument('value')
        u = v.get('units')
        if u is not None and u not in ops.I("blmath.units").all_units:
            raise NotADocument('units')
        return ('Value', float(v['value']), u)
    if '__ndarray__' in d:
        return ('nd', np.array(d['__ndarray__'], dtype=np.dtype(d['dtype']) if 'dtype' in d else np.float64))
    if '__scipy.sparse.sparsematrix__' in d and set(['dtype', 'shape', 'data', 'format', 'row', 'col']) <= set(d):
        c = sp.coo_matrix((d['data'], (d['row'], d['col'])), shape=d['shape'], dtype=np.dtype(d['dtype']))
        f = c.asformat(d['format'])
        return ('sp', f.format, f.toarray())
    return d


# ---------------------------------------------------------------------------
# executions

class Bad(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind


def quiet(fn):
    '''A call, not under any fault: (value, error).'''
    try:
        return fn(), None
    except Exception as e:
        return None, e


def attempt(fn, fault=None):
    '''(value, error, record); device errors and crashes come back as errors.'''
    rec, raw = program.run_step(Thunk(fn), fault)
    if 'mem' in rec:
        return None, raw, rec
    return raw, None, rec


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


def is_container(spec):
    return spec[0] not in ('s', 'long')


def text_of(job, obj):
    text, err = quiet(lambda: m().dumps(obj, **job['kw']))
    return text, err


def check_load(job, st, dev, want, where):
    f = device.open_read(dev, st['rkind'], st['bufsize'], st.get('enc', 'utf-8'))
    if st['skip']:
        f.seek(st['skip'])
    got, err, rec = attempt(lambda: m().load(f))
    if err is not None:
        raise Bad('load', '%s: load raised %s: %s' % (where, type(err).__name__, err))
    d = same(want, got)
    if d:
        raise Bad('load', '%s: %s' % (where, d))
    if f.closed:
        raise Bad('stream', '%s: load closed the stream' % where)


def flush(f):
    try:
        f.flush()
        return None
    except Exception as e:
        return e


def settle(f, dev):
    '''Drop a stream without letting its destructor write or complain.'''
    dev.spec = {}
    dev.heal()
    try:
        f.detach().detach()
    except Exception:
        pass


def good(job, st, stats):
    '''A device that splits and retries but does not fail.'''
    obj = build(job['doc'])
    want = expect(job['doc'])
    text, err = text_of(job, obj)
    if err is not None:
        raise Bad('dumps', 'dumps raised %s: %s' % (type(err).__name__, err))
    enc = st.get('enc', 'utf-8')
    before = st['prefix'].encode(enc)
    if st['wkind'] == 'string':
        f = io.StringIO(st['prefix'], newline='')
        f.seek(0, 2)
        _, err, _ = attempt(lambda: m().dump(obj, f, **job['kw']))
        if err is not None:
            raise Bad('dump', 'dump to StringIO raised %s: %s' % (type(err).__name__, err))
        if f.closed:
            raise Bad('stream', 'dump closed the stream')
        f.write(st['suffix'])
        now = f.getvalue()
        if now != st['prefix'] + text + st['suffix']:
            raise Bad('stream', 'stream holds %r, expected %r after %r' % (now[:200], text[:200], st['prefix']))
        f.seek(len(st['prefix']))
        got, err, _ = attempt(lambda: m().load(f)) if not st['suffix'].strip() else (None, None, None)
        if err is not None:
            raise Bad('load', 'load raised %s: %s' % (type(err).__name__, err))
        if not st['suffix'].strip():
            d = same(want, got)
            if d:
                raise Bad('load', d)
        got, err = quiet(lambda: m().loads(text))
        if err is not None:
            raise Bad('load', 'loads raised %s: %s' % (type(err).__name__, err))
        d = same(want, got)
        if d:
            raise Bad('load', 'loads: ' + d)
        return
    dev = device.Device(dict(st['dev'], pipe=st.get('pipe')), before)
    dev.pos = len(before)
    if st.get('pipe'):
        stats.append({'pipe': 1})
    f = device.open_write(dev, st['wkind'], st['bufsize'], enc)
    try:
        _, err, _ = attempt(lambda: m().dump(obj, f, **job['kw']))
        if err is not None:
            raise Bad('dump', 'dump raised %s: %s' % (type(err).__name__, err))
        if f.closed or dev.closed:
            raise Bad('stream', 'dump closed the stream')
        f.write(st['suffix'])
        e = flush(f)
        if e is not None:
            raise Bad('stream', 'stream unusable after dump: %s' % e)
        now = bytes(dev.buf)
    finally:
        stats.append(dict(dev.counts))
        settle(f, dev)
    if now != before + text.encode(enc) + st['suffix'].encode(enc):
        raise Bad('stream', 'device holds %d bytes %r..., expected %d bytes: %r + %r... + %r' % (
            len(now), now[:120], len(before) + len(text.encode(enc)) + len(st['suffix']), st['prefix'], text[:100], st['suffix']))
    if canon.diff(canon.canon(build(job['doc'])), canon.canon(obj)):
        raise Bad('args', 'dump changed the object')
    if st['suffix'].strip():
        now = now[:len(now) - len(st['suffix'].encode(enc))]
    pipe = bool(st.get('pipe'))
    dev = device.Device(dict(st['dev'], seed=st['dev'].get('seed', 0) + 1, pipe=pipe), now[len(before):] if pipe else now)
    st = dict(st, skip=0 if pipe else len(before))
    try:
        check_load(job, st, dev, want, 'after dump')
    finally:
        stats.append(dict(dev.counts))


def failing_write(job, st, stats):
    obj = build(job['doc'])
    was = canon.canon(obj)
    want = expect(job['doc'])
    text, err = text_of(job, obj)
    if err is not None:
        raise Bad('dumps', 'dumps raised %s: %s' % (type(err).__name__, err))
    enc = st.get('enc', 'utf-8')
    full = text.encode(enc)
    before = st['prefix'].encode(enc)
    dev = device.Device(st['dev'], before)
    dev.pos = len(before)
    f = device.open_write(dev, st['wkind'], st['bufsize'], enc)
    fault = st.get('fault')
    _, err, rec = attempt(lambda: m().dump(obj, f, **job['kw']), fault)
    ferr = None
    flushed = False
    if err is None:
        ferr = flush_raw(f)
        flushed = ferr is None
    given = dev.given
    stored = bytes(dev.buf)
    stats.append(dict(dev.counts))
    if rec['fired']:
        stats.append({'fault: ' + rec['fired']: 1})
    closed = f.closed
    settle(f, dev)
    if canon.diff(was, canon.canon(obj)):
        raise Bad('args', 'failed dump changed the object')
    crashed = isinstance(err, device.Crash) or isinstance(ferr, device.Crash)
    if closed:
        raise Bad('stream', 'dump closed the stream')
    if err is not None and not crashed:
        if rec['fired'] in ('intr', 'memcall'):
            if not (rec['intr'] or rec['mem']):
                raise Bad('error', 'dump cut short by %s raised %s: %s' % (rec['fired'], type(err).__name__, err))
        elif given is None:
            raise Bad('dump', 'dump raised %s: %s on a working device' % (type(err).__name__, err))
        elif not isinstance(err, OSError) or err.errno != given.errno:
            raise Bad('error', 'device failed with %r, caller got %s: %s' % (given, type(err).__name__, err))
    if err is None and not crashed and given is not None and ferr is None:
        raise Bad('swallowed', 'device failed with %r during dump; dump and flush reported success' % given)
    if flushed and stored != before + full:
        raise Bad('stream', 'dump and flush succeeded, device holds %r... (%d bytes), expected %r... (%d)' % (stored[:100], len(stored), full[:100], len(before + full)))
    # what is on the device is a prefix of the document: it loads in full or not at all
    tail = stored[len(before):]
    if stored[:len(before)] != before:
        raise Bad('stream', 'dump overwrote what was there before')
    if not full.startswith(tail):
        raise Bad('stream', 'device holds something that is not the beginning of the document: %r' % tail[:200])
    if is_container(job['doc']):
        d2 = device.Device({'chunk_r': 4096}, tail)
        r = device.open_read(d2, 'text', 512, enc)
        got, err, _ = attempt(lambda: m().load(r))
        if tail != full:
            if err is None:
                raise Bad('torn', 'load of a document cut at byte %d of %d returned %s' % (len(tail), len(full), canon.short(got)))
        elif err is not None or same(want, got):
            raise Bad('load', 'complete document: %s %s' % (err, err is None and same(want, got)))
    # the same object again, on a working device
    ok = clone(st)
    ok['dev'] = {'seed': 1}
    ok.pop('fault', None)
    good(job, dict(ok, prefix='', suffix=''), stats)


def flush_raw(f):
    try:
        f.flush()
        return None
    except (Exception, device.Crash) as e:
        return e


def failing_read(job, st, stats):
    obj = build(job['doc'])
    want = expect(job['doc'])
    enc = st.get('enc', 'utf-8')
    full = m().dumps(obj, **job['kw']).encode(enc) + ('\n' * st.get('pad', 0)).encode(enc)
    spec = st['dev']
    if st.get('part') is not None:
        # the device gives up so far into the document, or when asked for more than there is
        spec = dict(spec, fail=['r', int(st['part'] * len(full))] + spec['fail'][2:])
    dev = device.Device(spec, full)
    f = device.open_read(dev, st['rkind'], st['bufsize'], enc)
    fault = st.get('fault')
    got, err, rec = attempt(lambda: m().load(f), fault)
    stats.append(dict(dev.counts))
    if rec['fired']:
        stats.append({'fault: ' + rec['fired']: 1})
    given = dev.given
    closed = f.closed
    if rec['fired'] in ('intr', 'memcall') and err is not None:
        if not (rec['intr'] or rec['mem']):
            raise Bad('error', 'load cut short by %s raised %s: %s' % (rec['fired'], type(err).__name__, err))
    elif isinstance(err, device.Crash):
        pass
    elif given is not None:
        if err is None:
            raise Bad('swallowed', 'device failed with %r, load returned %s' % (given, canon.short(got)))
        if not isinstance(err, OSError) or err.errno != given.errno:
            raise Bad('error', 'device failed with %r, caller got %s: %s' % (given, type(err).__name__, err))
    elif err is not None:
        raise Bad('load', 'load raised %s: %s' % (type(err).__name__, err))
    if err is None:
        d = same(want, got)
        if d:
            raise Bad('load', d)
    if closed:
        raise Bad('stream', 'load closed the stream')
    dev2 = device.Device({'seed': 2, 'chunk_r': 700}, full)
    check_load(job, dict(st, skip=0), dev2, want, 'retry after a failed load')


UNCLEAR = object()


def damaged(job, st, stats):
    obj = build(job['doc'])
    full = m().dumps(obj, **job['kw']).encode('utf-8')
    b = bytearray(full)
    how = st['how']
    kind = how[0]
    if kind == 'cut':
        n = how[1] % len(b)
        b = b[:n]
        must = 'cut at byte %d of %d' % (n, len(full))
    elif kind == 'zero':
        a = how[1] % len(b)
        z = min(how[2], len(b) - a)
        b[a:a + z] = b'\0' * z
        must = 'with bytes %d to %d lost (zero)' % (a, a + z)
    elif kind == 'flip':
        for bit in how[1]:
            bit %= len(b) * 8
            b[bit // 8] ^= 1 << (bit % 8)
        must = None
    elif kind == 'splice':
        # a block of the document is an older or another place's content
        a, c, n = how[1] % len(b), how[2] % len(b), how[3]
        b[a:a + n] = b[c:c + n]
        must = None
    elif kind == 'text':
        # one token is another
        tokens = [t.span() for t in TOKEN.finditer(full.decode('utf-8'))]
        if not tokens:
            return False
        x, y = tokens[how[1] % len(tokens)]
        t = full.decode('utf-8')
        new = how[2]
        if new == 'copy':
            p, q = tokens[how[3] % len(tokens)]
            new = t[p:q]
        elif new == 'grow':
            new = t[x:y] + '0'
        b = bytearray((t[:x] + new + t[y:]).encode('utf-8'))
        must = None
    elif kind == 'tail':
        b += how[1].encode()
        must = None
    else:
        raise ValueError(kind)
    stats.append({'damage: ' + kind: 1})
    data = bytes(b)
    if data == full:
        must = None
    dev = device.Device(st['dev'], data)
    f = device.open_read(dev, st['rkind'], st['bufsize'])
    got, err, _ = attempt(lambda: m().load(f))
    try:
        want, no = decode(data), None
    except Unclear:
        want, no = UNCLEAR, None
    except NotADocument as e:
        want, no = None, e
    if err is not None:
        if no is None and data == full:
            raise Bad('load', 'load of the undamaged document raised %s: %s' % (type(err).__name__, err))
        if not isinstance(err, Exception):
            raise Bad('load', 'load raised %s' % type(err).__name__)
    else:
        if must and is_container(job['doc']):
            raise Bad('damaged', 'document %s: load returned %s' % (must, canon.short(got)))
        if no is not None:
            raise Bad('invented', 'load returned %s from %r, which is not a document (%s)' % (canon.short(got), data[:300], no))
        d = want is not UNCLEAR and same_any(want, got)
        if d:
            raise Bad('invented', 'stored %r: %s' % (data[:300], d))
        stats.append({'damaged document still a document': 1})
    # and the next, intact one loads
    dev2 = device.Device({'seed': 2}, full)
    check_load(job, dict(st, skip=0), dev2, expect(job['doc']), 'load after a damaged document')


def same_any(want, got):
    '''Like same, but NaN and object arrays may occur.'''
    if isinstance(want, tuple) and want[0] == 'nd' and want[1].dtype == object:
        return None if type(got) is np.ndarray and got.dtype == object and repr(got) == repr(want[1]) else 'object array differs'
    return same(want, got)


TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|-?[0-9][0-9.eE+-]*|true|false|null')


KINDS = {'good': good, 'write': failing_write, 'read': failing_read, 'damaged': damaged}


def batch(job):
    monitor.set_instr(False)
    stats = []
    keys = []
    for n, st in enumerate(job['streams']):
        try:
            KINDS[st['what']](job, st, stats)
        except Bad as b:
            return {'viol': {'kind': b.kind, 'msg': '%s: %s' % (st['what'], b), 'what': st['what']}, 'at': n, 'n': n + 1, 'stats': stats, 'keys': keys}
        keys.append(st)
    return {'viol': None, 'n': len(job['streams']), 'stats': stats, 'keys': keys}


class JsonProp(Prop):
    def run(self, job, res):
        st = forkrun.run(batch, job, timeout=60)
        if st[0] == 'timeout':
            st = forkrun.run(batch, job, timeout=240)
        if st[0] != 'ok':
            res.n += 1
            res.fail(st[0], 'process: %s' % (st,), job, what='process')
            return
        o = st[1]
        res.n += o['n']
        for c in o['stats']:
            res.stats.update(c)
        for k in o['keys']:
            res.stats['stream: ' + k['what']] += 1
            res.keys.append(key_of(job['doc'], k))
        res.sample = {'doc': str(job['doc'])[:400], 'stream': job['streams'][-1]}
        if o['viol']:
            j = clone(job)
            j['streams'] = [job['streams'][o['at']]]
            again = forkrun.run(batch, j, timeout=60)
            rep = j if again[0] == 'ok' and again[1]['viol'] and again[1]['viol']['kind'] == o['viol']['kind'] else job
            res.fail(o['viol']['kind'], o['viol']['msg'], rep, what=o['viol']['what'])

    def shrink(self, job):
        if len(job['streams']) > 1:
            for i in range(len(job['streams'])):
                j = clone(job)
                del j['streams'][i]
                yield j
        for d in simpler(job['doc']):
            j = clone(job)
            j['doc'] = d
            yield j
        if job['kw']:
            j = clone(job)
            j['kw'] = {}
            yield j
        for i, st in enumerate(job['streams']):
            for k in ('prefix', 'suffix'):
                if st.get(k):
                    j = clone(job)
                    j['streams'][i][k] = ''
                    yield j
            for k in ('chunk_w', 'chunk_r', 'p_short', 'p_eintr'):
                if st.get('dev', {}).get(k):
                    j = clone(job)
                    j['streams'][i]['dev'].pop(k)
                    yield j

    def doc(self, r, i, tier):
        big = i % 40 == 0
        k = r.random()
        if i % 40 == 20 or i % 8 == 3:
            # little but brackets, larger than the usual buffers
            size = r.choice([66000, 70000, 140000]) if i % 40 == 20 else r.choice([600, 4200, 9000, 17000])
            x, w = r.choice([(['list', []], 4), (['dict', []], 4), (['list', [['list', []]]], 6), (['nd', r.randrange(1 << 30), None, [1]], 36), (['val', '0x1.8p+1', 'cm'], 46)])
            d = ['rep', size // w + r.randrange(40), x]
            if r.random() < .5:
                d = ['dict', [['a' * r.randint(1, 9), d]]]
            return d, {}
        if big:
            n = r.choice([200, 1000] if tier == 'quick' else [200, 2000, 9000])
            d = r.choice([['rep', n, gen(r, 2)], ['long', n * 30, r.randrange(1000)], ['dict', [['a', ['rep', n, ['val', fl(r).hex(), 'cm']]], ['b', gen(r, 1, True)]]]])
            if d[0] == 'long':
                d = ['list', [d]]
        else:
            d = gen(r, 0 if k < .1 else 1 if k < .2 else 0)
            if not is_container(d) and r.random() < .7:
                d = ['list', [d, gen(r, 1)]]
        kw = r.choice([{}, {}, {}, {'indent': 2}, {'sort_keys': True}, {'ensure_ascii': False}, {'separators': [',', ':']}, {'indent': '\t', 'ensure_ascii': False}])
        return d, kw

    def encoding(self, r, st, kw):
        '''Streams in other encodings.'''
        if r.random() < .75:
            return
        st['enc'] = r.choice(['utf-16-le', 'utf-32-be'] if kw.get('ensure_ascii') is False else ['ascii', 'ascii', 'latin-1', 'utf-16-le', 'utf-32-be'])
        if st['enc'][:3] == 'utf' and st['rkind'] == 'binary':
            st['rkind'] = 'text'
        if st['enc'][:3] != 'utf':
            st['prefix'] = st['prefix'].replace(u'ž', 'z')

    def dev(self, r):
        return {'seed': r.randrange(1 << 30), 'chunk_w': r.choice([0, 0, 1, 3, 17, 100, 4096]), 'chunk_r': r.choice([0, 0, 1, 2, 5, 33, 1000]),
                'p_short': r.choice([0, .3, .8]), 'p_eintr': r.choice([0, .1, .4])}


def simpler(s):
    t = s[0]
    if t in ('list', 'tuple'):
        for x in s[1]:
            if is_container(x):
                yield x
        for i in range(len(s[1])):
            yield [t, s[1][:i] + s[1][i + 1:]]
        for i, x in enumerate(s[1]):
            for y in simpler(x):
                yield [t, s[1][:i] + [y] + s[1][i + 1:]]
    elif t == 'dict':
        for k, x in s[1]:
            if is_container(x):
                yield x
        for i in range(len(s[1])):
            yield [t, s[1][:i] + s[1][i + 1:]]
        for i, (k, x) in enumerate(s[1]):
            for y in simpler(x):
                yield [t, s[1][:i] + [[k, y]] + s[1][i + 1:]]
    elif t == 'twice':
        yield s[2]
        for y in simpler(s[2]):
            yield ['twice', s[1], y]
    elif t == 'rep':
        for n in (1, s[1] // 2):
            if n and n < s[1]:
                yield [t, n, s[2]]
    elif t == 'long' and s[1] > 1:
        yield [t, s[1] // 2, s[2]]
    elif t == 's' and s[1] != 1:
        yield ['s', 1]


class C09(JsonProp):
    id = 'C09'

    def make(self, i, seed, tier):
        r = rng(seed, 'C09', i)
        doc, kw = self.doc(r, i, tier)
        out = []
        big = i % 20 == 0 or i % 8 == 3
        for _ in range(4 if big else 10 if tier == 'quick' else 30):
            dev = self.dev(r)
            if big:
                dev['chunk_w'], dev['chunk_r'] = r.choice([0, 1000, 4097]), r.choice([0, 1000, 4096, 70000])
                dev['p_eintr'] = r.choice([0, .1])
            out.append({'what': 'good', 'dev': dev, 'wkind': r.choice(['text', 'random', 'through', 'line', 'string']),
                        'rkind': r.choice(['text', 'text', 'random', 'binary', 'pieces']), 'bufsize': r.choice([512, 8192] if big else [1, 16, 64, 512, 8192]),
                        'prefix': r.choice(['', '', '', 'before\n', '{"other": 1}\n', 'x' * 100, u'ž']), 'suffix': r.choice(['', '', '\n', ' ', '\ntail'])})
            if out[-1]['wkind'] != 'random' and out[-1]['rkind'] != 'random' and r.random() < .3:
                out[-1]['pipe'] = True
            self.encoding(r, out[-1], kw)
        return {'doc': doc, 'kw': kw, 'streams': out}


class C10(JsonProp):
    id = 'C10'

    def make(self, i, seed, tier):
        r = rng(seed, 'C10', i)
        doc, kw = self.doc(r, i, tier)
        big = i % 20 == 0 or i % 8 == 3
        n = 4 if big else 10 if tier == 'quick' else 30
        size = 40000 if big else 200
        out = []
        for _ in range(n):
            dev = self.dev(r)
            if big:
                dev['chunk_w'], dev['chunk_r'], dev['p_eintr'] = r.choice([0, 1000, 4097]), r.choice([0, 1000, 70000]), 0
            at = r.choice([0, 1, r.randrange(size), r.randrange(20), r.randrange(3 * size)])
            st = {'dev': dev, 'wkind': r.choice(['text', 'random', 'through', 'line']), 'rkind': r.choice(['text', 'text', 'random', 'binary', 'pieces']),
                  'bufsize': r.choice([512, 8192] if big else [1, 16, 64, 512, 8192]), 'prefix': r.choice(['', '', 'before\n', 'x' * 50]), 'suffix': ''}
            k = r.random()
            if k < .45:
                self.encoding(r, st, kw)
            if k < .3:
                st['what'] = 'write'
                if r.random() < .75:
                    dev['fail'] = ['w', at, r.choice([errno.ENOSPC, errno.EIO, errno.EIO, errno.EDQUOT, errno.EPIPE, 'crash']), r.choice(['once', 'always', 'always'])]
                if r.random() < .3 or 'fail' not in dev:
                    st['fault'] = {'kind': r.choice(['intr', 'memcall']), 'at': r.randint(1, 12)}
            elif k < .45:
                st['what'] = 'read'
                if r.random() < .75:
                    dev['fail'] = ['r', at, r.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.ECONNRESET, 'crash']), 'always']
                    if r.random() < .7:
                        st['part'] = r.choice([0., 1., 1., r.random(), r.random()])
                st['pad'] = r.choice([0, 0, 0, 1, 50, 5000, 20000]) if not dev['chunk_r'] or dev['chunk_r'] > 30 else 0
                if r.random() < .3 or 'fail' not in dev:
                    st['fault'] = {'kind': r.choice(['intr', 'memcall']), 'at': r.randint(1, 30)}
            else:
                st['what'] = 'damaged'
                st['how'] = r.choice([
                    ['cut', r.randrange(1 << 20)], ['cut', r.randrange(1 << 20)], ['cut', -1 - r.randrange(4)],
                    ['zero', r.randrange(1 << 20), r.choice([1, 4, 16, 512, 4096])], ['zero', -1 - r.randrange(8), 8],
                    ['flip', [r.randrange(1 << 24)]], ['flip', [r.randrange(1 << 24) for _ in range(r.randint(2, 5))]],
                    ['splice', r.randrange(1 << 20), r.randrange(1 << 20), r.choice([1, 8, 512])],
                    ['text', r.randrange(1 << 20), r.choice(['"furlongs"', '""', '"in"', '"unit"', '7', '-1', 'null', '"cm "', '"CM"', '"__value__"', '"__ndarray__"',
                                                             '"float32"', '"csr"', '[]', '{}', 'true', '1e999', 'copy', 'copy', 'copy', 'grow']), r.randrange(1 << 20)],
                    ['text', r.randrange(1 << 20), 'copy', r.randrange(1 << 20)], ['text', r.randrange(1 << 20), '"furlongs"', 0],
                    ['tail', r.choice(['x', '{}', ' 1', ']', '\n[]', '\n'])]])
            out.append(st)
        return {'doc': doc, 'kw': kw, 'streams': out}
