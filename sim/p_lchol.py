'''C12: sparse Cholesky when memory runs out or the matrix breaks down.

A job is one matrix.  The call is made once undisturbed, which counts the
allocations CHOLMOD and numpy make and the points where it can be interrupted;
then once for every one of those points (up to a limit), that allocation
failing alone or with all later ones.  After every call: result checked
against the matrix, CHOLMOD's live blocks counted, arguments and reference
counts compared, and a second, known matrix factorised.
'''
import gc
import random
import sys

import numpy as np
import scipy.sparse as sp

import canon
import forkrun
import monitor
import ops
import program
import simnative
from core import Prop, clone, key_of, rng


class Bad(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


def dense_of(s):
    rs = np.random.RandomState(s['seed'])
    n = s['n']
    d = rs.standard_normal((n, n)) * (rs.random_sample((n, n)) < s['density'])
    k = s['kind']
    if k in ('pd', 'pd-scaled', 'arrow', 'band', 'diag', 'laplace'):
        if k == 'arrow':
            a = np.diag(rs.uniform(1, 3, n) * n)
            a[0, :] = a[:, 0] = rs.uniform(-1, 1, n)
            a[0, 0] = 4. * n
        elif k == 'band':
            a = np.diag(np.full(n, 4.))
            for i in range(n - 1):
                a[i, i + 1] = a[i + 1, i] = rs.uniform(-1, 1)
        elif k == 'diag':
            a = np.diag(rs.uniform(.5, 9, n))
        elif k == 'laplace':
            a = np.zeros((n, n))
            for _ in range(3 * n):
                i, j = rs.randint(0, n, 2)
                if i != j:
                    a[i, j] -= 1
                    a[j, i] -= 1
                    a[i, i] += 1
                    a[j, j] += 1
            a += np.eye(n) * .5
        else:
            a = d.dot(d.T) + np.eye(n)
        if k == 'pd-scaled':
            a *= 10. ** rs.randint(-12, 13)
        p = rs.permutation(n)
        return a[np.ix_(p, p)]
    if k == 'indefinite':
        a = d + d.T
        i = rs.randint(n)
        a[i, i] = -1. - abs(a[i, i])
        return a
    if k == 'late':            # breaks down only at one pivot
        a = d.dot(d.T) + np.eye(n)
        i = rs.randint(n)
        w = np.linalg.eigvalsh(a)[-1]
        a[i, i] -= 2 * w
        return a
    if k == 'semi':            # singular, integer so that it is exactly so
        m = rs.randint(-2, 3, (n, max(1, n // 2))).astype(float)
        return m.dot(m.T)
    if k == 'zero':
        return np.zeros((n, n))
    if k == 'negative':
        return -(d.dot(d.T) + np.eye(n))
    if k == 'nonfinite':
        a = d.dot(d.T) + np.eye(n)
        i, j = rs.randint(0, n, 2)
        a[i, j] = a[j, i] = rs.choice([np.nan, np.inf, -np.inf])
        return a
    if k == 'nonsymmetric':
        return d.dot(d.T) + np.eye(n) + np.triu(rs.standard_normal((n, n)), 1)
    if k == 'rect':
        return rs.standard_normal((n, n + rs.randint(1, 4))) if rs.randint(2) else rs.standard_normal((n + rs.randint(1, 4), n))
    if k == 'complex':
        return (d.dot(d.T) + np.eye(n)).astype(complex)
    if k == 'int':
        m = rs.randint(-2, 3, (n, n))
        return m.dot(m.T) + np.eye(n, dtype=int) * 3
    raise ValueError(k)


def matrix(s):
    '''The argument, as the caller has it.'''
    a = dense_of(s)
    if s['n'] == 0:
        a = a.reshape(0, 0)
    fmt = s['format']
    if s['dtype'] and not np.iscomplexobj(a):
        a = a.astype(s['dtype'])
    if fmt == 'dense':
        return a
    if fmt == 'junk':
        return [None, 'matrix', 7, [[1., 0.], [0., 1.]], np.ones(3)][s['seed'] % 5]
    r = random.Random('mx/%s' % s['seed'])
    if fmt in ('unsorted', 'dup', 'explicit', 'corrupt', 'long'):
        m = sp.csc_matrix(a)
        if fmt == 'unsorted':
            for c in range(m.shape[1]):
                x, y = m.indptr[c], m.indptr[c + 1]
                o = list(range(x, y))
                r.shuffle(o)
                m.indices[x:y] = m.indices[o]
                m.data[x:y] = m.data[o]
            m.has_sorted_indices = False
        elif fmt == 'dup':
            c = m.tocoo()
            m = sp.coo_matrix((np.concatenate([c.data / 2, c.data / 2]), (np.concatenate([c.row, c.row]), np.concatenate([c.col, c.col]))), shape=c.shape)
            if r.random() < .5:
                order = np.argsort(m.col, kind='stable')
                ptr = np.searchsorted(m.col[order], np.arange(m.shape[1] + 1))
                m = sp.csc_matrix((m.data[order], m.row[order], ptr), shape=m.shape)
        elif fmt == 'explicit':
            i = np.arange(a.shape[0])
            m = sp.csc_matrix(sp.coo_matrix((np.concatenate([m.tocoo().data, np.zeros(len(i))]),
                                             (np.concatenate([m.tocoo().row, i]), np.concatenate([m.tocoo().col, i[::-1]]))), shape=m.shape))
        elif fmt == 'long':
            m.indices = m.indices.astype(np.int64)
            m.indptr = m.indptr.astype(np.int64)
        elif m.nnz:
            k = s['seed'] % 4
            if k == 0:
                m.indices[r.randrange(m.nnz)] = r.choice([-1, m.shape[0], 10 ** 6])
            elif k == 1:
                m.indptr[-1] += r.choice([1, 1000])
            elif k == 2 and len(m.indptr) > 2:
                m.indptr[1], m.indptr[-2] = m.indptr[-2] + 1, m.indptr[1]
            else:
                m.data = m.data[:-1]
        return m
    m = getattr(sp, fmt + '_matrix')(a)
    return m


SUPPORTED = ('csc', 'csr', 'coo', 'unsorted', 'dup', 'explicit', 'long', 'lil', 'dok', 'bsr', 'dia')


def refs(A):
    out = [sys.getrefcount(A)]
    for k in ('data', 'indices', 'indptr', 'row', 'col'):
        x = getattr(A, '__dict__', {}).get(k)
        if x is not None:
            out.append((k, sys.getrefcount(x)))
    out.append(sys.getrefcount(getattr(A, '__dict__', {}).get('_shape', 0)) if '_shape' in getattr(A, '__dict__', {}) else 0)
    return out


def verdict(A0, out, s, ok_kind):
    '''Is (L, nonpsd, S) true of the matrix?  A0: dense float copy.'''
    if not (isinstance(out, tuple) and len(out) == 3):
        raise Bad('result', 'returned %r' % (type(out),))
    L, bad, S = out
    n = A0.shape[0]
    scale = max(np.abs(A0).max(), 1e-300)
    w = np.linalg.eigvalsh(A0 / scale)
    if not bad:
        if L.shape != (n, n) or S.shape != (n, n):
            raise Bad('result', 'success with L %s, S %s for n=%d' % (L.shape, S.shape, n))
        Sd = np.asarray(S.todense())
        Ld = np.asarray(L.todense())
        if sorted(np.unique(Sd).tolist()) not in ([0., 1.], [1.]) or not np.array_equal(Sd.sum(0), np.ones(n)) or not np.array_equal(Sd.sum(1), np.ones(n)):
            raise Bad('result', 'S is not a permutation')
        if not np.isfinite(Ld).all() or np.abs(np.triu(Ld, 1)).max(initial=0) > 0:
            raise Bad('result', 'L is not a finite lower triangle')
        if w[0] < -1e-9 * n:
            raise Bad('lied', 'success reported for a matrix with eigenvalue %g (largest %g)' % (w[0] * scale, w[-1] * scale))
        res = np.abs(Ld.dot(Ld.T) - Sd.T.dot(A0).dot(Sd)).max()
        if res > 1e-9 * n * scale:
            raise Bad('lied', 'L L^T differs from S^T A S by %g (matrix up to %g)' % (res, scale))
        return 'factorised'
    if w[0] > 1e-7 * w[-1] and w[-1] > 0:
        raise Bad('refused', 'a positive definite matrix (eigenvalues %g to %g) was reported not positive definite' % (w[0] * scale, w[-1] * scale))
    return 'not positive definite'


GOOD = None


def known():
    m = np.array([[4., 1., 0.], [1., 5., 2.], [0., 2., 6.]])
    return sp.csc_matrix(m), m


def live():
    return simnative.ss_stats()['live'], simnative.ss_stats()['bad_free']


def play(job, fault, probes):
    s = job['matrix']
    lchol = ops.I('blmath.numerics.linalg.lchol').lchol
    A = matrix(s)
    was = canon.fingerprint(A)
    gc.collect()
    before = live()
    rc = refs(A)
    np_live = simnative.np_stats()['live']
    rec, raw = program.run_step(Thunk(lambda: lchol(A)), fault)
    if rec['fired']:
        probes['fault: ' + rec['fired']] = probes.get('fault: ' + rec['fired'], 0) + 1
    judged = s['kind'] not in ('nonfinite', 'nonsymmetric', 'rect', 'complex') and s['format'] in SUPPORTED and s['n'] > 0
    if 'mem' in rec:
        what = 'raised'
        if not isinstance(raw, Exception) and not rec['intr']:
            raise Bad('raised', 'raised %r' % raw)
        if judged and not rec['fired']:
            raise Bad('refused', 'undisturbed call raised %s: %s' % (type(raw).__name__, raw))
    else:
        what = 'answered'
        if judged:
            what = verdict(np.asarray(A.todense(), dtype=float), raw, s, True)
        elif s['kind'] in ('rect', 'complex') or s['format'] == 'corrupt' and s['kind'] == 'pd' and s['n'] > 1:
            what = 'answered: unusual input'
    probes[what] = probes.get(what, 0) + 1
    raw = None
    rec.pop('out', None)
    gc.collect()
    now = live()
    if now[1] != before[1]:
        raise Bad('free', 'CHOLMOD was made to free a block it did not allocate')
    if now[0] != before[0]:
        raise Bad('leak', '%d CHOLMOD blocks are still allocated after the call (%s)' % (now[0] - before[0], what))
    left = simnative.np_stats()['live'] - np_live
    rc2 = refs(A)
    if rc2 != rc:
        raise Bad('references', 'reference counts of the argument went from %s to %s (%s)' % (rc, rc2, what))
    if canon.fingerprint(A) != was:
        raise Bad('args', 'the argument was modified (%s)' % what)
    K, D = known()
    rec2, raw2 = program.run_step(Thunk(lambda: lchol(K)))
    if 'mem' in rec2:
        raise Bad('next', 'next call raised %s: %s' % (type(raw2).__name__, raw2))
    if verdict(D, raw2, None, True) != 'factorised':
        raise Bad('next', 'next call failed')
    return rec, left


def leak_watch(lefts):
    '''numpy blocks that stay behind call after call.'''
    return len(lefts) > 6 and all(x > 0 for x in lefts[3:])


def batch(job):
    monitor.set_instr(False)
    probes = {}
    keys = []
    n = 0
    f = {}
    lefts = []
    try:
        if job.get('fault') is not None:
            f = job['fault']
            for _ in range(job.get('times', 1)):
                rec, left = play(job, f or None, probes)
                lefts.append(left)
            if leak_watch(lefts):
                raise Bad('leak', 'every call leaves numpy blocks behind: %s' % lefts)
            return {'viol': None, 'n': 1, 'probes': probes, 'keys': [f], 'fault': f}
        rec, _ = play(job, None, probes)
        n += 1
        keys.append({})
        for f in faults(job, rec):
            n += 1
            play(job, f, probes)
            keys.append(f)
        f = {}
        for _ in range(8):
            _, left = play(job, None, probes)
            lefts.append(left)
        n += 8
        if leak_watch(lefts):
            job = dict(job, times=8)
            raise Bad('leak', 'every call leaves numpy blocks behind: %s' % lefts)
    except Bad as b:
        return {'viol': {'kind': b.kind, 'msg': ('with %s: ' % f if f else '') + str(b)}, 'n': n, 'probes': probes, 'keys': keys, 'fault': f, 'times': job.get('times', 1)}
    return {'viol': None, 'n': n, 'probes': probes, 'keys': keys, 'fault': None}


def faults(job, rec):
    out = []
    for kind, m in (('ss', rec['ss']), ('np', rec['np']), ('intr', rec['ki']), ('memcall', rec['mc'])):
        for at in range(1, m + 1):
            out.append({'kind': kind, 'at': at})
            if kind in ('ss', 'np'):
                out.append({'kind': kind, 'at': at, 'sustained': True})
    r = rng(job['matrix']['seed'], 'lf')
    ss = [f for f in out if f['kind'] == 'ss']
    rest = [f for f in out if f['kind'] != 'ss']
    r.shuffle(ss)
    r.shuffle(rest)
    lim = job['limit']
    return ss[:lim * 3 // 4] + rest[:lim // 4]


def counting(job):
    monitor.set_instr(False)
    rec, _ = play(job, None, {})
    return {k: rec[k] for k in ('ss', 'np', 'ki', 'mc')}


class C12(Prop):
    id = 'C12'

    def make(self, i, seed, tier):
        r = rng(seed, 'C12', i)
        kind = r.choice(['pd'] * 4 + ['pd-scaled', 'arrow', 'band', 'diag', 'laplace', 'laplace', 'indefinite', 'indefinite', 'late', 'late', 'late', 'semi', 'zero',
                                      'negative', 'nonfinite', 'nonsymmetric', 'rect', 'complex', 'int'])
        fmt = r.choice(['csc'] * 8 + ['csr', 'coo', 'unsorted', 'dup', 'explicit', 'long', 'lil', 'dok', 'bsr', 'dia', 'dense', 'corrupt', 'corrupt', 'junk'])
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 30])
        if r.random() < .06:
            n = r.choice([60, 100, 150])
        if r.random() < .01:
            n = 0
        dt = r.choice([None] * 8 + ['float32', 'float64'])
        return {'matrix': {'seed': r.randrange(1 << 30), 'n': n, 'density': r.choice([.05, .2, .5, 1.]), 'kind': kind if n else 'zero', 'format': fmt, 'dtype': dt},
                'limit': 80 if tier == 'quick' else 400}

    def run(self, job, res):
        st = forkrun.run(batch, job, timeout=120)
        if st[0] == 'timeout':
            st = forkrun.run(batch, job, timeout=400)
        if st[0] == 'ok':
            self.take(st[1], job, res)
            return
        if job.get('fault') is not None:
            self.dead(st, job, res)
            return
        base = forkrun.run(counting, job, timeout=120)
        if base[0] != 'ok':
            j = clone(job)
            j['fault'] = {}
            res.n += 1
            self.dead(base, j, res)
            return
        for f in faults(job, base[1]):
            j = clone(job)
            j['fault'] = f
            one = forkrun.run(batch, j, timeout=120)
            if one[0] == 'ok':
                self.take(one[1], j, res)
            else:
                res.n += 1
                self.dead(one, j, res)
            if res.viol:
                return

    def dead(self, st, job, res):
        f = job['fault']
        if f.get('kind') == 'np' and st[0] == 'crash':
            # numpy itself may die of a failed allocation; only a death inside
            # the extension counts
            where = forkrun.run(crashed_in_cholmod, job, timeout=120)
            if where[0] != 'ok':
                res.stats['third-party crash on failed array allocation'] += 1
                return
        res.fail(st[0], '%sthe process died: %s' % ('with %s: ' % f if f else '', st[1]), job)

    def take(self, o, job, res):
        res.n += o['n']
        res.stats.update(o['probes'])
        m = job['matrix']
        res.stats['matrix: ' + m['kind']] += 1
        res.stats['format: ' + m['format']] += 1
        for k in o['keys']:
            res.keys.append(key_of(m, k))
        res.sample = {'matrix': m, 'fault': o['keys'][-1] if o['keys'] else None}
        if o['viol']:
            j = clone(job)
            j['fault'] = o['fault']
            if o.get('times', 1) > 1:
                j['times'] = o['times']
            res.fail(o['viol']['kind'], o['viol']['msg'], j)

    def shrink(self, job):
        m = job['matrix']
        if job.get('fault'):
            j = clone(job)
            j['fault'] = {}
            yield j
        for n in (1, 2, 3, 4, m['n'] // 2, m['n'] - 1):
            if 0 < n < m['n']:
                j = clone(job)
                j['matrix']['n'] = n
                yield j
        for k, v in (('format', 'csc'), ('dtype', None), ('density', .5)):
            if m[k] != v:
                j = clone(job)
                j['matrix'][k] = v
                yield j


def crashed_in_cholmod(job):
    '''Same call with the extension replaced by one that never allocates: if
    this survives, the crash was the extension's.'''
    monitor.set_instr(False)
    s = job['matrix']
    mod = ops.I('blmath.numerics.linalg.cholmod')
    f = dict(job['fault'])
    real = mod.lchol_c
    held = []

    def stand_in(A):
        count, failed = simnative.np_disarm()
        held.append(count)
        raise MemoryError()
    mod.lchol_c = stand_in
    program.run_step(Thunk(lambda: ops.I('blmath.numerics.linalg.lchol').lchol(matrix(s))), f)
    return held
