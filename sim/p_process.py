'''C15: the same calls in differently situated processes.

The reference makes each call first thing in a fork of a process with hash
randomisation off and fresh memory zeroed.  The variants are separately
exec'd interpreters with a seeded PYTHONHASHSEED, in which blmath's modules
are imported in a seeded order, the object heap is shuffled first, fresh and
freed memory holds a seeded pattern, the collector runs at a seeded rate, and
the calls are made one after another in a seeded order.
'''
import atexit
import gc
import importlib
import json
import os
import pickle
import random
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PATTERNS = [0, 0x7ff8000000000000, 0xffffffffffffffff, 0x3ff0000000000000, 0x4059000000000000, 1, 0x7fefffffffffffff, 0xbff0000000000000, 0x0101010101010101,
            0x7ff0000000000000]


def shuffle_heap(r):
    '''Leave Python's small-object pools with holes in a seeded pattern, so
    that later objects get addresses in another order.'''
    kept = []
    for size in (16, 24, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 192, 224, 256, 320, 400, 512):
        objs = [bytes(max(0, size - 33)) + b'x' for _ in range(r.randint(200, 600))]
        r.shuffle(objs)
        keep = r.randint(0, len(objs))
        kept.append(objs[:keep])
        while len(objs) > keep:
            objs.pop()
    lists = [[i] for i in range(r.randint(100, 500))]
    dicts = [{i: i} for i in range(r.randint(100, 500))]
    sets = [{i} for i in range(r.randint(100, 500))]
    for o in (lists, dicts, sets):
        r.shuffle(o)
        del o[r.randint(0, len(o)):]
    kept += [lists, dicts, sets]
    return kept


def execute(job, only=None):
    '''In a fork of a process that has not imported blmath.'''
    import canon
    import monitor
    import ops
    import program
    import simnative
    monitor.set_instr(False)
    v = job.get('variant') if only is None else None
    held = None
    order = list(range(len(job['calls']))) if only is None else [only]
    if v:
        r = random.Random('proc/%s' % v['s'])
        simnative.set_fill(True, v['fill'])
        if v['heap']:
            held = shuffle_heap(r)
        if v['gc']:
            gc.enable()
            gc.set_threshold(v['gc'])
        if v['imports']:
            mods = sorted(set(ops.IMPORTS) | set(v.get('extra', [])))
            r.shuffle(mods)
            for m in mods[:v['imports']]:
                try:
                    importlib.import_module(m)
                except ImportError:
                    pass
        if v['order']:
            r.shuffle(order)
        if v.get('repeat'):
            order = order + order
    else:
        simnative.set_fill(True, 0)
    out = {}
    first = None
    for i in order:
        c = job['calls'][i]
        call = ops.prepare(c['f'], c['s'], ops.World(job['world'], 0.))
        rec, raw = program.run_step(call)
        if i in out:
            d = canon.diff(out[i], rec['out'])
            if d and first is None:
                first = (i, d)
        out.setdefault(i, rec['out'])
        del raw
    return out, first


def elsewhere(module, name, args):
    return getattr(importlib.import_module(module), name)(*args)


def serve():
    import boot
    import forkrun
    boot.boot(os.environ['SIM_SCRATCH'], warm=False)
    out = os.fdopen(os.dup(1), 'wb')
    inp = sys.__stdin__.buffer
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        job = pickle.loads(inp.read(struct.unpack('<Q', head)[0]))
        try:
            if '_call' in job:
                ans = forkrun.run(elsewhere, *job['_call'], timeout=job['timeout'])
            else:
                ans = forkrun.run(execute, job, timeout=job.get('timeout', 60))
        except forkrun.HarnessError as e:
            ans = ('harness', str(e))
        data = pickle.dumps(ans)
        out.write(struct.pack('<Q', len(data)) + data)
        out.flush()


class Server(object):
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), SIM_PAD='x' * (hashseed * 7919 % 4096))
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'p_process.py'), 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd='/')

    def ask(self, job):
        data = pickle.dumps(job)
        self.p.stdin.write(struct.pack('<Q', len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError('process server died')
        return pickle.loads(self.p.stdout.read(struct.unpack('<Q', head)[0]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


servers = {}


def server(hashseed):
    if hashseed not in servers:
        if len(servers) >= 4:
            servers.pop(next(iter(servers))).close()
        servers[hashseed] = Server(hashseed)
    return servers[hashseed]


def close_all():
    for s in servers.values():
        try:
            s.close()
        except Exception:
            pass
    servers.clear()


if __name__ != '__main__':
    import canon
    import forkrun
    import ops
    from core import Prop, clone, key_of, rng

    class C15(Prop):
        id = 'C15'
        warm = False

        def make(self, i, seed, tier):
            r = rng(seed, 'C15', i)
            fams = ops.FAMILIES
            first = fams[i % len(fams)]
            group = [g for g in ops.GROUP.values() if first in g][0]
            calls = [{'f': first, 's': r.randrange(10 ** 6)}]
            for _ in range(r.randint(1, 6)):
                k = r.random()
                calls.append({'f': first if k < .4 else r.choice(group) if k < .8 else r.choice(fams), 's': r.randrange(10 ** 6)})
            n = 4 if tier == 'quick' else 12
            pool = [rng(seed, 'hash', k).randrange(1, 2 ** 31) for k in range(4 if tier == 'quick' else 40)]
            if tier != 'quick':
                k = (i // 200) % 10 * 4         # a worker keeps four processes at a time
                pool = pool[k:k + 4]
            variants = []
            for k in range(n):
                variants.append({'s': r.randrange(1 << 30), 'hash': pool[k % len(pool)], 'fill': r.choice(PATTERNS), 'heap': r.random() < .7, 'gc': r.choice([0, 1, 7, 700]),
                                 'imports': r.choice([0, 0, 3, 30]), 'order': r.random() < .8, 'repeat': r.random() < .3})
            return {'world': r.randrange(1 << 30), 'calls': calls, 'variants': variants}

        def run(self, job, res):
            refs = []
            for i in range(len(job['calls'])):
                st = forkrun.run(execute, job, i, timeout=60)
                if st[0] != 'ok':
                    res.stats['skipped: %s alone' % st[0]] += 1
                    return
                refs.append(st[1][0][i])
            for v in job['variants']:
                one = clone(job)
                one['variant'] = v
                st = server(v['hash']).ask(one)
                res.n += 1
                rep = clone(job)
                rep['variants'] = [v]
                if st[0] == 'harness':
                    raise RuntimeError(st[1])
                if st[0] != 'ok':
                    one['timeout'] = 240
                    st = server(v['hash']).ask(one)
                    if st[0] != 'ok':
                        res.fail(st[0], 'process: %s' % (st,), rep)
                        return
                out, first = st[1]
                for k in ('heap', 'gc', 'imports', 'order', 'repeat'):
                    if v[k]:
                        res.stats['variant: ' + k] += 1
                res.stats['fresh memory holds %016x' % v['fill']] += 1
                res.keys.append(key_of(job['world'], job['calls'], v))
                for i, ref in enumerate(refs):
                    d = canon.diff(ref, out[i])
                    if d:
                        f = job['calls'][i]['f']
                        res.fail('process', '%s: reference vs this process %s' % (f, d[:300]), rep, what=f)
                        return
                if first:
                    f = job['calls'][first[0]]['f']
                    res.fail('process', '%s: first vs second time in a process %s' % (f, first[1][:300]), rep, what=f)
                    return
            res.sample = {'calls': job['calls'], 'variants': job['variants'][:2]}

        def shrink(self, job):
            for i in range(len(job['calls'])):
                if len(job['calls']) > 1:
                    j = clone(job)
                    del j['calls'][i]
                    yield j
            for n in range(len(job['variants'])):
                for k, z in (('imports', 0), ('gc', 0), ('heap', False), ('repeat', False), ('order', False), ('fill', 0), ('hash', 0)):
                    if job['variants'][n][k] != z:
                        j = clone(job)
                        j['variants'][n][k] = z
                        yield j

        def close(self):
            close_all()

if __name__ == '__main__':
    try:
        serve()
    finally:
        os._exit(0)
