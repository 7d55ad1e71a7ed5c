'''Simulated callers: threads of operations, scheduled, faulted and observed.

`execute(job)` runs inside a fork of the pristine process and returns plain
data.  `solo(job, step)` runs one operation first thing in such a fork: the
outcome any interleaving and any history must reproduce.
'''
import gc
import random
import sys
from _thread import get_ident

import numpy as np

import ambient
import canon
import forkrun
import monitor
import ops
import sched
import simnative

STEP_BUDGET = 3000000


def prepare_all(job, world):
    calls = []
    for steps in job['threads']:
        row = []
        for st in steps:
            c = ops.prepare(st['f'], st['s'], world)
            f = st.get('fault') or {}
            if f.get('kind') == 'nest':
                c.nested = {at: ops.prepare(f['f'], f['s'], world) for at in f['ats']}
            if st.get('fork'):
                c.also = [ops.prepare(x['f'], x['s'], world) for x in st['also']]
            row.append(c)
        calls.append(row)
    return calls


class Watch(object):
    '''Notices the first moment an argument differs from what it was.'''
    def __init__(self, arglists, every=1):
        self.args = arglists
        self.every = every
        self.before = [canon.fingerprint(a) for a in arglists]
        self.found = None

    def look(self, where):
        if self.found is not None:
            return
        for i, a in enumerate(self.args):
            if canon.fingerprint(a) != self.before[i]:
                self.found = (i, where)
                return

    def __call__(self, code, offset):
        if self.found is not None:
            return
        monitor.paused = True
        try:
            for i, a in enumerate(self.args):
                if canon.fingerprint(a) != self.before[i]:
                    self.found = (i, monitor.where(code, offset))
                    return
        finally:
            monitor.paused = False


def run_step(call, fault=None, watch=None, arm_np=True):
    '''One operation on the calling thread; never raises.'''
    ident = get_ident()
    st = monitor.Step(fault, watch)
    kind = fault['kind'] if fault else None
    simnative.np_arm(fault['at'] if kind == 'np' else 0, bool(fault.get('sustained')) if kind == 'np' else False)
    simnative.ss_arm(fault['at'] if kind == 'ss' else 0, bool(fault.get('sustained')) if kind == 'ss' else False)
    nested = []
    if kind == 'nest':
        if fault.get('instr'):
            st.instr_at = frozenset(fault['ats'])
        else:
            st.nest_at = frozenset(fault['ats'])
        if fault.get('then'):
            st.ki_at = fault['then']        # the handler raises in the end

        def nest(at):
            # a signal handler, finaliser or callback of the caller's
            monitor.steps.pop(ident, None)
            try:
                o = canon.canon(call.nested[at].thunk())
            except BaseException as e:
                o = canon.canon(e)
                e.__traceback__ = None
            monitor.steps[ident] = st
            nested.append(o)
        st.nest = nest
    monitor.steps[ident] = st
    err = None
    out = None
    if kind == 'stack':
        limit = sys.getrecursionlimit()
        room = monitor.depth() + 1 + fault['at']
        monitor.events(False)       # they would need stack of their own
        try:
            sys.setrecursionlimit(room)
            out = call.thunk()
        except BaseException as e:
            err = e
            st.fired = 'stack'
        finally:
            sys.setrecursionlimit(limit)
            monitor.events(True)
            monitor.steps.pop(ident, None)
    else:
        try:
            out = call.thunk()
        except BaseException as e:
            err = e
        finally:
            monitor.steps.pop(ident, None)
    monitor.paused = True
    try:
        n_np, failed = simnative.np_disarm()
        n_ss, failed_ss = simnative.ss_disarm()
        if failed:
            st.fired = 'np'
        if failed_ss:
            st.fired = 'ss'
        if st.klocs is not None:
            klocs, mlocs = list(st.klocs.values()), list(st.mlocs.values())
        else:
            klocs = mlocs = None
        rec = {'klocs': klocs, 'mlocs': mlocs, 'ki': st.ki, 'mc': st.mc, 'np': n_np, 'ss': n_ss, 'ev': st.events, 'fired': st.fired, 'where': st.where}
        if nested:
            rec['nested'] = nested
        if err is not None:
            rec['out'] = canon.canon(err)
            rec['mem'] = isinstance(err, MemoryError)
            rec['intr'] = isinstance(err, KeyboardInterrupt)
            rec['stack'] = isinstance(err, RecursionError)
            rec['chain'] = _inner(err)
            raw = err
            if not leave_traceback:
                err.__traceback__ = None
            err = None
        else:
            rec['out'] = canon.canon(out)
            raw = out
    finally:
        monitor.paused = False
    return rec, raw


# Set where it matters what an exception holds on to.
leave_traceback = False


def _inner(err):
    '''File of the frame the exception was raised from.'''
    tb = err.__traceback__
    name = ''
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return name


def in_blmath(path):
    return path.startswith(monitor.REPO_PKG)


def forked(call):
    '''The calling thread forks the process there and then; the calls are
    made in the child, in which no other thread exists any more.'''
    monitor.paused = True
    parent = forkrun.Child.fd

    def child():
        # a scheduler with nobody else to run: waiting for a lock that only a
        # vanished thread could release is noticed
        s = sched.Sched([None], sched.SegmentPolicy([]), on_hang=lambda why: forkrun.Child.finish([{'out': ('hang', why)}]))
        s.cur, s.cur_ident, s.left = 0, get_ident(), sched.BIG
        monitor.steps.clear()
        monitor.sched = s
        monitor.record = None
        monitor.paused = False
        return [run_step(c)[0] for c in [call] + call.also]
    try:
        st = forkrun.run(child, timeout=30)
    finally:
        forkrun.Child.fd = parent
        monitor.paused = False
    if st[0] != 'ok':
        return {'out': ('child', st), 'fired': None, 'also': []}
    rec = st[1][0]
    rec['also'] = [x['out'] for x in st[1][1:]]
    rec['fired'] = 'fork'
    return rec


def execute(job, on_hang=None):
    rng = random.Random('exec/%s' % job.get('seed', 0))
    orc = set(job['oracles'])
    if job.get('fill') is not None:
        simnative.set_fill(True, job['fill'])
    world = ops.World(job['world'], job.get('p_share', .5))
    monitor.set_instr(job.get('gran') == 'instr')
    calls = prepare_all(job, world)
    threads = job['threads']
    results = [[None] * len(t) for t in threads]
    res = {'viol': None, 'threads': results}
    watches = {}
    if 'args' in orc:
        for t, row in enumerate(calls):
            for i, c in enumerate(row):
                watches[t, i] = Watch(list(c.args))
    before = None
    if 'settings' in orc:
        ambient.apply_process(job['ambient'])
        before = ambient.read_process()

    def viol(kind, msg, **kw):
        if res['viol'] is None:
            res['viol'] = dict(kind=kind, msg=msg, **kw)

    def body(t):
        def go():
            tb = None
            if 'settings' in orc:
                monitor.paused = True
                ambient.apply_thread('%s/%d' % (job['ambient'], t))
                tb = ambient.read_thread()
                monitor.paused = False
            for i, step in enumerate(threads[t]):
                if step.get('fork'):
                    results[t][i] = forked(calls[t][i])
                    continue
                rec, raw = run_step(calls[t][i], step.get('fault'), watches.get((t, i)))
                results[t][i] = rec
                if tb is not None:
                    monitor.paused = True
                    ch = ambient.changed(tb, ambient.read_thread())
                    monitor.paused = False
                    if ch:
                        viol('settings', '%s after %s' % (ch, step['f']), step=[t, i], what=ch.split(' changed')[0])
                del raw
        return go

    def hang(why):
        viol('hang', why)
        res['trace'] = s.trace
        res['steps'] = s.steps
        res['switches'] = s.switches
        forkrun.Child.finish(on_hang(res) if on_hang else res)

    spec = job.get('sched') or {'kind': 'segments', 'segments': []}
    s = sched.Sched([body(t) for t in range(len(threads))], sched.make_policy(spec, rng),
                    budget=job.get('budget', STEP_BUDGET), on_hang=hang, setup=lambda i: simnative.np_install())
    monitor.paused = False
    s.run()
    monitor.paused = True
    res['trace'] = s.trace
    res['steps'] = s.steps
    res['switches'] = s.switches
    if before is not None:
        ch = ambient.changed(before, ambient.read_process())
        if ch:
            viol('settings', ch, what=ch.split(' changed')[0])
    if 'args' in orc:
        for (t, i), w in sorted(watches.items()):
            w.look('after the call')
            if w.found is not None:
                viol('args', '%s: argument %d was modified (seen at %s)' % (threads[t][i]['f'], w.found[0], w.found[1]),
                     step=[t, i])
    return res


def execute_rounds(job):
    '''Several executions one after the other in one process.'''
    outs = []
    for rd in job['rounds']:
        one = dict(job)
        one.update(rd)
        outs.append(execute(one, lambda res: outs + [res]))
        if outs[-1]['viol']:
            break
    return outs


def survey(job, step):
    one = dict(job)
    step = dict(step)
    step.pop('fault', None)
    one['threads'] = [[step]]
    one['sched'] = None
    one['oracles'] = []
    monitor.record = []
    r = execute(one)
    out = r['threads'][0][0]
    out['steps'] = r['steps']
    out['locs'] = monitor.places(monitor.record)
    monitor.record = None
    return out


def survey_all(job, steps):
    return [survey(job, s) for s in steps]


_cache = {}


def solo(job, step, timeout=60):
    '''Outcome of one operation when it is the first thing its process does.'''
    key = (job['world'], job.get('p_share', .5), step['f'], step['s'], job.get('gran'), job.get('fill'))
    if key not in _cache:
        if len(_cache) > 500:
            _cache.clear()
        st = forkrun.run(survey, job, step, timeout=timeout)
        if st[0] == 'ok' and 'locs' not in st[1]:
            st = ('hang', st[1].get('viol'))        # it does not even end alone
        _cache[key] = st
    return _cache[key]


def references(job, steps):
    '''Outcomes of operations, each on arguments of its own: all in one fork
    if that works.  Good enough to agree with; a disagreement is decided by
    `solo`.'''
    st = forkrun.run(survey_all, job, steps, timeout=60)
    if st[0] == 'ok' and isinstance(st[1], list):
        return [('ok', x) for x in st[1]]
    return [solo(job, s) for s in steps]
