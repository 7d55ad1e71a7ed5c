#!/usr/bin/env python3
'''Deterministic simulation of blmath.

    simctl.py check PROP [--tier quick|thorough] [--seed N] [--workers N]
    simctl.py replay FILE
    simctl.py selftest            (determinism of the simulator itself)

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
'''
import argparse
import collections
import ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import build
import worker


class CheckError(Exception):
    pass


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def spawn(args, scratch, log, env=None):
    e = build.base_env()
    e['SIM_SCRATCH'] = scratch
    for k in ('SIM_STDERR',):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(env or {})
    return subprocess.Popen([build.PY, os.path.join(HERE, 'worker.py')] + [str(a) for a in args],
                            cwd='/', env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log, preexec_fn=no_aslr)


def read_log(path):
    with open(path, errors='replace') as f:
        return f.read()[-3000:]


def one(name, job, scratch, minimise=None, env=None):
    '''Run one job in a fresh process.'''
    d = tempfile.mkdtemp(dir=scratch)
    jp, op, lp = (os.path.join(d, n) for n in ('job', 'out', 'log'))
    with open(jp, 'w') as f:
        json.dump(job, f)
    with open(lp, 'w') as log:
        args = ['one', name, jp, op] + (['minimise', minimise] if minimise else [])
        p = spawn(args, scratch, log, env)
        try:
            p.wait(timeout=300 + (minimise or 0))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise CheckError('replay timed out')
    if p.returncode or not os.path.exists(op):
        raise CheckError('worker failed (%s):\n%s' % (p.returncode, read_log(lp)))
    with open(op) as f:
        return json.load(f)


def check(name, tier, seed, workers, out=sys.stdout):
    t0 = time.monotonic()
    p = None
    scratch = build.build()
    try:
        t_build = time.monotonic() - t0
        sys.path.insert(0, HERE)
        meta = json.load(open(os.path.join(HERE, 'budget.json')))[name]
        count = int(os.environ.get('SIM_RUNS') or meta['runs'][tier])
        cap = float(os.environ.get('SIM_CAP') or meta['cap'][tier])
        procs = []
        for w in range(workers):
            op, lp = os.path.join(scratch, 'out%d' % w), os.path.join(scratch, 'log%d' % w)
            log = open(lp, 'w')
            procs.append((spawn(['run', name, seed, tier, w, workers, count, cap, op], scratch, log), op, lp, log))
        outs = []
        problems = []
        for p, op, lp, log in procs:
            try:
                p.wait(timeout=max(1, cap + 200 - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problems.append('worker exceeded its time: ' + read_log(lp))
                continue
            log.close()
            if p.returncode or not os.path.exists(op):
                problems.append('worker failed (%s):\n%s' % (p.returncode, read_log(lp)))
            else:
                with open(op) as f:
                    outs.append(json.load(f))
        wall = time.monotonic() - t0
        unjudged = [e for o in outs for e in o['errors']]
        if len(unjudged) > max(2, sum(o['done'] for o in outs) // 200):
            problems.extend(unjudged[:3])
        stats = collections.Counter()
        keys = set()
        for o in outs:
            stats.update(o['stats'])
            keys.update(o['keys'])
        fails = sorted((f for o in outs for f in o['fails']), key=lambda f: f['i'])
        known = worker.load_known(name)
        seen_known = collections.OrderedDict()
        fresh = []
        for f in fails:
            k = worker.match_known(known, f['viol'])
            if k:
                seen_known.setdefault(k, f)
            else:
                fresh.append(f)
        execs = sum(o['n'] for o in outs)
        code = 0
        found = None
        unconfirmed = []
        for f in fresh[:4]:
            found, code = report(name, f, scratch, seed, tier, problems)
            if code == 1:
                break
            # not a finding: something other than the seed decided it
            unconfirmed.append(found)
            print('NOTE: seen once and not on replay: %s' % json.dumps(found), file=out)
            found = None
        for k in known:
            d = json.loads(k)
            print('KNOWN-FINDING: property=%s %s' % (name, d.get('text', k)), file=out)
        ev = {
            'property': name, 'tier': tier, 'seed': seed, 'level': meta['level'], 'wall_s': round(wall, 2),
            'coverage': {
                'evaluations': execs,
                'distinct_nontrivial': len(keys),
                'rule': meta['rule'],
                'samples': [s for o in outs for s in o['samples']][:4],
                'runs': sum(o['done'] for o in outs),
                'runs_planned': count,
                'all_planned_runs_done': all(o['complete'] for o in outs) and not problems,
                'seeds': {'batch_seed': seed, 'run_seed': 'run i draws everything from (batch seed, property, i)'},
                'executions_per_hour': int(execs * 3600 / wall) if wall else 0,
                'workers': workers,
                'processes_forked': sum(o['forks'] for o in outs),
                'simulated_time': 'blmath reads no clock and sets no timer: there is no simulated time; progress is counted in '
                                  'interpreter events (scheduler_steps)',
                'counts': dict(sorted(stats.items())),
                'real_components': meta['real'],
                'stub_components': meta['stub'],
                'build_s': round(t_build, 2),
            },
        }
        if found:
            ev['violation'] = found
        if unconfirmed:
            ev['coverage']['seen_once_not_on_replay'] = unconfirmed
        if unjudged:
            ev['coverage']['runs_not_judged'] = len(unjudged)
            ev['coverage']['runs_not_judged_why'] = unjudged[:3]
            print('NOTE: %d runs could not be judged: %s' % (len(unjudged), unjudged[0].strip().splitlines()[-1]), file=out)
        if problems:
            ev['problems'] = problems
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % name)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % name))
        print('%s %s: %d executions in %d runs, %d distinct, %.1f s' % (
            name, tier, execs, ev['coverage']['runs'], len(keys), wall), file=out)
        if code == 1:
            print('  %s: %s' % (found['kind'], found['msg']), file=out)
            print('VIOLATION property=%s replay=%s' % (name, found['replay']), file=out)
            return 1
        if problems:
            print('CHECK ERROR: ' + '\n'.join(problems), file=out)
            return 2
        if code:
            return code
        if execs == 0 or len(keys) == 0:
            print('CHECK ERROR: nothing was explored', file=out)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(name, fail, scratch, seed, tier, problems):
    '''Minimise, save, and confirm in a fresh process.'''
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay-%s-%s-%d.json' % (name, seed, fail['i']))
    best, viol = fail['job'], fail['viol']
    mini = None
    try:
        mini = one(name, fail['job'], scratch, minimise=60)
        if mini['viol']:
            best, viol = mini['job'], mini['viol']
    except CheckError as e:
        problems.append('minimiser: %s' % e)
    confirmed = 0
    for cand, v in ((best, viol), (fail['job'], fail['viol'])):
        for _ in range(2 if cand is best and best is not fail['job'] else 4):
            if confirmed == 2:
                break
            try:
                again = one(name, cand, scratch)
                if again['viol'] and not worker.match_known(worker.load_known(name), again['viol']):
                    confirmed += 1
            except CheckError as e:
                problems.append('replay: %s' % e)
        if confirmed:
            best, viol = cand, v
            break
    doc = {'property': name, 'batch_seed': seed, 'run': fail['i'], 'tier': tier, 'violation': viol, 'job': best,
           'original': {'violation': fail['viol'], 'job': fail['job']},
           'minimised': {'tried': mini['tried'], 'accepted': mini['accepted']} if mini else None,
           'replayed_in_fresh_process': '%d of 2' % confirmed}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    found = dict(viol)
    found['replay'] = path
    found['replayed'] = doc['replayed_in_fresh_process']
    return found, 1 if confirmed else 0


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    scratch = build.build()
    try:
        r = one(doc['property'], doc['job'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r['viol']:
        print('  %s: %s' % (r['viol']['kind'], r['viol']['msg']))
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    print('no violation')
    return 0


def selftest():
    '''Does everything build and boot, and do the same seeds give the same runs?'''
    scratch = build.build()
    try:
        got = []
        for hashseed in ('0', '77'):
            op = os.path.join(scratch, 'out')
            lp = os.path.join(scratch, 'log')
            with open(lp, 'w') as log:
                p = spawn(['run', 'C01', 1, 'quick', 0, 1, 6, 100, op], scratch, log, {'PYTHONHASHSEED': hashseed})
                p.wait(timeout=200)
            if p.returncode:
                raise CheckError('worker failed:\n' + read_log(lp))
            with open(op) as f:
                got.append(json.load(f)['keys'])
        if got[0] != got[1] or not got[0]:
            raise CheckError('the same seeds gave different runs')
        print('built, booted; %d executions repeated exactly' % len(got[0]))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    c.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS') or min(8, os.cpu_count() or 1)))
    r = sub.add_parser('replay')
    r.add_argument('file')
    sub.add_parser('selftest')
    a = ap.parse_args()
    try:
        if a.cmd == 'selftest':
            return selftest()
        if a.cmd == 'check':
            return check(a.prop, a.tier, a.seed, a.workers)
        return replay(a.file)
    except build.BuildError as e:
        print('CHECK ERROR: build failed: %s' % e)
        return 2
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
