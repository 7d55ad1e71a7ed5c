'''One simulation process: runs a share of a property's runs, or one job file.

    worker.py run PROP SEED TIER FIRST STRIDE COUNT SECONDS OUT
    worker.py one PROP JOBFILE OUT [minimise SECONDS]
'''
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PROPS = {
    'C01': 'p_threads', 'C02': 'p_threads', 'C03': 'p_threads', 'C13': 'p_threads', 'C14': 'p_threads',
    'C04': 'p_memory', 'C05': 'p_polyline', 'C06': 'p_transform', 'C07': 'p_transform', 'C08': 'p_value',
    'C09': 'p_json', 'C10': 'p_json', 'C11': 'p_console', 'C12': 'p_lchol', 'C15': 'p_process', 'C16': 'p_cold', 'C20': 'p_carry',
    'C17': 'p_nested', 'C18': 'p_nested', 'C19': 'p_keep',
}


def prop(name):
    return getattr(importlib.import_module(PROPS[name]), name)()


def boot_for(p):
    import boot
    boot.boot(os.environ['SIM_SCRATCH'], warm=p.warm)
    if boot.import_errors:
        # a module that does not import is reported by C16; elsewhere its
        # operations simply have import errors as their outcome
        pass


def run_one(p, job):
    import core
    r = core.Result()
    p.run(job, r)
    return r


def do_run(argv):
    name, seed, tier, first, stride, count, seconds, out = argv
    first, stride, count, seconds = int(first), int(stride), int(count), float(seconds)
    t0 = time.monotonic()
    p = load(name)
    import core
    import forkrun
    total = core.Result()
    keys = set()
    samples = []
    fails = []
    errors = []
    known = load_known(name)
    seen = set()
    done = 0
    i = first
    while i < count and time.monotonic() - t0 < seconds:
        job = p.make(i, seed, tier)
        try:
            r = run_one(p, job)
        except Exception:
            # this run could not be judged: a fault of the machinery
            errors.append('run %d: %s' % (i, traceback.format_exc()[-3000:]))
            if len(errors) > 20:
                break
            i += stride
            continue
        done += 1
        total.n += r.n
        total.stats.update(r.stats)
        if len(keys) < 400000:
            keys.update(r.keys)
        if r.sample and len(samples) < 2:
            samples.append(r.sample)
        if r.viol:
            k = match_known(known, r.viol)
            if k:
                total.stats['runs showing a known finding'] += 1
            if not k or k not in seen:
                seen.add(k)
                fails.append({'i': i, 'viol': r.viol, 'job': r.replay if repeats(p, r, known) else job})
            if sum(not match_known(known, f['viol']) for f in fails) >= 12:
                break
        i += stride
    with open(out, 'w') as f:
        json.dump({'done': done, 'complete': i >= count, 'n': total.n, 'stats': total.stats, 'keys': sorted(keys), 'samples': samples,
                   'fails': fails, 'errors': errors, 'forks': forkrun.stats['forks'], 'wall': time.monotonic() - t0}, f)


def repeats(p, r, known):
    '''Does the part of the run that failed fail by itself?  If not, the whole run is the replay.'''
    try:
        again = run_one(p, r.replay)
    except Exception:
        return False
    return again.viol is not None and match_known(known, again.viol) == match_known(known, r.viol)


def load(name):
    mod = importlib.import_module('core')
    p = None
    # property modules import numpy and, through ops, stubs; the seams have to
    # be in place first
    import boot
    spec = PROPS[name]
    warm = spec not in ('p_cold', 'p_process')
    boot.boot(os.environ['SIM_SCRATCH'], warm=warm)
    p = prop(name)
    return p


def same(a, b):
    return a is not None and b is not None and a['kind'] == b['kind'] and a.get('what') == b.get('what')


def do_one(argv):
    name, path, out = argv[:3]
    p = load(name)
    with open(path) as f:
        job = json.load(f)
    r = run_one(p, job)
    best, viol = job, r.viol
    tried = accepted = 0
    if viol is not None and len(argv) > 3:
        known = load_known(name)
        matched = match_known(known, viol)
        if r.replay is not None:
            r2 = run_one(p, r.replay)
            if same(r2.viol, viol):
                best = r.replay
        end = time.monotonic() + float(argv[4])
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in p.shrink(best):
                if time.monotonic() > end:
                    break
                tried += 1
                try:
                    rc = run_one(p, cand)
                except Exception:
                    continue
                if same(rc.viol, viol) and match_known(known, rc.viol) == matched:
                    accepted += 1
                    best = cand
                    if rc.replay is not None and size(rc.replay) <= size(cand):
                        best = rc.replay
                    progress = True
                    break
        r = run_one(p, best)
        viol = r.viol
    with open(out, 'w') as f:
        json.dump({'viol': viol, 'job': best, 'tried': tried, 'accepted': accepted}, f)


def size(job):
    return len(json.dumps(job))


def load_known(name):
    out = []
    try:
        with open(os.path.join(os.path.dirname(HERE), 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % name):
                    out.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return out


def match_known(known, viol):
    '''A listed finding is a JSON object of fields the violation must have.'''
    for k in known:
        want = json.loads(k)
        if all(f == 'text' or (v in viol['msg'] if f == 'msg' else viol.get(f) in v if isinstance(v, list) else viol.get(f) == v)
               for f, v in want.items()):
            return k
    return None


def finish():
    m = sys.modules.get('p_process')
    if m is not None:
        m.close_all()


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'run':
            do_run(sys.argv[2:])
        else:
            do_one(sys.argv[2:])
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        finish()
        os._exit(3)
    finish()
    sys.stdout.flush()
    os._exit(0)
