'''Process-wide settings a caller may have made: make unusual ones, read them.'''
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

import numpy as np

import keys

MODES = ['ignore', 'warn', 'print', 'call']


def errcall(kind, flag):
    pass


def apply_process(seed):
    '''Non-default everything, so that a reset to defaults shows as well.'''
    q = random.Random('ambient/%s' % seed)
    warnings.resetwarnings()
    warnings.simplefilter(q.choice(['ignore', 'default', 'always']))
    warnings.filterwarnings('ignore', message='sim-%d' % q.randrange(100))
    if q.random() < .5:
        warnings.filterwarnings('once', category=DeprecationWarning)
    random.seed(q.randrange(1 << 30))
    np.random.seed(q.randrange(1 << 30))
    os.environ['SIM_AMBIENT'] = str(q.randrange(1000))
    logging.getLogger().setLevel(q.choice([10, 20, 35]))
    socket.setdefaulttimeout(q.choice([None, 7.5]))
    sys.setrecursionlimit(q.choice([1000, 1500, 3000]))
    os.umask(q.choice([0o022, 0o027]))
    os.chdir(q.choice(['/', '/tmp', '/usr']))
    sys.stdin, sys.stdout, sys.stderr = keys.Keyboard(), keys.Screen(), io.StringIO()
    for n in (0, 1, 2):
        if n < 2 or not os.environ.get('SIM_STDERR'):
            fd = os.memfd_create('std%d' % n)
            os.dup2(fd, n)
            os.close(fd)
    apply_thread(q.randrange(1 << 30))


def apply_thread(seed):
    q = random.Random('ambient-thread/%s' % seed)
    np.seterr(**{k: q.choice(MODES) for k in ('divide', 'over', 'under', 'invalid')})
    np.seterrcall(errcall)
    np.set_printoptions(precision=q.choice([3, 5, 8, 11]), threshold=q.choice([50, 1000]), suppress=q.random() < .5)
    c = decimal.getcontext()
    c.prec = q.choice([7, 28, 40])
    c.rounding = q.choice([decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN])


def _digest(x):
    return hash(repr(x))


def read_thread():
    c = decimal.getcontext()
    return {
        'numpy error mode': dict(np.geterr()),
        'numpy error callback': id(np.geterrcall()),
        'numpy print options': repr(np.get_printoptions()),
        'decimal context': (c.prec, c.rounding, c.Emin, c.Emax, {str(k): v for k, v in c.traps.items()}),
    }


# What other packages keep, if they are loaded: (module, what to read).
OTHERS = [
    ('sklearn', lambda m: sorted(m.get_config().items(), key=repr)),
    ('cv2', lambda m: (m.getNumThreads(), m.useOptimized())),
    ('simplejson', lambda m: (_vars(m._default_encoder), _vars(m._default_decoder))),
    ('json', lambda m: (_vars(m._default_encoder), _vars(m._default_decoder))),
    ('scipy.special', lambda m: m.geterr()),
]
# Modules of others in which nothing may be replaced.
NAMESPACES = ['numpy', 'numpy.linalg', 'numpy.random', 'scipy', 'scipy.sparse', 'scipy.sparse.linalg', 'simplejson', 'simplejson.encoder',
              'simplejson.decoder', 'json', 'json.encoder', 'math', 'copy', 'threading', 'time', 'six', 'warnings', 'plumbum', 'sklearn.decomposition',
              'decimal', 'random', 'os', 'sys', 'io', 'gc', 'signal', 'copyreg', 'functools', 'itertools', 'collections', 'weakref', 'string', 're']
MOVING = {('sys', k) for k in ('last_exc', 'last_value', 'last_type', 'last_traceback', 'stdin', 'stdout', 'stderr')} | {('threading', '_main_thread')}


def _vars(x):
    return {k: v if isinstance(v, (int, str, float, type(None))) else id(v) for k, v in vars(x).items()}


def _namespaces():
    out = {}
    for name in NAMESPACES:
        m = sys.modules.get(name)
        if m is not None:
            for k, v in list(vars(m).items()):
                # submodules appear as they are imported; what counts or is
                # remembered is another matter than what is to be called
                if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, np.ufunc)) and (name, k) not in MOVING:
                    out[name, k] = id(v)
    return out


def _others():
    out = {}
    for name, read in OTHERS:
        m = sys.modules.get(name)
        if m is not None:
            try:
                out[name] = read(m)
            except AttributeError:
                pass
    return out


def _signals():
    out = []
    for n in sorted(signal.valid_signals()):
        try:
            out.append(repr(signal.getsignal(n)))
        except ValueError:
            pass
    return out


LIMITS = [getattr(resource, k) for k in sorted(dir(resource)) if k.startswith('RLIMIT_')]


def read_process():
    s = np.random.get_state()
    root = logging.getLogger()
    return {
        'warning filters': [(a, m.pattern if m is not None else None, getattr(c, '__name__', str(c)),
                             mo.pattern if mo is not None else None, ln) for a, m, c, mo, ln in warnings.filters],
        'warnings.showwarning': (id(warnings.showwarning), id(warnings._showwarnmsg_impl)),
        'random state': _digest(random.getstate()),
        'numpy.random state': (s[0], s[1].tobytes(), s[2], s[3], s[4]),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'umask': _umask(),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr),
                             sys.stdin.closed, sys.stdout.closed, sys.stderr.closed),
        'standard files': [_file(n) for n in (0, 1, 2)],
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'signal handlers': _signals(),
        'signal mask': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        'timers': [signal.getitimer(k)[1] for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        'limits': [resource.getrlimit(k) for k in LIMITS],
        'scheduling': (os.nice(0), sorted(os.sched_getaffinity(0))),
        'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(c) for c in gc.callbacks]),
        'numpy buffer size': np.getbufsize(),
        'thread stack size': threading.stack_size(),
        'digits in text': sys.get_int_max_str_digits(),
        'time zone': time.tzname,
        'tracing': (faulthandler.is_enabled(), tracemalloc.is_tracing()),
        'exit handlers': atexit._ncallbacks(),
        'how to pickle': {repr(k): id(v) for k, v in copyreg.dispatch_table.items()},
        'locale': locale.setlocale(locale.LC_ALL),
        'socket timeout': socket.getdefaulttimeout(),
        'logging': (root.level, [id(h) for h in root.handlers], root.disabled, logging.root.manager.disable),
        'hooks': (id(sys.excepthook), id(sys.displayhook), sys.gettrace(), sys.getprofile(), id(threading.excepthook), id(sys.unraisablehook),
                  id(sys.breakpointhook), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
        'module path': list(sys.path),
        'builtins': {k: id(v) for k, v in vars(builtins).items() if k != '_'},
        'decimal default context': repr(decimal.DefaultContext),
        'settings of other packages': _others(),
        'functions of other packages': _namespaces(),
    }


def _file(n):
    try:
        s = os.fstat(n)
    except OSError:
        return None
    return s.st_dev, s.st_ino


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def changed(before, after):
    '''First setting that differs, as text.'''
    for k in before:
        if k in ('settings of other packages', 'functions of other packages'):
            # what was loaded meanwhile is no change
            gone = [n for n in before[k] if before[k][n] != after[k].get(n)]
            if gone:
                return '%s changed: %s' % (k, gone[:5])
            if k[0] == 'f':
                had = {n for n, _ in before[k]}
                new = [n for n in after[k] if n not in before[k] and n[0] in had]
                if new:
                    return '%s: there are new ones: %s' % (k, new[:5])
            continue
        if before[k] != after[k]:
            a, b = repr(before[k]), repr(after[k])
            return '%s changed from %s to %s' % (k, a[:200], b[:200])
    return None
