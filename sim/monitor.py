'''Where simulated threads can be switched and calls cut short.

`sys.monitoring` events are enabled on the code objects of blmath only (found
as they are loaded), so third-party code runs whole between two events.
'''
import importlib.machinery
import os
import sys
import types
from _thread import get_ident

mon = sys.monitoring
E = mon.events
TOOL_I, TOOL_F = 3, 4           # instruction-level scheduling; calls and faults
F_EVENTS = E.PY_START | E.CALL | E.JUMP
codes = {}                          # id -> code object
code_order = []
instr_on = False

REPO_PKG = None


class Injected(MemoryError):
    '''MemoryError raised in place of a call.'''


class Interrupt(KeyboardInterrupt):
    '''Ctrl-C'''


# -- calls that MemoryError does not replace ---------------------------------
NO_FAIL = {
    'len', 'isinstance', 'issubclass', 'hasattr', 'callable', 'id', 'getattr', 'type',
    '__exit__', 'close', 'release', 'restore', 'clear', 'pop', 'remove', 'discard', 'reset',
    'seterr', 'seterrcall', 'set_printoptions', 'setstate', 'set_state', 'setcontext', 'chdir',
    'setattr', 'delattr', 'resetwarnings', 'setbufsize', 'super', 'globals', 'locals', '__build_class__',
    'property', 'classmethod', 'staticmethod',
}
# -- calls after which an interrupt is not delivered, because no Python code
#    can protect the instant between acquiring something and guarding it ------
ACQUIRE = {
    'seterr', 'seterrcall', 'set_printoptions', 'simplefilter', 'filterwarnings', 'resetwarnings',
    'catch_warnings', 'acquire', '__enter__', 'enter_context', 'getcontext', 'setcontext', 'localcontext',
    'seed', 'setstate', 'set_state', 'chdir', 'open', 'errstate', 'printoptions', 'setflags', 'setbufsize',
}


def callee_name(f):
    return getattr(f, '__name__', '') or type(f).__name__


def is_blmath_function(f):
    if isinstance(f, types.MethodType):
        f = f.__func__
    return isinstance(f, types.FunctionType) and id(f.__code__) in codes


class Step:
    '''One operation in progress on one thread.'''
    __slots__ = ('ki', 'mc', 'ki_at', 'mc_at', 'fired', 'where', 'watch', 'events', 'dead', 'watch_every', 'klocs', 'mlocs', 'nest', 'nest_at', 'instrs', 'instr_at')

    def __init__(self, fault=None, watch=None, watch_every=1):
        self.ki = self.mc = 0
        self.ki_at = self.mc_at = 0
        if fault:
            if fault['kind'] == 'intr':
                self.ki_at = fault['at']
            elif fault['kind'] == 'memcall':
                self.mc_at = fault['at']
        self.nest = None            # called instead of raising, at each of nest_at
        self.nest_at = ()           # at these of the places where it could be cut short
        self.instr_at = ()          # at these instructions
        self.instrs = 0
        # where the points are at which this step could be cut short
        self.klocs = {} if record is not None else None
        self.mlocs = {} if record is not None else None
        self.fired = None
        self.where = None
        self.watch = watch          # called at every event; may note a finding
        self.watch_every = watch_every
        self.events = 0


steps = {}                          # thread ident -> Step
sched = None                        # active Sched or None
paused = False                      # harness code is running
record = None                       # list of the places of events, while a call is surveyed


def note(places, code, offset, n):
    x = places.setdefault((id(code), offset), [])
    if len(x) < 3:
        x.append(n)
    else:
        x[2] = n


def where(code, offset):
    line = '?'
    for s, e, ln in code.co_lines():
        if s <= offset < e:
            line = ln
            break
    return '%s:%s %s' % (os.path.relpath(code.co_filename, os.path.dirname(REPO_PKG)), line, code.co_name)


def _interruptible(st, code, offset):
    st.ki += 1
    if st.klocs is not None:
        note(st.klocs, code, offset, st.ki)
    if st.nest is not None and st.ki in st.nest_at:
        st.fired = 'nest'
        st.where = where(code, offset)
        st.nest(st.ki)
    if st.ki == st.ki_at:
        st.fired = 'intr'
        st.where = where(code, offset)
        raise Interrupt()


def on_start(code, offset):
    if paused:
        return
    ident = get_ident()
    st = steps.get(ident)
    if st is not None:
        st.events += 1
        if st.watch is not None and st.events % st.watch_every == 0:
            st.watch(code, offset)
        _interruptible(st, code, offset)
    if sched is not None and not instr_on:
        if record is not None:
            record.append((id(code), offset))
        sched.event(ident)


def on_jump(code, offset, dest):
    if paused or dest > offset:
        return
    ident = get_ident()
    st = steps.get(ident)
    if st is not None:
        st.events += 1
        if st.watch is not None and st.events % st.watch_every == 0:
            st.watch(code, offset)
        _interruptible(st, code, offset)
    if sched is not None and not instr_on:
        if record is not None:
            record.append((id(code), offset))
        sched.event(ident)


def on_call(code, offset, callee, arg0):
    if paused:
        return
    st = steps.get(get_ident())
    if st is None:
        return
    if st.watch is not None and st.events % st.watch_every == 0:
        st.watch(code, offset)
    if is_blmath_function(callee):
        return
    name = callee_name(callee)
    if name in NO_FAIL or sys.exc_info()[0] is not None:
        return
    st.mc += 1
    if st.mlocs is not None:
        note(st.mlocs, code, offset, st.mc)
    if st.mc == st.mc_at:
        st.fired = 'memcall'
        st.where = where(code, offset) + ' -> ' + name
        raise Injected('out of memory (injected at call to %s)' % name)
    if isinstance(callee, types.FunctionType) and name not in ACQUIRE:
        # an interrupt while third-party Python code is running
        _interruptible(st, code, offset)


def on_creturn(code, offset, callee, arg0):
    if paused:
        return
    ident = get_ident()
    st = steps.get(ident)
    if st is not None:
        st.events += 1
        if st.watch is not None and st.events % st.watch_every == 0:
            st.watch(code, offset)
        if callee_name(callee) not in ACQUIRE:
            _interruptible(st, code, offset)
    if sched is not None and not instr_on:
        if record is not None:
            record.append((id(code), offset))
        sched.event(ident)


def on_instr(code, offset):
    if paused:
        return
    ident = get_ident()
    st = steps.get(ident)
    if st is not None:
        if st.watch is not None:
            st.watch(code, offset)
        if st.nest is not None:
            st.instrs += 1
            if st.instrs in st.instr_at:
                st.fired = 'nest'
                st.where = where(code, offset)
                st.nest(st.instrs)
    if sched is not None:
        if record is not None:
            record.append((id(code), offset))
        sched.event(ident)


def on_native():
    '''Native code without the interpreter lock is at its allocator.'''
    if paused or sched is None:
        return
    if record is not None:
        record.append((0, 0))
    sched.event(get_ident())


_hot = {}
HOT = ('STORE_SUBSCR', 'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SLICE', 'DELETE_', 'CALL')


def is_hot(key):
    '''Does the instruction there write to something other code can see?'''
    if key[0] == 0:
        return True
    if key[0] not in _hot:
        import dis
        _hot[key[0]] = {i.offset for i in dis.get_instructions(codes[key[0]]) if i.opname.startswith(HOT)}
    return key[1] in _hot[key[0]]


def places(events):
    '''Distinct places among the recorded events: [writes?, [when, ...]].'''
    out = {}
    for n, key in enumerate(events):
        x = out.setdefault(key, [])
        if len(x) < 4:
            x.append(n + 1)
        else:
            x[3] = n + 1
    return [[is_hot(k), v] for k, v in out.items()]


def register(code):
    stack = [code]
    while stack:
        c = stack.pop()
        if id(c) in codes:
            continue
        codes[id(c)] = c
        code_order.append(c)
        mon.set_local_events(TOOL_F, c, F_EVENTS)
        if instr_on:
            mon.set_local_events(TOOL_I, c, E.INSTRUCTION)
        stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))


def set_instr(on):
    global instr_on
    if on == instr_on:
        return
    instr_on = on
    for c in code_order:
        mon.set_local_events(TOOL_I, c, E.INSTRUCTION if on else 0)


def depth():
    n = 0
    f = sys._getframe(1)
    while f is not None:
        n += 1
        f = f.f_back
    return n


CALLBACKS = [(TOOL_I, E.INSTRUCTION, on_instr), (TOOL_F, E.PY_START, on_start), (TOOL_F, E.JUMP, on_jump),
             (TOOL_F, E.CALL, on_call), (TOOL_F, E.C_RETURN, on_creturn)]


def events(on):
    for tool, event, fn in CALLBACKS:
        mon.register_callback(tool, event, fn if on else None)


def install(repo):
    global REPO_PKG
    REPO_PKG = os.path.join(os.path.realpath(repo), 'blmath')
    mon.use_tool_id(TOOL_I, 'sim-instr')
    mon.use_tool_id(TOOL_F, 'sim-fault')
    events(True)

    cache = {}
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = os.path.realpath(self.path)
        if not path.startswith(REPO_PKG + os.sep):
            return orig(self, fullname)
        code = cache.get(path)
        if code is None:
            with open(path, 'rb') as f:
                code = self.source_to_code(f.read(), path)
            cache[path] = code
        register(code)
        return code
    importlib.machinery.SourceFileLoader.get_code = get_code
    return cache
