'''Run a function in a fork of this pristine process and collect its result.'''
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

stats = {'forks': 0}


class HarnessError(Exception):
    pass


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


class Child(object):
    '''Inside the fork: lets deep code end the run early with a result.'''
    fd = None

    @classmethod
    def finish(cls, value):
        data = pickle.dumps(('ok', value), protocol=4)
        _write_all(cls.fd, struct.pack('<Q', len(data)) + data)
        os._exit(0)


def run(fn, *args, timeout=60.0):
    '''Returns ('ok', value), ('crash', signal or exit status) or ('timeout', None).'''
    stats['forks'] += 1
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            Child.fd = w
            null = os.open('/dev/null', os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get('SIM_STDERR'):
                os.dup2(null, 2)
            import simnative
            simnative.np_install()
            try:
                out = ('ok', fn(*args))
            except BaseException:
                out = ('harness', traceback.format_exc())
            try:
                data = pickle.dumps(out, protocol=4)
            except BaseException:
                data = pickle.dumps(('harness', 'unpicklable result: ' + traceback.format_exc()))
            _write_all(w, struct.pack('<Q', len(data)) + data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ('timeout', None)
    _, status = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack('<Q', buf[:8])[0]:
        out = pickle.loads(buf[8:])
        if out[0] == 'harness':
            raise HarnessError(out[1])
        return out
    if os.WIFSIGNALED(status):
        return ('crash', 'signal %d' % os.WTERMSIG(status))
    return ('crash', 'exit %d' % os.WEXITSTATUS(status))
