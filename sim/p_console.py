'''C11: console entry on a simulated terminal.

Standard input and output are Python's own text streams on simulated raw
devices.  The input device is a script of events: bytes (a line or part of
one), end of input, a signal, an interrupt, an error.  In terminal mode one
read gets one line at most, so that what was shown before each line, and how
far input was read, are both seen.
'''
import errno
import string
import io
import random
import sys

import canon
import device
import forkrun
import monitor
import ops
import program
from core import Prop, clone, key_of, rng


class Bad(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind


class Stop(BaseException):
    pass


class Keyboard(io.RawIOBase):
    '''events: ['line', text], ['part', text], ['eof'], ['intr'], ['eintr'], ['err', errno], ['bytes', latin-1 text]'''
    def __init__(self, events, log, tty):
        io.RawIOBase.__init__(self)
        self.events = [list(e) for e in events]
        self.log = log
        self.tty = tty
        self.at = 0
        self.rest = b''
        self.reads_past_end = 0
        self.counts = {}

    def readable(self):
        return True

    def isatty(self):
        return self.tty

    def note(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def readinto(self, b):
        if not self.rest:
            if self.at >= len(self.events):
                self.reads_past_end += 1
                if self.reads_past_end > 50:
                    raise Stop()
                self.log.append(('eof', None))
                return 0
            e = self.events[self.at]
            self.at += 1
            if e[0] == 'eof':
                self.log.append(('eof', None))
                self.note('end of input')
                return 0
            if e[0] == 'intr':
                self.log.append(('intr', None))
                self.note('interrupt')
                raise KeyboardInterrupt()
            if e[0] == 'eintr':
                self.note('interrupted system call')
                raise InterruptedError(errno.EINTR, 'Interrupted system call')
            if e[0] == 'err':
                self.log.append(('err', e[1]))
                self.note('read failed')
                raise OSError(e[1], 'simulated terminal error')
            self.rest = e[1].encode('latin-1') if e[0] == 'bytes' else e[1].encode('utf-8') + (b'\n' if e[0] == 'line' else b'')
            if e[0] == 'part':
                self.note('fragmented read')
            if not self.rest:
                return self.readinto(b)
        n = min(len(b), len(self.rest))
        b[:n] = self.rest[:n]
        self.log.append(('in', bytes(self.rest[:n])))
        self.rest = self.rest[n:]
        return n


class Screen(io.RawIOBase):
    def __init__(self, spec, log):
        io.RawIOBase.__init__(self)
        self.spec = spec
        self.log = log
        self.r = random.Random('screen/%s' % spec.get('seed', 0))
        self.done = 0
        self.given = None
        self.counts = {}

    def writable(self):
        return True

    def isatty(self):
        return True

    def note(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def write(self, b):
        b = bytes(b)
        if self.spec.get('p_eintr') and self.r.random() < self.spec['p_eintr']:
            self.note('interrupted system call')
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        n = len(b)
        f = self.spec.get('fail')
        if f:
            if self.done >= f[0]:
                self.note('write failed')
                self.given = OSError(f[1], 'simulated terminal error')
                raise self.given
            n = min(n, f[0] - self.done)
        if self.spec.get('chunk'):
            m = min(n, self.spec['chunk'])
            if m < n:
                self.note('short write')
            n = m
        self.log.append(('out', b[:n]))
        self.done += n
        return n


def assemble(events):
    '''What a caller reads, line by line: ('line', text), ('eof',), ('intr',), ('err', n), ('undecodable',).'''
    out = []
    cur = b''
    for e in events + [['eof'], ['eof']]:
        if e[0] in ('line', 'part', 'bytes'):
            cur += e[1].encode('latin-1') if e[0] == 'bytes' else e[1].encode('utf-8') + (b'\n' if e[0] == 'line' else b'')
            while b'\n' in cur:
                line, cur = cur.split(b'\n', 1)
                out.append(line_of(line))
        elif e[0] == 'eof':
            if cur:
                out.append(line_of(cur))
                cur = b''
            else:
                out.append(('eof',))
        elif e[0] == 'intr':
            out.append(('intr',))
        elif e[0] == 'err':
            out.append(('err', e[1]))
    return out


def line_of(b):
    try:
        return ('line', b.decode('utf-8'))
    except UnicodeDecodeError:
        return ('undecodable',)


def model(call, items):
    '''(outcome, items used) of one call.'''
    n = 0
    while True:
        it = items[n] if n < len(items) else ('eof',)
        n += 1
        if it[0] == 'eof':
            return (('none',) if call['allow'] else ('exc', 'EOFError')), n
        if it[0] == 'intr':
            return ('exc', 'KeyboardInterrupt'), n
        if it[0] == 'err':
            return ('exc', 'OSError', it[1]), n
        if it[0] == 'undecodable':
            return ('exc', 'UnicodeDecodeError'), n
        text = it[1].strip()
        if not text:
            if call['allow']:
                return ('none',), n
            continue
        try:
            x = float(text)
        except ValueError:
            continue
        if call['f'] == 'value':
            return ('value', x, call['units']), n
        return ('float', x), n


def outcome(rec, raw):
    if 'mem' in rec:
        if isinstance(raw, OSError):
            return ('exc', 'OSError', raw.errno)
        return ('exc', type(raw).__name__)
    if raw is None:
        return ('none',)
    if type(raw) is float:
        return ('float', raw)
    if type(raw).__name__ == 'Value' and type(raw.value) is float:
        return ('value', raw.value, raw.units)
    return ('other', type(raw).__name__, repr(raw))


def agree(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('float', 'value'):
        return a[1].hex() == b[1].hex() and a[2:] == b[2:]
    return a == b


class Thunk(object):
    def __init__(self, fn):
        self.thunk = fn


def shown(log, since, until):
    return b''.join(d for k, d in log[since:until] if k == 'out').decode('utf-8', 'replace')


def play(job, stats, fault=None):
    con = ops.I('blmath.console')
    ops.I('plumbum.cli.terminal')
    log = []
    tty = job['mode'] == 'tty'
    kb = Keyboard(job['events'], log, tty)
    sc = Screen(job['screen'], log)
    stdin = io.TextIOWrapper(io.BufferedReader(kb, job['bufsize'] if not tty else 8192), encoding='utf-8', newline=None)
    stdout = io.TextIOWrapper(io.BufferedWriter(sc, 8192), encoding='utf-8', line_buffering=True)
    items = assemble(job['events'])
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = stdin, stdout
    cut = False
    counted = None
    try:
        for n, call in enumerate(job['calls']):
            start = len(log)

            def go():
                if call['f'] == 'float':
                    return con.input_float(call['label'], allow_empty=call['allow']) if call['allow'] or n % 2 else con.input_float(call['label'])
                return con.input_value(call['label'], call['units'], allow_empty=call['allow'])
            rec, raw = program.run_step(Thunk(go), fault if n == 0 else None)
            if n == 0:
                counted = rec
            if isinstance(raw, Stop):
                raise Bad('hang', 'call %d kept reading past the end of input' % n)
            if rec['fired']:
                stats[rec['fired']] = stats.get(rec['fired'], 0) + 1
            if sys.stdin is not stdin or sys.stdout is not stdout:
                raise Bad('streams', 'call %d left the standard streams replaced' % n)
            if stdin.closed or stdout.closed:
                raise Bad('streams', 'call %d closed a standard stream' % n)
            got = outcome(rec, raw)
            want, used = model(call, items)
            if rec['fired'] and got[0] == 'exc' and (rec['mem'] or rec['intr']):
                return counted          # cut short; how far it had read is its own affair
            if sc.given is not None:
                # output failed: from then on only that error, or an answer
                # (or other condition) that came without needing output
                if got == ('exc', 'OSError', sc.given.errno):
                    return counted
                if not agree(want, got):
                    raise Bad('output error', 'call %d: the screen failed with %r, caller got %r (expected that error or %r)' % (n, sc.given, got, want))
                return counted
            if not agree(want, got):
                raise Bad('answer', 'call %d: expected %r, got %r for input %r' % (n, want, got, items[:used]))
            if tty:
                prompts(call, n, log[start:], used, items)
            else:
                try:
                    stdout.flush()
                except Exception:
                    pass
                text = shown(log, start, len(log))
                if text.count(call['token']) < used:
                    raise Bad('prompt', 'call %d: label shown %d times for %d answers: %r' % (n, text.count(call['token']), used, text[:300]))
                if call['f'] == 'value' and text.count('(%s)' % call['units']) < used:
                    raise Bad('prompt', 'call %d: units not shown each time: %r' % (n, text[:300]))
            items = items[used:]
            if want[0] == 'exc' and want[1] not in ('EOFError',):
                if not tty or want[1] == 'UnicodeDecodeError' or broken_line(job['events']):
                    return counted      # a buffered stream's position after its own error is not ours to judge
        # nothing further was read: what follows is still there
        if tty:
            left = items_left(job['events'], kb)
            if left is not None and trim(left) != trim(items):
                raise Bad('read on', 'input left on the terminal is %r, expected %r' % (left[:5], items[:5]))
        nxt = items[0] if items else ('eof',)
        if nxt[0] in ('line', 'eof'):
            try:
                line = stdin.readline()
            except OSError:
                line = None
            except KeyboardInterrupt:
                line = None
            except UnicodeDecodeError:
                line = None
            if line is not None:
                got = ('line', line.rstrip('\n')) if line else ('eof',)
                if got != nxt and got[-1].rstrip('\r') != nxt[-1].rstrip('\r'):
                    raise Bad('read on', 'next line is %r, expected %r' % (got, nxt))
    finally:
        sys.stdin, sys.stdout = old
        for k, v in list(kb.counts.items()) + list(sc.counts.items()):
            stats[k] = stats.get(k, 0) + v
        sc.spec = {}
        for f in (stdin, stdout):
            try:
                f.detach()
            except Exception:
                pass
    return counted


def trim(items):
    items = list(items)
    while items and items[-1] == ('eof',):
        items.pop()
    return items


def items_left(events, kb):
    if kb.rest:
        return None
    left = assemble(events[kb.at:])
    return left


def broken_line(events):
    '''A line interrupted in the middle: Python's stream may forget its beginning.'''
    e = [x[0] for x in events if x[0] != 'eintr']
    return any(a in ('part', 'bytes') and b in ('intr', 'err') for a, b in zip(e, e[1:]))


def prompts(call, n, log, used, items):
    '''Before every line (or other condition) the label and units were shown.'''
    seen = ''
    cur = b''
    count = 0
    fresh = True
    for k, d in log:
        if k == 'out':
            seen += d.decode('utf-8', 'replace')
            continue
        if fresh and count < used:
            if call['token'] not in seen or (call['f'] == 'value' and '(%s)' % call['units'] not in seen):
                raise Bad('prompt', 'call %d: asked for line %d with %r on the screen' % (n, count + 1, seen[-200:]))
        if k == 'in':
            cur += d
            fresh = b'\n' in d
            if fresh:
                count += 1
                seen = ''
        else:
            count += 1
            seen = ''
            fresh = True


def batch(job):
    monitor.set_instr(False)
    stats = {}
    n = 0
    keys = []
    try:
        if job.get('fault') is not None:
            play(job, stats, job['fault'] or None)
            return {'viol': None, 'n': 1, 'stats': stats, 'keys': [job['fault']], 'fault': job['fault']}
        c = play(job, stats)
        n += 1
        keys.append({})
        pts = [{'kind': k, 'at': a} for k, m in (('intr', c['ki']), ('memcall', c['mc'])) for a in range(1, m + 1)]
        r = rng(job['seed'], 'f')
        r.shuffle(pts)
        for f in pts[:job['limit']]:
            n += 1
            play(job, stats, f)
            keys.append(f)
    except Bad as b:
        f = (job.get('fault') or {}) if job.get('fault') is not None else ({} if n == 0 or not keys else f)
        return {'viol': {'kind': b.kind, 'msg': str(b)}, 'n': n + 1, 'stats': stats, 'keys': keys, 'fault': f}
    return {'viol': None, 'n': n, 'stats': stats, 'keys': keys}


GOODS = ['3.5', '0', '-1', '1e3', ' 42 ', '.5', '7.', '+2', '1_000', 'inf', '-Infinity', 'nan', '0.1', '\t6\t', '1e-320', '123456789012345678901', '9' * 400,
         u'\u0663', '3.5\r', '00012', '-0.0', '1E5', u'\u00a05', '4.9e-324']
BADS = ['abc', '1,5', '3.5cm', '--1', '1 2', '0x10', 'None', 'yes', '1e', '.', u'čtyři', '{}', '%s', '5 in', 'q', '1/2', '\\n', '$', '3.5 3.5', '[None]', '1__0', '_1',
        'True', '\x1b[A', '\x00', '2..5', 'y' * 300]
BLANKS = ['', ' ', '\t', '   ', '\r', u'\u2003']
LABELS = ['%s', '%s ', '%s: ', '%s (of the {}): ', u'%s výška', '%s:\t', '%s [None]', '%s?', '100%% %s', '%s (in)']


class C11(Prop):
    id = 'C11'

    def make(self, i, seed, tier):
        r = rng(seed, 'C11', i)
        events = []
        for _ in range(r.randint(0, 9)):
            k = r.random()
            if k < .3:
                events.append(['line', r.choice(GOODS)])
            elif k < .5:
                events.append(['line', r.choice(BADS)])
            elif k < .6:
                # nearly a number, or just still one
                t, c = r.choice(GOODS[:12] + ['12.5', '1000', '7', '-3.25e2']), r.choice(string.printable[:-5] + u'\u2212\u00bd\u20ac\u00b0%')
                at = r.choice([0, len(t), len(t), r.randint(0, len(t))])
                events.append(['line', t[:at] + c + t[at:]])
            elif k < .78:
                events.append(['line', r.choice(BLANKS)])
            elif k < .86:
                events.append(['part', r.choice(GOODS + BADS).strip('\r')])
                if r.random() < .5:
                    events.append(['line', r.choice(['', '5', 'e2'])])
            elif k < .9:
                events.append(['eof'])
            elif k < .93:
                events.append(['eintr'])
            elif k < .95:
                events.append(['intr'])
            elif k < .98:
                events.append(['err', r.choice([errno.EIO, errno.EBADF, errno.ENXIO])])
            else:
                events.append(['bytes', r.choice(['\xff\n', '\xc3\n', '1\xff2\n'])])
        if r.random() < .06:
            # someone who does not get it for a long time
            events = [['line', r.choice(BADS + BLANKS if r.random() < .5 else BADS)] for _ in range(r.choice([12, 25, 60, 120, 300, 1100]))] + events
            events.append(['line', r.choice(GOODS)])
        mode = r.choice(['tty', 'tty', 'pipe'])
        if mode == 'pipe':
            events = [e for e in events if e[0] not in ('err', 'intr', 'bytes', 'eof')]
        screen = {'seed': r.randrange(1 << 20), 'p_eintr': r.choice([0, 0, .3]), 'chunk': r.choice([0, 0, 1, 7])}
        if r.random() < .12:
            screen['fail'] = [r.choice([0, 1, r.randrange(60), r.randrange(300)]), r.choice([errno.EPIPE, errno.EIO, errno.ENOSPC])]
        calls = []
        for c in range(r.choice([1, 1, 2, 3])):
            token = 'Zq%dw' % c
            f = r.choice(['float', 'value'])
            lab = r.choice(LABELS)
            calls.append({'f': f, 'token': token, 'label': lab.replace('%%', '%').replace('%s', token), 'units': r.choice(ops.UNITS + [None]) if f == 'value' else None,
                          'allow': r.random() < .4})
        if r.random() < .25:
            # the same question again
            k = r.randrange(len(calls))
            if calls[k]['f'] == 'value' or r.random() < .3:
                calls.insert(k + 1, dict(calls[k], allow=r.random() < .7))
                at = r.randint(0, min(2, len(events)))
                events[at:at] = [['line', r.choice(GOODS[:8] + ['-0.0', '1'])], ['line', r.choice(['', '', ' ', 'abc', '2'])]]
        return {'seed': r.randrange(1 << 30), 'events': events, 'mode': mode, 'screen': screen, 'calls': calls, 'bufsize': r.choice([1, 4, 64, 8192]),
                'limit': 6 if tier == 'quick' else 40}

    def run(self, job, res):
        st = forkrun.run(batch, job, timeout=30)
        if st[0] != 'ok':
            res.n += 1
            res.fail('hang' if st[0] == 'timeout' else 'crash', 'process: %s' % (st,), job)
            return
        o = st[1]
        res.n += o['n']
        res.stats.update(o['stats'])
        for e in job['events']:
            res.stats['input: ' + e[0]] += 1
        res.stats['mode: ' + job['mode']] += 1
        for k in o['keys']:
            res.keys.append(key_of(job['events'], job['calls'], job['screen'], k))
        res.sample = {'events': job['events'], 'calls': job['calls']}
        if o['viol']:
            j = clone(job)
            j['fault'] = o['fault']
            again = forkrun.run(batch, j, timeout=60)
            if again[0] != 'ok' or not again[1]['viol']:
                j = job         # it takes what came before
            res.fail(o['viol']['kind'], o['viol']['msg'], j)

    def shrink(self, job):
        if job.get('fault'):
            j = clone(job)
            j['fault'] = {}
            yield j
        for i in range(len(job['calls'])):
            if len(job['calls']) > 1:
                j = clone(job)
                del j['calls'][i]
                yield j
        for i in range(len(job['events'])):
            j = clone(job)
            del j['events'][i]
            yield j
        for k in ('chunk', 'p_eintr', 'fail'):
            if job['screen'].get(k):
                j = clone(job)
                j['screen'].pop(k)
                yield j
