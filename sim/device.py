'''A simulated storage device under Python's real io stack.'''
import errno
import io
import random


class Crash(BaseException):
    '''The machine stops here; what reached the device stays.'''


class Device(io.RawIOBase):
    '''Bytes plus a seeded temperament.

    spec: chunk_w/chunk_r  at most this many bytes per operation (0: no limit)
          p_short          chance of doing only part of an operation
          p_eintr          chance of a signal arriving first
          seed
          fail             [op, at, errno, how]: op 'w' or 'r'; `at` is the byte
                           position where the device gives up; how 'once' or 'always'
    '''
    def __init__(self, spec, data=b'', readable=True):
        io.RawIOBase.__init__(self)
        self.buf = bytearray(data)
        self.pos = 0
        self.spec = spec
        self.r = random.Random('dev/%s' % spec.get('seed', 0))
        self.counts = {}
        self.given = None           # the error object handed out
        self.done_w = self.done_r = 0
        self.healed = False
        self.ops = 0

    def note(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return not self.spec.get('pipe')

    def seek(self, pos, whence=0):
        if not self.seekable():
            raise io.UnsupportedOperation('seek')
        self.pos = pos + (0 if whence == 0 else self.pos if whence == 1 else len(self.buf))
        return self.pos

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.buf[size:]
        return size

    def heal(self):
        self.healed = True

    def before(self, op, n, done):
        '''How many bytes to do; may raise.'''
        self.ops += 1
        sp = self.spec
        if sp.get('p_eintr') and self.r.random() < sp['p_eintr']:
            self.note('interrupted system call')
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        f = sp.get('fail')
        if f and f[0] == op and not self.healed:
            left = f[1] - done
            if left <= 0:
                if f[3] == 'once':
                    if self.given is not None:
                        return self.shorten(op, n)
                if f[2] == 'crash':
                    self.note('crash')
                    raise Crash()
                self.note('%s failed with %s' % ('write' if op == 'w' else 'read', errno.errorcode[f[2]]))
                self.given = OSError(f[2], 'simulated device error')
                raise self.given
            n = min(n, left)
        return self.shorten(op, n)

    def shorten(self, op, n):
        c = self.spec.get('chunk_w' if op == 'w' else 'chunk_r')
        m = n
        if c:
            m = min(m, c)
        if m > 1 and self.spec.get('p_short') and self.r.random() < self.spec['p_short']:
            m = self.r.randint(1, m - 1)
        if m < n:
            self.note('short %s' % ('write' if op == 'w' else 'read'))
        return m

    def write(self, b):
        b = bytes(b)
        n = self.before('w', len(b), self.done_w)
        if self.pos > len(self.buf):
            self.buf.extend(b'\0' * (self.pos - len(self.buf)))
        if self.spec.get('append'):
            self.pos = len(self.buf)
        self.buf[self.pos:self.pos + n] = b[:n]
        self.pos += n
        self.done_w += n
        return n

    def readinto(self, b):
        left = len(self.buf) - self.pos
        n = self.before('r', min(len(b), max(left, 0)), self.done_r)
        if left <= 0:
            return 0
        b[:n] = self.buf[self.pos:self.pos + n]
        self.pos += n
        self.done_r += n
        return n


class Pieces(io.TextIOBase):
    '''A text stream of somebody's own: asked for n characters, it gives as
    many as it happens to have.'''
    def __init__(self, dev, bufsize, encoding):
        io.TextIOBase.__init__(self)
        self.f = io.TextIOWrapper(io.BufferedReader(dev, bufsize), encoding=encoding, newline='')
        self.r = random.Random('pieces/%s' % dev.spec.get('seed', 0))

    def readable(self):
        return True

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def read(self, n=-1):
        if n is None or n < 0:
            return self.f.read()
        if n == 0:
            return ''
        return self.f.read(self.r.choice([1, n, self.r.randint(1, n), self.r.randint(1, min(n, 4))]))

    def readline(self, n=-1):
        return self.f.readline(n)


def open_write(dev, kind, bufsize, encoding='utf-8'):
    if kind == 'text':
        return io.TextIOWrapper(io.BufferedWriter(dev, bufsize), encoding=encoding, newline='')
    if kind == 'random':
        return io.TextIOWrapper(io.BufferedRandom(dev, bufsize), encoding=encoding, newline='')
    if kind == 'through':
        return io.TextIOWrapper(io.BufferedWriter(dev, bufsize), encoding=encoding, newline='', write_through=True)
    if kind == 'line':
        return io.TextIOWrapper(io.BufferedWriter(dev, bufsize), encoding=encoding, newline='', line_buffering=True)
    raise ValueError(kind)


def open_read(dev, kind, bufsize, encoding='utf-8'):
    if kind == 'binary':
        return io.BufferedReader(dev, bufsize)
    if kind == 'raw':
        return dev
    if kind == 'pieces':
        return Pieces(dev, bufsize, encoding)
    if kind == 'random':
        return io.TextIOWrapper(io.BufferedRandom(dev, bufsize), encoding=encoding, newline='')
    return io.TextIOWrapper(io.BufferedReader(dev, bufsize), encoding=encoding, newline='')
