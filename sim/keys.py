'''Standard input and output of simulated callers: each thread has its own
keyboard lines and its own screen.'''
import io
from _thread import get_ident

open_now = {}


class Session(object):
    def __init__(self, lines):
        self.lines = list(lines)
        self.screen = []

    def __enter__(self):
        open_now[get_ident()] = self
        return self

    def __exit__(self, *exc):
        open_now.pop(get_ident(), None)


class Keyboard(io.StringIO):
    def readline(self, *size):
        s = open_now.get(get_ident())
        if s is None:
            return io.StringIO.readline(self, *size)
        if not s.lines:
            return ''
        return s.lines.pop(0) + '\n'

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line


class Screen(io.StringIO):
    def write(self, text):
        s = open_now.get(get_ident())
        if s is None:
            return io.StringIO.write(self, text)
        s.screen.append(text)
        return len(text)
