'''C08: a value's derived readings follow its current value and units.'''
import copy
import decimal
import fractions
import math
import pickle
import random

import numpy as np

import canon
import monitor
import ops
from core import rng
from model import Broken, History, ModelProp


def readings(r, units):
    '''(name, function of a Value) pairs; any of them may legitimately raise.'''
    u = r.choice(ops.UNITS)
    cls = [c for c in ops.CLASSES.values() if units in c]
    v = r.choice(cls[0]) if cls else u
    x = r.choice([2, .5, 3.25, -1])
    n = r.choice([0, 1, 2])
    near = r.choice([.05, .25, 1., 2])

    def other():
        return ops.Value(2.5, v)
    every = [
        ('value', lambda a: a.value), ('units', lambda a: a.units), ('convert', lambda a: a.convert(v)), ('convert other', lambda a: a.convert(u)),
        ('attribute', lambda a: getattr(a, v)), ('attribute other', lambda a: getattr(a, u)), ('metric', lambda a: a.convert_to_system_default('metric')),
        ('us', lambda a: a.convert_to_system_default('united_states')), ('round', lambda a: a.round(near)), ('__round__', lambda a: round(a, n)),
        ('round0', lambda a: round(a)), ('float', float), ('int', int), ('item0', lambda a: a[0]), ('item1', lambda a: a[1]), ('item2', lambda a: a[2]),
        ('mul', lambda a: a * x), ('rmul', lambda a: x * a), ('mul list', lambda a: a * [1, 2]), ('add', lambda a: a + other()),
        ('add number', lambda a: a + x), ('radd', lambda a: x + a), ('sub', lambda a: a - other()), ('rsub', lambda a: x - a), ('div', lambda a: a / x),
        ('div value', lambda a: a / other()), ('floordiv', lambda a: a // other()), ('neg', lambda a: -a), ('abs', abs), ('str', str), ('repr', repr),
        ('lt', lambda a: a < other()), ('eq', lambda a: a == other()), ('ne', lambda a: a != other()), ('ge', lambda a: a >= x), ('le', lambda a: a <= x),
        ('gt', lambda a: a > other()), ('prettified', lambda a: a.prettified), ('for_json', lambda a: a.for_json()),
        ('json', lambda a: ops.I('blmath.util.json').dumps(a)), ('json list', lambda a: ops.I('blmath.util.json').dumps([a, {'x': a}])),
        ('copy', lambda a: copy.copy(a)), ('deepcopy', lambda a: copy.deepcopy(a)), ('pickle', lambda a: pickle.loads(pickle.dumps(a))),
        ('from_json', lambda a: type(a).from_json(a.for_json())), ('no such', lambda a: a.not_a_unit),
        ('reflected', lambda a: other() + a), ('reflected sub', lambda a: other() - a), ('reflected div', lambda a: other() / a), ('reflected lt', lambda a: other() < a),
        ('array', lambda a: np.array([1., 2.]).__mul__(float(a))), ('sum', lambda a: sum([a, a])), ('max', lambda a: max([a, other()])),
    ]
    return every


def number(kind, seed):
    r = random.Random('num/%s' % seed)
    if kind == 'good':
        x = r.choice([r.uniform(-300, 300), float(r.randint(-50, 200)), r.randint(0, 100), '%.3f' % r.uniform(0, 9), np.float64(r.uniform(0, 99)),
                      decimal.Decimal('12.5'), True, 1e-9, 1e12,
                      r.choice([0., -0.]), r.choice([0., -0.]),
                      # whatever float() takes
                      r.choice([np.float32(r.uniform(-9, 9)), np.int8(100), np.uint8(200), np.float16(1.5), np.array(2.5), np.bool_(True),
                                np.longdouble(1) / 3]),
                      r.choice([fractions.Fraction(1, 3), fractions.Fraction(7, 2), 2 ** 53 + 1, 10 ** 30, ' 3.5 ', '1e3', '1_000', '-0'])])
        return x, float(x)
    return r.choice([None, 'abc', [1.], {}, '', 1j, object()]), None


def differ(want, got):
    """As canon.diff, but 0 is not -0 here: both come from the same number."""
    d = canon.diff(want, got)
    if d is None and sign(want) != sign(got):
        return '%s vs %s' % (canon.short(want), canon.short(got))
    return d


def sign(x):
    if isinstance(x, str):
        return [n.startswith('-') for n in canon.NUMBER.split(x)[1::2]]
    if isinstance(x, float):
        return math.copysign(1., x)
    return None


class ValueHistory(History):
    def start(self):
        self.objs = []
        self.model = []

    def fresh(self, m):
        return ops.Value(m[0], m[1])

    def outcome(self, fn, a):
        try:
            return canon.canon(fn(a))
        except Exception as e:
            return canon.canon(e)

    def state(self, a):
        return (a.value, a.units)

    def same(self, s, t):
        return s == t and sign(s[0]) == sign(t[0])

    def check(self):
        monitor.paused = True
        try:
            for k, (a, m) in enumerate(zip(self.objs, self.model)):
                if not self.same(self.state(a), m):
                    raise Broken('state', 'value %d is %r, expected %r' % (k, self.state(a), m))
        finally:
            monitor.paused = False

    def finish(self):
        monitor.paused = True
        try:
            for a, m in zip(self.objs, self.model):
                for name, fn in readings(random.Random(repr(m)), m[1]):
                    self.compare(name, fn, a, m)
        finally:
            monitor.paused = False

    def compare(self, name, fn, a, m):
        got = self.outcome(fn, a)
        want = self.outcome(fn, self.fresh(m))
        d = differ(want, got)
        if d:
            raise Broken('reading', '%s of %r differs from a new Value: %s' % (name, m, d))
        if not self.same(self.state(a), m):
            raise Broken('reading', 'reading %s changed %r to %r' % (name, m, self.state(a)))

    def settle(self, did, k, after, bad):
        before = self.model[k]
        if did.ok:
            if after is None:
                monitor.paused = True
                self.model[k] = self.state(self.objs[k])
                monitor.paused = False
                self.probe('invalid accepted')
            else:
                self.model[k] = after
                self.probe('assigned')
            return
        if did.interrupted and after is not None:
            monitor.paused = True
            now = self.state(self.objs[k])
            monitor.paused = False
            if self.same(now, after):
                self.model[k] = after
                self.probe('interrupted after the change')
            elif not self.same(now, before):
                raise Broken('torn', 'interrupted assignment left %r, neither %r nor %r' % (now, before, after))
            return
        if did.refused and not did.fired and not bad:
            raise Broken('refused', 'valid assignment refused: %s' % did.text())
        self.probe('refused or out of memory')

    def step(self, st):
        do = st['do']
        if do == 'new':
            x, f = number('good', st['s'])
            did = self.attempt(lambda: ops.Value(x, st['units']))
            if did.ok:
                self.objs.append(did.value)
                self.model.append((f, st['units']))
            elif did.refused and not did.fired:
                raise Broken('refused', 'Value(%r, %r): %s' % (x, st['units'], did.text()))
            return
        if not self.objs:
            return
        k = st['k'] % len(self.objs)
        a, m = self.objs[k], self.model[k]
        if do == 'value':
            x, f = number(st['kind'], st['s'])

            def go():
                a.value = x
            self.settle(self.attempt(go), k, None if f is None else (f, m[1]), f is None)
        elif do == 'units':
            def go():
                a.units = st['units']
            self.settle(self.attempt(go), k, (m[0], st['units']), False)
        elif do == 'convert':
            # what a conversion returns lives on as a value of its own
            did = self.attempt(lambda: a.convert(st['units']))
            if did.ok and len(self.objs) < 4 and did.value is not a:
                monitor.paused = True
                s = self.state(did.value)
                monitor.paused = False
                if not any(did.value is o for o in self.objs):
                    self.objs.append(did.value)
                    self.model.append(s)
        elif do == 'read':
            all_r = readings(random.Random('rd/%s' % st['s']), m[1])
            for name, fn in [all_r[j % len(all_r)] for j in st['which']]:
                did = self.attempt(lambda: fn(a))
                monitor.paused = True
                try:
                    want = self.outcome(fn, self.fresh(m))
                finally:
                    monitor.paused = False
                if did.fired and not did.ok:
                    self.probe('reading cut short')
                    continue
                d = differ(want, did.rec['out'])
                if d:
                    raise Broken('reading', '%s of %r differs from a new Value: %s' % (name, m, d))
                self.probe('read ' + name)
        self.check()


class C08(ModelProp):
    id = 'C08'
    history = ValueHistory

    def make(self, i, seed, tier):
        r = rng(seed, 'C08', i)
        length = ops.CLASSES['length']

        def unit():
            return r.choice(length) if r.random() < .5 else r.choice(ops.UNITS + [None])
        steps = [{'do': 'new', 's': r.randrange(10 ** 6), 'units': unit()}]
        for _ in range(r.randint(3, 10)):
            x = r.random()
            k = r.randrange(4)
            if x < .28:
                steps.append({'do': 'value', 'k': k, 'kind': 'good' if r.random() < .7 else 'bad', 's': r.randrange(10 ** 6)})
            elif x < .45:
                steps.append({'do': 'units', 'k': k, 'units': unit()})
            elif x < .85:
                steps.append({'do': 'read', 'k': k, 's': r.randrange(10 ** 6), 'which': [r.randrange(1000) for _ in range(r.choice([1, 1, 2, 3]))]})
            elif x < .93:
                steps.append({'do': 'convert', 'k': k, 'units': unit() or 'cm'})
            else:
                steps.append({'do': 'new', 's': r.randrange(10 ** 6), 'units': unit()})
        return {'seed': r.randrange(1 << 30), 'tier': tier, 'steps': steps}
