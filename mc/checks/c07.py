"""C07: fasttrack is only an index, it never changes the outcome of a lookup."""

import copy
import itertools

import footprints
from footprints import collectors
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C07'
RULE = ('every history of {define class 0 or 1, discard, add again, clear, pop, add all of them at once, set fasttrack to one of 5 sets} up to the '
        'depth, over every ordered pair of classes of an alphabet (values, conversions, constructor arguments, remap, '
        'outcast, alias, optional, priority); at the end of every history, every description of an alphabet is looked up '
        'with find_all, find_any and load, and compared with the model (which knows nothing about fasttrack); '
        'fasttrack attributes of all kinds of types, declared early or late, given by an alias or not')
ASSUMPTIONS = ['values of a fasttrack attribute compare consistently with their hash',
               'descriptions for which a class raises (impossible substitution) are left out']
BOUNDS = dict(quick='17 class shapes, 28 descriptions; 1 class: all histories of 3 operations (of 4, on 4 operations); ordered '
                    'pairs: 1 operation among 9 around the definitions; pairs: 2 among 4; triples: 1; fasttracks of 3 attributes: pairs of 64 classes; up to 30 classes of 50 values',
              thorough='1 class: 5 operations; ordered pairs: 2 among 9 and 3 among 6; ordered triples: 2 among 4')


class Odd:
    """Values whose conversion may fail in an unusual (but documented) way."""

    def __init__(self, v):
        if v == 'bad':
            raise footprints.FootprintException('cannot convert')
        self.v = getattr(v, 'v', v)

    def __eq__(self, other):
        return isinstance(other, Odd) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Odd({!r})'.format(self.v)


SHAPES = {
    'vx': dict(a=dict(values=['x', 'y'])),
    'vy': dict(a=dict(values=['y', '1'])),
    'any': dict(a=dict()),
    'int': dict(a=dict(type=int, values=[1, 2])),
    'base': dict(a=dict(type=int, args=dict(base=8), values=[8, 1])),
    'hex': dict(a=dict(type=int, args=dict(base=16), values=[16, 1])),
    'remap': dict(a=dict(values=['y'], remap=dict(x='y'))),
    'out': dict(a=dict(values=['x', 'y', 'z'], outcast=['y'])),
    'opt': dict(a=dict(values=['x'], optional=True, default='x'), b=dict()),
    'none': dict(b=dict(values=['x', 'q'])),
    'alias': dict(a=dict(values=['x', 'w'], alias=['b'])),
    'ab': dict(a=dict(values=['x', 'z']), b=dict(values=['x', 'w'])),
    'odd': dict(a=dict(type=Odd, values=['x', 'z'])),
    'bool': dict(a=dict(type=bool, values=[True])),
    'many': dict(a=dict(values=['q', 'x', 'r', 'y', 's', 'z', 't', 'w', '1'], outcast=['r'])),
    'fpstr': dict(a=dict(type=footprints.FPStr, values=['x', '10'])),
    'lst': dict(a=dict(type=footprints.FPTuple, values=[('x',), ('y',)])),
}

DESCS = [dict(a=v) for v in
         ('x', 'y', 'z', '1', 1, '10', '01', 1.0, True, 'bad', ['x'], ('x',), footprints.FPList(['x']),
          footprints.FPStr('x'), 'w', 'nope', '', 0, None, '2', 2)] + [
    dict(), dict(b='x'), dict(a='[b]', b='x'), dict(a='x', b='w'), dict(a='z', b='x'), dict(a='1', b='q'),
    dict(b='[c]', c='x', a='[b]')]

FT = {'F': (), 'Fa': ('a',), 'Fb': ('b',), 'Fab': ('a', 'b'), 'Fz': ('zz', 'a')}
_cache = {}


def expected(shape, i):
    if (shape, i) not in _cache:
        _cache[(shape, i)] = ref.match(dict(attr=SHAPES[shape]), DESCS[i])
    return _cache[(shape, i)]


def histories(n, maxlen, free, others=('X0', 'A0', 'C', 'P', 'B') + tuple(FT)):
    """Sequences of operations on ``n`` classes: every class is defined, a fasttrack is set at least
    once, and at most ``free`` operations besides the definitions."""
    ops = ['D{}'.format(i) for i in range(n)] + list(others)
    for k in range(1, maxlen + 1):
        for h in itertools.product(ops, repeat=k):
            nd = [o for o in h if o[0] == 'D']
            if nd != ['D{}'.format(i) for i in range(n)] or len(h) - len(nd) > free:
                continue
            if not any(o[0] == 'F' and o != 'F' for o in h):
                continue
            if any(o in ('X0', 'A0') and (j < h.index('D0')) for j, o in enumerate(h)):
                continue
            yield h


TRI = list(itertools.product(('free', 'p', 'pq', 'opt'), repeat=3))
TRIDESCS = [dict(zip('abc', v)) for v in itertools.product('pqz', repeat=3)] + [dict(a='p'), dict(a='p', b='p'), dict(a='q', c='q')]


def tri(kinds):
    return {k: dict(values=['p', 'q'] if s == 'pq' else ['p']) if s[0] == 'p' else dict(optional=(s == 'opt'))
            for k, s in zip('abc', kinds)}


def run_tri(case, rec):
    """Up to three attributes in the fasttrack."""
    _, kinds, order = case
    col = collectors.get(tag='thing')
    if order:
        col.fasttrack = ('a', 'b', 'c')
    classes = [world.make('K{}'.format(i), dict(attr=tri(k))) for i, k in enumerate(kinds)]
    if not order:
        col.fasttrack = ('c', 'b', 'a')
    for desc in TRIDESCS:
        want = {c for c, k in zip(classes, kinds) if ref.match(dict(attr=tri(k)), desc)[0] == 'ok'}
        got = [c for c, _, _ in col.find_all(desc)]
        rec.op()
        if len(got) != len(want) or set(got) != want:
            raise Violation('three attributes in the fasttrack, classes {!r}, with {!r}: candidates should be {!r}, got {!r}'.format(
                kinds, desc, want, got))
    rec.state(kinds)
    rec.outcome('tri')


def run_many(case, rec):
    """Many classes and values."""
    _, n, m, ktype = case
    col = collectors.get(tag='thing')
    col.fasttrack = ('a',)
    conv = {'str': str, 'int': int}[ktype]
    classes = [world.make('K{}'.format(i), dict(attr=dict(a=dict(type=conv, values=[conv(i * m + j) for j in range(m)])))) for i in range(n)]
    free = world.make('Free', dict(attr=dict(a=dict())))
    for again in (0, 1):
        for v in range(n * m + 1):
            want = {free} | ({classes[v // m]} if v < n * m else set())
            got = [c for c, _, _ in col.find_all(dict(a=str(v)))]
            rec.op()
            if len(got) != len(want) or set(got) != want:
                raise Violation('{} classes of {} values ({}), with {!r}: candidates should be {!r}, got {!r}'.format(
                    n, m, ktype, v, want, got))
        col.fasttrack = ()
        col.fasttrack = ('zz', 'a')
    rec.state((n, m, ktype))
    rec.outcome('many')


ZTYPES = [(object, {}), (int, {}), (int, dict(base=16)), (int, dict(base=8)), (zoo.Whole, dict(base=0)), (float, {}), (bool, {}), (str, {}), (zoo.Text, {}), (zoo.Color, {}), (zoo.Num, {}),
          (zoo.decimal.Decimal, {}), (zoo.fractions.Fraction, {}), (bytes, dict(encoding='utf8')), (frozenset, {}), (complex, {}), (footprints.FPTuple, {}), (Odd, {})]
INPUTS = zoo.VALUES + zoo.TEXTS + ['11', '16', '8', '1A', 'a0', 10, 16, 8, '0o10', '0b11', '2', '3', 'RED', 'blue', ['1'], ('1', '2'), 'bad']


def run_zoo(case, rec):
    """One class for each value that the type gives, all of them in one collector."""
    _, t, late, alias = case
    ktype, kargs = ZTYPES[t]
    values = []
    for v in INPUTS:
        try:
            v = ref._reclass(v, dict(type=ktype, args=kargs))
            hash(v)
        except Exception:
            continue
        if v == v and v not in values:
            values.append(v)
    col = collectors.get(tag='thing')
    if not late:
        col.fasttrack = ('a', 'b')
    specs = [dict(a=dict(type=ktype, args=kargs, values=[v] if i % 3 else [v, values[0]], alias=['b'] if alias else [])) for i, v in enumerate(values)]
    specs += [dict(a=dict(type=ktype, args=kargs, alias=['b'] if alias else []))]
    classes = [world.make('K{}'.format(i), dict(attr=copy.deepcopy(s))) for i, s in enumerate(specs)]
    if late:
        col.fasttrack = ('a',)
    for v in INPUTS:
        for desc in (dict(a=v), dict(a=v, b=values[-1]), dict(a=None, b=v)):
            want = [i for i, s in enumerate(specs) if ref.match(dict(attr=s), desc)[0] == 'ok']
            got = [(classes.index(c), r) for c, r, _ in col.find_all(desc)]
            rec.op()
            rec.outcome(len(want))
            if sorted(i for i, _ in got) != want:
                raise Violation('{} classes, type {!r} {!r}, with {!r}: candidates should be those of {!r}, got {!r}'.format(
                    len(classes), ktype, kargs, desc, [specs[i]['a'].get('values') for i in want], [specs[i]['a'].get('values') for i, _ in got]))
            for i, r in got:
                if not ref.strict_equal(r, ref.match(dict(attr=specs[i]), desc)[1]):
                    raise Violation('type {!r} {!r}, with {!r}: resolved as {!r}'.format(ktype, kargs, desc, r))
    rec.state(case)


def cases(tier):
    for t in range(len(ZTYPES)):
        for late in (0, 1):
            for alias in (0, 1):
                yield ('zoo', t, late, alias)
    for n in (1, 7, 30):
        for m in (1, 20, 50):
            for t in ('str', 'int'):
                yield ('many', n, m, t)
    for i, kinds in enumerate(itertools.combinations(TRI, 2) if tier == 'quick' else itertools.product(TRI, repeat=2)):
        yield ('tri', kinds, i % 2)
    names = list(SHAPES)
    if tier == 'quick':
        for s in names:
            for h in histories(1, 3, 2):
                yield ((s,), h)
        few = ('X0', 'B', 'Fa', 'Fab')
        for h in histories(1, 4, 3, few):
            for s in names:
                yield ((s,), h)
        for h in histories(2, 3, 1):
            for s in itertools.product(names, repeat=2):
                yield (s, h)
        for h in histories(2, 4, 2, few):
            for s in itertools.combinations(names, 2):
                yield (s, h)
        for s in itertools.combinations(names, 3):
            for h in histories(3, 4, 1, ('Fab',)):
                yield (s, h)
        return
    for h in histories(1, 5, 4):
        for s in names:
            yield ((s,), h)
    for h in histories(2, 4, 2):
        for s in itertools.product(names, repeat=2):
            yield (s, h)
    for h in histories(2, 5, 3, ('X0', 'B', 'C', 'F', 'Fa', 'Fab')):
        for s in itertools.product(names, repeat=2):
            yield (s, h)
    for h in histories(3, 5, 2, ('X0', 'C', 'Fa', 'Fab')):
        for s in itertools.product(names, repeat=3):
            yield (s, h)


def run(case, rec):
    if case[0] == 'zoo':
        return run_zoo(case, rec)
    if case[0] == 'tri':
        return run_tri(case, rec)
    if case[0] == 'many':
        return run_many(case, rec)
    shapes, history = case
    col = collectors.get(tag='thing')
    model = set()
    classes = {}
    for op in history:
        rec.op()
        if op[0] == 'D':
            i = int(op[1:])
            classes[i] = world.make('K{}'.format(i), dict(attr=copy.deepcopy(SHAPES[shapes[i]])))
            model.add(i)
        elif op == 'X0':
            col.discard(classes[0])
            model.discard(0)
        elif op == 'A0':
            col.add(classes[0])
            model.add(0)
        elif op == 'C':
            col.clear()
            model.clear()
        elif op == 'B':
            col.clear()
            col.add(*classes.values())
            model = set(classes)
        elif op == 'P':
            if model:
                gone = col.pop()
                gone = [i for i, c in classes.items() if c is gone]
                if len(gone) != 1 or gone[0] not in model:
                    raise Violation('{!r}: pop gave {!r}'.format(history, gone))
                model.discard(gone[0])
        else:
            col.fasttrack = FT[op]
    if set(col()) != {classes[i] for i in model}:
        raise Violation('{!r}: the collector holds {!r}'.format(history, col()))
    number = {c: i for i, c in classes.items()}
    for d, desc in enumerate(DESCS):
        exp = {i: expected(shapes[i], d) for i in model}
        if any(e[0] in ('raise', 'either') for e in exp.values()):
            continue
        want = sorted(i for i, e in exp.items() if e[0] == 'ok')
        got = col.find_all(desc)
        where = '{!r}, after {!r}, with {!r}'.format(shapes, history, desc)
        if sorted(number[c] for c, _, _ in got) != want:
            raise Violation('{}: candidates should be classes {!r}, got {!r}'.format(where, want, got))
        one = col.find_any(desc)
        obj = col.load(_emptywarning=False, **desc)
        for o in (one, obj):
            if (o is None) != (not want) or (o is not None and number[type(o)] not in want):
                raise Violation('{}: expected an object of classes {!r}, got {!r}'.format(where, want, o))
            if o is not None:
                values = ref.visible(exp[number[type(o)]][1])
                if not ref.strict_equal(world.attrs_of(o, values), values):
                    raise Violation('{}: wrong values {!r}'.format(where, world.attrs_of(o, values)))
        rec.op(3)
        rec.outcome(len(want))
    rec.state((shapes, sorted(model), sorted(col.fasttrack), history[-1]))
