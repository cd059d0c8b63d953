"""C10: access modes, validation of the writes, isolation of the objects."""

import itertools
import weakref

import footprints
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C10'
RULE = ('every sequence of sets (up to 11 values per attribute, false ones included) and deletes on the attributes of every access mode (rxx, rwx, rwd '
        'and the weak ones (given the object or a weak reference), with types, constructor arguments, values, outcast, class-valued) of two objects of a class and one '
        'of a derived class that changes an access mode; after every operation all the attributes of all the objects and their '
        'class footprint are compared with the model; then one attribute of every kind of type, in every access mode, given all the values of a common alphabet (mc/zoo.py); every source of the value of a weak attribute (10) and kind of copy: it is not kept alive')
ASSUMPTIONS = ['no write of the string "None", no remap on writable attributes', 'dead weak referents are not read']
BOUNDS = dict(quick='length 2 on 3 objects (204 operations), length 3 on 2 objects and 26 operations',
              thorough='length 3 on 3 objects (135 operations), length 4 on 26 operations')


class Target:
    def __init__(self, v='t'):
        if v == 'bad':
            raise ValueError(v)
        self.v = getattr(v, 'v', v)


class Sub(Target):
    pass


ATTRS = {
    'r': dict(),
    'w': dict(type=int, access='rwx', values=[1, 2, 8], args=dict(base=8)),
    'd': dict(type=int, access='rwd', outcast=[5], optional=True),
    's': dict(access='rwx', optional=True, default='dflt', outcast=['no']),
    'v': dict(type=int, access='rwd', values=[1, 2], outcast=[2], optional=True),
    'l': dict(type=footprints.FPList, access='rwd', optional=True, values=[footprints.FPList(['a']), ('b',)]),
    'c': dict(type=Target, isclass=True, access='rwx', optional=True, outcast=[Sub]),
    'kw': dict(type=Target, access='rwx-weak', optional=True),
    'kd': dict(type=Target, access='rwd-weak', optional=True),
    'kr': dict(type=Target, access='rxx-weak', optional=True),
}
VALUES = {
    'r': ['z'],
    'w': ['10', 2, '3', 'q', None],
    'd': ['7', 5, '5', None, 3],
    's': ['x', 4, 'no', None],
    'v': ['1', 2, '2', 4],
    'l': [['a'], ('b',), ['c'], 3],
    'c': [Target, Sub, int, None],
    'kw': ['T1', 'T2', None, 'bad'],
    'kd': ['T1', None, 'T2'],
    'kr': ['T1'],
}
OLDVALUES = {k: len(v) for k, v in VALUES.items()}
for _a, _v in dict(w=['', 0, False], d=['', 0, False, [], 0.0], s=['', 0, False, ()], v=['', 0], l=[[], (), '', 0, None], c=['', 0], r=['', None], kw=['P1', 'P0'], kd=['P2'], kr=['P1']).items():
    VALUES[_a] += _v
OPS = [(o, 'set', a, i) for a in ATTRS for i in range(len(VALUES[a])) for o in range(3)] + \
      [(o, 'del', a) for a in ATTRS for o in range(3)]
FEW = [(o, 'set', a, i) for o in (0, 1) for a, i in
       (('w', 0), ('w', 3), ('d', 0), ('d', 1), ('l', 0), ('l', 2), ('kd', 0), ('kw', 2), ('s', 0))] + \
      [(o, 'del', a) for o in (0, 1) for a in ('d', 'l', 'kd', 'w')]


ZSPECS = [dict(), dict(type=object), dict(type=int), dict(type=float, values=[1, 2.5]), dict(type=zoo.Color), dict(type=zoo.Num, outcast=[1]), dict(type=zoo.Text), dict(type=zoo.Whole, args=dict(base=16)),
          dict(type=object, values=[1, 'red', (1, 2), b'1']), dict(type=object, outcast=[True, '', ()]), dict(type=bool), dict(type=zoo.decimal.Decimal), dict(type=bytes, args=dict(encoding='utf8')),
          dict(type=footprints.FPTuple), dict(type=footprints.FPDict), dict(type=frozenset), dict(type=int, isclass=True), dict(type=object, isclass=True)]


def run_zoo(case, rec):
    """Values of all kinds, on the only attribute of the object, optional or not."""
    _, i, acc, alone, opt = case
    spec = dict(ZSPECS[i], access=acc)
    if opt:
        spec['optional'] = True
    first = next(v for v in ['1', 1, int, {1: 2}, 'red', 2] if not _refused(v, spec))
    attr = {'a': dict(spec)}
    if not alone:
        attr['b'] = dict(access='rwd', optional=True)
    cls = world.make('K', dict(attr=attr))
    for value in zoo.VALUES + zoo.TEXTS:
        if value == 'None':
            continue
        rec.op()
        start = None if opt else first
        obj = cls() if opt else cls(a=first)
        last = cls() if opt else cls(a=first)
        where = '{!r}: write of {!r}'.format(spec, value)
        try:
            exp = ('ok', ref.accept(value, spec))
        except ref._Reject:
            exp = ('refused',)
        if acc == 'rxx':
            exp = ('refused',)
        try:
            obj.a = value
            done = True
        except (AttributeError, ValueError, TypeError, ArithmeticError):
            done = False
        if done != (exp[0] == 'ok'):
            raise Violation('{} should be {}'.format(where, exp[0]))
        want = exp[1] if done else ref.accept(start, spec) if start is not None else None
        if not ref.strict_equal({'a': obj.a}, {'a': want}):
            raise Violation('{}: the value should be {!r}, it is {!r}'.format(where, want, obj.a))
        rec.outcome((acc, done))
        rec.state((i, acc, repr(want)))
        try:
            del obj.a
            gone = True
        except AttributeError:
            gone = False
        if gone != (acc == 'rwd') or hasattr(obj, 'a') != (acc != 'rwd') or ('a' in obj.footprint_attributes) != (acc != 'rwd'):
            raise Violation('{}, then a deletion: {}, attributes {!r}'.format(where, gone, obj.footprint_attributes))
        if not ref.strict_equal({'a': last.a}, {'a': ref.accept(start, spec) if start is not None else None}):
            raise Violation('{}: an other object has the value {!r}'.format(where, last.a))


def _refused(value, spec):
    try:
        ref.accept(value, spec)
    except ref._Reject:
        return True
    return False


class Caller(Target):
    """The weak proxies of such objects have a type of their own."""

    def __call__(self):
        return self.v


SOURCES = ('given', 'alias', 'setup', 'default', 'computed', 'load', 'default()', 'written', 'proxy', 'wproxy')
HELD = []


class Computed:
    def footprint_value(self):
        return HELD[0]


COPIES = ('none', 'copy', 'clone', 'almost')


def run_weaksrc(case, rec):
    """Wherever its value comes from, a weak attribute does not keep it."""
    _, acc, src, cop, two = case
    import copy
    import gc
    HELD.clear()
    kept = Caller('V') if src in ('proxy', 'wproxy') else Target('V')
    ref_ = weakref.ref(kept)
    spec = dict(type=Target, access=acc, optional=True, alias=['t'])
    if src == 'default':
        spec['default'] = kept
    elif src == 'computed':
        HELD.append(kept)
        spec['default'] = Computed()
    attr = dict(a=dict(), k=spec)
    if two:
        attr['j'] = dict(type=Target, optional=True)
    cls = world.make('K', dict(attr=attr))
    spec.pop('default', None)
    attr = None
    if src == 'setup':
        footprints.setup.defaults = dict(k=kept)
    kw = dict(given=dict(k=kept), load=dict(k=kept), proxy=dict(k=weakref.proxy(kept)), alias=dict(t=kept)).get(src, {})
    kw['a'] = 'x'
    if two:
        kw['j'] = Target('J')
    if src == 'load':
        obj = footprints.collectors.get(tag='thing').load(**kw)
    elif src == 'default()':
        obj = footprints.collectors.get(tag='thing').default(k=kept, **kw)
    else:
        obj = cls(**kw)
        if src in ('written', 'wproxy'):
            if acc.startswith('rxx'):
                return
            obj.k = weakref.proxy(kept) if src == 'wproxy' else kept
    kw.clear()
    new = dict(none=lambda: obj, copy=lambda: copy.copy(obj), clone=lambda: obj.footprint_clone(),
               almost=lambda: obj.footprint_clone(extra=dict(a='y')))[cop]()
    rec.op()
    for o in (obj, new):
        if not isinstance(o.k, weakref.ProxyTypes) or o.k.v != 'V' or (src != 'default' and o.k.__repr__() != kept.__repr__()):
            raise Violation('{!r}: the value of the attribute is {!r}'.format(case, o.k))
        if two and isinstance(o.j, weakref.ProxyTypes):
            raise Violation('{!r}: a plain attribute is {!r}'.format(case, o.j))
    rec.state(case)
    rec.outcome('weaksrc')
    if src in ('setup', 'default'):
        return                  # these ones are kept by their owner
    if src == 'computed':
        HELD.clear()
    o = kept = None
    if ref_() is not None:
        gc.collect()
    if ref_() is not None:
        raise Violation('{!r}: the value is kept alive'.format(case))
    for o in (obj, new):
        try:
            o.k.v
        except ReferenceError:
            continue
        raise Violation('{!r}: the value is still there'.format(case))


def cases(tier):
    for c in itertools.product(('rxx-weak', 'rwx-weak', 'rwd-weak'), SOURCES, COPIES, (0, 1)):
        yield ('weaksrc',) + c
    for i in range(len(ZSPECS)):
        for acc in ('rxx', 'rwx', 'rwd'):
            for alone in (0, 1):
                for opt in (0, 1):
                    yield ('zoo', i, acc, alone, opt)
    plus = 0 if tier == 'quick' else 1
    for n in range(1, 3 + plus):
        keep = [i for i, op in enumerate(OPS) if n < 3 or op[1] == 'del' or op[3] < OLDVALUES[op[2]]]
        for h in itertools.product(keep, repeat=n):
            yield ('all', h)
    for h in itertools.product(range(len(FEW)), repeat=3 + plus):
        yield ('few', h)


ABSENT = 'ABSENT'


def verdict(attr, value):
    """Expected effect of a write: ('ok', value) / ('refused',) / ('either',)."""
    spec = ATTRS[attr]
    if value is None:
        return ('either',)
    try:
        return ('ok', ref.accept(value, spec))
    except ref._Reject:
        return ('refused',)


def same(x, y):
    if isinstance(x, weakref.ProxyTypes):
        return isinstance(y, Target) and not isinstance(y, weakref.ProxyTypes) and x.v == y.v and x.__repr__() == y.__repr__()
    return type(x) is type(y) and (x is y or x == y)


def run(case, rec):
    if case[0] == 'weaksrc':
        return run_weaksrc(case, rec)
    if case[0] == 'zoo':
        return run_zoo(case, rec)
    which, history = case
    ops = [(OPS if which == 'all' else FEW)[i] for i in history]
    import copy
    cls = world.make('K', dict(attr=copy.deepcopy(ATTRS)))
    sub = world.make('L', dict(attr=dict(w=dict(access='rwd'), r=dict(access='rwx'))), bases=(cls,))
    targets = dict(T0=Target('T0'), T1=Target('T1'), T2=Target('T2'))
    objs = [cls(r='r0', w=1, kr=targets['T0']), cls(r='r1', w='2', d=1), sub(r='r2', w=1, kd=targets['T0'], l=['b'])]
    model = [dict(r='r0', w=1, d=None, s='dflt', v=None, l=None, c=None, kw=None, kd=None, kr=targets['T0']),
             dict(r='r1', w=2, d=1, s='dflt', v=None, l=None, c=None, kw=None, kd=None, kr=None),
             dict(r='r2', w=1, d=None, s='dflt', v=None, l=footprints.FPList(['b']), c=None, kw=None, kd=targets['T0'], kr=None)]
    modes = [{a: ATTRS[a].get('access', 'rxx') for a in ATTRS} for _ in objs]
    modes[2].update(w='rwd', r='rwx')
    for n, o in enumerate(objs):
        for a in ATTRS:
            if o.footprint_access(a) != modes[n][a]:
                raise Violation('footprint_access({}) gives {!r}'.format(a, o.footprint_access(a)))
    for step, op in enumerate(ops):
        o, what, a = op[:3]
        mode = modes[o][a]
        where = repr(ops[:step + 1])
        rec.op()
        if what == 'set':
            value = VALUES[a][op[3]]
            if 'weak' in mode and value is not None:
                value = targets.get(value, value)
                if value in ('P0', 'P1', 'P2'):
                    value = weakref.proxy(targets['T' + value[1]])
            exp = ('refused',) if mode.startswith('rxx') else verdict(a, value)
            if isinstance(value, weakref.ProxyTypes) and exp[0] == 'ok':
                exp = ('ok', targets['T' + value.v[1]])
            if 'weak' in mode and exp[0] == 'ok' and not isinstance(value, Target):
                exp = ('refused',)
            try:
                setattr(objs[o], a, value)
                done = True
            except (AttributeError, ValueError) as e:
                done = False
                if mode.startswith('rxx') and not isinstance(e, AttributeError):
                    raise Violation('{}: {!r}'.format(where, e))
            if exp[0] == 'either':
                if done:
                    model[o][a] = None
            elif done != (exp[0] == 'ok'):
                raise Violation('{}: the write of {!r} should be {}'.format(where, value, exp[0]))
            elif done:
                model[o][a] = exp[1]
            rec.outcome((what, mode, done))
        else:
            exp = mode.startswith('rwd') and model[o][a] != ABSENT
            try:
                delattr(objs[o], a)
                done = True
            except AttributeError:
                done = False
            if done != exp:
                raise Violation('{}: the deletion {}'.format(where, 'was accepted' if done else 'was refused'))
            if done:
                model[o][a] = ABSENT
            rec.outcome((what, mode, done))
        if step + 1 == len(ops):
            # No way to write without the authorization of the class
            for auth in (None, 0, 'auth', hash('mcworld.Other')):
                for write in (lambda: objs[o].footprint_setattr(a, 'forced', auth=auth), lambda: objs[o].footprint_delattr(a, auth=auth)):
                    try:
                        write()
                    except AttributeError:
                        continue
                    raise Violation('{}: attribute {} changed without authorization'.format(where, a))
        for n, (obj, m) in enumerate(zip(objs, model)):
            for k, v in m.items():
                if not hasattr(obj, k):
                    if v is not ABSENT:
                        raise Violation('{}: attribute {} of object {} disappeared'.format(where, k, n))
                    continue
                x = getattr(obj, k)
                if v is ABSENT:
                    raise Violation('{}: attribute {} of object {} is still {!r}'.format(where, k, n, x))
                if not same(x, v):
                    raise Violation('{}: attribute {} of object {} should be {!r}, it is {!r}'.format(where, k, n, v, x))
            present = sorted(k for k, v in m.items() if v is not ABSENT)
            if sorted(obj.footprint_attributes) != present:
                raise Violation('{}: attributes of object {} are {!r}'.format(where, n, obj.footprint_attributes))
            und = sorted(k for k in present if m[k] is None)
            if sorted(obj.footprint_undefs()) != und:
                raise Violation('{}: undefined attributes of object {}: {!r}, expected {!r}'.format(
                    where, n, obj.footprint_undefs(), und))
    rec.state([sorted((k, v.v if isinstance(v, Target) else repr(v)) for k, v in m.items()) for m in model])
    # values are not kept alive by weak attributes
    refs = {k: weakref.ref(t) for k, t in targets.items()}
    value = exp = None
    model.clear()
    m = v = x = None
    targets.clear()
    for k, r in refs.items():
        if r() is not None:
            import gc
            gc.collect()
            if r() is not None:
                raise Violation('{!r}: a weak attribute keeps its value alive'.format(ops))
    fresh = cls(r='r9', w=8)
    if not (fresh.d is None and fresh.s == 'dflt' and fresh.l is None and fresh.w == 8):
        raise Violation('{!r}: a new object is altered'.format(ops))
