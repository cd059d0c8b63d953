"""C20: copies, clones, pickles and views of the objects."""

import collections
import copy
import itertools
import pickle
import weakref

import footprints
from footprints import collectors
from footprints.stdtypes import FPDict, FPList, FPSet, FPTuple
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C20'
RULE = ('for every initial object (attributes of each access mode, typed, remapped, substituted, class-valued, mutable, nested '
        'footprint object, given or not) and every history of copies (copy, deep copy, pickling, clone, full clone, almost clone, '
        'with changes or not) of the first or the last object, later changes (write, deletion, in-place change, plain member) and '
        'changes of the content of the views: after every step, the values of every object, their types, undefined attributes and '
        'views are compared with a model; the same with a weak attribute (copy, clone and shallow view); '
        'clones with up to 2 changes (by name or alias) of an object with up to 3 deleted attributes; every value of a common alphabet (mc/zoo.py) in every copy; every pattern of up to 5 attributes set, unset or deleted with up to 3 plain members in every copy, made once and twice, then written and deleted')
ASSUMPTIONS = ['no write of None, of "None" nor of a value with [ ]', 'in-place changes of a mutable value may show in a copy or '
               'a clone (not in a deep copy, a pickle or an almost clone), in the value given or in the default of the footprint', 'an almost clone of an object with unset attributes is not made once they have a default in the setup', 'weak attributes: neither deep copy nor pickling',
               'a clone of an object with a deleted attribute gets it again, unset']
BOUNDS = dict(quick='5 initial objects, 54 operations: length 2; 21 operations: length 3; weak: 3',
              thorough='5 initial objects, 54 operations: length 3; 21 operations: length 4; weak: 4')

NAMES = ('r', 'w', 'd', 's', 'l', 'q', 'c', 'o', 'm', 'u', 'x', 'y', 'z', 'p', 't')
START = [
    dict(r='a', w='1', l=['dd', ['e']]),
    dict(r='b', w=2, d='7', l=['x', ['y']], m='one', u='given'),
    dict(r='a', w='1', l=['dd'], q={'k', 'j'}, c=KeyError, o=True, d=3, t=(['x'], 'y')),
    dict(r='z', w=2, s='S', l=('t',), c=ValueError, o=True, m='two', x={'k': ['v']}, t=([],)),
    dict(r='', w='3', s='', l=[], q=set(), x={}, o=True, u='', m='', d=0),
]
COPIES = ['copy', 'deep', 'pickle0', 'pickle5', 'clone', 'clonefull', 'clonex', 'almost', 'almostx']
CHANGES = ['w', 's', 'd', 'del d', 'l', 'in l', 'in l2', 'in t', 'in q', 'in x', 'memo', 'memo0', 'in memo', 'o', 'in o', 'dflt']
VIEWS = ['dict', 'export', 'shallow']
OPS = [(op, who) for op in COPIES + CHANGES + VIEWS for who in (0, -1) if op != 'dflt' or who] + [('undefs', 0)]
FEW = [(op, -1) for op in COPIES] + [(op, who) for op in ('w', 'del d', 'in l', 'in memo', 'in x') for who in (0, -1)] + [('in o', 0), ('dflt', -1)]
WEAK = [(op, who) for op in ('copy', 'clone', 'clonex', 'set', 'unset', 'w', 'shallow') for who in (0, -1)]


class Inner(footprints.FootprintBase):
    _abstract = True
    _explicit = False
    _collector = ('inner',)
    _footprint = dict(attr=dict(i=dict(type=int, access='rwx')))


class InnerReal(Inner):
    """Some footprint object used as an attribute value."""

    def __bool__(self):
        return False


class Special:
    """Some type with its own way to be exported."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Special) and other.v == self.v

    def __repr__(self):
        return 'Special({!r})'.format(self.v)

    def export_dict(self):
        return 'special'


class Both(Special):
    """Some type with two ways to be exported."""

    def footprint_export(self):
        return 'both'


class Referent:
    pass


def cases(tier):
    for n in range(1, 6):
        for pattern in itertools.product('vud', repeat=n):
            for members in (0, 1, 3):
                yield ('unset', pattern, members)
    for i in range(len(zoo.VALUES + zoo.TEXTS)):
        for more in (0, 3):
            yield ('zoo', i, more)
    for start in (dict(), dict(b=1, c='v'), dict(d='q', e='E'), dict(b=2, c='w', d='x')):
        for gone in ((), ('a',), ('b',), ('d',), ('a', 'd'), ('a', 'b', 'd')):
            for n in (0, 1, 2):
                for extra in itertools.combinations(range(len(XEXTRA)), n):
                    if len({XEXTRA[x][0] for x in extra}) == n:
                        for how in ('clone', 'full', 'almost'):
                            yield ('extra', start, gone, extra, how)
    plus = 0 if tier == 'quick' else 1
    for i in range(len(START)):
        for ops, n in (('OPS', 1), ('OPS', 2 + plus), ('FEW', 3 + plus)):
            for h in itertools.product(range(len(OPS if ops == 'OPS' else FEW)), repeat=n - 1):
                yield (i, ops, h)
    for h in itertools.product(range(len(WEAK)), repeat=3 + plus):
        yield ('weak', 'WEAK', h)


def snap(v):
    """The structure of a value, types included."""
    if isinstance(v, FPList) or type(v) is list:
        return (type(v).__name__, [snap(x) for x in v])
    if isinstance(v, tuple):
        return (type(v).__name__, [snap(x) for x in v])
    if isinstance(v, FPSet):
        return ('FPSet', sorted(v))
    if isinstance(v, dict):
        return (type(v).__name__, sorted((k, snap(x)) for k, x in v.items()))
    if isinstance(v, Inner):
        return ('InnerReal', v.i)
    return (type(v).__name__, v)


def members(obj, names):
    out = {}
    for n in names:
        try:
            out[n] = snap(getattr(obj, n))
        except AttributeError:
            out[n] = 'deleted'
    return out


def thing():
    return world.make('K', dict(
        info='Some class',
        attr=dict(
            r=dict(remap=dict(z='zz')),
            w=dict(type=int, access='rwx', values=[1, 2, 3, 8]),
            d=dict(type=int, access='rwd', optional=True),
            s=dict(optional=True, access='rwx', default='[r]_[w]'),
            l=dict(type=FPList, access='rwx'),
            q=dict(type=FPSet, optional=True),
            c=dict(type=Exception, isclass=True, optional=True),
            o=dict(type=Inner, optional=True, access='rwx'),
            m=dict(optional=True, remap=dict(one='two', two='three')),
            u=dict(optional=True),
            x=dict(type=FPDict, optional=True),
            t=dict(type=FPTuple, optional=True),
            y=dict(type=Special, optional=True, default='y'),
            z=dict(type=FPList, optional=True, default=FPList(['default'])),
            p=dict(type=Both, optional=True, default='p'),
        )), footprint_export_u=lambda self: 'u is {}'.format(self.u))


def initial(start):
    d = dict(r=('str', {'z': 'zz'}.get(start['r'], start['r'])), w=('int', int(start['w'])),
             d=('int', int(start['d'])) if 'd' in start else ('NoneType', None),
             l=('FPList', [snap(x) for x in start['l']]),
             q=('FPSet', sorted(start['q'])) if 'q' in start else ('NoneType', None),
             c=('type', start['c']) if 'c' in start else ('NoneType', None),
             o=('InnerReal', 5) if 'o' in start else ('NoneType', None),
             m=('str', 'three' if start['m'] else '') if 'm' in start else ('NoneType', None),
             u=('str', start['u']) if 'u' in start else ('NoneType', None),
             x=('FPDict', [('k', ('list', [('str', 'v')]))] if start['x'] else []) if 'x' in start else ('NoneType', None))
    d['t'] = ('FPTuple', [snap(x) for x in start['t']]) if 't' in start else ('NoneType', None)
    d['z'] = ('FPList', [('str', 'default')])
    d['y'] = ('Special', Special('y'))
    d['p'] = ('Both', Both('p'))
    d['s'] = ('str', start.get('s', d['r'][1] + '_' + str(d['w'][1])))
    return d


XSPEC = dict(a=dict(access='rwd', alias=['al', 'aa']), b=dict(type=int, optional=True, default=5, access='rwd', alias=['bl']), c=dict(optional=True, values=['v', 'w']),
             d=dict(optional=True, access='rwd', alias=['dl'], remap=dict(x='y')), e=dict(optional=True, default='[a]!'))
XEXTRA = [('a', 'n'), ('al', 'n2'), ('aa', 'n3'), ('b', '9'), ('b', None), ('bl', 8), ('c', 'w'), ('c', 'bad'), ('d', 'x'), ('d', ''), ('dl', 'z'), ('zz', 1), ('e', '[zz]'), ('e', None)]


def run_extra(case, rec):
    """A clone with changes is what would be built from the current values and the changes."""
    _, start, gone, extra, how = case
    cls = world.make('K', dict(attr=copy.deepcopy(XSPEC)))
    col = collectors.get(tag='thing')
    obj = cls(**dict(a='1', **start))
    for g in gone:
        delattr(obj, g)
    extra = dict(XEXTRA[i] for i in extra)
    current = obj.footprint_as_shallow_dict()
    if how != 'almost' and any(current.get(k, 0) is None and set(s.get('alias', ())) & set(extra) for k, s in XSPEC.items()):
        # alias of an unset attribute: not specified
        rec.outcome('skipped')
        return
    exp = ref.resolve(XSPEC, dict(current, **extra))
    if exp[0] in ('raise', 'either'):
        rec.outcome('skipped')
        return
    where = '{} of an object with {!r}, changes {!r}'.format(how, current, extra)
    rec.op()
    try:
        new = obj.footprint_clone(extra=dict(extra)) if how == 'clone' else obj.footprint_clone(full=True, extra=dict(extra)) if how == 'full' else \
            col.almost_clone(obj, _emptywarning=False, **extra)
    except footprints.FootprintFatalError:
        new = None
    rec.outcome((exp[0], how))
    if (new is not None) != (exp[0] == 'ok'):
        raise Violation('{}: expected {!r}, got {!r}'.format(where, exp, new))
    if new is not None:
        got = {k: getattr(new, k, 'absent') for k in XSPEC}
        if not ref.strict_equal(got, ref.visible(exp[1])):
            raise Violation('{}: expected {!r}, got {!r}'.format(where, ref.visible(exp[1]), got))
        rec.state((how, sorted(got.items(), key=repr)))
    if obj.footprint_as_shallow_dict() != current:
        raise Violation('{}: the object is changed'.format(where))


def run_zoo(case, rec):
    """Values of all kinds are copied."""
    _, i, more = case
    value = (zoo.VALUES + zoo.TEXTS)[i]
    attr = dict(a=dict(type=object, access='rwx'))
    attr.update({'x{}'.format(j): dict(optional=True, default='d') for j in range(more)})
    cls = world.make('K', dict(attr=attr))
    col = collectors.get(tag='thing')
    obj = cls(a=value)

    def same(where, got):
        rec.op()
        if not ref.strict_equal({'a': got}, {'a': value}):
            raise Violation('{} of {!r}: {!r}'.format(where, value, got))
    for how, fun in (('copy', copy.copy), ('deep copy', copy.deepcopy), ('pickle', lambda o: pickle.loads(pickle.dumps(o))), ('clone', lambda o: o.footprint_clone()),
                     ('full clone', lambda o: o.footprint_clone(full=True)), ('almost clone', lambda o: col.almost_clone(o))):
        new = fun(obj)
        if new is obj or type(new) is not cls or new.footprint_attributes != obj.footprint_attributes:
            raise Violation('{} of {!r}: {!r}'.format(how, value, new))
        same(how, new.a)
        again = fun(new)
        same(how, again.a)
        new.a = 'written'
        same('original after a write in a ' + how, obj.a)
        same('second ' + how, again.a)
    same('dictionary', obj.footprint_as_dict()['a'])
    same('shallow dictionary', obj.footprint_as_shallow_dict()['a'])
    if not hasattr(value, 'footprint_export'):
        same('export', obj.footprint_export()['a'])
    rec.state((repr(value), more))
    rec.outcome('zoo')


def run_unset(case, rec):
    """Any of the attributes may be unset or deleted, any number of plain members."""
    _, pattern, members = case
    names = ['abcde'[i] for i in range(len(pattern))]
    hidden = {'m{}'.format(i): 'of the class' for i in range(0, members, 2)}
    cls = world.make('K', dict(attr={k: dict(optional=True, access='rwd', type=int) for k in names}), **hidden)
    col = collectors.get(tag='thing')
    obj = cls(**{k: i // 2 for i, (k, p) in enumerate(zip(names, pattern)) if p == 'v'})
    for k, p in zip(names, pattern):
        if p == 'd':
            delattr(obj, k)
    plain = {'m{}'.format(i): [len, ['x', i], dict, footprints.Footprint][i % 4] for i in range(members)}
    for k, v in plain.items():
        setattr(obj, k, v)
    model = {k: {'v': i // 2, 'u': None}.get(p, 'deleted') for i, (k, p) in enumerate(zip(names, pattern))}
    fresh = {k: None if v == 'deleted' else v for k, v in model.items()}

    def check(where, o, want, kept):
        rec.op()
        got = {k: getattr(o, k, 'deleted') for k in names}
        undefs = sorted(k for k, v in want.items() if v is None)
        values = {k: v for k, v in want.items() if v != 'deleted'}
        if type(o) is not cls or got != want or sorted(o.footprint_undefs()) != undefs or o.footprint_as_dict() != values:
            raise Violation('{!r}: {}: {!r}, {!r}, {!r} instead of {!r}'.format(case, where, got, o.footprint_undefs(), o.footprint_as_dict(), want))
        if collections.Counter(o.footprint_attributes_values) != collections.Counter(values.values()):
            raise Violation('{!r}: {}: the values are {!r} instead of {!r}'.format(case, where, o.footprint_attributes_values, want))
        if {k: getattr(o, k, None) for k in plain} != (plain if kept else dict(dict.fromkeys(plain), **hidden)):
            raise Violation('{!r}: {}: plain members {!r}'.format(case, where, {k: getattr(o, k, None) for k in plain}))
        if where.startswith('full clone') and any(getattr(o, k) is not v for k, v in plain.items()):
            raise Violation('{!r}: {}: plain members are not those of the original'.format(case, where))
        for k, v in want.items():
            # The copy may be used as the original one
            if v != 'deleted':
                setattr(o, k, '77')
                if getattr(o, k) != 77:
                    raise Violation('{!r}: {}: {} written'.format(case, where, k))
                delattr(o, k)
                if hasattr(o, k) or k in o.footprint_as_shallow_dict():
                    raise Violation('{!r}: {}: {} deleted'.format(case, where, k))
    for how, fun in (('copy', copy.copy), ('deep copy', copy.deepcopy), ('full clone', lambda o: o.footprint_clone(full=True)), ('clone', lambda o: o.footprint_clone()),
                     ('almost clone', lambda o: col.almost_clone(o, _emptywarning=False))) + tuple(
                         ('pickle {}'.format(p), lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)):
        exact = not how.endswith('clone')
        want, kept = (model if exact else fresh), exact or how == 'full clone'
        check(how, fun(obj), want, kept)
        check(how + ' twice', fun(fun(obj)), want, kept)
    check('original', obj, model, True)
    rec.state(case)
    rec.outcome('unset')


class Item:
    """An object and its model."""

    def __init__(self, obj, model, memo, group):
        self.obj = obj
        self.model = model
        self.memo = memo
        self.group = group


def verify(where, items, cls, names):
    for n, it in enumerate(items):
        if type(it.obj) is not cls:
            raise Violation('{}: object #{} is a {!r}'.format(where, n, type(it.obj)))
        got = members(it.obj, names)
        if got != it.model:
            raise Violation('{}: object #{}: {!r} instead of {!r}'.format(
                where, n, {k: v for k, v in got.items() if v != it.model[k]}, {k: v for k, v in it.model.items() if v != got[k]}))
        if getattr(it.obj, 'memo', 'no') != it.memo:
            raise Violation('{}: object #{}: plain member {!r} instead of {!r}'.format(where, n, getattr(it.obj, 'memo', 'no'), it.memo))


def check_views(where, it, names):
    present = {k: v for k, v in it.model.items() if v != 'deleted'}
    for view in ('footprint_as_dict', 'footprint_as_shallow_dict', 'footprint_export'):
        got = getattr(it.obj, view)()
        if set(got) != set(present):
            raise Violation('{}: {} gives {!r}'.format(where, view, got))
        for k, v in got.items():
            want = present[k]
            if view == 'footprint_export' and want[0] == 'FPSet':
                want = ('list', [snap(x) for x in sorted(want[1])])
            elif view == 'footprint_export' and want[0] == 'InnerReal':
                want = ('dict', [('i', ('int', want[1]))])
            elif view == 'footprint_export' and k == 'u':
                want = ('str', 'u is {}'.format(want[1]))
            elif view == 'footprint_export' and want[0] == 'Both':
                want = ('str', 'both')
            elif view == 'footprint_export' and want[0] == 'Special':
                want = ('str', 'special')
            if snap(v) != want:
                raise Violation('{}: {} gives {!r} for {}, instead of {!r}'.format(where, view, v, k, want))
            if view == 'footprint_as_shallow_dict' and v is not getattr(it.obj, k):
                raise Violation('{}: {} gives another {} object'.format(where, view, k))
    if sorted(it.obj.footprint_attributes) != sorted(present):
        raise Violation('{}: attributes {!r}'.format(where, it.obj.footprint_attributes))
    values = it.obj.footprint_attributes_values
    if sorted(map(repr, values)) != sorted(repr(getattr(it.obj, k)) for k in present):
        raise Violation('{}: values {!r}'.format(where, values))
    undefs = sorted(k for k, v in present.items() if v[1] is None)
    if sorted(it.obj.footprint_undefs()) != undefs:
        raise Violation('{}: undefined attributes {!r} instead of {!r}'.format(where, it.obj.footprint_undefs(), undefs))


def spoil(view):
    """Change the content of a view."""
    for k, v in list(view.items()):
        if isinstance(v, list):
            v.append('SPOILED')
            for x in v:
                if isinstance(x, list):
                    x.append('SPOILED')
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, list):
                    x.append('SPOILED')
        elif isinstance(v, set):
            v.add('SPOILED')
        elif isinstance(v, dict):
            for x in v.values():
                if isinstance(x, list):
                    x.append('SPOILED')
            v['SPOILED'] = []
        elif isinstance(v, Inner):
            v.i = 99
    view['new'] = 'SPOILED'
    view['r'] = 'SPOILED'


def duplicate(op, it, col, counter):
    obj = it.obj
    model = copy.deepcopy(it.model)
    memo = copy.deepcopy(it.memo)
    group = it.group
    if op == 'copy':
        new = copy.copy(obj)
    elif op == 'deep':
        new = copy.deepcopy(obj)
    elif op.startswith('pickle'):
        new = pickle.loads(pickle.dumps(obj, int(op[6:])))
    elif op.startswith('clone'):
        new = obj.footprint_clone(full=op == 'clonefull', **(dict(extra=dict(w='8', u='changed')) if op == 'clonex' else {}))
    else:
        new = col.almost_clone(obj, **(dict(w='8', u='changed') if op == 'almostx' else {}))
    if op.endswith('x'):
        model['w'] = ('int', 8)
        model['u'] = ('str', 'changed')
    if op.startswith(('clone', 'almost')):
        if model['d'] == 'deleted':
            model['d'] = ('NoneType', None)
        if op != 'clonefull':
            memo = 'no'
    if op in ('deep', 'pickle0', 'pickle5', 'almost', 'almostx'):
        group = counter
    return Item(new, model, memo, group)


def run(case, rec):
    if case[0] == 'unset':
        return run_unset(case, rec)
    if case[0] in ('zoo', 'extra'):
        return run_zoo(case, rec) if case[0] == 'zoo' else run_extra(case, rec)
    start, ops, history = case
    if start == 'weak':
        return run_weak(history, rec)
    alphabet = OPS if ops == 'OPS' else FEW
    cls = thing()
    col = collectors.get(tag='thing')
    for last in range(len(alphabet)):
        seq = [alphabet[h] for h in history] + [alphabet[last]]
        where = '{!r} {!r}'.format(START[start], seq)
        given = copy.deepcopy(START[start])
        footprints.setup.defaults = {}
        if given.get('o') is not None:
            given['o'] = InnerReal(i=5)
        items = [Item(col.load(**given), initial(START[start]), 'no', 0)]
        verify(where + ' at first', items, cls, NAMES)
        if any(op == 'dflt' for op, _ in seq) and any(op.startswith('almost') for op, _ in seq):
            continue
        for n, (op, who) in enumerate(seq):
            rec.op()
            it = items[who]
            if op in COPIES:
                items.append(duplicate(op, it, col, n + 1))
                if any(x.obj is items[-1].obj for x in items[:-1]):
                    raise Violation('{}: {} gives the very same object'.format(where, op))
            elif op == 'dflt':
                # New defaults are for the objects to come, not for the copies of this one
                footprints.setup.defaults = dict(u='dflt', m='one', c=KeyError, r='other', x={'n': 1}, q=['d'])
            elif op in CHANGES:
                change(op, it, items, n)
            elif op == 'shallow':
                view = it.obj.footprint_as_shallow_dict()
                view['r'] = view['new'] = 'SPOILED'
                view.pop('w')
            elif op == 'dict':
                spoil(it.obj.footprint_as_dict())
            elif op == 'export':
                spoil(it.obj.footprint_export())
            if n >= len(history) - 1:
                verify(where, items, cls, NAMES)
        for it in items:
            check_views(where, it, NAMES)
        verify(where, items, cls, NAMES)
        if len(col.instances()) != len(items):
            raise Violation('{}: {} live objects instead of {}'.format(where, len(col.instances()), len(items)))
        rec.state((start, [(sorted(it.model.items(), key=repr), it.memo) for it in items]))
        rec.outcome(len(items))
        del it, items


def change(op, it, items, n):
    obj, model = it.obj, it.model
    shared = [x for x in items if x.group == it.group]
    if op == 'w':
        obj.w = '3'
        model['w'] = ('int', 3)
    elif op == 's':
        obj.s = 'written'
        model['s'] = ('str', 'written')
    elif op == 'd':
        obj.d = '{}'.format(n)
        model['d'] = ('int', n)
    elif op == 'del d':
        try:
            del obj.d
        except AttributeError:
            if model['d'] != 'deleted':
                raise
        model['d'] = 'deleted'
    elif op == 'l':
        obj.l = ['new', n]
        model['l'] = ('FPList', [('str', 'new'), ('int', n)])
    elif op == 'o':
        obj.o = InnerReal(i=n)
        model['o'] = ('InnerReal', n)
    elif op == 'memo':
        obj.memo = ['m']
        it.memo = ['m']
    elif op == 'memo0':
        obj.memo = it.memo = None
    elif op == 'in memo':
        if it.memo not in (None, 'no'):
            same = [x for x in shared if getattr(x.obj, 'memo', 'no') is obj.memo]
            obj.memo.append(n)
            for x in same:
                x.memo = list(obj.memo)
    else:
        attr = op[3]
        value = getattr(obj, attr)
        if value is not None:
            # The objects that may share the value
            same = [x for x in shared if getattr(x.obj, attr) is value]
            if op == 'in l':
                value.append('inplace')
            elif op in ('in l2', 'in t'):
                inner = [x for x in value if isinstance(x, list)]
                same = [x for x in shared if any(y is z for y in inner for z in getattr(x.obj, attr))]
                for x in inner:
                    x.append('deeper')
            elif op == 'in q':
                value.add('inplace')
            elif op == 'in x':
                value.setdefault('k', []).append('inplace')
            else:
                value.i = 40 + n
            for x in same:
                x.model[attr] = snap(value)


def run_weak(history, rec):
    cls = world.make('W', dict(attr=dict(w=dict(type=int, access='rwx'), k=dict(type=Referent, access='rwd-weak', optional=True),
                                         u=dict(optional=True))))
    col = collectors.get(tag='thing')
    one, two = Referent(), Referent()
    for given in (True, False):
        where = 'weak {!r} {!r}'.format(given, [WEAK[h] for h in history])
        items = [[col.load(w=1, **(dict(k=one) if given else {})), 1, one if given else None, None]]
        for h in history:
            op, who = WEAK[h]
            rec.op()
            it = items[who]
            if op == 'copy':
                items.append([copy.copy(it[0])] + it[1:])
            elif op == 'clone':
                items.append([it[0].footprint_clone()] + it[1:])
            elif op == 'clonex':
                items.append([it[0].footprint_clone(extra=dict(k=two, u='x')), it[1], two, 'x'])
            elif op == 'set':
                it[0].k = two
                it[2] = two
            elif op == 'unset':
                try:
                    del it[0].k
                except AttributeError:
                    pass
                it[0].k = one
                it[2] = one
            elif op == 'w':
                it[0].w = 7
                it[1] = 7
            elif op == 'shallow':
                d = it[0].footprint_as_shallow_dict()
                if set(d) != {'w', 'k', 'u'} or d['w'] != it[1] or (d['k'] is None) is not (it[2] is None):
                    raise Violation('{}: {!r}'.format(where, d))
            for obj, w, k, u in items:
                got = obj.k
                if type(obj) is not cls or obj.w != w or obj.u != u or (got is None) is not (k is None):
                    raise Violation('{}: {!r} instead of {!r}'.format(where, (obj.w, got, obj.u), (w, k, u)))
                if k is not None and (not isinstance(got, weakref.ProxyTypes) or got.__repr__() != repr(k)):
                    raise Violation('{}: the weak attribute is {!r} instead of {!r}'.format(where, got, k))
        rec.state((given, [(x[1], x[2] is one, x[2] is two, x[3]) for x in items]))
