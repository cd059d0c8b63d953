"""C23: a lookup leaves no trace on the later ones."""

import collections.abc
import copy
import gc
import itertools

import footprints
from footprints import collectors as fpcollectors, config, priorities
from footprints.stdtypes import FPDict, FPList
from mc import world, zoo
from mc.core import Violation

ID = 'C23'
RULE = ('for every configuration (reporting, fast mode, extended mode, default values, fasttrack index, shared resolution cache or not, objects '
        'kept or not) and every history of lookups (find_all, find_any, find_best, pickup, load, default, almost clone, instantiation, checks of a class; '
        'found, rejected, ambiguous or raising an error, with changes of an object in between; descriptions with objects, mutable values and hidden arguments): '
        'every lookup of the history gives the outcome it gives alone in a fresh world, and the descriptions, '
        'footprints, setup, default values and objects are as they were; '
        'classes with up to 75 attributes; descriptions with every name of a common alphabet (mc/zoo.py); '
        '18 kinds of actions (lookups in the same collector or in an other one, definitions, copies) made in the course of the lookup, at 10 places (conversion, computed default, '
        'method, property, constructor, hook, callback, comparison with a value or a clause): the outcome is the same as without them')
ASSUMPTIONS = ['the default values that are mutable are not changed in place by the user',
               'a shared resolution cache goes with an unchanged setup and unchanged objects',
               'Collector.default may give an object made before: only looked up when none is kept']
BOUNDS = dict(quick='one or two changes among 10 (defaults, callback, levels, classes, modes, objects) between lookups; 35 operations: histories of length 2 in 24 configurations; 17 operations: length 3 in 3 of them',
              thorough='35 operations: length 2 in 24 configurations, length 3 in 6; 17 operations: length 4 in one of them')

REPORTS = (config.ONERROR_REPORTING, config.FULL_REPORTING, config.NO_REPORTING, config.LIGHT_REPORTING)
# (and two thirds of them with the extended mode)
# reporting, fast mode, default values, fasttrack, shared cache, kept objects
CONFIGS = [(r, f, d, t, c, k) for r, (f, t) in zip(REPORTS + REPORTS[:2], ((False, ()), (False, ('kind',)), (True, ()), (True, ('kind', 'n')),
                                                                        (False, ('n', 'where')), (True, ('where',))))
           for d in (False, True) for c, k in ((False, True), (True, False))]


class Data:
    """Some object given as a value."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def method(self, *args):
        return 'fromdata'

    def failing(self, *args):
        raise RuntimeError('failing method')

    def __eq__(self, other):
        return isinstance(other, Data) and self.__dict__ == other.__dict__

    def __repr__(self):
        return 'Data({!r})'.format(sorted(self.__dict__.items(), key=str))


class Inner(footprints.FootprintBase):
    _abstract = True
    _explicit = False
    _collector = ('inner',)
    _footprint = dict(attr=dict(i=dict(type=int), way=dict(optional=True, default='w[i]', access='rwx')))


class InnerReal(Inner):
    """Some footprint object used as an attribute value."""


def build():
    world.make('K1', dict(
        attr=dict(
            kind=dict(values=['one', 'uno', 'both'], remap=dict(uno='one')),
            n=dict(type=int, values=range(1, 9), optional=True, default='2', remap=dict(six=6, **{'7': 8})),
            where=dict(optional=True, default='home', alias=('place',)),
            l=dict(type=FPList, optional=True, default=FPList(['dflt'])),
            s=dict(optional=True, default='[kind]/[n%03d]/[tail]'),
            tail=dict(optional=True, default='[l]', access='rwx'),
        )))
    world.make('K2', dict(
        attr=dict(
            kind=dict(values=['two', 'both']),
            n=dict(type=int, outcast=[5]),
            data=dict(type=Data, optional=True),
            x=dict(type=FPDict, optional=True),
            t=dict(optional=True, default='[n]-[kind:upper]'),
        ), priority=dict(level=footprints.priorities.top.TOOLBOX)))
    world.make('K3', dict(
        attr=dict(
            kind=dict(),
            where=dict(values=['here', 'there'], alias=('place',)),
            inner=dict(type=Inner),
            u=dict(optional=True, default='[inner:way]_[inner:i]'),
        ), only=dict(flag=['on', 'yes'])))
    world.make('K4', dict(
        attr=dict(kind=dict(values=['loop']), a=dict(optional=True, default='[b]'), b=dict(optional=True, default='[a]'),
                  where=dict(outcast=('here',)))))
    fpcollectors.get(tag='inner').add(InnerReal)
    return fpcollectors.get(tag='thing')


DATA = Data(kind='hidden', num=4)
INNER = [None]
CALLBACK = dict(cbn=3, cbl='[l]', kind='nokind')


def descriptions():
    inner = INNER[0]
    return dict(
        ok=dict(kind='uno', n='[data:num]', tail='[data:method]', data=DATA),
        default=dict(kind='one', where='w'),
        two=dict(kind='two', n=7, x={'k': ['v', {'w': 1}]}, data=DATA),
        rejected=dict(kind='two', n=5),
        missing=dict(place='there'),
        both=dict(kind='both', n='2', data=DATA, l=['x', ['y']]),
        three=dict(kind='three', place='here', inner=inner, flag='on'),
        only=dict(kind='three', place='here', inner=inner, flag='off'),
        callback=dict(kind='one', n='[cbn]', tail='[cbl]', l=['b']),
        leak=dict(kind='one', n=1, tail='[way]'),
        extra=dict(kind='one', n='[inner:i]', inner=inner, tail='[l][way]', l=['a']),
        loop=dict(kind='loop', where='x'),
        failing=dict(kind='one', n=1, tail='[data:failing]', data=DATA),
        unknown=dict(kind='one', n=1, s='[nowhere]'),
        bad=dict(kind='one', n='notint'),
        tagged=dict(kind='both', n=5, thing=None, things=None, where=''),
        tagbad=dict(kind='nothing', thing=None, n=0, x={}),
    )


def snap(v, depth=0):
    if isinstance(v, footprints.FootprintBase):
        return (type(v).__name__, sorted((k, snap(x, depth + 1)) for k, x in v.footprint_as_shallow_dict().items()))
    if isinstance(v, collections.abc.Mapping):
        return (type(v).__name__, sorted(((str(k), snap(x, depth + 1)) for k, x in v.items()), key=repr))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x, depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, sorted(map(repr, v)))
    if isinstance(v, type):
        return v.__name__
    return (type(v).__name__, repr(v))


def outcome(f, *a, **kw):
    try:
        return ('ok', snap(f(*a, **kw)))
    except Exception as e:
        # Nothing but the class of the error: the message may hold an address
        return ('raise', type(e).__name__)


def op(how, name):
    return (how, name)


OPS = [('all', 'ok'), ('all', 'both'), ('all', 'rejected'), ('all', 'three'), ('all', 'loop'), ('any', 'two'), ('any', 'failing'),
       ('best', 'both'), ('best', 'unknown'), ('pickup', 'three'), ('pickup', 'missing'), ('load', 'ok'), ('load', 'default'), ('load', 'extra'),
       ('load', 'only'), ('load', 'bad'), ('load', 'two'), ('load', 'callback'), ('all', 'leak'), ('new', 'ok'), ('new', 'bad'), ('new', 'failing'), ('couldbe', 'both'),
       ('best', 'tagbad'), ('best', 'tagged'), ('all', 'tagbad'), ('any', 'tagbad'), ('load', 'tagbad'), ('load', 'tagged'), ('couldbe', 'tagbad'),
       ('clone', 'two'), ('default', 'both'), ('inner', 'x'),
       ('poke', 'w9'), ('poke', 'w5')]
FEW = [o for o in OPS if o not in (('all', 'three'), ('best', 'both'), ('pickup', 'missing'), ('load', 'ok'), ('load', 'default'),
                                   ('load', 'two'), ('load', 'callback'), ('new', 'ok'), ('new', 'bad'), ('inner', 'x'), ('poke', 'w5'), ('default', 'both')) and o[1] not in ('tagged', 'tagbad')]
FEW.append(('best', 'tagbad'))


def cases(tier):
    short = tier == 'quick'
    for n in (3, 12, 29, 40, 75):
        for how in ('found', 'rejected', 'missing', 'marker', 'error'):
            yield ('wide', n, how)
    for k in range(len(zoo.NAMES)):
        for j in range(1, 4):
            yield ('names', k, j)
    for n in (1, 2):
        for changes in itertools.permutations(CHANGES, n):
            for first in CCALLS if n == 1 or not short else ('all', 'load'):
                for i in range(len(CDESCS)) if n == 1 or not short else (0, 3):
                    yield ('changing', changes, first, i)
    for report in REPORTS:
        for fast in (False, True) if report == config.LIGHT_REPORTING else (False,):
            for place in PLACES:
                for act in ACTIONS:
                    yield ('nested', report, fast, place, act)
    if not short:
        for report in REPORTS:
            for two in itertools.permutations(PLACES, 2):
                for acts in itertools.product(ACTIONS, repeat=2):
                    yield ('nested', report, False, two, acts)
    for c in range(len(CONFIGS)):
        for h in itertools.product(range(len(OPS)), repeat=1):
            yield (c, 'OPS', h)
    for c in range(2, len(CONFIGS), 9 if short else 4):
        for h in itertools.product(range(len(FEW)), repeat=2):
            yield (c, 'FEW', h)
        if not short:
            for h in itertools.product(range(len(OPS)), repeat=2):
                yield (c, 'OPS', h)
            if c == 2:
                for h in itertools.product(range(len(FEW)), repeat=3):
                    yield (c, 'FEW', h)


def start(cfg):
    report, fast, defaults, track, cache, keep = CONFIGS[cfg]
    world.reset()
    footprints.setup.report = report
    footprints.setup.fastmode = fast
    footprints.setup.fastkeys = ('kind',)
    footprints.setup.extended = cfg % 3 != 0
    if defaults:
        footprints.setup.defaults = dict(n='6', where='there', data=DATA, flag=['yes', 'on'], other=['B', 'a', 'B'], empty=[], nothing=None)
    INNER[0] = InnerReal(i=5)
    # Always the very same dictionary
    footprints.setup.callback = lambda: CALLBACK
    col = build()
    col.fasttrack = track
    return col


def classes(col):
    return sorted(col.items(), key=lambda c: c.__name__)


def play(what, col, cache, kept):
    how, name = what
    if how == 'poke':
        # The user changes an object: the next lookups see its new value
        INNER[0].way = name
        return ('poked',), None
    desc = descriptions().get(name)
    k1 = next(c for c in col.items() if c.__name__ == 'K1')
    before = snap(desc)
    same = {k: id(v) for k, v in (desc or {}).items()}
    given = None
    kw = dict(resolvecache=cache) if cache is not None else {}
    if how in ('all', 'any', 'best'):
        out = outcome(lambda: keep(getattr(col, 'find_' + how)(desc, **kw), kept))
    elif how == 'pickup':
        given = dict(desc)
        out = outcome(lambda: keep(col.pickup(given, **kw), kept))
    elif how == 'load':
        out = outcome(lambda: keep(col.load(**desc), kept))
    elif how == 'default':
        out = outcome(lambda: keep(col.default(**desc) if not kept else col.load(**desc), kept))
    elif how == 'new':
        out = outcome(lambda: keep(k1(**desc), kept))
    elif how == 'clone':
        out = outcome(lambda: keep(col.almost_clone(col.load(**desc), n=8), kept))
    elif how == 'couldbe':
        out = tuple(outcome(c.footprint_couldbe, desc) for c in classes(col))
    else:
        out = outcome(lambda: keep(fpcollectors.get(tag='inner').load(i='7'), kept))
    if [(k, id(v)) for k, v in (desc or {}).items()] != list(same.items()):
        raise Violation('{} {}: the values of the description are no longer the same: {!r}'.format(how, name, desc))
    if any(id(v) != same[k] for k, v in (given or {}).items() if k in same and k != 'thing'):
        raise Violation('{} {}: the values of what remains are no longer the same: {!r}'.format(how, name, given))
    if snap(desc) != before:
        raise Violation('{} {}: the description is now {!r} instead of {!r}'.format(how, name, snap(desc), before))
    report = None
    if footprints.setup.report == config.FULL_REPORTING and how in ('all', 'any', 'best', 'load', 'pickup'):
        report = snap(col.report_log.last.as_dict())
    return out, report


def keep(v, kept):
    if kept is not None:
        kept.append(v)
    return v


def surroundings(col):
    st = footprints.setup
    return ([(c.__name__, snap(c.footprint_retrieve().as_dict())) for c in classes(col)],
            [snap(getattr(st, k)) for k in ('report', 'fastmode', 'fastkeys', 'defaults', 'extended', 'callback', 'fatal')],
            snap(CALLBACK), snap(DATA), snap(DATA.__dict__), snap(INNER[0].footprint_as_dict()), snap(col.fasttrack))


_alone = {}


def alone(cfg, what, way):
    if (cfg, what, way) not in _alone:
        col = start(cfg)
        INNER[0].way = way
        cache = fpcollectors.ResolveCache() if CONFIGS[cfg][4] else None
        with world.LogCatcher():
            _alone[cfg, what, way] = play(what, col, cache, [] if CONFIGS[cfg][5] else None)
    return _alone[cfg, what, way]


def run_wide(case, rec):
    """The same lookups again and again in a class with many attributes."""
    _, n, how = case
    world.reset()
    footprints.setup.report = config.FULL_REPORTING
    names = ['w{}'.format(i) for i in range(n)]
    cls = world.make('W', dict(attr={a: dict(optional=i % 3 != 0, default='[w{}]-{}'.format(i - 1, i) if i % 5 == 2 else 'd{}'.format(i), values=['no', 'v'] if i == 0 else [])
                                     for i, a in enumerate(names)}))
    col = fpcollectors.get(tag='thing')
    desc = {a: 'v' for i, a in enumerate(names) if i % 3 == 0}
    full = {a: 'v' for i, a in enumerate(names)}
    odd = dict(found=full, rejected=dict(full, w0='z'), missing={k: v for k, v in desc.items() if k != 'w0'},
               marker=dict(desc, w1='[nowhere]'), error=dict(desc, w1='[w1x]'))[how]
    wants = {}
    for i, d in enumerate([desc, odd, full, desc, odd, odd, desc, full, full, desc]):
        with world.LogCatcher():
            for j, f in enumerate((col.find_all, col.find_any, col.find_best, cls.footprint_couldbe, lambda x: cls(**x), lambda x: col.load(**x))):
                got = outcome(f, d)
                if wants.setdefault((id(d), j), got) != got:
                    raise Violation('{!r}, lookup #{}: {!r} instead of {!r}'.format(case, i, got, wants[id(d), j]))
                rec.op()
        if list(names) != list(cls.footprint_retrieve().attr) or set(cls.footprint_mandatory()) != {a for i, a in enumerate(names) if i % 3 == 0}:
            raise Violation('{!r}: the footprint is now {!r}'.format(case, cls.footprint_retrieve()))
    rec.state(case)
    rec.outcome(('wide', how))


def run_names(case, rec):
    """Nothing of a description remains, whatever its names."""
    _, k, step = case
    pool = [zoo.NAMES[(k + i * step) % len(zoo.NAMES)] for i in range(4)]
    pool = [x for i, x in enumerate(pool) if x not in pool[:i] and x not in ('thing', 'things')]
    world.reset()
    footprints.setup.defaults = dict(other='o')
    footprints.setup.callback = lambda: CALLBACK
    cls = world.make('N', dict(attr=dict(q=dict(), r=dict(optional=True, default='[{}]'.format(pool[0])), s=dict(optional=True))))
    col = fpcollectors.get(tag='thing')
    probes = [dict(q='[{}]'.format(x)) for x in pool] + [dict(q='q'), dict(q='q', r='[cbn]'), {'q': 'q', pool[-1]: 'last'}]
    descs = [dict({x: 'v{}'.format(i) for i, x in enumerate(pool)}, q='q'), {x: i for i, x in enumerate(pool)}, dict(zip(pool, reversed(pool)), q='[{}]'.format(pool[-1]))]
    calls = [col.find_all, col.find_any, col.find_best, cls.footprint_couldbe, lambda d: col.pickup(dict(d)), lambda d: cls(d)]
    with world.LogCatcher():
        wants = [outcome(calls[0], p) for p in probes]
        before = (dict(footprints.setup.defaults), dict(CALLBACK), snap(cls.footprint_retrieve().as_dict()))
        for i, d in enumerate(descs):
            for j, f in enumerate(calls):
                copied = dict(d)
                outcome(f, d)
                rec.op()
                if d != copied or list(d) != list(copied):
                    raise Violation('{!r}: {!r} changed {!r} into {!r}'.format(case, j, copied, d))
                got = [outcome(calls[0], p) for p in probes]
                if got != wants:
                    raise Violation('{!r}: after {!r} by {}: {!r} instead of {!r}'.format(case, d, j, got, wants))
        if (dict(footprints.setup.defaults), dict(CALLBACK), snap(cls.footprint_retrieve().as_dict())) != before:
            raise Violation('{!r}: setup or footprint changed: {!r}'.format(case, footprints.setup.defaults))
    rec.state(case)
    rec.outcome('names')


# What the user may change between two lookups
CHANGES = ('default', 'nodefault', 'callback', 'callback value', 'level', 'class', 'pop', 'fast', 'extended', 'value')
CCALLS = ('all', 'any', 'best', 'load', 'pickup', 'couldbe', 'new')
CDESCS = (dict(kind='x'), dict(kind='x', o='o1'), dict(kind='[cbn]'), dict(kind='y', a='[o:way]'), dict(a='1'), dict(kind='x', b='[kind]-[cbn]'), dict(kind='z', b='[nowhere]'))


def change(what, st):
    """Apply a change: the rules for the next lookups."""
    if what == 'default':
        footprints.setup.defaults = dict(a='second')
    elif what == 'nodefault':
        footprints.setup.defaults = dict()
    elif what == 'callback':
        footprints.setup.callback = lambda: dict(cbn='z')
    elif what == 'callback value':
        st['callback']['cbn'] = 'y'
    elif what == 'level':
        col = fpcollectors.get(tag='thing')
        col.reset_package_level(st['A'].fullname(), 'none')
        col.reset_package_level(st['B'].fullname(), 'toolbox')
    elif what == 'class':
        st['C'] = world.make('C', dict(attr=dict(kind=dict(), a=dict(optional=True)), priority=dict(level=priorities.top.TOOLBOX)), h=2)
    elif what == 'pop':
        fpcollectors.get(tag='thing').discard(st['A'])
    elif what == 'fast':
        footprints.setup.fastmode = True
        footprints.setup.fastkeys = ('kind',)
    elif what == 'extended':
        footprints.setup.extended = False
    elif what == 'value':
        st['o'].way = 'other'


def changing_world():
    world.reset()
    st = dict(callback=dict(cbn='x'), o=Data(way='first'))
    footprints.setup.defaults = dict(a='first')
    footprints.setup.callback = lambda: st['callback']
    st['A'] = world.make('A', dict(attr=dict(kind=dict(values=['x', 'y', 'z'], optional=True, default='[cbn]'), a=dict(), o=dict(type=object, optional=True)), priority=dict(level=priorities.top.DEBUG)), h=1)
    st['B'] = world.make('B', dict(attr=dict(kind=dict(), b=dict(optional=True, default='[kind]/[cbn]'), o=dict(type=object, optional=True))), h=3)
    return st


def changing_call(how, desc, st):
    col = fpcollectors.get(tag='thing')
    desc = {k: st['o'] if k == 'o' else v for k, v in desc.items()}
    with world.LogCatcher():
        if how == 'couldbe':
            return tuple((c.__name__, outcome(c.footprint_couldbe, desc)) for c in classes(col))
        if how == 'new':
            return tuple((c.__name__, outcome(lambda: c(**desc))) for c in (st['A'], st['B']))
        if how == 'load':
            return outcome(lambda: col.load(_emptywarning=False, _report=False, **desc))
        if how == 'pickup':
            return outcome(lambda: col.pickup(dict(desc, _emptywarning=False, _report=False)))
        return outcome(getattr(col, 'find_' + how), desc)


def run_changing(case, rec):
    """A lookup made after a change gives what it gives when it was never preceded by an other one."""
    _, changes, first, i = case
    wants = {}
    for warm in (False, True):
        st = changing_world()
        if warm:
            changing_call(first, CDESCS[i], st)
        for c in changes:
            change(c, st)
            if warm:
                changing_call(first, CDESCS[i], st)
        for how in CCALLS:
            for j, d in enumerate(CDESCS):
                rec.op()
                got = changing_call(how, d, st)
                if wants.setdefault((how, j), got) != got:
                    raise Violation('{!r}: {} of {!r} gives {!r} instead of {!r}'.format(case, how, d, got, wants[how, j]))
    rec.state((changes, sorted(map(repr, wants.items()))))
    rec.outcome(('changing', changes[-1]))


# Lookups made in the course of a lookup
PLACES = ('type', 'default', 'method', 'property', 'init', 'riseup', 'callback', 'values', 'only', 'none')
ACTIONS = ('nothing', 'load', 'fail', 'raise', 'same all', 'same any', 'same load', 'same fail', 'same raise', 'collector', 'define', 'grep', 'default', 'clone', 'expand', 'gc',
           'priority', 'dump', 'deep')
_hooks = {}


class Busy:
    active = None
    depth = 0
    results = []


def hook(place):
    """What is done at some place of the resolution."""
    act = (Busy.active or {}).get(place)
    if act is None or Busy.depth:
        return
    Busy.depth += 1
    try:
        Busy.results.append((act, outcome(INNERS[act])))
    finally:
        Busy.depth -= 1


def inner_define():
    world.make('Late', dict(attr=dict(i=dict(values=['late']))), collector=('latecomers',))
    return footprints.load(tag='latecomer', i='late')


def thing():
    return fpcollectors.get(tag='thing')


INNERS = {
    'nothing': lambda: None,
    'load': lambda: footprints.load(tag='inner', i='7', way='[i]'),
    'fail': lambda: footprints.load(tag='inner', i='bad'),
    'raise': lambda: footprints.load(tag='inner', i=1, way='[nowhere]'),
    'same all': lambda: [(c.__name__, r) for c, r, i in thing().find_all(dict(kind='other', s='[kind]'))],
    'same any': lambda: thing().find_any(dict(kind='other', s='[kind]')),
    'same load': lambda: thing().load(kind='other'),
    'same fail': lambda: thing().load(kind='unknown'),
    'same raise': lambda: thing().load(kind='other', s='[nowhere]'),
    'collector': lambda: list(fpcollectors.get(tag='fresh').items()),
    'define': inner_define,
    'grep': lambda: footprints.grep(kind='nobody'),
    'default': lambda: footprints.default(tag='inner', i=5),
    'clone': lambda: INNER[0].footprint_clone(extra=dict(i=9)),
    'expand': lambda: footprints.util.expand(dict(a='1,2', b=[3, '[a]'])),
    'gc': lambda: gc.collect() and None,
    'priority': lambda: footprints.priorities.top.freeze('nested'),
    'dump': lambda: [c.build_attrmap() and None for c in fpcollectors.values()],
    'deep': lambda: copy.deepcopy(INNER[0]),
}


class Conv:
    """A type that makes a lookup when it is built."""

    def __init__(self, value):
        hook('type')
        self.value = str(value)

    def __repr__(self):
        return 'Conv({})'.format(self.value)

    def __eq__(self, other):
        return isinstance(other, Conv) and self.value == other.value

    def __hash__(self):
        return hash(self.value)


class Lazy(str):
    """A text that makes a lookup when it is compared."""

    def __eq__(self, other):
        hook('values')
        return str.__eq__(self, other)

    def __hash__(self):
        return str.__hash__(self)


class Computed:
    def footprint_value(self):
        hook('default')
        return 'computed'


class Clause:
    def match(self, value):
        hook('only')
        return value in ('x', 'other')


class Teller:
    def meth(self, guess, extras):
        hook('method')
        return 'told by ' + guess['kind']

    @property
    def prop(self):
        hook('property')
        return 'proper'


def nested_world(report, fast):
    world.reset()
    footprints.setup.report = report
    footprints.setup.fastmode = fast
    fpcollectors.get(tag='inner').add(InnerReal)

    def callback():
        hook('callback')
        return dict(cb='[kind]', tell=Teller())
    footprints.setup.callback = callback

    def __init__(self, *a, **kw):
        hook('init')
        super(cls, self).__init__(*a, **kw)

    def footprint_riseup(self):
        super(cls, self).footprint_riseup()
        hook('riseup')

    cls = world.make('Outer', dict(attr=dict(
        kind=dict(values=['x', 'y']), a=dict(type=Conv, optional=True, default='a[kind]'), b=dict(optional=True, default=Computed()),
        c=dict(optional=True, default='[tell:meth]'), d=dict(optional=True, default='<[tell:prop]>[b]'), e=dict(optional=True, default='[cb]'),
        f=dict(values=[Lazy('f'), Lazy('g')], optional=True, default='f')), only=dict(kind=Clause())), __init__=__init__, footprint_riseup=footprint_riseup)
    world.make('Other', dict(attr=dict(kind=dict(values=['x', 'other']), s=dict(optional=True, default='plain'))))
    world.make('Never', dict(attr=dict(kind=dict(values=['x', 'other', 'y']), z=dict(type=int))))
    INNER[0] = InnerReal(i=5)
    return cls, thing()


NDESCS = (dict(kind='x'), dict(kind='y'), dict(kind='x', a=Conv('given'), b='[tell:prop]'), dict(kind='x', f='h'), dict(kind='[b]'), dict(kind='x', e='[nowhere]'), dict(f='[kind]'), dict(kind='x', z=1))
NCALLS = ('all', 'any', 'best', 'load', 'pickup', 'couldbe', 'new', 'default', 'twice')


def nested_call(how, cls, col, desc):
    desc = dict(desc)
    if how == 'all':
        return sorted((c.__name__, snap(r), sorted(i)) for c, r, i in col.find_all(desc))
    if how == 'any':
        return type(col.find_any(desc)).__name__ in [c.__name__ for c, r, i in col.find_all(desc)] or 'none'
    if how == 'best':
        return snap(col.find_best(desc))
    if how == 'load':
        return snap(col.load(**desc))
    if how == 'pickup':
        return snap(col.pickup(desc))
    if how == 'couldbe':
        return [snap(x) for x in cls.footprint_couldbe(desc)]
    if how == 'new':
        return snap(cls(**desc))
    if how == 'default':
        return snap(col.default(**desc))
    first = col.load(**desc)
    return snap(first and first.footprint_clone(extra=dict(b='[kind]')))


def nested_run(case, active):
    _, report, fast, place, act = case
    cls, col = nested_world(report, fast)
    out, told = [], []
    with world.LogCatcher():
        for desc in NDESCS:
            for how in NCALLS:
                Busy.active, Busy.results = active, []
                try:
                    out.append((desc, how, outcome(nested_call, how, cls, col, desc)))
                finally:
                    Busy.active = None
                told.append(Busy.results)
        out.append(('then', [c.__name__ for c in classes(col)], len(footprints.setup.defaults), [outcome(nested_call, how, cls, col, d) for d in NDESCS for how in NCALLS]))
    return out, told


_flat = {}


def run_nested(case, rec):
    _, report, fast, place, act = case
    if (report, fast) not in _flat:
        _flat[report, fast] = nested_run(case, None)[0]
    active = dict(zip(place, act)) if isinstance(place, tuple) else {place: act}
    out, told = nested_run(case, active)
    for got, want in zip(out, _flat[report, fast]):
        rec.op()
        if got != want:
            raise Violation('{!r}: {!r} instead of {!r}'.format(case, got, want))
    # What was made inside is what is made alone
    nested_world(report, fast)
    with world.LogCatcher():
        alone = {a: outcome(INNERS[a]) for a in active.values()}
    for results in told:
        for a, got in results:
            rec.op()
            if a not in ('grep', 'gc') and got != alone[a]:
                raise Violation('{!r}: {!r} made inside gives {!r} instead of {!r}'.format(case, a, got, alone[a]))
    rec.state((case, out))
    rec.outcome(('nested', sum(map(len, told)) > 0))


def run(case, rec):
    if case[0] in ('wide', 'names', 'nested', 'changing'):
        return dict(wide=run_wide, names=run_names, nested=run_nested, changing=run_changing)[case[0]](case, rec)
    cfg, ops, history = case
    ops = dict(OPS=OPS, FEW=FEW)[ops]
    for last in range(len(ops)):
        seq = [ops[h] for h in history] + [ops[last]]
        ways = ['w5']
        for how, name in seq:
            ways.append(name if how == 'poke' else ways[-1])
        if CONFIGS[cfg][4] and len(set(ways)) > 1:
            continue
        wants = [alone(cfg, what, way) for what, way in zip(seq, ways)]
        col = start(cfg)
        INNER[0].way = ways[-1]
        around = surroundings(col)
        INNER[0].way = ways[0]
        cache = fpcollectors.ResolveCache() if CONFIGS[cfg][4] else None
        kept = [] if CONFIGS[cfg][5] else None
        with world.LogCatcher():
            for n, what in enumerate(seq):
                rec.op()
                got = play(what, col, cache, kept)
                if got != wants[n]:
                    raise Violation('{!r} after {!r} in {!r}: {!r} instead of {!r}'.format(what, seq[:n], CONFIGS[cfg], got, wants[n]))
        if surroundings(col) != around:
            raise Violation('{!r} in {!r}: footprints, setup or objects have changed: {!r} instead of {!r}'.format(
                seq, CONFIGS[cfg], surroundings(col), around))
        rec.state((cfg, wants))
        rec.outcome((wants[-1][0][0]))
    gc.collect(0)
