"""C01: an attribute accepts exactly the conforming values (remap, type, values, outcast)."""

import itertools
import re

import footprints
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C01'
RULE = ('product of attribute specifications (type, args, values, outcast, remap, optional) and of '
        'input tokens; every class of the product is defined for real, then loaded and instantiated '
        'with every token; outcome and value compared with the reference model (value and type); '
        'then types of all kinds with the values and texts of a common alphabet (mc/zoo.py)')
ASSUMPTIONS = ['token alphabet of 34 values; at most two attributes per footprint; remap chains of length <= 3; an automatic remap prevails over an explicit one']
BOUNDS = dict(quick='17 types x <=4 values x <=3 outcast x 6 remap x 2 optional x 34 inputs; given otherwise (default, computed default, setup, alias); 2 attributes; declarations of up to 70 items, each of them looked at',
              thorough='same, full product of two independent attributes specifications')


class Tag(str):
    pass


class Unit:
    """A type with a constructor argument, that rejects what is not a number."""

    def __init__(self, v, scale=1):
        if isinstance(v, Unit):
            v = v.v
        self.v = int(v) * scale

    def __eq__(self, other):
        return isinstance(other, Unit) and self.v == other.v

    def __hash__(self):
        return hash(('unit', self.v))

    def __repr__(self):
        return 'Unit({})'.format(self.v)


class Deaf(footprints.FootprintException):
    pass


class Picky(str):
    """A type whose constructor raises a FootprintException."""

    def __new__(cls, v):
        if v == 'x':
            raise Deaf(v)
        return str.__new__(cls, v)


class Fussy(str):
    """A type whose constructor raises other errors than ValueError or TypeError."""

    def __new__(cls, v):
        error = {'x': KeyError, 'y': AttributeError, '2': RuntimeError, '': ZeroDivisionError, 'None': re.error}.get(str(v))
        if error:
            raise error(v)
        return str.__new__(cls, v)


class Rx(footprints.FPRegex):
    """Protected regular expressions that can be compared."""

    def __eq__(self, other):
        return isinstance(other, Rx) and self.footprint_export() == other.footprint_export()

    def __hash__(self):
        return hash(self.pattern)


class K0:
    pass


class K1(K0):
    pass


TYPES = {'str': (None, {}), 'int': (int, {}), 'float': (float, {}), 'bool': (bool, {}), 'Tag': (Tag, {}),
         'Unit': (Unit, {}), 'Unit10': (Unit, {'scale': 10}), 'Picky': (Picky, {}), 'Fussy': (Fussy, {}), 'Rx': (Rx, {}), 'Rxi': (Rx, {'flags': re.IGNORECASE}),
         'FPList': (footprints.FPList, {}), 'list': (list, {}), 'mapping': (dict, {}), 'set': (set, {}), 'FPTuple': (footprints.FPTuple, {}), 'cls': (K0, {})}

TOKENS = {
    'one': 1, 's1': '1', 's01': '01', 'two': 2, 's2': '2', 'x': 'x', 'y': 'y', 'X': 'X', 'sNone': 'None',
    'f1': 1.0, 'f15': 1.5, 'true': True, 'tag1': Tag('1'), 'u1': Unit(1), 'u10': Unit(1, scale=10),
    'l1': footprints.FPList([1]), 't12': footprints.FPTuple((1, [2])), 'K0': K0, 'K1': K1, 'int': int,
    'empty': '', 'zero': 0, 'none': 'none', 'NONE': 'NONE', 'dict': {'p': 1}, 'rl1': [1], 'rlx': ['x'], 'set1': {1}, 'fdict': footprints.FPDict(p=1), 'fset': footprints.FPSet(['x']), 'absent': None,
    'paren': '(', 'inf': float('inf'), 'rx': Rx('y'),
}

VALUES = {'str': [(), ('1', 'x'), ('x', 'y', 'z'), (1, 2)],
          'int': [(), (1, 2), ('1', '01', 2), (0,)],
          'float': [(), (1.0, 2), ('1.5', '1.50')],
          'bool': [(), (True,)],
          'Tag': [(), ('1', 'x')],
          'Unit': [(), (1, 2), ('1',)], 'Unit10': [(), (1, 2), (TOKENS['u10'],)],
          'Picky': [(), ('y', '1')], 'Fussy': [(), ('z', '1')], 'Rx': [(), ('y', '1')], 'Rxi': [(), ('y', '1')],
          'FPList': [(), (footprints.FPList([1]),)], 'list': [(), (footprints.FPList([1]), footprints.FPList(['y']))], 'mapping': [(), (footprints.FPDict(p=1),)],
          'set': [(), (footprints.FPSet([1]),)], 'FPTuple': [(), (footprints.FPTuple((1, 2)),)],
          'cls': [(), (K1,), (K0, K1)]}
OUTCAST = {'str': [(), ('x',), (1,)], 'int': [(), (1,), ('2', '02')], 'float': [(), (1,)], 'bool': [(), (False,)],
           'Tag': [(), ('x',)], 'Unit': [(), ('2',)], 'Unit10': [(), (1,)], 'Picky': [(), ('y',)],
           'Fussy': [(), ('1',)], 'Rx': [(), ('x',)], 'Rxi': [(), ('x',)],
           'FPList': [(), (footprints.FPList(['x']),)], 'list': [(), (footprints.FPList(['x']),)], 'mapping': [(), (footprints.FPDict(p=1),)], 'set': [()], 'FPTuple': [()], 'cls': [(), (K1,)]}
REMAPS = [{}, {'x': '1'}, {'x': 'y', 'y': '2'}, {'x': 'y', 'y': 'z', 'z': 'x'}, {'x': 'x', '1': '2'},
          {1: 'x', '2': 1}]


def spec_of(t, vi, oi, ri, opt, acc='rxx'):
    ktype, kargs = TYPES[t]
    s = dict()
    if ktype is not None:
        s['type'] = ktype
    if kargs:
        s['args'] = dict(kargs)
    if t == 'cls':
        s['isclass'] = True
    if VALUES[t][vi]:
        s['values'] = list(VALUES[t][vi])
    if OUTCAST[t][oi]:
        s['outcast'] = list(OUTCAST[t][oi])
    if REMAPS[ri]:
        s['remap'] = dict(REMAPS[ri])
    if opt:
        s['optional'] = True
    return s


def specs():
    for t in TYPES:
        for vi, oi, ri, opt in itertools.product(range(len(VALUES[t])), range(len(OUTCAST[t])),
                                                 range(len(REMAPS)), (0, 1)):
            yield (t, vi, oi, ri, opt)


SECOND = [('str', 1, 0, 1, 0), ('int', 1, 1, 0, 0), ('int', 2, 0, 2, 1), ('Unit', 1, 0, 0, 1)]

# values, automatic remap, explicit one
AUTO = [(v, a, e) for v in (('x', 'y', 'z'), ('x', 'y', 'x'), ('1', '2'), (1, 2, 3), ('y',)) for a in ('first', ('first',), ['other', 'first'], 'other')
        for e in ({}, {'y': 'q', 'X': 'y'}, {'x': 'empty'}, {'x': 'y'}, {'1': '2', 1: 2})]
VIA = ('default', 'live', 'setup', 'alias', 'setup alias', 'setup default')


# Large declarations: every item of each of them is looked at
LARGE = (1, 9, 33, 70)


def large(n):
    unhash = [footprints.FPList([i]) for i in range(n)]
    yield 'values', list, dict(values=unhash), [([i], 'ok', [i]) for i in range(n)] + [([n], 'no', None)]
    yield 'outcast', list, dict(outcast=unhash), [([i], 'no', None) for i in range(n)] + [([n], 'ok', [n])]
    yield 'ivalues', int, dict(values=list(range(n))), [(str(i), 'ok', i) for i in range(n)] + [(str(n), 'no', None)]
    yield 'ioutcast', int, dict(outcast=list(range(n))), [(str(i), 'no', None) for i in range(n)] + [(str(n), 'ok', n)]
    yield 'svalues', None, dict(values=['v{}'.format(i) for i in range(n)]), [('v{}'.format(i), 'ok', 'v{}'.format(i)) for i in range(n)] + [('v', 'no', None)]
    yield 'remap', None, dict(remap={'r{}'.format(i): 'x{}'.format(i) for i in range(n)}), [('r{}'.format(i), 'ok', 'x{}'.format(i)) for i in range(n)]
    yield 'chain', None, dict(remap={'r{}'.format(i): 'r{}'.format(i + 1) for i in range(n)}, values=['r{}'.format(n)]), [('r{}'.format(i), 'ok', 'r{}'.format(n)) for i in range(n)]
    yield 'alias', None, dict(alias=['al{}'.format(i) for i in range(n)]), [({'al{}'.format(i): 'z'}, 'ok', 'z') for i in range(n)] + [({'al': 'z'}, 'no', None)]
    yield 'long', None, dict(values=['w' * i for i in range(1, n + 1)]), [('w' * i, 'ok', 'w' * i) for i in range(1, n + 1)] + [('w' * (n + 1), 'no', None)]


def run_large(case, rec):
    _, n, which = case
    what, ktype, spec, values = list(large(n))[which]
    real = dict(spec)
    if ktype is not None:
        real['type'] = ktype
    cls = world.make('K', dict(attr={'a': real, 'b': dict(optional=True)}))
    for value, status, exp in values:
        desc = value if what == 'alias' else {'a': value}
        for fun in (try_load, try_new):
            got = fun(cls, desc)
            rec.op()
            if (got[0] == 'ok') != (status == 'ok') or (status == 'ok' and not ref.strict_equal({'a': got[1].a}, {'a': exp})):
                raise Violation('{} of {} items, with {!r}: expected {!r} {!r}, got {!r}'.format(what, n, desc, status, exp, got))
        rec.state((what, n, repr(value)))
    rec.outcome(what)


# Types and arguments of all kinds
ZTYPES = {'object': (object, {}), 'Color': (zoo.Color, {}), 'Num': (zoo.Num, {}), 'Decimal': (zoo.decimal.Decimal, {}), 'Fraction': (zoo.fractions.Fraction, {}),
          'complex': (complex, {}), 'bytes': (bytes, {'encoding': 'utf8'}), 'Text': (zoo.Text, {}), 'Whole': (zoo.Whole, {}), 'Whole16': (zoo.Whole, {'base': 16}),
          'Unit0': (Unit, {'scale': 0}), 'Unit-1': (Unit, {'scale': -1}), 'frozenset': (frozenset, {}), 'tuple': (tuple, {}), 'float': (float, {}), 'bool': (bool, {}), 'int': (int, {}),
          'int0': (int, {'base': 0}), 'str': (str, {}), 'strb': (str, {'encoding': 'utf8'}), 'type': (type, {}), 'dict': (dict, {}), 'timedelta': (zoo.datetime.timedelta, {})}
ZSPECS = [dict(), dict(values=[1, 2]), dict(values=[True, '1', 2.5]), dict(values=[zoo.Color.RED, zoo.Num.TWO, b'1', (1, 2)]), dict(outcast=[1, 'red', zoo.Color.BLUE]), dict(outcast=[0, '', frozenset()]),
          dict(remap={1: '1', '1': 'one'}), dict(remap={1: 2, 'red': zoo.Color.RED, '': 0}), dict(remap={(1, 2): [], b'1': ''}), dict(values=[0, 'one', 'red'], outcast=[True, 2], remap={2.5: 1}),
          dict(values=['1', '2', '10', 'a'], remap={'red': 'a', 2: '1'})]


def run_zoo(case, rec):
    _, t, i = case
    ktype, kargs = ZTYPES[t]
    spec = dict(ZSPECS[i], type=ktype)
    if kargs:
        spec['args'] = kargs
    try:
        for v in list(spec.get('values', ())) + list(spec.get('outcast', ())):
            ref._reclass(v, spec)
    except Exception:
        rec.outcome('values that cannot be converted')
        return
    cls = world.make('K', dict(attr={'a': {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in spec.items()}}))
    for val in zoo.VALUES + zoo.TEXTS:
        check_one(cls, {'a': spec}, {'a': val}, rec, t)


def cases(tier):
    for t in ZTYPES:
        for i in range(len(ZSPECS)):
            yield ('zoo', t, i)
    for n in LARGE:
        for i in range(9):
            yield ('large', n, i)
    for s in specs():
        yield ('one', s)
    for s in specs():
        if s[3] < (3 if tier == 'quick' else 6):
            for via in VIA:
                if s[4] or via not in ('default', 'live', 'setup default'):
                    yield ('via', s, via)
    for ai in range(len(AUTO)):
        for t in ('str', 'int'):
            yield ('auto', ai, t)
    second = SECOND if tier == 'quick' else [s for s in specs() if s[3] in (0, 1)]
    for s in specs():
        if tier == 'quick' and (s[3] > 2 or s[1] > 1):
            continue
        for s2 in second:
            yield ('two', s, s2)


def try_load(cls, desc):
    """('ok', obj) | ('none', None) | ('raise', name)"""
    try:
        obj = footprints.load(tag='thing', _report=False, _emptywarning=False, **desc)
    except (footprints.FootprintException, ValueError, TypeError, AttributeError) as e:
        return ('raise', type(e).__name__)
    return ('none', None) if obj is None else ('ok', obj)


def try_new(cls, desc):
    try:
        return ('ok', cls(**desc))
    except footprints.FootprintFatalError:
        return ('none', None)
    except (footprints.FootprintException, ValueError, TypeError, AttributeError) as e:
        return ('raise', type(e).__name__)


class Live:
    def __init__(self, value):
        self.value = value

    def footprint_value(self):
        return self.value


def run_via(case, rec):
    """The value does not come from the description under the name of the attribute: it is subject to the very same rules."""
    _, s, via = case
    for tok, val in TOKENS.items():
        if tok == 'absent':
            continue
        spec, real = spec_of(*s), spec_of(*s)
        desc, dflts = {}, {}
        for x in (spec, real):
            if via in ('default', 'setup default'):
                x['default'] = val
            elif via == 'live':
                x['default'] = Live(val)
            if 'alias' in via:
                x['alias'] = ['al']
        if via == 'alias':
            desc['al'] = val
        elif via == 'setup':
            dflts['a'] = val
        elif via == 'setup default':
            dflts['A'] = TOKENS['s2']
        elif via == 'setup alias':
            desc['al'] = val
            dflts['a'] = TOKENS['s2']
        world.reset()
        footprints.setup.defaults = dict(dflts)
        cls = world.make('K', dict(attr={'a': real}))
        check_one(cls, {'a': spec}, desc, rec, s[0], dflts)


def check_one(cls, attrs, desc, rec, label, dflts=None):
    exp = ref.resolve(attrs, desc, defaults=dflts)
    keep = dict(desc)
    for how, fun in (('load', try_load), ('instantiation', try_new)):
        got = fun(cls, desc)
        rec.op()
        rec.outcome(exp[0] + ' ' + ','.join(sorted({r for v in exp[1].values() for r in v}) if exp[0] == 'reject'
                                             else sorted(map(str, exp[1])) if exp[0] == 'raise' else []))
        if exp[0] == 'ok':
            if got[0] != 'ok':
                raise Violation('{} of {!r} with {!r}: should be accepted as {!r}, got {!r}'.format(
                    how, attrs, desc, exp[1], got))
            seen = world.attrs_of(got[1], attrs)
            if not ref.strict_equal(seen, ref.visible(exp[1])):
                raise Violation('{} of {!r} with {!r}: expected values {!r}, got {!r}'.format(
                    how, attrs, desc, ref.visible(exp[1]), seen))
            rec.state(('ok', label, sorted(map(repr, seen.items()))))
        elif exp[0] == 'reject':
            if got[0] != 'none':
                raise Violation('{} of {!r} with {!r}: should be rejected ({!r}), got {!r}'.format(
                    how, attrs, desc, exp[1], got[1] and (got[0], got[1] if isinstance(got[1], str)
                                                          else world.attrs_of(got[1], attrs))))
            rec.state(('reject', label, repr(exp[1])))
        elif exp[0] == 'raise':
            if got[0] != 'raise' or got[1] not in exp[1]:
                raise Violation('{} of {!r} with {!r}: should raise {!r}, got {!r}'.format(
                    how, attrs, desc, exp[1], got))
            rec.state(('raise', label))
        else:
            if got[0] == 'ok':
                raise Violation('{} of {!r} with {!r}: should not be accepted, got {!r}'.format(
                    how, attrs, desc, world.attrs_of(got[1], attrs)))
            rec.state(('either', label))
        if desc != keep:
            raise Violation('the description was modified: {!r}'.format(desc))


def run(case, rec):
    if case[0] == 'zoo':
        run_zoo(case, rec)
    elif case[0] == 'large':
        run_large(case, rec)
    elif case[0] == 'one':
        attrs = {'a': spec_of(*case[1])}
        cls = world.make('K', dict(attr={'a': spec_of(*case[1])}))
        for tok, val in TOKENS.items():
            check_one(cls, attrs, {} if tok == 'absent' else {'a': val}, rec, case[1][0])
        check_one(cls, attrs, {'a': None}, rec, case[1][0])
    elif case[0] == 'via':
        run_via(case, rec)
    elif case[0] == 'auto':
        vals, auto, explicit = AUTO[case[1]]
        base = {'type': int} if case[2] == 'int' else {}
        if case[2] == 'int' and set(vals) & {'x', 'y'}:
            rec.outcome('skipped')
            return
        remap = dict(explicit)
        if 'first' in auto:
            remap.update({v: vals[0] for v in vals[1:]})
        spec = dict(base, values=list(vals), remap=remap)
        cls = world.make('K', dict(attr={'a': dict(base, values=list(vals), remap=dict(explicit, autoremap=auto))}))
        for tok, val in TOKENS.items():
            check_one(cls, {'a': spec}, {'a': val}, rec, 'auto')
    else:
        attrs = {'a': spec_of(*case[1]), 'b': spec_of(*case[2])}
        cls = world.make('K', dict(attr={'a': spec_of(*case[1]), 'b': spec_of(*case[2])}))
        for ta in ('one', 's01', 'x', 'K1', 'sNone', 'absent'):
            for tb in ('s1', 'x', 'absent'):
                d = {}
                if ta != 'absent':
                    d['a'] = TOKENS[ta]
                if tb != 'absent':
                    d['b'] = TOKENS[tb]
                check_one(cls, attrs, d, rec, case[1][0] + case[2][0])
