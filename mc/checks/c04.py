"""C04: the ``only`` clauses."""

import itertools
import re

import footprints
from footprints import collectors
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C04'
RULE = ('every pair of clauses from an alphabet (exact, list, tuple, string, regular expression, before_, after_; on a '
        'mandatory or optional attribute, on a parameter of the defaults, or on both) x every description and defaults; '
        'in each reporting mode, through find_all, load, find_any and with the class alone or next to a plain class; '
        'every text, value and name of a common alphabet (mc/zoo.py) in every kind of clause')
ASSUMPTIONS = ['the bounds of a clause are comparable with the value']
BOUNDS = dict(quick='<=2 clauses among 42, 3x7x6 contexts, 2 reporting modes; up to 33 clauses or 66 values at once', thorough='same, 4 reporting modes, 3 clauses')

CLAUSES = {
    'a_int': ('a', 2), 'a_list': ('a', [1, 3]), 'a_tup': ('a', (2,)), 'a_set': ('a', {1, 2}),
    'a_empty': ('a', ()), 'a_text': ('a', ['2', '3']), 's_num': ('s', (2, 1)),
    'a_after': ('after_a', 2), 'a_before': ('before_a', 2), 'a_afterl': ('after_a', (3, 2)),
    'a_beforel': ('before_a', [1, 3]), 'a_befored': ('before_a', [4, 2]), 'a_afterd': ('after_a', [1, 3]),
    's_str': ('s', 'abc'), 's_list': ('s', ['abc', 'b']), 's_re': ('s', re.compile('a.c$')),
    's_res': ('s', (re.compile('zz'), 'b')), 's_fpre': ('s', footprints.FPRegex('B', re.IGNORECASE)),
    's_after': ('after_s', 'b'), 's_before': ('before_s', 'b'), 's_char': ('s', 'a'),
    'p_int': ('par', 5), 'p_upper': ('PAR', 5), 'p_after': ('after_par', 5), 'p_before': ('before_par', 5),
    'p_mixed': ('after_Par', 6),
    'm_after': ('after_my_o', 2), 'm_before': ('before_my_o', 3), 'm_int': ('my_o', [2, 5]),
    'b_str': ('beforehand', 'x'), 'b_before': ('before_beforehand', 'y'), 'f_list': ('afters', ['x', 'z']),
    's_mix': ('s', ['q', re.compile('ab'), '2']), 's_ends': ('s', ('b', re.compile('2'))), 'p_zero': ('par', [0, 6]), 'p_afterz': ('after_par', 0),
    'p_no': ('par', []), 'b_no': ('before_a', ()),
    't_tup': ('t', [footprints.FPTuple((1, 2)), footprints.FPTuple((3,))]), 't_item': ('t', (1, 3)),
    'o_int': ('o', 1), 'o_after': ('after_o', 1), 'o_list': ('o', [0, 1]),
}

ATTR = dict(a=dict(type=int), s=dict(optional=True), o=dict(type=int, optional=True, alias=['oo']),
            t=dict(type=footprints.FPTuple, optional=True), my_o=dict(type=int, optional=True), beforehand=dict(optional=True, default='z'))

DESCS = [dict(a=v, **x) for v in ('1', 2, 3) for x in
         (dict(), dict(s='abc'), dict(s='b', o=1), dict(oo='0', s='2'), dict(s='[a]bc'), dict(t=(1, 2)), dict(my_o=2, beforehand='x'))]
DFLTS = [dict(), dict(par=0, before_a=1, S=''), dict(after_par=1, par=7, Before_PAR='z', before_my_o=5, a='2'), dict(par=5), dict(PAR=6, s='b'), dict(par=4, o=1, a=7, my_o='5', hand='x', Afters='x')]


def run_wide(case, rec):
    """Many clauses at once: every one of them counts."""
    _, n, kind = case
    names = ['a{:02d}'.format(i) for i in range(n)]
    clause = dict(exact='5', several=['4', '5'], re=re.compile('5'))[kind]
    cls = world.make('K', dict(attr={k: dict() for k in names}, only={k: clause for k in names}))
    for bad in [None] + names:
        desc = {k: '6' if k == bad else '5' for k in names}
        got = [c for c, _, _ in collectors.get(tag='thing').find_all(desc)]
        rec.op()
        rec.state((n, kind, bad))
        if got != ([cls] if bad is None else []):
            raise Violation('{} clauses ({}), {} not satisfied: candidates {!r}'.format(n, kind, bad, got))
    rec.outcome('wide')


def run_long(case, rec):
    """Many authorized values in one clause: every one of them counts."""
    _, n, kind = case
    values = [i if kind == 'int' else 'v{}'.format(i) if kind == 'str' else re.compile('v{}$'.format(i)) for i in range(n)]
    cls = world.make('K', dict(attr=dict(a=dict(type=int) if kind == 'int' else dict()), only=dict(a=values)))
    for i in range(n + 1):
        got = [c for c, _, _ in collectors.get(tag='thing').find_all(dict(a=i if kind == 'int' else 'v{}'.format(i)))]
        rec.op()
        rec.state((n, kind, i))
        if got != ([cls] if i < n else []):
            raise Violation('a clause of {} values ({}): with the value number {}, candidates {!r}'.format(n, kind, i, got))
    rec.outcome('long')


def run_text(case, rec):
    """Texts of all kinds: a clause and every value."""
    _, t, kind = case
    text = zoo.TEXTS[t]
    clause = dict(exact=('a', text), several=('a', ('qq', text)), after=('after_a', text), before=('before_a', text), both=('before_a', ['', text]),
                  dict=('a', {text: 1, 'q': 2}), keys=('a', {text: 0, 'w': 0}.keys()), frozen=('a', frozenset(['zz', text])), fplist=('a', footprints.FPList([text])),
                  re=('a', re.compile(re.escape(text) + '$')), start=('a', [re.compile(re.escape(text[:1]), re.S)]), dot=('a', re.compile('.{{{}}}$'.format(len(text)), re.S)),
                  noflag=('a', re.compile('.+$')), fpre=('a', footprints.FPRegex(re.escape(text), re.I)))[kind]
    only = dict([clause])
    cls = world.make('K', dict(attr=dict(a=dict()), only=only))
    col = collectors.get(tag='thing')
    for value in zoo.TEXTS:
        want = ref.match(dict(attr=dict(a=dict()), only=only), dict(a=value))[0] == 'ok'
        got = [c for c, _, _ in col.find_all(dict(a=value))]
        rec.op()
        rec.outcome(('text', want))
        if got != ([cls] if want else []):
            raise Violation('only={!r} with a={!r}: should {}be a candidate'.format(only, value, '' if want else 'not '))
    rec.state(case)


def run_values(case, rec):
    """Values of all kinds, and names of all kinds."""
    _, i = case
    name = zoo.NAMES[i % len(zoo.NAMES)]
    if i < len(zoo.VALUES):
        value = zoo.VALUES[i]
        only = {'a': [value]}
        cls = world.make('K', dict(attr=dict(a=dict(type=object)), only=only))
        for v in zoo.VALUES:
            want = ref.match(dict(attr=dict(a=dict(type=object)), only=only), dict(a=v))[0] == 'ok'
            rec.op()
            if [c for c, _, _ in collectors.get(tag='thing').find_all(dict(a=v))] != ([cls] if want else []):
                raise Violation('only={!r} with a={!r}: should {}be a candidate'.format(only, v, '' if want else 'not '))
            rec.outcome(('value', want))
    world.reset()
    for kind in ('', 'after_', 'before_'):
        for where in ('attr', 'optional', 'setup', 'nowhere'):
            world.reset()
            attr = {'z' if name != 'z' else 'y': dict(optional=True)}
            if where in ('attr', 'optional'):
                attr[name] = dict(type=int, optional=where == 'optional')
            cls = world.make('K', dict(attr={k: dict(v) for k, v in attr.items()}, only={kind + name: 5}))
            for v in (4, 5, 6, None):
                desc, dflts = ({name: v}, {}) if where in ('attr', 'optional') else ({}, {name: v})
                if v is None or where == 'nowhere':
                    desc, dflts = {}, {}
                footprints.setup.defaults = dict(dflts)
                want = ref.match(dict(attr=attr, only={kind + name: 5}), desc, defaults=dflts)[0] == 'ok'
                rec.op()
                if [c for c, _, _ in collectors.get(tag='thing').find_all(desc)] != ([cls] if want else []):
                    raise Violation('clause {} = 5 ({}), with {!r}: should {}be a candidate'.format(kind + name, where, v, '' if want else 'not '))
    rec.state(case)


def cases(tier):
    for i in range(max(len(zoo.NAMES), len(zoo.VALUES))):
        yield ('values', i)
    for kind in ('exact', 'several', 'after', 'before', 'both', 'dict', 'keys', 'frozen', 'fplist', 're', 'start', 'dot', 'noflag', 'fpre'):
        for t in range(len(zoo.TEXTS)):
            yield ('text', t, kind)
    for n in (1, 3, 5, 9, 17, 33):
        for kind in ('exact', 'several', 're'):
            yield ('wide', n, kind)
        for kind in ('int', 'str', 're'):
            yield ('long', 2 * n, kind)
    names = list(CLAUSES)
    for n in (0, 1, 2):
        for c in itertools.combinations(names, n):
            for rep in ((1, 0) if tier == 'quick' else (0, 1, 2, 3)):
                yield (c, rep)
    if tier != 'quick':
        for c in itertools.combinations(names, 3):
            yield (c, 1)


def run(case, rec):
    if case[0] in ('text', 'values'):
        return dict(text=run_text, values=run_values)[case[0]](case, rec)
    if case[0] == 'wide':
        return run_wide(case, rec)
    if case[0] == 'long':
        return run_long(case, rec)
    names, report = case
    only = dict(CLAUSES[c] for c in names)
    footprints.setup.report = report
    spec = dict(attr={k: dict(v) for k, v in ATTR.items()}, only=dict(only))
    cls = world.make('K', dict(attr={k: dict(v) for k, v in ATTR.items()}, only=dict(only)))
    plain = world.make('Plain', dict(attr=dict(a=dict(type=int))), collector=('other',))
    both = world.make('Both', dict(attr=dict(a=dict(type=int))), collector=('mix',))
    collectors.get(tag='mix').add(cls)
    assert plain is not None
    col, mix = collectors.get(tag='thing'), collectors.get(tag='mix')
    for dflts in DFLTS:
        footprints.setup.defaults = dict(dflts)
        for desc in DESCS:
            exp = ref.match(spec, desc, defaults=dflts)
            rec.outcome(exp[0] + str(exp[1].get('only', '')) if exp[0] == 'reject' else exp[0])
            where = 'only={!r} with {!r}, defaults {!r}, report={}'.format(only, desc, dflts, report)
            keep = dict(desc)
            got = col.find_all(desc)
            if (exp[0] == 'ok') != ([c for c, _, _ in got] == [cls]):
                raise Violation('{}: expected {!r}, find_all gave {!r}'.format(where, exp, got))
            got = {c for c, _, _ in mix.find_all(desc)}
            if got != ({both, cls} if exp[0] == 'ok' else {both}):
                raise Violation('{}: expected {!r}, find_all among two classes gave {!r}'.format(where, exp, got))
            any_ = col.find_any(desc)
            obj = col.load(_emptywarning=False, **desc)
            rec.op(4)
            for o in (any_, obj):
                if (exp[0] == 'ok') != (o is not None):
                    raise Violation('{}: expected {!r}, got object {!r}'.format(where, exp, o))
            if obj is not None and not ref.strict_equal(world.attrs_of(obj, ATTR), ref.visible(exp[1])):
                raise Violation('{}: wrong values {!r}'.format(where, world.attrs_of(obj, ATTR)))
            if keep != desc or dict(footprints.setup.defaults) != {k.lower(): v for k, v in dflts.items()}:
                raise Violation('{}: the inputs were modified'.format(where))
            rec.state((sorted(names), exp[0], repr(exp[1])))
