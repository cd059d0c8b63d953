"""C17: the expansion of a description is the exact product of its expandable values."""

import collections
import copy
import itertools

import footprints
from footprints import util
from footprints.stdtypes import FPDict, FPList, FPSet, FPStr, FPTuple
from mc.core import Violation

ID = 'C17'
RULE = ('for every assignment of values (atoms, lists, tuples, sets, nested lists, strings with commas, inclusive ranges, protected '
        'containers, dictionaries keyed or not by another key, with entries to be expanded in turn) to the keys of a description, '
        'and every order of these keys: the multiset of the descriptions, their numbering and the original description are '
        'compared with the product computed by a model')
ASSUMPTIONS = ['a dictionary is keyed by a single key of the description and has an entry for each value (as a string) of this key',
               'no dictionaries that refer to each other, or to a key with a protected list, tuple or set', 'at most 24 values to expand in turn (the limit of the package)',
               'no file patterns (see C18)']
BOUNDS = dict(quick='3 keys, 26 values each, all the orders; 4 keys, 10 values each, all the orders; up to 24 expandable keys; up to 400 values',
              thorough='4 keys, 18 values each, all the orders')


class Opaque:
    """Some object that is not to be expanded."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Opaque) and other.n == self.n

    def __repr__(self):
        return 'Opaque({})'.format(self.n)

    def __str__(self):
        return 'o{}'.format(self.n)


ATOMS = {
    'str': 'x', 'int': 1, 'none': None, 'empty': '', 'obj': Opaque(3), 'frozen': frozenset(['p']),
    'fplist': FPList(['p', 'q']), 'fpstr': FPStr('i,j'), 'fpdict': FPDict(p=1), 'fptuple': FPTuple(('p', 'q')), 'fpset': FPSet(['p']),
    'fprange': FPStr('range(1,2)'), 'almost': 'range(a)', 'dict': {'zz': {'x': ['1', '2']}},
}
MANY = {
    'list': ['p', 'q'], 'dup': ['p', 'p'], 'nil': [], 'tuple': (True, 2.5, None), 'set': {'p', 'q'}, 'coma': 'u,v', 'comas': ',u,,v', 'comasp': 'u, v ,w ',
    'range2': 'range(1,3)', 'range1': 'range(4)', 'range3': 'Range(0,5,2)', 'rangeno': 'range(5,3)', 'rangez': 'range(0)', 'rangezz': 'range(3,0)', 'range00': 'range(0,0)', 'range01': 'range(0,1)', 'rangeone': 'RANGE(3,3,7)', 'nest': [['p', 'q'], 'r,s'],
    'nest2': [('p', ['q', 'range(1,2)']), FPList(['p'])], 'one': ['x'],
}
VALUES = dict(ATOMS)
VALUES.update(MANY)
KEYS = 'abcd'
UNNAMED = ('fplist', 'fptuple', 'fpset', 'nest2')


def flatten(value):
    """The values that stand for ``value``: atoms, or dictionaries."""
    if type(value).__name__.startswith('FP'):
        return [value]
    if isinstance(value, (list, tuple, set)):
        return [y for x in value for y in flatten(x)]
    if isinstance(value, str):
        low = value.lower()
        if low.startswith('range(') and low.endswith(')'):
            items = value[6:-1].split(',')
            if 1 <= len(items) <= 3 and all(i.isdigit() for i in items):
                n = [int(i) for i in items]
                first, last, step = n[0], n[-1] if len(n) < 3 else n[1], n[2] if len(n) == 3 else 1
                out = []
                while first <= last:
                    out.append(first)
                    first += step
                return out
        if ',' in value:
            return [y for x in value.split(',') for y in flatten(x)]
    return [value]


def entry(kind, s):
    """What a dictionary gives for the value ``s`` of the key it refers to."""
    return dict(a='is' + s.replace(',', '/'), l=['l1' + s[:1], 'l2'], s='s1,s2', f=FPStr('f1,f2'), n=None)[kind]


def build(values):
    """The description for a case: names of VALUES, or @<kind><key> for a dictionary, @2<key><key> for nested ones."""
    values = dict(values)
    desc, finals = {}, {}

    def get(k):
        if k not in desc:
            v = values[k]
            if not v.startswith('@'):
                desc[k] = copy.deepcopy(VALUES[v] if v in VALUES else MORE[v])
                finals[k] = flatten(desc[k])
                return finals[k]
            known = sorted({str(x) for x in get(v[2])} | {'nothing'})
            if v[1] == 'x':
                # Other keys come first, and last
                desc[k] = {'x1': {}, 'x2': {'1': 'no'}, 'x3': 'p,q', v[2]: {s: entry('a', s) for s in known}, 'x4': {}}
                finals[k] = [entry('a', s) for s in known]
            elif v[1] == '2':
                inner = sorted({str(x) for x in get(v[3])})
                desc[k] = {v[2]: {s: {v[3]: {t: entry('a', s + t) for t in inner}} for s in known}}
                finals[k] = [entry('a', s + t) for s in known for t in inner]
            else:
                desc[k] = {v[2]: {s: entry(v[1], s) for s in known}}
                finals[k] = [x for s in known for x in flatten(entry(v[1], s))]
        return finals[k]

    for k in values:
        get(k)
    return {k: desc[k] for k in values}


def refers(value, desc):
    if isinstance(value, dict) and not type(value).__name__.startswith('FP'):
        for k in value:
            if k in desc:
                return k
    return None


def model(desc):
    """All the combinations."""
    out = []
    todo = [dict(zip(desc, combo)) for combo in itertools.product(*[flatten(v) for v in desc.values()])]
    while todo:
        d = todo.pop()
        pending = {k: refers(v, d) for k, v in d.items() if refers(v, d)}
        if not pending:
            out.append(d)
            continue
        k = [k for k in pending if pending[k] not in pending][0]
        ref = pending[k]
        todo.extend(dict(d, **{k: x}) for x in flatten(d[k][ref][str(d[ref])]))
    return out


def canonical(d):
    return tuple(sorted((k, type(v).__name__, repr(sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v))
                        for k, v in d.items()))


def refs(values):
    """{key: keys it refers to} ."""
    return {k: set(v[2:]) if v.startswith('@') else set() for k, v in zip(KEYS, values)}


def acyclic(values):
    r = refs(values)
    named = dict(zip(KEYS, values))
    if any(named[t] in UNNAMED for targets in r.values() for t in targets):
        return False
    while r:
        free = [k for k in r if not r[k] & set(r)]
        if not free:
            return False
        for k in free:
            del r[k]
    return True


MORE = {'rangestep': 'range(1,12,4)', 'rangelong': 'range(08,11)', 'rangecoma': 'range(0,1),range(5)', 'rangewide': 'range(0,6,10)', 'false': False,
        'zero': 0, 'zeros': [0, '', None, False], 'bools': (True, 1, 1.0), 'blank': ' ', 'blanks': [' x', 'x ', ''], 'onecoma': ',', 'nested': [[], [[]], ()],
        'bytes': b'p,q', 'fset': {FPStr('p,q'), 'r'}, 'gen': [range(3)], 'mixset': {1, '1', 'b'}, 'mixes': [{'1', 1}, {None, 'None'}], 'deep': [[['p'], ('q', ['r', {'s'}])], 'a,range(1,3,2)']}
SOME3 = list(MANY) + ['str', 'int', 'none', 'obj', 'fplist', 'fpstr', 'fpdict', 'dict', 'frozen']
SOME4 = ['str', 'list', 'coma', 'range2']
REFS3 = ['@aa', '@ab', '@ac', '@la', '@lb', '@sb', '@fa', '@nc', '@2ab', '@2bc', '@xa', '@xb']
MORE4 = ['str', 'list', 'coma', 'range2', 'fpstr', 'nest', 'set', 'int', 'nil', 'fplist']
REFS4 = ['@aa', '@ab', '@ac', '@ad', '@lb', '@sa', '@2ab', '@2cd']


def cases(tier):
    for v in list(VALUES) + list(MORE):
        yield (v,)
    for v in MORE:
        for w in list(VALUES) + list(MORE):
            yield (v, w)
            yield (w, v)
    for n, values in ((2, list(VALUES) + REFS3), (3, SOME3 + REFS3)):
        for combo in itertools.product(values, repeat=n):
            if all(not v.startswith('@') or v[2:].strip(KEYS[:n]) == '' for v in combo) and acyclic(combo):
                yield combo
    values = SOME4 + REFS4[1:7] if tier == 'quick' else MORE4 + REFS4
    for combo in itertools.product(values, repeat=4):
        if acyclic(combo):
            yield combo
    for n in range(1, 25):
        yield ('many', n)
    for n in (26, 45, 130):
        for kind in range(5):
            yield ('wide', n, kind)
    for n in (30, 101, 400):
        for kind in range(9):
            yield ('long', n, kind)


def check(where, desc, rec):
    original = copy.deepcopy(desc)
    rec.op()
    got = util.expand(desc)
    if canonical(desc) != canonical(original) or list(desc) != list(original):
        raise Violation('{}: the description is now {!r}'.format(where, desc))
    if not isinstance(got, list):
        raise Violation('{}: {!r} is not a list'.format(where, got))
    numbers = [d.pop('index_expansion', None) for d in got]
    if sorted(numbers, key=repr) != sorted(range(1, len(got) + 1), key=repr):
        raise Violation('{}: the descriptions are numbered {!r}'.format(where, numbers))
    original.pop('index_expansion', None)
    want = model(original)
    cgot, cwant = (collections.Counter(canonical(d) for d in ld) for ld in (got, want))
    if cgot != cwant:
        raise Violation('{}: missing {:.800}, unexpected {:.800}'.format(where, repr(list((cwant - cgot).elements())[:4]),
                                                                         repr(list((cgot - cwant).elements())[:4])))
    rec.outcome(min(len(got), 20))
    return got


def long(n, kind):
    names = ['i{}'.format(i) for i in range(n)]
    return [
        dict(a=names, b='x'), dict(b='y,z', a=tuple(names)), dict(a=set(names)), dict(a=','.join(names), b=None), dict(a='range(1,{})'.format(n), b=['p']),
        dict(a=[names[:n // 2], [','.join(names[n // 2:])]]), dict(b={'a': {x: 'is' + x for x in names}}, a=names),
        dict(a=names, b={'a': {x: ['l' + x, FPStr(x + ',')] for x in names}}), dict(a='v' * n + ',' + 'w' * n, b=[FPList(names)], c={x: i for i, x in enumerate(names)}),
    ][kind]


def run(case, rec):
    if case[0] == 'long':
        check(repr(case), long(*case[1:]), rec)
        return
    if case[0] == 'wide':
        # Many keys, a few of them (the first ones, the last ones or in between) are to be expanded
        _, n, kind = case
        desc = {'k{:03d}'.format(i): 'v{}'.format(i) for i in range(n)}
        keys = list(desc)
        a, b, c = (keys[:3], keys[:-4:-1], keys[n // 2:n // 2 + 3], [keys[-1], keys[0], keys[-2]], keys[::n // 3][:3])[kind]
        desc.update({a: [1, 'x'], b: 'p,q,r', c: {a: {'1': 'one', 'x': ['ex', 'y']}}})
        check(repr(case), desc, rec)
        return
    if case[0] == 'many':
        n = case[1]
        check(repr(case), {'k{:02d}'.format(i): ['v{}'.format(i)] if i % 2 else 'w{0},w{0}'.format(i) if i == 4 else
                           'range({0},{0})'.format(i) for i in range(n)}, rec)
        return
    items = list(zip(KEYS, case))
    for order in itertools.permutations(items):
        where = 'expand({})'.format(', '.join('{}={}'.format(*i) for i in order))
        got = check(where, build(order), rec)
        rec.state([canonical(d) for d in got[:30]] and (len(got), hash(tuple(sorted(map(canonical, got))))))
    if len(case) == 2:
        for i in range(3):
            ks = list(build(items).items())
            ks.insert(i, ('index_expansion', 7))
            check('{!r} already numbered'.format(case), dict(ks), rec)
