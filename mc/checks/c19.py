"""C19: the protected containers are well-behaved values."""

import copy
import itertools
import json
import pickle
import re

import footprints
from footprints import collectors, util
from footprints.stdtypes import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple
from mc import world
from mc.core import Violation

ID = 'C19'
RULE = ('for each protected type: all the contents up to a size over an alphabet (in every order of construction, after additions '
        'and removals too), compared by pairs (equality, order, hash) with the builtin contents; copy, deep copy, pickling (every '
        'protocol), expansion; every sequence of operations of the builtin type up to the depth, in lockstep with the builtin; '
        'use as an attribute value, given protected or plain, by load, instantiation, default, default of the setup, write, then '
        'views, exports and copies of the object')
ASSUMPTIONS = ['only FPSet and FPRegex are exported as something else, when they are the value itself (not nested in another one)',
               'FPRegex objects are compared by what they match, their pattern and flags']
BOUNDS = dict(quick='size 3 over 11 items (pairs), sequences of 3 operations among about 15 per type, 12 regular expressions',
              thorough='size 4 over 11 items, sequences of 4 operations')

TYPES = dict(list=(FPList, list), tuple=(FPTuple, tuple), set=(FPSet, set), dict=(FPDict, dict), str=(FPStr, str))
ITEMS = [1, 'a', 'b,c', None, (1, 2), FPTuple(['a']), 1.0, 0, '', '1', 'None']
REGEX = [('a+', 0), ('A', re.I), ('^x.y$', re.S), ('(?P<n>\\d+)_(\\w)', 0), ('', 0), ('a|b', re.M | re.I), ('[,]', 0), ('é', 0),
         ('\\bz', re.A), ('a b # c', re.X), ('range\\(1,2\\)', 0), ('^$', re.M)]
TEXTS = ['', 'a', 'aab', 'A', 'x\ny', '12_z', 'b\nA', 'b,c', 'é', 'z', 'ab', 'range(1,2)', ' A,a ']

OPS = dict(
    list=["v.append('a')", "v.append(1)", "v.extend(['b', 2])", "v.insert(0, 'c')", "v.pop()", "v.pop(0)", "v.remove('a')",
          "v.reverse()", "v.__delitem__(0)", "v.__setitem__(0, 'z')", "v + ['y']", "v * 2", "v[1:]", "v.index('a')", "v.count('a')",
          "'a' in v", "len(v)", "v.clear()", "v.__iadd__(['w'])", "list(v.items())", "sorted(v, key=str)", "v.sort(key=str)", "v.copy()"],
    set=["v.add('a')", "v.add(1)", "v.discard('a')", "v.remove(1)", "v.update(['b', 2])", "v | {'z'}", "v & {'a', 1}", "v - {'a'}",
         "v ^ {'a', 'q'}", "'a' in v", "len(v)", "v.clear()", "v.issubset({'a', 1, 'b'})", "set(v.items())", "v.__ior__({'w'})",
         "v.difference_update({'b'})", "v <= {'a'}", "v.isdisjoint({'a'})", "v.copy()"],
    dict=["v.update(a=1)", "v.__setitem__('b', 2)", "v.__setitem__('a', 3)", "v.__delitem__('a')", "v.pop('b', None)", "v.get('a')",
          "v.setdefault('c', 4)", "'a' in v", "len(v)", "v.clear()", "list(v.items())", "list(v)", "list(v.values())", "v.popitem()",
          "v | {'z': 1}", "v.copy()", "v['a']"],
    tuple=["v + ('a',)", "v * 2", "v[0]", "v[1:]", "v.index('a')", "v.count('a')", "'a' in v", "len(v)", "list(v.items())", "v < ('b',)",
           "list(reversed(v))", "hash(v)"],
    str=["v + 'a'", "v * 2", "v[0]", "v[1:]", "v.split(',')", "v.upper()", "'a' in v", "len(v)", "v.replace('a', 'c')", "v < 'b'",
         "v.join(['x', 'y'])", "v.format(1)", "hash(v)", "v.encode()"],
)
STARTS = dict(list=[[], ['a', 1, None, 0], ['b', 'a', 'a']], set=[set(), {'a', 1, None}, {'b', 2, 'q', 0, ''}], dict=[{}, dict(a=1, b=2), dict(c=None, b=0)],
              tuple=[(), ('a', 1, None, 0, ''), ('b', 'a', 'a')], str=['', 'a,b', 'x{}a'])


def contents(kind, size):
    if kind == 'str':
        return ['', 'a', 'a,b', 'range(1,3)', 'None', '{glob:i:.*}', 'é', '[x']
    out = []
    for n in range(size + 1):
        if kind == 'dict':
            for keys in itertools.combinations('abc', min(n, 3)):
                for vals in itertools.product(ITEMS[:4] + [FPList([1]), ''], repeat=len(keys)):
                    out.append(tuple(zip(keys, vals)))
            if n >= 3:
                break
        elif kind == 'set':
            out.extend(itertools.combinations(ITEMS, n))
        else:
            out.extend(itertools.product(ITEMS, repeat=n))
    if kind == 'dict':
        out.extend(tuple(('k{}'.format(i), i) for i in range(m)) for m in (7, 60))
        out.extend([(('a', True), ('b', 0.0)), (('a', 1.0), ('b', False))])
    else:
        out.extend([(10, 9, 100), (-1, 2, 10, -10), ('b', 'a', 'c'), (10.5, 9, 1e20), (True, 5, 11), (True, 0.0), (1.0, False), ('10', '9'), ('B', 'a', 'C'),
                    tuple(range(60, 3, -1)), tuple('k{}'.format(i) for i in range(70)), ((2, 'b'), (10, 'a'), (2, 'a'))])
    return out


def cases(tier):
    deep = tier != 'quick'
    size = 4 if deep else 3
    for kind in TYPES:
        n = len(contents(kind, size))
        for i in range(n):
            yield ('value', kind, size, i)
        for i in range(n):
            yield ('attr', kind, size, i)
        for start in range(3):
            for length in range(1, 5 if deep else 4):
                # The last operations are all tried from each sequence
                for h in itertools.product(range(len(OPS[kind])), repeat=length - 1):
                    yield ('ops', kind, start, h)
    for i in range(len(REGEX)):
        yield ('regex', i)


def constructions(kind, content):
    """The same value, built in several ways."""
    proto = TYPES[kind][0]
    yield proto(content)
    if kind == 'set':
        for p in itertools.permutations(content) if len(content) < 6 else (content[::-1],):
            yield proto(p)
        big = proto(range(1000, 1060))
        big.update(content)
        for x in range(1000, 1060):
            big.discard(x)
        yield big
    elif kind == 'dict':
        for p in itertools.permutations(content) if len(content) < 6 else (content[::-1],):
            yield proto(p)
        v = proto(zzz=1)
        v.update(content)
        del v['zzz']
        yield v
        yield proto(**dict(content))
    elif kind == 'list':
        v = proto()
        for x in content:
            v.append(x)
        yield v
        yield proto(tuple(content))
    elif kind == 'tuple':
        yield proto(list(content))
        yield proto(iter(content))
    else:
        yield proto(str(content))


def hash_of(v):
    try:
        return hash(v)
    except TypeError:
        return None


def exact(where, got, want):
    if type(got) is not type(want) or got != want:
        raise Violation('{}: {!r} ({}) instead of {!r} ({})'.format(where, got, type(got).__name__, want, type(want).__name__))


def round_trips(where, v, rec):
    yield 'copy', copy.copy(v)
    yield 'deepcopy', copy.deepcopy(v)
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle {}'.format(proto), pickle.loads(pickle.dumps(v, proto))
    yield 'expand', util.expand(dict(z='x', v=v))[0]['v']
    yield 'expand list', [d['v'] for d in util.expand(dict(v=[v, v], z='p,q'))][0]


def check_value(kind, size, i, rec):
    proto, builtin = TYPES[kind]
    everything = contents(kind, size)
    content = everything[i]
    plain = builtin(content)
    values = list(constructions(kind, content))
    ref = values[0]
    where = '{} {!r}'.format(proto.__name__, plain)
    for v in values:
        exact(where, v, ref)
        if not (v == plain and plain == v and not (v != plain)):
            raise Violation('{}: differs from the builtin'.format(where))
        if hash_of(v) != hash_of(ref):
            raise Violation('{}: distinct hashes when built otherwise {!r}'.format(where, v))
        if kind != 'str':
            items = list(v.items())
            if (items != list(plain) if kind in ('list', 'tuple') else dict(items) != plain if kind == 'dict' else set(items) != plain) or len(items) != len(plain):
                raise Violation('{}: items {!r}'.format(where, items))
        if {v: 1}.get(ref) != 1:
            raise Violation('{}: not found as a key'.format(where))
        for name, c in round_trips(where, v, rec):
            rec.op()
            exact('{} {}'.format(where, name), c, v)
            if hash_of(c) != hash_of(v):
                raise Violation('{}: the hash differs after {}'.format(where, name))
    same = hash_of(builtin(content)) if kind in ('tuple', 'str') else hash(frozenset(content)) if kind == 'set' else None
    if same is not None and hash(ref) != same:
        raise Violation('{}: the hash differs from the one of an equal builtin value'.format(where))
    for other in everything:
        rec.op()
        o = proto(other)
        equal = builtin(other) == plain
        if (o == ref) is not equal or (o != ref) is equal or (ref == o) is not equal:
            raise Violation('{} == {!r} is {!r}'.format(where, o, o == ref))
        if equal and hash_of(o) != hash_of(ref):
            raise Violation('{}: equal to {!r}, with another hash'.format(where, o))
    rec.state((kind, repr(content)))
    rec.outcome((kind, len(content)))


def check_ops(kind, start, history, rec):
    proto, builtin = TYPES[kind]

    def apply(v, op):
        try:
            return eval(op, dict(v=v))
        except (ValueError, TypeError, IndexError, KeyError) as e:
            return type(e)

    for last in range(len(OPS[kind])):
        p, b = proto(STARTS[kind][start]), builtin(STARTS[kind][start])
        for n in history + (last,):
            op = OPS[kind][n]
            rec.op()
            rp, rb = apply(p, op), apply(b, op if kind == 'dict' else op.replace('.items()', ''))
            if rp != rb:
                raise Violation('{} from {!r} after {!r}: {} gives {!r} instead of {!r}'.format(
                    proto.__name__, STARTS[kind][start], [OPS[kind][x] for x in history], op, rp, rb))
            if p != b or type(p) is not proto:
                raise Violation('{} from {!r} after {!r}: {!r} instead of {!r}'.format(
                    proto.__name__, STARTS[kind][start], [OPS[kind][x] for x in history + (last,)], p, b))
    if kind in ('list', 'set', 'tuple'):
        v = proto(STARTS[kind][start])
        items = v.items()
        if isinstance(items, list):
            items.append('more')
        if v != builtin(STARTS[kind][start]):
            raise Violation('{}: items() is not a copy'.format(proto.__name__))
    rec.state((kind, start, p))


def check_attr(kind, size, i, rec):
    proto, builtin = TYPES[kind]
    content = contents(kind, size)[i]
    plain, value = builtin(content), proto(content)
    where = '{} {!r}'.format(proto.__name__, plain)
    if kind == 'str' and plain == 'None':
        return
    cls = world.make('K', dict(attr=dict(n=dict(optional=True), v=dict(type=proto, access='rwx'))))
    world.make('O', dict(attr=dict(o=dict(optional=True), v=dict(type=proto, optional=True, default=proto(content)))), collector=('other',))
    col = collectors.get(tag='thing')
    other = collectors.get(tag='other')
    for given in (value, plain):
        objs = [('load', col.load(v=given)), ('instance', cls(v=given)), ('default', other.load(o='1'))]
        footprints.setup.defaults = dict(v=given)
        objs.append(('setup', col.load(n='1')))
        footprints.setup.defaults = dict()
        o = col.load(v=proto())
        if o is None:
            raise Violation('{}: an empty {} is refused'.format(where, proto.__name__))
        o.v = given
        objs.append(('write', o))
        for name, o in objs:
            w = '{} {} ({})'.format(where, name, type(given).__name__)
            if o is None:
                raise Violation('{}: no object'.format(w))
            if name != 'default' and given is value and o.v is not value:
                raise Violation('{}: the value is not kept as is'.format(w))
            exact(w, o.v, value)
            for cname, c in (('deepcopy', copy.deepcopy(o)), ('clone', o.footprint_clone()), ('pickle', pickle.loads(pickle.dumps(o))),
                             ('copy', copy.copy(o))):
                rec.op()
                exact(w + ' ' + cname, c.v, value)
            exact(w + ' shallow', o.footprint_as_shallow_dict()['v'], value)
            exact(w + ' dict', o.footprint_as_dict()['v'], value)
            exp = o.footprint_export()['v']
            if kind == 'set':
                if type(exp) is not list or len(exp) != len(plain) or set(exp) != plain:
                    raise Violation('{}: exported as {!r}'.format(w, exp))
                try:
                    if exp != sorted(plain):
                        raise Violation('{}: exported as {!r}, not sorted'.format(w, exp))
                except TypeError:
                    pass
            elif exp != plain or not isinstance(exp, builtin):
                raise Violation('{}: exported as {!r}'.format(w, exp))
            if json.loads(json.dumps(exp)) != json.loads(json.dumps(list(exp) if kind == 'set' else plain)):
                raise Violation('{}: exported as {!r}'.format(w, exp))
    rec.state((kind, repr(content)))


def check_regex(i, rec):
    pattern, flags = REGEX[i]
    plain = re.compile(pattern, flags)
    cls = world.make('K', dict(attr=dict(v=dict(type=FPRegex))))
    col = collectors.get(tag='thing')
    v = FPRegex(pattern, flags)
    values = [('itself', v)] + list(round_trips('', v, rec))
    for o in (col.load(v=v), cls(v=v)):
        if o.v is not v:
            raise Violation('FPRegex({!r}): not kept as is'.format(pattern))
        values.extend([('attribute', o.v), ('deepcopy', copy.deepcopy(o).v), ('clone', o.footprint_clone().v),
                       ('pickle', pickle.loads(pickle.dumps(o)).v), ('copy', copy.copy(o).v), ('dict', o.footprint_as_dict()['v'])])
        if o.footprint_export()['v'] != (plain.pattern, plain.flags):
            raise Violation('FPRegex({!r}): exported as {!r}'.format(pattern, o.footprint_export()))
    if flags == 0:
        values.append(('built', col.load(v=pattern).v))
    pair = copy.deepcopy([v, v])
    if pair[0] is not pair[1]:
        raise Violation('FPRegex({!r}): no longer shared after a deep copy'.format(pattern))
    for name, x in values:
        where = 'FPRegex({!r}, {}) {}'.format(pattern, flags, name)
        rec.op()
        if type(x) is not FPRegex or x.pattern != plain.pattern or x.flags != plain.flags:
            raise Violation('{}: {!s} instead of {!s}'.format(where, x, v))
        for t in TEXTS:
            for meth in ('match', 'search', 'fullmatch'):
                a, b = getattr(x, meth)(t), getattr(plain, meth)(t)
                if (a and (a.span(), a.groups())) != (b and (b.span(), b.groups())):
                    raise Violation('{}: {} {!r} gives {!r} instead of {!r}'.format(where, meth, t, a, b))
            if x.findall(t) != plain.findall(t) or x.sub('-', t) != plain.sub('-', t) or x.split(t) != plain.split(t):
                raise Violation('{}: findall, sub or split of {!r}'.format(where, t))
    only = world.make('R', dict(attr=dict(t=dict()), only=dict(t=FPRegex(pattern, flags))), collector=('reg',))
    for t in TEXTS:
        if t != '' and bool(collectors.get(tag='reg').load(t=t, _emptywarning=False)) is not bool(plain.match(t)):
            raise Violation('FPRegex({!r}): only clause with {!r}'.format(pattern, t))
    assert only
    rec.state(('regex', i))


def run(case, rec):
    if case[0] == 'value':
        check_value(*case[1:], rec)
    elif case[0] == 'attr':
        check_attr(*case[1:], rec)
    elif case[0] == 'ops':
        check_ops(*case[1:], rec)
    else:
        check_regex(case[1], rec)
