"""C08: pickup and load consume exactly the keys of the selected class."""

import copy
import itertools

import footprints
from footprints import collectors
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C08'
RULE = ('every set of classes of an alphabet in a first collector and every class (or none) in a second one x every '
        'description built from attributes, aliases, foreign keys, hidden keys and an object (true or false) already given under the tag '
        '(or None) x every way in (module function, collector, load); then a second pickup in the other collector, on '
        'what remains; in every reporting mode and style')
ASSUMPTIONS = ['an object given under the tag of the collector is an object with a footprint']
BOUNDS = dict(quick='sets of <=2 classes among 5, 4 second collectors, 40 descriptions x 2 orders of chaining; one hidden and one consumed key among 40; footprint objects as values; 66 names of attributes, aliases or other keys',
              thorough='sets of <=3 classes, all reporting modes and styles for each of them')

FIRST = {
    'a': dict(a=dict(values=['x', 'y'])),
    'ab': dict(a=dict(), b=dict(optional=True, alias=['bb', 'bbb', 'bB'])),
    'kind': dict(kind=dict(alias=['a', 'aa']), c=dict(optional=True, default='cc')),
    'int': dict(a=dict(type=int), n=dict(type=int, optional=True, default=3, alias=['nn'])),
    'sub': dict(a=dict(), d=dict(optional=True, default='<[b]>')),
}
SECOND = {
    'none': None,
    'free': dict(u=dict(), a=dict(optional=True)),
    'ref': dict(u=dict(), v=dict(optional=True, default='<[thing:clsname]>')),
    'b': dict(b=dict(values=['x', '1']), bb=dict(optional=True)),
}

BASE = [
    dict(), dict(a='x'), dict(a='y', b='x', c='z'), dict(a='x', bb='1'), dict(a='x', b='1', bb='2', bbb='3'),
    dict(aa='x'), dict(a='7', nn=4, n=5), dict(kind='x', a='q'), dict(a=None), dict(a='w', b=None, bb='1', bbb=None),
    dict(a='x', u='u1'), dict(a='[u]', u='x', b='x'), dict(a='x', b='1', u='2'), dict(kind='x', b='x', c='c1'),
    dict(n=['l'], z=dict(q=[1]), a='y'), dict(a=['x']), dict(u='x', clsname='zz'),
    dict(a=['q'], info='i', report=0, level='l', name='n', kinds='k', desc='d', priority=None, footprint='f'),
    dict(a='4', lst=[1, [2]], thin='t', thingy=1), dict(a='x', bB='1', A='q', BB='2'),
]
HIDDEN = [dict(_foo=1), dict(_report=False), dict(_emptywarning=False), dict(_report=True, _report_style=2, _bar=[1]), dict(_zz=1, _a=None, _thing=3, _foo=0),
          dict(_emptywarning=True, _report_style=1)]
GIVEN = ['self', 'other', 'gone', 'none']
TWICE = [dict(zz=0, b=0, u=0), dict(a=0), dict(bb=0, n=0, q=0)]


def descs():
    for b in BASE:
        yield (b, {}, '')
    for h in HIDDEN:
        yield (BASE[2], h, '')
    for g in GIVEN:
        yield (BASE[4], {}, g)
    for g in GIVEN:
        yield (BASE[7], HIDDEN[0], g)
    for t in TWICE:
        for g in ('self', 'other'):
            # The given object is also the value of other keys
            yield (dict(BASE[7], twice=t), {}, g)


DESCS = list(descs())


def run_many(case, rec):
    """Many keys in the description, one of them is hidden, another one is consumed."""
    _, n, i, j = case
    attr = dict(a=dict(), k=dict(optional=True, alias=['kk']))
    cls = world.make('K', dict(attr=copy.deepcopy(attr)), __len__=empty)
    keys = ['x{}'.format(p) for p in range(n)]
    keys[i] = '_hidden'
    keys[j] = 'kk'
    col = collectors.get(tag='thing')
    for given in (False, True):
        desc = {k: p for p, k in enumerate(keys)}
        desc['thing' if given else 'a'] = cls(a='1') if given else '1'
        obj = desc.get('thing')
        got = col.pickup(dict(desc))
        rec.op()
        want = {k: p for p, k in enumerate(keys) if k not in ('_hidden', 'kk')}
        if set(got) != set(want) | {'thing'} or any(got[k] != v for k, v in want.items()) or type(got['thing']) is not cls or (
                given and got['thing'] is not obj):
            raise Violation('pickup of {!r} should leave {!r}, got {!r}'.format(desc, want, got))
        if not given and got['thing'].k != str(j):
            raise Violation('pickup of {!r} gives the object {!r}'.format(desc, got['thing'].footprint_as_dict()))
    rec.state(case)
    rec.outcome('many')


def run_objects(case, rec):
    """Attributes whose values are footprint objects, live or false ones."""
    _, pos, other, twice = case
    ocls = world.make('Other', dict(attr=dict(v=dict(optional=True), u=dict(optional=True))), collector=('elsewhere',), **({'__len__': empty} if other else {}))
    cls = world.make('K', dict(attr=dict(a=dict(type=ocls), b=dict(type=ocls, optional=True, alias=['bb']), c=dict(optional=True, default='cc'))))
    o, p = ocls(v='1'), ocls(u='2')
    start = {}
    for k in ('a', 'b', 'bb', 'z'):
        start[k] = p if k in twice else o
    if pos:
        start = dict(reversed(list(start.items())))
    for how in ('pickup', 'load'):
        desc = dict(start)
        col = collectors.get(tag='thing')
        if how == 'load':
            obj = col.load(**desc)
            rest = desc
            want = start
        else:
            rest = col.pickup(desc)
            obj = rest.pop('thing')
            want = {'z': start['z']}
        rec.op()
        if type(obj) is not cls or obj.a is not start['a'] or obj.b is not start['b']:
            raise Violation('{} of {!r}: got {!r}'.format(how, start, obj))
        if set(rest) != set(want) or any(rest[k] is not want[k] for k in want):
            raise Violation('{} of {!r} should leave {!r}, it leaves {!r}'.format(how, start, want, rest))
    rec.state(case)
    rec.outcome('objects')


def run_named(case, rec):
    """Whatever the names: of attributes, of aliases, of keys that the class does not know."""
    _, name, role, pos = case
    if name in ('q', 'thing'):
        return
    attr = dict(q=dict())
    if role == 'attr':
        attr[name] = dict(optional=True)
    elif role == 'alias':
        attr['my_own'] = dict(optional=True, alias=[name])
    elif role == 'both':
        attr['my_own'] = dict(optional=True, alias=[name, name + '_'])
    cls = world.make('K', dict(attr=attr))
    items = [('q', '1'), (name, '2'), ('zzz', 3), (name + '_', 4)]
    items = items[pos:] + items[:pos]
    for how in ('new', 'given', 'load'):
        desc = dict(items)
        col = collectors.get(tag='thing')
        if how == 'given':
            desc['thing'] = cls(q='0')
        gone = {'q'} | ({name} if role != 'other' else set()) | ({name + '_'} if role == 'both' else set())
        rec.op()
        if how == 'load':
            obj = col.load(**desc)
            got, want = desc, dict(items)
        else:
            obj = desc.get('thing')
            got = col.pickup(desc)
            want = {k: v for k, v in items if k not in gone}
            obj = obj or got.get('thing')
            if got.pop('thing', None) is not obj:
                raise Violation('{!r} ({}): the object is not in the description'.format(case, how))
        if got != want or list(got) != [k for k, _ in items if k in want] or type(obj) is not cls:
            raise Violation('{!r} ({}): {!r} should become {!r}, got {!r} and {!r}'.format(case, how, dict(items), want, got, obj))
    rec.state(case)
    rec.outcome('named')


def cases(tier):
    for name in zoo.NAMES + ['footprint_a', 'footprints', 'tag', 'my_footprint']:
        for role in ('attr', 'alias', 'both', 'other'):
            for pos in range(4):
                if name != 'tag' or role == 'other':
                    yield ('named', name, role, pos)
    for n in (2, 12, 40):
        for i in range(n):
            for j in (range(n) if n < 40 or tier != 'quick' else (0, n // 2, n - 1)):
                if i != j:
                    yield ('many', n, i, j)
    for pos, other in itertools.product((0, 1), repeat=2):
        for k in range(5):
            for twice in itertools.combinations(('a', 'b', 'bb', 'z'), k):
                yield ('objects', pos, other, twice)
    names = list(FIRST)
    mode = 0
    for n in range(0, 3 if tier == 'quick' else 4):
        for first in itertools.product(names, repeat=n):
            for second in SECOND:
                if tier == 'quick':
                    for _ in range(3):
                        mode += 1
                        yield (first, second, (mode % 4, mode // 4 % 4))
                else:
                    for r in range(4):
                        for s in range(4):
                            yield (first, second, (r, s))


def model(tag, desc, classes, specs, shared):
    """Return the acceptable outcomes, as pairs (class or object or None, remaining description),
    or None when a class raises."""
    desc = {k: v for k, v in desc.items() if not k.startswith('_')}
    if desc.get(tag) is not None:
        o = desc[tag]
        spec = shared[type(o)]
        names = set(spec)
        for x in spec.values():
            names |= set(x.get('alias', ()))
        return [(o, {k: v for k, v in desc.items() if k not in names})], None
    exp = []
    for c, s in zip(classes, specs):
        e = ref.match(dict(attr=s), desc, objattrs=objattrs)
        if e[0] in ('raise', 'either'):
            return None, None
        if e[0] == 'ok':
            exp.append((c, s, e))
    if not exp:
        rest = dict(desc)
        rest[tag] = None
        return [(None, rest)], None
    top = max(len(e[2]) for _, _, e in exp)
    out = []
    values = {}
    for c, s, e in exp:
        if len(e[2]) == top:
            names = set(s)
            for x in s.values():
                names |= set(x.get('alias', ()))
            out.append((c, {k: v for k, v in desc.items() if k not in names}))
            values[c] = ref.visible(e[1])
    return out, values


def objattrs(v):
    if isinstance(v, footprints.FootprintBase):
        return {k: getattr(v, k) for k in v.footprint_attributes}
    return None


def same(d1, d2, tag):
    return (set(d1) == set(d2) and
            all(d1[k] is d2[k] or (type(d1[k]) is type(d2[k]) and d1[k] == d2[k]) for k in d1 if k != tag))


def judge(where, tag, before, got, classes, specs, shared):
    outs, values = model(tag, before, classes, specs, shared)
    obj = got.get(tag, 'absent')
    for what, rest in outs:
        if what is None or isinstance(what, footprints.FootprintBase):
            ok = obj is what
        else:
            ok = type(obj) is what and ref.strict_equal(world.attrs_of(obj, values[what]), values[what])
        if ok and same(dict(rest, **{tag: obj}), got, tag):
            return obj
    raise Violation('{}: {!r} should become one of {!r} (values {!r}), got {!r}'.format(
        where, before, outs, values, got))


def empty(self):
    """Some of the objects are false, which is nothing special."""
    return 0


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'named':
        return run_named(case, rec)
    if case[0] == 'objects':
        return run_objects(case, rec)
    first, second, (report, style) = case
    footprints.setup.report = report
    footprints.setup.report_style = style
    shared = {}
    specs1 = [copy.deepcopy(FIRST[n]) for n in first]
    classes1 = [world.make('K{}'.format(i), dict(attr=copy.deepcopy(s)), clsname='K{}'.format(i), **({'__len__': empty} if i == 0 else {}))
                for i, s in enumerate(specs1)]
    specs2, classes2 = [], []
    if SECOND[second] is not None:
        specs2 = [copy.deepcopy(SECOND[second])]
        classes2 = [world.make('G', dict(attr=copy.deepcopy(specs2[0])), collector=('gadget',), clsname='G')]
    other = dict(bb=dict(access='rwd'), zz=dict(optional=True, alias=['kind', 'b']))
    ocls = world.make('Other', dict(attr=other), collector=('elsewhere',), __len__=empty)
    for c, s in list(zip(classes1, specs1)) + list(zip(classes2, specs2)) + [(ocls, other)]:
        shared[c] = s
    col1, col2 = collectors.get(tag='thing'), collectors.get(tag='gadgets')
    pairs = dict(thing=(col1, classes1, specs1), gadget=(col2, classes2, specs2))
    for order in (('thing', 'gadget'), ('gadget', 'thing')):
        for base, hidden, given in DESCS:
            start = copy.deepcopy(dict(base))
            start.update(hidden)
            tag = order[0]
            if given == 'other':
                start[tag] = ocls(bb='1')
            elif given == 'gone':
                # an object that has lost one of its attributes
                start[tag] = ocls(bb='1')
                del start[tag].bb
            elif given == 'self' and pairs[tag][1]:
                start[tag] = pairs[tag][1][0](
                    dict(a='7' if 'int' in first[:1] else 'x', kind='k', u='u', b='x', v='v'))
            elif given == 'none':
                start[tag] = None
            for k in start.pop('twice', ()):
                start[k] = start.get(tag, 'x')
            kept = start.get(tag)
            for how in ('collector', 'module', 'load', 'modload'):
                desc = dict(start)
                where = '{!r}/{!r} ({}, report={}, style={})'.format(first, second, how, report, style)
                for step, tag in enumerate(order):
                    col, classes, specs = pairs[tag]
                    if model(tag, desc, classes, specs, shared)[0] is None:
                        break
                    before = copy.copy(desc)
                    snapshot = {k: (v if isinstance(v, footprints.FootprintBase) else copy.deepcopy(v))
                                for k, v in desc.items()}
                    nlog = len(col.report_log)
                    rec.op()
                    if how == 'collector':
                        got = col.pickup(desc)
                    elif how == 'module':
                        desc['tag'] = tag
                        got = footprints.pickup(desc)
                    else:
                        if how == 'load':
                            obj = col.load(**desc)
                        else:
                            obj = footprints.load(tag=tag, **desc)
                        if not same(before, desc, None) or not same(snapshot, desc, None):
                            raise Violation('{}: load modified its arguments {!r} -> {!r}'.format(where, snapshot, desc))
                        outs, values = model(tag, before, classes, specs, shared)
                        good = [w for w, _ in outs if (w is obj if not isinstance(w, type) else type(obj) is w)]
                        if not good:
                            raise Violation('{}: {!r} should be loaded as one of {!r}, got {!r}'.format(
                                where, before, outs, obj))
                        if values is not None and not ref.strict_equal(world.attrs_of(obj, values[type(obj)]),
                                                                       values[type(obj)]):
                            raise Violation('{}: wrong values {!r}'.format(where, objattrs(obj)))
                        rec.outcome((how, obj is None, step))
                        if obj is not None:
                            desc[tag] = obj
                        continue
                    obj = judge(where, tag, before, got, classes, specs, shared)
                    if not same(got, desc, None):
                        raise Violation('{}: the description given to pickup is {!r}, it returned {!r}'.format(
                            where, desc, got))
                    if kept is not None and step == 0 and len(col.report_log) != nlog:
                        raise Violation('{}: a lookup was made whereas the object was given'.format(where))
                    for k in desc:
                        if k != tag and k in snapshot and not isinstance(snapshot[k], footprints.FootprintBase) and \
                                snapshot[k] != desc[k]:
                            raise Violation('{}: {!r} was changed into {!r}'.format(where, snapshot[k], desc[k]))
                    rec.outcome((how, obj is None, step))
                    rec.state((first, second, order, step, sorted(desc), type(obj).__name__))
