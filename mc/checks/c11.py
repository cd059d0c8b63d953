"""C11: inheritance and merge of the footprints, in isolation."""

import copy
import itertools

import footprints
from footprints import doc, priorities
from mc import world
from mc.core import Violation

ID = 'C11'
RULE = ('every hierarchy of a list (chains, two bases, three bases, diamonds, mixin without footprint) x every choice of the local '
        'footprint of each class in an alphabet (none, dictionary, list form of the attributes, Footprint object with or '
        'without defaults, decorative one, list of several): the footprint of each class is compared entry by entry with the '
        'model merge; after each definition nothing else has changed; then one footprint, or one of the objects used to define '
        'it, is changed and nothing unrelated changes; every item of an attribute (type, values, info, default, access), up to three times, through a list of footprints, a chain, several bases or an object; any two items of an attribute together, given in 5 ways; up to 80 attributes and clauses given in 8 ways')
ASSUMPTIONS = ['a Footprint object without attribute nor clause carries nothing, as documented by its use for abstract classes',
               'nested dictionaries (args, remap, default) add up, as everything else in a merge']
BOUNDS = dict(quick='12 local footprints; chains of <=3 classes and pairs of bases over all of them, deeper hierarchies over 6; up to 6 classes in a chain, 4 bases, lists of 6 local footprints',
              thorough='16 local footprints; all the hierarchies over all of them (diamonds over 10)')

HIER = {
    'one': [()],
    'chain2': [(), (0,)],
    'chain3': [(), (0,), (1,)],
    'two': [(), (), (0, 1)],
    'mixin': [(), ('M', 0)],
    'diamond': [(), (0,), (0,), (1, 2)],
    'three': [(), (), (), (0, 1, 2)],
    'four': [(), (), (), (), (0, 1, 2, 3)],
    'six': [(), (), (), (0,), (1,), (), (2, 3, 5, 4)],
    'chain6': [(), (0,), (1,), (2,), (3,), (4,)],
    'side': [(), (0,), (), (1, 2)],
}


def local(name):
    """A fresh local footprint."""
    F, D = footprints.Footprint, footprints.DecorativeFootprint
    top = priorities.top
    return {
        'none': lambda: None,
        'empty': lambda: dict(),
        'a': lambda: dict(attr=dict(a=dict(values=['1', '7'], info='first a', doc_zorder=100))),
        'aopt': lambda: dict(attr=dict(a=dict(optional=True, default='y', alias=['aa'], doc_zorder=-100), g=dict(doc_zorder=101, info='')), info='opt a'),
        'aint': lambda: dict(attr=dict(a=dict(type=int, values=[1, 2], outcast=[3], args=dict(base=8),
                                              remap=dict(u=1))), only=dict(c='1')),
        'fb': lambda: F(attr=dict(b=dict(access='rwx', doc_zorder=300), a=dict(remap=dict(q='x')))),
        'nb': lambda: F(attr=dict(b=dict(outcast=['z'])), only=dict(c=['2', '3'], after_d=1), nodefault=True),
        'prio': lambda: dict(priority=dict(level=top.TOOLBOX), attr=dict(c=dict(doc_visibility=doc.visibility.GURU)),
                             bind=['k']),
        'nprio': lambda: F(dict(attr=dict(a=dict(alias=['ab'], doc_zorder=-99), g=dict(doc_zorder=99))), priority=dict(level=top.DEBUG), nodefault=True),
        'list': lambda: [F(attr=dict(a=dict(values=['5']), d=dict(optional=True))),
                         dict(attr=dict(a=dict(outcast=['4'], info='listed')), only=dict(c='9'), extra='e1')],
        'list2': lambda: [dict(attr=dict(b=dict(optional=True)), fastkeys=set(['b'])),
                          F(attr=dict(b=dict(values=['x', 'z'], remap=dict(autoremap='first'))), info='fp'),
                          dict(info='last')],
        'alist': lambda: dict(attr=[dict(a=dict(optional=True)), dict(e=dict(type=float, default=1.5, optional=True)), dict(a=dict(info='later'))],
                              only=[dict(c='1'), dict(d='2'), dict(c='3')]),
        'deco': lambda: D(attr=dict(e=dict(values=['2'])), decorator=[lambda c: c], nodefault=True),
        'fnone': lambda: F(priority=dict(level=top.DEBUG)),
        'zord': lambda: dict(attr=dict(a=dict(doc_zorder=-300, access='rwd'), b=dict(doc_zorder=5.5))),
        'listd': lambda: [D(attr=dict(a=dict(default='d', optional=True)), decorator=lambda c: c), dict(extra='e2')],
    }[name]()


ALL = ['none', 'empty', 'a', 'aopt', 'aint', 'fb', 'nb', 'prio', 'nprio', 'list', 'list2', 'alist', 'deco', 'fnone', 'zord',
       'listd']
QUICK = [x for x in ALL if x not in ('empty', 'fnone', 'zord', 'listd')]
FEW = ['none', 'a', 'aopt', 'fb', 'nprio', 'list']


# Arguments of a footprint, and keywords
ARGS = [lambda: dict(), lambda: dict(info='base', bind=['k'], attr=dict(a=dict(optional=True, info='the a', values=['1']), b=dict())),
        lambda: footprints.Footprint(attr=dict(a=dict(access='rwd', alias=['z'])), only=dict(c='1'), info='fp'),
        lambda: footprints.Footprint(info='nothing else'),
        lambda: footprints.Footprint(dict(only=dict(c=['2', '3']), other=0), nodefault=True),
        lambda: dict(attr=[dict(a=dict(optional=False)), dict(b=dict(info='')), dict(a=dict(info='second'))], only=[dict(c='9'), dict(d='8')], other='x')]
KWS = [dict(), dict(info=''), dict(info=None, bind=[], only={}, other=0), dict(attr=dict(a=dict(optional=False, info='', default=0))),
       dict(attr=[dict(a=dict(values=[], alias=())), dict(e=dict(doc_zorder=0))], only=dict(c='', d=0)), dict(attr={}, other=None, info='kw'),
       dict(attr=dict(a=dict(remap={}, outcast=[''], access='rwx')), only=dict(c=None), other=[]), dict(only=dict(c='5')), dict(only=[dict(c='5'), dict(e=1)])]


def cases(tier):
    for args in itertools.product(range(len(ARGS)), repeat=2):
        for n in range(3):
            yield ('ctor', args[:n])
    for name in ('one', 'chain2', 'mixin'):
        for c in itertools.product(ALL, repeat=len([b for b in HIER[name]])):
            yield (name, c)
    for key in KINDS:
        for n in (1, 2, 3):
            for idx in itertools.product(range(len(KINDS[key])), repeat=n):
                for how in ('list', 'chain', 'bases', 'object'):
                    yield ('item', (key, idx, how))
    for k1, k2 in itertools.permutations(KINDS, 2):
        for i1 in range(len(PAIRS[k1])):
            for i2 in range(len(PAIRS[k2])):
                for how in ('list', 'chain', 'bases', 'object') + (('once',) if k1 < k2 else ()):
                    yield ('pair', ((k1, i1), (k2, i2), how))
    for n in (1, 2, 12, 35, 80):
        for how in MASS:
            yield ('mass', (n, how))
    # Lists of local footprints
    for n in range(1, 7):
        for p in itertools.islice(itertools.permutations(range(6), n), 0, None, 1 if n < 4 else 5):
            yield ('long', p)
    for name in ('four', 'six', 'chain6'):
        n = len(HIER[name])
        for c in itertools.product(FEW[:2], repeat=n):
            yield (name, c)
        for c in itertools.permutations(FEW + ['aint', 'fb'], n) if tier != 'quick' else itertools.islice(itertools.permutations(FEW + ['aint', 'fb'], n), 0, None, 7):
            yield (name, c)
    deep = tier != 'quick'
    for name in ('two', 'chain3'):
        for c in itertools.product(ALL if deep else QUICK, repeat=3):
            yield (name, c)
    for name in ('diamond', 'three', 'side'):
        for c in itertools.product(ALL[2:12] if deep else FEW, repeat=4):
            if deep or c[3] in FEW[:4]:
                yield (name, c)


# ------------------------------------------------------------------ model

def merge(d1, d2):
    for k, v in d2.items():
        if isinstance(v, dict) and isinstance(d1.get(k), dict):
            merge(d1[k], v)
        elif isinstance(v, dict):
            d1[k] = merge({}, v)
        else:
            d1[k] = v
    return d1


def raw(item):
    """The description carried by a local item, before its defaults are filled."""
    if item is None:
        return {}
    if isinstance(item, dict):
        out = dict(item)
        for k in ('attr', 'only'):
            if isinstance(out.get(k), list):
                out[k] = {n: v for x in out[k] for n, v in x.items()}
        return out
    fp = item.as_copy()
    return fp if fp['attr'] or fp.get('only') else {}


def fill(fp):
    for spec in fp['attr'].values():
        for k, v in (('default', None), ('optional', False), ('access', 'rxx'), ('doc_visibility', doc.visibility.DEFAULT),
                     ('doc_zorder', 0), ('remap', {}), ('alias', ()), ('values', ()), ('outcast', ())):
            spec.setdefault(k, v)
        spec['doc_zorder'] = min(max(-100, spec['doc_zorder']), 100)
        if 'autoremap' in spec['remap']:
            vals = list(spec['values'])
            del spec['remap']['autoremap']
            for v in vals[1:]:
                spec['remap'][v] = vals[0]
        ktype = spec.get('type', str)
        for k in ('values', 'outcast'):
            spec[k] = {v if isinstance(v, ktype) else ktype(v, **spec.get('args', {})) for v in spec[k]}
        spec['alias'] = set(spec['alias'])
    return fp


def fresh():
    return dict(attr={}, bind=[], info='Not documented', only={}, priority=dict(level=priorities.top.DEFAULT))


def canon(x):
    """Comparable and printable form of a footprint."""
    if isinstance(x, dict):
        return ('dict', sorted((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(repr(v) for v in x))
    if isinstance(x, (list, tuple)):
        return ('list', [canon(v) for v in x])
    if isinstance(x, priorities.PriorityLevel):
        return ('level', x.tag, x.inset is priorities.top, x.inset is doc.visibility, x.rank)
    if isinstance(x, footprints.Footprint):
        return ('fp', canon(x.as_dict()), [id(d) for d in getattr(x, 'decorators', ())])
    return repr(x)


def public(x):
    """Footprint as told by the public accessors."""
    fp = x.footprint_retrieve()
    d = fp.as_dict()
    # The other ways to see it agree
    for k in ('info', 'attr', 'bind', 'only', 'priority'):
        if k in d and getattr(fp, k) is not d[k] and canon(getattr(fp, k)) != canon(d[k]):
            raise Violation('{!r}: {} is {!r}, it is {!r} in the whole footprint'.format(x, k, getattr(fp, k), d[k]))
    if fp.level is not d['priority']['level'] or x.footprint_pl() is not fp.level or sorted(fp.mandatory()) != sorted(k for k, s in d['attr'].items() if not s['optional']):
        raise Violation('{!r}: level {!r}, mandatory attributes {!r}'.format(x, fp.level, fp.mandatory()))
    for k, s in d['attr'].items():
        if fp.optional(k) is not s['optional'] and fp.optional(k) != s['optional'] or set(fp.get_values(k)) != s['values'] or set(fp.get_outcast(k)) != s['outcast']:
            raise Violation('{!r}: attribute {} is {!r}, {!r}, {!r}'.format(x, k, fp.optional(k), fp.get_values(k), fp.get_outcast(k)))
    return d


def run_ctor(which, rec):
    """A footprint is made of its arguments, then of its keywords, whatever they hold."""
    for kw, nodefault, cls in itertools.product(KWS, (False, True), (footprints.Footprint, footprints.DecorativeFootprint)):
        given = [ARGS[i]() for i in which]
        before = [canon(x) for x in given]
        where = '{}({!r}, {!r}, nodefault={})'.format(cls.__name__, before, kw, nodefault)
        rec.op()
        mine = copy.deepcopy(kw)
        fp = cls(*given, nodefault=nodefault, **mine)
        want = dict(attr={}) if nodefault else fresh()
        for i in which:
            merge(want, raw(ARGS[i]()))
        merge(want, raw(copy.deepcopy(kw)))
        fill(want)
        if canon(fp.as_dict()) != canon(want):
            raise Violation('{}:\n{!r}\ninstead of\n{!r}'.format(where, canon(fp.as_dict()), canon(want)))
        if [canon(x) for x in given] != before or mine != kw:
            raise Violation('{}: the arguments have changed'.format(where))
        rec.state(canon(want))
    rec.outcome(len(which))


LONG = [lambda: dict(info='0', attr=dict(a=dict(info='0', values=['0']), b=dict())), lambda: footprints.Footprint(info='1', attr=dict(a=dict(info='1', outcast=['q'])), nodefault=True),
        lambda: dict(info='2', attr=dict(a=dict(optional=True, values=['2']))), lambda: dict(info='3', only=dict(x='3'), attr=dict(c=dict(info='3'))),
        lambda: footprints.DecorativeFootprint(dict(attr=dict(a=dict(info='4', alias=['z']), c=dict(info='4'))), decorator=[], nodefault=True),
        lambda: dict(attr=dict(a=dict(optional=False, info='5'), b=dict(info='5')), only=dict(x='5'))]


def run_long(which, rec):
    """All the items of a list of local footprints are merged, in their order."""
    cls = world.make('K', [LONG[i]() for i in which])
    m = fresh()
    for i in which:
        merge(m, raw(LONG[i]()))
    fill(m)
    rec.op()
    if canon(public(cls)) != canon(m):
        raise Violation('list of local footprints {!r}: the footprint is\n{!r}\ninstead of\n{!r}'.format(which, canon(public(cls)), canon(m)))
    rec.state(canon(m))
    rec.outcome(len(which))


MASS = ('list', 'dict', 'locals', 'bases', 'chain', 'object', 'objects', 'twice')


def run_mass(which, rec):
    """Many attributes and clauses, whatever the way they are given."""
    n, how = which
    attr = {'a{:02d}'.format(i * 7 % n if n % 7 else i): dict([dict(type=int, values=list(range(i + 1))), dict(alias=['al{}'.format(i)], info='i{}'.format(i)), dict(optional=True, default=i),
                                                              dict(access='rwx', remap={'x{}'.format(j): 'y' for j in range(i)}), dict(outcast=['o{}'.format(j) for j in range(i)])][i % 5]) for i in range(n)}
    only = {'cl{}'.format(i): [str(i)] * (i % 3 + 1) for i in range(n)}
    whole = dict(attr=attr, only=only)
    parts = [dict(attr={k: v}, only={c: o}) for (k, v), (c, o) in zip(attr.items(), only.items())]
    want = fresh()
    merge(want, raw(copy.deepcopy(whole)))
    fill(want)
    given = copy.deepcopy(whole)
    pieces = copy.deepcopy(parts)
    rec.op(n)
    if how == 'list':
        given = dict(attr=[dict([x]) for x in given['attr'].items()], only=[dict([x]) for x in given['only'].items()])
        cls = world.make('K', given)
    elif how == 'dict':
        cls = world.make('K', given)
    elif how == 'locals':
        cls = world.make('K', pieces)
    elif how == 'bases':
        cls = world.make('K', None, bases=tuple(world.make('B{}'.format(i), x) for i, x in enumerate(pieces)))
    elif how == 'chain':
        cls = world.Base
        for i, x in enumerate(pieces):
            cls = world.make('B{}'.format(i), x, bases=(cls,))
    elif how == 'object':
        cls = world.make('K', footprints.Footprint(given))
    elif how == 'objects':
        cls = world.make('K', [footprints.Footprint(x, nodefault=True) for x in pieces])
    else:
        base = world.make('B', given)
        cls = world.make('K', copy.deepcopy(whole), bases=(base,))
    if canon(public(cls)) != canon(want):
        raise Violation('{}: the footprint is\n{!r}\ninstead of\n{!r}'.format(which, canon(public(cls)), canon(want)))
    if sorted(cls.footprint_retrieve().attr) != sorted(attr):
        raise Violation('{}: attributes {!r}'.format(which, sorted(cls.footprint_retrieve().attr)))
    rec.state(which)
    rec.outcome(how)


class Narrow(int):
    pass


KINDS = dict(type=[None, bool, int, Narrow, object, str, footprints.FPStr], optional=[None, True, False], access=[None, 'rwx', 'rxx-weak'], info=[None, 'i1', '', 'i2'], default=[None, 'd1', 0, dict(x=1), dict(y=2)],
             args=[None, dict(base=8), dict(base=16), dict(x=1)], values=[None, ['1'], [], ['2', '3'], ('3',)], outcast=[None, ['8'], ()], alias=[None, ['z'], {'y'}, ()],
             remap=[None, dict(u='1'), {}, dict(u='2', v='3')], isclass=[None, True, False], doc_zorder=[None, 5, -5, 0, 0.7], other=[None, 'o1', [], 'o2'])


# Items of a same attribute, together
PAIRS = {k: [x for x in v if x is not None] for k, v in KINDS.items()}
PAIRS['remap'] = [dict(u='1'), dict(autoremap='first'), dict(v='3', autoremap='first')]
PAIRS['values'] = [['1'], ['3', '2'], ('2', '3', '1')]


def run_pair(which, rec):
    """Any two items of an attribute, whether they are given at once, by a base, a list or an object."""
    (k1, i1), (k2, i2), how = which
    one, two = {k1: PAIRS[k1][i1]}, {k2: PAIRS[k2][i2]}
    if 'autoremap' in repr((one, two)) and not ('values' in (k1, k2)):
        two = dict(two, values=['4', '5'])
    if (int in one.values() or bool in one.values() or Narrow in one.values() or int in two.values() or bool in two.values() or Narrow in two.values()) and 'args' in (k1, k2):
        rec.outcome('skipped')
        return
    if how == 'bases':
        locs = [dict(attr=dict(a=two, b={})), dict(attr=dict(a=one))]
    elif how == 'once':
        locs = [dict(attr=dict(a=dict(one, **two), b={}))]
    else:
        locs = [dict(attr=dict(a=one)), dict(attr=dict(a=two, b={}))]
    if how in ('chain', 'bases') and any('autoremap' in x.get('remap', ()) and 'values' not in x for x in (one, two)):
        # the first of the values of an other class: not specified
        rec.outcome('skipped')
        return
    given = copy.deepcopy(locs)
    try:
        m = fresh()
        if how == 'chain':
            m = merge(fill(merge(m, raw(copy.deepcopy(locs[0])))), raw(copy.deepcopy(locs[1])))
        elif how == 'bases':
            m = merge(fill(merge(m, raw(copy.deepcopy(locs[0])))), fill(merge(fresh(), raw(copy.deepcopy(locs[1])))))
        else:
            for x in locs:
                merge(m, raw(copy.deepcopy(x)))
        fill(m)
    except (TypeError, ValueError, IndexError):
        rec.outcome('undefined')
        return
    if how == 'once':
        cls = world.make('K', given[0])
    elif how == 'list':
        cls = world.make('K', given)
    elif how == 'object':
        cls = world.make('K', footprints.Footprint(*given))
    elif how == 'chain':
        cls = world.make('K', given[1], bases=(world.make('B', given[0]),))
    else:
        cls = world.make('K', None, bases=(world.make('B1', given[1]), world.make('B0', given[0])))
    rec.op()
    if canon(public(cls)) != canon(m):
        raise Violation('items {!r} and {!r} of an attribute ({}): the footprint is\n{!r}\ninstead of\n{!r}'.format(one, two, how, canon(public(cls)), canon(m)))
    rec.state(canon(m))
    rec.outcome(how)


def run_item(which, rec):
    """Every item of an attribute: the last one given is the one that holds, in a list or along a hierarchy."""
    key, idx, how = which
    given = [KINDS[key][i] for i in idx]
    locs = [dict(attr=dict(a={} if v is None else {key: v}, b={})) for v in given]
    m = fresh()
    for x in locs:
        merge(m, raw(copy.deepcopy(x)))
    fill(m)
    if how == 'list':
        cls = world.make('K', locs)
    elif how == 'chain':
        cls = None
        for i, x in enumerate(locs):
            cls = world.make('K{}'.format(i), x, bases=(cls or world.Base,))
    elif how == 'bases':
        parents = tuple(world.make('K{}'.format(i), x) for i, x in enumerate(locs))
        cls = world.make('K', None, bases=tuple(reversed(parents)))
        if key not in ('doc_zorder', 'optional', 'values', 'outcast', 'access', 'alias', 'remap', 'default'):
            m = fresh()
            for x in locs:
                merge(m, raw(copy.deepcopy(x)))
        else:
            # the defaults of each base count as given
            m = fresh()
            for x in locs:
                merge(m, fill(merge(fresh(), raw(copy.deepcopy(x)))))
        fill(m)
    else:
        cls = world.make('K', footprints.Footprint(*locs))
    rec.op()
    if canon(public(cls)) != canon(m):
        raise Violation('item {} of an attribute, given as {!r} ({}): the footprint is\n{!r}\ninstead of\n{!r}'.format(key, given, how, canon(public(cls)), canon(m)))
    rec.state((key, canon(m)))
    rec.outcome(key)


def run(case, rec):
    name, choice = case
    if name == 'item':
        return run_item(choice, rec)
    if name == 'pair':
        return run_pair(choice, rec)
    if name == 'long':
        return run_long(choice, rec)
    if name == 'mass':
        return run_mass(choice, rec)
    if name == 'ctor':
        return run_ctor(choice, rec)
    hier = HIER[name]
    locs = [local(c) for c in choice]
    mixin = type('Mixin', (), dict(some='thing'))
    classes, models, snaps = [], [], []
    loccopy = [canon(x) for x in locs]
    for i, bases in enumerate(hier):
        where = '{} {!r}, class {}'.format(name, choice, i)
        real = tuple(mixin if b == 'M' else classes[b] for b in bases) or (world.Base,)
        if bases and bases[0] == 'M':
            d = dict(__module__=world.MODULE, _collector=('thing',))
            if locs[i] is not None:
                d['_footprint'] = locs[i]
            cls = world.Meta('K{}'.format(i), real, d)
        else:
            cls = world.make('K{}'.format(i), locs[i], bases=real)
        rec.op()
        m = fresh()
        for b in reversed(bases):
            if b != 'M' and (models[b]['attr'] or models[b]['only']):
                merge(m, models[b])
        items = locs[i] if isinstance(locs[i], list) else [locs[i]]
        for item in items:
            merge(m, raw(item))
        models.append(fill(m))
        classes.append(cls)
        snaps.append(canon(public(cls)))
        if snaps[i] != canon(models[i]):
            raise Violation('{}: the footprint is\n{!r}\ninstead of\n{!r}'.format(where, snaps[i], canon(models[i])))
        for j in range(i):
            if canon(public(classes[j])) != snaps[j]:
                raise Violation('{}: its definition changed class {} from\n{!r}\nto\n{!r}'.format(
                    where, j, snaps[j], canon(public(classes[j]))))
        for j, x in enumerate(locs):
            if canon(x) != loccopy[j]:
                raise Violation('{}: the local footprint of class {} was\n{!r}\nit is now\n{!r}'.format(
                    where, j, loccopy[j], canon(x)))
        if sorted(cls.footprint_mandatory()) != sorted(a for a, s in models[i]['attr'].items() if not s['optional']):
            raise Violation('{}: mandatory attributes {!r}'.format(where, cls.footprint_mandatory()))
        keys = set(models[i]['attr']) | {x for s in models[i]['attr'].values() for x in s['alias']}
        if cls.footprint_retrieve().allkeys() != keys or cls.footprint_retrieve().as_opts() != keys:
            raise Violation('{}: keys {!r}'.format(where, cls.footprint_retrieve().allkeys()))
        for a, s in models[i]['attr'].items():
            got = (set(cls.footprint_values(a)), cls.footprint_optional(a), cls.footprint_access(a))
            if got != (s['values'], s['optional'], s['access']):
                raise Violation('{}: attribute {} is {!r}'.format(where, a, got))
        if cls.footprint_level() != models[i]['priority']['level'].tag:
            raise Violation('{}: level {}'.format(where, cls.footprint_level()))
        rec.state(snaps[i])
    rec.outcome(len(models[-1]['attr']))
    # Changes after the definitions
    for i, cls in enumerate(classes):
        where = '{} {!r}, change of class {}'.format(name, choice, i)
        cp = cls.footprint_retrieve().as_copy()
        for s in cp['attr'].values():
            s['values'].add('new')
            s['alias'].clear()
            s['remap']['zzz'] = 'yyy'
            s['optional'] = not s['optional']
        cp['only']['never'] = 'x'
        cp['bind'].append('x')
        dic = cls.footprint_retrieve().as_dict()
        dic['info'] = 'changed'
        dic.pop('only')
        rec.op(2)
        for j in range(len(classes)):
            if canon(public(classes[j])) != snaps[j]:
                raise Violation('{}: a change in its copy shows in class {}'.format(where, j))
    for i, cls in enumerate(classes):
        old = cls.footprint_retrieve().level
        cls.footprint_retrieve().priority['level'] = priorities.top.NONE
        for a, s in cls.footprint_retrieve().attr.items():
            s['values'].add('added')
            s['alias'].add('newalias')
            s['remap']['added'] = 'zz'
            s['info'] = 'changed'
        cls.footprint_retrieve().only['added'] = 1
        rec.op()
        for j in range(len(classes)):
            if j > i and canon(public(classes[j])) != snaps[j]:
                raise Violation('{} {!r}: a change of class {} shows in class {}:\n{!r}\n{!r}'.format(
                    name, choice, i, j, snaps[j], canon(public(classes[j]))))
        for j, x in enumerate(locs):
            if canon(x) != loccopy[j]:
                raise Violation('{} {!r}: a change of class {} shows in the local footprint of class {}'.format(
                    name, choice, i, j))
        if old.tag not in priorities.top:
            raise Violation('lost level')
    changed = [canon(public(c)) for c in classes]
    for i, x in enumerate(locs):
        for item in (x if isinstance(x, list) else [x]):
            if item is None:
                continue
            attrs = item.get('attr', {}) if isinstance(item, dict) else item.attr
            for part in (attrs if isinstance(attrs, list) else [attrs]):
                for s in part.values():
                    s['optional'] = 'changed'
                    s['values'] = ['w']
                    s.setdefault('remap', {})['w'] = 'v'
        rec.op()
        for j in range(len(classes)):
            if canon(public(classes[j])) != changed[j]:
                raise Violation('{} {!r}: a change of the local footprint of class {} shows in class {}'.format(
                    name, choice, i, j))
