"""C14: a class is registered as declared, or not at all."""

import itertools

import footprints
from footprints import collectors
from mc import world
from mc.core import Violation

ID = 'C14'
RULE = ('every combination of abstract, explicit, collectors (case and plural variants, duplicates, inherited), local footprint '
        '(mandatory, optional only, named or aliased as a collector, invalid values, decorators), base class (none, abstract '
        'with attributes, concrete, decorated) and already existing collectors; after an accepted or refused definition the '
        'content of every collector is compared with the model; then the class is derived and instantiated; then up to 20 more classes around, and collectors made late')
ASSUMPTIONS = ['decorators return the class they are given', 'a class without any attribute is never selected by a lookup']
BOUNDS = dict(quick='2 x 3 x 9 x 22 x 6 definitions, and of the collectors that do not track their objects, with a subclass in one of 9 sets of collectors and one of 4 endings', thorough='ditto, with each of the endings')

FPS = {
    'none': (None, None),
    'man': (dict(attr=dict(a=dict())), 'ok'),
    'opt': (dict(attr=dict(a=dict(optional=True))), 'ok'),
    'tag': (dict(attr=dict(a=dict(), thing=dict())), 'ok'),
    'alias': (dict(attr=dict(a=dict(alias=['thing']))), 'ok'),
    'Tag': (dict(attr=dict(a=dict(), Thing=dict())), 'ok'),
    'tags': (dict(attr=dict(a=dict(), things=dict(optional=True))), 'ok'),
    'cow': (dict(attr=dict(cow=dict())), 'ok'),
    'calias': (dict(attr=dict(a=dict(alias=['cow', 'cat']))), 'ok'),
    'badval': (dict(attr=dict(a=dict(type=int, values=['x']))), 'refused'),
    'badout': (dict(attr=dict(a=dict(type=int, outcast=[1, 'x']))), 'refused'),
    'values': (dict(attr=dict(a=dict(type=int, values=['1', 2]))), 'ok'),
    'deco1': ('deco', 'd1'),
    'deco2': ('deco', 'd2', 'd3'),
    'decol': ('decolist', 'd1'),
    'decom': ('decomerge', 'd1'),
    'decof': ('deco', 'fail'),
    'decox': ('deco', 'd1', 'notcallable'),
    'decoy': ('deco', 'notcallable'),
    'decoz': ('decobad', 'notcallable'),
    'opto': (dict(attr=dict(a=dict(optional=True)), only=dict(z='1')), 'ok'),
    'onlyprio': (dict(info='x', attr=dict(b=dict(optional=True))), 'ok'),
}
COLS = [None, ('thing',), ('Things', 'cow'), ('cow',), ('cows', 'COW'), ('thing', 'cow', 'new'), ('Fresh',), ('cow', 'thing'), ()]
BASES = ['root', 'absman', 'conc', 'deco', 'absopt', 'mixin']


def cases(tier):
    for cols in REGISTER:
        for off in range(16):
            for base in (None,) + REGISTER:
                yield ('register', cols, off, base)
    for first in range(8):
        for second in range(8):
            for n in (1, 2, 3, 4, 6, 9, 20):
                yield ('crowd', first, n, second)
    for fp in FPS:
        for base in BASES:
            for col in range(len(COLS)):
                for abstract in (False, True):
                    for explicit in (None, True, False):
                        for scol in range(len(COLS)):
                            for order in range(4):
                                if tier != 'quick' or scol == 0 or order == (scol + col) % 4:
                                    yield (fp, base, col, abstract, explicit, scol, order)


REGISTER = (('thing',), ('cow',), ('thing', 'cow'), ('cow', 'thing'), ('thing', 'cow', 'new'), ('new', 'thing', 'cow', 'things'))


def run_register(case, rec):
    """Some of the collectors do not track their objects."""
    _, cols, off, base = case
    on = {}
    for i, t in enumerate(('thing', 'cow', 'new')):
        on[t] = not off >> i & 1
        if i < 2 or not on[t]:
            collectors.get(tag=t).register = on[t]
    bases = (world.Base,)
    made = []
    if base is not None:
        made.append((world.make('B', dict(attr=dict(a=dict())), collector=base, _abstract=bool(off & 8)), base))
        bases = (made[-1][0],)
    made.append((world.make('K', dict(attr=dict(k=dict(), a=dict())), collector=cols, bases=bases), cols))
    made.append((world.make('S', dict(attr=dict(s=dict())), collector=None, bases=(made[-1][0],)), cols))
    objs = []
    for cls, where in made:
        if not cls.footprint_abstract():
            objs.append((cls(a='1', k='2', s='3'), {t.rstrip('s') for t in where}))
            rec.op()
    for t in on:
        if t not in collectors.keys():
            continue
        col = collectors.get(tag=t)
        want = {id(o) for o, where in objs if t in where and on[t]}
        if {id(o) for o in col.instances()} != want or len(list(col.instances())) != len(want):
            raise Violation('{!r}: {} tracks {!r}'.format(case, t, col.instances()))
        if set(col) != {c for c, where in made if t in {x.rstrip('s') for x in where} and not c.footprint_abstract()}:
            raise Violation('{!r}: classes of {}: {!r}'.format(case, t, list(col)))
    rec.state(case)
    rec.outcome('register')


KIND = [dict(_abstract=a, _reusable=r, _explicit=e) for a in (True, False) for r in (True, False) for e in (True, False)]


def run_crowd(case, rec):
    """Classes of all kinds in the same collectors: each of them is registered as declared, whatever the others."""
    _, first, n, second = case
    content = {}
    for i in range(n + 2):
        ns = KIND[first if i < n else second]
        cols = [('thing',), ('thing', 'cow')][i % 2]
        bases = (world.Base,) if i < 3 or i == n else (made[-1],)
        cls = world.make('K{}'.format(i), dict(attr={'a': dict(), 'k{}'.format(i): dict(optional=True)}), collector=cols, bases=bases, **ns)
        made = (made if i else []) + [cls]
        for c in cols:
            content.setdefault(c, ([], []))[ns['_abstract']].append(cls)
        where = '{} classes {!r} then {!r}'.format(i + 1, KIND[first], ns)
        rec.op()
        if (cls.footprint_abstract(), cls.footprint_reusable()) != (ns['_abstract'], ns['_reusable']):
            raise Violation('{}: class {}: abstract {}, reusable {}'.format(where, cls, cls.footprint_abstract(), cls.footprint_reusable()))
        for t, (real, abstract) in content.items():
            col = collectors.get(tag=t)
            for what, got, want in (('classes', col(), real), ('abstract classes', col.abstract_classes(), abstract),
                                    ('candidates', [c for c, _, _ in col.find_all(dict(a='1'))], real)):
                if len(got) != len(want) or set(got) != set(want):
                    raise Violation('{}: the {} of {} should be {!r}, they are {!r}'.format(where, what, t, want, got))
            obj = col.load(a='1', _emptywarning=False)
            if (type(obj) not in real) if real else obj is not None:
                raise Violation('{}: {} loads {!r}'.format(where, t, obj))
            if obj is not None and not any(o is obj for o in col.instances()):
                raise Violation('{}: {} does not know {!r}'.format(where, t, obj))
    rec.state(case)
    rec.outcome('crowd')


class Fail(Exception):
    pass


def run(case, rec):
    if case[0] == 'crowd':
        return run_crowd(case, rec)
    if case[0] == 'register':
        return run_register(case, rec)
    fpname, basename, colidx, abstract, explicit, subcol, order = case
    log = []
    shared = []

    def deco(name):
        if name == 'notcallable':
            return 'decorator'

        def decorate(cls):
            if name == 'fail':
                raise Fail(name)
            log.append((name, cls.__name__))
            cls.decorated = getattr(cls, 'decorated', ()) + (name,)
            return cls
        return decorate

    def build(spec):
        if spec is None or spec[0] is None:
            return None
        if spec[0] == 'deco':
            ds = [deco(n) for n in spec[1:]]
            return footprints.DecorativeFootprint(attr=dict(a=dict()), decorator=ds if len(ds) > 1 else ds[0], nodefault=True)
        if spec[0] == 'decobad':
            return [footprints.DecorativeFootprint(attr=dict(a=dict()), decorator=deco('d1')),
                    footprints.DecorativeFootprint(attr=dict(z=dict()), decorator=(deco('d1'), deco('d2')))]
        if spec[0] == 'decolist':
            inner = footprints.DecorativeFootprint(attr=dict(a=dict()), decorator=[deco('d0')], nodefault=True)
            shared.append((inner, [('d0', 'L')], {'a'}))
            return [footprints.DecorativeFootprint(inner, attr=dict(z=dict(optional=True)), decorator=deco('d1')),
                    dict(info='plain'),
                    footprints.DecorativeFootprint(attr=dict(a=dict()), decorator=[deco('d2'), deco('d3')], nodefault=True)]
        if spec[0] == 'decomerge':
            same = deco('d1')
            parts = [footprints.DecorativeFootprint(dict(attr=dict(a=dict())), decorator=same),
                     footprints.DecorativeFootprint(dict(attr=dict(z=dict(optional=True))), decorator=[same, deco('d2')])]
            shared.append((parts[0], [('d1', 'L')], {'a'}))
            shared.append((parts[1], [('d1', 'M'), ('d2', 'M')], {'z'}))
            return footprints.DecorativeFootprint(*parts, decorator=[deco('d3'), same])
        import copy
        return copy.deepcopy(spec[0])

    decos = {'deco1': ['d1'], 'deco2': ['d2', 'd3'], 'decol': ['d0', 'd1', 'd2', 'd3'],
             'decom': ['d1', 'd1', 'd2', 'd3', 'd1']}
    existing = world.make('Old', dict(attr=dict(o=dict())), collector=('cow', 'old'))
    model = {t: set() for t in ('cow', 'old', 'garbage', 'mcroot')}
    model['cow'].add('Old')
    model['old'].add('Old')
    inattr = {}
    baseexp = False
    basecols = ('mcroot',)
    if basename == 'root':
        base = world.Base
    elif basename == 'absman':
        base = world.make('Bm', dict(attr=dict(m=dict())), collector=('bcol',), _abstract=True)
        inattr, basecols = {'m': False}, ('bcol',)
        model.setdefault('bcol', set())
    elif basename == 'absopt':
        base = world.make('Bo', dict(attr=dict(o=dict(optional=True, alias=['thing']))), collector=None, _abstract=True,
                          _explicit=True)
        inattr, baseexp = {'o': True}, True
    elif basename == 'conc':
        base = world.make('Bc', dict(attr=dict(c=dict())), collector=('bcol', 'thing'))
        inattr, basecols = {'c': False}, ('bcol', 'thing')
        model['bcol'] = {'Bc'}
        model['thing'] = {'Bc'}
    elif basename == 'mixin':
        base = world.Base
    else:
        base = world.make('Bd', footprints.DecorativeFootprint(attr=dict(b=dict()), decorator=deco('base')),
                          collector=('bcol',))
        inattr, basecols = {'b': False}, ('bcol',)
        model['bcol'] = {'Bd'}
        if log != [('base', 'Bd')]:
            raise Violation('decorators of the base: {!r}'.format(log))
        log.clear()
    del existing

    def contents():
        return {t: (sorted(c.__name__ for c in col()), sorted(c.__name__ for c in col.abstract_classes()))
                for t, col in collectors.items()}

    def compare(where):
        got = {t: v[0] for t, v in contents().items()}
        for t in set(got) | set(model):
            if sorted(model.get(t, ())) != got.get(t, []):
                raise Violation('{}: collector {} should hold {!r}, it holds {!r}'.format(
                    where, t, sorted(model.get(t, ())), got.get(t)))

    def expected(name, spec, attrs, cols, expl):
        """(accepted, attributes)"""
        attrs = dict(attrs)
        aliases = set()
        if basename == 'absopt':
            aliases.add('thing')
        if spec is not None and spec[0] == 'decobad':
            return False, attrs
        if spec is not None and spec[0] == 'deco':
            attrs['a'] = False
        elif spec is not None and spec[0] in ('decolist', 'decomerge'):
            attrs.update(a=False, z=True)
        elif spec is not None and spec[0] is not None:
            for k, v in spec[0]['attr'].items():
                attrs[k] = v.get('optional', attrs.get(k, False))
                aliases |= set(v.get('alias', ()))
        if spec is not None and spec[-1] in ('refused', 'fail', 'notcallable'):
            return False, attrs
        if not name[1] and expl and all(attrs.values()):
            return False, attrs
        for c in cols:
            if {c, c.lower().rstrip('s')} & (set(attrs) | aliases):
                return False, attrs
        return True, attrs

    where = repr(case)
    before = contents()
    ns = dict(_abstract=True) if abstract else {}
    if explicit is not None:
        ns['_explicit'] = explicit
    if basename == 'mixin':
        class Mixin:
            mixed = True
    bases = (base,) if basename != 'mixin' else (base, Mixin)
    cols = COLS[colidx]
    eff = cols if cols is not None else basecols
    spec = FPS[fpname]
    if fpname == 'opto':
        footprints.setup.defaults = dict(z='1')
    ok, attrs = expected(('K', abstract), spec, inattr, eff, baseexp if explicit is None else explicit)
    rec.op()
    try:
        cls = world.make('K', build(spec), collector=cols, bases=bases, **ns)
    except (footprints.FootprintInvalidDefinition, ValueError, TypeError, Fail) as e:
        cls = None
        err = e
    rec.outcome((ok, abstract, len(eff)))
    if (cls is not None) != ok:
        raise Violation('{}: the definition should be {}, it was {}'.format(
            where, 'accepted' if ok else 'refused', 'accepted' if cls else 'refused ({!r})'.format(err)))
    if cls is None:
        after = contents()
        for t in set(before) | set(after):
            if after.get(t, ([], [])) != before.get(t, ([], [])):
                raise Violation('{}: refused, but collector {} was {!r}, it is {!r}'.format(where, t, before.get(t), after.get(t)))
        if [x for x in footprints.collected_classes() if x.__name__ == 'K']:
            raise Violation('{}: refused, but collected'.format(where))
        compare(where)
        rec.state((where, 'refused'))
        return
    want = [(d, 'K') for d in decos.get(fpname, ())]
    if log != want:
        raise Violation('{}: the decorators applied are {!r} instead of {!r}'.format(where, log, want))
    if not abstract:
        for c in eff:
            model.setdefault(c.lower().rstrip('s'), set()).add('K')
    compare(where)
    if abstract:
        for c in eff:
            if cls not in collectors.get(tag=c).abstract_classes():
                raise Violation('{}: abstract class unknown from {}'.format(where, c))
    desc = {k: '1' for k, o in attrs.items() if not o}
    rec.op(2)
    if cls.footprint_abstract() != abstract:
        raise Violation('{}: footprint_abstract'.format(where))
    try:
        obj = cls(**desc)
    except footprints.FootprintInvalidDefinition:
        obj = None
    first = obj
    if first is not None:
        for tag in set(model) | set(collectors.keys()):
            if any(o is first for o in collectors.get(tag=tag).instances()) != ('K' in model.get(tag, ())):
                raise Violation('{}: tracked by {}: {!r}'.format(where, tag, collectors.get(tag=tag).instances()))
    if (obj is None) != abstract:
        raise Violation('{}: an instantiation gave {!r}'.format(where, obj))
    for tag, classes in list(model.items()) if attrs else ():
        got = {c.__name__ for c, _, _ in collectors.get(tag=tag).find_all(dict(desc))}
        if ('K' in got) != ('K' in classes):
            raise Violation('{}: candidates in {}: {!r}'.format(where, tag, got))
        if tag in desc:
            continue
        obj = collectors.get(tag=tag).load(_emptywarning=False, **dict(desc))
        if 'K' in classes and obj is None or type(obj).__name__ == 'K' and 'K' not in classes:
            raise Violation('{}: {} loads {!r}'.format(where, tag, obj))
    if obj is not None:
        for tag in model:
            tracked = [o for o in collectors.get(tag=tag).instances() if type(o) is cls]
            if bool(tracked) and 'K' not in model[tag]:
                raise Violation('{}: an object is tracked by {}'.format(where, tag))
    # A footprint used to build another one is still itself
    for n, (inner, wlog, wattr) in enumerate(shared):
        log.clear()
        last = world.make('LM'[n], inner, collector=('last',))
        if log != wlog or last.footprint_retrieve().attr.keys() != wattr:
            raise Violation('{}: a footprint used to define another one now applies {!r}'.format(where, log))
        model.setdefault('last', set()).add('LM'[n])
    # A subclass
    log.clear()
    scols = COLS[subcol]
    seff = scols if scols is not None else eff
    subspec = (dict(attr=dict(n=dict(optional=True))), 'ok')
    aliases = set()
    if order >= 2:
        # Another attribute, named as the default collector of some of the classes
        subspec = (dict(attr=dict(n=dict(optional=True, alias=['new']), **{'cow' if order == 2 else 'bcol': dict(optional=order == 2)})), 'ok')
        aliases.add('new')
    if spec[0] is not None and not isinstance(spec[0], str):
        for k, v in spec[0]['attr'].items():
            aliases |= set(v.get('alias', ()))
    if basename == 'absopt':
        aliases.add('thing')
    sattrs = dict(attrs, **{k: v['optional'] for k, v in subspec[0]['attr'].items()})
    sexpl = baseexp if explicit is None else explicit
    ok = not (sexpl and all(sattrs.values())) and not any(
        {c, c.lower().rstrip('s')} & (set(sattrs) | aliases) for c in seff)
    before = contents()
    try:
        sub = world.make('S', subspec[0], collector=scols, bases=(cls,))
    except footprints.FootprintInvalidDefinition:
        sub = None
    if (sub is not None) != ok:
        raise Violation('{}: the definition of a subclass should be {}'.format(where, 'accepted' if ok else 'refused'))
    if log:
        raise Violation('{}: decorators applied to a subclass: {!r}'.format(where, log))
    if sub is None:
        after = contents()
        if any(after.get(t, ([], [])) != before.get(t, ([], [])) for t in set(before) | set(after)):
            raise Violation('{}: refused subclass, {!r} became {!r}'.format(where, before, after))
    else:
        for c in seff:
            model.setdefault(c.lower().rstrip('s'), set()).add('S')
    compare(where + ' (subclass)')
    if sub is not None:
        sub(**dict(desc, bcol='b'))
    if order:
        third = world.make('T', dict(attr=dict(t=dict())), collector=('thing', 'cow'))
        model['cow'].add('T')
        model.setdefault('thing', set()).add('T')
        compare(where + ' (third)')
        if type(third(t='1')) is not third:
            raise Violation('{}: third class'.format(where))
    rec.state((sorted((t, sorted(c)) for t, c in model.items()), sorted(attrs.items())))
