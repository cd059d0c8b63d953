"""C26: an object goes with its own attributes, and all the tests of a class agree."""

import copy
import itertools

import footprints
from footprints import collectors, reporting
from mc import ref, shapes, world
from mc.core import Silence, Violation

ID = 'C26'
RULE = ('for every footprint of an alphabet (those of C05 and typed, remapped, substituted, class-valued, weak and mutable ones), '
        'every way to build an object and every description of an alphabet: the test of the class (without report, with a printed '
        'one, with a log, with a shared resolution cache), the compatibility of the object, and the lookup agree with the model; '
        'from the attributes of the object (complete, or completed by every subset of the description) an equal object is found, '
        'instantiated, cloned and picked as default')
ASSUMPTIONS = ['descriptions for which the substitution raises are left out', 'no remap of a value that results from a type conversion',
               'no setup default for an attribute that is unset']
BOUNDS = dict(quick='31 footprints x 28 descriptions x 28 descriptions, 3 setups, ditto for objects changed afterwards (13 changes)', thorough='every pair of changes')


class Unit:
    def __init__(self, v, scale=1):
        self.v = int(getattr(v, 'v', v)) * scale

    def __eq__(self, other):
        return isinstance(other, Unit) and self.v == other.v

    def __hash__(self):
        return hash(('unit', self.v))

    def __repr__(self):
        return 'Unit({})'.format(self.v)


class K0:
    pass


class K1(K0):
    pass


MORE = {
    'unit': dict(attr=dict(a=dict(type=Unit, args=dict(scale=10), optional=True), b=dict(optional=True))),
    'lst': dict(attr=dict(a=dict(type=footprints.FPList, optional=True, access='rwx'), c=dict(optional=True, access='rwx'))),
    'cls': dict(attr=dict(k=dict(type=K0, isclass=True, outcast=[K0], optional=True), a=dict())),
    'chain': dict(attr=dict(a=dict(remap=dict(x='y', y='z')), b=dict(optional=True, default='<[a]>[c]', access='rwd'),
                            c=dict(optional=True, default='[a:upper]'))),
    'float': dict(attr=dict(b=dict(type=float, values=[1, 2.5], access='rwx'), d=dict(optional=True, type=int, default='[b]', values=range(9)))),
    'bool': dict(attr=dict(b=dict(type=bool, optional=True, default=False, access='rwx'), a=dict(optional=True, default='', access='rwd'))),
    'mut': dict(attr=dict(a=dict(), m=dict(type=footprints.FPDict, optional=True, default=footprints.FPDict(p=[1]), access='rwx'))),
    'manyal': dict(attr=dict(kind=dict(alias=['a', 'b']), c=dict(optional=True, alias=['d']))),
    'onlyself': dict(attr=dict(a=dict(), c=dict(optional=True, default='c1')), only=dict(a=['x', 'y', 'z'], c='c1')),
    'space': dict(attr=dict(a=dict(access='rwx'), e=dict(optional=True, default='[a][a]', access='rwx'))),
    'written': dict(attr=dict(a=dict(access='rwx'), c=dict(optional=True))),
    'autoremap': dict(attr=dict(a=dict(values=['x', 'y', '7'], remap=dict(autoremap='first')))),
}
SPECS = dict(shapes.SHAPES)
SPECS.update(MORE)
DESCS = shapes.DESCS + [dict(a='x', b=1), dict(b='2.5', a='y'), dict(b=2.5, d='4', c='5'), dict(a='x', k=K1), dict(a=['x'], c=None), dict(b=False, a='x'),
                        dict(a=Unit(3), b='x'), dict(a='z', m={'p': [1]}), dict(kind='w', d='x'), dict(a=' x ', c='é')]
SETUPS = [dict(), dict(fastmode=True, defaults=dict(par=2, q=1)), dict(report=3, extended=False, defaults=dict(A='x', C='c1'))]
CHANGES = [('a', 'y'), ('b', 1), ('c', 'c9'), ('e', 'q'), ('m', {'z': 0}), ('b', None), ('a', ['w']), ('a', None), ('c', None), ('d', None), ('b', '@del'), ('c', '@del'), ('kin', '@del')]


def cases(tier):
    for name in SPECS:
        for d in range(len(DESCS)):
            for s in range(len(SETUPS)):
                yield (name, d, s, ())
                if s == 0:
                    for c in itertools.product(range(len(CHANGES)), repeat=1 if tier == 'quick' else 2):
                        yield (name, d, s, c)


def same(x, y):
    return type(x) is type(y) and (x is y or x == y)


def values(obj, names):
    return {k: getattr(obj, k, 'deleted') for k in names}


def known(v):
    return {k: (None if x is footprints.UNKNOWN else x) for k, x in v.items()}


def run(case, rec):
    name, d, s, changes = case
    setup = SETUPS[s]
    dflts = setup.get('defaults', {})
    for k, v in setup.items():
        setattr(footprints.setup, k, v)
    spec = copy.deepcopy(SPECS[name])
    env = dict(defaults=dflts, extended=setup.get('extended', True))
    cls = world.make('K', copy.deepcopy(SPECS[name]))
    if 'autoremap' in name:
        spec['attr']['a']['remap'] = {'y': 'x', '7': 'x'}
    attrs = spec['attr']
    col = collectors.get(tag='thing')
    desc = DESCS[d]
    where = '{} {!r} {!r}'.format(name, desc, setup)
    exp = ref.match(spec, desc, **env)
    alone = ref.resolve(attrs, desc, **env)
    rec.outcome(exp[0])
    if exp[0] in ('raise', 'either'):
        return
    # Every way to test the class
    log = reporting.get(tag='mine')
    for how in ('plain', 'printed', 'log', 'cache', 'both'):
        kw = {}
        if how in ('printed', 'both'):
            kw['mkreport'] = True
        if how in ('log', 'both'):
            log.add(collector=col)
            kw['report'] = log
        if how in ('cache', 'both'):
            kw['resolvecache'] = collectors.ResolveCache()
        given = dict(desc)
        rec.op()
        with Silence() as out:
            got, inputs = cls.footprint_couldbe(given, **kw)
        if given != desc:
            raise Violation('{}: the description is now {!r}'.format(where, given))
        if exp[0] == 'ok':
            if not isinstance(got, dict) or not ref.strict_equal(known(got), ref.visible(exp[1])) or set(inputs) != exp[2]:
                raise Violation('{} ({}): {!r} {!r} instead of {!r}'.format(where, how, got, inputs, exp))
        elif got is not False:
            raise Violation('{} ({}): {!r} while {!r}'.format(where, how, got, exp))
        if how in ('log', 'both'):
            reasons = log.last.as_dict()
            if list(reasons) != [cls.fullname()] or bool(reasons[cls.fullname()]) is (exp[0] == 'ok'):
                raise Violation('{} ({}): reported {!r} while {!r}'.format(where, how, reasons, exp))
        text = out.getvalue()
        if how == 'printed' and (alone[0] == 'ok') != (not text) or 'mkreport' not in kw and text:
            raise Violation('{} ({}): printed {!r} while {!r}'.format(where, how, text, exp))
        if how == 'printed' and text and (cls.fullname() not in text or not any(k in text for k in alone[1])):
            raise Violation('{}: printed {!r} while {!r}'.format(where, text, alone))
    # The object
    objs = [cls(**desc)] if alone[0] == 'ok' else []
    if exp[0] == 'ok':
        objs += [col.load(**desc), cls({k: 'overwritten' for k in desc}, dict(desc)), cls('ignored', 3, dict(desc)), col.find_any(dict(desc))]
    elif col.load(_emptywarning=False, _report=False, **desc) is not None:
        raise Violation('{}: something was loaded'.format(where))
    changed = False
    for obj in objs:
        for c in changes:
            a, v = CHANGES[c]
            if v == '@del':
                if attrs.get(a, {}).get('access') == 'rwd' and hasattr(obj, a):
                    delattr(obj, a)
                    changed = True
            elif a in attrs and attrs[a].get('access', 'rxx') in ('rwx', 'rwd'):
                try:
                    setattr(obj, a, copy.deepcopy(v))
                    changed = True
                except ValueError:
                    pass
    for n, obj in enumerate(objs):
        at = where + ' object #{} {!r}'.format(n, changes)
        now = values(obj, attrs)
        if not changed and not ref.strict_equal(now, ref.visible(alone[1])):
            raise Violation('{}: attributes {!r} instead of {!r}'.format(at, now, alone[1]))
        if not changed and not obj.footprint_compatible(dict(desc)):
            raise Violation('{}: not compatible with its own description'.format(at))
        for o in range(len(DESCS)):
            if n and o % 5 != n:
                continue
            e = ref.resolve(attrs, DESCS[o], **env)
            if e[0] in ('raise', 'either'):
                continue
            want = e[0] == 'ok' and all(v == now[k] if not (v is None or now[k] is None) else v is now[k] for k, v in ref.visible(e[1]).items())
            given = dict(DESCS[o])
            got = obj.footprint_compatible(given)
            rec.op()
            if bool(got) is not want or given != DESCS[o]:
                # A written None is not an unset attribute
                if changed and None in now.values() and e[0] == 'ok' and given == DESCS[o]:
                    continue
                raise Violation('{} with {!r}: compatible: {!r} with {!r}, {!r}'.format(at, DESCS[o], got, now, e))
        # From its own attributes
        unset = [k for k, v in now.items() if v is None]
        if changed and (unset or 'deleted' in now.values()):
            continue
        if unset and (any(k.upper() in dflts or k in dflts for k in unset) or any(attrs[k].get('default') is not None for k in unset)):
            continue
        own = obj.footprint_as_shallow_dict()
        if not ref.strict_equal(own, now):
            raise Violation('{}: as a dictionary: {!r}'.format(at, own))
        rec.op()
        if not obj.footprint_compatible(dict(own)):
            raise Violation('{}: not compatible with its own attributes {!r}'.format(at, own))
        again = [('instantiation', cls(**own)), ('clone', obj.footprint_clone())]
        only = ref.only_ok(spec.get('only', {}), {k: v for k, v in now.items()}, dflts)
        found = [(c, known(v)) for c, v, _ in col.find_all(dict(own))]
        if bool(found) is not only or found and not (found[0][0] is cls and ref.strict_equal(found[0][1], now)):
            raise Violation('{}: from its own attributes {!r}, found {!r}'.format(at, own, found))
        if only:
            again += [('load', col.load(**own)), ('almost clone', col.almost_clone(obj)), ('default', col.default(**own))]
            for r in range(1 + min(2, len(desc))):
                for ks in itertools.combinations(sorted(desc), r):
                    # The description says nothing that the attributes do not say
                    full = {k: desc[k] for k in ks if k not in own and not any(k in attrs[a].get('alias', ()) for a in attrs)}
                    full.update(own)
                    again.append(('load {!r}'.format(ks), col.load(**full)))
        elif col.almost_clone(obj, _emptywarning=False, _report=False) is not None:
            raise Violation('{}: something was cloned'.format(at))
        for how, new in again:
            if type(new) is not cls or not ref.strict_equal(values(new, attrs), now):
                raise Violation('{}: {} gives {!r} instead of {!r}'.format(at, how, new and values(new, attrs), now))
            if new is obj and how != 'default':
                raise Violation('{}: {} gives the object itself'.format(at, how))
        new = again = None
        rec.state((name, sorted((k, repr(v)) for k, v in now.items())))
