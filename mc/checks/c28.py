"""C28: the members of a class are those declared: attributes first, short names on request."""

import collections
import itertools

import footprints
from mc import world
from mc.core import Silence, Violation

ID = 'C28'
RULE = ('every combination of short names (asked by the class, refused, by the setup), attributes, members of the class (methods, '
        'class methods, properties, constants, named as an attribute, as a short name or not) and base class (plain, mixin, with '
        'attributes, with short names): which members the class, an object and a subclass have, and what they give, are compared with a '
        'model; so are the identity of the class and the arguments of an instantiation (dictionaries and keywords, in any order); '
        'every name of the class, module, qualified name, order of the bases and docstrings: the class is what was declared')
ASSUMPTIONS = ['a member inherited from a base without any attribute of that name may be hidden by a short name of the class']
BOUNDS = dict(quick='3 x 2 short names x 4 attribute sets x 512 member sets x 5 bases x 2 subclasses; 6435 declarations', thorough='ditto, 1024 member sets and 4 subclasses')


def m_long(self):
    return 'long foo'


def m_plain(self):
    return 'plain foo'


def m_kind(self):
    return 'long kind'


def m_twice(self):
    return 'twice'


MEMBERS = {
    'footprint_foo': m_long,
    'foo': m_plain,
    'footprint_kind': m_kind,
    'footprint_cls': classmethod(lambda cls: cls.__name__),
    'footprint_prop': property(lambda self: 'prop of ' + str(self.a)),
    'footprint_const': 3,
    'kind': property(lambda self: 'hidden'),
    'footprint_a': staticmethod(lambda: 'long a'),
    'const': None,
    'bar': 'bar',
}
NAMES = list(MEMBERS)
ATTRS = [dict(a=dict()), dict(a=dict(), kind=dict(optional=True, default='kd')), dict(a=dict(), foo=dict(optional=True, access='rwx'), cls=dict(optional=True)),
         dict(a=dict(alias=['kind']), bar=dict(type=int, optional=True, default=4, access='rwd'))]
BASES = ['none', 'mixin', 'attrs', 'short', 'plain']
SUBS = [(None, False), (None, True), (True, False), (False, True)]


class Mine(dict):
    def keys(self):
        return list(super().keys())


DICTS = [collections.OrderedDict, lambda d: collections.defaultdict(list, d), footprints.FPDict, Mine, footprints.util.LowerCaseDict if hasattr(footprints.util, 'LowerCaseDict') else Mine]


# Identity of the classes
CLSNAMES = ['K', '_K', '__K', 'K_', 'k', 'KÉ', 'footprint_K', 'FootprintBase', 'Class', 'K0s', 'LongName' * 12]
MODULES = ['mcworld', '_pk', '_pk._m', 'pk.m', 'pk.m.n', 'pk_', '__main__', '', 'PK.M', 'footprints', 'é.m', 's', '.pk']
QUALS = ['K', 'Outer.K', 'f.<locals>.K']
MIXES = ['none', 'before', 'after', 'two', 'abstract']


class MixA:
    """A mixin."""
    who = 'A'


class MixB:
    who = 'B'


def run_ident(case, rec):
    """Name, module, bases and documentation are those of the declaration."""
    _, name, module, qual, mix, style = case
    footprints.setup.docstrings = style
    root = world.Base
    if mix == 'abstract':
        root = world.make('B', dict(attr=dict(z=dict(optional=True))), collector=('base',), _abstract=True, who='root')
    bases = dict(none=(root,), before=(MixA, root), after=(root, MixA), two=(MixB, root, MixA), abstract=(root,))[mix]
    ns = dict(__module__=module, __qualname__=qual, _footprint=dict(attr=dict(a=dict())), _collector=('thing',), _mc_hash=7, extra=[1],
              realkind=property(lambda self: 'real'), __doc__='The text.')
    given = dict(ns)
    with Silence():
        cls = type(root)(name, bases, dict(ns))
        # A class of the same name elsewhere, without any link
        other = type(root)(name, bases, dict(ns, __module__='elsewhere', _footprint=dict(attr=dict(b=dict())), _mc_hash=8, __doc__=None))
    where = 'class {!r} of {!r} ({!r}, bases {})'.format(name, module, qual, mix)
    rec.op()
    got = (cls.__name__, cls.__module__, cls.__qualname__, cls.__bases__, cls.fullname(), cls.footprint_clskind(), cls.__doc__.startswith('The text.'),
           cls.extra is given['extra'], cls.footprint_clsrealkind())
    want = (name, module, qual, bases, '{}.{}'.format(module, name), name.lower(), True, True, 'real')
    if got != want:
        raise Violation('{}: {!r} instead of {!r}'.format(where, got, want))
    if [c.__name__ for c in cls.__mro__[:1 + len(bases)]] != [name] + [c.__name__ for c in type(root)('P', bases, dict(__module__='p', _abstract=True, _collector=())).__mro__[1:1 + len(bases)]]:
        raise Violation('{}: resolution order {!r}'.format(where, cls.__mro__))
    col = footprints.collectors.get(tag='thing')
    if set(col.items()) != {cls, other}:
        raise Violation('{}: collector {!r}'.format(where, list(col.items())))
    obj, obj2 = col.load(a='x'), col.load(b='y')
    if type(obj) is not cls or type(obj2) is not other or obj.a != 'x' or obj2.b != 'y' or hasattr(obj, 'b') or hasattr(obj2, 'a'):
        raise Violation('{}: {!r} {!r}'.format(where, obj, obj2))
    if getattr(obj, 'who', None) != dict(none=None, before='A', after='A', two='B', abstract='root')[mix] or obj.realkind != 'real':
        raise Violation('{}: the members of the bases'.format(where))
    if [id(o) for o in col.grep(a='x')] != [id(obj)] or [id(o) for o in col.grep(b='y')] != [id(obj2)] or len(col.instances()) != 2:
        raise Violation('{}: live objects {!r}'.format(where, list(col.instances())))
    if obj.footprint_clsname() != name or not str(obj).endswith('| footprint={}>'.format(len(obj.footprint_attributes))):
        raise Violation('{}: printed as {!s}'.format(where, obj))
    rec.state((module, name, mix))
    rec.outcome(mix)


def cases(tier):
    for c in itertools.product(CLSNAMES, MODULES, QUALS, MIXES, (0, 1, 2)):
        yield ('ident',) + c
    k = 9 if tier == 'quick' else 10
    for base in BASES:
        for attrs in range(len(ATTRS)):
            for mk in (None, True, False):
                for st in (False, True):
                    for bits in range(0, 2 ** k, 8):
                        yield (base, attrs, mk, st, bits)


def shorts(ns, attrs):
    """The short names added to a class."""
    out = {}
    for k in ns:
        if k.startswith('footprint_'):
            s = k[len('footprint_'):]
            if s not in ns and s not in attrs:
                out[s] = k
    return out


def look(x, name):
    v = getattr(x, name)
    return v() if callable(v) else v


def run(case, rec):
    if case[0] == 'ident':
        return run_ident(case, rec)
    for low in range(8):
        one(case[:4] + (case[4] + low,), rec)
    world.reset()


def one(case, rec):
    basename, attrsi, mk, st, bits = case
    world.reset()
    footprints.setup.shortnames = False
    chosen = [NAMES[i] for i in range(len(NAMES)) if bits >> i & 1]
    where = 'base {} attributes {!r} _mkshort={} setup={} members {!r}'.format(basename, sorted(ATTRS[attrsi]), mk, st, chosen)
    inherited = {}              # name -> value given by an object
    inattrs = {}
    bases = (world.Base,)
    if basename == 'mixin':
        class Mixin:
            foo = 'mixin foo'
            const = 'mixin const'

            def footprint_more(self):
                return 'more'
        bases = (world.Base, Mixin)
        inherited = {'foo': 'mixin foo', 'const': 'mixin const', 'footprint_more': 'more'}
    elif basename == 'attrs':
        inattrs = dict(foo=dict(optional=True, default='base foo'), prop=dict(optional=True))
        bases = (world.make('B', dict(attr={k: dict(v) for k, v in inattrs.items()}), collector=('base',), _abstract=True),)
    elif basename == 'short':
        bases = (world.make('B', dict(attr=dict(z=dict(optional=True))), collector=('base',), _abstract=True, _mkshort=True,
                            footprint_foo=lambda self: 'base long', footprint_const=lambda self: 'base const'),)
        inattrs = dict(z=dict(optional=True))
        inherited = {'foo': 'base long', 'footprint_foo': 'base long', 'const': 'base const', 'footprint_const': 'base const'}
    elif basename == 'plain':
        bases = (world.make('B', dict(), collector=('base',), _abstract=True, foo='plain base', kind='plain kind'),)
        inherited = {'foo': 'plain base', 'kind': 'plain kind'}
    attrs = dict(inattrs)
    for k, v in ATTRS[attrsi].items():
        attrs[k] = dict(attrs.get(k, {}), **v)
    footprints.setup.shortnames = st
    ns = {k: MEMBERS[k] for k in chosen}
    extra = {} if mk is None else dict(_mkshort=mk)
    with Silence(), world.LogCatcher() as logs:
        cls = world.make('Kls', dict(attr={k: dict(v) for k, v in ATTRS[attrsi].items()}, info='the info'), bases=bases, **dict(ns, **extra))
    rec.op()
    asked = st if mk is None else mk
    added = shorts(ns, attrs) if asked else {}
    values = dict(footprint_foo='long foo', foo='plain foo', footprint_kind='long kind', footprint_cls='Kls', footprint_prop='prop of x',
                  footprint_const=3, kind='hidden', footprint_a='long a', const=None, bar='bar')
    want = dict(inherited)
    want.update({k: values[k] for k in chosen})
    want.update({s: values[k] for s, k in added.items()})
    given = dict(a='x')
    for k, s in attrs.items():
        want[k] = given.get(k, s.get('default'))
    if 'int' in str(attrs.get('bar')):
        want['bar'] = 4
    candidates = set(NAMES) | {n[len('footprint_'):] for n in NAMES if n.startswith('footprint_')} | {'more', 'footprint_more', 'z'}
    if asked and any(k in ns or k in attrs for k in (n[len('footprint_'):] for n in ns if n.startswith('footprint_'))) and \
            not any('Shortcut' in m for _, m in logs.records):
        raise Violation('{}: no warning about a short name'.format(where))

    def compare(obj, want, what):
        for n in sorted(candidates):
            if n in want:
                if not hasattr(obj, n) or look(obj, n) != want[n]:
                    raise Violation('{}: {} of {} is {!r} instead of {!r}'.format(where, n, what, look(obj, n) if hasattr(obj, n) else 'missing', want[n]))
            elif hasattr(obj, n):
                raise Violation('{}: {} has a {}'.format(where, what, n))

    obj = cls(a='x')
    compare(obj, want, 'an object')
    for s, k in added.items():
        if cls.__dict__[s] is not cls.__dict__[k]:
            raise Violation('{}: {} is not {}'.format(where, s, k))
    if (cls.footprint_clsname(obj), cls.footprint_clskind(), cls.fullname(), obj.footprint_info, obj.footprint is cls.footprint_retrieve(),
            obj.realkind, cls.footprint_clsrealkind()) != ('Kls', 'kls', world.MODULE + '.Kls', 'the info', True, 'footprintbase', 'footprintbase'):
        raise Violation('{}: identity of the class'.format(where))
    if 'footprint={}'.format(len(attrs)) not in str(obj):
        raise Violation('{}: printed as {!s}'.format(where, obj))
    if type(obj.SUPER()) is not super or obj.SUPER().__self__ is not obj or obj.SUPER().__thisclass__ is not cls:
        raise Violation('{}: SUPER gives {!r}'.format(where, obj.SUPER()))
    # Arguments of the instantiation
    if attrsi in (1, 3):
        other = 'kind' if attrsi == 1 else 'bar'
        for args, kw, a, b in (((dict(a='1'),), {}, '1', None), ((dict(a='1'), dict(a='2')), {}, '2', None), ((dict(a='1'),), dict(a='2'), '2', None),
                               ((dict(a='1', **{other: '7'}), 'x', None, 4), {}, '1', 7), ((dict(), dict(a='5')), {other: '8'}, '5', 8),
                               ((dict([(other, '7')]), dict(a='1')), {other: '9'}, '1', 9),
                               ((dict(a='1', **{other: '7'}), {other: None}), {}, '1', 'kd' if attrsi == 1 else 4),
                               ((dict(a='1', **{other: '7'}),), {other: None}, '1', 'kd' if attrsi == 1 else 4)):
            before = repr(args)
            o = cls(*args, **kw)
            for kind in DICTS:
                same = cls(*[kind(x) if isinstance(x, dict) else x for x in args], **kw)
                if same.footprint_as_dict() != o.footprint_as_dict():
                    raise Violation('{}: {!r} given as {} gives {!r}'.format(where, args, kind.__name__, same.footprint_as_dict()))
            if repr(args) != before or o.a != a or (b is not None and str(getattr(o, other)) != str(b)):
                raise Violation('{}: {!r} {!r} gives {!r}'.format(where, args, kw, o.footprint_as_dict()))
            rec.op()
    # Subclasses
    for smk, sst in SUBS[:2] if len(chosen) % 2 else SUBS:
        footprints.setup.shortnames = sst
        with Silence(), world.LogCatcher():
            sub = world.make('Sub', dict(attr=dict(y=dict(optional=True))), bases=(cls,), **dict(
                dict(footprint_bar=lambda self: 'sub bar', footprint_y='no', foo='sub foo'), **({} if smk is None else dict(_mkshort=smk))))
        swant = dict(want)
        if 'footprint_cls' in chosen:
            swant['footprint_cls'] = 'Sub'
            if added.get('cls'):
                swant['cls'] = 'Sub'
        sattrs = set(attrs) | {'y'}
        swant.update(footprint_bar='sub bar', footprint_y='no')
        if 'foo' not in sattrs:
            swant['foo'] = 'sub foo'
        if (sst if smk is None else smk) and 'bar' not in sattrs:
            swant['bar'] = 'sub bar'
        for k in attrs:
            swant[k] = want[k]
        o = sub(a='x', y='why')
        rec.op()
        compare(o, swant, 'an object of a subclass ({} {})'.format(smk, sst))
        if o.y != 'why' or o.footprint_y != 'no':
            raise Violation('{}: attribute of the subclass'.format(where))
    rec.state((sorted(want.items(), key=str), sorted(added)))
    rec.outcome((len(added), bool(asked)))
