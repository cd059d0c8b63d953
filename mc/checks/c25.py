"""C25: the listings tell exactly what the classes of a collector accept."""

import contextlib
import io
import itertools
import re

import footprints
from footprints import collectors
from footprints.stdtypes import FPTuple
from mc import world
from mc.core import Violation

ID = 'C25'
RULE = ('every history of definitions (10 footprints with nested names, aliases, values of various types, optional or not; one or '
        'two collectors, abstract or not, derived), discards, additions and clears; after each history the map of the attributes '
        '(all of them or selected by 11 forms of selection, separate or accumulated over the collectors), its printed forms, the '
        'authorized values, and the keys, aliases, tracked keys and access modes of each class are compared with the '
        'declarations of the classes; the values listed are changed by the caller without any effect')
ASSUMPTIONS = ['the order of the classes and of values that cannot be compared is not specified']
BOUNDS = dict(quick='27 operations: histories of length 3; up to 120 classes and values', thorough='27 operations: histories of length 4')


class K0:
    pass


SHAPES = {
    'kind': dict(kind=dict(values=['x', 'y']), k=dict(optional=True, alias=['id'])),
    'num': dict(kind=dict(type=int, values=['1', 2], alias=['k', 'in', 'CC', 'Kin'])),
    'out': dict(kind=dict(outcast=['x', 'z']), i=dict(type=int, values=[3, 1], outcast=[1], access='rwx')),
    'opt': dict(kind=dict(optional=True, values=['x', 'w'], default='w'), kin=dict(access='rwd'), Kin=dict(optional=True, values=['x', 'X'])),
    'cls': dict(k=dict(type=K0, isclass=True, values=[K0]), i=dict(optional=True, type=int, values=[0])),
    'tup': dict(kind=dict(type=FPTuple, values=[(1, 2)]), kind_of=dict(values=['x'])),
    'remap': dict(kind=dict(values=['a', 'b'], remap=dict(c='a', b='a'), alias=['d'])),
    'flag': dict(flag=dict(type=bool, values=[True], outcast=[False])),
    'void': dict(),
    'all': dict(kind=dict(values=['x', 'y', 'z'], outcast=['q', 'y'], optional=True, default='x'), i=dict(type=int, values=range(1, 4), outcast=[2, 7]),
                k=dict(optional=True, type=int, values=[0, 1], outcast=[1], alias=['in'])),
}
ATTRS = ('kind', 'k', 'i', 'kin', 'Kin', 'KIND', 'kind_of', 'flag', 'nope')
OPS = [('def', s, 'thing') for s in SHAPES] + [('def', s, 'both') for s in ('kind', 'num', 'opt', 'cls')] + \
      [('same', s, 'thing') for s in ('kind', 'num')] + [('abs', s, 'both') for s in ('kind', 'tup')] + [('sub', s, 'thing') for s in ('kind', 'opt', 'cls')] + \
      [('discard', 0), ('discard', -1), ('readd', 0), ('clear',), ('spoil',), ('level', 0), ('fasttrack',)]
ONLY = [None, 'kind', 'k', 'kin', '', 'nope', (), ('kind',), ['k', 'i'], {'kin', 'kind_of'}, {'kind': 1, 'i': 2}]


def cases(tier):
    for n in (17, 40, 120):
        yield ('many', n)
    for n in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(OPS)), repeat=n):
            if OPS[h[0]][0] in ('def', 'abs'):
                yield h


def printed(f, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **kw)
    return out.getvalue()


def real(spec):
    """The values as they are once converted."""
    def conv(v):
        t = spec.get('type', str)
        return v if spec.get('isclass') or isinstance(v, t) else t(v)
    return {k: [conv(v) for v in spec.get(k, ())] for k in ('values', 'outcast')}


def key(v):
    return (type(v).__name__, repr(v))


def chosen(only, a):
    if only is None:
        return True
    if isinstance(only, str):
        return a == only
    return a in only


def attrmap_of(classes, only):
    out = {}
    for name, attrs in classes:
        for a, spec in attrs.items():
            if chosen(only, a):
                r = real(spec)
                out.setdefault(a + (' [optional]' if spec.get('optional') else ''), []).append(
                    name + (sorted(map(key, r['values'])), sorted(map(key, r['outcast']))))
    return {k: sorted(v) for k, v in out.items()}


def seen(attrmap):
    for infos in attrmap.values():
        for x in infos:
            if set(x) != {'name', 'module', 'values', 'outcast'}:
                raise Violation('attribute map: {!r}'.format(x))
    return {k: sorted((x['name'], x['module'], sorted(map(key, x['values'])), sorted(map(key, x['outcast']))) for x in v)
            for k, v in attrmap.items()}


def shown(where, text):
    """What is printed by show_attrmap."""
    out = {}
    for line in text.splitlines():
        m = re.fullmatch(r' \* (\S+(?: \[optional\])?):', line)
        if m:
            if m.group(1) in out:
                raise Violation('{}: {} printed twice'.format(where, m.group(1)))
            infos = out[m.group(1)] = []
            continue
        m = re.fullmatch(r'\s+(\S+)\s+\+ (\S+)', line)
        if m:
            infos.append((m.group(1), m.group(2), [], []))
            continue
        m = re.fullmatch(r'\s+\| (values|outcast) = (.*)', line)
        if m:
            infos[-1][2 if m.group(1) == 'values' else 3].append(m.group(2))
        elif line.strip():
            raise Violation('{}: {!r}'.format(where, line))
    return out


def run_many(case, rec):
    """Many classes with the same attributes, and attributes with many values."""
    n = case[1]
    want = {}
    for i in range(n):
        attrs = {'kind': dict(values=['v{}'.format(j) for j in range(i)]), 'opt{}'.format(i % 30): dict(optional=True, type=int, outcast=list(range(i)))}
        world.make('K{:03d}'.format(i * 7 % n), dict(attr=attrs))
        for a, s in attrs.items():
            want.setdefault(a + (' [optional]' if a != 'kind' else ''), []).append(
                ('K{:03d}'.format(i * 7 % n), world.MODULE, [str(v) for v in s.get('values', ())], [str(v) for v in s.get('outcast', ())]))
    col = collectors.get(tag='thing')
    got = {a: sorted((x['name'], x['module'], sorted(map(str, x['values'])), sorted(map(str, x['outcast']))) for x in v) for a, v in col.build_attrmap().items()}
    if got != {a: sorted((x[0], x[1], sorted(x[2]), sorted(x[3])) for x in v) for a, v in want.items()}:
        raise Violation('{!r}: map {!r}'.format(case, got))
    text = shown(repr(case), printed(col.show_attrmap))
    if list(text) != sorted(want):
        raise Violation('{!r}: attributes printed {!r}'.format(case, list(text)))
    for a, infos in want.items():
        if sorted((x[0], x[1], *[sorted(w for p in l for w in p.split(', ')) for l in x[2:]]) for x in text[a]) != \
                sorted((x[0], x[1], sorted(x[2]), sorted(x[3])) for x in infos):
            raise Violation('{!r}: printed for {}: {!r}'.format(case, a, text[a]))
    got = [x.replace('*', '').strip() for x in printed(col.show_attrkeys).splitlines() if x.strip()]
    if [x.split() for x in got] != [k.split() for k in sorted(want)]:
        raise Violation('{!r}: printed keys {!r}'.format(case, got))
    if list(col.get_values('kind')) != sorted('v{}'.format(j) for j in range(n - 1)) or col.get_values('opt1'):
        raise Violation('{!r}: values {!r}'.format(case, col.get_values('kind')))
    for vals in (tuple('v{}'.format(i) for i in range(n)), tuple(range(n)), tuple('a' * i for i in range(n))):
        ktype = type(vals[0])
        cls = world.make('Own', dict(attr=dict(kind=dict(type=ktype, values=list(vals), outcast=[ktype(n)] + list(vals[1:])))), collector=('other',))
        fp = cls.footprint_retrieve()
        if sorted(cls.footprint_values('kind')) != sorted(vals) or sorted(fp.get_values('kind')) != sorted(vals) or set(fp.get_outcast('kind')) != {ktype(n)} | set(vals[1:]):
            raise Violation('{!r}: own values {!r}, {!r}, {!r}'.format(case, cls.footprint_values('kind'), fp.get_values('kind'), fp.get_outcast('kind')))
    rec.op(n)
    rec.state(case)


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    where = repr([OPS[i] for i in case])
    defined = []                # (class, name, attrs, tags, abstract)
    content = {'thing': [], 'other': []}
    for n, i in enumerate(case):
        op = OPS[i]
        rec.op()
        if op[0] in ('def', 'abs', 'same'):
            attrs = SHAPES[op[1]]
            tags = ('thing', 'other') if op[2] == 'both' else (op[2],)
            # The first class and others may have the same name, in different modules
            cls = world.make('K{}'.format(n if op[0] != 'same' else 0), dict(attr={k: dict(v) for k, v in attrs.items()}, info='info {}'.format(n)),
                             collector=tags, _abstract=op[0] == 'abs', **(dict(__module__='other{}'.format(n)) if op[0] == 'same' else {}))
            defined.append((cls, (cls.__name__, cls.__module__), attrs, tags, 'info {}'.format(n)))
            if op[0] != 'abs':
                for t in tags:
                    content[t].append(defined[-1])
        elif op[0] == 'sub':
            base = defined[-1]
            attrs = dict(base[2])
            new = SHAPES[op[1]]
            for a, s in new.items():
                if a not in attrs:
                    attrs[a] = s
            cls = world.make('K{}'.format(n), dict(attr={k: dict(v) for k, v in new.items() if k not in base[2]}, info='info {}'.format(n)),
                             bases=(base[0],), collector=None)
            defined.append((cls, (cls.__name__, cls.__module__), attrs, base[3], 'info {}'.format(n)))
            for t in base[3]:
                content[t].append(defined[-1])
        elif op[0] == 'discard':
            if content['thing']:
                collectors.get(tag='thing').discard(content['thing'].pop(op[1])[0])
        elif op[0] == 'readd':
            collectors.get(tag='thing').add(defined[0][0])
            if defined[0] not in content['thing']:
                content['thing'].append(defined[0])
        elif op[0] == 'clear':
            collectors.get(tag='thing').clear()
            content['thing'] = []
        elif op[0] == 'fasttrack':
            collectors.get(tag='thing').fasttrack = ('kind', 'i')
        elif op[0] == 'level':
            footprints.reset_package_priority(world.MODULE, 'toolbox')
        else:
            # What the listings give belongs to the caller
            for t in content:
                m = collectors.get(tag=t).build_attrmap()
                for v in m.values():
                    v.clear()
                m.clear()
                collectors.get(tag=t).get_values('kind').append('spoiled')
            for cls, _, attrs, _, _ in defined:
                cls.footprint_mandatory().append('spoiled')
                cls.footprint_retrieve().allkeys().add('spoiled')
                cls.footprint_retrieve().as_opts().add('spoiled')
                cls.footprint_retrieve().as_copy()['attr'].clear()
                cls.footprint_retrieve().as_dict().clear()
                for a in attrs:
                    cls.footprint_values(a).append('spoiled')
    for tag in content:
        col = collectors.get(tag=tag)
        classes = [(c[1], c[2]) for c in content[tag]]
        for only in ONLY:
            want = attrmap_of(classes, only)
            got = seen(col.build_attrmap(only=only))
            if got != want:
                raise Violation('{}: map of {} (only {!r}): {!r} instead of {!r}'.format(where, tag, only, got, want))
            text = shown(where, printed(col.show_attrmap, only=only))
            if list(text) != sorted(want):
                raise Violation('{}: printed map of {} (only {!r}): {!r}'.format(where, tag, only, text))
            for a, infos in want.items():
                if [x[:2] for x in text[a]] != [x[:2] for x in infos]:
                    raise Violation('{}: printed map of {} for {}: {!r}'.format(where, tag, a, text[a]))
                for x, y in zip(sorted(text[a]), infos):
                    for p, v in ((x[2], y[2]), (x[3], y[3])):
                        words = sorted(p[0].split(', ')) if p else []
                        clean = sorted(w for _, r in v for w in re.sub("['()]", '', r).split(', '))
                        if words != clean:
                            raise Violation('{}: printed values for {} in {}: {!r}'.format(where, a, tag, p))
            got = [tuple(x.replace('*', '').split()) for x in printed(col.show_attrkeys, only=only).splitlines() if x.strip()]
            if got != [tuple(k.split()) for k in sorted(want)]:
                raise Violation('{}: printed keys of {} (only {!r}): {!r}'.format(where, tag, only, got))
        for a in ATTRS:
            want = {key(v): v for _, attrs in classes if a in attrs for v in real(attrs[a])['values']}
            got = col.get_values(a)
            if sorted(map(key, got)) != sorted(want):
                raise Violation('{}: values of {} in {}: {!r} instead of {!r}'.format(where, a, tag, got, sorted(want)))
            if len({type(v) for v in got}) == 1 and isinstance(got[0], (int, str)) and got != sorted(got):
                raise Violation('{}: values of {} in {} are not sorted: {!r}'.format(where, a, tag, got))
    given = {}
    for tag in content:
        if collectors.get(tag=tag).build_attrmap(attrmap=given) is not given:
            raise Violation('{}: another map'.format(where))
    if seen(given) != attrmap_of([(c[1], c[2]) for t in content for c in content[t]], None):
        raise Violation('{}: accumulated map {!r}'.format(where, given))
    # Accumulated over the collectors
    every = {'zero': []}
    for tag in content:
        if collectors.get(tag=tag).build_attrmap(attrmap=every, only=('kind', 'k')) is not every:
            raise Violation('{}: another map'.format(where))
    if every.pop('zero') != [] or seen(every) != attrmap_of([(c[1], c[2]) for t in content for c in content[t]], ('kind', 'k')):
        raise Violation('{}: accumulated map {!r}'.format(where, every))
    for cls, name, attrs, _, info in defined:
        fp = cls.footprint_retrieve()
        aliases = {x for s in attrs.values() for x in s.get('alias', ())}
        if fp.allkeys() != set(attrs) | aliases or fp.as_opts() != set(attrs) | aliases:
            raise Violation('{}: keys of {}: {!r}, {!r}'.format(where, name, fp.allkeys(), fp.as_opts()))
        mandatory = sorted(a for a, s in attrs.items() if not s.get('optional'))
        if sorted(fp.mandatory()) != mandatory or sorted(cls.footprint_mandatory()) != mandatory:
            raise Violation('{}: mandatory attributes of {}: {!r}'.format(where, name, fp.mandatory()))
        for a, s in attrs.items():
            r = real(s)
            got = (bool(fp.optional(a)), bool(cls.footprint_optional(a)), sorted(map(key, fp.get_values(a))), sorted(map(key, cls.footprint_values(a))),
                   sorted(map(key, fp.get_outcast(a))), cls.footprint_access(a))
            want = (s.get('optional', False), s.get('optional', False), sorted(map(key, r['values'])), sorted(map(key, r['values'])),
                    sorted(map(key, r['outcast'])), s.get('access', 'rxx'))
            if got != want:
                raise Violation('{}: {} of {}: {!r} instead of {!r}'.format(where, a, name, got, want))
        words = ['zz', 'kind_of', 'd', 'id', 'kin', 'in', 'k', 'i', 'kind', 'Kind', '_kind', 'cc', 'CC', 'Kin', 'KIN', 'ID']
        for desc in (words, words[::-1]):
            want = [w for w in desc if w in set(attrs) | aliases]
            if list(fp.track({w: 1 for w in desc})) != want:
                raise Violation('{}: tracked keys for {}: {!r}'.format(where, name, fp.track({w: 1 for w in desc})))
        if fp.info != info:
            raise Violation('{}: info of {}: {!r}'.format(where, name, fp.info))
    rec.state([(t, sorted(c[1] for c in cs)) for t, cs in content.items()] + [c[2] for c in defined])
    rec.outcome((len(content['thing']), len(content['other'])))
