"""C22: the docstrings of the footprint classes."""

import ast
import itertools
import re

import footprints
from footprints import access, collectors, doc, priorities
from footprints.stdtypes import FPList, FPSet
from mc import world
from mc.core import Violation

ID = 'C22'
RULE = ('for every footprint (one attribute: type, access, default, values, outcast, alias, description, every docstring mode), '
        'every assignment of visibilities and weights to attributes x order of the visibility levels, every hierarchy (base and '
        'derived attributes, only clauses, aliases): the structured docstring is parsed and compared with the description: '
        'attributes once, in order, with all they are made of; other modes keep the original docstring and all the items, and '
        'the same lookups give the same outcomes')
ASSUMPTIONS = ['order of the attributes and of the items: structured format (mode 2) only',
               'the layout is parsed leniently: names in bold, type and access after the name, one item per line']
BOUNDS = dict(quick='1 attribute: 3456 descriptions x 3 modes; order: 4 attributes x 10 (visibility, weight) x 5 level orders; hierarchies of 3 levels x 3 modes; up to 60 attributes and clauses',
              thorough='id. with order: 5 attributes x 10 x 5 level orders; 4 levels of hierarchy')

ABSENT = object()


class Hidden(FPList):
    """A type of a private module."""

    __module__ = '_mcprivate._more'


TYPES = [ABSENT, int, FPList, KeyError, FPSet, Hidden]
ACCESS = [ABSENT, 'rwx', 'rwd-weak']
OPTIONAL = [ABSENT, None, 'text_', 3, 0, '', False]
VALUES = [ABSENT, ('values', [3, 1]), ('values', [0]), ('outcast', [0, 4]), ('outcast', [7, 3, 5]), ('values', list(range(3, 22))), ('outcast', list(range(11, 40))), ('both', None)]
ALIAS = [ABSENT, ['al', 'b_'], ('al',), ['al{}'.format(n) for n in range(12)]]
INFO = [ABSENT, 'A nice description.', 'A long one with_words: ' + ' '.join('word{}'.format(n) for n in range(60))]

VIS = ('default', 'advanced', 'guru', 'fresh')
ORDERS = [('default', 'advanced', 'guru', 'fresh'), ('guru', 'default', 'advanced', 'fresh'), ('fresh', 'default', 'advanced', 'guru'),
          ('advanced', 'default', 'fresh', 'guru'), ('default', 'guru', 'advanced', 'fresh')]
KEYS = [('default', 0), ('default', 5), ('default', -100), ('advanced', 100), ('advanced', 0), ('guru', 100), ('guru', -7), ('fresh', 0),
        ('fresh', 250), ('default', -300), ('default', 5.5)]

BASES = [
    dict(info='A base', attr=dict(a=dict(type=int), z=dict(optional=True, default='zz', alias=('zed',))), only=dict(q='v')),
    dict(attr=dict(m=dict(values=['m1', 'm_', 'n_', '_o__'], doc_visibility='guru'), a=dict(alias=['one', 'two'], info='The a.'))),
    dict(attr=dict(zz=dict(doc_zorder=30, optional=True), b=dict(doc_visibility='advanced', optional=True, default=4, type=int))),
    dict(only=dict(after_q=[1, 2], b='x', p=('p1', 'p2', 'p3', 'p4_', 'p5', 'p6'))),
]
CHILDREN = [
    dict(),
    dict(attr=dict(a=dict(access='rwx', doc_visibility='advanced')), only=dict(r='w')),
    dict(info='A child', attr=dict(c=dict(alias=('zed', 'one')), b=dict(outcast=(1, 2), type=int))),
    dict(attr=dict(z=dict(optional=False, doc_zorder=-5), m=dict(doc_visibility='default')), only=dict(q='other'), priority='toolbox'),
]


def cases(tier):
    for t in range(len(TYPES)):
        for a in range(len(ACCESS)):
            for o in range(len(OPTIONAL)):
                yield ('one', t, a, o)
    for order in range(len(ORDERS)):
        for x in itertools.product(range(len(KEYS)), repeat=3 if tier == 'quick' else 4):
            yield ('order', order) + x
    for n in (9, 25, 60):
        for k in range(3):
            yield ('many', n, k)
    n = 2 if tier == 'quick' else 3
    for b in itertools.product(range(len(BASES)), range(len(BASES))):
        for c in itertools.product(range(len(CHILDREN)), repeat=n):
            for how in ('dict', 'list', 'base2'):
                yield ('tree', b, c, how)


def fill(attr):
    out = {}
    for k, spec in attr.items():
        s = dict(access='rxx', optional=False, default=None, alias=(), values=(), outcast=(),
                 doc_visibility='default', doc_zorder=0)
        s.update(spec)
        s['doc_zorder'] = max(-100, min(100, s['doc_zorder']))
        out[k] = s
    return out


def merge(d1, d2):
    for k, v in d2.items():
        if isinstance(v, dict) and isinstance(d1.get(k), dict):
            merge(d1[k], v)
        elif isinstance(v, dict):
            d1[k] = merge({}, v)
        else:
            d1[k] = v
    return d1


def real(fp):
    """The description with real visibility and priority levels."""
    out = merge({}, fp)
    for s in out.get('attr', {}).values():
        if 'doc_visibility' in s:
            s['doc_visibility'] = getattr(doc.visibility, s['doc_visibility'].upper())
    if 'priority' in out:
        out['priority'] = dict(level=getattr(priorities.top, out['priority'].upper()))
    return out


def literal(where, text):
    if re.search(r'(?<=\w)_(?![\w\\])', text):
        # It would be taken as a link
        raise Violation('{}: not escaped: {!r}'.format(where, text))
    text = text.strip().replace('\\_', '_')
    m = re.fullmatch(r'(?:set|frozenset)\(\[(.*)\]\)', text)
    try:
        return set(ast.literal_eval('[' + m.group(1) + ']')) if m else ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text


def parse(where, text):
    """Attributes (in order), only clauses, aliases and notes of a structured docstring."""
    attrs, only, aliases, notes, section, last = [], [], [], {}, 'head', None
    for line in text.splitlines():
        s = line.strip()
        if not s:
            continue
        low = s.lower()
        if not s.startswith('*'):
            if 'alias' in low:
                section = 'alias'
            elif 'only' in low:
                section = 'only'
            elif 'parameters' in low:
                section = 'attr'
            last = None
            continue
        bold = re.match(r'\* \*\*(.*?)\*\*(.*)$', s)
        if section == 'attr' and bold:
            m = re.match(r'\s*\(:class:`([^`]*)`\)\s*-\s*(\S+)\s*-\s*(.*)$', bold.group(2))
            if not m:
                raise Violation('{}: cannot understand {!r}'.format(where, line))
            last = dict(name=bold.group(1), type=m.group(1), access=m.group(2), info=m.group(3), items={})
            attrs.append(last)
        elif section == 'attr' and last is not None:
            m = re.match(r'\* Optional\.\s*Default is (.*)\.$', s)
            if m:
                last['items']['default'] = literal(where, m.group(1))
            else:
                k, v = s[2:].split(':', 1)
                last['items'][k.lower()] = literal(where, v)
        elif section == 'only' and bold:
            only.append((bold.group(1), bold.group(2).lstrip(' -').strip()))
        elif section == 'alias' and bold:
            m = re.match(r'\s*is an alias of (.*?)\.$', bold.group(2))
            aliases.append((bold.group(1), m.group(1) if m else bold.group(2)))
        elif section == 'head':
            k, v = s[2:].split(':', 1)
            notes[k] = v.strip()
    return attrs, only, aliases, notes


def check_structured(where, cls, attr, only, info, order, level='DEFAULT'):
    attrs, gonly, galiases, notes = parse(where, cls.__doc__)
    names = sorted(attr, key=lambda k: (order.index(attr[k]['doc_visibility']), -attr[k]['doc_zorder'], k))
    if [x['name'] for x in attrs] != names:
        raise Violation('{}: the docstring lists {!r} instead of {!r}'.format(where, [x['name'] for x in attrs], names))
    for x in attrs:
        s = attr[x['name']]
        t = s.get('type', str)
        if x['type'] != t.__module__ + '.' + t.__name__ and not (t.__module__ == 'builtins' and x['type'] == t.__name__) or x['access'] != s['access']:
            raise Violation('{}: {!r} for {!r}'.format(where, x, s))
        if s.get('info') and x['info'] != s['info'] or not s.get('info') and 'not documented' not in x['info'].lower():
            raise Violation('{}: description {!r} of {} instead of {!r}'.format(where, x['info'], x['name'], s.get('info')))
        if s['optional'] and x['items'].get('default', ABSENT) != (str(s['default']) if s['default'] == 'None' else s['default']):
            raise Violation('{}: default {!r} of {} instead of {!r}'.format(where, x['items'], x['name'], s['default']))
        if not s['optional'] and 'default' in x['items']:
            raise Violation('{}: mandatory attribute {} with {!r}'.format(where, x['name'], x['items']))
        for k in ('values', 'outcast'):
            if x['items'].get(k, set()) != set(s[k]):
                raise Violation('{}: {} {!r} of {} instead of {!r}'.format(where, k, x['items'], x['name'], s[k]))
    if gonly != [(k, str(v)) for k, v in sorted(only.items())]:
        raise Violation('{}: only clauses {!r} instead of {!r}'.format(where, gonly, only))
    want = sorted((a, k) for k in attr for a in attr[k]['alias'])
    if sorted(galiases) != want:
        raise Violation('{}: aliases {!r} instead of {!r}'.format(where, galiases, want))
    if notes.get('info') != info or level not in notes.get('priority', ''):
        raise Violation('{}: notes {!r} instead of {!r}'.format(where, notes, (info, level)))


def check_raw(where, cls, attr, only, info):
    text = cls.__doc__
    for word in itertools.chain(attr, only, [info], *[s['alias'] for s in attr.values()],
                                *[[str(v) for v in itertools.chain(s['values'], s['outcast'])] for s in attr.values()],
                                [s['info'] for s in attr.values() if s.get('info')],
                                [str(s['default']) for s in attr.values() if s['optional']],
                                [s['access'] for s in attr.values()]):
        if not re.search(r'(?<!\w)' + re.escape(word), text):
            raise Violation('{}: no {!r} in the docstring {!r}'.format(where, word, text))


def verify(where, mode, cls, original, attr, only, info, order=VIS, level='DEFAULT'):
    text = cls.__doc__
    for k, s in attr.items():
        told = vars(cls)[k].__doc__ or ''
        if s.get('info') and not told.startswith(s['info'].rstrip('.')):
            raise Violation('{}: the documentation of {} is {!r}'.format(where, k, told))
    if original and not text.startswith(original):
        raise Violation('{}: the docstring starts with {!r}'.format(where, text[:50]))
    if mode == 0:
        if text != (original or 'Not documented yet.'):
            raise Violation('{}: unexpected docstring {!r}'.format(where, text))
    elif mode == 1:
        check_raw(where, cls, attr, only, info)
    else:
        check_structured(where, cls, attr, only, info, order, level)


DOCS = [None, 'Some documentation.\n\n    On several lines\n']


def run(case, rec):
    globals()['run_' + case[0]](case, rec)


def run_one(case, rec):
    _, t, a, o = case
    for v, al, i, mode in itertools.product(VALUES, ALIAS, INFO, (0, 1, 2)):
        typ = TYPES[t]
        if v is not ABSENT and typ not in (ABSENT, int):
            continue
        if OPTIONAL[o] is not None and (typ is int and OPTIONAL[o] not in (3, 0) or typ in (FPList, FPSet, KeyError, Hidden)):
            if OPTIONAL[o] is not ABSENT:
                continue
        spec = {}
        if typ is not ABSENT:
            spec['type'] = typ
        if ACCESS[a] is not ABSENT:
            spec['access'] = ACCESS[a]
        if OPTIONAL[o] is not ABSENT:
            spec.update(optional=True, default=OPTIONAL[o])
        if v is not ABSENT:
            val = (lambda x: [str(e) + '_' for e in x]) if typ is ABSENT else list
            if v[0] == 'both':
                spec.update(values=val([1, 3, 4]), outcast=val([2, 5]))
            else:
                spec[v[0]] = val(v[1])
        if al is not ABSENT:
            spec['alias'] = al
        if i is not ABSENT:
            spec['info'] = i
        world.reset()
        footprints.setup.docstrings = mode
        original = DOCS[(i is ABSENT) ^ (al is ABSENT)]
        where = 'docstrings={} {!r}'.format(mode, spec)
        cls = world.make('K', dict(attr=dict(one=dict(spec), other=dict(optional=True))), __doc__=original)
        attr = fill(dict(one=spec, other=dict(optional=True)))
        rec.op()
        verify(where, mode, cls, original, attr, {}, 'Not documented')
        # Same behaviour in every mode
        given = {ABSENT: '3', int: '3', FPList: ['x'], Hidden: Hidden(['x']), FPSet: {'x'}, KeyError: KeyError('x')}[typ]
        if not (spec.get('access') == 'rwd-weak'):
            col = collectors.get(tag='thing')
            obj = col.find_any(dict(one=given))
            ok = '3' not in spec.get('outcast', ()) and 3 not in spec.get('outcast', ())
            if 'values' in spec and (typ is ABSENT or 3 not in spec['values']):
                ok = False
            if ok is not (obj is not None):
                raise Violation('{}: lookup of one={!r} gives {!r}'.format(where, given, obj))
            if obj is not None and (obj.one != ('3' if typ is ABSENT else 3 if typ is int else given) or obj.other is not None):
                raise Violation('{}: attributes {!r} {!r}'.format(where, obj.one, obj.other))
        rec.outcome((mode, typ is ABSENT))
    # A footprint object has a docstring of its own
    for mode in (0, 1, 2):
        footprints.setup.docstrings = mode
        fp = footprints.Footprint(attr=dict(one=dict(info='Some info', optional=True, default=3), two=dict()), info='Its info')
        text = fp.__doc__ or ''
        if mode == 2:
            names = [x['name'] for x in parse('Footprint', text)[0]]
            if names != ['one', 'two']:
                raise Violation('Footprint: the docstring lists {!r}'.format(names))
        elif mode == 1 and not ('one' in text and 'two' in text and 'Some info' in text):
            raise Violation('Footprint: docstring {!r}'.format(text))
        rec.state((mode, case))
    # Other entries of the footprint, and decorators
    for mode, abstract, doco in itertools.product((0, 1, 2), (False, True), (False, True)):
        world.reset()
        footprints.setup.docstrings = mode
        where = 'docstrings={} decorators abstract={} {}'.format(mode, abstract, doco)

        def first(cls):
            if doco:
                cls.__doc__ = 'Changed by the decorator.'
            return cls

        def second(cls):
            return cls
        attr = dict(one=dict(info='Some info', optional=True, default=3, alias=['uno']), two_=dict())
        fp = footprints.DecorativeFootprint(attr={k: dict(v) for k, v in attr.items()}, info='Its info', bind=['one', 'two_'], only=dict(q='v'),
                                            fastkeys={'two_'}, decorator=[first, second])
        cls = world.make('K', fp, _abstract=abstract, __doc__='Original.')
        rec.op()
        verify(where, mode, cls, 'Changed by the decorator.' if doco else 'Original.', fill(attr), dict(q='v'), 'Its info')
        text = cls.__doc__.replace('\\_', '_')
        if mode == 2 and 'first' in text and text.index('.first') > text.index('.second'):
            raise Violation('{}: decorators out of order in {!r}'.format(where, text))
        for word in ('bind', 'fastkeys', "'two_'", 'first', 'second') if mode else ():
            if word not in text:
                raise Violation('{}: {!r} is not documented in {!r}'.format(where, word, text))
        sub = world.make('S', dict(attr=dict(three=dict())), bases=(cls,), __doc__='Of the subclass.')
        verify(where + ' subclass', mode, sub, 'Of the subclass.', fill(dict(attr, three=dict())), dict(q='v'), 'Its info')


def run_many(case, rec):
    """Many attributes, aliases and clauses, declared at once or not."""
    _, n, k = case
    attr = {}
    for i in range(n):
        s = attr['at{:02d}'.format(i * 7 % n) if i % 2 else 'z{}_'.format(i)] = dict(info='The attribute number {}'.format(i))
        if i % 3 == 0:
            s.update(optional=True, default='d{}'.format(i))
        if i % 4 == 1:
            s['alias'] = ['al{}_{}'.format(i, j) for j in range(i % 5 + 1)]
        if i % 5 == 2:
            s['values'] = ['v{}'.format(j) for j in range(i)]
        elif i % 5 == 3:
            s['outcast'] = ['o{}'.format(j) for j in range(i)]
        if i % 7 == 3:
            s['access'] = 'rwx'
        if i % 6 == 5:
            s['doc_visibility'] = VIS[i % 4 % 3]
        if i % 6 == 4:
            s['doc_zorder'] = (i * 13) % 60
    only = {'cl{}'.format(i): ['c{}'.format(i), ['d'] * i, tuple(range(i))][i % 3] for i in range(n)}
    for mode in (0, 1, 2):
        world.reset()
        footprints.setup.docstrings = mode
        keys = list(attr)
        parts = [keys] if k == 0 else [keys[:n // 2], keys[n // 2:]] if k == 1 else [keys[i:i + 5] for i in range(0, n, 5)]
        cls = None
        local = [real(dict(attr={a: dict(attr[a]) for a in part})) for part in parts]
        local[-1].update(only=dict(only), info='Many')
        for i, fp in enumerate([local] if k == 2 else local):
            cls = world.make('K{}'.format(i), fp, __doc__='Original.', **(dict(bases=(cls,)) if cls else {}))
        rec.op()
        verify('{!r} docstrings={}'.format(case, mode), mode, cls, 'Original.', fill(attr), only, 'Many')
        rec.outcome(('many', mode))
    rec.state(case)


def levels(order):
    """Reorder the visibility levels."""
    doc.set_after('guru', 'fresh')
    if order[0] == 'guru':
        doc.set_before('default', 'guru')
    elif order[0] == 'fresh':
        doc.set_before('default', 'fresh')
    elif order[0] == 'advanced':
        doc.set_before('default', 'advanced')
        doc.set_after('fresh', 'guru')
    elif order[1] == 'guru':
        doc.set_after('default', 'guru')


NAMES = ('b', 'a', 'd_', 'c', 'ab')


def run_order(case, rec):
    order = ORDERS[case[1]]
    for last in range(len(KEYS)):
        for early in (True, False):
            keys = [KEYS[k] for k in case[2:] + (last,)]
            attr = {NAMES[i]: dict(doc_visibility=vis, doc_zorder=z, info='The ' + NAMES[i]) for i, (vis, z) in enumerate(keys)}
            world.reset()
            footprints.setup.docstrings = 2
            where = 'levels {!r}{} {!r}'.format(order, ' set before' if early else ' set between the two classes', keys)
            if early:
                levels(order)
            else:
                doc.set_after('guru', 'fresh')
            base = world.make('B', real(dict(attr=attr)))
            verify(where + ' base', 2, base, None, fill(attr), {}, 'Not documented', order if early else VIS)
            if not early:
                levels(order)
            more = dict(attr=dict(e=dict(info='The e', doc_visibility='guru', doc_zorder=1)))
            cls = world.make('K', real(more), bases=(base,))
            verify(where, 2, cls, None, fill(dict(attr, **more['attr'])), {}, 'Not documented', order)
            rec.op()
    rec.state(case)
    rec.outcome(order)


def run_tree(case, rec):
    _, b, c, how = case
    outcomes = []
    for mode in (0, 1, 2):
        world.reset()
        footprints.setup.docstrings = mode
        where = 'docstrings={} bases {!r} children {!r} {}'.format(mode, b, c, how)
        first, second = BASES[b[0]], BASES[b[1]]
        model = dict(attr={}, only={}, info='Not documented', priority='default')
        merge(model, first)
        base = world.make('B0', real(first))
        verify(where + ' first', mode, base, None, fill(model['attr']), model['only'], model['info'])
        model['attr'] = fill(model['attr'])
        last = [CHILDREN[x] for x in c]
        if how == 'base2':
            bases = (world.make('B1', real(second)), base)
            other = merge(dict(info='Not documented', priority='default'), second)
            other['attr'] = fill(other.get('attr', {}))
            merge(model, other)
        elif how == 'list':
            bases = (base,)
            last.insert(0, second)
        else:
            mid = world.make('B1', real(second), bases=(base,))
            merge(model, second)
            verify(where + ' middle', mode, mid, None, fill(model['attr']), model['only'], model['info'])
            for n, x in enumerate(last[:-1]):
                mid = world.make('M{}'.format(n), real(x), bases=(mid,))
                merge(model, x)
            bases = (mid,)
            last = last[-1:]
        for x in last:
            merge(model, x)
        local = [real(x) for x in last]
        cls = world.make('K', local[0] if len(local) == 1 else local, bases=bases, __doc__=DOCS[1])
        rec.op()
        verify(where, mode, cls, DOCS[1], fill(model['attr']), model['only'], model['info'], level=model['priority'].upper())
        col = collectors.get(tag='thing')
        seen = []
        for desc in (dict(a='3', m='m1', c='cc', b='4', z='w'), dict(a='3', q='v', r='w'), dict(one='5', m='m_', zed='al', q='other', r='w'),
                     dict(b='x', after_q=[1, 2], a='9', q='v')):
            found = [(x.__name__, sorted((k, str(v)) for k, v in got.items())) for x, got, *_ in col.find_all(desc)]
            seen.append(sorted(found))
        outcomes.append(seen)
    if outcomes[0] != outcomes[1] or outcomes[0] != outcomes[2]:
        raise Violation('bases {!r} children {!r} {}: the outcomes of lookups depend on the docstring mode: {!r}'.format(b, c, how, outcomes))
    rec.state((case, outcomes))
    rec.outcome([len(x) for x in outcomes[0]])

