"""C02: where the value of each attribute comes from."""

import itertools

import footprints
from footprints import collectors
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C02'
RULE = ('for one and two attributes: optional or not x footprint default (none, value, false value, empty text or tuple, footprint_value object) x '
        'key in the description (absent, None, value, false value) x alias (ditto) x setup defaults (absent, exact '
        'key, upper case key, alias key, false value); then histories of changes of the defaults between lookups; '
        'every name of a common alphabet (mc/zoo.py) in each role (attribute, alias, key of the description or of the setup)')
ASSUMPTIONS = ['a description never gives two aliases of the same attribute with different values '
               '(their precedence is not specified)', 'no None among the setup defaults']
BOUNDS = dict(quick='1 attribute: full product; 2 attributes: product with a reduced second attribute; '
                    'histories of 3 changes of defaults', thorough='2 attributes: full product; histories of 4 changes')


TICK = [0]


class Live:
    """A default whose value is computed at each lookup (the harness owns the clock)."""

    def __init__(self, name):
        self.name = name

    def footprint_value(self):
        return None if self.name is None else '{}{}'.format(self.name, TICK[0])


OPT = (0, 1)
DFLT = ('none', 'val', 'live', 'false', 'void', 'livenone', 'empty')
DESC = ('absent', 'None', 'v', 'false')
ALIAS = ('absent', 'None', 'w', 'false')
FALSE = ('', 0)
NUM = (1, 2, 3)
SETUP = ('absent', 'same', 'upper', 'alias', 'false')
NAMES = (('a', 'al'), ('Bee', 'Bal'))


def configs():
    return list(itertools.product(OPT, DFLT, DESC, ALIAS, SETUP))


ROLES = ('desc', 'alias', 'setup', 'SETUP', 'default', 'live', 'default of the object', 'None and alias', 'None and setup', 'other alias')


def run_name(case, rec):
    """Names of all kinds, in every role."""
    _, name, role = case
    other = 'b' if name == 'a' else 'a'
    if 'alias' in role:
        attrs = {other: dict(alias=['zz', name] if role == 'other alias' else [name], optional=True)}
    else:
        attrs = {name: dict(optional=role != 'desc')}
    attrs['last'] = dict(optional=True)
    real = {k: dict(v) for k, v in attrs.items()}
    desc, dflts = {}, {}
    if role == 'desc' or 'alias' in role:
        desc[name] = 'v'
    if 'None' in role:
        desc[other if 'alias' in role else name] = None
    if 'setup' in role:
        dflts[name] = 'S'
    elif role == 'SETUP':
        dflts[name.upper()] = 'S'
    elif 'default' in role or role == 'live':
        v = 'D'
        if role == 'live':
            v = Live('L')
        elif role == 'default of the object':
            v = type('Bare', (), {})()
            v.footprint_value = lambda: 'own'
        attrs[name]['default'] = real[name]['default'] = v
    if name.upper() == other.upper() or len({k.lower() for k in attrs}) < len(attrs):
        rec.outcome('skipped')
        return
    cls = world.make('K', dict(attr=real))
    col = collectors.get(tag='thing')
    footprints.setup.defaults = dict(dflts)
    for how in ('find_all', 'load', cls):
        compare(attrs, desc, dflts, col, rec, how=how)
        compare(attrs, dict(desc, more='x'), dflts, col, rec, how=how)


def cases(tier):
    for name in zoo.NAMES:
        for role in ROLES:
            yield ('name', name, role)
    full = configs()
    for i in (0, 1):
        for c in full:
            yield ('res', i, (c,))
    if tier == 'quick':
        second = [c for c in full if (c[0], c[1]) in ((0, 'none'), (1, 'val'), (1, 'false')) and
                  (c[2:] in (('v', 'absent', 'absent'), ('absent', 'w', 'same'), ('absent', 'absent', 'upper'),
                             ('None', 'absent', 'absent'), ('absent', 'absent', 'absent'), ('absent', 'None', 'false')))]
    else:
        second = full
    for c in full:
        for c2 in second:
            yield ('res', 0, (c, c2))
    ops = ('setA', 'setB', 'upper', 'update', 'del', 'empty')
    n = 3 if tier == 'quick' else 4
    for opt, dflt, desc in itertools.product(OPT, DFLT, ('absent', 'v')):
        for seq in itertools.product(ops, repeat=n):
            yield ('hist', (opt, dflt, desc), seq)


def build(i, conf):
    """Attributes specification (for the model and for the code), description and defaults."""
    model, real, desc, dflts = {}, {}, {}, {}
    for j, (opt, dflt, d, al, st) in enumerate(conf):
        name, alias = NAMES[(i + j) % 2]
        for side in (model, real):
            s = dict(alias=[alias], optional=bool(opt))
            if dflt == 'val':
                s['default'] = 'dflt_' + name
            elif dflt == 'live':
                s['default'] = Live('live_' + name)
            elif dflt == 'livenone':
                s['default'] = Live(None)
            elif dflt == 'false':
                s['default'] = 0
                s['type'] = int
            elif dflt == 'void':
                s['default'] = ''
            elif dflt == 'empty':
                s['default'] = ()
                s['type'] = tuple
            side[name] = s
        if d != 'absent':
            desc[name] = None if d == 'None' else FALSE[dflt == 'false'] if d == 'false' else NUM[0] if dflt == 'false' else d + name
        if al != 'absent':
            desc[alias] = None if al == 'None' else FALSE[dflt == 'false'] if al == 'false' else NUM[1] if dflt == 'false' else al + name
        if st != 'absent':
            dflts[{'same': name, 'upper': name.upper(), 'alias': alias, 'false': name}[st]] = \
                FALSE[dflt == 'false'] if st == 'false' else NUM[2] if dflt == 'false' else 'setup_' + name
    return model, real, desc, dflts


def compare(attrs, desc, dflts, col, rec, how='find_all'):
    TICK[0] += 1
    exp = ref.resolve(attrs, desc, defaults=dflts)
    keep = dict(desc)
    rec.op()
    rec.outcome(exp[0])
    if how == 'find_all':
        got = col.find_all(desc)
        if (exp[0] == 'ok') != (len(got) == 1):
            raise Violation('{!r} with {!r}, defaults {!r}: expected {!r}, got {!r}'.format(
                attrs, desc, dflts, exp, got))
        if got:
            vals = {k: (None if v is footprints.UNKNOWN else v) for k, v in got[0][1].items()}
            if set(got[0][2]) != exp[2]:
                raise Violation('{!r} with {!r}, defaults {!r}: attributes given from outside should be {!r}, '
                                'got {!r}'.format(attrs, desc, dflts, exp[2], got[0][2]))
    else:
        if how == 'load':
            got = footprints.load(tag='thing', _emptywarning=False, _report=False, **desc)
        else:
            try:
                got = how(**desc)
            except footprints.FootprintFatalError:
                got = None
        if (exp[0] == 'ok') != (got is not None):
            raise Violation('{!r} with {!r}, defaults {!r}: expected {!r}, got {!r}'.format(
                attrs, desc, dflts, exp, got))
        vals = got is not None and world.attrs_of(got, attrs)
    if exp[0] == 'ok':
        want = ref.visible(exp[1])
        if not ref.strict_equal(vals, want):
            raise Violation('{!r} with {!r}, defaults {!r}: expected {!r}, got {!r}'.format(
                attrs, desc, dflts, want, vals))
        rec.state(('ok', sorted(want.items(), key=str), sorted(exp[2])))
    else:
        rec.state(('reject', sorted(exp[1])))
    if keep != desc:
        raise Violation('the description was modified: {!r} -> {!r}'.format(keep, desc))


def run(case, rec):
    TICK[0] = 0
    if case[0] == 'name':
        return run_name(case, rec)
    if case[0] == 'res':
        model, real, desc, dflts = build(case[1], case[2])
        cls = world.make('K', dict(attr=real))
        col = collectors.get(tag='thing')
        footprints.setup.defaults = dict(dflts)
        compare(model, desc, dflts, col, rec)
        compare(model, desc, dflts, col, rec, how='load')
        compare(model, desc, dflts, col, rec, how=cls)
        return
    opt, dflt, d = case[1]
    model, real, desc, _ = build(0, ((opt, dflt, d, 'absent', 'absent'),))
    cls = world.make('K', dict(attr=real))
    col = collectors.get(tag='thing')
    ref_dflts = {}
    for k, op in enumerate(case[2]):
        if op in ('setA', 'setB'):
            footprints.setup.defaults = {'a': op}
            ref_dflts = {'a': op}
        elif op == 'upper':
            footprints.setup.defaults['A'] = 'upper'
            ref_dflts['a'] = 'upper'
        elif op == 'update':
            footprints.setup.defaults.update(a='upd{}'.format(k), zzz='other')
            ref_dflts.update(a='upd{}'.format(k), zzz='other')
        elif op == 'del':
            if 'a' in ref_dflts:
                del footprints.setup.defaults['a']
                del ref_dflts['a']
        else:
            footprints.setup.defaults = {}
            ref_dflts = {}
        compare(model, desc, ref_dflts, col, rec)
        compare(model, desc, ref_dflts, col, rec, how='load')
        compare(model, desc, ref_dflts, col, rec, how=cls)
