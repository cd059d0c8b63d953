"""C05: the candidates are exactly the matching classes, each one on its own merits."""

import itertools

import footprints
from footprints import collectors
from mc import ref, shapes, world
from mc.core import Violation

ID = 'C05'
RULE = ('every sequence (definition order) of up to 3 classes drawn from an alphabet of 19 footprints and 2 abstract '
        'ones, under ascending and descending iteration order, in every reporting and fast mode, with and without fast '
        'keys; every description of an alphabet of 18; find_all, find_any and load compared with the per class model; '
        'classes with the same name, classes without attribute, and classes that leave or come back between the lookups, in every mode')
ASSUMPTIONS = ['descriptions for which a candidate raises (impossible substitution) are left out: such errors are '
               'deliberately fatal to the whole lookup', 'no fasttrack (see C07)']
BOUNDS = dict(quick='sequences of <=2 classes in 32 modes, sequences of 3 distinct classes (sorted) in 1 mode; chains of 3 derived classes; up to 120 classes at once',
              thorough='all sequences of 3 classes in 4 modes')

NAMES = list(shapes.SHAPES) + list(shapes.ABSTRACT)
# (report, fastmode, fastkeys, hash order, report_auto)
MODES = [(r, f, k, o) for r in (1, 0, 2, 3) for f in (False, True) for k in ((), ('a', 'b', 'kind')) for o in (1, -1)]


def run_many(case, rec):
    """Many classes, every second one cannot match."""
    _, n, step, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    classes = [world.make('K{}'.format(i), dict(attr=dict(a=dict(values=['x'] if i % step == 0 else ['y']))), h=(i + 1) * order + 500)
               for i in range(n)]
    col = collectors.get(tag='thing')
    for v, sel in (('x', lambda i: i % step == 0), ('y', lambda i: i % step), ('z', lambda i: False)):
        want = {c for i, c in enumerate(classes) if sel(i)}
        got = [c for c, _, _ in col.find_all(dict(a=v))]
        rec.op()
        rec.outcome(len(want))
        rec.state((n, step, v))
        if len(got) != len(set(got)) or set(got) != want:
            raise Violation('{} classes, one out of {}, with a={!r}: {} candidates instead of {}: missing {!r}'.format(
                n, step, v, len(got), len(want), want - set(got)))


def run_sub(case, rec):
    """A class and the ones derived from it, without any change in the footprint."""
    _, name, flags, changes, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    classes = []
    for i, abstract in enumerate(flags):
        ns = dict(_abstract=abstract)
        fp = shapes.spec(name) if i == 0 else [None, dict(), dict(attr=dict(new=dict(optional=True)))][changes]
        classes.append(world.make('K{}'.format(i), fp, h=(i + 1) * order + 20, bases=(classes[-1] if classes else world.Base,), **ns))
    col = collectors.get(tag='thing')
    for desc in shapes.DESCS:
        exp = ref.match(shapes.spec(name), desc)
        if exp[0] in ('raise', 'either'):
            continue
        want = {c for c, f in zip(classes, flags) if exp[0] == 'ok' and not f}
        got = [c for c, _, _ in col.find_all(desc)]
        rec.op()
        rec.outcome(len(want))
        rec.state((name, flags, changes, len(want)))
        if len(got) != len(set(got)) or set(got) != want:
            raise Violation('{!r} and derived classes (abstract: {!r}, changes {}), mode={!r} with {!r}: candidates should be {!r}, '
                            'got {!r}'.format(name, flags, changes, case[-1], desc, want, got))


TWINS = ['m1.K', 'm1.K', 'm2.K', 'm2.sub.K', 'm1.L', 'mcworld.K']


def run_twins(case, rec):
    """Classes with the same name, or the same full name, or the same footprint: each of them is a class."""
    _, who, same, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    classes = []
    for i, w in enumerate(who):
        mod, _, name = TWINS[w].rpartition('.')
        classes.append(world.make(name, dict(attr=dict(a=dict(values=['x', 'y'] if same or i % 2 else ['x']), b=dict(optional=True))), h=(i + 1) * order + 20,
                                  __module__=mod))
    col = collectors.get(tag='thing')
    for a in 'xyz':
        want = {c for i, c in enumerate(classes) if a == 'x' or a == 'y' and (same or i % 2)}
        got = [c for c, _, _ in col.find_all(dict(a=a))]
        rec.op()
        rec.outcome(len(want))
        rec.state((who, same, a))
        if len(got) != len(want) or set(got) != want:
            raise Violation('classes {!r} ({} footprints) with a={!r}: {} candidates instead of {}: {!r}'.format(
                [TWINS[w] for w in who], 'same' if same else 'various', a, len(got), len(want), got))
        for o in (col.find_any(dict(a=a)), col.load(_emptywarning=False, a=a)):
            if (type(o) in want) != bool(want):
                raise Violation('classes {!r} with a={!r}: got {!r}'.format([TWINS[w] for w in who], a, o))


def run_void(case, rec):
    """Descriptions that give nothing that the class uses."""
    _, kinds, dflts, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    st.defaults = dict(dflts)
    specs = [dict(o=dict(attr=dict(a=dict(optional=True))), d=dict(attr=dict(a=dict(optional=True, default='d'), b=dict(optional=True))),
                  m=dict(attr=dict(a=dict())), e=dict(attr=dict()), v=dict(attr=dict(a=dict(optional=True, values=['x'], default='x'))))[k] for k in kinds]
    classes = [world.make('K{}'.format(i), dict(attr={k: dict(v) for k, v in s['attr'].items()}), h=(i + 1) * order + 20) for i, s in enumerate(specs)]
    col = collectors.get(tag='thing')
    for desc in ({}, dict(a=None), dict(b=None), dict(zz='1'), dict(zz=None)):
        exp = [ref.match(s, desc, defaults=dict(dflts)) if s['attr'] else ('reject',) for s in specs]
        want = {c for c, e in zip(classes, exp) if e[0] == 'ok'}
        got = [c for c, _, _ in col.find_all(desc)]
        rec.op()
        rec.outcome(len(want))
        rec.state((kinds, str(desc), len(want)))
        if len(got) != len(want) or set(got) != want:
            raise Violation('classes {!r}, defaults {!r}, with {!r}: candidates should be {!r}, got {!r}'.format(kinds, dflts, desc, want, got))
        for o in (col.find_any(desc), col.load(_emptywarning=False, **desc)):
            if (type(o) in want) != bool(want):
                raise Violation('classes {!r}, defaults {!r}, with {!r}: got {!r}'.format(kinds, dflts, desc, o))


class Clock:
    """A default that is an other one each time it is computed."""

    def __init__(self, start):
        self.n = start

    def footprint_value(self):
        self.n += 1
        return self.n


def run_moving(case, rec):
    """The values of the object are those that were checked."""
    _, start, n, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    clock = Clock(start)
    for i in range(n):
        world.make('K{}'.format(i), dict(attr=dict(a=dict(), c=dict(type=int, optional=True, default=clock)), only=dict(c=[1, 3, 5, 7, 9, 11, 13])), h=(i + 1) * order + 20)
    col = collectors.get(tag='thing')
    for how in (col.find_any, lambda d: col.load(_emptywarning=False, **d), col.find_best):
        for desc in (dict(a='x'), dict(a='x', zz=1), dict(a='x', c=None)):
            o = how(desc)
            rec.op()
            rec.outcome(o is None)
            if o is not None and o.c not in (1, 3, 5, 7, 9, 11, 13):
                raise Violation('{} classes that accept odd numbers only, from {}: got {!r} with {!r}'.format(n, start, o, o.c))
    rec.state((start, n))


def cases(tier):
    i = 0
    for start in (0, 1):
        for n in (1, 2, 3):
            for m in MODES:
                yield ('moving', start, n, m)
    for n in (1, 2, 3):
        for k in itertools.product('odmev', repeat=n):
            for d in ((), (('a', 'x'),), (('zz', 'x'),)):
                i += 5
                yield ('void', k, d, MODES[i % len(MODES)])
    for n in (2, 3):
        for who in itertools.product(range(len(TWINS)), repeat=n):
            for same in (False, True):
                i += 5
                yield ('twins', who, same, MODES[i % len(MODES)])
    for n in (5, 17, 40, 120):
        for step in (1, 2, 3):
            for m in MODES[::5]:
                yield ('many', n, step, m)
    for name in shapes.SHAPES:
        for flags in itertools.product((False, True), repeat=3):
            for changes in range(3):
                for _ in range(2):
                    i += 5
                    yield ('sub', name, flags, changes, MODES[i % len(MODES)])
    for n in (1, 2):
        for seq in itertools.product(NAMES, repeat=n):
            for m in MODES:
                yield (seq, m)
    if tier == 'quick':
        for i, seq in enumerate(itertools.combinations(NAMES, 3)):
            yield (seq, MODES[i % len(MODES)])
    else:
        for i, seq in enumerate(itertools.product(NAMES, repeat=3)):
            for j in range(4):
                yield (seq, MODES[(5 * i + 9 * j) % len(MODES)])


DFLTS = [{}, {'par': 2, 'C': 'c1'}]


def run(case, rec):
    if case[0] == 'twins':
        return run_twins(case, rec)
    if case[0] == 'moving':
        return run_moving(case, rec)
    if case[0] == 'void':
        return run_void(case, rec)
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'sub':
        return run_sub(case, rec)
    seq, (report, fast, fkeys, order) = case
    st = footprints.setup
    st.report, st.fastmode, st.fastkeys = report, fast, fkeys
    specs, classes = [], []
    for i, name in enumerate(seq):
        specs.append(shapes.spec(name))
        classes.append(world.make('K{}'.format(i), shapes.spec(name), h=(i + 1) * order + 20,
                                  _abstract=name.endswith('!')))
    col = collectors.get(tag='thing')
    for dflts in DFLTS:
        st.defaults = dict(dflts)
        for desc in shapes.DESCS:
            exp = [ref.match(s, desc, defaults=dflts) for s in specs]
            if any(e[0] in ('raise', 'either') for n, e in zip(seq, exp) if not n.endswith('!')):
                continue
            want = {c for n, c, e in zip(seq, classes, exp) if e[0] == 'ok' and not n.endswith('!')}
            keep = dict(desc)
            got = col.find_all(desc)
            rec.op()
            rec.outcome(len(want))
            where = '{!r} mode={!r} with {!r}, defaults {!r}'.format(seq, case[1], desc, dflts)
            if len(got) != len({c for c, _, _ in got}) or {c for c, _, _ in got} != want:
                raise Violation('{}: matching classes should be {!r}, got {!r}'.format(where, want, got))
            for c, values, inputs in got:
                e = exp[classes.index(c)]
                vals = {k: (None if v is footprints.UNKNOWN else v) for k, v in values.items()}
                if not ref.strict_equal(vals, ref.visible(e[1])) or set(inputs) != e[2]:
                    raise Violation('{}: {!r} should be resolved as {!r}, got {!r} {!r}'.format(
                        where, c, e[1:], vals, inputs))
            one = col.find_any(desc)
            obj = col.load(_emptywarning=False, _report=False, **desc)
            rec.op(2)
            for o in (one, obj):
                if (o is None) != (not want) or (o is not None and type(o) not in want):
                    raise Violation('{}: expected an object among {!r}, got {!r}'.format(where, want, o))
                if o is not None:
                    e = exp[classes.index(type(o))]
                    if not ref.strict_equal(world.attrs_of(o, e[1]), ref.visible(e[1])):
                        raise Violation('{}: expected {!r}, got {!r}'.format(where, e[1], world.attrs_of(o, e[1])))
            if keep != desc:
                raise Violation('{}: the description was modified'.format(where))
            rec.state((seq, sorted((c.__name__, repr(exp[classes.index(c)][1])) for c in want)))
