"""C09: live objects are tracked exactly, default and grep rely on them."""

import copy
import gc
import itertools
import pickle

import footprints
from footprints import collectors
from mc import ref, world
from mc.core import Violation
from bronx.patterns import observer

ID = 'C09'
RULE = ('every history of operations up to the depth on two collectors (one class in both, one not reusable and its subclass, one subclass, '
        'one not registered): load, instantiate, copy, deep copy, clone, unpickle, default, write, delete an attribute, '
        'drop or keep references, discard a class, add it again, defaults of the setup; after every operation the live objects of each collector are compared with '
        'the model, and every grep of an alphabet is compared at the end; '
        'for classes with their own hook (footprint_riseup, __init__, mixin), every sequence of <= 3 routes of creation: the hook and the observers of the class are told once per object')
ASSUMPTIONS = ['objects compare by identity', 'an object dies as soon as its last reference goes (CPython)']
BOUNDS = dict(quick='depth 3 on 39 operations, depth 4 on 12 operations and on 12 with classes that have the same name; up to 40 live objects', thorough='depth 4 on 39 operations, depth 5 on 14 and on 12 with classes that have the same name')

SPECS = dict(
    A=dict(a=dict(values=['x', 'y']), n=dict(type=int, optional=True, access='rwx')),
    B=dict(a=dict(), m=dict(optional=True, default='dm', access='rwd')),
    N=dict(a=dict(values=['x', 'z'])),
    M=dict(a=dict(values=['x', 'z']), q=dict(alias=['t'])),
    S=dict(a=dict(values=['x', 'y']), n=dict(type=int, optional=True, access='rwx'), s=dict(alias=['t'])),
)
COLS = dict(A=('thing',), B=('thing', 'gadgets'), N=('gadget',), M=('gadget',), S=('thing', 'extra'))
REUSE = dict(A=True, B=True, N=False, M=False, S=True)
TAGS = ('thing', 'gadget', 'extra')

OPS = [
    ('new', 'A', dict(a='x')), ('new', 'A', dict(a='y', n='2')), ('new', 'B', dict(a='x')), ('new', 'N', dict(a='x')),
    ('new', 'S', dict(a='x', t='1')), ('new', 'A', dict(a='w')),
    ('load', 'thing', dict(a='y')), ('load', 'gadget', dict(a='z')), ('load', 'thing', dict(a='x', s='1')),
    ('load', 'gadget', dict()),
    ('copy', 0), ('copy', -1), ('deep', 0), ('deep', -1), ('clone', 0), ('clone', -1), ('pickle', 0), ('pickle', -1),
    ('clone+', 0),
    ('set', 0), ('del', -1), ('drop', 0), ('drop', -1), ('dropall',),
    ('default', 'thing', dict(a='x')), ('default', 'thing', dict(a='x', n=None, t='1')), ('default', 'gadget', dict(a='x')),
    ('default', 'gadgets', dict(a='q')),
    ('new', 'M', dict(a='x', t='1')), ('default', 'gadget', dict(a='x', t='1')), ('discard', 'B'), ('discard', 'A'), ('add', 'A'),
    ('setup', dict(s='1', n=2)), ('setup', dict()), ('default', 'thing', dict(a='x', s=None)), ('default', 'extra', dict(a='y', s=None, t='1')), ('clear', 'thing'), ('clear', 'gadget'),
]
FEW = [0, 2, 4, 10, 13, 17, 19, 20, 21, 22, 24, 31]
MORE = [0, 2, 3, 4, 10, 13, 15, 17, 19, 20, 21, 22, 24, 26]
GREPS = [dict(), dict(a='x'), dict(a='x', n=None), dict(n=None), dict(q=None), dict(n=2), dict(n=7), dict(m='dm'), dict(s='1'), dict(zz=1),
         dict(a='y', n=2), dict(realkind='footprintbase'), dict(a=['x', 'y']), dict(a=('x',)), dict(n='2'), dict(n=[2, 7]), dict(a='X'), dict(n=2.0), dict(m='d')]


def run_many(case, rec):
    """Many live objects, the last ones as well as the first ones."""
    _, n, drop, step = case
    cls = world.make('K', dict(attr=dict(a=dict(), n=dict(type=int, optional=True))), collector=('thing', 'gadget'))
    alone = world.make('L', dict(attr=dict(b=dict())), collector=('gadget',))
    objs = [cls(a=str(i), n=i % 7) for i in range(n)]
    others = [alone(b=str(i)) for i in range(n // 3)]
    kept = {i: o for i, o in enumerate(objs) if i % step != drop}
    o = objs = None
    for tag in ('thing', 'gadget'):
        col = collectors.get(tag=tag)
        got = col.instances()
        want = list(kept.values()) + (others if tag == 'gadget' else [])
        if len(got) != len(want) or {id(x) for x in got} != {id(x) for x in want}:
            raise Violation('{!r}: {} should have {} live objects, it has {}'.format(case, tag, len(want), len(got)))
        for r in range(7):
            got = {id(x) for x in col.grep(n=r)}
            if got != {id(x) for i, x in kept.items() if i % 7 == r}:
                raise Violation('{!r}: grep of n={} in {} gives {} objects'.format(case, r, tag, len(got)))
        for r in (0, 1):
            # values equal to the ones given, of an other type
            for v in (bool(r), float(r), complex(r)):
                got = {id(x) for x in col.grep(n=v)}
                if got != {id(x) for i, x in kept.items() if i % 7 == r}:
                    raise Violation('{!r}: grep of n={!r} in {} gives {} objects'.format(case, v, tag, len(got)))
        if col.grep(n=None) or col.grep(zz=None) or col.grep(b=0):
            raise Violation('{!r}: grep of a missing value in {} finds something'.format(case, tag))
        for i, x in kept.items():
            if [id(y) for y in col.grep(a=str(i))] != [id(x)]:
                raise Violation('{!r}: grep of a={} in {} gives {!r}'.format(case, i, tag, col.grep(a=str(i))))
            for d in (dict(a=str(i)), dict(a=str(i), n=str(i % 7))):
                # n is given or it gets no value at all
                y = col.default(**d)
                rec.op()
                if ('n' in d) != (y is x):
                    raise Violation('{!r}: the default of {} for {!r} is {!r}'.format(case, tag, d, y))
                y = None
    rec.state(case)
    rec.outcome('many')


KINDS = ('plain', 'inherits', 'riseup', 'before', 'loads', 'init', 'single', 'derived', 'mixin', 'real', 'attrs')
ROUTES = ('new', 'dict', 'load', 'any', 'best', 'default', 'copy', 'deepcopy', 'clone', 'full', 'pickle', 'forget', 'drop', 'dropnew')


class Watcher(observer.Observer):
    def __init__(self):
        self.log = []

    def newobsitem(self, item, info):
        if item.a is None:
            raise Violation('the observers are told of an object before it has its attributes')
        self.log.append(('new', id(item)))

    def delobsitem(self, item, info):
        self.log.append(('del', id(item)))


def kind_class(kind, ups):
    ns, bases = {}, (world.Base,)
    if kind in ('riseup', 'before', 'loads'):
        def footprint_riseup(self):
            if kind == 'before':
                footprints.FootprintBase.footprint_riseup(self)
            ups.append(id(self))
            if self.a is None or self.footprint_as_dict()['a'] != self.a:
                raise Violation('{}: the hook is called before the object has its attributes'.format(kind))
            if kind == 'loads':
                self.part = footprints.load(tag='part', p=self.a, _emptywarning=False)
            if kind != 'before':
                footprints.FootprintBase.footprint_riseup(self)
        ns['footprint_riseup'] = footprint_riseup
    elif kind == 'init':
        def __init__(self, *args, **kw):
            world.Base.__init__(self, *args, **kw)
            self.made = [self.a]
        ns['__init__'] = __init__
        ns['made'] = 'nothing'
    elif kind == 'single':
        ns['_reusable'] = False
    elif kind == 'derived':
        bases = (world.make('Parent', dict(attr=dict(a=dict())), collector=('parents',)),)
    elif kind == 'inherits':
        bases = (world.make('Parent', dict(attr=dict(a=dict())), collector=('thing', 'gadget'), _abstract=True),)
    elif kind == 'mixin':
        class Mixin:
            def __init__(self, *args, **kw):
                super().__init__(*args, **kw)
                self.mixed = True
        bases = (Mixin, world.Base)
    elif kind == 'real':
        ns['realkind'] = property(lambda self: 'thing')
    fp = dict(attr=dict(a=dict(), n=dict(type=int, optional=True, access='rwx')))
    if kind == 'attrs':
        fp['attr'].update({'x{}'.format(i): dict(optional=True, default=str(i)) for i in range(12)})
    if bases[0].__name__ == 'Mixin':
        d = dict(__module__=world.MODULE, __qualname__='K', _footprint=fp, _collector=('thing', 'gadget'), _mc_hash=5)
        return type(world.Base)('K', bases, d)
    return world.make('K', fp, collector=None if kind == 'inherits' else ('thing', 'gadget'), bases=bases, **ns)


def run_kind(case, rec):
    """Classes with hooks of their own, and every way to get an object."""
    _, kind, routes = case
    ups = []
    if kind == 'loads':
        world.make('Part', dict(attr=dict(p=dict())), collector=('part',))
    cls = kind_class(kind, ups)
    world.make('Other', dict(attr=dict(b=dict())), collector=('thing',))
    mod = __import__('sys').modules[world.MODULE]
    setattr(mod, 'K', cls)
    watcher = Watcher()
    observer.get(tag=cls.fullname()).register(watcher)
    col = collectors.get(tag='thing')
    objs, forgotten = [], []
    count = [0]

    def made(o, where):
        if type(o) is not cls or any(o is x for x in objs + forgotten):
            raise Violation('{}: got {!r}'.format(where, o))
        objs.append(o)
        count[0] += 1
        if watcher.log[-1:] != [('new', id(o))]:
            raise Violation('{}: the observers of the class were told {!r}'.format(where, watcher.log))

    for n, r in enumerate(routes):
        where = 'class with {}: {!r}'.format(kind, routes[:n + 1])
        desc = dict(a='v{}'.format(n))
        rec.op()
        rec.outcome(r)
        if r == 'new':
            made(cls(**desc), where)
        elif r == 'dict':
            made(cls(dict(desc), n=n), where)
        elif r == 'load':
            made(col.load(**desc), where)
        elif r == 'any':
            made(col.find_any(desc), where)
        elif r == 'best':
            made(col.find_best(desc), where)
        elif r == 'default':
            made(footprints.default(tag='gadget', **desc), where)
        elif r == 'dropnew':
            cls(**desc)
            count[0] += 1
        elif not objs:
            continue
        elif r == 'copy':
            made(copy.copy(objs[-1]), where)
        elif r == 'deepcopy':
            made(copy.deepcopy(objs[0]), where)
        elif r in ('clone', 'full'):
            made(objs[-1].footprint_clone(full=(r == 'full')), where)
        elif r == 'pickle':
            made(pickle.loads(pickle.dumps(objs[0])), where)
        elif r == 'forget':
            o = objs.pop(0)
            forgotten.append(o)
            observer.get(tag=cls.fullname()).notify_del(o, dict())
            if watcher.log[-1:] != [('del', id(o))]:
                raise Violation('{}: the observers of the class were told {!r}'.format(where, watcher.log))
            o = None
        elif r == 'drop':
            del objs[0]
        if sum(w == 'new' for w, _ in watcher.log) != count[0]:
            raise Violation('{}: {} objects were made, the observers of the class were told of {!r}'.format(where, count[0], watcher.log))
        if kind in ('riseup', 'before', 'loads') and len(ups) != count[0]:
            raise Violation('{}: {} objects were made, the hook was called {} times'.format(where, count[0], len(ups)))
        if kind == 'init' and any(o.made != [o.a] for o in objs):
            raise Violation('{}: members of the objects {!r}'.format(where, [(o.a, o.made) for o in objs]))
        for tag in ('thing', 'gadget'):
            got = collectors.get(tag=tag).instances()
            if sorted(map(id, got)) != sorted(map(id, objs)):
                raise Violation('{}: the live objects of {} should be {!r}, they are {!r}'.format(where, tag, objs, got))
            got = collectors.get(tag=tag).grep(a='v0')
            if sorted(map(id, got)) != sorted(id(x) for x in objs if x.a == 'v0'):
                raise Violation('{}: grep in {} gives {!r}'.format(where, tag, got))
            got = None
    rec.state((kind, len(objs), len(forgotten), routes[-1]))


def cases(tier):
    for kind in KINDS:
        for n in (1, 2, 3):
            for r in itertools.product(ROUTES, repeat=n):
                if n < 3 or tier != 'quick' or (ROUTES.index(r[0]) + ROUTES.index(r[1])) % 2 == 0:
                    yield ('kind', kind, r)
    for n in (3, 12, 40) if tier == 'quick' else (3, 12, 40, 120):
        for step in (1, 2, 5):
            for drop in range(0 if step > 1 else 1, step + 1):
                yield ('many', n, drop, step)
    plus = 0 if tier == 'quick' else 1
    for n in range(1, 4 + plus):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield h
    for h in itertools.product(MORE if plus else FEW, repeat=4 + plus):
        yield h
    for h in itertools.product(range(len(SAME)), repeat=4 + plus):
        yield ('same',) + h


# Classes that all have the same module and name
SAME = [('new', 0), ('new', 1), ('new', 2), ('load', 'thing'), ('load', 'gadget'), ('copy', 0), ('clone', -1), ('drop', 0), ('drop', -1),
        ('default', 'thing'), ('default', 'gadget'), ('define', 1)]
SAMECOLS = [('thing',), ('gadgets',), ('Thing', 'extra')]


def run_same(case, rec):
    classes = [world.make('K', dict(attr=dict(a=dict(), n=dict(type=int, optional=True))), collector=c) for c in SAMECOLS]
    objs = []

    def live(tag):
        return [o for o, c in objs if tag in [t.lower().rstrip('s') for t in SAMECOLS[c]]]

    for i in case:
        op, who = SAME[i]
        where = 'classes with the same name: {!r}'.format([SAME[j] for j in case])
        rec.op()
        if op == 'define':
            # The same class once more, as when its module is read again
            classes[who] = world.make('K', dict(attr=dict(a=dict(), n=dict(type=int, optional=True))), collector=SAMECOLS[who])
        elif op == 'new':
            objs.append((classes[who](a='x'), who))
        elif op in ('load', 'default'):
            known = live(who)
            o = getattr(footprints, op)(tag=who, a='x')
            if op == 'default' and known:
                if not any(o is x for x in known):
                    raise Violation('{}: default gives {!r} instead of one of {!r}'.format(where, o, known))
            else:
                cols = type(o)._collector
                if cols not in SAMECOLS or who not in [t.lower().rstrip('s') for t in cols] or any(o is x for x, _ in objs):
                    raise Violation('{}: {} in {} gives an object of {!r}'.format(where, op, who, cols))
                objs.append((o, SAMECOLS.index(cols)))
            o = known = None
        elif objs:
            if op == 'drop':
                del objs[who]
            else:
                o, c = objs[who]
                objs.append((copy.copy(o) if op == 'copy' else o.footprint_clone(), c))
                o = None
        for tag in TAGS:
            got = collectors.get(tag=tag).instances()
            if sorted(map(id, got)) != sorted(map(id, live(tag))):
                raise Violation('{}: the live objects of {} should be {!r}, they are {!r}'.format(where, tag, live(tag), got))
            got = collectors.get(tag=tag).grep(a='x')
            if sorted(map(id, got)) != sorted(map(id, live(tag))):
                raise Violation('{}: grep in {}: {!r}'.format(where, tag, got))
            got = None
    rec.state([c for _, c in objs])
    rec.outcome(len(objs))


def run(case, rec):
    if case[0] == 'kind':
        return run_kind(case, rec)
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'same':
        return run_same(case[1:], rec)
    classes = {}
    classes['A'] = world.make('A', dict(attr=copy.deepcopy(SPECS['A'])), collector=COLS['A'])
    classes['B'] = world.make('B', dict(attr=copy.deepcopy(SPECS['B'])), collector=COLS['B'])
    classes['N'] = world.make('N', dict(attr=copy.deepcopy(SPECS['N'])), collector=COLS['N'], _reusable=False)
    classes['M'] = world.make('M', dict(attr=dict(q=dict(alias=['t']))), bases=(classes['N'],), collector=COLS['M'])
    classes['S'] = world.make('S', dict(attr=dict(s=dict(alias=['t']))), bases=(classes['A'],), collector=COLS['S'])
    gone = set()        # (tag, class) of the classes taken out of the collectors
    objs = []           # (object, class name, values), all the objects kept alive

    def check(where):
        for tag in TAGS:
            want = {id(o) for o, c, _ in objs if tag in [t.rstrip('s') for t in COLS[c]]}
            got = [id(o) for o in collectors.get(tag=tag).instances()]
            if len(got) != len(set(got)) or set(got) != want:
                raise Violation('{}: the live objects of {} should be {!r}, they are {!r}'.format(
                    where, tag, [o for o, c, _ in objs if id(o) in want], collectors.get(tag=tag).instances()))
        for o, c, v in objs:
            for k, x in v.items():
                if (hasattr(o, k), getattr(o, k, None)) != (x is not ref.UNSET, x if x is not ref.UNSET else None):
                    raise Violation('{}: {!r}.{} should be {!r}'.format(where, o, k, x))

    def add(o, cname, values):
        if type(o) is not classes[cname]:
            raise Violation('{!r}: expected an object of class {}, got {!r}'.format(trace, cname, o))
        if any(o is p for p, _, _ in objs):
            raise Violation('{!r}: an existing object was returned instead of a new one'.format(trace))
        objs.append((o, cname, dict(values)))

    def loaded(tag, desc, o, where):
        exp = [(c, ref.resolve(SPECS[c], desc, defaults=defaults)) for c in COLS
               if (tag.rstrip('s'), c) not in gone and tag.rstrip('s') in [t.rstrip('s') for t in COLS[c]]]
        exp = [(c, e) for c, e in exp if e[0] == 'ok']
        top = max([len(e[2]) for c, e in exp] + [0])
        good = {c: ref.visible(e[1]) for c, e in exp if len(e[2]) == top}
        if o is None:
            if good:
                raise Violation('{}: nothing loaded, expected one of {!r}'.format(where, good))
            return
        cname = type(o).__name__
        if cname not in good:
            raise Violation('{}: expected one of {!r}, got {!r}'.format(where, good, o))
        add(o, cname, good[cname])

    trace = []
    defaults = {}
    for i in case:
        op = OPS[i]
        trace.append(op)
        where = repr(trace)
        rec.op()
        kind = op[0]
        if kind == 'new':
            e = ref.resolve(SPECS[op[1]], op[2], defaults=defaults)
            try:
                o = classes[op[1]](**op[2])
            except footprints.FootprintFatalError:
                o = None
            if (o is not None) != (e[0] == 'ok'):
                raise Violation('{}: unexpected result {!r}'.format(where, o))
            if o is not None:
                add(o, op[1], ref.visible(e[1]))
        elif kind == 'load':
            o = footprints.load(tag=op[1], _emptywarning=False, **op[2])
            loaded(op[1], op[2], o, where)
        elif kind == 'default':
            o = footprints.default(tag=op[1], _emptywarning=False, **op[2])
            good = []
            for p, c, v in objs:
                if op[1].rstrip('s') in [t.rstrip('s') for t in COLS[c]] and REUSE[c]:
                    e = ref.resolve(SPECS[c], dict(op[2]), defaults=defaults)
                    if e[0] == 'ok' and all(k in v and v[k] is not ref.UNSET and v[k] == x
                                            for k, x in ref.visible(e[1]).items()):
                        good.append((p, v))
            if any(o is p for p, v in good):
                pass
            elif good:
                raise Violation('{}: a live compatible object exists in {!r}, got {!r}'.format(where, good, o))
            elif any(o is p for p, _, _ in objs):
                raise Violation('{}: {!r} is not suitable'.format(where, o))
            else:
                loaded(op[1], op[2], o, where)
        elif kind == 'dropall':
            objs.clear()
        elif kind in ('discard', 'add'):
            for t in COLS[op[1]]:
                getattr(collectors.get(tag=t.rstrip('s')), kind)(classes[op[1]])
                (gone.add if kind == 'discard' else gone.discard)((t.rstrip('s'), op[1]))
        elif kind == 'clear':
            # The classes go, the live objects stay
            collectors.get(tag=op[1]).clear()
            gone.update((op[1], c) for c in COLS if op[1] in [t.rstrip('s') for t in COLS[c]])
        elif kind == 'setup':
            defaults.clear()
            defaults.update(op[1])
            footprints.setup.defaults = dict(op[1])
        elif objs:
            o, c, v = objs[op[1]]
            if kind == 'drop':
                del objs[op[1]]
            elif kind == 'set':
                if c in 'AS':
                    o.n = '7'
                    v['n'] = 7
            elif kind == 'del':
                if c == 'B' and v['m'] is not ref.UNSET:
                    del o.m
                    v['m'] = ref.UNSET
            else:
                if kind == 'copy':
                    n = copy.copy(o)
                elif kind == 'deep':
                    n = copy.deepcopy(o)
                elif kind == 'pickle':
                    n = pickle.loads(pickle.dumps(o))
                elif kind == 'clone':
                    n = o.footprint_clone()
                else:
                    n = o.footprint_clone(extra=dict(a='x'))
                w = dict(v)
                if kind == 'clone+':
                    w['a'] = 'x'
                if kind.startswith('clone') and w.get('m') is ref.UNSET:
                    w['m'] = 'dm'
                add(n, c, w)
                n = None
            p = q = v = w = None
        o = None
        p = None
        good = None
        if len(trace) == len(case) or kind in ('drop', 'dropall', 'default'):
            try:
                check(where)
            except Violation:
                gc.collect()
                check(where)
    for kw in GREPS:
        for tag in TAGS:
            want = [o for o, c, v in objs if tag in [t.rstrip('s') for t in COLS[c]] and
                    all(getattr(o, k, 'absent') == x for k, x in kw.items())]
            got = collectors.get(tag=tag).grep(**kw)
            rec.op()
            if sorted(map(id, got)) != sorted(map(id, want)):
                raise Violation('{!r}: grep {!r} in {} should give {!r}, got {!r}'.format(trace, kw, tag, want, got))
        want = [o for o, c, v in objs for _ in COLS[c] if all(getattr(o, k, 'absent') == x for k, x in kw.items())]
        got = footprints.grep(**kw)
        if sorted(set(map(id, got))) != sorted(set(map(id, want))):
            raise Violation('{!r}: grep {!r} should give {!r}, got {!r}'.format(trace, kw, want, got))
    rec.outcome(len(objs))
    rec.state(sorted((c, sorted((k, repr(x)) for k, x in v.items())) for _, c, v in objs))
