"""C06: the best candidate, by priority then by number of given attributes."""

import copy
import itertools
import logging

import footprints
from footprints import collectors, priorities
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C06'
RULE = ('every sequence of up to 3 (quick) or 4 (thorough) classes (priority level x attribute set) under every '
        'iteration order, every description; find_best/load/pickup must give an instance of a class of maximal '
        '(rank, number of given attributes); a warning is issued exactly when priority alone does not decide')
ASSUMPTIONS = ['the choice among candidates of equal weight is free']
BOUNDS = dict(quick='<=3 classes among 15, all iteration orders; up to 30 classes, attributes or levels, the best at each place; 2 or 3 classes derived from each other; 64 names of the attribute that decides', thorough='<=4 classes among 15 (4: 2 iteration orders)')

LEVELS = ('NONE', 'DEFAULT', 'DEBUG')
ATTRS = (('a',), ('a', 'b'), ('a', 'b', 'c'), ('a', 'c'), ('a', 'b', 'c', 'd', 'e'))
ALIAS = dict(b=['bb', 'bbb'], c=['cc'])
DFLT = dict(c='3', d='d')
KINDS = [(lv, at) for lv in range(3) for at in range(5)]
DESCS = [{'a': '1'}, {'a': '1', 'b': '2'}, {'a': '1', 'b': '2', 'c': '3'}, {'a': '1', 'c': '3', 'zz': 0}, {'b': '2'},
         {'a': '1', 'bb': '2'}, {'a': '1', 'bbb': '2', 'cc': ''}, {'a': '', 'b': '2', 'c': '3', 'd': '4', 'e': '5'}, {'a': '1', 'b': None, 'bb': '2', 'cc': None, 'e': '0'}]


def run_many(case, rec):
    _, n, pos, how = case
    if how == 'ladder':
        # As many levels of priority as classes, the lower ones with more attributes
        for i in range(n):
            priorities.top.insert('step{}'.format(i), after='debug')
        ladder = list(priorities.top())
        rank = {}
        for i in range(n):
            lv = priorities.top.level(ladder[(7 * i + pos) % n])
            c = world.make('K{}'.format(i), dict(attr=dict(a=dict(), **{'bc'[j]: dict(optional=True) for j in range(lv.rank < n - 1 and 1 + i % 2)}), priority=dict(level=lv)), h=(i * 5 + pos) % n + 1)
            rank[c] = lv.rank
        best = max(rank, key=rank.get)
        desc = dict(a='1', b='2', c='3')
    elif how == 'attr':
        # Two classes that only differ by one attribute, among many
        names = ['o{}'.format(i) for i in range(n)]
        attr = {x: dict(optional=True) for x in names}
        best = world.make('Best', dict(attr=dict(a=dict(), **copy.deepcopy(attr))), h=3 - 2 * (pos % 2))
        world.make('Less', dict(attr=dict(a=dict(), **{k: v for k, v in copy.deepcopy(attr).items() if k != names[pos]})), h=2)
        desc = dict(a='1', **{x: '1' for x in names})
    else:
        for i in range(n):
            lv = priorities.top.DEFAULT
            if i == pos:
                fp = dict(attr=dict(a=dict(), **(dict(b=dict(optional=True)) if how == 'inputs' else {})),
                          priority=dict(level=priorities.top.DEBUG if how == 'level' else lv))
                best = world.make('Best', fp, h=i + 1)
            else:
                world.make('K{}'.format(i), dict(attr=dict(a=dict(), c=dict(optional=True)), priority=dict(level=lv)), h=i + 1)
        desc = dict(a='1', b='2')
    col = collectors.get(tag='thing')
    for o in (col.find_best(dict(desc)), col.load(_emptywarning=False, **desc), col.pickup(dict(desc))['thing']):
        rec.op()
        if type(o) is not best:
            raise Violation('{} classes or attributes, the best ({}) is number {}: got {!r}'.format(n, how, pos, o))
    rec.state((n, how, pos))
    rec.outcome(how)


def run_named(case, rec):
    """Whatever the name of the attribute that makes the difference."""
    _, name, pos, how = case
    if name == 'a':
        return
    alias = how == 'alias'
    if alias and name == 'long_name':
        return
    more = {('long_name' if alias else name): dict(optional=True, alias=[name] if alias else [])}
    if how == 'both':
        more['other'] = dict(optional=True)
    classes = []
    for i in range(3):
        attr = dict(a=dict())
        if i == pos:
            attr.update(copy.deepcopy(more))
        elif how == 'both':
            attr['other'] = dict(optional=True)
        classes.append(world.make('K{}'.format(i), dict(attr=attr), h=i + 1))
    desc = {'a': '1', name: '1'}
    if how == 'both':
        desc['other'] = '2'
    col = collectors.get(tag='thing')
    for o in (col.find_best(dict(desc)), col.load(_emptywarning=False, **desc), col.pickup(dict(desc))['thing']):
        rec.op()
        if type(o) is not classes[pos]:
            raise Violation('{!r}: the class that takes {!r} is K{}, got {!r}'.format(case, name, pos, o))
    rec.state(case)
    rec.outcome('named')


def run_family(case, rec):
    """Each class is derived from the previous one, or from the first one."""
    _, ks, star, perm = case
    specs, classes, levels = [], [], []
    for i, k in enumerate(ks):
        lv, at = KINDS[k]
        mine = {x: dict(optional=(x != 'a'), alias=ALIAS.get(x, []), default=DFLT.get(x)) for x in ATTRS[at]}
        spec = dict(attr=dict(specs[0 if star else -1]['attr'], **mine) if specs else mine)
        real = dict(attr={x: dict(optional=(x != 'a'), alias=list(ALIAS.get(x, [])), default=DFLT.get(x)) for x in ATTRS[at]},
                    priority=dict(level=getattr(priorities.top, LEVELS[lv])))
        bases = (classes[0 if star else -1],) if classes else (world.Base,)
        specs.append(spec)
        levels.append(lv)
        classes.append(world.make('K{}'.format(i), real, bases=bases, h=perm[i] + 1))
    judge(case, classes, specs, levels, rec)


def cases(tier):
    for name in zoo.NAMES + ['footprint_a', 'long_name']:
        for pos in range(3):
            for how in ('plain', 'alias', 'both'):
                yield ('named', name, pos, how)
    for n in (2, 3):
        for ks in itertools.product(range(len(KINDS)), repeat=n):
            if n == 3 and tier == 'quick' and sum(ks) % 7:
                continue
            for star in range(n - 1):
                for p in itertools.permutations(range(n)) if n == 2 else ((0, 1, 2), (2, 0, 1)):
                    yield ('family', ks, star, p)
    for n in (2, 5, 13, 30) if tier == 'quick' else (2, 5, 13, 30, 70):
        for pos in range(n):
            for how in ('inputs', 'level', 'attr') + (('ladder',) if n % 7 else ()):
                yield ('many', n, pos, how)
    for n in (1, 2, 3):
        for ks in itertools.combinations_with_replacement(range(len(KINDS)), n):
            for p in itertools.permutations(range(n)):
                yield (ks, p)
    if tier != 'quick':
        for ks in itertools.combinations_with_replacement(range(len(KINDS)), 4):
            for p in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
                yield (ks, p)


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'named':
        return run_named(case, rec)
    if case[0] == 'family':
        return run_family(case, rec)
    ks, perm = case
    specs, classes = [], []
    for i, k in enumerate(ks):
        lv, at = KINDS[k]
        spec = dict(attr={x: dict(optional=(x != 'a'), alias=ALIAS.get(x, []), default=DFLT.get(x)) for x in ATTRS[at]})
        specs.append(spec)
        real = dict(attr={x: dict(optional=(x != 'a'), alias=list(ALIAS.get(x, [])), default=DFLT.get(x)) for x in ATTRS[at]},
                    priority=dict(level=getattr(priorities.top, LEVELS[lv])))
        if LEVELS[lv] == 'DEFAULT':
            del real['priority']
        classes.append(world.make('K{}'.format(i), real, h=perm[i] + 1))
    judge(case, classes, specs, [KINDS[k][0] for k in ks], rec)


def judge(case, classes, specs, levels, rec):
    col = collectors.get(tag='thing')
    for desc in DESCS:
        for dflts in ({}, {'c': 'dd'}):
            footprints.setup.defaults = dict(dflts)
            weights = {}
            for c, s, lv in zip(classes, specs, levels):
                e = ref.match(s, desc, defaults=dflts)
                if e[0] == 'ok':
                    weights[c] = (lv, len(e[2]))
            best = {c for c in weights if weights[c] == max(weights.values())}
            where = '{!r} {!r} with {!r} defaults {!r}'.format(
                [(LEVELS[lv], sorted(s['attr'])) for lv, s in zip(levels, specs)], case, desc, dflts)
            with world.LogCatcher() as log:
                obj = col.find_best(dict(desc))
            rec.op()
            rec.outcome(len(weights) and '{}/{}'.format(len(best), len(weights)))
            objs = [obj, col.load(_emptywarning=False, _report=False, **desc),
                    footprints.load(tag='things', _emptywarning=False, _report=False, **desc),
                    footprints.proxy.thing(_emptywarning=False, _report=False, **desc),
                    footprints.pickup(dict(desc, tag='thing', _emptywarning=False, _report=False))['thing']]
            rec.op(4)
            for o in objs:
                if (o is None) != (not best) or (o is not None and type(o) not in best):
                    raise Violation('{}: weights {!r}, the best should be among {!r}, got {!r}'.format(
                        where, weights, best, o))
            warn = any(lv >= logging.WARNING for lv, _ in log.records)
            ranks = sorted((w[0] for w in weights.values()), reverse=True)
            ambiguous = len(ranks) > 1 and ranks[0] == ranks[1]
            if warn != ambiguous:
                raise Violation('{}: weights {!r}: a warning should{} be issued: {!r}'.format(
                    where, weights, '' if ambiguous else ' not', log.records))
            rec.state(sorted((c.__name__, w) for c, w in weights.items()))
