"""C13: changes of priorities and of the content of the collectors take effect at once."""

import itertools

import footprints
from footprints import collectors, priorities
from mc import world
from mc.core import Violation, Silence

ID = 'C13'
RULE = ('every sequence of operations up to the depth (reorder the levels, insert one, freeze, restore, reset the level of a '
        'package globally or in a collector, discard by package, flag, level or class, add again, define a class that inherits its '
        'level, lookup) on 6 classes in 3 collectors; after the sequence the levels, the filters by level, package and '
        'flag, the table of priorities and the selection for several descriptions are compared with the model')
ASSUMPTIONS = ['levels in use are not removed', 'levels given by name exist']
BOUNDS = dict(quick='depth 2 on 36 operations, depth 3 on 22; chains of up to 25 derived classes; discards from collectors of up to 70 classes', thorough='depth 3 on 36 operations, depth 4 on 22')

#          module, level, base, collectors, attributes
CLASSES = {
    'A': ('pk1.m', None, None, ('thing',), dict(k=dict(), p=dict(optional=True))),
    'B': ('pk1.n', 'toolbox', None, ('thing', 'gadget'), dict(k=dict())),
    'C': ('pk2.m', None, 'B', ('thing',), dict(q=dict(optional=True))),
    'D': ('pk2.m', 'none', None, ('gadget', 'thing'), dict(k=dict(values=['x']), p=dict(optional=True), q=dict(optional=True))),
    'E': ('pk10', None, 'A', ('gadget', 'thing'), None),
    'F': ('pk1.f', 'default', None, ('garbages',), dict(k=dict())),
}
KEYS = dict(A={'k', 'p'}, B={'k'}, C={'k', 'q'}, D={'k', 'p', 'q'}, E={'k', 'p'}, F={'k'})
START = 'ABCDF'
FLAGS = dict(A=True, B=False, D='maybe')

OPS = [
    ('l', 'up', 'default'), ('l', 'top', 'none'), ('l', 'bottom', 'debug'), ('l', 'down', 'toolbox'), ('l', 'up', 'new'),
    ('l', 'addafter', 'debug', 'new'), ('l', 'addbefore', 'default', 'new'), ('insert', 'debug', 'before', 'none'),
    ('freeze',), ('restore',), ('reset',),
    ('pack', 'pk1', 'debug'), ('pack', 'pk1.m', 'none'), ('pack', 'pk2', 'new'), ('pack', 'pk10', 'toolbox'), ('pack', 'pk', 'DEFAULT'),
    ('cpack', 'gadget', 'pk', 'debug'), ('cpack', 'thing', 'pk2.m.C', 'none'), ('cpack', 'thing', 'pk1', '@toolbox'),
    ('dpack', 'thing', 'pk1'), ('dpack', 'gadget', 'pk2.m'), ('dflag', 'thing', True), ('dflag', 'thing', False),
    ('dhigh', 'thing', 'toolbox'), ('dlow', 'thing', 'toolbox'), ('dlow', 'gadget', 'default'), ('dhigh', 'gadget', 'debug'),
    ('discard', 'thing', 'A'), ('discard', 'gadget', 'B'), ('add', 'thing', 'A'), ('add', 'gadget', 'A'), ('add', 'thing', 'B'),
    ('clear', 'gadget'), ('define', 'E'), ('load',), ('fast', 'thing'),
]
FEW = [0, 1, 3, 5, 7, 8, 9, 11, 12, 13, 15, 16, 18, 19, 21, 23, 24, 27, 29, 33, 34, 35]
DESCS = [dict(k='x'), dict(k='y', p='1'), dict(k='x', q='1'), dict(k='x', p='1', q='2'), dict(p='1')]


def run_wide(case, rec):
    """Many classes, deep hierarchies, levels and flags inherited from afar."""
    _, n, at, lv, flagged = case
    classes = []
    for i in range(n):
        fp = dict(attr=dict(k=dict())) if i == 0 else dict()
        if i == at:
            fp['priority'] = dict(level=priorities.top.level(lv))
        ns = dict(flag=classmethod(lambda cls: True)) if i == flagged else {}
        ns['_reusable'] = bool(i & 2)
        classes.append(world.make('K{}'.format(i), fp, bases=(classes[-1] if i else world.Base,), __module__='pk{}.m'.format(i % 3), **ns))
    col = collectors.get(tag='thing')
    level = ['DEFAULT' if i < at else lv for i in range(n)]
    order = ['NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG']
    for step in range(3):
        where = '{!r}, step {}'.format(case, step)
        for tag in order:
            for high in (True, False):
                got = (col.filter_higher_level if high else col.filter_lower_level)(tag.lower())
                want = {c for c, x in zip(classes, level) if (order.index(x) >= order.index(tag)) == high}
                rec.op()
                if len(got) != len(want) or set(got) != want:
                    raise Violation('{}: filter on level {}: {!r} instead of {!r}'.format(where, tag, got, want))
        got = col.filter_onflag('flag')
        if set(got) != set(classes[flagged:]) or len(got) != n - flagged:
            raise Violation('{}: filter on flag: {!r} instead of {!r}'.format(where, got, classes[flagged:]))
        for p in range(3):
            got = col.filter_package('pk{}'.format(p))
            if set(got) != set(classes[p::3]) or len(got) != len(classes[p::3]):
                raise Violation('{}: filter on package pk{}: {!r}'.format(where, p, got))
        best = max(order.index(x) for x in level)
        obj = col.find_best(dict(k='1'))
        if order.index(level[classes.index(type(obj))]) != best:
            raise Violation('{}: {!r} is selected, levels {!r}'.format(where, obj, level))
        if step == 0:
            footprints.reset_package_priority('pk1', 'debug')
            level = ['DEBUG' if i % 3 == 1 else x for i, x in enumerate(level)]
        elif step == 1:
            priorities.top.NONE.top()
            order = ['DEFAULT', 'TOOLBOX', 'DEBUG', 'NONE']
    rec.state(case)
    rec.outcome('wide')


def run_large(case, rec):
    """Discards from a collector of many classes."""
    _, n, how, fast = case
    levels = ('none', 'default', 'toolbox', 'debug')
    classes = []
    col = collectors.get(tag='thing')
    col.fasttrack = fast
    for i in range(n):
        fp = dict(attr=dict(k=dict(values=['v{}'.format(i), 'shared'], remap={'u{}'.format(i): 'v{}'.format(i)} if i % 5 == 0 else {}), p=dict(optional=True)),
                  priority=dict(level=priorities.top.level(levels[i % 4])))
        if i % 3 == 0:
            fp['attr']['q'] = dict(type=int, values=[i])
        classes.append(world.make('K{}'.format(i), fp, collector=('thing', 'gadget'), __module__='pk{}.m'.format(i % 2), flag=classmethod(lambda cls, i=i: [True, False][(i // 2) % 2])))
    gone = {'package': [i % 2 == 1 for i in range(n)], 'flag': [(i // 2) % 2 == 0 for i in range(n)], 'other': [(i // 2) % 2 == 1 for i in range(n)],
            'high': [i % 4 >= 2 for i in range(n)], 'low': [i % 4 < 2 for i in range(n)], 'same': [i % 4 >= 1 for i in range(n)]}[how]
    with Silence():
        if how == 'package':
            col.discard_package('pk1')
        elif how in ('flag', 'other'):
            col.discard_onflag('flag', how == 'flag')
        elif how == 'high':
            col.discard_higher_level('toolbox')
        elif how == 'low':
            col.discard_lower_level('toolbox', verbose=False)
        else:
            footprints.reset_package_priority('pk0', 'debug')
            footprints.reset_package_priority('pk1', 'debug')
            col.discard_higher_level('debug')
            gone = [True] * n
    other = collectors.get(tag='gadget')
    for c, kept in ((col, [k for k, g in zip(classes, gone) if not g]), (other, classes)):
        if set(c.items()) != set(kept) or len(c) != len(kept) or len(list(c.items())) != len(kept):
            raise Violation('{}: {} holds {!r}'.format(case, c, c.items()))
    for i, k in enumerate(classes):
        for desc in (dict(k='v{}'.format(i), q=str(i)), dict(k='u{}'.format(i), q=i), dict(k='shared', q=i)):
            rec.op()
            want = None if gone[i] or desc['k'] == 'u{}'.format(i) and i % 5 else k
            with Silence():
                got = [x[0] for x in col.find_all(desc)]
            ok = got == ([want] if want else []) if desc['k'] != 'shared' else set(got) == {x for x, y, g in zip(classes, range(n), gone) if not g and (y % 3 or y == i)} and len(set(got)) == len(got)
            if not ok:
                raise Violation('{}: {!r} gives {!r}'.format(case, desc, got))
    rec.state(case)
    rec.outcome('large')


def cases(tier):
    for n in (6, 35, 70):
        for how in ('package', 'flag', 'other', 'high', 'low', 'same'):
            for fast in ((), ('k',), ('k', 'q')):
                yield ('large', n, how, fast)
    for n in (4, 9, 25):
        for at in range(n):
            for lv in ('NONE', 'TOOLBOX'):
                for flagged in ((0, at) if at else (0,)):
                    yield ('wide', n, at, lv, flagged)
    plus = 0 if tier == 'quick' else 1
    for n in range(1, 3 + plus):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield h
    for h in itertools.product(FEW, repeat=3 + plus):
        yield h


_serial = itertools.count()


def define(name, classes):
    module, level, base, cols, attr = CLASSES[name]
    fp = dict(attr={k: dict(v) for k, v in attr.items()}) if attr is not None else dict()
    if level:
        fp['priority'] = dict(level=priorities.top.level(level))
    ns = dict(_reusable=False) if name in 'BE' else {}
    if name in FLAGS:
        ns['flag'] = classmethod(lambda cls: FLAGS[name] if cls.__name__ == name else FLAGS.get(cls.__name__, FLAGS[name]))
    return world.make(name, fp, collector=cols, bases=(classes[base],) if base else (world.Base,), __module__=module, **ns)


def flagof(name):
    return FLAGS.get(name, FLAGS.get(CLASSES[name][2]))


def run(case, rec):
    if case[0] == 'wide':
        return run_wide(case, rec)
    if case[0] == 'large':
        return run_large(case, rec)
    frozen = 'mc{}'.format(next(_serial))
    top = priorities.top
    order = [x.upper() for x in ('none', 'default', 'toolbox', 'debug')]
    save = None
    classes, level = {}, {}
    content = dict(thing=set(), gadget=set(), garbage=set())

    def mdefine(n):
        classes[n] = define(n, classes)
        base = CLASSES[n][2]
        level[n] = (CLASSES[n][1] or (level[base] if base else 'default')).upper()
        for c in CLASSES[n][3]:
            content[c.rstrip('s')].add(n)
    for n in START:
        mdefine(n)
    cols = {t: collectors.get(tag=t) for t in content}
    done = []

    def full(n):
        return CLASSES[n][0] + '.' + n

    def levels(tag, high):
        r = order.index(tag.upper())
        return {n for n in classes if (order.index(level[n]) >= r) == high}

    def discard(t, how, who, *args):
        who &= content[t]
        verbose = (len(done) + len(case)) % 2 == 1
        with Silence() as out:
            getattr(cols[t], 'discard_' + how)(*args, **({} if verbose else dict(verbose=False)))
        content[t] -= who
        lines = out.getvalue().splitlines()
        if len(lines) != (len(who) if verbose else 0) or any(not any(str(classes[n]) in x for x in lines) for n in who if verbose):
            raise Violation('{}: {!r} printed instead of {!r}'.format(done, lines, who))

    for i in case:
        op = OPS[i]
        done.append(op)
        rec.op()
        kind = op[0]
        names = [x.upper() for x in op[1:] if isinstance(x, str)]
        if 'NEW' in names and 'NEW' not in order and not (kind == 'l' and op[1].startswith('add')):
            continue
        if kind == 'l':
            lv = top.level(op[2])
            getattr(lv, op[1])(*op[3:])
            if op[1].startswith('add'):
                t = op[3].upper()
                if t in order:
                    order.remove(t)
                order.insert(order.index(op[2].upper()) + (op[1] == 'addafter'), t)
            else:
                t = op[2].upper()
                j = order.index(t)
                order.remove(t)
                order.insert(dict(up=j + 1, down=max(0, j - 1), top=99, bottom=0)[op[1]], t)
        elif kind == 'insert':
            top.insert('debug', before='none')
            order.remove('DEBUG')
            order.insert(order.index('NONE'), 'DEBUG')
        elif kind == 'freeze':
            top.freeze(frozen)
            save = list(order)
        elif kind in ('restore', 'reset'):
            new = save if kind == 'restore' else ['NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG']
            if new is None or not set(level.values()) <= set(new):
                continue
            if kind == 'restore':
                top.restore(frozen)
            else:
                top.reset()
            order[:] = new
        elif kind == 'pack':
            footprints.reset_package_priority(op[1], op[2])
            for n in classes:
                if full(n).startswith(op[1]) and any(n in c for c in content.values()):
                    level[n] = op[2].upper()
        elif kind == 'cpack':
            tag = top.level(op[3][1:]) if op[3][0] == '@' else op[3]
            cols[op[1]].reset_package_level(op[2], tag)
            for n in content[op[1]]:
                if full(n).startswith(op[2]):
                    level[n] = op[3].lstrip('@').upper()
        elif kind == 'dpack':
            discard(op[1], 'package', {n for n in classes if full(n).startswith(op[2])}, op[2])
        elif kind == 'dflag':
            discard(op[1], 'onflag', {n for n in classes if flagof(n) is op[2]}, 'flag', op[2])
        elif kind in ('dhigh', 'dlow'):
            discard(op[1], ('higher' if kind == 'dhigh' else 'lower') + '_level', levels(op[2], kind == 'dhigh'), op[2])
        elif kind == 'discard':
            cols[op[1]].discard(classes[op[2]])
            content[op[1]].discard(op[2])
        elif kind == 'add':
            cols[op[1]].add(classes[op[2]])
            content[op[1]].add(op[2])
        elif kind == 'clear':
            cols[op[1]].clear()
            content[op[1]].clear()
        elif kind == 'define':
            if 'E' not in classes:
                mdefine('E')
        elif kind == 'load':
            for t in cols:
                cols[t].load(k='x', _emptywarning=False)
        elif kind == 'fast':
            cols[op[1]].fasttrack = ('k',)
    where = repr(done)
    if list(top()) != order:
        raise Violation('{}: levels {!r} instead of {!r}'.format(where, top(), order))
    for n, c in classes.items():
        if c.footprint_level() != level[n] or c.footprint_pl().rank != order.index(level[n]):
            raise Violation('{}: level of {} is {} instead of {}'.format(where, n, c.footprint_level(), level[n]))

    def check(what, got, want):
        got = [c.__name__ for c in got]
        if len(got) != len(set(got)) or set(got) != want:
            raise Violation('{}: {} should be {!r}, got {!r}'.format(where, what, sorted(want), got))
    for t, col in cols.items():
        cont = content[t]
        check('content of ' + t, col(), cont)
        if len(col) != len(cont):
            raise Violation('{}: length of {}'.format(where, t))
        for tag in order:
            for arg in (tag.lower(), top.level(tag)):
                check('higher ' + tag, col.filter_higher_level(arg), cont & levels(tag, True))
                check('lower ' + tag, col.filter_lower_level(arg), cont & levels(tag, False))
        for p in ('pk', 'pk1', 'pk1.m', 'pk2.m.C', 'k', 'PK', 'Pk1', 'pk2.m.c', ' pk1', 'pk1 ', 'pk1.', 'pk.', 'm'):
            check('package ' + p, col.filter_package(p), {n for n in cont if full(n).startswith(p)})
        for f in (True, False, 'maybe'):
            check('flag {}'.format(f), col.filter_onflag('flag', f), {n for n in cont if flagof(n) is f})
        check('unknown flag', col.filter_onflag('noflag'), set())
        for desc in DESCS:
            exp = {n: (order.index(level[n]), len(KEYS[n] & set(desc))) for n in cont
                   if 'k' in desc and (n != 'D' or desc['k'] == 'x')}
            best = {n for n, w in exp.items() if w == max(exp.values())}
            got = col.find_best(desc)
            rec.op()
            if (type(got).__name__ not in best) if best else got is not None:
                raise Violation('{}: with {!r} in {}, one of {!r} should be selected, got {!r} (order {!r}, levels {!r})'.format(
                    where, desc, t, best, got, order, level))
            rec.outcome(len(best))
    for tag in order:
        with Silence() as out:
            footprints.collected_priorities(tag)
        want = [(level[n].upper(), full(n)) for n in sorted(set().union(*content.values()) & levels(tag, True), key=full)]
        got = [tuple(x.split(' - ')) for x in out.getvalue().splitlines()]
        got = [(x[0].strip(), x[1].strip()) for x in got]
        if got != want:
            raise Violation('{}: table of the priorities from {}: {!r} instead of {!r}'.format(where, tag, got, want))
    rec.state((order, sorted(level.items()), sorted((t, sorted(c)) for t, c in content.items())))
