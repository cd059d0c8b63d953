"""C12: a priority set is an ordered set of distinct levels."""

import copy
import itertools

from footprints import doc, priorities
from mc.core import Violation

ID = 'C12'
RULE = ('every sequence of operations up to the depth on a set of 3 or 4 levels (extend, insert, rerank, remove, freeze, restore, '
        'reset, the operations of the level objects, levels of another set as references, the module functions), including refused ones, compared with an ordered '
        'list after each operation: order, length, membership, ranks, comparisons of every pair of level objects, neighbours')
ASSUMPTIONS = ['names of levels do not differ by their case only, nor collide with attributes of the set']
BOUNDS = dict(quick='depth 2 on 50 operations, 3 on 36 operations, depth 2 on the predefined sets; one operation at every place of sets of up to 21 levels', thorough='depth 4 on 50 operations, 3 on the predefined sets')

OPS = [
    ('extend', 'x'), ('extend', 'B'), ('extend', 'x', 'a', 'x'), ('extend',),
    ('insert', 'x', 'after', 'a'), ('insert', 'x', 'before', 'a'), ('insert', 'X', 'after', 'C'), ('insert', 'a', 'after', 'c'),
    ('insert', 'c', 'before', 'b'), ('insert', 'b', 'before', '@c'), ('insert', 'x', 'after', '@b'), ('insert', 'x', '', ''),
    ('insert', 'a', '', ''), ('insert', None, 'after', 'a'), ('insert', 'x', 'after', 'zz'), ('insert', 'b', 'before', 'zz'),
    ('insert', 'b', 'after', 'b'), ('insert', 'b', 'before', '@b'), ('insert', 'x', 'before', 'x'),
    ('rerank', 'a', 1), ('rerank', 'B', 1), ('rerank', 'b', -1), ('rerank', 'c', -2), ('rerank', 'a', 9), ('rerank', 'c', -9),
    ('rerank', 'b', 0), ('rerank', 'zz', 1), ('rerank', 'x', -1),
    ('remove', 'a'), ('remove', 'X'), ('remove', '@b'), ('remove', 'zz'), ('remove', '%a'), ('insert', 'x', 'after', '%c'), ('insert', 'c', 'before', '%b'),
    ('freeze', 'One'), ('freeze', 'default'), ('restore', 'one'), ('restore', 'two'), ('reset',), ('restore', 'DEFAULT'),
    ('l.up', 'a'), ('l.down', 'c'), ('l.top', 'b'), ('l.bottom', 'b'), ('l.up', 'x'),
    ('l.addafter', 'a', 'x'), ('l.addbefore', 'b', 'x'), ('l.addafter', 'c', 'a'), ('l.delete', 'c'),
]
REDUNDANT = [('extend',), ('insert', 'X', 'after', 'C'), ('insert', None, 'after', 'a'), ('insert', 'x', 'after', 'zz'),
             ('insert', 'b', 'after', 'b'), ('insert', 'x', 'before', 'x'), ('rerank', 'b', 0), ('rerank', 'zz', 1),
             ('remove', 'zz'), ('restore', 'two'), ('restore', 'DEFAULT'), ('freeze', 'default'), ('l.up', 'x'),
             ('rerank', 'c', -9)]
TOPOPS = [('set_before', 'debug', 'p'), ('set_before', 'toolbox', 'p', 'q'), ('set_after', 'none', 'p', 'q'), ('set_after', 'debug', 'q'),
          ('set_after', '@c', 'q', 'p'), ('set_before', 'zz', 'p'), ('set_after', 'c', 'none'), ('set_before', 'a', 'debug', 'p'),
          ('set_after', 'none', 'longer', 'p', 'qq'), ('set_before', 'debug', 'longer', 'p', 'qq', 'a_'), ('reset',), ('l.delete', 'p'), ('l.top', 'none'), ('l.bottom', 'q'), ('rerank', 'p', -1), ('freeze', 'One'),
          ('restore', 'one')]


def run_many(case, rec):
    """Sets with many levels."""
    _, n, op, i, j = case
    names = ['L{:02d}'.format((11 * x + 3) % n) for x in range(n)]
    pset = priorities.PrioritySet(names)
    want = list(names)
    if op == 'rerank':
        pset.rerank(names[i].lower(), j)
        want.remove(names[i])
        want.insert(max(0, i + j), names[i])
    elif op == 'insert':
        if j:
            pset.insert('new', before=names[i])
            want.insert(i, 'NEW')
        else:
            pset.insert('new', after=pset.level(names[i]))
            want.insert(i + 1, 'NEW')
    elif op == 'moved':
        lv = getattr(pset, names[i])
        getattr(lv, j)()
        want.remove(names[i])
        want.insert(dict(top=n, bottom=0, up=i + 1, down=max(0, i - 1))[j], names[i])
    elif op == 'beside':
        getattr(pset.level(names[i]), j)('fresh')
        want.insert(i + (j == 'addafter'), 'FRESH')
    elif op == 'move' and i != j:
        pset.insert(names[i], after=names[j])
        want.remove(names[i])
        want.insert(want.index(names[j]) + 1, names[i])
    elif op == 'module':
        module, predefined = ((priorities, priorities.top), (doc, doc.visibility))[i]
        old, first = list(predefined()), predefined()[1]
        got = getattr(module, 'set_' + j)(first.lower(), *[x.lower() for x in names])
        at = old.index(first) + (j == 'after')
        full = old[:at] + names + old[at:]
        if list(predefined()) != full or list(priorities.top() if i else doc.visibility()) == full or got is not None:
            raise Violation('{!r}: the levels should be {!r}, they are {!r}'.format(case, full, predefined()))
        for r, x in enumerate(full):
            if predefined.level(x).rank != r:
                raise Violation('{!r}: level {} has rank {}'.format(case, x, predefined.level(x).rank))
    elif op == 'remove':
        pset.freeze('full')
        pset.freeze('Zfull')
        pset.freeze('a')
        if list(pset.freezed()) != ['a', 'default', 'full', 'zfull']:
            raise Violation('{!r}: frozen {!r}'.format(case, pset.freezed()))
        pset.remove(names[i])
        want.remove(names[i])
        if hasattr(pset, names[i]):
            raise Violation('{!r}: level {} is still there'.format(case, names[i]))
        if j:
            pset.restore('full')
            want = list(names)
    rec.op()
    if list(pset()) != want or len(pset) != len(want):
        raise Violation('{!r} on {!r}: the levels should be {!r}, they are {!r}'.format(case, names, want, pset()))
    for odd in (names[0] + ' ', ' ' + names[0], names[-1][:-1], names[-1] + '0', 'L', '', ' ', '0', 0, 1, None, names[0].replace('L', 'M')):
        if pset.level(odd) is not None:
            raise Violation('{!r}: {!r} gives the level {!r}'.format(case, odd, pset.level(odd).tag))
    levels = [pset.level(x) for x in want]
    for r, lv in enumerate(levels):
        prv, nxt = lv.prevlevel(), lv.nextlevel()
        if (lv.rank, pset.levelindex(want[r]), pset.levelbyindex(r).tag) != (r, r, want[r]) or \
                (prv and prv.tag) != (want[r - 1] if r else None) or (nxt and nxt.tag) != (want[r + 1] if r + 1 < len(want) else None):
            raise Violation('{!r}: level {} has rank {}'.format(case, want[r], lv.rank))
        for s in (0, r - 1, r, r + 1, len(want) - 1, len(want) // 2):
            if 0 <= s < len(want):
                m = levels[s]
                if (lv < m, lv <= m, lv == m, lv > m, lv >= m) != (r < s, r <= s, r == s, r > s, r >= s):
                    raise Violation('{!r}: comparing {} and {}'.format(case, want[r], want[s]))
    rec.state((n, op, i, j))
    rec.outcome(op)


def cases(tier):
    for n in (1, 2, 3, 12, 40):
        for i in (0, 1):
            for j in ('before', 'after'):
                yield ('many', n, 'module', i, j)
    for n in (1, 2, 5, 13, 21) if tier == 'quick' else (1, 2, 5, 13, 21, 40):
        for i in range(n):
            for j in (-n, -5, -1, 0, 1, 2, 11, n):
                yield ('many', n, 'rerank', i, j)
            for j in (0, 1):
                yield ('many', n, 'insert', i, j)
                yield ('many', n, 'remove', i, j)
            for j in range(n):
                yield ('many', n, 'move', i, j)
            for j in ('top', 'bottom', 'up', 'down'):
                yield ('many', n, 'moved', i, j)
            for j in ('addafter', 'addbefore'):
                yield ('many', n, 'beside', i, j)
    plus = 0 if tier == 'quick' else 1
    for n in range(1, 3 + plus):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield ('set', h)
    # A frozen state stays as it was, whatever comes after it was restored
    back = tuple(OPS.index(x) for x in (('freeze', 'One'), ('restore', 'one')))
    for n in (1, 2):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield ('set', back + h)
            yield ('set', back + h + back[1:])
    few = [i for i, op in enumerate(OPS) if op not in REDUNDANT]
    for h in itertools.product(few if not plus else range(len(OPS)), repeat=3 + plus):
        yield ('set', h)
    for n in range(1, 3 + plus):
        for h in itertools.product(range(len(TOPOPS)), repeat=n):
            yield ('top', h)
            yield ('doc', h)


class Refused(Exception):
    pass


class Model:
    def __init__(self, names):
        self.names = list(names)
        self.frozen = dict(default=list(names))

    def place(self, tag, where, refname):
        if refname not in self.names or refname == tag:
            raise Refused
        if tag in self.names:
            self.names.remove(tag)
        self.names.insert(self.names.index(refname) + (where == 'after'), tag)

    def shift(self, tag, n):
        if tag not in self.names:
            raise Refused
        i = max(0, self.names.index(tag) + n)
        self.names.remove(tag)
        self.names.insert(i, tag)

    def apply(self, op):
        kind = op[0]
        args = [x.lstrip('@%').upper() if isinstance(x, str) else x for x in op[1:]]
        if kind == 'extend':
            for x in args:
                if x in self.names:
                    self.names.remove(x)
                self.names.append(x)
        elif kind == 'insert':
            if args[0] is None:
                return
            if args[1]:
                self.place(args[0], args[1].lower(), args[2])
            else:
                self.apply(('extend', args[0]))
        elif kind == 'rerank':
            self.shift(args[0], args[1])
        elif kind in ('remove', 'l.delete'):
            if args[0] not in self.names:
                raise Refused
            self.names.remove(args[0])
        elif kind == 'freeze':
            if args[0] == 'DEFAULT':
                raise Refused
            self.frozen[args[0].lower()] = list(self.names)
        elif kind in ('restore', 'reset'):
            tag = 'default' if kind == 'reset' else args[0].lower()
            if tag not in self.frozen:
                raise Refused
            self.names = list(self.frozen[tag])
        elif kind in ('l.up', 'l.down', 'l.top', 'l.bottom'):
            self.shift(args[0], {'up': 1, 'down': -1, 'top': 99, 'bottom': -99}[kind[2:]])
        elif kind in ('l.addafter', 'l.addbefore'):
            if args[0] not in self.names:
                raise Refused
            self.place(args[1], kind[5:], args[0])
        elif kind == 'set_before':
            for x in args[1:]:
                self.place(x, 'before', args[0])
        elif kind == 'set_after':
            for x in reversed(args[1:]):
                self.place(x, 'after', args[0])


class NoObject(Exception):
    """No level object at hand for this operation."""


def apply(pset, op, held, module, foreign):
    """Run the operation on the real set; ``held`` are the level objects kept since they were seen."""
    kind = op[0]

    def obj(name):
        lv = held.get(name.upper())
        if lv is None:
            raise NoObject
        return lv
    args = [obj(x[1:]) if isinstance(x, str) and x.startswith('@') else foreign.level(x[1:])
            if isinstance(x, str) and x.startswith('%') else x for x in op[1:]]
    if kind == 'insert':
        kw = {args[1]: args[2]} if args[1] else {}
        return pset.insert(args[0], **kw)
    if kind.startswith('set_'):
        return getattr(module, kind)(*args)
    if kind.startswith('l.'):
        return getattr(obj(op[1]), kind[2:])(*args[1:])
    return getattr(pset, kind)(*args)


_serial = itertools.count()


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    which, history = case
    serial = next(_serial)      # the predefined sets never forget what was frozen
    if which == 'set':
        names = ['A', 'B', 'C']
        pset = priorities.PrioritySet(['a', 'b', 'C'])
        module, ops = None, OPS
    else:
        module = priorities if which == 'top' else doc
        pset = priorities.top if which == 'top' else doc.visibility
        ops = TOPOPS
        names = list(pset())
        tr = dict(zip(('NONE', 'DEBUG', 'TOOLBOX', 'C', 'A'), ('DEFAULT', 'GURU', 'ADVANCED', 'ADVANCED', 'DEFAULT')
                      if which == 'doc' else ('NONE', 'DEBUG', 'TOOLBOX', 'DEFAULT', 'NONE')))

        def translate(x):
            if not isinstance(x, str):
                return x
            at, base = ('@' if x.startswith('@') else ''), x.lstrip('@').upper()
            return at + tr.get(base, base)
    other = priorities.PrioritySet(['a', 'b', 'c'])
    foreign = priorities.PrioritySet(['x', 'c', 'b', 'p', 'a'])
    untouched = tuple(priorities.top()), tuple(doc.visibility())
    model = Model(names)
    old = set(pset.freezed())
    held = {n: pset.level(n) for n in names}
    done = []
    for i in history:
        op = ops[i]
        if which != 'set':
            op = (op[0],) + tuple(translate(x) for x in op[1:])
            if op[0] in ('freeze', 'restore'):
                op = (op[0], '{}_{}'.format(op[1], serial))
        done.append(op)
        where = '{} {!r}'.format(which, done)
        before = list(model.names)
        saved = copy.deepcopy(model.__dict__)
        try:
            model.apply(op)
            refused = False
        except Refused:
            refused = True
            if op[0].startswith('set_') and len(op) == 3 or not op[0].startswith('set_'):
                model.__dict__.update(saved)
        rec.op()
        try:
            res = apply(pset, op, held, module, foreign)
            raised = False
        except NoObject:
            model.__dict__.update(saved)
            continue
        except Exception as e:
            res = e
            raised = True
        if raised != refused:
            raise Violation('{}: on {!r}, the last operation should be {}, got {!r}'.format(
                where, before, 'refused' if refused else 'accepted', res))
        if not raised and op[0] in ('insert', 'rerank', 'l.up', 'l.down', 'l.top', 'l.bottom', 'l.addafter', 'l.addbefore'):
            name = op[2] if op[0].startswith('l.add') else op[1]
            if name is None and res is not None or name is not None and \
                    (res is None or res.tag != name.lstrip('@').upper() or res.rank != model.names.index(res.tag)):
                raise Violation('{}: returned {!r}'.format(where, res))
        want = model.names
        if list(pset()) != want or list(pset) != want or list(pset.levels) != want or len(pset) != len(want):
            raise Violation('{}: from {!r}, the levels should be {!r}, they are {!r}'.format(
                where, before, want, (pset(), list(pset), pset.levels, len(pset))))
        if set(pset.freezed()) != set(model.frozen) | old or sorted(pset.freezed()) != pset.freezed():
            raise Violation('{}: frozen {!r}'.format(where, pset.freezed()))
        for n in ('a', 'B', 'c', 'X', 'zz', 'p'):
            lv = pset.level(n)
            if (n in pset) != (n.upper() in want) or (lv is not None) != (n.upper() in want):
                raise Violation('{}: level {} is {!r}, membership {!r}'.format(where, n, lv, n in pset))
        for n in want:
            held.setdefault(n, pset.level(n))
        if len(done) < len(history):
            continue        # the shorter histories are cases of their own
        for n in want:
            lv = pset.level(n)
            held.setdefault(n, lv)
            if getattr(pset, n).tag != n or lv.tag != n or lv.inset is not pset:
                raise Violation('{}: {} leads to {!r}'.format(where, n, lv.tag))
        for r, n in enumerate(want):
            nxt = want[r + 1] if r + 1 < len(want) else None
            prv = want[r - 1] if r else None
            for lv in {id(x): x for x in (held[n], pset.level(n), copy.copy(held[n]), copy.deepcopy(held[n]))}.values():
                if lv.rank != r or lv() != r or pset.levelindex(n.lower()) != r or pset.levelbyindex(r).tag != n:
                    raise Violation('{}: rank of {} is {}, in {!r}'.format(where, n, lv.rank, want))
                if getattr(lv.nextlevel(), 'tag', None) != nxt or getattr(lv.prevlevel(), 'tag', None) != prv:
                    raise Violation('{}: neighbours of {}'.format(where, n))
                if lv not in pset:
                    raise Violation('{}: {} is not in the set'.format(where, n))
                for s, m in enumerate(want):
                    for mv in (held[m], pset.level(m), m, m.lower()):
                        got = (lv < mv, lv <= mv, lv == mv, lv != mv, lv >= mv, lv > mv)
                        if got != (r < s, r <= s, r == s, r != s, r >= s, r > s):
                            raise Violation('{}: comparing {} and {}: {!r} in {!r}'.format(where, n, m, got, want))
                if lv == 'zz':
                    raise Violation('{}: {} equals an unknown level'.format(where, n))
        for n in ('zz', 'a', 'X', 'none'):
            if n.upper() not in want:
                try:
                    rank = pset.levelindex(n)
                except ValueError:
                    continue
                raise Violation('{}: the unknown level {} has rank {!r}'.format(where, n, rank))
        if pset.levelbyindex(-1) is not None or pset.levelbyindex(len(want)) is not None:
            raise Violation('{}: levels out of range'.format(where))
        if other() != ('A', 'B', 'C') or foreign() != ('X', 'C', 'B', 'P', 'A'):
            raise Violation('{}: an other set was changed: {!r}'.format(where, other()))
        if which != 'top' and tuple(priorities.top()) != untouched[0] or which != 'doc' and tuple(doc.visibility()) != untouched[1]:
            raise Violation('{}: a predefined set was changed'.format(where))
        rec.outcome((op[0], raised))
        rec.state((which, want, sorted(model.frozen.items())))
