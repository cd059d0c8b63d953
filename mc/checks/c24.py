"""C24: flat and factorized forms of a report."""

import copy
import contextlib
import io
import itertools
import re

import footprints
from footprints import collectors, config, reporting
from footprints.reporting import FactorizedReport, FlatReport
from mc import world
from mc.core import Violation

ID = 'C24'
RULE = ('for every sequence of entries (class, attribute, reason or clause, argument, some of them missing) x every list of sort '
        'keys x skip or not, reshuffled and printed again after each addition: the printed flat report is parsed and compared with a model; the same for the '
        'factorized one, for every ordering (keys, interesting values) and every printing depth and grouping: leaves, branches, '
        'order and messages. Real lookups: flat, sorted and printed reports hold all the entries of the report')
ASSUMPTIONS = ['an entry replaces a previous one of the same class on the very same branch',
               'without skip, an entry that lacks some of the sort keys is left out of the flat report',
               'the branch of a refused entry may remain, empty, in the factorized report']
BOUNDS = dict(quick='flat: 2 entries among 60 x 65 sort lists x skip, 3 entries among 10; factorized: 3 entries among 17 x 7 orderings, 12 printings; 3 to 5 entries on a branch in any order; 33 entries on one or many branches; 324 lookups',
              thorough='flat: 3 entries among 60; factorized: 4 entries among 17; 324 lookups')

FOCUS = ('B', 'A')
WHY = [dict(), dict(why=reporting.REPORT_WHY_OUTSIDE), dict(why='Missing value: again'), dict(only=reporting.REPORT_ONLY_NOTMATCH)]
ENTRIES = [dict(focus=f, **dict(w, **a)) for f in FOCUS for w in WHY[1:]
           for a in (dict(attribute='x'), dict(attribute='x', args=3), dict(attribute='y'), dict(args=('t', 1)), dict(), dict(attribute='x y'), dict(args=0), dict(attribute='y', args=False),
                     dict(attribute='x', args=None), dict(attribute='x', args=' p '))]
FEWER = [ENTRIES[i] for i in (0, 1, 2, 3, 6, 8, 11, 20, 30, 41)]
KEYS = ('why', 'only', 'attribute', 'args')
SORTS = [list(p) for n in range(5) for p in itertools.permutations(KEYS, n)]

# For the factorized report
LOGS = [dict({'class': c}, name=n, **w) for c in FOCUS for n in ('x', 'kind') for w in
        (dict(why=reporting.REPORT_WHY_OUTSIDE, args=' b'), dict(why=reporting.REPORT_WHY_MISSING), dict(only=reporting.REPORT_ONLY_NOTMATCH, args=3))]
LOGS += [dict({'class': 'A'}, name='xx', why='Missing value: again'), dict({'class': 'A'}, name='z'), dict({'class': 'A'}, name='x', why=reporting.REPORT_WHY_OUTSIDE, args='long ' * 80), dict({'class': 'A'}, name='', why=reporting.REPORT_WHY_OUTCAST, args=0), dict({'class': 'B'}, why=reporting.REPORT_WHY_OUTCAST)]
ORDERINGS = [
    None,
    (),
    ((('name',), ('x', 'kind')),),
    ((('why', 'only'), ('Do not', 'Not', 'Missing')), (('name',), ('x',))),
    ((('why', 'only'), ('Missing', 'Not in values', 'Do')),),
    ((('name',), ()), (('only', 'why'), ('Missing value', 'Missing', 'Outcast'))),
    ((('class',), ('B',)), (('name',), ('zz', 'x', 'kind')), (('why', 'only'), ())),
]


def cases(tier):
    for s in range(len(SORTS)):
        for e in range(len(ENTRIES)):
            yield ('flat', s, (e,) if tier == 'quick' else (e, None))
            if e < len(FEWER) and tier == 'quick':
                yield ('few', s, e)
    for o in range(len(ORDERINGS)):
        for h in itertools.product(range(len(LOGS)), repeat=2 if tier == 'quick' else 3):
            yield ('tree', o, h)
    for n in range(3, 6 if tier == 'quick' else 7):
        for o in range(len(ORDERINGS)):
            yield ('wide', o, n)
    for n in (20, 33) if tier == 'quick' else (20, 33, 101):
        for o in range(len(ORDERINGS)):
            yield ('broad', o, n)
    for style in range(4):
        for full in (True, False):
            yield ('real', style, full)


def printed(f, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **kw)
    return out.getvalue()


# ------------------------------------------------------------------------- flat

def dumped(where, text):
    """The tree printed by the flat report."""
    lines = [x for x in (y.strip() for y in text.splitlines()) if x]
    start = next((i for i, x in enumerate(lines) if re.fullmatch(r'dict\(.*', x)), None)
    if start is None:
        raise Violation('{}: cannot find the tree in {!r}'.format(where, text))
    root = {}
    stack = [root]
    for x in lines[start + 1:] if lines[start] not in ('dict()', 'dict(),') else []:
        if re.fullmatch(r'\),?', x):
            stack.pop()
            continue
        k, v = x.rstrip(',').rstrip().split(' = ', 1)
        if k in stack[-1]:
            raise Violation('{}: twice {!r} in {!r}'.format(where, k, text))
        if v == 'dict(':
            stack[-1][k] = {}
            stack.append(stack[-1][k])
        else:
            stack[-1][k] = {} if v == 'dict()' else v
    if len(stack) not in (0, 1):
        raise Violation('{}: cannot understand {!r}'.format(where, text))
    return root


def leaves(tree, path=()):
    out = {}
    for k, v in tree.items():
        if isinstance(v, dict):
            out.update(leaves(v, path + (k,)))
        else:
            out[path + (k,)] = v
    return out


def flat_model(entries, sort, skip):
    out = {}
    for e in entries:
        if not skip and any(k not in e for k in sort):
            continue
        path = tuple('{}: {!s}'.format(k, e[k]) for k in sort if k in e)
        rest = {k: str(v) for k, v in e.items() if k != 'focus' and k not in sort}
        out[path + (e['focus'],)] = rest
    return out


def compare_flat(where, report, entries, sort, skip):
    got = leaves(dumped(where, printed(report.fulldump)))
    want = flat_model(entries, sort, skip)
    if set(got) != set(want):
        raise Violation('{}: leaves {!r} instead of {!r}'.format(where, sorted(got), sorted(want)))
    for k, v in want.items():
        text = got[k].strip("'") if got[k] != 'None' else ''
        if sorted(text.split(' / ') if text else []) != sorted('{}: {}'.format(*i) for i in v.items()):
            raise Violation('{}: {!r} holds {!r} instead of {!r}'.format(where, k, got[k], v))
    return len(got)


def run_flat(case, rec):
    _, s, first = case
    alphabet = ENTRIES
    if len(first) == 2:
        for e in itertools.product(alphabet, repeat=2):
            flat_history(s, [ENTRIES[first[0]]] + list(e), rec, short=True)
    else:
        for e in alphabet:
            flat_history(s, [ENTRIES[first[0]], e], rec)


def run_few(case, rec):
    _, s, first = case
    for e in itertools.product(FEWER, repeat=2):
        flat_history(s, [FEWER[first]] + list(e), rec, short=True)


def flat_history(s, entries, rec, short=False):
    sort = SORTS[s]
    for skip in (True, False):
        report = FlatReport(sortlist=sort) if skip else FlatReport()
        done = []
        given = list(sort)
        for n, e in enumerate(entries):
            report.add(**e)
            done.append(e)
            if short and n < len(entries) - 1:
                continue
            where = 'flat {!r} {!r} skip={}'.format(done, sort, skip)
            rec.op()
            if n == 0 and skip:
                report.reshuffle()
            else:
                mine = list(sort) if n % 2 else tuple(sort)
                report.reshuffle(mine, skip=skip)
                if n % 2:
                    # The caller goes on with its list
                    mine.append('focus')
                    mine.reverse()
                    report.reshuffle(skip=skip)
            size = compare_flat(where, report, done, sort, skip)
            if not short and n:
                # Other keys, and back
                other = SORTS[(s + 17) % len(SORTS)]
                report.reshuffle(other, skip=not skip)
                compare_flat(where + ' then {!r}'.format(other), report, done, other, not skip)
                report.reshuffle(skip=skip)
                compare_flat(where + ' then {!r} again'.format(other), report, done, other, skip)
                report.reshuffle(list(reversed(sort)))
                compare_flat(where + ' reversed', report, done, list(reversed(sort)), True)
        if sort != given or entries != [dict(e) for e in done]:
            raise Violation('flat {!r} {!r}: the arguments were changed'.format(entries, sort))
        rec.outcome(size)
    rec.state((s, [sorted(map(str, e.items())) for e in entries]))


# ------------------------------------------------------------------- factorized

DEFAULT = ((('name',), ('kind',)),
           (('why', 'only'), ('Missing value', 'Invalid value', 'Not in values', 'Outcast value', 'Could not reclass',
                              'Not a subclass', 'No value found', 'Do not match')))


def path_of(e, ordering, renaming):
    out = []
    for keys, _ in ordering:
        k = next((k for k in keys if e.get(k) is not None), None)
        if k is None:
            return None
        out.append((renaming.get(k, k), e[k]))
    return tuple(out)


def ordered(paths, ordering, depth=0):
    """Interesting branches first, in the declared order, then the other ones in order of arrival."""
    if depth == len(ordering):
        return list(paths)
    branches = list(dict.fromkeys(p[depth] for p in paths))
    first = []
    for v in ordering[depth][1]:
        first.extend(b for b in branches if b not in first and b[1].startswith(v))
    out = []
    for b in first + [b for b in branches if b not in first]:
        out.extend(ordered([p for p in paths if p[depth] == b], ordering, depth + 1))
    return out


def leaf(where, line, focus):
    m = re.match(r'\s*' + focus + r'\s*:\s*(\S+)\s*\((.*)\)\s*$', line)
    return (m.group(1), m.group(2)) if m else None


def parse_tree(where, text, depth, focus, indent):
    """(path, focus, info) of all the leaves, in order."""
    out, path = [], []
    for line in text.splitlines():
        got = leaf(where, line, focus)
        if got:
            out.append((tuple(path[:depth]),) + got)
            continue
        if not line.strip():
            continue
        k, v = line.lstrip().split(' = ', 1)
        level = (len(line) - len(line.lstrip()) - 1) // len(indent) - 1
        path[level:] = [(k, v)]
    return out


def run_tree(case, rec):
    _, o, h = case
    for last in LOGS:
        for config_ in (0, 1) if o else (0,):
            entries = [LOGS[i] for i in h] + [last]
            kw, renaming, focus, indent = {}, {'name': 'attribute_name'}, 'class', '    '
            ordering = DEFAULT
            if ORDERINGS[o] is not None:
                ordering = kw['ordering'] = ORDERINGS[o]
            if config_:
                renaming = {'why': 'reason', 'only': 'reason'}
                kw.update(renaming=tuple(renaming.items()), indent='  ')
                indent = '  '
            where = 'factorized {!r} {!r}'.format(entries, kw)
            fr = FactorizedReport(**kw)
            paths, content = [], {}
            for e in entries:
                p = path_of(e, ordering, renaming)
                try:
                    fr.add(**e)
                except KeyError:
                    if p is not None:
                        raise Violation('{}: {!r} was refused'.format(where, e))
                else:
                    if p is None:
                        raise Violation('{}: {!r} was accepted'.format(where, e))
                    content.setdefault(p, {})[e['class']] = str(e.get('args', ''))
                # The branches, even left empty, keep their rank of arrival
                if p is not None and p not in paths:
                    paths.append(p)
                elif p is None:
                    paths.append(partial(e, ordering, renaming))
            rec.op()
            compare_tree(where, fr, ordering, paths, content, focus, indent)
            rec.outcome((len(content), len(ordering)))
    rec.state(case)


def run_wide(case, rec):
    """Many classes on the same branch, in any order of arrival, and one elsewhere."""
    _, o, n = case
    ordering = DEFAULT if ORDERINGS[o] is None else ORDERINGS[o]
    kw = {} if ORDERINGS[o] is None else dict(ordering=ordering)
    renaming = {'name': 'attribute_name'}
    for rank, names in enumerate(itertools.permutations('ABCDEF'[:n])):
        log = LOGS[rank % 6]
        entries = [dict({k: v for k, v in log.items() if k != 'class'}, **{'class': c}) for c in names]
        entries.insert(rank % n, LOGS[6 + rank % 6])
        where = 'factorized {!r} {!r}'.format(entries, kw)
        fr = FactorizedReport(**kw)
        flat = FlatReport(sortlist=['why', 'name'])
        paths, content, done = [], {}, []
        for e in entries:
            p = path_of(e, ordering, renaming)
            flat.add(**dict({k: v for k, v in e.items() if k != 'class'}, focus=e['class']))
            done.append(dict({k: v for k, v in e.items() if k != 'class'}, focus=e['class']))
            if p is None:
                continue
            fr.add(**e)
            content.setdefault(p, {})[e['class']] = str(e.get('args', ''))
            if p not in paths:
                paths.append(p)
        rec.op()
        compare_tree(where, fr, ordering, paths, content, 'class', '    ')
        flat.reshuffle()
        compare_flat(where, flat, done, ['why', 'name'], True)
        rec.outcome((n, len(content)))
    rec.state(case)


def run_broad(case, rec):
    """Many classes, attributes and reasons."""
    _, o, n = case
    ordering = DEFAULT if ORDERINGS[o] is None else ORDERINGS[o]
    kw = {} if ORDERINGS[o] is None else dict(ordering=ordering)
    renaming = {'name': 'attribute_name'}
    for rank in range(3):
        entries = []
        for i in range(n):
            c = 'K{:03d}'.format(i * 7 % n)
            if rank == 0:
                entries.append({'class': c, 'name': 'kind', 'why': reporting.REPORT_WHY_MISSING})
            elif rank == 1:
                entries.append({'class': c, 'name': 'at{}'.format(i), 'why': reporting.REPORT_WHY_OUTSIDE, 'args': i})
            else:
                entries.append(dict({'class': 'K{:03d}'.format(i % 5), 'name': 'x' * (i % 11 + 1)}, **{'only' if i % 3 else 'why': 'Not {}'.format(i % 4), 'args': (i,)}))
        entries.append(LOGS[rank])
        where = 'broad {!r} number {}'.format(case, rank)
        fr, flat = FactorizedReport(**kw), FlatReport(sortlist=['name', 'why', 'only'])
        paths, content, done = [], {}, []
        for e in entries:
            p = path_of(e, ordering, renaming)
            done.append(dict({k: v for k, v in e.items() if k != 'class'}, focus=e['class']))
            flat.add(**done[-1])
            if p is not None:
                fr.add(**e)
                content.setdefault(p, {})[e['class']] = str(e.get('args', ''))
                if p not in paths:
                    paths.append(p)
        rec.op()
        compare_tree(where, fr, ordering, paths, content, 'class', '    ')
        flat.reshuffle()
        compare_flat(where, flat, done, ['name', 'why', 'only'], True)
        rec.outcome((n, len(content)))
    rec.state(case)


def partial(e, ordering, renaming):
    """What a refused entry may leave."""
    out = []
    for keys, _ in ordering:
        k = next((k for k in keys if e.get(k) is not None), None)
        if k is None:
            break
        out.append((renaming.get(k, k), e[k]))
    return tuple(out)


def compare_tree(where, fr, ordering, paths, content, focus, indent):
    depth = len(ordering)
    # The arrival of the branches: a refused entry may or may not leave one
    full = [p for p in paths if len(p) == depth and p in content]
    wants = []
    for keep in (True, False):
        seen = paths if keep else full
        # Rank of the branches with the partial ones
        ranks = {}
        for p in seen:
            for d in range(1, len(p) + 1):
                ranks.setdefault(p[:d], len(ranks))
        arrival = sorted(full, key=lambda p: [ranks[p[:d]] for d in range(1, depth + 1)])
        ok = [(p, c, content[p][c]) for p in arrival for c in sorted(content[p])]
        best = [(p, c, content[p][c]) for p in ordered(arrival, ordering) for c in sorted(content[p])]
        wants.append((ok, best))
    got = parse_tree(where, printed(fr.softprint), depth, focus, indent)
    if got not in [w[0] for w in wants]:
        raise Violation('{}: softprint gives {!r} instead of {!r}'.format(where, got, wants[0][0]))
    got = parse_tree(where, printed(fr.orderedprint), depth, focus, indent)
    best = [w[1] for w in wants]
    if got not in best:
        raise Violation('{}: orderedprint gives {!r} instead of {!r}'.format(where, got, best[0]))
    best = got
    for maxdepth, group in itertools.product(range(4), (1, 2, 3)):
        text = printed(fr.dumper, maxdepth, group)
        compare_dump('{} dumper({}, {})'.format(where, maxdepth, group), text, best, ordering, focus)


def compare_dump(where, text, best, ordering, focus):
    got, pending, messages = [], [], []
    for line in text.splitlines():
        x = leaf(where, line, focus)
        if x:
            got.append(x)
            pending.append(len(got) - 1)
            messages.append(set())
        elif ' = ' in line:
            parts = [tuple(p.lstrip().split(' = ', 1)) for p in line.split(' | ')]
            # A message comes after the leaves it applies to: those printed before which belong to these branches
            for i in range(len(got)):
                if i < len(best) and all(p in best[i][0] for p in parts):
                    messages[i].update(parts)
    if got != [(c, v) for _, c, v in best]:
        raise Violation('{}: {!r} instead of {!r}'.format(where, got, best))
    for i, (p, c, v) in enumerate(best):
        if messages[i] != set(p):
            raise Violation('{}: leaf {!r} comes with {!r}'.format(where, best[i], messages[i]))


# ------------------------------------------------------------------------- real

SORTED = (None, ((('why', 'only'), ()), (('name',), ())), ((('only', 'why'), ('Not in values', 'Outcast')), (('kind', 'name'), ('kind', 'b'))))


def run_real(case, rec):
    _, style, full = case
    descs = [dict(zip(('a', 'b', 'kind'), v)) for v in itertools.product((None, '1', 'x'), repeat=3)]
    for desc in descs:
        desc = {k: v for k, v in desc.items() if v is not None}
        for tag in (None, '3'):
            if tag:
                desc = dict(desc, c=tag)
            world.reset()
            footprints.setup.report = config.FULL_REPORTING if full else config.LIGHT_REPORTING
            footprints.setup.report_style = style
            world.make('K1', dict(attr=dict(a=dict(type=int), kind=dict(values=['1']))))
            world.make('K2', dict(attr=dict(b=dict(outcast=['1']), kind=dict(optional=True)), only=dict(q='v')))
            world.make('K3', dict(attr=dict(b=dict(type=int, values=[2]), c=dict(values=['w']))))
            col = collectors.get(tag='thing')
            with world.LogCatcher():
                asked = dict(desc)
                text = printed(col.pickup, asked)
            last = col.report_log.last
            entries = [(kid.name, dict(item)) for kid in last for item in kid]
            content = copy.deepcopy(last.as_dict())
            where = 'lookup of {!r} style {}'.format(desc, style)
            rec.op()
            flat = last.as_flat()
            for sort in (['why', 'attribute'], ['only', 'attribute'], ['attribute', 'args'], []):
                for skip in (True, False):
                    flat.reshuffle(sort, skip=skip)
                    model = [dict({k: v for k, v in i.items() if k != 'name'}, attribute=i['name'], focus=n) for n, i in entries]
                    got = leaves(dumped(where, printed(flat.fulldump)))
                    if set(got) != set(flat_model(model, sort, skip)):
                        raise Violation('{}: flat report {!r} by {!r} of {!r}'.format(where, got, sort, entries))
            fr = col.report_sorted()
            got = parse_tree(where, printed(fr.orderedprint), 2, 'class', '    ')
            want = {((('attribute_name', i['name']),) + (('why', i['why']) if 'why' in i else ('only', i['only']),), n, str(i.get('args', '')))
                    for n, i in entries}
            if set(got) != want or len(got) != len(want):
                raise Violation('{}: sorted report {!r} instead of {!r}'.format(where, got, want))
            for ordering in SORTED:
                for renaming in ((), (('name', 'the name'),), (('why', 'reason'), ('only', 'reason'))):
                    kw = dict(renaming=renaming, indent='  ')
                    if ordering:
                        kw['ordering'] = ordering
                    want_ = {}
                    for n, i in entries:
                        p = path_of(dict(i, **{'class': n}), ordering or DEFAULT, dict(renaming))
                        if p is not None:
                            want_.setdefault((p, n), set()).add(str(i.get('args', '')))
                    got = parse_tree(where, printed(col.report_sorted(**kw).softprint), 2, 'class', '  ')
                    if {(p, n) for p, n, v in got} != set(want_) or len(got) != len(want_) or any(v not in want_[p, n] for p, n, v in got):
                        raise Violation('{}: report sorted by {!r} gives {!r} instead of {!r}'.format(where, kw, got, want_))
            for sort in (['why', 'attribute'], ['attribute'], ['only'], ['args', 'why']):
                start = last.as_flat(sortlist=sort)
                start.reshuffle()
                model = [dict({k: v for k, v in i.items() if k != 'name'}, attribute=i['name'], focus=n) for n, i in entries]
                got = leaves(dumped(where, printed(start.fulldump)))
                if set(got) != set(flat_model(model, sort, True)):
                    raise Violation('{}: flat report {!r} made for {!r} of {!r}'.format(where, got, sort, entries))
            if last.as_dict() != content or [(kid.name, dict(item)) for kid in last for item in kid] != entries:
                raise Violation('{}: the log was changed by its views: {!r} instead of {!r}'.format(where, last.as_dict(), content))
            # Several reasons for the same attribute of the same class
            log = reporting.get(tag='several')
            log.add(collector=col)
            for cls in sorted(col.items(), key=lambda c: c.__name__):
                log.add(candidate=cls)
                for n, i in entries:
                    if n == cls.fullname():
                        for extra in ({}, dict(why='again'), dict(why='again', args=' ' + str(i.get('args'))), dict(why='more', args=None)):
                            log.add(attribute=i['name'], **(extra or {k: v for k, v in i.items() if k != 'name'}))
            model = {}
            for n, i in entries:
                model[n, i['name'], i.get('why', i.get('only'))] = str(i.get('args', ''))
                model[n, i['name'], 'again'] = ' ' + str(i.get('args'))
                model[n, i['name'], 'more'] = 'None'
            got = parse_tree(where, printed(log.last.as_tree().softprint), 2, 'class', '    ')
            if {(n, dict(p)['attribute_name'], p[1][1]): v for p, n, v in got} != model or len(got) != len(model):
                raise Violation('{}: with several reasons {!r} instead of {!r}'.format(where, got, model))
            if asked['thing'] is None and not text.strip():
                raise Violation('{}: nothing found and nothing printed'.format(where))
            if text:
                for n, i in entries:
                    for word in (n, i['name'], i.get('why', i.get('only'))):
                        if word not in text:
                            raise Violation('{}: no {!r} in the printed report {!r}'.format(where, word, text))
                if style in (2, 3) and len([x for x in text.splitlines() if leaf(where, x, 'class')]) != len(want):
                    raise Violation('{}: printed report {!r} of {!r}'.format(where, text, want))
                if style == 1:
                    parts = re.split(r'(?m)^(?:- )+-?\s*$', text)[1:]
                    got = set()
                    for part in parts:
                        got.update(leaves(dumped(where, part)))
                    if len(got) != len(want):
                        raise Violation('{}: printed report {!r} of {!r}'.format(where, text, want))
            rec.outcome((bool(text), len(entries)))
            rec.state((desc, style, full))


def run(case, rec):
    globals()['run_' + case[0]](case, rec)
