"""C15: the rejection reports are truthful, bounded, and do not alter anything."""

import copy
import itertools

import footprints
from footprints import collectors, reporting
from mc import ref, world
from mc.core import Silence, Violation

ID = 'C15'
RULE = ('for every set of classes of an alphabet, reporting mode (off, on error, light with bounds 0, 1, 2 and 100, full), fast '
        'mode: every history of lookups (find_all, find_any, load, instantiation x descriptions, switch of the mode) up to the '
        'depth; after each lookup the log (length, last entry, classes, attributes and reasons, why-not selection, printed '
        'report in each style) is compared with the model of the resolution')
ASSUMPTIONS = ['classes have distinct full names', 'after a lookup that raises, the content of the last entry is not specified',
               'no nested lookup in the same collector during a lookup']
BOUNDS = dict(quick='12 class sets x 7 modes x fast mode x all histories of length 1, and of length 2 on 12 lookups',
              thorough='18 class sets, length 2 on all the lookups, length 3 on 12')

SPECS = {
    'v': dict(attr=dict(a=dict(values=['x', 'y']))),
    'vo': dict(attr=dict(a=dict(values=['x', 'y', 'w'], outcast=['y', 'w', 'q']))),
    'int': dict(attr=dict(a=dict(type=int, values=[1, 2]), b=dict(optional=True))),
    'out': dict(attr=dict(a=dict(outcast=['x', 'w']), b=dict(values=['1'], optional=True, default='1'))),
    'ab': dict(attr=dict(a=dict(), b=dict(type=int, outcast=[3], alias=['bb']))),
    'only': dict(attr=dict(a=dict()), only=dict(c='c1', after_n=2)),
    'onlyn': dict(attr=dict(a=dict()), only=dict(after_n=4)),
    'onlyb': dict(attr=dict(a=dict(), b=dict(optional=True)), only=dict(before_n=3, n=[1, 2], b='1')),
    'onlya': dict(attr=dict(a=dict(values=['x', 'y', '1']), o=dict(optional=True)), only=dict(a='x', before_o='m')),
    'cls': dict(attr=dict(a=dict(), k=dict(type=Exception, isclass=True, outcast=[KeyError]))),
    'ref': dict(attr=dict(a=dict(), r=dict(optional=True), p=dict(optional=True, default='[a:nope]_[t:upper]'))),
    'sub': dict(attr=dict(a=dict(), s=dict(optional=True, default='[a]_[t]', values=['x_1', 'y_1']))),
}
SETS = [('v',), ('vo', 'v'), ('onlyn', 'onlyb'), ('v', 'int'), ('out', 'ab'), ('only',), ('onlya', 'v'), ('cls', 'int'), ('sub', 'v'), ('ref', 'sub'), ('ab', 'only', 'out'),
        (), ('v', 'int', 'onlya'), ('cls', 'cls', 'v'), ('int', 'out'), ('only', 'onlya'), ('sub', 'cls'), ('ab', 'ab', 'ab'),
        ('v', 'only', 'sub', 'out')]
MODES = [(1, 100), (0, 100), (2, 2), (3, 1), (2, 1), (1, 1), (2, 0)]
DESCS = [dict(a='x'), dict(), dict(a='1', b='3', t='1'), dict(a='y', b='q', t='1'), dict(a='w', bb='2', c='c1'),
         dict(a='x', k=ValueError, t='1', o='a'), dict(a='x', k=KeyError, b=None), dict(a='q', k='nothing', c='c2'),
         dict(a='None', b='None'), dict(a=None), dict(a='[zz]'), dict(a='[b]', b='x', t='2'), dict(a='x', b='1', r='[t:nope]', t='1', s='x_1'),
         dict(a='x', b='', o='', k=0, t='0'), dict(a='w' * 300, b='q' * 3000, bb=list(range(200)), k='k' * 90, c='c' * 90, s='s' * 500)]
APIS = ['all', 'any', 'load0', 'load1', 'load2', 'load3', 'quiet', 'inst']
LOOKUPS = [(api, d) for api in APIS for d in range(len(DESCS))] + [('mode', 0), ('mode', 'back'), ('clear', None)]
FEW = [('all', 1), ('any', 0), ('load0', 7), ('load0', 0), ('load1', 2), ('quiet', 3), ('inst', 1), ('mode', 0), ('mode', 'back'),
       ('clear', None), ('all', 10), ('any', 9)]
DEFAULTS = dict(n=3)


def cases(tier):
    deep = tier != 'quick'
    yield ('null',)
    for s in SPECS:
        for d in range(len(DESCS)):
            yield ('could', s, d)
    sets = SETS if deep else SETS[:13]
    for s in sets:
        for m in MODES:
            for fast in (False, True, 'track'):
                for x in LOOKUPS:
                    yield (s, m, fast, (x,))
    for s in sets:
        for m in MODES:
            for fast in (False, True):
                for h in itertools.product(LOOKUPS if deep else FEW, repeat=2):
                    yield (s, m, fast, h)
                if deep:
                    for h in itertools.product(FEW, repeat=3):
                        yield (s, m, fast, h)


_cache = {}


def expected(name, d):
    """('ok', ...) / ('reject', {attribute: reasons}) with the only clauses detailed / others."""
    if (name, d) not in _cache:
        spec, desc = SPECS[name], DESCS[d]
        e = ref.resolve(spec['attr'], desc, defaults=DEFAULTS)
        if e[0] == 'ok':
            bad = {}
            for k, v in spec.get('only', {}).items():
                if not ref.only_ok({k: v}, e[1], DEFAULTS):
                    attr = k.partition('_')[2] if k.startswith(('after_', 'before_')) else k
                    actual = e[1].get(attr, DEFAULTS.get(attr)) if attr in e[1] else DEFAULTS.get(attr)
                    bad.setdefault(attr, set()).add(reporting.REPORT_ONLY_NOTFOUND if actual is None or actual is ref.UNSET
                                                    else reporting.REPORT_ONLY_NOTMATCH)
            if bad:
                e = ('only', bad)
        elif e[0] == 'reject':
            for k, a in spec['attr'].items():
                if ref.source(k, a, desc, DEFAULTS)[0] == 'None':
                    e[1].setdefault(k, set()).add(ref.INVALID)
            for reasons in e[1].values():
                # A null string is an invalid value, then seen as a missing one
                if ref.INVALID in reasons:
                    reasons.add(ref.MISSING)
        _cache[(name, d)] = e
    return _cache[(name, d)]


def truthful(where, entry, examined, exp, shapes):
    """Compare a collector entry with the model."""
    got = entry.as_dict()
    names = {c.fullname(): n for c, n in examined.items()}
    for full, items in got.items():
        if full not in names:
            raise Violation('{}: the report is about {!r}, out of {!r}'.format(where, full, sorted(names)))
        e = exp[names[full]]
        if e[0] == 'ok' and items:
            raise Violation('{}: {} matches, reported {!r}'.format(where, full, items))
        if e[0] in ('reject', 'only') and not items:
            raise Violation('{}: {} is rejected ({!r}) without any reason'.format(where, full, e))
        for attr, info in items.items():
            if e[0] in ('reject', 'only'):
                why = info.get('why' if e[0] == 'reject' else 'only')
                if why not in e[1].get(attr, ()):
                    raise Violation('{}: {} is rejected for {!r}, reported {}: {!r}'.format(where, full, e[1], attr, info))
    return got


def null(rec):
    """The log used when no report is made never grows beyond its bound."""
    for n, add in ((1, (('a',), {})), (999, ((), dict(a=1))), (1001, (('a', None), {})), (700, (('a',), dict(b=2))), (3000, ((), dict(b=[])))):
        log = reporting.NullReport('x', y=1)
        for i in range(n):
            log.add(*add[0], **add[1])
            rec.op()
        if len(log) > 1000 or len(log) != len(log.items()) or not len(log):
            raise Violation('{} entries kept after {} adds'.format(len(log), n))
        log.clear()
        if len(log) or log.items():
            raise Violation('the null report is not empty after a clear')
    st = footprints.setup
    st.report = 0
    world.make('N', dict(attr={k: dict(values=['x']) for k in 'abcdefgh'}))
    col = collectors.get(tag='thing', report=0)
    for i in range(300):
        if col.find_all(dict(a='y', b='z')):
            raise Violation('unexpected candidates')
        if len(st.nullreport) > 1000 or len(col.report_log):
            raise Violation('{} entries kept after {} lookups without reporting'.format((len(st.nullreport), len(col.report_log)), i + 1))
    st.nullreport.clear()
    rec.state('null')


def run_could(case, rec):
    """A class tried alone, with a given log or not."""
    _, name, d = case
    footprints.setup.defaults = dict(DEFAULTS)
    cls = world.make('K', copy.deepcopy(SPECS[name]))
    exp = expected(name, d)
    for given in (False, True):
        for show in (False, True):
            where = '{!r} tried on {!r}, log given: {}, printed: {}'.format(name, DESCS[d], given, show)
            col = collectors.get(tag='thing')
            log = None
            if given:
                log = reporting.get(tag='could{}'.format(show))
                log.clear()
                log.add(collector=col)
            rec.op()
            try:
                with Silence() as out:
                    res, _ = cls.footprint_couldbe(dict(DESCS[d]), report=log, mkreport=show)
            except footprints.FootprintException as e:
                if exp[0] not in ('raise', 'either'):
                    raise Violation('{}: {!r}'.format(where, e))
                continue
            if exp[0] in ('raise', 'either'):
                continue
            if bool(res) != (exp[0] == 'ok'):
                raise Violation('{}: {!r} instead of {!r}'.format(where, res, exp))
            printed = out.getvalue()
            if exp[0] == 'reject' and show and not (cls.fullname() in printed and any(w in printed for x in exp[1].values() for w in x)):
                raise Violation('{}: printed {!r}'.format(where, printed))
            if printed and (not show or exp[0] == 'ok'):
                raise Violation('{}: printed {!r}'.format(where, printed))
            if given:
                if len(log) != 1 or set(truthful(where, log.last, {cls: 0}, [exp], None)) != {cls.fullname()}:
                    raise Violation('{}: the log holds {!r}'.format(where, log.as_dict()))
    rec.state(case)
    rec.outcome(('could', exp[0]))


def run(case, rec):
    if case == ('null',):
        return null(rec)
    if case[0] == 'could':
        return run_could(case, rec)
    shapes, (mode, maxlen), fast, history = case
    st = footprints.setup
    st.report, st.lreport_len, st.fastmode = mode, maxlen, fast is True
    st.defaults = dict(DEFAULTS)
    classes = [world.make('K{}'.format(i), copy.deepcopy(SPECS[n])) for i, n in enumerate(shapes)]
    names = {c: i for i, c in enumerate(classes)}
    col = collectors.get(tag='thing', report=mode, lreport_len=maxlen)
    if fast == 'track':
        # every class is examined: no class restricts this one
        col.fasttrack = ('zz', 'r')
    bound = None if mode == 3 else maxlen
    total = 0           # entries since the last clear
    current = mode
    for n, (api, d) in enumerate(history):
        where = '{!r} report={} maxlen={} fast={} {!r}'.format(shapes, mode, maxlen, fast, history[:n + 1])
        rec.op()
        last = col.report_last
        if api == 'mode':
            col.report = current = mode if d == 'back' else d
            continue
        if api == 'clear':
            col.report_log.clear()
            total = 0
            if len(col.report_log) or col.report_last is not None:
                raise Violation('{}: the log is not empty'.format(where))
            continue
        desc = dict(DESCS[d])
        exp = [expected(s, d) for s in shapes]
        raising = any(e[0] in ('raise', 'either') for e in exp)
        matching = [i for i, e in enumerate(exp) if e[0] == 'ok']
        res, out = None, None
        try:
            with Silence() as out:
                if api == 'all':
                    res = [names[c] for c, _, _ in col.find_all(desc)]
                elif api == 'any':
                    res = col.find_any(desc)
                elif api == 'inst':
                    if not classes:
                        continue
                    res = classes[0](**desc)
                elif api == 'quiet':
                    res = col.load(_report=False, **desc)
                else:
                    res = col.load(_report_style=int(api[-1]), **desc)
        except footprints.FootprintException as e:
            if api == 'inst' and expected(shapes[0], d)[0] != 'ok' and not (
                    expected(shapes[0], d)[0] == 'only'):
                pass
            elif not raising:
                raise Violation('{}: {!r}'.format(where, e))
            res = e
        rec.outcome((mode, api, len(matching), raising))
        if not raising and api != 'inst':
            if api == 'all':
                ok = sorted(res) == matching
            elif res is None:
                ok = not matching
            else:
                ok = names[type(res)] in matching
            if not ok:
                raise Violation('{}: expected the classes {!r}, got {!r}'.format(where, matching, res))
        # Is there a new entry ?
        if api == 'inst' or current == 0:
            new = 0
        elif current == 1:
            if raising:
                new = None
                if isinstance(res, Exception):
                    new = 0
            else:
                new = 0 if matching else 1
        else:
            new = 1
        if new is None:
            new = 0 if col.report_last is last else 1
        total += new
        want = total if bound is None else min(total, bound)
        if len(col.report_log) != want:
            raise Violation('{}: {} entries in the log instead of {}'.format(where, len(col.report_log), want))
        if not new and col.report_last is not last:
            raise Violation('{}: unexpected new entry {!r}'.format(where, col.report_last.as_dict()))
        printed = out.getvalue()
        if api in ('all', 'any', 'quiet', 'inst') or matching or current == 0:
            if printed and not raising:
                raise Violation('{}: unexpected printed report {!r}'.format(where, printed))
        if raising or not new or bound == 0:
            rec.state((shapes, mode, api, d, want))
            continue
        entry = col.report_last
        if entry is last:
            raise Violation('{}: no new entry'.format(where))
        got = truthful(where, entry, names, exp, shapes)
        if api != 'any' or not matching:
            if len(got) != len(classes):
                raise Violation('{}: {!r} were examined, the report is about {!r}'.format(where, classes, sorted(got)))
        elif sum(1 for x in got if not got[x]) != 1 or type(res).fullname() not in got:
            raise Violation('{}: {!r} was found, the report is {!r}'.format(where, res, got))
        bad = {k: v for k, v in got.items() if v}
        for pattern in ('', 'k1', 'MCWORLD', 'zzz'):
            w = {k: v for k, v in bad.items() if pattern.lower() in k.lower()}
            if col.report_whynot(pattern) != w:
                raise Violation('{}: why not {!r}: {!r} instead of {!r}'.format(where, pattern, col.report_whynot(pattern), w))
        xml = col.report_log.as_xml().doc.documentElement
        if len(xml.childNodes) != want:
            raise Violation('{}: {} entries in the XML report'.format(where, len(xml.childNodes)))
        if api.startswith('load') and not matching:
            for full, items in got.items():
                reasons = [i.get('why', i.get('only')) for i in items.values()]
                if full not in printed or (reasons and not any(r in printed for r in reasons)):
                    raise Violation('{}: {} {!r} is missing in the printed report {}'.format(where, full, items, printed))
        rec.state((shapes, mode, fast, sorted(got), repr(sorted(bad.items()))))
