"""C16: every view of a report log reflects the current content of the log."""

import contextlib
import io
import itertools
import re

from bronx.fancies import dump
from footprints import collectors, reporting
from mc import world
from mc.core import Violation

ID = 'C16'
RULE = ('for every kind of log (weak or strong references, bound none, 0, 1, 2, 3) and every history of operations (new collector '
        'entry, candidate, attribute with its reason, entry out of context, empty entry, clear, reduction, reading of all the '
        'views) up to the depth; after the history all the views are read twice, in two orders, and compared with a model of '
        'the log; a second log must stay as it was')
ASSUMPTIONS = ['the entries with the same name and the very same time stamp share a single key of the stamped dictionary']
BOUNDS = dict(quick='12 operations (11 in the longest), all histories (up to the names) up to length 4 (printed forms: 3) in 10 configurations, and length 5 in one of them; logs of 99, 100, 101, 120 and 1010 entries',
              thorough='all histories (up to the names) up to length 5 in 10 configurations, and length 6 in 3 of them')

OPS = ['c1', 'c2', 'kA', 'kB', 'a1', 'a2', 'a3', 'nothing', 'clear', 'reduce', 'view', 'back']
CONFIGS = [(True, None), (True, 2), (False, 1), (True, 1), (False, None), (False, 2), (True, 3), (True, 0), (False, 0), (False, 3)]
ATTRS = {
    'a1': ('alpha', dict(why=reporting.REPORT_WHY_MISSING)),
    'a2': ('beta', dict(only=reporting.REPORT_ONLY_NOTMATCH, args=('x', 1))),
    'a3': ('alpha', dict(why=reporting.REPORT_WHY_RECLASS, args=('int', 'x'))),
}
PATTERNS = ['', 'ka', 'MCWORLD.K', 'nowhere', 'kbÉ', 'BÉ$', 'kb', r'\WK', r'^\w+\.\w+A$', '^K', r'D\.[^A]']


def cases(tier):
    deep = 5 if tier == 'quick' else 6
    for n in range(1, deep + 1):
        for cfg in CONFIGS if n < deep else CONFIGS[:1 if tier == 'quick' else 3]:
            for h in itertools.product(OPS, repeat=n):
                if canonical(h) and (n < deep - 1 or n == deep - 1 and cfg == CONFIGS[0] or 'back' not in h) and not backfirst(h):
                    yield cfg + (h,)
    for cfg in CONFIGS:
        for start in (('c1', 'kA', 'kB'), ('c1', 'kA', 'kA'), ('c1', 'kB', 'a2', 'kA', 'a1'), ('c1', 'kA', 'c2', 'kB', 'kA', 'a2')):
            for h in itertools.product(OPS, repeat=2 if tier == 'quick' else 3):
                yield cfg + (start + ('back',) + h,)
    for cfg in ((True, None), (False, 101), (True, 100)):
        for h in LONG:
            for n in (99, 100, 101, 120):
                yield cfg + (h * n,)
    for h in LONG:
        yield (True, None, h * 1010)


LONG = [('c1', 'kA', 'a1'), ('c1',), ('c2', 'kB', 'a2', 'kA', 'a1', 'kA', 'a3')]


def backfirst(h):
    """Nothing to come back to."""
    return 'back' in h and not {'kA', 'kB'} & set(h[:h.index('back')])


def canonical(h):
    """Up to the exchange of the collectors, or of the classes."""
    for one, two in (('c1', 'c2'), ('kA', 'kB')):
        if two in h and (one not in h or h.index(two) < h.index(one)):
            return False
    return True


class Model:
    """The log is a list of (collector, list of (class, list of (attribute, info)))."""

    def __init__(self, maxlen):
        self.maxlen = maxlen
        self.log = []
        self.entry = None
        self.cls = None

    def collector(self, name):
        self.entry = (name, [])
        self.cls = None
        self.log.append(self.entry)
        if self.maxlen is not None:
            self.log = self.log[max(0, len(self.log) - self.maxlen):]

    def clear(self):
        self.log = []
        self.entry = self.cls = None

    def reduce(self):
        self.log = self.log[-1:]

    @staticmethod
    def asdict(entry):
        return {c: {a: info for a, info in items} for c, items in entry[1]}


def attributes_of(node):
    return dict(node.attributes.items())


def printed(fun, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fun(**kw)
    return out.getvalue()


def check_views(where, log, m, names, show=False):
    n = len(m.log)
    if len(log) != n or len(list(log)) != n or len(log.items()) != n:
        raise Violation('{}: {} entries instead of {}'.format(where, len(log), n))
    last = log.last
    if (last is None) is not (n == 0):
        raise Violation('{}: the last entry is {!r}'.format(where, last))
    entries = list(log)
    if n and entries[-1] is not last:
        raise Violation('{}: the last entry is not the last one'.format(where))

    def why():
        for p in PATTERNS:
            got = log.whynot(p)
            if not n:
                want = None
            else:
                want = {c: i for c, i in m.asdict(m.log[-1]).items() if i and re.search(p, c, re.I)}
            if got != want:
                raise Violation('{}: why not {!r}: {!r} instead of {!r}'.format(where, p, got, want))

    def dico():
        want = {'{}_{:04d}'.format(e[0], i + 1): m.asdict(e) for i, e in enumerate(m.log)}
        got = log.as_dict(stamp=False)
        if got != want or list(got) != list(want):
            raise Violation('{}: dictionary {!r} instead of {!r}'.format(where, got, want))

    def stamped():
        want = {}
        for item, e in zip(entries, m.log):
            want[e[0] + ' ' + item.stamp.isoformat()] = m.asdict(e)
        got = log.as_dict()
        if got != want or list(got) != list(want):
            raise Violation('{}: stamped dictionary {!r} instead of {!r}'.format(where, got, want))

    def xml():
        report = log.as_xml()
        root = report.doc.documentElement
        got = []
        for node in root.childNodes:
            got.append((node.tagName, node.getAttribute('name'), node.getAttribute('stamp'),
                        sorted([(c.tagName, c.getAttribute('name'), [(a.tagName, attributes_of(a)) for a in c.childNodes])
                               for c in node.childNodes], key=lambda x: x[:2])))
        want = []
        for item, e in zip(entries, m.log):
            want.append(('collector', e[0], item.stamp.isoformat(),
                         sorted([('class', c, [('attribute', dict({k: str(v) for k, v in i.items()}, name=a)) for a, i in items])
                                for c, items in e[1]], key=lambda x: x[:2])))
        if got != want or root.getAttribute('tag') != log.tag:
            raise Violation('{}: XML {!r} instead of {!r}'.format(where, got, want))
        if n:
            got = sorted((d['classname'], d['name'], d['why']) for d in list(report.iter_last()))
            want = sorted((c, a, i.get('why', '')) for c, items in m.log[-1][1] for a, i in items)
            if got != want:
                raise Violation('{}: last XML entry {!r} instead of {!r}'.format(where, got, want))
            lines = report.dump_last().split('\n')
            every = report.dump_all().split('\n')
            if [x.strip() for x in lines if x.strip()] != [x.strip() for x in every if x.strip()][-1 - len(lines) + lines.count(''):-1]:
                raise Violation('{}: last XML entry printed as {!r}'.format(where, lines))
        elif list(report.iter_last()):
            raise Violation('{}: last entry of an empty report'.format(where))

    def direct():
        for item, e in zip(entries, m.log):
            if (item.name, item.as_dict(), [c.name for c in item]) != (e[0], m.asdict(e), sorted(c for c, _ in e[1])):
                raise Violation('{}: entry {!r} instead of {!r}'.format(where, (item.name, item.as_dict()), e))
            if item.node is not names[e[0]]:
                raise Violation('{}: the entry {} is linked to {!r}'.format(where, e[0], item.node))
            for c in item:
                if c.node is not names[c.name]:
                    raise Violation('{}: the entry {} is linked to {!r}'.format(where, c.name, c.node))

    def shown():
        for col in {id(x): x for x in names.values() if isinstance(x, collectors.Collector)}.values():
            keep, col.report_log = col.report_log, log
            try:
                if col.report_last is not last:
                    raise Violation('{}: the last report is {!r}'.format(where, col.report_last))
                got = printed(col.report_dump)
                want = dump.fulldump({'{}_{:04d}'.format(e[0], i + 1): m.asdict(e) for i, e in enumerate(m.log)}) + '\n'
                if got != want:
                    raise Violation('{}: the report is printed as {!r} instead of {!r}'.format(where, got, want))
                got = printed(col.report_dump, stamp=True)
                want = dump.fulldump({e[0] + ' ' + item.stamp.isoformat(): m.asdict(e) for item, e in zip(entries, m.log)}) + '\n'
                if got != want:
                    raise Violation('{}: the stamped report is printed as {!r} instead of {!r}'.format(where, got, want))
                if n:
                    got = printed(col.report_dumplast)
                    want = dump.fulldump(m.asdict(m.log[-1])) + '\n'
                    if got != want:
                        raise Violation('{}: the last report is printed as {!r} instead of {!r}'.format(where, got, want))
                    got = [x.strip() for x in printed(last.lightdump).splitlines() if x.strip()]
                    want = []
                    for c, items in sorted(m.log[-1][1], key=lambda x: x[0]):
                        want.append(c if items else '=> ' + c)
                        want.extend('{} : {!r}'.format(a.ljust(10), i) for a, i in items)
                    if got != want:
                        raise Violation('{}: the last report is printed as {!r} instead of {!r}'.format(where, got, want))
            finally:
                col.report_log = keep
        if printed(log.as_xml()).strip() != log.as_xml().dump_all().strip():
            raise Violation('{}: the XML document is printed as {!r}'.format(where, printed(log.as_xml())))

    views = [why, dico, stamped, xml, direct]
    if show:
        views.append(shown)
    for v in views + views[::-1]:
        v()


def run(case, rec):
    weak, maxlen, history = case
    where = 'weak={} maxlen={} {!r}'.format(*case)
    cols = {c: collectors.get(tag=c) for c in ('c1', 'c2')}
    classes = {k: world.make(n, dict(attr=dict(a=dict()))) for k, n in (('kA', 'KA'), ('kB', 'KBé'))}
    names = dict(cols)
    names.update({c.fullname(): c for c in classes.values()})
    log = reporting.get(tag='one', log_maxlen=maxlen, weak=weak)
    other = reporting.get(tag='other')
    mo = Model(None)
    other.add(collector=cols['c2'])
    other.add(candidate=classes['kB'])
    other.add(attribute='z', why='q')
    mo.collector('c2')
    mo.entry[1].append((classes['kB'].fullname(), [('z', dict(why='q'))]))
    m = Model(maxlen)
    for op in history:
        rec.op()
        refused = False
        try:
            if op in cols:
                m.collector(op)
                log.add(collector=cols[op])
            elif op in classes:
                full = classes[op].fullname()
                refused = m.entry is None
                if not refused:
                    m.cls = (full, [])
                    m.entry[1].append(m.cls)
                log.add(candidate=classes[op])
            elif op in ATTRS:
                name, info = ATTRS[op]
                refused = m.cls is None
                if not refused:
                    m.cls[1].append((name, dict(info)))
                log.add(attribute=name, **info)
            elif op == 'nothing':
                refused = True
                log.add(whatever=1)
            elif op == 'clear':
                m.clear()
                log.clear()
            elif op == 'back':
                # The first class of the last entry is the current one again
                if m.log and m.log[-1][1]:
                    m.entry = m.log[-1]
                    m.cls = min(m.entry[1], key=lambda x: x[0])
                    log.current(list(log.last)[0])
            elif op == 'reduce':
                m.reduce()
                log.reduce_to_last()
            else:
                check_views(where, log, m, names)
        except reporting.FootprintBadLogEntry:
            if not refused:
                raise Violation('{}: {} is refused'.format(where, op))
        else:
            if refused:
                raise Violation('{}: {} is accepted out of context'.format(where, op))
        rec.outcome((op, refused))
    check_views(where, log, m, names, len(history) < 4)
    check_views(where + ' other log', other, mo, names)
    rec.state((weak, maxlen, m.log, m.entry is None, m.cls is None))
