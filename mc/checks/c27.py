"""C27: the setups hold what was set, apply it at once, and are independent."""

import contextlib
import io
import itertools
import json
import os
import subprocess
import sys

import footprints
from footprints import collectors, config
from mc import world
from mc.core import REPO, Silence, Violation

ID = 'C27'
RULE = ('every history of operations on the active setup and on derived ones: switches, default values (replaced or changed in '
        'place, in any case), callback, proxies, derivation with or without changes (to a new tag or to an existing one), changes of '
        'the dictionary view, creation of collectors by a request, a lookup or a definition, change of the reporting of a collector; '
        'after each history every setup (attributes, view, print), the reporting of every collector (mode and number of entries kept '
        'after several failures), the proxies and four lookups are compared with a model; up to 30 proxies; 8 kinds of callbacks; the settings and the first class of new processes for 16 environments')
ASSUMPTIONS = ['a derivation to the tag of an existing setup gives this setup, unchanged',
               'the objects held by a setup (callback, keys) are not changed in place']
BOUNDS = dict(quick='35 operations: histories of length 3', thorough='35 operations: histories of length 4')


def one():
    return dict(z='from one', y=1)


def two():
    return dict(z='from two')


class Holder:
    pass


class Told:
    """Stands for a collector."""
    tag = 'told'

    @staticmethod
    def load():
        pass


# What a callback may give
CALLBACKS = [None, {}, dict(z=None), dict(z='cb', y=None), dict(z='', y=0), dict(z=False, y=[], tag='t'), dict(z=(0,), report=3), {1: 'z', 'z': 'Z', 'Y': 2}]


# (operation, setup, ...): setup 0 is the active one, the others are derived when needed
OPS = [
    ('set', 0, 'report', config.FULL_REPORTING), ('set', 0, 'report', config.NO_REPORTING), ('set', 0, 'report', config.LIGHT_REPORTING),
    ('set', 0, 'lreport_len', 2), ('set', 0, 'lreport_len', 0), ('set', 0, 'fastkeys', ()), ('set', 0, 'report_style', 2), ('set', 1, 'report', 3), ('set', 0, 'extended', False),
    ('set', 0, 'extended', None), ('set', 0, 'extended', 'yes'), ('set', 0, 'callback', one), ('set', 1, 'callback', two),
    ('set', 0, 'defaults', {'Z': 'dflt', 'A': 'x', 'Nil': None, 'E': ''}), ('set', 0, 'defaults', {}), ('update', 0, {'z': 'new', 'P': 1}), ('update', 1, {'Z': 'other', 'K': 2}),
    ('derive', 0, 1, dict(report=2, extended=0, defaults={'Q': 1})), ('derive', 0, 2, dict()), ('derive', 0, 1, dict(fastkeys=(), defaults={}, report=0, lreport_len=0, extended=False, callback=None, shortnames=False)), ('derive', 1, 2, dict(callback=one, fastkeys=['v', 'u', 'v'], fastmode=1)),
    ('call', 0), ('call', 1), ('proxy', 0), ('proxy', 1), ('spoil', 0), ('collector', 'get'), ('collector', 'load'), ('collector', 'define'),
    ('collector', 'report'), ('collector', 'default'), ('collector', 'pickup'), ('tell', 1), ('set', 0, 'extended', 0), ('set', 0, 'extended', []), ('set', 0, 'extended', 1),
]
SWITCHES = ('docstrings', 'extended', 'shortnames', 'fatal', 'report', 'lreport_len', 'report_style', 'fastmode', 'fastkeys', 'callback')
_count = [0]


def cases(tier):
    for doc in (None, 0, 1, 2):
        for short in (None, 0, 1, 2):
            yield ('process', doc, short)
    for n in (1, 2, 4, 9, 30):
        for how in CALLBACKS:
            yield ('many', n, how)
    for n in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield h


SCRIPT = '''
import json, sys
sys.path.insert(0, sys.argv[1])
import footprints
from footprints import config, collectors, proxies
st = footprints.setup
out = dict(keys=list(config.keys()), same=config.get() is st and config.get(tag='default') is st, proxy=proxies.get() is footprints.proxy,
           extras=st.extras(), defaults=dict(st.defaults), proxies=len(st.proxies), view=sorted(st.as_dict()), tag=st.tag,
           settings={k: getattr(st, k) for k in json.loads(sys.argv[2])}, fastkeys=isinstance(st.fastkeys, tuple),
           names=[config.NO_REPORTING, config.ONERROR_REPORTING, config.LIGHT_REPORTING, config.FULL_REPORTING,
                  config.RAW_REPORTINGSTYLE, config.FLAT_REPORTINGSTYLE, config.FACTORIZED1_REPORTINGSTYLE, config.FACTORIZED2_REPORTINGSTYLE])
class First(footprints.FootprintBase):
    """Before."""
    _collector = ('first',)
    _footprint = dict(info='Something', attr=dict(footprint_height=dict(info='Height of it', type=int)))
o = footprints.load(tag='first', footprint_height='3')
out['doc'] = First.__doc__
out['object'] = [type(o) is First, o.footprint_height, getattr(o, 'height', None)]
out['hook'] = bool(st())
print('RESULT' + json.dumps(out))
'''


def run_process(case, rec):
    """The settings of a process that has just started."""
    _, doc, short = case
    env = {k: v for k, v in os.environ.items() if not k.startswith('FOOTPRINT_')}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    if doc is not None:
        env['FOOTPRINT_DOCSTRINGS'] = str(doc)
    if short is not None:
        env['FOOTPRINT_SHORTNAMES'] = str(short)
    r = subprocess.run([sys.executable, '-c', SCRIPT, os.path.join(REPO, 'src'), json.dumps(SWITCHES)], env=env, capture_output=True, text=True)
    if r.returncode or 'RESULT' not in r.stdout:
        raise Violation('{}: the process failed: {}'.format(case, r.stderr[-500:]))
    out = json.loads(r.stdout.rpartition('RESULT')[2])
    if 'fastkeys' not in r.stdout.rpartition('RESULT')[0]:
        raise Violation('{}: calling the setup prints {!r}'.format(case, r.stdout))
    want = dict(docstrings=doc or 0, extended=True, shortnames=bool(short), fatal=True, report=1, lreport_len=100, report_style=0, fastmode=False,
                fastkeys=['kind'], callback=None)
    if out['settings'] != want or [type(v) for k, v in sorted(out['settings'].items())] != [type(v) for k, v in sorted(want.items())]:
        raise Violation('{}: starts with {!r}'.format(case, out['settings']))
    if not (out['same'] and out['proxy'] and out['fastkeys'] and out['hook']) or out['keys'] != ['default'] or out['tag'] != 'default' or out['extras'] or \
            out['defaults'] or out['proxies'] or out['view'] != sorted(SWITCHES + ('defaults', 'nullreport', 'proxies', 'tag')):
        raise Violation('{}: starts with {!r}'.format(case, out))
    if len(set(out['names'][:4])) != 4 or len(set(out['names'][4:])) != 4:
        raise Violation('{}: modes {!r}'.format(case, out['names']))
    if out['object'] != [True, 3, 3 if short else None]:
        raise Violation('{}: first object {!r}'.format(case, out['object']))
    if 'Before.' not in out['doc'] or (bool(doc) != ('Height of it' in out['doc'])) or not doc and out['doc'] != 'Before.':
        raise Violation('{}: first documentation {!r}'.format(case, out['doc']))
    rec.op(3)
    rec.state(case)
    rec.outcome('process')


def run_many(case, rec):
    """Many proxies and collectors, and what the callback gives."""
    _, n, how = case
    st = footprints.setup
    st.defaults = dict(z='dflt', w='w')
    st.callback = None if how is None else lambda: dict(how)
    cls = world.make('K', dict(attr=dict(a=dict(), b=dict(optional=True))))
    holders = []
    for i in range(n):
        holders.append(Holder())
        st.add_proxy(holders[-1])
        new = ['m{}x{}'.format(i, j) for j in range(3)]
        world.make('D{}'.format(i), dict(attr=dict(q=dict())), collector=(new[0],))
        collectors.get(tag=new[1])
        with Silence(), world.LogCatcher():
            footprints.load(tag=new[2], q='q')
        # The others know them all, as well as the new one
        for h in holders:
            for k in range(i + 1):
                for t in ['m{}x{}'.format(k, j) for j in range(3)] + ['thing']:
                    col = collectors.get(tag=t)
                    if getattr(h, t + 's', None) is not col or getattr(getattr(h, t, None), '__self__', None) is not col:
                        raise Violation('{}: proxy #{} does not know {} when there are {}'.format(case, holders.index(h), t, i + 1))
        rec.op(3)
    if st.proxies != set(holders) or len(st.proxies) != n or st.as_dict()['proxies'] != set(holders):
        raise Violation('{}: proxies {!r}'.format(case, st.proxies))
    want = dict(how or {})
    for _ in range(2):
        got = st.extras()
        if got != want or list(got) != list(want):
            raise Violation('{}: extras {!r}'.format(case, got))
        got['spoilt'] = 1
    # What is given by the callback is used by the footprints
    env = dict(dict(z='dflt', w='w'), **{k: v for k, v in want.items() if isinstance(k, str)})
    for a in ('z', 'w', 'y', 'Y', 'tag'):
        with Silence(), world.LogCatcher():
            try:
                got = cls.footprint_couldbe(dict(a='[{}]'.format(a)))[0]
                got = got and got['a']
            except footprints.FootprintUnreachableAttr:
                got = 'unreachable'
        if env.get(a) is not None and got != str(env[a]) or a not in env and got != 'unreachable':
            raise Violation('{}: [{}] is {!r} with {!r}'.format(case, a, got, env))
        rec.op()
    rec.state(case)
    rec.outcome('many')


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'process':
        return run_process(case, rec)
    where = repr([OPS[i] for i in case])
    _count[0] += 1
    tags = ['default', 'setup{}'.format(_count[0]), 'other{}'.format(_count[0])]
    main = footprints.setup
    setups = {0: main}
    model = {0: dict(docstrings=main.docstrings, extended=True, shortnames=False, fatal=True, report=1, lreport_len=100, report_style=0,
                     fastmode=False, fastkeys=('kind',), callback=None, defaults={}, proxies=set())}
    cols = {'garbage': (1, 100, 0), 'thing': (1, 100, 0)}
    holders = []
    served = {}         # proxy object -> collectors it must know
    world.make('K', dict(attr=dict(a=dict(values=['x', 'y']), b=dict(optional=True))))
    cols['mcroot'] = None

    def called(s, **kw):
        """A call gives a setup and prints it."""
        text = io.StringIO()
        with contextlib.redirect_stdout(text), world.LogCatcher():
            got = s(**kw)
        lines = dict(map(str.strip, line.split(':', 1)) for line in text.getvalue().splitlines() if ':' in line)
        if set(lines) != set(got.as_dict()) or any(lines[k] != str(v).strip() for k, v in got.as_dict().items() if k not in ('callback', 'nullreport', 'defaults', 'proxies')):
            raise Violation('{}: a call prints {!r}'.format(where, text.getvalue()))
        return got

    def derive(src, dst, kw):
        if src not in setups:
            return
        got = called(setups[src], tag=tags[dst], **kw)
        if dst in setups:
            if got is not setups[dst]:
                raise Violation('{}: another setup for an existing tag'.format(where))
            return
        if any(got is s for s in setups.values()):
            raise Violation('{}: derived setup #{} is not a new one'.format(where, dst))
        m = dict(model[src])
        m.update(kw)
        m['extended'], m['fastmode'], m['fastkeys'] = bool(m['extended']), bool(m['fastmode']), tuple(m['fastkeys'])
        m['defaults'] = {k.lower(): v for k, v in m['defaults'].items()}
        m['proxies'] = set(m['proxies'])
        model[dst] = m
        setups[dst] = got

    def new_collector(tag, how):
        cols[tag] = how
        for h in model[0]['proxies']:
            served[h].add(tag)

    for n, i in enumerate(case):
        op = OPS[i]
        rec.op()
        who = op[1]
        if op[0] == 'derive':
            derive(who, op[2], op[3])
            continue
        if who == 1 and 1 not in setups:
            derive(0, 1, {})
        if op[0] == 'set':
            v = dict(op[3]) if op[2] == 'defaults' else op[3]
            setattr(setups[who], op[2], v)
            if op[2] == 'extended':
                if v is not None:
                    model[who]['extended'] = bool(v)
            elif op[2] == 'defaults':
                model[who]['defaults'] = {k.lower(): x for k, x in v.items()}
            else:
                model[who][op[2]] = v
        elif op[0] == 'update':
            setups[who].defaults.update(op[2])
            model[who]['defaults'].update({k.lower(): x for k, x in op[2].items()})
        elif op[0] == 'call':
            if called(setups[who]) is not setups[who]:
                raise Violation('{}: another setup'.format(where))
        elif op[0] == 'proxy':
            h = Holder()
            holders.append(h)
            setups[who].add_proxy(h)
            model[who]['proxies'].add(h)
            served[h] = {t for t in cols}
        elif op[0] == 'tell':
            # The collector is given to the proxies of that setup only
            for w in (None, who):
                with Silence(), world.LogCatcher():
                    config.add2proxies(Told, **({} if w is None else dict(tag=tags[w])))
                for h in model[w or 0]['proxies']:
                    served[h].add('told')
        elif op[0] == 'spoil':
            d = setups[who].as_dict()
            d['report'] = d['extended'] = d['callback'] = 9
            d.pop('fastkeys')
        elif who == 'report':
            collectors.get(tag='thing').report = 0
            cols['thing'] = (0,) + cols['thing'][1:]
        else:
            tag = 'c{}x'.format(n)
            here = tuple(model[0][k] for k in ('report', 'lreport_len', 'report_style'))
            if who == 'get':
                collectors.get(tag=tag)
                new_collector(tag, (1, 100, 0))
            elif who in ('load', 'default', 'pickup'):
                with Silence(), world.LogCatcher():
                    desc = dict(tag=tag, a='1')
                    got = footprints.pickup(desc)[tag] if who == 'pickup' else getattr(footprints, who)(**desc)
                    if got is not None:
                        raise Violation('{}: something in a new collector'.format(where))
                new_collector(tag, here)
            else:
                world.make('D{}'.format(n), dict(attr=dict(q=dict())), collector=(tag,))
                new_collector(tag, here)
    for w, s in setups.items():
        m = model[w]
        view = s.as_dict()
        for k in SWITCHES:
            for got in (getattr(s, k), view[k]):
                if type(got) is not type(m[k]) or got != m[k]:
                    raise Violation('{}: setup #{}: {} is {!r} instead of {!r}'.format(where, w, k, got, m[k]))
        for k in ('defaults', 'proxies'):
            for got in (getattr(s, k), view[k]):
                if got != m[k]:
                    raise Violation('{}: setup #{}: {} is {!r} instead of {!r}'.format(where, w, k, got, m[k]))
        for k in m['defaults']:
            if s.defaults[k.upper()] != m['defaults'][k]:
                raise Violation('{}: setup #{}: default {!r}'.format(where, w, k))
        if s.extras() != (m['callback']() if m['callback'] else {}):
            raise Violation('{}: setup #{}: extras {!r}'.format(where, w, s.extras()))
        if s.tag != tags[w] or config.get(tag=tags[w]) is not s or tags[w] not in config.keys():
            raise Violation('{}: setup #{}: tag {!r}'.format(where, w, s.tag))
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            s.info()
        lines = dict(map(str.strip, line.split(':', 1)) for line in text.getvalue().splitlines() if ':' in line)
        if any(lines.get(k) != str(m[k]) for k in SWITCHES if k != 'callback') or set(lines) != set(view):
            raise Violation('{}: setup #{}: {!r} printed'.format(where, w, text.getvalue()))
    known = {tags[w]: s for w, s in setups.items()}
    if {t: s for t, s in config.items() if t in tags} != known or set(tags) & set(config.keys()) != set(known) or \
            any(not any(s is x for x in config.values()) for s in known.values()) or len(config.keys()) != len(config.values()):
        raise Violation('{}: setups listed {!r}'.format(where, config.items()))
    if config.get() is not main:
        raise Violation('{}: the active setup has changed'.format(where))
    for h in holders:
        mine = {k for k in vars(h)}
        want = {x for t in served[h] for x in (t, t + 's')}
        if not want - {'mcroot', 'mcroots'} <= mine or not mine <= want:
            raise Violation('{}: a proxy knows {!r} instead of {!r}'.format(where, sorted(mine), sorted(want)))
    # The next lookups
    for h in holders:
        if 'told' in served[h] and (h.told, h.tolds) != (Told.load, Told):
            raise Violation('{}: a proxy knows {!r}'.format(where, h.told))
    m = model[0]
    env = dict(m['callback']()) if m['callback'] else {}
    extras = dict(env)
    if m['extended']:
        extras = dict(m['defaults'], **env)
    col = collectors.get(tag='thing')
    for desc in (dict(a='x'), dict(), dict(a='y', b='[z]'), dict(a='x', b='[p]')):
        with Silence(), world.LogCatcher():
            try:
                got = footprints.load(tag='thing', **desc)
                got = None if got is None else (got.a, got.b)
            except footprints.FootprintUnreachableAttr:
                got = 'unreachable'
        a = desc.get('a', m['defaults'].get('a'))
        b = desc.get('b')
        want = None if a is None else (a, b)
        if b and b[1:-1] not in extras:
            want = 'unreachable'
        elif b:
            want = (a, str(extras[b[1:-1]]))
        if got != want:
            raise Violation('{}: {!r} gives {!r} instead of {!r}'.format(where, desc, got, want))
    rec.op(4)
    # The reporting of the collectors
    for tag, how in cols.items():
        if how is None:
            continue
        col = collectors.get(tag=tag)
        if (col.report, col.lreport_len, col.report_style) != how:
            raise Violation('{}: collector {}: {!r} instead of {!r}'.format(where, tag, (col.report, col.lreport_len, col.report_style), how))
        first = len(col.report_log)
        for n in range(3):
            with Silence():
                if col.find_all(dict(b='1', a='no')):
                    raise Violation('{}: unexpected candidates in {}'.format(where, tag))
        want = first + (3 if how[0] else 0)
        if how[0] != config.FULL_REPORTING:
            want = min(want, how[1])
        if len(col.report_log) != want and not (tag == 'thing' and case and ('collector', 'report') in [OPS[i] for i in case]):
            raise Violation('{}: {} entries kept in the report of {} ({!r}), instead of {}'.format(where, len(col.report_log), tag, how, want))
        rec.op(3)
    rec.state([(w, sorted((k, repr(v)) for k, v in model[w].items() if k not in ('proxies', 'callback'))) for w in model] + [sorted(cols)])
    rec.outcome((len(setups), len(cols), len(holders)))
