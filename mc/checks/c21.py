"""C21: the registry of collectors, the proxies and the module functions."""

import collections
import contextlib
import io
import itertools

import footprints
from footprints import collectors, proxies
from mc import world
from mc.core import Violation

ID = 'C21'
RULE = ('every history of operations up to the depth: creation of collectors by names in various cases and plurals, definition of '
        'classes in one or two collectors (abstract or not), registration of proxy objects (empty, with own attributes, cleared or '
        'not), loads by the module functions, discards, death of objects, requests for unknown names; after each history the '
        'registry, the proxy by every form of every name, the registered objects, the listings of collectors, classes and objects '
        'and the module functions are compared with a model; collectors with 31 unusual names, next to those with a similar name')
ASSUMPTIONS = ['no collector named as a method of the proxy', 'the attribute of a registered object that exists before the registration, when a collector with this name is created later, is not '
               'specified']
BOUNDS = dict(quick='21 operations, length 3; 12 operations, length 4; 15 operations, length 2 after two loads; up to 45 collectors', thorough='21 operations, length 4; 12 operations, length 5; 15 operations, length 3 after two loads')

FORMS = ['{}', '{}s', '{}ss', '{c}', '{c}s', '{u}', '{u}S']
OPS = ['get alpha', 'get Betas', 'get GAMMA', 'def alpha', 'def Alphas', 'def beta', 'def both', 'def abstract', 'def none',
       'proxy 0', 'proxy 1', 'proxy 2', 'load', 'loads', 'pickup', 'default', 'unknown', 'die', 'discard', 'sub', 'first']
FEW = ['get alpha', 'get Betas', 'def Alphas', 'def both', 'def abstract', 'proxy 0', 'proxy 1', 'loads', 'unknown', 'die', 'discard', 'sub']


def cases(tier):
    plus = 0 if tier == 'quick' else 1
    for t in TAGS:
        yield ('tag', t)
    for n in (5, 20, 45) if plus == 0 else (5, 20, 45, 150):
        for k in (1, 3):
            yield ('many', n, k)
    for ops, n in (('OPS', 1), ('OPS', 2), ('OPS', 3 + plus), ('FEW', 4 + plus)):
        for h in itertools.product(OPS if ops == 'OPS' else FEW, repeat=n):
            yield h
    for h in itertools.product(FEW + ['load', 'pickup', 'default'], repeat=2 + plus):
        yield ('def alpha', 'def beta', 'load', 'loads') + h


# Collectors of any name, with those they could be mistaken for
TAGS = ['my.thing', 'a.b.c', 'thing.', '.thing', 'my-thing', 'my_thing', 'my/thing', 'my thing', 'my:thing', 'thing2', '2', '2.5', 'é', 'éa.x', 'sx', 'classe', 'thing_', '_x.thing',
        'x' * 60, 'lambda', 'none', 'default', 'root', 'abstract', 'tag', 'desc', 'col', 'report', 'self', 'm', 'garbage']


class Holder:
    """An object to be registered as a proxy."""


def forms(tag):
    for f in FORMS:
        yield f.format(tag, c=tag.capitalize(), u=tag.upper())


def printed(fun):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fun()
    return out.getvalue()


def same_load(f, col):
    return getattr(f, '__self__', None) is col and getattr(f, '__name__', '') == 'load'


def run_many(case, rec):
    """Many collectors, each with some classes and objects."""
    _, n, k = case
    proxy = footprints.proxy
    early, late = Holder(), Holder()
    footprints.setup.add_proxy(early)
    classes, objects, every = {}, {}, []
    for i in range(n):
        tag = 'col{}'.format(i)
        classes[tag] = [world.make('K{}_{}'.format(i, j), dict(attr=dict(a=dict(values=['v{}'.format(j)]), n=dict(type=int, optional=True, default=i))),
                                   collector=(tag, 'shared')) for j in range(k if i % 3 else 1)]
        objects[tag] = [footprints.load(tag=tag + 's' * (i % 2), a='v{}'.format(j)) for j in range(len(classes[tag]))]
        every.extend(objects[tag])
        if [type(o) for o in objects[tag]] != classes[tag]:
            raise Violation('{}: {!r} in {}'.format(case, objects[tag], tag))
        rec.op(len(objects[tag]))
    footprints.setup.add_proxy(late)
    classes['shared'] = [c for t in list(classes) for c in classes[t]]
    objects['shared'] = every
    omap, clist = proxy.objectsmap(), proxy.catlist()
    tags = set(collectors.keys())
    if not set(classes) <= tags or {t + 's' for t in tags} != set(omap) or [x[1] for x in clist] != [t + 's' for t in sorted(tags)]:
        raise Violation('{}: collectors {!r}, {!r}, {!r}'.format(case, sorted(tags), sorted(omap), clist))
    lines = {f: [x.split()[:2] for x in printed(f).splitlines()] for f in (proxy.cat, proxy.objects, proxy)}
    for f, known in ((proxy.cat, classes), (proxy.objects, objects), (proxy, classes)):
        if lines[f] != [[str(len(known.get(t, ()))), t + 's'] for t in sorted(tags)]:
            raise Violation('{}: printed {!r}'.format(case, lines[f]))
    for t in classes:
        col = collectors.get(tag=t)
        if set(col.items()) != set(classes[t]) or len(list(col.items())) != len(classes[t]) or len(col) != len(classes[t]):
            raise Violation('{}: {} holds {!r}'.format(case, t, col.items()))
        for got in (omap[t + 's'], col.instances()):
            if {id(o) for o in got} != {id(o) for o in objects[t]} or len(list(got)) != len(objects[t]):
                raise Violation('{}: objects of {}: {!r}'.format(case, t, got))
        if (len(classes[t]), t + 's', col) not in clist:
            raise Violation('{}: catlist without {}'.format(case, t))
        for name in forms(t):
            if not proxy.exists(name) or name not in proxy or proxy.getitem(name) is not col or collectors.get(tag=name) is not col:
                raise Violation('{}: {!r} is unknown'.format(case, name))
        for holder in (early, late):
            if getattr(holder, t + 's', None) is not col or not same_load(getattr(holder, t, None), col):
                raise Violation('{}: proxy without {}'.format(case, t))
    if footprints.collected_classes() != set(classes['shared']):
        raise Violation('{}: collected classes {!r}'.format(case, footprints.collected_classes()))
    if sorted(map(id, footprints.grep())) != sorted(map(id, every)) and {id(o) for o in footprints.grep()} != {id(o) for o in every}:
        raise Violation('{}: grep {!r}'.format(case, len(footprints.grep())))
    for j in range(k):
        if {id(o) for o in footprints.grep(a='v{}'.format(j))} != {id(o) for o in every if o.a == 'v{}'.format(j)}:
            raise Violation('{}: grep {!r}'.format(case, j))
        # Once for each of the collectors
        if collections.Counter(map(id, footprints.grep(a='v{}'.format(j)))) != {id(o): 2 for o in every if o.a == 'v{}'.format(j)}:
            raise Violation('{}: grep {!r}'.format(case, footprints.grep(a='v{}'.format(j))))
    rec.state(case)
    rec.outcome(('many', len(every)))


def run_tag(case, rec):
    """Collectors with unusual names."""
    tag = case[1]
    others = [t for t in ('thing', 'my', 'c', 'b', 'x', tag.replace('.', '_'), tag.replace('-', '_'), tag[1:], tag[:-1], tag + '.x', 'x.' + tag, tag + '-x', tag + '_x', tag + ' x', tag + 'x')
              if t and t.rstrip('s') == t and t not in (tag, 'a', 'kind')]
    others = sorted(set(others))
    classes, objects = {}, {}
    for n, t in enumerate([tag] + others):
        classes[t] = world.make('K{}'.format(n), dict(attr=dict(a=dict(values=['x', 'y']), kind=dict(optional=True))), collector=(t,))
    for t in classes:
        col = collectors.get(tag=t)
        objects[t] = []
        if col.tag != t or list(col.items()) != [classes[t]]:
            raise Violation('{}: collector {!r} holds {!r}'.format(case, t, col.items()))
        for form in (t, t + 's', t.capitalize(), t.upper(), t.upper() + 'S'):
            if form.lower().rstrip('s') != t:
                continue
            if collectors.get(tag=form) is not col:
                raise Violation('{}: {!r} is another collector'.format(case, form))
            desc = dict(tag=form, a='x', rest='r')
            out = footprints.pickup(desc)
            got = [footprints.load(tag=form, a='x', kind='k'), out.get(t)]
            # Some default object is one of those
            one = footprints.default(tag=form, a='x')
            if [type(o) for o in got] != [classes[t]] * 2 or not any(one is o for o in objects[t] + got) or set(out) != {t, 'rest'}:
                raise Violation('{}: {!r} gives {!r} and {!r}, {!r}'.format(case, form, got, one, out))
            if footprints.load(tag=form, a='z') is not None:
                raise Violation('{}: {!r} gives something'.format(case, form))
            objects[t].extend(got)
            rec.op(4)
    for t in classes:
        if {id(o) for o in collectors.get(tag=t).instances()} != {id(o) for o in objects[t]}:
            raise Violation('{}: objects of {!r}: {!r}'.format(case, t, collectors.get(tag=t).instances()))
    if not set(classes) <= set(collectors.keys()) or set(collectors.keys()) - set(classes) - {'garbage', 'mcroot'}:
        raise Violation('{}: collectors {!r}'.format(case, collectors.keys()))
    if footprints.collected_classes() != set(classes.values()):
        raise Violation('{}: collected classes {!r}'.format(case, footprints.collected_classes()))
    rec.state(case)
    rec.outcome('tag')


def run(case, rec):
    if case[0] == 'many':
        return run_many(case, rec)
    if case[0] == 'tag':
        return run_tag(case, rec)
    where = repr(case)
    classes = {}        # class -> tags
    tags = {'garbage'}
    seen = {}
    holders = [Holder(), Holder(), Holder()]
    holders[1].alpha = holders[2].alpha = holders[2].betas = 'mine'
    registered = {}     # holder -> tags already there when registered
    objects = []        # (object, class)
    discarded = set()
    proxy = footprints.proxy
    second = proxies.get(tag='second')
    if proxies.get() is not proxy or dict(proxies.items()) != {'default': proxy, 'second': second} or \
            set(proxies.keys()) != {'default', 'second'} or {id(p) for p in proxies.values()} != {id(proxy), id(second)}:
        raise Violation('{}: proxies {!r}'.format(where, proxies.items()))

    def define(name, *cols, **kw):
        name = '{}{}'.format(name, len(classes))
        cls = world.make(name, dict(attr=dict(a=dict(), n=dict(optional=True), kind=dict(optional=True))), collector=cols, **kw)
        classes[cls] = {c.lower().rstrip('s') for c in cols}
        tags.update(classes[cls])
        return cls

    def concrete():
        return [c for c in classes if not c._abstract]

    def usable(tag):
        return [c for c in concrete() if tag in classes[c] and (c, tag) not in discarded]

    for n, op in enumerate(case):
        rec.op()
        word, _, arg = op.partition(' ')
        if word == 'get':
            c = collectors.get(tag=arg)
            tags.add(arg.lower().rstrip('s'))
            if c.tag != arg.lower().rstrip('s'):
                raise Violation('{}: collector {!r} has tag {!r}'.format(where, arg, c.tag))
        elif op == 'def both':
            define('Both', 'alpha', 'BETAS')
        elif op == 'def abstract':
            define('Abs', 'alpha', 'gamma', _abstract=True)
        elif op == 'def none':
            define('None', 'garbages')
        elif op == 'sub':
            # A class that inherits its collectors
            parents = [c for c in concrete()]
            if parents:
                p = parents[-1]
                c = world.make('Sub{}'.format(len(classes)), dict(attr=dict(b=dict(optional=True))), collector=None, bases=(p,))
                classes[c] = set(classes[p])
        elif word == 'def':
            define('K', arg)
        elif word == 'proxy':
            i = int(arg)
            before = dict(vars(holders[i]))
            if i == 2:
                footprints.setup.add_proxy(holders[i], clear=True)
            else:
                footprints.setup.add_proxy(holders[i])
                # What is there is left as it is
                for k, v in before.items():
                    if getattr(holders[i], k, None) != v:
                        raise Violation('{}: proxy object #{}: {} was {!r}, is {!r}'.format(where, i, k, v, getattr(holders[i], k, None)))
            registered.setdefault(i, set()).update(tags)
        elif op in ('load', 'loads', 'pickup', 'default', 'first'):
            tag = dict(load='alpha', loads='Betas', pickup='ALPHA', default='alphas', first='garbage')[op]
            clean = tag.lower().rstrip('s')
            tags.add(clean)
            known = [o for o, c in objects if clean in classes[c]]
            if op == 'pickup':
                desc = dict(tag=tag, a='x', kind='k', rest='r')
                out = footprints.pickup(desc)
                obj = out.get(clean)
                if set(out) != ({clean, 'rest'} if obj is not None else {clean, 'rest', 'a', 'kind'}):
                    raise Violation('{}: {} gives {!r}'.format(where, op, out))
            elif op == 'default':
                obj = footprints.default(tag=tag, a='x', kind='k', rest='r')
            elif op == 'first':
                # The collector used by default
                obj = footprints.load(a='x', kind='k', rest='r')
            else:
                obj = footprints.load(tag=tag, a='x', kind='k', rest='r')
            if obj is None:
                if usable(clean) or (op == 'default' and known):
                    raise Violation('{}: {} gives nothing'.format(where, op))
            elif op == 'default' and any(obj is o for o in known):
                pass
            elif type(obj) not in usable(clean) or (op == 'default' and known):
                raise Violation('{}: {} gives {!r}'.format(where, op, obj))
            else:
                objects.append((obj, type(obj)))
            obj = out = desc = known = None
        elif op == 'unknown':
            for name in ('omega', 'Omegas', 'alph', '_alpha', '__wrapped__', 's', ''):
                if name in proxy or proxy.exists(name) or proxy.getitem(name) is not None or proxy.getitem(name, 3) != 3:
                    raise Violation('{}: {!r} exists'.format(where, name))
                if name.startswith('__'):
                    continue
                if getattr(proxy, name) is not None:
                    raise Violation('{}: proxy.{} is {!r}'.format(where, name, getattr(proxy, name)))
        elif op == 'die':
            if objects:
                objects.pop(0)
        elif op == 'discard':
            if 'alpha' in tags:
                for c in usable('alpha')[:1]:
                    collectors.get(tag='alpha').discard(c)
                    discarded.add((c, 'alpha'))
    # The base class of the closed world
    tags.add('mcroot')
    keys = set(collectors.keys())
    if not tags - {'mcroot'} <= keys or not keys <= tags or len(collectors.keys()) != len(keys):
        raise Violation('{}: collectors {!r} instead of {!r}'.format(where, sorted(keys), sorted(tags)))
    tags &= keys
    cols = {t: c for t, c in collectors.items()}
    if set(cols) != tags or {id(c) for c in collectors.values()} != {id(c) for c in cols.values()} or \
            {id(c) for c in proxy} != {id(c) for c in cols.values()}:
        raise Violation('{}: inconsistent listings of the collectors'.format(where))
    for t in ('alpha', 'beta', 'gamma', 'garbage', 'omega'):
        for name in forms(t):
            there = t in tags
            if proxy.exists(name) is not there or (name in proxy) is not there:
                raise Violation('{}: {!r} exists: {!r}'.format(where, name, proxy.exists(name)))
            if proxy.getitem(name, 5) is not (cols[t] if there else 5):
                raise Violation('{}: getitem({!r}) gives {!r}'.format(where, name, proxy.getitem(name, 5)))
            got = getattr(proxy, name)
            if not there:
                ok = got is None
            elif name[-1] in 'sS':
                ok = got is cols[t]
            else:
                ok = same_load(got, cols[t])
            if not ok:
                raise Violation('{}: proxy.{} is {!r}'.format(where, name, got))
            if there and collectors.get(tag=name) is not cols[t]:
                raise Violation('{}: another collector for {!r}'.format(where, name))
    if set(collectors.keys()) != tags:
        raise Violation('{}: collectors created by the proxy: {!r}'.format(where, collectors.keys()))
    for i, before in registered.items():
        for t in tags:
            mine = {1: ('alpha',), 2: ('alpha', 'betas')}.get(i, ())
            for name in (t, t + 's'):
                got = getattr(holders[i], name, None)
                if got == 'mine' and i == 1 and name in mine and t in before:
                    continue
                if not (got is cols[t] if name != t else same_load(got, cols[t])):
                    raise Violation('{}: proxy object #{}: {} is {!r}'.format(where, i, name, got))
    for i in {0, 1, 2} - set(registered):
        if any(v != 'mine' for v in vars(holders[i]).values()):
            raise Violation('{}: #{} is not a proxy object'.format(where, i))
    for t in tags:
        want = set(usable(t))
        if set(cols[t].items()) != want or len(list(cols[t].items())) != len(want) or len(cols[t]) != len(want) or \
                set(cols[t]) != want:
            raise Violation('{}: classes of {}: {!r} instead of {!r}'.format(where, t, cols[t].items(), want))
        want = {id(o) for o, c in objects if t in classes[c]}
        if {id(o) for o in cols[t].instances()} != want or len(cols[t].instances()) != len(want):
            raise Violation('{}: {} live objects in {} instead of {}'.format(where, len(cols[t].instances()), t, len(want)))
        if {id(o) for o in proxy.objectsmap()[t + 's']} != want:
            raise Violation('{}: objectsmap {!r}'.format(where, proxy.objectsmap()))
    if set(proxy.objectsmap()) != {t + 's' for t in tags}:
        raise Violation('{}: objectsmap {!r}'.format(where, proxy.objectsmap()))
    if [(n, name, id(c)) for n, name, c in proxy.catlist()] != [(len(usable(t)), t + 's', id(cols[t])) for t in sorted(tags)]:
        raise Violation('{}: catlist {!r}'.format(where, proxy.catlist()))
    order = sorted(tags)
    for show, counts, things in ((proxy.cat, {t: len(usable(t)) for t in tags}, cols), (proxy, {t: len(usable(t)) for t in tags}, cols),
                                 (proxy.objects, {t: sum(t in classes[c] for _, c in objects) for t in tags}, None)):
        lines = printed(show).splitlines()
        if [x.split()[:2] for x in lines] != [[str(counts[t]), t + 's'] for t in order]:
            raise Violation('{}: the collectors are printed as {!r}'.format(where, lines))
        for t, line in zip(order, lines):
            if things and str(things[t]) not in line or not things and any(repr(o) not in line for o, c in objects if t in classes[c]):
                raise Violation('{}: {} is printed as {!r}'.format(where, t, line))
    if footprints.collected_classes() != {c for t in tags for c in usable(t)}:
        raise Violation('{}: collected classes {!r}'.format(where, footprints.collected_classes()))
    if {id(o) for o in footprints.grep()} != {id(o) for o, _ in objects}:
        raise Violation('{}: grep {!r}'.format(where, footprints.grep()))
    if collections.Counter(map(id, footprints.grep())) != {id(o): len(classes[c]) for o, c in objects}:
        raise Violation('{}: grep {!r}'.format(where, footprints.grep()))
    if {id(o) for o in footprints.grep(a='x')} != {id(o) for o, _ in objects} or footprints.grep(a='y'):
        raise Violation('{}: grep {!r}'.format(where, footprints.grep(a='x')))
    rec.state((sorted(tags), sorted((c.__name__, sorted(t)) for c, t in classes.items()), len(objects), sorted(registered)))
    rec.outcome((len(tags), len(objects)))
