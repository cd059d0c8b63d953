"""C03: substitutions inside attribute values."""

import datetime
import itertools

import footprints
from footprints import collectors
from mc import ref, world, zoo
from mc.core import Violation

ID = 'C03'
RULE = ('three attributes, each with a template from an alphabet (literals, references with and without method, '
        'default and format, self references, references to extra values), under every renaming and optional/mandatory '
        'pattern (i.e. every processing order); extra values from every combination of the description, the callback, '
        'the defaults and an object; chains and rings of n attributes in every direction; compared with an order-free '
        'recursive model; every text, value and name of a common alphabet (mc/zoo.py) as value or name of what is referenced')
ASSUMPTIONS = ['references to unset optional attributes are not explored (their text is not specified)',
               'when one attribute is unacceptable and an other one cannot be substituted, both a rejection and the '
               'substitution error are accepted']
BOUNDS = dict(quick='3 attributes x 11 templates x 6 name orders x 2 optional patterns; 2 attributes x 60 templates; chains up to 60 attributes; histories of 3 changes among 13 between lookups',
              thorough='3 attributes x 14 templates x 6 name orders x 8 optional patterns; chains up to 60 attributes')

# Templates: {0} {1} {2} are the names of the attributes (self, next, next next)
CORE = ['lit', 'x[{1}]', '[{1}]-[{2}]', '[{0}]', '[z]', '[nope]', '[nope#df]', '[e1]', '[{2}%>4]', 'b\\d[{1}]\\1', '7']
MORE = CORE + ['[{1}:upper]', '[o:val]', '[{1}#df]']
WIDE = MORE + ['[o::meth:up]', '[o:late]', '[o:nothing]', '[o:boom]', '[z%s]', '[z%:.2s]', '[z%d]', '[{1}:missing]',
               '[{1}][{1}][{1}]', '[nope#01][nope#02]', '[{1}:::upper]', '[e2]', '[e3]', '[o:plain%!r]',
               'None', '[none]', '[{1}%.upper:>6]', '[', ']', '[]', '[a b]', '[{1}', '[[{1}]]', '\\g<0>[z]', '[big]',
               '[o:both]', '[o:me:me:val]', '[o::me:me:::me::meth:up]', 'é[z]ü', '[num%04d]', '[num%:04d]', '[num:real%03d]', '[o:val:upper]',
               'x[o:void]y', '[o:zero]', '[o:false%s]', '[o:none]', '[o:zeros]', '<[o:voids]>', '[void]|[fzero]', '[sdef]', '[cbv]', '[dv]', '[fl]',
               '[sp:strip:upper]', '[{1}:strip:upper:lower]', '[o:spv:strip:title:swapcase]', '[{1}%!r:>6]', '[dt%.day:03d]|[dt:day%02d]', '[dt%:%Y]', '[sp:strip%>5]']


DATE = datetime.date(2021, 3, 4)


class Thing(world.Base):
    """An object found in the description: its attributes are extra values."""
    _footprint = dict(attr=dict(val=dict(access='rwx'), z=dict(optional=True, access='rwd')))
    _abstract = False
    _collector = ('mcobj',)

    @property
    def plain(self):
        return 'pl'

    @property
    def me(self):
        return self

    spv = ' ab '
    void = ''
    zero = 0
    none = None

    @property
    def false(self):
        return False

    def zeros(self, guess, extras):
        return 0

    def voids(self, guess, extras):
        return ''

    def meth(self, guess, extras):
        return Up('m')

    def nothing(self, guess, extras):
        return None

    def boom(self, guess, extras):
        raise KeyError('boom')

    def late(self, guess, extras):
        """Needs the final value of attribute 'k1'."""
        v = guess['k1']
        if '[' in str(v):
            raise ValueError('not yet')
        return 'late' + str(v)

    def both(self, guess, extras):
        return extras['z'] + 'B'


class Up:
    def __init__(self, x):
        self.up = x + 'UP'


ZTPL = ['[k2]', 'x[k2]', '[k2]y', '[k2][k2]', '[z]', '<[z]|[k2]>', '[k2:upper]', '[o:val]', '[k2#d]', '[k2%s]', '[z%>4]', '[val]', '[cb]', '[df]', '[k3]', '[z:strip]']


def run_text(case, rec):
    """Texts of all kinds go through unchanged."""
    _, t, tpl = case
    text = zoo.TEXTS[t]
    st = footprints.setup
    st.callback = lambda: dict(cb=text)
    st.defaults = dict(df=text)
    obj = Thing(val=text)
    desc = dict(k1=ZTPL[tpl], k2=text, z=text, o=obj)
    attrs = {'k1': dict(optional=True), 'k2': {}, 'k3': dict(optional=True, default='<[k2]>')}
    cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))

    def objattrs(v):
        return {k: getattr(v, k) for k in v.footprint_attributes} if isinstance(v, Thing) else None
    env = dict(callback=dict(cb=text), objattrs=objattrs, defaults=dict(df=text))
    compare(cls, attrs, desc, env, rec, 'text')
    desc['k2'] = ZTPL[tpl].replace('k2', 'z')
    if '[k3' not in desc['k2']:
        compare(cls, attrs, desc, env, rec, 'text')


def run_values(case, rec):
    """Values of all kinds are formatted as they are."""
    _, v, tpl = case
    value = zoo.VALUES[v]
    text = ZTPL[tpl].replace('k2', 'z').replace('[k3]', '[z].')
    desc = dict(k1=text, z=value, o=Thing(val='v'), val=value, cb=value, df=value)
    attrs = {'k1': {}}
    cls = world.make('K', dict(attr={'k1': {}}))

    def objattrs(v):
        return {k: getattr(v, k) for k in v.footprint_attributes} if isinstance(v, Thing) else None
    if any(x in text for x in (':upper', ':strip')):
        # not every value has these methods: see below
        desc['z'] = str(value) + 'q'
    compare(cls, attrs, desc, dict(objattrs=objattrs), rec, 'values')


def run_names(case, rec):
    """Names of all kinds: of attributes, of extra values."""
    _, name, role = case
    attrs = {'k1': dict(optional=True), 'k2': dict(optional=True)}
    desc, env = dict(k1='<[{}]>'.format(name), k2='[k1]'), {}
    st = footprints.setup
    if role == 'attr':
        attrs[name] = dict(optional=True, default='D')
    elif role == 'given':
        attrs[name] = {}
        desc[name] = 'G'
    elif role == 'extra':
        desc[name] = 'E'
    elif role == 'callback':
        env['callback'] = {name: 'C'}
        st.callback = lambda: {name: 'C'}
    elif role == 'defaults':
        if name != name.lower():
            rec.outcome('skipped')
            return
        env['defaults'] = {name: 'S'}
        st.defaults = {name: 'S'}
    elif role == 'unknown':
        desc['k1'] = '<[{}#nothing]>'.format(name)
    cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))
    compare(cls, attrs, desc, env, rec, 'names')


def run_objs(case, rec):
    """Several objects in the description, at any place of it."""
    _, order, tpl, more = case
    classes = {x: world.make('O' + x, dict(attr={x + '1': dict(optional=True), x + '2': dict(type=int, optional=True), 's': dict(optional=True)}), collector=('o' + x + '_',))
               for x in 'abc'}
    objects = {'o' + x: c(**{x + '1': x + 'V', x + '2': '7', 's': 's' + x}) for x, c in classes.items()}
    given = dict(objects, t='text', k1=OBJTPL[tpl])
    desc = {k: given[k] for k in order}
    attrs = {'k1': {}}
    if more & 1:
        # One of the objects is the value of an attribute
        attrs['oa'] = dict(type=world.Base, optional=True)
    if more & 2:
        attrs['k2'] = dict(optional=True, default='<[b1]>' if 'ob' in desc else 'x')
    cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))

    def objattrs(v):
        return {k: getattr(v, k) for k in v.footprint_attributes} if isinstance(v, world.Base) else None
    compare(cls, attrs, desc, dict(objattrs=objattrs), rec, 'objs')


def run_bare(case, rec):
    """Nothing in the description: the attributes have their defaults, and these may refer to anything."""
    _, tpl, src, ext, given = case
    st = footprints.setup
    st.extended = bool(ext)
    env = dict(extended=bool(ext), callback={}, defaults={})
    if src & 1:
        env['callback'] = dict(n='C')
        st.callback = lambda: dict(n='C')
    if src & 2:
        env['defaults'] = dict(n='S', m='M')
        st.defaults = dict(n='S', m='M')
    attrs = dict(k1=dict(optional=True, default=BARETPL[tpl]), k2=dict(optional=True, default='2'))
    if src & 4:
        attrs['m'] = dict(optional=True, default='dm')
    cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))
    compare(cls, attrs, given, env, rec, 'bare')


BARETPL = ['<[n]>', '[n][m]', '[k2]', '[n#x]', '[m]', 'x', '[n:lower]']

OBJTPL = ['[a1]', '[b2%03d]', '[c1]-[t]', '[s]', '[a1#no][b1#no][c1#no]', '[oa:a1#x]']


def cases(tier):
    for tpl in range(len(BARETPL)):
        for src in range(8):
            for ext in (0, 1):
                for given in ({}, dict(k2='g'), dict(z=1), dict(k1=None)):
                    yield ('bare', tpl, src, ext, given)
    for n in range(1, 5):
        for keys in itertools.combinations(('oa', 'ob', 'oc', 't'), n):
            for order in itertools.permutations(keys + ('k1',)):
                for tpl in range(len(OBJTPL)):
                    for more in range(4):
                        yield ('objs', order, tpl, more)
    for tpl in range(len(ZTPL)):
        for t in range(len(zoo.TEXTS)):
            yield ('text', t, tpl)
        for v in range(len(zoo.VALUES)):
            yield ('values', v, tpl)
    for name in zoo.NAMES:
        for role in ('attr', 'given', 'extra', 'callback', 'defaults', 'unknown'):
            yield ('names', name, role)
    idx = {t: i for i, t in enumerate(WIDE)}
    for t0, t1 in itertools.product(WIDE, WIDE):
        for order in ((0, 1), (1, 0)):
            yield ('tpl', (idx[t0], idx[t1]), order, 0, 0)
    tpl = CORE if tier == 'quick' else MORE
    opts = (0, 5) if tier == 'quick' else range(8)
    for ts in itertools.product(tpl, repeat=3):
        for order in itertools.permutations(range(3)):
            for o in opts:
                yield ('tpl', tuple(idx[t] for t in ts), order, o, 0)
    # a typed attribute
    for ts in itertools.product(('7', '[{1}]', '0[{1}]', 'x[{1}]', '[num]', '[z]', '[{1}%03d]'), repeat=3):
        for order in itertools.permutations(range(3)):
            for typed in (1, 2, 3, 7):
                yield ('typ', ts, order, typed)
    # sources of an extra value
    for combo in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2, 3), (0, 1)):
        for attr_too in (0, 1, 2, 3):
            yield ('src', combo, attr_too)
    # histories of lookups, and of changes of what they refer to
    for t in range(len(CHANGING)):
        for h in itertools.product(range(len(CHANGES)), repeat=3 if tier == 'quick' else 4):
            yield ('chg', t, h)
    # chains and rings
    for n in list(range(1, 14)) + [25, 49, 50, 51, 60]:
        for shape in ('up', 'down', 'ring', 'star', 'plain', 'tail'):
            for opt in ('mand', 'opt', 'alt'):
                yield ('chain', n, shape, opt)


CHANGING = ['[val]', '[o:val]', '[z]', '<[val:upper]>[o:z]', '[o::meth:up][val]', '[cb][df]', '[cb:lower]-[z]', '[p:val][val]', '[x][o:val%>4]']
CHANGES = ['val a', 'val B', 'z c', 'z D', 'z del', 'new', 'second', 'cb', 'df', 'x', 'nothing', 'cb0', 'spoil']


def run_chg(case, rec):
    """The values are the ones at the time of the lookup."""
    _, t, history = case
    st = footprints.setup
    cb = dict(cb='C1')
    dflt = dict(df='D1')
    st.callback = lambda: cb
    st.defaults = dict(dflt)
    obj = Thing(val='v0', z='z0')
    desc = dict(k1=CHANGING[t], o=obj, x='x0', p=Thing(val='pv'))
    del desc['p']
    attrs = {'k1': {}}
    cls = world.make('K', dict(attr={'k1': {}}))

    def objattrs(v):
        return {k: getattr(v, k) for k in v.footprint_attributes} if isinstance(v, Thing) else None
    compare(cls, attrs, desc, dict(callback=cb, objattrs=objattrs, defaults=dflt), rec, 'chg')
    for n, c in enumerate(history):
        what, _, value = CHANGES[c].partition(' ')
        if what == 'val':
            desc['o'].val = value
        elif what == 'z':
            if value == 'del':
                if hasattr(desc['o'], 'z'):
                    del desc['o'].z
            else:
                desc['o'].z = value
        elif what == 'new':
            desc['o'] = Thing(val='n{}'.format(n), z='zn')
        elif what == 'second':
            desc['p'] = Thing(val='p{}'.format(n))
            desc['p'].z = 'second'
        elif what == 'cb':
            cb['cb'] = 'c{}'.format(n)
        elif what == 'cb0':
            cb.clear()
        elif what == 'df':
            dflt['df'] = 'd{}'.format(n)
            st.defaults['df'] = 'd{}'.format(n)
        elif what == 'x':
            desc['x'] = 'x{}'.format(n)
        elif what == 'spoil':
            # what is told about the object is not the object
            desc['o'].footprint_as_shallow_dict()['val'] = 'spoilt'
            desc['o'].footprint_as_dict()['val'] = 'spoilt'
        compare(cls, attrs, desc, dict(callback=cb, objattrs=objattrs, defaults=dflt), rec, 'chg')


def lookup(col, cls, desc):
    out = []
    for how in ('load', 'new'):
        d = dict(desc)
        try:
            if how == 'load':
                obj = col.load(_emptywarning=False, _report=False, **d)
            else:
                obj = cls(**d)
            out.append((how, 'ok' if obj is not None else 'none', obj))
        except footprints.FootprintFatalError:
            out.append((how, 'none', None))
        except (footprints.FootprintException, ValueError, TypeError, AttributeError, KeyError) as e:
            out.append((how, 'raise', type(e).__name__))
    return out


def compare(cls, attrs, desc, env, rec, label):
    exp = ref.resolve(attrs, desc, **env)
    col = collectors.get(tag='thing')
    rec.outcome(exp[0] + (' ' + ','.join(sorted(exp[1])) if exp[0] == 'raise' else ''))
    for how, status, obj in lookup(col, cls, desc):
        rec.op()
        where = '{} of {!r} with {!r}'.format(how, {k: {x: y for x, y in v.items()} for k, v in attrs.items()}, desc)
        if exp[0] == 'ok':
            if status != 'ok':
                raise Violation('{}: expected {!r}, got {!r} {!r}'.format(where, exp[1], status, obj))
            got = world.attrs_of(obj, attrs)
            if not ref.strict_equal(got, ref.visible(exp[1])):
                raise Violation('{}: expected {!r}, got {!r}'.format(where, ref.visible(exp[1]), got))
            rec.state(sorted(got.items()))
        elif exp[0] == 'reject':
            if status == 'ok':
                raise Violation('{}: should be rejected {!r}, got {!r}'.format(where, exp[1], world.attrs_of(obj, attrs)))
            if status == 'raise':
                raise Violation('{}: should be rejected {!r}, got {!r}'.format(where, exp[1], obj))
            rec.state('reject ' + label)
        elif exp[0] == 'raise':
            names = exp[1]
            # an endless requeue and the original error are both acceptable ends for a failing method
            if names - {'FootprintMaxIter', 'FootprintUnreachableAttr'} and any('[o' in str(v) for v in desc.values()):
                names = names | {'FootprintMaxIter'}
            if status != 'raise' or (obj not in names):
                raise Violation('{}: should raise {!r}, got {!r} {!r}'.format(where, names, status, obj))
            rec.state('raise ' + label)
        else:
            if status == 'ok':
                raise Violation('{}: should fail, got {!r}'.format(where, world.attrs_of(obj, attrs)))
            rec.state('either ' + label)


def run(case, rec):
    kind = case[0]
    if kind in ('text', 'values', 'names'):
        return dict(text=run_text, values=run_values, names=run_names)[kind](case, rec)
    if kind == 'chg':
        return run_chg(case, rec)
    if kind == 'bare':
        return run_bare(case, rec)
    if kind == 'objs':
        return run_objs(case, rec)
    st = footprints.setup
    if kind == 'tpl':
        _, ts, order, opts, _ = case
        n = len(ts)
        names = ['k{}'.format(order[i]) for i in range(n)]
        obj = Thing(val='vv', z='ZO')
        callback = {'e1': '<[z]>', 'e2': '[{}]'.format(names[0]), 'e3': '[e3]', 'num': 5, 'big': 'q' * 50, 'cbv': 'cb', 'void': ''}
        st.callback = lambda: dict(callback)
        desc = {'z': 'ZZ', 'o': obj, 'sp': ' s ', 'dt': DATE, 'none': 'None', 'dv': 'D', 'fzero': 0}
        st.defaults = dict(SDEF='[dv]', fl=False, Z='no')
        attrs = {}
        for i in range(n):
            rot = [names[(i + j) % n] for j in range(n)] + [names[i]]
            desc[names[i]] = WIDE[ts[i]].replace('{0}', rot[0]).replace('{1}', rot[1]).replace('{2}', rot[2])
            attrs[names[i]] = dict(optional=bool(opts >> i & 1))
        cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))

        def objattrs(v):
            return {'val': v.val, 'z': v.z} if isinstance(v, Thing) else None
        compare(cls, attrs, desc, dict(callback=callback, objattrs=objattrs, defaults=dict(SDEF='[dv]', fl=False, Z='no')), rec, 'tpl')
    elif kind == 'typ':
        _, ts, order, typed = case
        names = ['k{}'.format(order[i]) for i in range(3)]
        attrs, desc = {}, {'z': 'ZZ', 'num': 12}
        for i in range(3):
            desc[names[i]] = ts[i].replace('{1}', names[(i + 1) % 3])
            attrs[names[i]] = dict(type=int) if typed >> i & 1 else dict(values=['7', '07', '007', 'x7', '12'])
        cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))
        compare(cls, attrs, desc, {}, rec, 'typ')
    elif kind == 'src':
        (in_desc, in_cb, in_dflt, in_obj, extended), attr_too = case[1:]
        st.extended = bool(extended)
        obj = Thing(val='vv', z=(None, 'from_obj', '', None)[in_obj]) if in_obj else None
        desc = {'k1': '<[z]>'}
        if in_desc:
            desc['z'] = ('from_desc', 0)[in_desc - 1]
        if obj is not None:
            desc['o'] = obj
        cb = {'z': ('from_cb', False)[in_cb - 1]} if in_cb else {}
        if in_cb:
            st.callback = lambda: dict(cb)
        dflts = {'Z': ('from_dflt', '')[in_dflt - 1]} if in_dflt else {}
        st.defaults = dict(dflts)
        attrs = {'k1': {}}
        if attr_too & 1:
            attrs['z'] = dict(optional=True, default='from_default')
        if attr_too & 2 and obj is not None:
            # the object is the value of an attribute
            attrs['o'] = dict(type=Thing)
        cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))

        def objattrs(v):
            return {'val': v.val, 'z': v.z} if isinstance(v, Thing) else None
        compare(cls, attrs, desc, dict(callback=cb, defaults=dflts, extended=bool(extended), objattrs=objattrs),
                rec, 'src')
        # the sources are looked at each time
        st.callback = None
        st.defaults = {}
        compare(cls, attrs, desc, dict(extended=bool(extended), objattrs=objattrs), rec, 'src')
    else:
        _, n, shape, opt = case
        names = ['k{:02d}'.format(i) for i in range(n)]
        attrs = {k: dict(optional=(opt == 'opt' or (opt == 'alt' and i % 2 == 1))) for i, k in enumerate(names)}
        desc = {}
        for i, k in enumerate(names):
            if shape == 'up':
                desc[k] = '[{}]'.format(names[i + 1]) if i + 1 < n else 'end'
            elif shape == 'down':
                desc[k] = '[{}].'.format(names[i - 1]) if i else 'end'
            elif shape == 'ring':
                desc[k] = '[{}]'.format(names[(i + 1) % n])
            elif shape == 'star':
                desc[k] = ''.join('[{}]'.format(x) for x in names[1:]) if i == 0 else 'v' + k
            elif shape == 'tail':
                # a ring, and an attribute that depends on it
                desc[k] = '[{}]'.format(names[1 if i == 0 else max(1, (i + 1) % n)]) if n > 2 else 'v'
            else:
                desc[k] = 'v' + k
        cls = world.make('K', dict(attr={k: dict(v) for k, v in attrs.items()}))
        compare(cls, attrs, desc, {}, rec, shape)
