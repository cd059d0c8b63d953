"""C18: the file patterns of a description give the matching files, and nothing else."""

import collections
import copy
import itertools
import os
import re
import shutil
import tempfile

from footprints import util
from footprints.stdtypes import FPDict, FPList, FPStr
from mc.core import Violation

ID = 'C18'
RULE = ('for every set of existing files out of an alphabet of names (in a scratch directory), every pattern (literal text, wild '
        'cards, up to two named expressions, nested braces, sub-directory), every value that refers to the matched parts (plain, '
        'repeated, with commas, list, tuple, set, dictionary keyed by the file, protected, unknown reference), every other value '
        'and every order of the keys: the descriptions are compared with a direct filtering of the directory; two patterned values '
        'with distinct names; malformed patterns; up to 130 files')
ASSUMPTIONS = ['no hidden file, no line feed in the names of the files, no [ ] in the literal text of the patterns, no comma in the patterns (the strings are split first)',
               'no reference in a value that is a pattern itself; distinct names of expressions in distinct values',
               'a reference combined with commas is not used with files whose names hold commas']
BOUNDS = dict(quick='64 sets of files x 34 patterns x 21 values x 2 or 6 orders; pairs of patterns; 14 malformed patterns; up to 45 files',
              thorough='256 sets of files x 34 patterns x 21 values x 3 other values x all orders; all pairs of patterns')

FILES = ['f_a_1', 'f_B_2', 'f_ab_12', 'd/f_c_1', 'f_a', 'g1,2', 'f_[glob:n]_3', 'x{2}', 'a+b_1', 'aab_2',
         'f_a_b_c', 'p{q{r}s}t', 'v(1|a)^$.w', 'v1', 'b{1}', 'b-1', 'k{l{m}}2', 'k{l{m{1}}}', 'k{l{m}', 'klm', 's a', 'sa', 's a ', ' s b']
PATTERNS = [
    [('g', 'i', r'\w+')],
    [('t', 'f_'), ('g', 'i', r'[a-z]+'), ('t', '_'), ('g', 'n', r'\d+')],
    [('t', 'f_'), ('g', 'i', r'\w'), ('t', '_'), ('g', 'n', r'\d{2}')],
    [('t', 'f_*_'), ('g', 'n', r'\d{1}')],
    [('t', 'f_?_'), ('g', 'n', r'.+')],
    [('g', 'n', r'.*'), ('t', '_'), ('g', 'i', r'.*')],
    [('t', 'd/'), ('g', 'i', r'.*')],
    [('g', 'i', r'\w'), ('t', '/f_'), ('g', 'n', r'(c|d)'), ('t', '_1')],
    [('t', '*'), ('g', 'i', r'a|ab'), ('t', '_*')],
    [('t', 'x'), ('g', 'i', r'\{2\}')],
    [('t', 'g'), ('g', 'i', r'.*')],
    [('t', 'nothing'), ('g', 'i', r'.*')],
    [('t', 'f_'), ('g', 'n', r'\[glob:n\]'), ('g', 'i', r'_3')],
    [('t', 'f_'), ('g', 'i', r'(?:ab?)'), ('g', 'n', r'(_[12]*)?')],
    [('t', 'f_a'), ('g', 'i', r'')],
    [('t', 'f_'), ('g', 'i', r'.*b'), ('t', '*')],
    [('t', 'f.a_'), ('g', 'i', r'.*')],
    [('t', 'f_?'), ('g', 'i', r'\w+')],
    [('t', 'a+b_'), ('g', 'i', r'\d')],
    [('g', 'i', r'p{q{r}s}t'), ('t', '?')],
    [('g', 'i', r'p{q{r}s}'), ('t', '*')],
    [('t', 'v(1|a)^$.'), ('g', 'i', r'.')],
    [('g', 'n', r'\w{1}'), ('t', '{1}'), ('g', 'i', r'.?')],
    [('t', 'b-'), ('g', 'i', r'\d{1}'), ('t', '')],
    [('t', 'f_*_'), ('g', 'i', r'.*')],
    [('g', 'i', r'\w'), ('t', '/f_c_1')],
    [('g', 'i', r'.*'), ('t', '/?_c_'), ('g', 'n', r'\d'), ('t', '')],
    [('t', '*'), ('g', 'i', r'_.*'), ('t', '*'), ('g', 'n', r'.*')],
    [('g', 'n', r'.*?'), ('t', '_*_'), ('g', 'i', r'.+')],
    [('g', 'i', r'\w+'), ('g', 'n', r'\w*')],
    [('g', 'i', r'k{l{m{1}}}'), ('g', 'n', r'\d*')],
    [('t', 'f_'), ('g', '_p', r'[a-z]+'), ('t', '_'), ('g', 'i2', r'\d+')],
    [('t', 's'), ('g', 'i', r' [ab]'), ('g', 'n', r' ?')],
    [('g', 'i', r'\s.* '), ('g', 'n', r'.')],
]
SECOND = [
    [('t', 'd/f_'), ('g', 'k', r'\w'), ('t', '_1')],
    [('g', 'k', r'[fg]'), ('t', '?'), ('g', 'l', r'.*')],
]
PROTECTED = [FPStr('1,[glob:i]'), FPStr('range(1,3)'), FPList(['[glob:i]']), FPDict(f='[glob:i]')]
HOLDERS = [
    '[glob:i]', '[glob:n][glob:i]-[glob:n]', 'plain', '[glob:zz]', '[glob:i]x,y[glob:n]', ['[glob:i]', 'u'], ('[glob:n]', 3),
    {'[glob:i]'}, [['[glob:i]', 'v'], '[glob:n],w'], None, 12, '@file', '@filelist', '@partly', {'zz': '[glob:i]'}, '[glob:i', 'range(1,2)', '[glob:_p][glob:i2]',
] + PROTECTED[:3]
OTHERS = ['o', ['p', 'q'], '[glob:n]']
MALFORMED = ['{glob:i:a', 'x{glob:i:{2}', '{glob:i:(}', '{glob:i:a}{glob:i:b}', 'f_{glob:i:.*}_{glob:n:.}_{glob:i:}', '{glob:1:a}',
             '{glob:i:*}', '{glob:i:[}', '{glob:i:(?P<j>a)}{glob:j:b}', '{glob:i:a)(b}', '{glob:i:a(?i)b}', '{glob:i:',
             '{glob:i:\\}', 'f{glob:n:\\d}{glob:i:(?P<i>.)}']


def cases(tier):
    deep = tier != 'quick'
    yield ('bad',)
    for n in (12, 40, 130) if deep else (12, 40):
        for p in range(len(PATTERNS)):
            yield ('many', n, p)
    names = FILES[:8] if deep else FILES[:6]
    for n in range(len(names) + 1):
        for subset in itertools.combinations(names, n):
            # The unusual ones go together with a few others
            extra = FILES[len(names):] if len(subset) in (1, 3) else []
            subset = tuple(subset) + tuple(extra)
            for p in range(len(PATTERNS)):
                yield ('one', subset, p, deep)
            yield ('two', subset, deep)


def many(n):
    """Names of many lengths, with numbers that do not sort as they count."""
    out = []
    for i in range(n):
        out.append(['f_a_{}', 'f_{0:03d}', 'f_' + 'b' * (i % 45) + '_{}', 'd/f_c{}_1', 'f_c_{0:02d}', 'A_{}', 'a_b_{}', 'x{{{}}}', 'a+b_{}',
                    'z' * (3 * i % 100) + '_{}', 'f_é_{}', 'f_b{}b_' + 'c' * i][i % 12].format(i))
    return out + ['d/e/f', 'f_x_1', 'f_x_10', 'f_x_2', 'f_x_02']


def text(tokens):
    return ''.join(t[1] if t[0] == 't' else '{glob:' + t[1] + ':' + t[2] + '}' for t in tokens)


def matching(tokens):
    """The existing files that match, with the matched parts."""
    exp = ''
    for t in tokens:
        if t[0] == 't':
            exp += ''.join('[^/]*' if c == '*' else '[^/]' if c == '?' else re.escape(c) for c in t[1])
        else:
            exp += '(?P<{}>{})'.format(t[1], t[2])
    depth = sum(t[1].count('/') for t in tokens if t[0] == 't')
    out = []
    for top, dirs, files in os.walk('.'):
        for name in dirs + files:
            path = os.path.normpath(os.path.join(top, name))
            m = re.fullmatch(exp, path)
            if m and path.count('/') == depth:
                out.append((path, {t[1]: m.group(t[1]) for t in tokens if t[0] == 'g'}))
    return sorted(out)


def leaves(v):
    if type(v).__name__.startswith('FP'):
        return [v]
    if isinstance(v, (list, tuple, set)):
        return [y for x in v for y in leaves(x)]
    if v == 'range(1,2)':
        return [1, 2]
    if isinstance(v, str) and ',' in v:
        return [y for x in v.split(',') for y in leaves(x)]
    return [v]


def refer(v, parts):
    if isinstance(v, str):
        new = re.sub(r'\[glob:(\w+)\]', lambda m: parts.get(m.group(1), m.group(0)), v)
        return type(v)(new)
    return v


def model(desc, patterns):
    """``patterns``: tokens by key ; '@file' stands for a dictionary keyed by the file of ``f``."""
    plain = {k: leaves(v) for k, v in desc.items() if k not in patterns}
    out = []
    for combo in itertools.product(*plain.values()):
        for found in itertools.product(*[matching(p) for p in patterns.values()]):
            parts = {}
            for _, m in found:
                parts.update(m)
            base = {k: f for k, (f, _) in zip(patterns, found)}
            todo = [dict(zip(plain, combo))]
            for d in todo:
                for k, v in d.items():
                    if v == '@file':
                        d[k] = 'is' + base['f'].replace(',', '/') + '[glob:i]'
                    elif v == '@partly':
                        d[k] = '[glob:i]'
                    elif v == '@filelist':
                        d[k] = '[glob:i]'
                        todo.append(dict(d, **{k: 'other'}))
            for d in todo:
                out.append(dict(base, **{k: refer(v, parts) for k, v in d.items()}))
    return out


def real(v, tokens):
    """What is really given for a value of the model."""
    if isinstance(v, str) and v == '@file':
        return {'f': {f: 'is' + f.replace(',', '/') + '[glob:i]' for f, _ in matching(tokens)}}
    if isinstance(v, str) and v == '@partly':
        return {'y': {'[glob:i]': '[glob:i]'}, 'f': {f: '[glob:i]' for f, _ in matching(tokens)}, 'zz': {'x': '[glob:i]'}}
    if isinstance(v, str) and v == '@filelist':
        return {'f': {f: ['[glob:i]', 'other'] for f, _ in matching(tokens)}}
    return copy.deepcopy(v)


def canonical(d):
    """FPStr may stand for a plain string (to prevent any further expansion), but not the opposite."""
    return tuple(sorted((k, 'str' if isinstance(v, str) else type(v).__name__, repr(v)) for k, v in d.items()))


def compare(where, desc, mdesc, patterns, rec):
    rec.op()
    before = repr(desc)
    got = util.expand(desc)
    if repr(desc) != before:
        raise Violation('{}: the description is now {!r}'.format(where, desc))
    numbers = [d.pop('index_expansion') for d in got]
    if sorted(numbers) != list(range(1, len(got) + 1)):
        raise Violation('{}: the descriptions are numbered {!r}'.format(where, numbers))
    want = model(mdesc, patterns)
    cgot, cwant = (collections.Counter(canonical(d) for d in ld) for ld in (got, want))
    if cgot != cwant:
        raise Violation('{} with {!r}: missing {!r}, unexpected {!r}'.format(
            where, sorted(f for _, _, fs in os.walk('.') for f in fs), list(cwant - cgot)[:4], list(cgot - cwant)[:4]))
    for d in got:
        for k, v in mdesc.items():
            if isinstance(v, FPStr) and type(d[k]) is not FPStr:
                raise Violation('{}: {} is not protected any more: {!r}'.format(where, k, d))
    order = [d['f'] for _, d in sorted(zip(numbers, got), key=lambda x: x[0])]
    if len(set(order)) == len(order) and order != sorted(order):
        raise Violation('{}: the files are not sorted: {!r}'.format(where, order))
    rec.outcome(len(got))
    rec.state(sorted(cgot))


def run(case, rec):
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mcglob')
    try:
        os.chdir(tmp)
        if case[0] == 'bad':
            for files in ((), ('fa', 'f1', 'fab')):
                for f in files:
                    open(f, 'w').close()
                for p in MALFORMED:
                    for desc in (dict(f=p), dict(r='[glob:i]', f=p), dict(f=['x', p])):
                        rec.op()
                        try:
                            got = util.expand(desc)
                        except ValueError:
                            continue
                        except Exception as e:
                            raise Violation('expand({!r}): {!r} instead of a ValueError'.format(desc, e))
                        raise Violation('expand({!r}): {!r} instead of a ValueError'.format(desc, got))
            return
        for f in many(case[1]) if case[0] == 'many' else case[1]:
            if '/' in f:
                os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, 'w').close()
        if case[0] == 'many':
            tokens = PATTERNS[case[2]]
            for holder in ('[glob:i]', ['[glob:n]x[glob:i]', 'u'], '@file', FPStr('1,[glob:i]')):
                # Many other keys, and dictionaries that are only partly about the file
                more = {'k{}'.format(i): 'x{}'.format(i) for i in range(case[1])}
                items = dict(more, f=text(tokens), r=real(holder, tokens), z='[glob:i]')
                compare('expand({!r})'.format(items), items, dict(more, f=None, r=holder, z='[glob:i]'), {'f': tokens}, rec)
                for other in OTHERS[:2]:
                    items = {'f': text(tokens), 'r': real(holder, tokens), 'o': copy.deepcopy(other)}
                    compare('expand({!r})'.format(items), items, {'f': None, 'r': holder, 'o': other}, {'f': tokens}, rec)
        elif case[0] == 'one':
            tokens = PATTERNS[case[2]]
            comas = any(',' in f for f, _ in matching(tokens))
            for holder in HOLDERS:
                if comas and ',' in repr(holder) and not isinstance(holder, FPStr):
                    continue
                for i, other in enumerate(OTHERS if case[3] else [OTHERS[case[2] % 3]]):
                    items = [('f', text(tokens)), ('r', real(holder, tokens)), ('o', copy.deepcopy(other))]
                    mdesc = {'f': None, 'r': holder, 'o': other}
                    orders = list(itertools.permutations(items))
                    for items in orders if case[3] else (orders[0], orders[3]):
                        compare('expand({!r})'.format(dict(items)), dict(items), mdesc, {'f': tokens}, rec)
                        if case[3] or i == 0:
                            items = [x for x in items if x[0] != 'o']
                            mdesc2 = {'f': None, 'r': holder}
                            compare('expand({!r})'.format(dict(items)), dict(items), mdesc2, {'f': tokens}, rec)
        else:
            for tokens in PATTERNS if case[2] else PATTERNS[1:6]:
                for second in SECOND:
                    for holder in ('[glob:i]/[glob:k]', ['[glob:l]', '[glob:k][glob:n]'], '[glob:i]', FPStr('[glob:k],[glob:i]')):
                        if any(',' in f or '[' in f for t in (tokens, second) for f, _ in matching(t)):
                            continue
                        items = [('f', text(tokens)), ('g', text(second)), ('r', holder)]
                        for order in itertools.permutations(items):
                            compare('expand({!r})'.format(dict(order)), dict(order), {'f': None, 'g': None, 'r': holder},
                                    {'f': tokens, 'g': second}, rec)
    finally:
        os.chdir(home)
        shutil.rmtree(tmp)
