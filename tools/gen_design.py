#!/usr/bin/env python3
"""Write DESIGN.md: the text below, then one section per property made from properties.jsonl, the
check modules, known_findings.txt and the planted bugs (seeded/*/meta.json)."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()

# What the oracle is, what it rests on, and why enumeration reaches what the tests do not
NOTES = {
    'C01': "Oracle: `mc/ref.py` (acceptance of one value: remap chain, conversion, outcast, values), written from the documentation, "
           "without any code of the package. Every class of the product is really defined and really loaded.",
    'C02': "Oracle: the order of precedence, as a list of candidates, first one present wins (`mc/ref.py`, `guess`).",
    'C03': "Oracle: a recursive evaluation of the templates that has no notion of passes or of processing order; hence any "
           "dependence of the real multi-pass algorithm on the order of the attributes shows up as a difference between two renamings "
           "of the same system. Termination is part of the check (time limit by case).",
    'C04': "Oracle: direct evaluation of each clause on the values known to the user (attributes, then description, then defaults).",
    'C05': "Oracle: a class matches or not by itself (C01-C04 model); the collector must return exactly the union.",
    'C06': "Oracle: maximum of (rank of the level, number of attributes really given) computed by the model.",
    'C07': "Oracle: the model of C05, which knows nothing about the index. The histories exist because the index is built incrementally "
           "by add, discard, clear, pop and the change of the key set.",
    'C08': "Oracle: the description before, plus the object under the tag, minus what the class takes; compared by identity.",
    'C09': "Oracle: a model of the live objects by collector (set of ids); the references are dropped for real, so the weak tracking of "
           "the package is really exercised.",
    'C10': "Oracle: a dictionary per object, with the accept function of C01 for the writes.",
    'C11': "Oracle: a merge function on plain dictionaries written from the statement; everything reachable from a footprint is walked "
           "for aliasing: after a change of one, all the others must be as before.",
    'C12': "Oracle: an ordered Python list.",
    'C13': "Oracle: the list of levels (C12) and, per class, the level; the selection is computed from both.",
    'C14': "Oracle: the rule for the enrolment, written from the statement; also everything that must not happen on a refused definition.",
    'C15': "Oracle: the reasons computed by the model of the resolution, in every reporting mode, and the same outcome in all of them.",
    'C16': "Oracle: a list of entries; the views are computed from it.",
    'C17': "Oracle: the cartesian product computed with itertools, from the innermost.",
    'C18': "Oracle: os.listdir and a hand written matcher of the patterns of the alphabet. Real files in a scratch directory.",
    'C19': "Oracle: the builtin type itself, in lockstep.",
    'C20': "Oracle: a typed snapshot of each object.",
    'C21': "Oracle: a dictionary of tags.",
    'C22': "Oracle: the description of the footprint; the docstring is parsed leniently.",
    'C23': "Oracle: the outcome of the same lookup in a fresh world (differential), no model of the resolution is needed.",
    'C24': "Oracle: a tree built from the entries by plain dictionaries; the printed text is parsed.",
    'C25': "Oracle: the declarations of the classes defined by the history.",
    'C26': "Oracle: the model of C01-C04, and the relation between two resolutions of the same class.",
    'C27': "Oracle: a dictionary per setup.",
    'C28': "Oracle: a dictionary of the members expected.",
}


def module(pid):
    d = {}
    for n in ast.parse(open(os.path.join(V, 'mc', 'checks', pid.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'BOUNDS'):
            if isinstance(n.value, ast.Call):
                d[n.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
            else:
                d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


fixed, seeds = {}, {}
for line in open(os.path.join(V, 'known_findings.txt')):
    if line.startswith('fixed:'):
        pid, rest = line[len('fixed: property='):].strip().split(' ', 1)
        fixed.setdefault(pid, []).append(rest)
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
try:
    COST = json.load(open(os.path.join(V, 'tools', 'costs.json')))
except OSError:
    COST = {}
MISSED = set(COST.get('missed', []))

out = [HEAD.rstrip(), '', '## The properties', '']
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    m = module(pid)
    out += ['### {} {}'.format(pid, p['title']), '', p['statement'], '',
            '- *Explored*: ' + m['RULE'] + '.',
            '- *Bounds*: quick: {quick}. Thorough: {thorough}.'.format(**m['BOUNDS']),
            '- ' + NOTES.get(pid, '').replace('Oracle:', '*Oracle*:'),
            '- *Assumptions*: ' + '; '.join(m['ASSUMPTIONS']) + '.',
            '- *Beyond tests*: ' + p['why_tests_cant']]
    c = COST.get(pid)
    if c:
        out.append('- *Cost*: ' + c)
    for x in fixed.get(pid, []):
        out.append('- *Repaired*: ' + x)
    for x in seeds.get(pid, []):
        out.append('- *Planted*, {}: `{}` ({})'.format('MISSED' if x[0] in MISSED else 'caught', x[0], x[2]))
    out.append('')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
