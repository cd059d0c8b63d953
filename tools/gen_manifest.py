#!/usr/bin/env python3
"""Generate MANIFEST.json from properties.jsonl and the check modules."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'input': 'bounded exhaustive enumeration of configurations and inputs on the real code against a reference model',
    'hist': 'explicit exploration of every operation sequence up to a depth on the real code against a reference model',
}
HIST = {'C07', 'C09', 'C10', 'C12', 'C13', 'C15', 'C16', 'C20', 'C21', 'C23', 'C25', 'C27'}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(V, 'mc', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=pid, reason='check under construction'))
        continue
    src = open(path).read()
    m = re.search(r'BOUNDS = dict\((.*?)\)\n\n', src, re.S)
    bounds = re.sub(r"'\s*\n?\s*'", '', m.group(1)).replace('\n', ' ') if m else ''
    bounds = re.sub(r'\s+', ' ', bounds)
    checks.append(dict(
        property=pid, quick_cmd='./check {} quick'.format(pid), thorough_cmd='./check {} thorough'.format(pid),
        evidence_file='evidence/{}.json'.format(pid), technique=TECH['hist' if pid in HIST else 'input'],
        level='model_checking',
        level_note='Exhaustive within stated bounds, every execution runs the real code and is compared step by step '
                   'with an independent model written in Python (mc/ref.py and the check module), which is trusted. '
                   'Bounds: ' + bounds))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hook in /repo: the checks only use the public interface of the package. The commits of /repo '
                     'are repairs ("fix:"), listed in known_findings.txt.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
