#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/*.py (META) and properties.jsonl."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True

NA = {
    'N01': 'Relates normalised characters to the original input through run-time offset tables that ICU operations of unknown alignment update; no static bound on that relation is in reach, and the library is known to misalign offsets after length-changing normalisations (see DESIGN.md).',
    'N02': 'Round-tripping depends on the vocabulary contents and on every stage of the pipeline over all texts; no static argument in reach bounds it (the byte alphabet both ends share is C12).',
    'N03': 'The oracle is an external implementation that is not available here, over all run-time inputs.',
    'N04': 'Which occurrences are recognised depends on run-time text; the present matcher recognises tokens at white-space boundaries only, by design.',
    'N05': 'Amortised running time depends on library containers and run-time sizes; no static cost bound is in reach (termination is C27).',
    'N06': 'The library makes no claim of thread safety: BPE keeps an unsynchronised memo table, so the property does not hold by design.',
}
TODO = 'No check is registered yet.'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    f = os.path.join(V, 'checks', pid.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module(pid.lower()).META
        c = {'property': pid, 'technique': m['technique'], 'level': m['level'], 'level_note': m.get('note', m.get('explanation', '')),
             'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid}
        checks.append(c)
    else:
        na.append({'property': pid, 'reason': NA.get(pid, TODO)})
d = {'version': 1, 'setup_cmd': 'bash tools/build_exporter.sh', 'checks': checks, 'not_applicable': na}
json.dump(d, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
