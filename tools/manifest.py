#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        checks.append({
            'property': i, 'quick_cmd': './check ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring: the sanitizer-built decoder is '
                                 'run on generated broadcasts and a trace checker compares every '
                                 'printed record with an independent reference decoder'),
            'level': 'exploration',
            'level_note': getattr(m, 'NOTE', 'Holds on every execution explored (seeded, generated '
                                  'workloads; see evidence). Trusts the reference decoder rv/model.py, '
                                  'rv/sync.py and the table snapshot data/tables.json; the binary is '
                                  "built from /repo's working tree with ASan and UBSan, every report "
                                  'fatal.')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -B -m rv.build asan plain fuzz',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every monitor observes the unmodified program from outside '
                    '(standard streams, sanitizer reports, valgrind, an LD_PRELOAD clock). /repo '
                    'carries only fix: commits, listed in known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
