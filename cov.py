#!/usr/bin/env python3
"""Prints a summary of evidence files: cov.py C01 C02 ..."""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % p)); c = e['coverage']
    print(p, 'evaluations', c['evaluations'], 'nontrivial', c['distinct_nontrivial'], 'wall', e['wall_s'], 'violations', e.get('violations'))
    for n, a in c['parts'].items():
        print('  ', n, a['evaluations'], a['distinct_nontrivial'], 'outside', a['outside_domain'], 'skipped', a['skipped_by_deadline'], a['labels'])
