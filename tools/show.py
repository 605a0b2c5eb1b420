#!/usr/bin/env python3
"""print the spaces of evidence files: show.py C01 ..."""
import json, sys
for i in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % i))
    print(i, d['tier'], d['wall_s'], 's violations', d['violations'], 'exhaustive', d['coverage']['exhaustive'])
    for s in d['coverage']['spaces']:
        print('   %-40s %9d cases %9d nodes %6.1f s %s' % (s['name'], s['cases'], s['choice_nodes'], s['seconds'], ('' if s['complete'] else 'INCOMPLETE ') + ('%d outside' % s['outside_model_bounds'] if s.get('outside_model_bounds') else '')))
