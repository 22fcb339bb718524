"""The slowest scenarios of the last run of a check."""
import json
import sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
rows = d['coverage']['scenarios']
for r in sorted(rows, key=lambda r: -r['wall_s'])[:int(
        sys.argv[2]) if len(sys.argv) > 2 else 15]:
    print('%7.1f s  %6d paths %7d queries  %6.1f solver %s %s' % (
        r['wall_s'], r['paths'], r['queries'], r['solver_s'], r['name'],
        '' if r['complete'] else 'INCOMPLETE'))
