"""Write the table of planted bugs at the end of DESIGN.md (all are run with tools/trybugs.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), 'no' if i in missed else 'yes'))
p = here + '/DESIGN.md'
s = open(p).read()
k = s.find('@@TABLE@@') if '@@TABLE@@' in s else s.index('| planted bug |')
open(p, 'w').write(s[:k] + '\n'.join(rows) + '\n')
