"""Insert the table of planted bugs into DESIGN.md (development tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
missed = json.load(open(V + '/tools/missed.json')) \
    if os.path.exists(V + '/tools/missed.json') else []
for i in sorted(os.listdir(V + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s |' % (
        i, 'MISSED (%s)' % d['property'] if i in missed else d['property'],
        d['needs'].replace('|', '/').replace('\n', ' ')))
s = open(V + '/DESIGN.md').read()
if 'CATCHTABLE' in s:
    s = s.replace('CATCHTABLE', '<!-- table -->\n<!-- end -->')
a, b = s.split('<!-- table -->')[0], s.split('<!-- end -->')[1]
open(V + '/DESIGN.md', 'w').write(
    a + '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->' + b)
