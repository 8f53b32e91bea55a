"""rewrite the table of planted bugs in DESIGN.md and the number of repaired defects"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
t = ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
s = open(V + '/DESIGN.md').read()
h = '| property | change | what it breaks | needs |\n|---|---|---|---|\n'
s = re.sub(re.escape(h) + r'(\|.*\n)*', lambda _: h + t, s)
n = sum(l.startswith('fixed') for l in open(V + '/KNOWN_FINDINGS.txt'))
s = re.sub(r'\d+ were repaired', '%d were repaired' % n, s)
open(V + '/DESIGN.md', 'w').write(s)
