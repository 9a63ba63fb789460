"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and seeded-notes.json."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, 'tools', 'seeded-notes.json')))
rows = ['<!-- seeded -->', '| change | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
	i = d.split('/')[-2]
	m = json.load(open(d))
	rows.append(f"| {i} | {m['needs']} | {notes.get(i, m['property'])} |")
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
t = re.split(r'SEEDED_TABLE|<!-- seeded -->', t)[0] + '\n'.join(rows) + '\n<!-- end -->\n'
open(p, 'w').write(t + '''
Changes written but not kept, because one of the stable tests breaks under them (the first one and C15-view-update: no
working demonstration):
C19-bisect-mixed (its demonstration could not tell it apart), C01-swap-shifts, C03-reverse-table, C07-symmetry-loose,
C15-scalar-cache, C18-degenerate-root, C20-rotor-grades, C22-early-exit, C02-contract-scalars, C07-commutator-loose,
C08-fuse-third, C10-mask-floor, C15-view-update, C19-exp-branch, C20-split-unit, C05-key-sums, C17-shirokov-cap.
''')
