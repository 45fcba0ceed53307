"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(here + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (here, name)))
    rows.append('| %s | %s | %s |' % (name, meta['property'], meta['needs'].replace('|', '\\|')))
text = open(here + '/DESIGN.md').read()
head = '| bug | property | needs |\n|---|---|---|\n'
start = text.index(head) + len(head)
end = text.index('\n\n', start)
open(here + '/DESIGN.md', 'w').write(text[:start] + '\n'.join(rows) + text[end:])
