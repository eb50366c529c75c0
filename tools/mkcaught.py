"""Fills the table of planted bugs into DESIGN.md (a tool for the author; no check uses it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = json.load(open(os.path.join(V, 'tools', 'missed_first.json')))
path = os.path.join(V, 'DESIGN.md')
text = open(path).read()
head = text.split('<!-- caught -->')[0]
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    state = 'MISSED' if AFTER.get(d) == 'missed' else 'caught by {}{}'.format(m['property'], ' (after)' if d in AFTER else '')
    rows.append((m['property'], '| {} | {} | {} | {} |'.format(m['property'], d, m['what_it_breaks'].replace('|', '/'), state)))
out = ['<!-- caught -->', '{} planted bugs.'.format(len(rows)), '', '| property | bug | what it breaks | result |', '|---|---|---|---|']
out += [r for _, r in sorted(rows)]
out += ['', 'Strengthened after a miss:', '']
out += ['* `{}`: {}'.format(k, v) for k, v in sorted(AFTER.items()) if v != 'missed']
open(path, 'w').write(head + '\n'.join(out) + '\n')
