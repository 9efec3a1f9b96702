"""Rewrite the planted-bugs table of DESIGN.md (between its two markers) from seeded/*/meta.json. No check uses this."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- bugs:begin -->\n', '<!-- bugs:end -->\n'
rows = ['| change | caught by | what it breaks | what it needs |\n', '|---|---|---|---|\n']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n")
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    s = f.read()
a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
with open(path, 'w') as f:
    f.write(s[:a] + ''.join(rows) + s[b:])
