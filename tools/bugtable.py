"""writes the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two markers)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(f'{HERE}/seeded')):
	meta = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
	by.setdefault(meta['property'], []).append(f"{d[4:] if d.startswith(meta['property'].lower()) else d}")
lines = ['| caught by | planted bugs (`seeded/<property in lower case>-<name>`) |', '|---|---|']
for p in sorted(by):
	lines.append(f"| {p} | {', '.join(by[p])} |")
path = f'{HERE}/DESIGN.md'
text = open(path).read()
a, b = text.index('<!-- bugs -->'), text.index('<!-- end of bugs -->')
open(path, 'w').write(text[:a] + '<!-- bugs -->\n' + '\n'.join(lines) + '\n' + text[b:])
print(sum(map(len, by.values())))
