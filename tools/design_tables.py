#!/usr/bin/env python3
# Prints the two generated tables of DESIGN.md (generators and case counts from the harnesses, planted bugs from seeded/)
# between the markers in DESIGN.md.
import re, os, json, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {d['id']: d['title'] for d in map(json.loads, open(R + '/properties.jsonl'))}
t = ['| id | quick / thorough cases | what is generated, and which cases count as non-trivial |', '|---|---|---|']
for f in sorted(glob.glob(R + '/props/C*.cpp')):
    s = open(f).read()
    m = re.search(r'SPEC = \{"(C\d\d)",\s*((?:"(?:[^"\\]|\\.)*"\s*)+),\s*(\d+), (\d+), (\d+)', s)
    rule = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))).strip()
    rule = rule.replace('|', '/').replace('non-trivial:', '**non-trivial:**')
    t.append(f'| {m.group(1)} {titles[m.group(1)]} | {int(m.group(3)):,} / {int(m.group(4)):,} (1/{m.group(5)} more under sanitizers) | {rule} |')
b = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    b.append(f"| {i} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |".replace('\n', ' '))
p = R + '/DESIGN.md'
s = open(p).read()
for name, rows in (('cases', t), ('planted', b)):
    a, z = f'<!-- {name} -->\n', f'<!-- /{name} -->'
    i, j = s.index(a) + len(a), s.index(z)
    s = s[:i] + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
