"""python3-vt tools/mkdesign.py: DESIGN.md = tools/design.md.in with the per-property part generated from the contract registry,
the executable contracts, levels.json, known-findings.json and tools/catches.json"""
import sys, json, glob, importlib, re, os
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from vc import api
for f in sorted(glob.glob('/verif/contracts/c*.py')):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])
cons = api.CONTRACTS
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
levels = json.load(open('/verif/levels.json'))
notes = json.load(open('/verif/tools/notes.json'))
find = json.load(open('/verif/known-findings.json'))['findings']
out = ['## Properties\n']
for p in props:
    i = p['id']
    L = levels[i]
    out.append(f"### {i} {p['title']} ({L['level']})\n")
    mine = [c for c in cons if c.prop == i]
    if i == 'C24':
        own = {}
        for c in mine:
            m = re.match(r'frame of (C\d\d)', c.name)
            own.setdefault(m.group(1) if m else '-', 0)
            own[m.group(1) if m else '-'] += 1
        out.append('Contracts: the frame condition `unchanged()` of every contract of ' + ', '.join(f'{k} ({v})' for k, v in sorted(own.items()))
                   + ', verified in *frame only* mode (every path is executed, every other postcondition left to its own property).\n')
    elif mine:
        out.append('Contracts (unbounded):\n')
        for c in mine:
            fn = ', '.join('`' + f + '`' for f in c.functions)
            out.append(f'- {c.name}' + (f' ({fn})' if fn else ''))
        out.append('')
        a = sorted({x for c in mine for x in c.assumptions})
        if a:
            out.append('Assumed: ' + '; '.join(a) + '.\n')
    src = open(f'/verif/rt/{i.lower()}.py').read()
    ch = re.findall(r"@check\('" + i + r"'[^\n]*\)\s*\ndef (\w+)", src)
    out.append('Executable contracts (bounded; seeded inputs of the real code): ' + ', '.join(f'`{x}`' for x in ch) + '.\n')
    if L.get('bounded') and mine:
        out.append('Only bounded: ' + L['bounded'] + '.\n')
    if notes.get(i):
        out.append(notes[i] + '\n')
    for f in find:
        if f['property'] == i:
            out.append('- ' + (f['what'] if f['status'] == 'fixed' else 'KNOWN FINDING: ' + f['what']))
    out.append('')
s = open('/verif/tools/design.md.in').read()
seeds = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.append((os.path.basename(os.path.dirname(d)), m))
cat = json.load(open('/verif/tools/catches.json'))
t = ['| seeded change | property | needs | caught by |', '|---|---|---|---|']
for n, m in seeds:
    t.append(f"| {n} | {m['property']} | {m['needs']} | {cat.get(n, '?')} |")
s = s.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(t))
open('/verif/DESIGN.md', 'w').write(s)
