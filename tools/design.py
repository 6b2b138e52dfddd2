"""Assembles DESIGN.md from tools/design/ and the contracts."""
import ast
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, 'tools', 'design')
SPEC = {}
exec(open(os.path.join(d, '2_properties.py')).read())
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
out = [open(os.path.join(d, '1_method.md')).read().rstrip(), '']
for p in props:
    s = open(os.path.join(here, 'contracts', p['id'].lower() + '.py')).read()
    m = re.search(r"^NOTE = '''(.*?)'''", s, re.M | re.S)
    note = ' '.join(m.group(1).split()) if m else ''
    a = ast.literal_eval(re.search(r"^ASSUME = (\[.*?^\])", s, re.M | re.S).group(1))
    t = re.findall(r"^@target\(\s*'([^']+)'(.*)$", s, re.M)
    b = [(n, re.search(r"bounded='([^']*)'", r).group(1)) for n, r in t if 'bounded=' in r]
    cases = re.findall(r"^\s+'?(\w+)'?\s*[:=]\s*\(", re.search(r'^CASES = (.*)', open(os.path.join(here, 'rac', p['id'].lower() + '.py')).read(),
                                                             re.M | re.S).group(1), re.M)
    out += [f"### {p['id']} {p['title']}", '', f"Specified: {SPEC[p['id']]}", '']
    if note:
        out += [f'Scope: {note}', '']
    out += [f"Targets ({len(t)}): " + ', '.join(n for n, _ in t) + '.']
    if b:
        out += ['Bounded, not counted as proved: ' + '; '.join(f'{n} ({x})' for n, x in b) + '.']
    out += ['Assumed: ' + '; '.join(a) + '.', '']
for f in sorted(os.listdir(d)):
    if f[0] in '3456789':
        out += [open(os.path.join(d, f)).read().rstrip(), '']
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)), 'characters')
