"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ['<!-- seeds -->', '| seed | property (check) | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
rows.append('<!-- /seeds -->')
p = '/verif/DESIGN.md'
t = open(p).read()
t = t.replace('SEEDTABLE', '<!-- seeds --><!-- /seeds -->', 1)
t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '\n'.join(rows), t, flags=re.S)
open(p, 'w').write(t)
