#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: harnesses and bounds per property, seeds, findings."""
import glob, json, os, re
d = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(d)
ps = {}
exec(open(os.path.join(d, 'props.py')).read())
H = {}
for f in sorted(glob.glob(os.path.join(v, 'harness', '**', '*.go'), recursive=True)):
    s = open(f).read()
    consts = re.findall(r'^// @const \S+ (\S+)', s, re.M)
    pts = re.findall(r'^// @points (.*)$', s, re.M)
    for m in re.finditer(r'((?:^//.*\n)+)func (Verif\w+)', s, re.M):
        c = m.group(1)
        prop = re.search(r'@prop (\S+)', c)
        if not prop: continue
        doc = re.search(r'// %s:? *(.*)' % m.group(2), c)
        H.setdefault(prop.group(1), []).append((m.group(2), os.path.relpath(f, v), doc.group(1) if doc else '',
            ' '.join(re.findall(r'// @bound (.*)', c)), re.findall(r'// @note (.*)', c), consts, pts))
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    out.append('### %s: %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p.get('na'):
        out.append('Not applicable: %s\n' % p['na']); continue
    out.append('Why tests cannot settle it: %s\n' % p['why_tests_cant'])
    for n, f, doc, b, notes, consts, pts in H.get(p['id'], []):
        l = '- `%s` (%s): %s' % (n, f, doc)
        if b: l += ' Bounds: %s.' % b
        if consts: l += ' Constants made small: %s.' % ', '.join(consts)
        for x in notes: l += ' Note: %s.' % x.rstrip('.')
        out.append(l)
    out.append('')
seeds = ['| change | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(v, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
find = ['- ' + l.strip() for l in open(os.path.join(v, 'KNOWN_FINDINGS.txt')) if l.startswith(('finding', 'fixed'))]
s = open(os.path.join(v, 'DESIGN.md')).read()
for name, body in (('properties', out), ('seeds', seeds), ('findings', find)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + '\n'.join(body) + '\n' + m.group(2), s, flags=re.S)
open(os.path.join(v, 'DESIGN.md'), 'w').write(s)
