"""fill the tables of DESIGN.md from known_findings.json and seeded/*/meta.json (between markers)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, 'DESIGN.md')
s = open(p).read()
F = ''
for x in json.load(open(os.path.join(R, 'known_findings.json'))):
    F += '* ' + (x['what'] if x['status'] == 'fixed' else 'open (known finding): property=%s harness "%s": %s' % (x['property'], x['harness'], x['what'])) + '\n'
T = '| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
c = json.load(open(os.path.join(R, 'tools', 'caught.json'))) if os.path.exists(os.path.join(R, 'tools', 'caught.json')) else {}
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', d, 'meta.json')))
    T += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['needs'], m['what_it_breaks'], c.get(d, m['property']))
for tag, txt in (('FINDINGS', F), ('SEEDS', T)):
    b, e = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if '@@%s@@' % tag in s:
        s = s.replace('@@%s@@' % tag, b + '\n' + e)
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + '\n' + txt + s[j:]
open(p, 'w').write(s)
