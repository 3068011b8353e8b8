#!/usr/bin/env python3
"""DESIGN.md = meta/design.in with the lists taken from the other files"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/meta/design.in').read()
ex = ''
M = json.load(open(R + '/MANIFEST.json'))
na = ''.join('* **%s** %s\n' % (x['property'], x.get('reason', '')) for x in M['not_applicable'])
fx = ''.join('* %s\n' % re.sub('^fixed: ', '', x['what']) for x in json.load(open(R + '/known_findings.json')))
sd = ''
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    sd += '* `%s` (%s): %s\n' % (d, m['property'], m['what_it_breaks'])
for k, v in (('NA', na), ('FIX', fx), ('SEEDS', sd)):
    s = s.replace('@@%s@@' % k, v)
open(R + '/DESIGN.md', 'w').write(s.replace('@@EXTRA@@\n\n', ''))
