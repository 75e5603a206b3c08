#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md: rules (from the analyzer) and seeds."""
import json, os, re, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
rules = {}
for l in subprocess.run([os.path.join(root, 'bin/analyzer'), '-rules'], capture_output=True, text=True).stdout.splitlines():
    i, r, e = l.split('\t')
    rules[i] = (r, e)
out = []
for p in props.PROPS:
    out.append('### %s: %s\n' % (p['id'], p['title']))
    if 'na' in p:
        out.append('Not applicable: ' + p['na'] + '\n')
        continue
    r, e = rules[p['id']]
    out.append('*Rule:* ' + r + '\n')
    out.append('*How:* ' + e + ' (' + p['tech'] + ')\n')
    out.append('*Beyond tests:* ' + p['why'] + '\n')
seeds = []
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    seeds.append('* `%s` (%s): %s. Needs %s. Caught by %s.' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m.get('caught', m['property'])))
d = open(os.path.join(root, 'DESIGN.md')).read()
def fill(d, name, text):
    return re.sub('<!-- %s -->.*<!-- /%s -->' % (name, name), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text, name), d, flags=re.S)
d = fill(d, 'rules', '\n'.join(out))
d = fill(d, 'seeds', '\n'.join(seeds))
open(os.path.join(root, 'DESIGN.md'), 'w').write(d)
