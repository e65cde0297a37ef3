#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from design.in.md, props.py, known_findings.txt and seeded/."""
import glob, json, os
import props
HERE = os.path.dirname(os.path.abspath(__file__))
def main():
    t = open(HERE + '/design.in.md').read(); nas = dict(props.NA); o = ''
    for p in sorted(props.P, key=lambda p: p['id']):
        if p['id'] in nas: continue
        o += '**%s — %s.** %s\n\n' % (p['id'], p['title'], props.HOW[p['id']])
    n = ''.join('* **%s — %s.** %s\n' % (i, next(p['title'] for p in props.P if p['id'] == i), r) for i, r in props.NA)
    s = '| change | property | needs | caught by |\n|---|---|---|---|\n'
    for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        m = json.load(open(d)); i = d.split('/')[-2]; s += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], props.CAUGHT.get(i, m['property']))
    open(HERE + '/DESIGN.md', 'w').write(t.replace('@@PROPS@@', o.strip()).replace('@@NA@@', n.strip()).replace('@@SEEDS@@', s.strip()))
if __name__ == '__main__': main()
