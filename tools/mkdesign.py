"""Rebuilds the part of DESIGN.md after the table of properties: tools/design_tail.md and the table of planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V+'/DESIGN.md').read()
head = s.split('\n## Per property:')[0].rstrip('\n')+'\n'
tail = open(V+'/tools/design_tail.md').read()
caught = {}
if os.path.exists(V+'/tools/caught.txt'):
    for l in open(V+'/tools/caught.txt'):
        k, _, v = l.strip().partition(' ')
        caught[k] = v
t = '\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V+'/seeded')):
    m = json.load(open(V+'/seeded/'+d+'/meta.json'))
    t += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'], caught.get(d, m['property']))
open(V+'/DESIGN.md', 'w').write(head+tail+t)
