#!/usr/bin/env python3
import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from props import PROPS
titles={}
for l in open(H+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
NA={
 'N01':'A pure function of one string: no schedule, clock, I/O, fault or second party takes part, so simulation has nothing to schedule or break; fuzzing or proof is the right family.',
 'N02':'Hash verification is a pure function of its inputs; simulation only covers that its verdict gates every path (C14).',
 'N03':'Parsing one option is a pure function of the configuration text; simulation covers what a load or reload does (C23), not the meaning of each of the options.',
 'N04':'Reading old file formats is a pure function of the file bytes; no example writers of the old formats exist in the tree, and simulation adds nothing to comparing decoded fields.'}
checks=[]
for p,v in sorted(PROPS.items()):
    checks.append({'property':p,'quick_cmd':'python3 check.py %s'%p,'thorough_cmd':'python3 check.py %s --tier thorough'%p,
      'technique':v.get('technique','deterministic simulation with fault injection: seeded search over thread schedules, network behaviour and faults, judged by an executable reference model'),
      'level':v.get('level','exploration'),'level_note':v.get('note','Randomised search over simulated executions of the real broker; finds violations, does not prove absence.')})
na=[{'property':p,'reason':NA.get(p,'No check is claimed for it (yet).')} for p in sorted(titles) if p not in PROPS]
m={'version':1,'setup_cmd':'python3 sim/build.py','checks':checks,'not_applicable':na,'notes':'No hooks in /repo: every seam is at the system-call, libc and pthread boundary (the broker is linked into shared libraries whose imports the simulator provides). See DESIGN.md.'}
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'not applicable')
