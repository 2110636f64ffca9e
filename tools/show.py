#!/usr/bin/env python3
import json,sys
for p in sys.argv[1:]:
    for s in json.load(open('/verif/evidence/%s.json'%p))['coverage']['scenarios']:
        print(p,s['build'],s['scenario'],'ex',s['executions'],'ev',s['evaluations'],'tr',s['transitions'],'st',s['states'],'out',s['distinct_outcomes'],'%.1fs'%s['seconds'],'' if s['complete'] else 'INCOMPLETE',s['result'][:300])
