import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for s in e['coverage']['stages']: print(s['scenario'],s['mode'],s.get('completed_bound'),s['complete'],s['executions'],'out',s['outcomes'],'steps',s.get('max_steps'),s['wall_s'])
