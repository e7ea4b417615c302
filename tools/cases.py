import json,sys
j=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for c in j['coverage']['cases']: print({k:c[k] for k in c if k in('case','complete','paths','wall','solver_seconds','queries','assertions')})
