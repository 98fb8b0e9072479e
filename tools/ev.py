import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
c=d['coverage']
for k,v in sorted(c['tasks'].items(), key=lambda x:-x[1]['cpu_s']): print('%-40s cases %8d cmp %11d cpu %7.1f %s'%(k,v['cases'],v['comparisons'],v['cpu_s'],'CAPPED' if v['capped'] else ''))
