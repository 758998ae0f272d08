import json,glob,collections,sys
c=collections.Counter(); ex={}
for f in glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1]):
    d=json.load(open(f)); r=d['replay']
    e=r['events'][-1] if 'events' in r else r
    o=e.get('obs',{}) if isinstance(e,dict) else {}
    k=(d['key'], (str(o.get('err','')) if isinstance(o,dict) else str(e.get('exc','')))[:150])
    c[k]+=1; ex.setdefault(k,f)
for k,v in c.most_common(8): print(v,k,ex[k])
