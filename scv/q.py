# q.py tu pattern : list records/functions matching
import json,sys,re
d=json.load(open('/tmp/w/%s.json'%sys.argv[1]))
T=d['types']
pat=re.compile(sys.argv[2])
for r,v in d['records'].items():
    if pat.search(r): print('REC',r,[ (f['n'],T[f['t']]['s'][:60]) for f in v['fields']],[T[b]['s'] for b in v['bases']])
for k,v in d['fdecls'].items():
    if pat.search(v['q']): print('FN',v['q'],[T[i]['s'][:50] for i in v['p']],'->',T[v['r']]['s'][:40], 'BODY' if any(f['key']==k and 'body' in f for f in d['functions']) else '', v.get('a') and [ (T[a['t']]['s'] if 't' in a else a) for a in v['a']])
