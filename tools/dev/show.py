import json,sys
M={m['id']:m for m in json.load(open('/tmp/mut/muts.json'))}
n=0;a=0;seen=set()
skip=set(open('/tmp/mut/seen.txt').read().split()) if len(sys.argv)>1 else set()
for l in open('/tmp/mut/stage2.jsonl'):
    r=json.loads(l);m=M[r['id']];n+=1
    if r['by']: continue
    a+=1
    if r['id'] in skip: continue
    print(r['id'],m['file'],m['line'],m['func'],m['kind'],repr(m['old'][:60]),'->',repr(m['new'][:80]),','.join(x[0]+('' if x[1]==0 else '!'+str(x[1])) for x in r['tried']),r['t'])
    seen.add(r['id'])
print(n,'done',a,'alive')
open('/tmp/mut/seen.txt','a').write(' '.join(seen)+'\n')
