import json,os,subprocess,sys,threading,queue,glob,time
V='/tmp/mut/vcopy'
M={m['id']:m for m in json.load(open('/tmp/mut/muts.json'))}
alive=[json.loads(l)['id'] for l in open('/tmp/mut/stage1.jsonl') if json.loads(l)['r']=='alive']
LOG='/tmp/mut/stage2.jsonl'
done=set(json.loads(l)['id'] for l in open(LOG)) if os.path.exists(LOG) else set()
if len(sys.argv)>2 and sys.argv[2]=='retry': pass
cov={};cost={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
anch={p['id']:set(p['anchors']['files']) for p in props}
for f in glob.glob(V+'/evidence/*.json'):
    e=json.load(open(f));p=e.get('property') or os.path.basename(f)[:-5]
    cov[p]=set(e['coverage']['functions_encoded_of_water']);cost[p]=e.get('wall_s',0) or sum(h.get('wall_s',0) for h in e['coverage']['harnesses'])
def key(m):
    pkg='github.com/meilihao/water'+('/binding' if m['file'].startswith('binding/') else '')
    fn=m['func']
    if '.' in fn:
        t,n=fn.split('.',1); return {'(*%s.%s).%s'%(pkg,t,n),'(%s.%s).%s'%(pkg,t,n)}
    return {pkg+'.'+fn}
def cand(m):
    ks=key(m);l=[]
    for p,c in cov.items():
        hit=any(k in c or any(x.startswith(k+'$') for x in c) for k in ks)
        if hit: l.append((0 if m['file'] in anch.get(p,()) else 1,len(c),cost[p],p))
    l.sort()
    a=[x[3] for x in l if x[0]==0]; b=[x[3] for x in l if x[0]==1]
    return (a[:7]+b[:2])
q=queue.Queue()
for i in alive:
    m=M[i]
    if m['kind']=='negate' or m['kind']=='op' and m['old'] in('==','!='): continue
    if 'bad' in m: continue
    if i not in done and m['kind'] not in('str','strfn') and not m['func'] in ('Engine.log','colorForStatus'): q.put(i)
import random
L=[]
while not q.empty(): L.append(q.get())
random.Random(3).shuffle(L)
[q.put(i) for i in L]
lk=threading.Lock();lf=open(LOG,'a')
def work(k):
    w='/tmp/mut/x%d'%k
    subprocess.run(['rm','-rf',w]);subprocess.run(['git','clone','-q','/repo',w],check=True)
    while True:
        try:i=q.get_nowait()
        except queue.Empty:break
        m=M[i];p=w+'/'+m['file'];src=open(p,'rb').read()
        assert src[m['off']:m['end']].decode()==m['old'],m
        open(p,'wb').write(src[:m['off']]+m['new'].encode()+src[m['end']:])
        r={'id':i,'by':None,'tried':[],'t':0}
        t=time.time()
        for c in cand(m):
            try:
                x=subprocess.run([V+'/engine/gosym','-prop',c,'-noev','-j','2','-budget','40'],capture_output=True,text=True,cwd=V,timeout=200,env=dict(os.environ,GOSYM_REPO=w,GOSYM_VERIF=V,GOSYM_FIRST='1',GOSYM_MEM='3',GOMAXPROCS='3'))
                rc=x.returncode
            except subprocess.TimeoutExpired: rc='to'
            r['tried'].append([c,rc])
            if rc==1: r['by']=c;break
        r['t']=round(time.time()-t)
        open(p,'wb').write(src)
        with lk: lf.write(json.dumps(r)+'\n');lf.flush()
    subprocess.run(['rm','-rf',w])
ts=[threading.Thread(target=work,args=(k,)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts];[t.join() for t in ts]
