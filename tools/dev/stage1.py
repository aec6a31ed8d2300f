import json,os,subprocess,sys,threading,queue,shutil
M=json.load(open('/tmp/mut/muts.json'))
STABLE=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",GOWORK="off",GOSUMDB="off",GOMAXPROCS="2")
done={}
LOG='/tmp/mut/stage1.jsonl'
if os.path.exists(LOG):
    for l in open(LOG):
        e=json.loads(l);done[e['id']]=e['r']
q=queue.Queue()
for m in M:
    if m['id'] not in done and not m['file'].startswith('benchmark'): q.put(m)
lk=threading.Lock();lf=open(LOG,'a')
def tests(cwd):
    try: r=subprocess.run(["go","test","-json","-vet=off","-count=1","-timeout","20s","./..."],cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=60)
    except subprocess.TimeoutExpired: return ['timeout']
    ok=set()
    for l in r.stdout.splitlines():
        try:e=json.loads(l)
        except ValueError: continue
        if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
    return sorted(STABLE-ok)
def work(k):
    w='/tmp/mut/w%d'%k
    subprocess.run(['rm','-rf',w]);subprocess.run(['git','clone','-q','/repo',w],check=True)
    while True:
        try:m=q.get_nowait()
        except queue.Empty:break
        p=w+'/'+m['file'];src=open(p,'rb').read()
        open(p,'wb').write(src[:m['off']]+m['new'].encode()+src[m['end']:])
        b=subprocess.run(['go','build','./...'],cwd=w,env=ENV,capture_output=True)
        if b.returncode:r='nobuild'
        else:r='killed' if tests(w) else 'alive'
        open(p,'wb').write(src)
        with lk: lf.write(json.dumps({'id':m['id'],'r':r})+'\n');lf.flush()
    subprocess.run(['rm','-rf',w])
ts=[threading.Thread(target=work,args=(k,)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts];[t.join() for t in ts]
