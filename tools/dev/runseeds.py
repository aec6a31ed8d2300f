import subprocess,os,json,sys,shutil,time,concurrent.futures as cf
V='/tmp/vcopy'
subprocess.run(['rsync','-a','--delete','--exclude','.git','--exclude','seeded','/verif/',V+'/']) if shutil.which('rsync') else subprocess.run('mkdir -p %s; cp -a /verif/. %s/'%(V,V),shell=True)
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
def run(i):
    d='/verif/seeded/'+i; p=json.load(open(d+'/meta.json'))['property']
    w='/tmp/sw/'+i
    subprocess.run(['rm','-rf',w]); os.makedirs('/tmp/sw',exist_ok=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    r=subprocess.run(['git','-C',w,'apply',d+'/patch.diff'],capture_output=True,text=True)
    if r.returncode: return i,p,'NOAPPLY '+r.stderr
    t=time.time()
    r=subprocess.run([V+'/engine/gosym','-prop',p,'-noev','-j','4'],capture_output=True,text=True,env=dict(os.environ,GOSYM_MEM='6',GOSYM_REPO=w,GOSYM_VERIF=V),cwd=V)
    subprocess.run(['rm','-rf',w])
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return i,p,'%s rc=%d %.0fs %s'%('CAUGHT' if r.returncode==1 and v else 'MISSED',r.returncode,time.time()-t,'' if v else r.stdout[-300:]+r.stderr[-300:])
with cf.ThreadPoolExecutor(2) as ex:
    for x in ex.map(run,ids): print(*x,flush=True)
