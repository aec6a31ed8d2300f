import json,sys,subprocess,os
M={m['id']:m for m in json.load(open('/tmp/mut/muts.json'))}
m=M[sys.argv[1]];w='/tmp/mut/one'
subprocess.run(['rm','-rf',w]);subprocess.run(['git','clone','-q','/repo',w],check=True)
p=w+'/'+m['file'];src=open(p,'rb').read()
open(p,'wb').write(src[:m['off']]+m['new'].encode()+src[m['end']:])
print(subprocess.run(['git','-C',w,'diff','-U1'],capture_output=True,text=True).stdout)
for c in sys.argv[2:]:
    x=subprocess.run(['/verif/engine/gosym','-prop',c,'-noev'],capture_output=True,text=True,cwd='/verif',env=dict(os.environ,GOSYM_REPO=w,GOSYM_VERIF='/verif',GOSYM_FIRST='1'))
    print(c,x.returncode,x.stdout[-200:] if x.returncode not in(0,) else '')
