#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl WORKERS [filter-regexp]: applies each change in a scratch copy of /repo, drops those that do
not build or fail the stable tests, and runs the checks whose evidence names the changed function until one reports it."""
import json, os, re, shutil, subprocess, sys, threading, queue, time, glob
muts=[json.loads(l) for l in open(sys.argv[1])]; OUT=sys.argv[2]; N=int(sys.argv[3]); GOSYM=os.environ.get('GOSYM','/tmp/gosym')
if len(sys.argv)>4: muts=[m for m in muts if re.search(sys.argv[4], m['File']+' '+m['Func'])]
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=mod',CGO_ENABLED='0')
fmap={}; cost={}
for f in glob.glob('/verif/evidence/C*.json'):
    d=json.load(open(f)); p=d['property']; cost[p]=d['wall_s']
    for n in d['coverage']['functions_encoded']:
        n=n.replace('gost/gokio.','').replace('gost.','')
        m=re.match(r'\(\*?([\w]+)(?:\[.*?\])?\)\.(\w+)',n)
        k=(m.group(1)+'.'+m.group(2)) if m else re.sub(r'\[.*','',n).split('$')[0]
        fmap.setdefault(k,set()).add(p)
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        r=json.loads(l); done.add((r['File'],r['Start'],r['End'],r['New']))
q=queue.Queue()
for m in muts:
    if (m['File'],m['Start'],m['End'],m['New']) not in done: q.put(m)
lock=threading.Lock()
def sh(cmd,cwd,t):
    p=subprocess.Popen(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return -1,'timeout'
def work(k):
    w='/tmp/mv/w%d'%k; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/verif')
    subprocess.run(['cp','-a','/repo',w+'/repo']); subprocess.run(['cp','-a','/verif/harness',w+'/verif/harness']); shutil.copy('/verif/known_findings.json',w+'/verif/')
    g=w+'/verif/harness/go.mod'; s=open(g).read().replace('=> /repo','=> '+w+'/repo'); open(g,'w').write(s)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=w+'/repo/'+m['File']; src=open(f,'rb').read()
        r=dict(m)
        open(f,'wb').write(src[:m['Start']]+m['New'].encode()+src[m['End']:])
        try:
            if sh(['go','build','./...'],w+'/repo',60)[0]!=0: r['res']='nobuild'
            elif sh(['go','test','-count=1','-vet=off','-timeout','20s','./...'],w+'/repo',60)[0]!=0: r['res']='tests'
            else:
                name=re.sub(r'[(*)]','',m['Func'])
                ps=sorted(fmap.get(name,()),key=lambda p:cost[p])
                r['res']='survived'; r['props']=ps; r['out']={}
                for p in ps:
                    t=time.time()
                    c,o=sh([GOSYM,'-prop',p,'-verif',w+'/verif','-workers','2'],w,300)
                    r['out'][p]=[c,round(time.time()-t),o.strip()[-300:]]
                    if c==1: r['res']='caught'; r['by']=p; del r['out']; break
        finally: open(f,'wb').write(src)
        with lock:
            open(OUT,'a').write(json.dumps(r)+'\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree('/tmp/mv',ignore_errors=True)
