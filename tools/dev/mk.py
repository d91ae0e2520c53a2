import os, shutil, subprocess, json, sys, stat
sys.path.insert(0,'/tmp/w/seeds')
OUT='/tmp/w/v/seeded'
def mk(i, prop, edits, needs, breaks, demo, files=None, lab=False, tmpl=False):
    d='/tmp/w/sdx'
    if not os.path.isdir(d): subprocess.run(['git','clone','-q','/tmp/w/r',d],check=True)
    subprocess.run(['git','-C',d,'fetch','-q','origin'],check=True)
    subprocess.run(['git','-C',d,'reset','-q','--hard','origin/HEAD'],check=True)
    for f,old,new in edits:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(old)==1,(i,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    if tmpl: subprocess.run(['python3','/tmp/w/bindata.py',d],check=True)
    fs={f for f,_,_ in edits if f.endswith('.go')}
    for f in fs:
        r=subprocess.run(['bash','-c','. /opt/vp/env.sh; gofmt -l '+os.path.join(d,f)],capture_output=True,text=True)
        if r.stdout.strip() or r.returncode: print(i,'gofmt',r.stdout,r.stderr)
    o=os.path.join(OUT,i); os.makedirs(o,exist_ok=True)
    diff=subprocess.run(['git','-C',d,'diff'],capture_output=True).stdout
    open(o+'/patch.diff','wb').write(diff)
    open(o+'/meta.json','w').write(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks}))
    shutil.copy('/tmp/w/seeds/lib.sh',o+'/lib.sh')
    if lab:
        shutil.copy('/tmp/w/seeds/lab.sh',o+'/lab.sh'); shutil.copy('/tmp/w/seeds/stubs.tgz',o+'/stubs.tgz')
    head='. "$(dirname "$0")/%s.sh"\n'%('lab' if lab else 'lib')
    open(o+'/demo.sh','w').write(head+demo.strip()+'\nexit 0\n')
    for n,t in (files or {}).items(): open(os.path.join(o,n),'w').write(t)
