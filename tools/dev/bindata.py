import re,sys,gzip,hashlib,io,os
root=sys.argv[1]; p=root+"/gengokit/template/template.go"
s=open(p,encoding='latin1').read()
base=root+"/gengokit/template/NAME-service/"
out=s
for m in re.finditer(r'var (_\w+) = \[\]byte\("((?:[^"\\]|\\.)*)"\)',s):
    var,data=m.group(1),m.group(2)
    fn=re.search(r'func %s\(\) \(\*asset, error\) \{.*?name: "([^"]+)", size: (\d+)(.*?)digest: \[32\]uint8\{([^}]*)\}'%var[1:],s,re.S)
    if not fn:
        fn=re.search(r'func %s\(\) \(\*asset, error\) \{.*?name: "([^"]+)", size: (\d+)'%var[1:],s,re.S)
    raw=eval('b"'+data+'"')
    txt=gzip.decompress(raw)
    f=open(base+fn.group(1),'rb').read()
    if f==txt: continue
    print("differs",var,fn.group(1))
    buf=io.BytesIO()
    with gzip.GzipFile(fileobj=buf,mode='wb',compresslevel=9,mtime=0,filename='') as g: g.write(f)
    new=''.join('\\x%02x'%b for b in buf.getvalue())
    out=out.replace(m.group(0),'var %s = []byte("%s")'%(var,new))
    old=fn.group(0)
    nw=old.replace('size: '+fn.group(2),'size: %d'%len(f))
    seg=out[out.index('func %s() (*asset'%var[1:]):]
    out=out.replace(old,nw)
    d=hashlib.sha256(f).digest()
    dg=re.search(r'func %s\(\) \(\*asset, error\) \{.*?digest: (\[32\]uint8\{[^}]*\}|\[sha256.Size\]uint8\{[^}]*\})'%var[1:],out,re.S)
    if dg: out=out.replace(dg.group(1),dg.group(1)[:dg.group(1).index('{')]+'{'+', '.join('0x%x'%b for b in d)+'}')
    else: print("no digest")
open(p,'w',encoding='latin1').write(out)
