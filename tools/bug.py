"""Helper to plant a bug: bug(id, property, [(file, old, new)...], package dir, demo test source, needs, breaks)."""
import os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# exit 0 when the property holds in the tree at the current directory
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
[ -x /opt/veriftools/go1.24.13/bin/go ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKGzz_demo_test.go" "$d/demo_test.go.txt" > "$t/o.json"
go test -overlay "$t/o.json" RACE -count=1 -timeout 240s -run '^TestDemo' ./PKG
'''
def bug(id,prop,edits,pkg,demo,needs,breaks,race=False):
    d='/verif/seeded/'+id
    w=tempfile.mkdtemp(prefix='bug-')
    files=[]
    for f,o,n in edits:
        for s in('a','b'):
            p=f'{w}/{s}/{f}'; os.makedirs(os.path.dirname(p),exist_ok=True)
            if not os.path.exists(p): shutil.copy('/repo/'+f,p)
        p=f'{w}/b/{f}'
        t=open(p).read()
        assert t.count(o)==1,(id,f,t.count(o),o)
        open(p,'w').write(t.replace(o,n))
        if f not in files: files.append(f)
    os.makedirs(d,exist_ok=True)
    out=''
    for f in files:
        r=subprocess.run(['diff','-u','a/'+f,'b/'+f],cwd=w,capture_output=True,text=True).stdout.split('\n')
        r[0]='--- a/'+f; r[1]='+++ b/'+f
        out+='\n'.join(r)
    open(d+'/patch.diff','w').write(out)
    pk=(pkg.strip('/')+'/') if pkg not in('','.') else ''
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',pk).replace('RACE','-race' if race else ''))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(demo.lstrip())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
