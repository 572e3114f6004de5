#!/usr/bin/env python3
"""run.py SET [PROP...]: applies the rewrites of SET to a scratch copy, runs its
tests and the proofs of the properties there, and prints what is not quiet."""
import os,subprocess,sys,shutil,concurrent.futures as cf
exec(open(os.path.dirname(os.path.abspath(__file__))+'/sets.py').read())
name=sys.argv[1]; props=sys.argv[2:] or ['C%02d'%i for i in range(1,28)]
d='/tmp/refactor.'+name; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
sh=lambda c: subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=d,capture_output=True,text=True)
fs=set()
for f,a,b in R[name]:
    s=open(d+'/'+f).read(); assert s.count(a)==1,(f,s.count(a),a); open(d+'/'+f,'w').write(s.replace(a,b)); fs.add(f)
print(sh('goimports -w '+' '.join(sorted(fs))).stderr,end='')
r=sh(r'go build ./... && go vet ./filetree ./requester ./backend ./handlers . ./config ./gocrypt/contentenc ./gocrypt/nametransform && go test ./... 2>&1 | grep -v "no test files\|^ok" | tail -15'); print(r.stdout[-900:],r.stderr[-900:])
def one(p):
    r=subprocess.run(['timeout','850','/tmp/gvbin','-repo',d,'-prop',p],capture_output=True,text=True)
    return p,r.returncode,[l[:200] for l in (r.stdout+r.stderr).split('\n') if 'FAILED' in l or 'unsupported' in l or 'rror' in l][:8]
with cf.ThreadPoolExecutor(4) as ex:
    for p,rc,ls in ex.map(one,props):
        if rc: print(p,'rc',rc); [print('   ',l) for l in dict.fromkeys(ls)]
shutil.rmtree(d,ignore_errors=True); print('done',name)
