#!/usr/bin/env python3
"""mkseed.py NAME PROP FILE<<SPEC: helper to create /verif/seeded/NAME from an edit.
SPEC on stdin (json): {"edits":[["file","old","new"],...],"needs":..,"breaks":..,"demo":"go test source"}"""
import json,os,subprocess,sys,shutil,tempfile
name,prop=sys.argv[1:3]; spec=eval(sys.stdin.read())
d='/verif/seeded/'+name; os.makedirs(d,exist_ok=True)
t=tempfile.mkdtemp(prefix='mk',dir='/tmp'); r=t+'/repo'
run=lambda c,cwd: subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True)
run(f'git worktree prune; git worktree add --detach {r} HEAD','/repo')
try:
    for f,a,b in spec['edits']:
        s=open(r+'/'+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open(r+'/'+f,'w').write(s.replace(a,b))
    p=run('. /opt/vp/env.sh; gofmt -l .; git diff',r).stdout
    i=p.index('diff --git'); 
    if i: print('gofmt:',p[:i])
    open(d+'/patch.diff','w').write(p[i:])
finally:
    run(f'git worktree remove --force {r}','/repo'); shutil.rmtree(t,ignore_errors=True)
open(d+'/demo_test.go','w').write(spec['demo'])
for h in spec.get('files',['common.go'] if spec.get('vol') else []): shutil.copy('/verif/harness/'+h,d+'/'+{'common.go':'vol'}.get(h,h[:-3])+'_test.go')
open(d+'/demo.sh','w').write(open('/verif/tools/demo.sh.tmpl').read().replace('pkg=zzdemo','pkg='+spec.get('dir','zzdemo'))); os.chmod(d+'/demo.sh',0o755)
json.dump({'property':prop,'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(d+'/meta.json','w'),indent=1)
