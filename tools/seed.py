#!/usr/bin/env python3
"""seed.py DIR: validate the planted bug in DIR (patch.diff, demo.sh, meta.json):
applies to HEAD, builds, stable tests pass, demo passes without and fails with it.
Then run the property's check against it (in a scratch copy) and print the verdict."""
import json,os,subprocess,sys,shutil,tempfile
def sh(c,cwd,env=None,timeout=900):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env,timeout=timeout); return p.returncode,p.stdout+p.stderr
ENV='. /opt/vp/env.sh; '
STABLE=json.load(open('/opt/vp/BASELINE.json'))
def main(d,nocheck=False):
    d=os.path.abspath(d); meta=json.load(open(d+'/meta.json')); t=tempfile.mkdtemp(prefix='seed',dir='/tmp')
    r=t+'/repo'
    try:
        sh(f'git worktree prune; git worktree add --detach {r} HEAD','/repo')
        rc,o=sh(f'bash {d}/demo.sh',r); res={'demo_clean':rc}
        if rc: print(o[-1500:])
        rc,o=sh(f'git apply {d}/patch.diff',r); res['apply']=rc
        if rc: print(o)
        rc,o=sh(ENV+'go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v "no test files"',r); res['tests']='FAIL' if ('--- FAIL' in o and any('--- FAIL' in l and 'TestCreateConf' not in l for l in o.splitlines())) or 'build failed' in o else 'ok'
        if res['tests']=='FAIL': print(o[-1500:])
        rc,o=sh(f'bash {d}/demo.sh',r); res['demo_bug']=rc
        if rc==0: print(o[-800:])
        if rc==3: print(o[-1500:])
        if not nocheck:
            env=dict(os.environ,VERIF_REPO=r)
            rc,o=sh(f'/verif/check.sh {meta["property"]} quick','/verif',env); res['check']=rc
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            res['verdict']='caught' if rc==1 and v else 'MISSED'
            res['how']=('proof' if 'obligation:' in o or 'undischarged:' in o else '')+('+input' if v and 'no-failing' not in v[0] else '')
            open(t+'/out','w').write(o)
            if '-v' in sys.argv: print(o[-3000:])
        print(os.path.basename(d),meta['property'],res)
    finally:
        sh(f'git worktree remove --force {r}','/repo'); shutil.rmtree(t,ignore_errors=True)
for d in sys.argv[1:]:
    if d.startswith('-'): continue
    main(d,'-n' in sys.argv)
