"""plant.py [-c] ID...: makes a scratch copy of /repo, applies seeded/ID/patch.diff, and confirms that the
change compiles, passes the stable tests, and that demo.sh tells the two trees apart;
with -c also runs the property's check on the changed tree."""
import sys,subprocess,os,shutil,json,tempfile
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c,cwd,env=None,t=600):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t,env=env)
opts=[a for a in sys.argv[1:] if a[0]=='-']
for i in [a for a in sys.argv[1:] if a[0]!='-']:
    d=next(x for x in (ROOT+'/seeded/'+i,ROOT+'/planted-templates/'+i) if os.path.isdir(x))
    w=tempfile.mkdtemp(prefix='plant-')
    repo=w+'/gowrap'
    r=run(f'git -C /repo worktree prune; cp -a {os.environ.get('VH_REPO','/repo')} {repo}','/'); assert r.returncode==0,r.stderr
    f=w+'/demo'; shutil.copytree(d,f,ignore=shutil.ignore_patterns('*.diff','meta.json'))
    base=run(f'bash -c ". /opt/vp/env.sh; bash {f}/demo.sh"',repo)
    a=run(f'git apply --check {d}/patch.diff && git apply {d}/patch.diff',repo)
    b=run('. /opt/vp/env.sh; export GOSUMDB=off; go build ./... && go vet . ./generator ./loader ./printer && go test . ./generator/... ./loader/... ./printer/... ./pkg/... ./cmd/... 2>&1 | grep -v -e ^ok -e "no test files" | head -20',repo,dict(os.environ,BASH_ENV=''))
    bad=run(f'bash -c ". /opt/vp/env.sh; bash {f}/demo.sh"',repo)
    print(i,'base demo',base.returncode,'| apply',a.returncode,a.stderr.strip()[:200],'| build/tests:',(b.stdout+b.stderr).strip()[:600] or 'ok','| patched demo',bad.returncode)
    if base.returncode!=0: print(base.stdout[-800:],base.stderr[-800:])
    if bad.returncode==0: print(bad.stdout[-800:])
    if '-c' in opts:
        p=json.load(open(d+'/meta.json'))['property']
        c=run(f'{ROOT}/run.sh check {p}',w,dict(os.environ,VH_REPO=repo,VERIF_SEED=os.environ.get('VERIF_SEED','1'),TMPDIR=w),900)
        print('   check',p,c.returncode,[l for l in c.stdout.splitlines() if l.startswith(('VIOLATION','OK'))],c.stderr[-300:] if c.returncode not in(0,1) else '')
        if c.returncode==1: print('   ',c.stdout[:int(os.environ.get('CUT','200'))].replace('\n','\n    '))
    import time; time.sleep(1); shutil.rmtree(w,ignore_errors=True); shutil.rmtree(w,ignore_errors=True)
