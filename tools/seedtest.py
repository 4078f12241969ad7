#!/usr/bin/env python3
"""development aid: seedtest.py [--nobuild] [--check PROP] ids...: tries planted bugs in the scratch copy /tmp/seedrepo"""
import sys,os,subprocess,json,shutil,time
V='/verif'; S='/tmp/seedrepo'
args=sys.argv[1:]; nobuild=False; extra=[]
if '--nobuild' in args: args.remove('--nobuild'); nobuild=True
while '--check' in args: i=args.index('--check'); extra.append(args[i+1]); del args[i:i+2]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(S):
    sh(f'cp -a /repo {S}; rm -rf {S}/_build')
sh("sed 's#/repo#/tmp/seedrepo#g' /opt/vp/build.sh > /tmp/seedbuild.sh; sed 's#/repo#/tmp/seedrepo#g' /opt/vp/run_doctest.py > /tmp/seed_doctest.py")
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sync():
    sh(f'cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
for id in args:
    d=f'{V}/seeded/{id}'; prop=json.load(open(d+'/meta.json'))['property']; out=[id,prop]
    sync()
    env=dict(os.environ); 
    dd='/tmp/seeddemo'; shutil.rmtree(dd,ignore_errors=True); shutil.copytree(d,dd)
    r=sh(f'bash {dd}/demo.sh',cwd=S,timeout=400); out.append('demo-clean=%d'%r.returncode)
    if r.returncode: print(r.stdout[-800:],r.stderr[-1500:])
    r=sh(f'git apply {d}/patch.diff',cwd=S)
    if r.returncode: print(id,'patch does not apply',r.stderr); continue
    r=sh(f'bash {dd}/demo.sh',cwd=S,timeout=400); out.append('demo-bug=%d'%r.returncode)
    if not nobuild:
        r=sh('bash /tmp/seedbuild.sh')
        if r.returncode: print(id,'BUILD FAILED',r.stdout[-1500:]); sync(); continue
        shutil.rmtree('/tmp/seedcwd',ignore_errors=True)
        sh('python3 /tmp/seed_doctest.py /tmp/seedcwd /tmp/seed.lines')
        ok={l[5:].strip() for l in open('/tmp/seed.lines') if l.startswith('PASS')}
        miss=stable-ok; out.append('tests-broken=%d'%len(miss))
        if miss: print('   ',sorted(miss)[:3])
    for p in [prop]+extra:
        t=time.time()
        r=sh(f'VP_REPO={S} {V}/check.py {p}'); out.append('%s:rc=%d(%.0fs)'%(p,r.returncode,time.time()-t))
        if r.returncode==1: out.append([l for l in r.stdout.splitlines() if l.startswith('  ')][:1])
        elif r.returncode!=0: print(r.stdout[-600:])
    sync()
    print(*out,flush=True)
