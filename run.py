#!/usr/bin/env python3
"""development helper: run witness files and print a summary: run.py [-t SECS] [-w regex] [-s] files..."""
import sys,subprocess,json,os,re,concurrent.futures as cf,time,tempfile
V=os.path.dirname(os.path.abspath(__file__))
args=sys.argv[1:]; T='20'; rx='.'; stack=False; files=[]; verbose=False; nclean=0
while args:
    a=args.pop(0)
    if a=='-t': T=args.pop(0)
    elif a=='-w': rx=args.pop(0)
    elif a=='-s': stack=True
    elif a=='-v': verbose=True
    else: files.append(a)
tmp=tempfile.mkdtemp(prefix='lxrun'); ex=cf.ThreadPoolExecutor(8)
def comp(f):
    bc=os.path.join(tmp,os.path.basename(f)+'.bc')
    r=subprocess.run([V+'/cc.sh',f,bc],capture_output=True,text=True)
    if r.returncode: print(r.stderr[:1500]); return []
    ws=subprocess.run([V+'/engine/build/lxai',bc,'--list'],capture_output=True,text=True).stdout.split()
    return [(bc,w) for w in ws if re.search(rx,w)]
t0=time.time()
jobs=[j for l in ex.map(comp,files) for j in l]
print('compiled',len(jobs),'witnesses in %.1fs'%(time.time()-t0))
def go(j):
    r=subprocess.run([V+'/engine/build/lxai',j[0],j[1],'--time',T],capture_output=True,text=True)
    return j,r
for j,r in ex.map(go,jobs):
    try: d=json.loads(r.stdout)
    except Exception: print('!!',j[1],r.returncode,r.stderr[:300]); continue
    flag=' TRUNC' if d['truncated'] else ''
    cov={k:v for k,v in d['covers'].items() if v!=2}
    clean=not d['violations'] and not d['gaveup'] and not d['truncated'] and not cov and d['wall']<5 and not verbose
    if clean: nclean+=1; continue
    print(f"{d['witness']}: st={d['states']} widen={d['widenings']} {d['wall']:.2f}s{flag}", f"cov={cov}" if cov else '', f"ext={d['externals']}" if d['externals'] else '', f"mg={d['mutable_globals']}" if d['mutable_globals'] else '', f"imp={d['imprecision']}" if d['imprecision'] else '')
    for v in d['violations']:
        print('   ','imprecise' if v['imprecise'] else 'VIOL',v['code'],'|',v['msg'],'|',v['loc'],'| in:',v['input'][:250],'|',v['why'],'x',v['count'])
        if stack: print('        ',v['stack'][:1500])
    for k,v in d['gaveup'].items(): print('    GAVEUP',k,v)
print('clean',nclean,'total %.1fs'%(time.time()-t0))
import shutil; shutil.rmtree(tmp)
