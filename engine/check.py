"""check.py <property> : generate and discharge every proof obligation of one property from the
current /repo sources, replay failed obligations against the real code, write the evidence file."""
import sys,os,json,time,subprocess,tempfile,shutil,re,multiprocessing as mp,signal,traceback
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import driver
from registry import PROPS
NPROC=8
def replay_build(src,out,ndim,defs,san):
    cmd=['clang++-18','-x','c++','-std=c++17','-fno-rtti','-O1','-no-pie','-fno-pie','-fno-access-control','-ffp-contract=off','-DREPLAY','-DOMPI_SKIP_MPICXX=1','-w','-fno-threadsafe-statics']
    if san: cmd+=['-fsanitize=address,bounds,integer-divide-by-zero,null,shift','-fno-sanitize-recover=all','-g']
    cmd+=driver.incs()+driver.mpi()
    if ndim: cmd.append('-DNDIM=%d'%ndim)
    cmd+=list(defs)+[src,'-o',out,'-Wl,--unresolved-symbols=ignore-all','-lm']
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return 'replay build failed: '+r.stderr[-1500:]
    return None
def run_native(exe,proof,secs,seed,inp,cwd):
    cmd=[exe,proof,str(secs),str(seed)]+([inp] if inp else [])
    try: r=subprocess.run(cmd,capture_output=True,text=True,timeout=secs+60,cwd=cwd)
    except subprocess.TimeoutExpired: return None,'timeout'
    m='REPLAY-FAIL' in r.stdout
    if not m and 'runtime error' in r.stderr: m=True
    return m,r.stdout+r.stderr[-3000:]
def worker(q,task):
    idx,ll,name,opts,plan=task
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(12<<30,12<<30))
    sys.setrecursionlimit(200000)
    try: r=driver.run_proof(ll,name,opts,plan)
    except MemoryError: r={'name':name,'error':'verifier out of memory'}
    except BaseException as e: r={'name':name,'error':'internal: '+''.join(traceback.format_exception(e))[-1500:]}
    q.put((idx,r))
def run_all(tasks,tlimit,deadline):
    """own scheduler: one process per proof, killed at its time limit"""
    res={}; pend=list(tasks); live={}; q=mp.Queue()
    while pend or live:
        while pend and len(live)<NPROC:
            t=pend.pop(0); p=mp.Process(target=worker,args=(q,t)); p.start(); live[t[0]]=(p,time.time(),t)
        try:
            while True:
                i,r=q.get(timeout=0.05); res[i]=r
                if i in live: live[i][0].join(5); live.pop(i)
        except Exception: pass
        now=time.time()
        for i,(p,t0,t) in list(live.items()):
            if now-t0>tlimit or now>deadline:
                p.kill(); p.join(); live.pop(i); res[i]={'name':t[2],'error':'time limit of %ds reached'%int(now-t0)}
            elif not p.is_alive() and i not in res:
                time.sleep(0.2)
                try:
                    while True: j,r=q.get(timeout=0.1); res[j]=r
                except Exception: pass
                if i not in res: res[i]={'name':t[2],'error':'verifier process ended (code %s)'%p.exitcode}
                live.pop(i)
    return res
def compile_task(a):
    src,out,ndim,defs=a
    try: driver.compile_ir(src,out,ndim,defs); return None
    except Exception as e: return str(e)
def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    record='--record' in sys.argv; nosearch='--nosearch' in sys.argv
    only=[a[7:] for a in sys.argv if a.startswith('--only=')]
    seed=int(os.environ.get('VERIF_SEED','1')); t00=time.time()
    P=PROPS[pid]; W=tempfile.mkdtemp(prefix='vchk_')
    budget=780 if tier=='quick' else 6000
    try: rc=check(pid,P,tier,seed,W,t00,budget,record,nosearch,only)
    finally: shutil.rmtree(W,ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
def check(pid,P,tier,seed,W,t00,budget,record,nosearch,only):
    units=[]
    for u in P['units']:
        nds=u.get('ndim',[4]) if tier=='quick' else u.get('ndim_thorough',u.get('ndim',[4]))
        for nd in nds:
            for k,dv in enumerate(u.get('variants',[()])):
                units.append(dict(src=os.path.join(V,'proofs',u['src']),ndim=nd,defs=tuple(u.get('defs',()))+tuple(dv),u=u,
                   key='%s:%s%s'%(u['src'],nd,(':'+','.join(dv)) if dv else '')))
    for i,u in enumerate(units): u['ll']='%s/u%d.ll'%(W,i)
    with mp.Pool(NPROC) as pool:
        errs=pool.map(compile_task,[(u['src'],u['ll'],u['ndim'],u['defs']) for u in units])
    bad=[]; tasks=[]; expected={}; bounded=[]
    ef=os.path.join(V,'proofs','expected',pid+'.json')
    exp=json.load(open(ef)) if os.path.exists(ef) else {}
    for u,e in zip(units,errs):
        if e: bad.append((u,None,[{'kind':'extraction','label':'the code under contract cannot be brought to the verifier','status':'unsupported','detail':e[:1500],'inputs':None}])); continue
        mod=driver.load(u['ll']); ps=driver.proofs(mod); u['proofs']=ps
        for n,o in ps.items():
            if u['u'].get('only') and not re.fullmatch(u['u']['only'],n): continue
            if o.get('tier')=='thorough' and tier=='quick': continue
            if o.get('bounded'):
                if not only or any(re.fullmatch(x,n) for x in only): bounded.append((u,n,o))
                continue
            if only and not any(re.fullmatch(x,n) for x in only): continue
            plan=u['src'][:-4]+'.py'
            tasks.append((len(tasks),u['ll'],n,o,plan if os.path.exists(plan) else None)); expected[len(tasks)-1]=(u,n)
    # long ones first
    tasks.sort(key=lambda t:-exp.get(expected[t[0]][0]['key']+'/'+t[2],{}).get('time',1))
    tl=P.get('tlimit',300) if tier=='quick' else 3000
    res=run_all(tasks,tl,t00+budget*0.75)
    nob=nok=nens=0; backends={}; funcs={}; assum=set(); invs=set(); solver=0; samples=[]; newexp={}; nproofs=0; nq=0
    for i,(u,n) in expected.items():
        r=res.get(i) or {'error':'no result'}
        k=u['key']+'/'+n; fl=[]
        if r.get('error'): fl.append({'kind':'engine','label':'proof %s not completed'%n,'status':'unsupported','detail':r['error'],'inputs':None})
        labels=set()
        for o in r.get('obligations',[]):
            nob+=o['n']; nok+=o['proved']
            for b,c in o['backends'].items(): backends[b]=backends.get(b,0)+c
            if o['kind']=='ensures': labels.add(o['label']); nens+=o['n']
        for f in r.get('failures',[]): fl.append(f)
        for f,c in r.get('funcs',{}).items(): funcs[f]=funcs.get(f,0)+c
        assum|=set(r.get('assumptions',[])); invs|=set(map(str,r.get('loop_invariants',[]) or []))
        solver+=r.get('solver_time',0); nq+=r.get('queries',0)
        if not r.get('error') :
            for c,v in r.get('covers',{}).items():
                if c.startswith('!'): continue
                if v=='unreachable': fl.append({'kind':'vacuity','label':'cover "%s" unreachable'%c,'status':'failed','detail':'','inputs':None})
            if not labels: fl.append({'kind':'vacuity','label':'no postcondition was generated','status':'failed','detail':'','inputs':None})
            miss=set(exp.get(k,{}).get('labels',[]))-labels
            if miss and not record: fl.append({'kind':'vacuity','label':'postcondition no longer reached: '+', '.join(sorted(miss))[:200],'status':'failed','detail':'','inputs':None})
        newexp[k]={'labels':sorted(labels),'time':round(r.get('time',0),1),'covers':sorted(c for c in r.get('covers',{}) if not c.startswith('!'))}
        if not fl: nproofs+=1
        else: bad.append((u,n,fl))
        if len(samples)<6: samples.append({'proof':k,'opts':u['proofs'][n],'obligations':sum(o['n'] for o in r.get('obligations',[])),'paths':r.get('paths'),'seconds':round(r.get('time',0),2)})
        if '-v' in sys.argv: print('%-50s %s %.1fs obl %d q %d'%(k,'ok' if not fl else 'FAIL',r.get('time',0),sum(o['n'] for o in r.get('obligations',[])),r.get('queries',0)), [ (f['status'],f['label'],f['detail'][:300],(f['inputs'] or [])[:8]) for f in fl][:3] if fl else '')
    missing=[k for k in exp if not any(u['key']+'/'+n==k for u,n in expected.values())] if tier=='thorough' and not only else []
    if record and not bad and not only:
        os.makedirs(os.path.dirname(ef),exist_ok=True)
        old=exp if tier=='quick' else {}
        old.update(newexp); json.dump(old,open(ef,'w'),indent=0,sort_keys=True)
    # ---- extra deciding steps (python-side lemmas etc)
    viol=[]; known=[]
    kf=json.load(open(os.path.join(V,'known_findings.json'))) if os.path.exists(os.path.join(V,'known_findings.json')) else {'findings':[]}
    nreplay=0
    rp=os.path.join(V,'replays'); 
    if bad: os.makedirs(rp,exist_ok=True)
    exes={}
    nbad=len(bad); tsearch=max(4,min(25,(budget-(time.time()-t00))/max(1,nbad)/3))
    # replay
    def exe_for(u,san):
        kk=(u['key'],san)
        if kk not in exes:
            o='%s/r%d'%(W,len(exes)); e=replay_build(u['src'],o,u['ndim'],u['defs'],san); exes[kk]=(o,e)
        return exes[kk]
    # bounded stand-ins: exhaustive native runs (never counted as proved)
    nbounded=[]
    for u,n,o in bounded:
        exe,e=exe_for(u,True)
        fl=[]
        if e: fl=[{'kind':'extraction','label':'bounded check does not build','status':'unsupported','detail':e,'inputs':None}]
        else:
            try: r=subprocess.run([exe,n,'0','1'],capture_output=True,text=True,timeout=o.get('limit',300),cwd=W); out=r.stdout+r.stderr[-3000:]
            except subprocess.TimeoutExpired: out='time limit: the code under contract does not finish'; r=None
            mm=re.search(r'no failing input: (\d+) runs',out)
            if r is None or 'REPLAY-FAIL' in out or 'runtime error' in out or 'AddressSanitizer' in out or not mm or mm.group(1)=='0':
                lab=re.search(r'REPLAY-FAIL: (.*)',out)
                fl=[{'kind':'bounded','label':lab.group(1) if lab else 'bounded check %s failed'%n,'status':'failed','detail':out[:3000],'inputs':None,'native':True}]
            nbounded.append('%s/%s: %s'%(u['key'],n,(o.get('bounds') or '')))
        if fl: bad.append((u,n,fl))
        if '-v' in sys.argv: print('%-50s bounded %s'%(u['key']+'/'+n,'ok' if not fl else 'FAIL '+fl[0]['detail'][:600]))
    bad.sort(key=lambda b:0 if any(f['inputs'] for f in b[2]) else 1)
    shown=0
    for u,n,fl in bad:
        txt=['property %s, proof %s, file %s, NDIM=%s %s'%(pid,n,os.path.relpath(u['src'],V),u['ndim'],' '.join(u['defs']))]
        for f in fl:
            txt.append('FAILED OBLIGATION [%s] %s: %s %s\n  at %s\n  solver inputs: %s'%(f['kind'],f['status'],f['label'],f.get('detail') or '',f.get('path'),f.get('inputs')))
        found=any(f.get('native') for f in fl)
        if n and not found and not nosearch and budget-(time.time()-t00)>40 and not (viol and any(v[1] for v in viol) and len(viol)>3):
            for san in (False,True):
                exe,e=exe_for(u,san)
                if e: txt.append(e); continue
                tries=[f['inputs'] for f in fl if f['inputs']][:6] or [None]
                for j,inp in enumerate(tries):
                    fn=None
                    if inp:
                        fn='%s/in%d'%(W,nreplay); 
                        with open(fn,'w') as g:
                            for nm,kd,v in inp:
                                if v is None: v=0
                                g.write('%s %s\n'%(kd if kd in 'ri' else 'x',v if isinstance(v,int) and not isinstance(v,bool) else (int(v) if isinstance(v,bool) else repr(float(v)))))
                    secs=tsearch if j==len(tries)-1 else 0
                    nreplay+=1
                    m,out=run_native(exe,n,secs,seed,fn,W)
                    if m: found=True; txt.append('REPLAY AGAINST THE REAL CODE%s:\n%s'%(' (address/undefined sanitizer)' if san else '',out)); break
                    else: txt.append('replay (%s): %s'%('sanitized' if san else 'plain',out[-300:]))
                if found: break
        fid='%s/%s'%(u['key'],n)
        fk=[k for k in kf['findings'] if k['property']==pid and k['proof']==n and all(any(lb in f['label'] for lb in k['labels']) for f in fl)]
        if fk:
            known.append(fk[0]['what']); continue
        path=os.path.join(rp,'%s_%s.txt'%(pid,re.sub(r'\W+','_',fid)))
        open(path,'w').write('\n'.join(txt)+'\n')
        viol.append((path,found,'; '.join(f['label'] for f in fl[:3])))
    for k in kf['findings']:
        if k['property']==pid and k['what'] not in known and k.get('standing'): known.append(k['what'])
    for k in dict.fromkeys(known): print('KNOWN-FINDING: property=%s %s'%(pid,k))
    viol.sort(key=lambda v:0 if v[1] else 1)
    for path,found,lab in viol[:12]:
        print('VIOLATION property=%s replay=%s%s'%(pid,path,'' if found else ' no-failing-input-found'))
        print('   ',lab[:200])
    ev={'property':pid,'tier':tier,'seed':seed,'level':P['level'],'wall_s':round(time.time()-t00,2),'violations':len(viol),
     'assumptions':sorted(set(P.get('assumptions',[]))|assum|set(GLOBAL_ASSUME)),
     'coverage':{'obligations':nob,'discharged':nok,'checker_cmd':'python3-vt /verif/engine/check.py '+pid,
       'trusted_base':TRUSTED,'proofs':len(tasks),'proofs_discharged':nproofs,'postcondition_obligations':nens,
       'obligations_by_back_end':backends,'solver_seconds':round(solver,2),'solver_queries':nq,
       'functions_under_contract':sorted(funcs),'loop_invariants':sorted(invs),'replays':nreplay,'bounded_stand_ins':nbounded,
       'configurations':[u['key'] for u in units],'bounds':P.get('bounds',''),'samples':samples}}
    if P['level']!='proof': ev['coverage']['explanation']=P.get('explanation','')
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    print('%s %s: %d/%d obligations discharged in %d proofs (%d complete), %.1fs solver, %.1fs wall'%(pid,tier,nok,nob,len(tasks),nproofs,solver,time.time()-t00))
    return 1 if viol else 0
TRUSTED=['clang 18 front end, -O0 code generation and the sroa/early-cse/simplifycfg/instsimplify/adce passes (source to LLVM IR)',
 'the verification-condition generator in /verif/engine (symbolic semantics of LLVM IR)',
 'z3, cvc5 (unsat answers) and the exact rational polynomial normaliser engine/poly.py',
 'the mpi.h and libstdc++ headers of the sandbox']
GLOBAL_ASSUME=['floating point numbers are treated as mathematical reals (no rounding, overflow or NaN)',
 'sqrt/sin/cos/exp/log and similar library functions are uninterpreted apart from stated algebraic facts (sqrt(x)^2=x, sin^2+cos^2=1)',
 'operator new/malloc always succeed and return fresh memory; output streams have no effect on program state']
if __name__=='__main__': main()
