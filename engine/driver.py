"""compile a harness translation unit to IR and run its proofs"""
import sys,os,subprocess,json,time,re,hashlib,tempfile,shutil,importlib.util,traceback
from concurrent.futures import ProcessPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
MPI=None
def mpi():
    global MPI
    if MPI is None: MPI=subprocess.run(['mpicxx','--showme:compile'],capture_output=True,text=True).stdout.split()
    return MPI
def incs(): return ['-I'+V+'/proofs']+['-I%s/libraries%s'%(REPO,x) for x in ('','/plumbing','/datatypes','/tools')]
PASSES='function(sroa,early-cse,simplifycfg,instsimplify,adce,simplifycfg)'
def compile_ir(src,out,ndim=None,defs=(),extra=()):
    raw=out+'.raw.ll'
    cmd=['clang++-18','-x','c++','-std=c++17','-fno-rtti','-O0','-Xclang','-disable-O0-optnone','-fno-exceptions','-fno-access-control',
     '-ffp-contract=off','-DOMPI_SKIP_MPICXX=1','-w','-fno-discard-value-names','-fno-threadsafe-statics','-DHILA_VERIFY','-include',V+'/proofs/hila_verify.h']+incs()+mpi()
    if ndim: cmd.append('-DNDIM=%d'%ndim)
    cmd+=list(defs)+list(extra)+['-S','-emit-llvm',src,'-o',raw]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise RuntimeError('harness does not compile against the current tree:\n'+r.stderr[:4000])
    r=subprocess.run(['opt-18','-S','-passes='+PASSES,raw,'-o',out],capture_output=True,text=True)
    if r.returncode: raise RuntimeError('opt: '+r.stderr[:2000])
    os.unlink(raw)
    return out
_MOD={}
def load(ll):
    import llir
    if ll not in _MOD: _MOD[ll]=llir.Module(open(ll).read())
    return _MOD[ll]
def parse_opts(t):
    o={}
    for kv in t.replace(',',' ').split():
        k,_,v=kv.partition('=')
        if v=='': v=True
        elif re.fullmatch(r'-?\d+',v): v=int(v)
        elif v in('true','false'): v=v=='true'
        o[k]=v
    return o
def proofs(mod):
    out={}
    for f in mod.funcs:
        n=f[1:].strip('"')
        if n.startswith('proof_'):
            g='@proofopt_'+n[6:]; o={}
            d=mod.global_def(g)
            if d and d[2] and d[2][0]=='cstr': o=parse_opts(d[2][1].rstrip(b'\0').decode())
            out[n[6:]]=o
    return out
def run_proof(ll,name,opts,plan=None,verbose=False):
    import exec as X, models, llir, z3
    t0=time.time()
    mod=load(ll)
    o=dict(opts); o['verbose']=verbose; o['prof']='PROF' in os.environ
    ex=X.Exec(mod,o.get('mode','int'),o)
    extra=[]; 
    if plan:
        sp=importlib.util.spec_from_file_location('plan',plan); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        if hasattr(m,'models'): extra=m.models(ex,name)
    models.install(ex,extra)
    if o.get('stubs'): models.install_stubs(ex,mod,o['stubs'].split('+'))
    st=X.State(); res={'name':name,'error':None}
    paths=0
    try:
        outs=ex.run(st,mod.func('@proof_'+name),[]); paths=len(outs)
    except X.Unsupported as e: res['error']='unsupported: %s [in %s]'%(e,' / '.join(ex.stack[-3:]))
    except llir.IRError as e: res['error']='ir: %s'%e
    except RecursionError as e: res['error']='recursion'
    except Exception as e:
        res['error']='internal: '+''.join(traceback.format_exception(e))[-1500:]
    res.update(paths=paths,time=time.time()-t0,solver_time=ex.tsolve,queries=ex.nsolve,covers=ex.covers,
      funcs={k:v for k,v in ex.funcs_used.items() if not k.startswith(('std::','v::','__gnu','proof_','bool v::'))},
      assumptions=sorted(ex.assumptions),loop_invariants=ex.loops_inv,steps=ex.steps,merges=ex.nmerge)
    ob={}
    fails=[]
    for b in ex.obl:
        k=(b.kind,b.label); d=ob.setdefault(k,{'n':0,'proved':0,'backends':{}})
        d['n']+=1
        if b.status=='proved': d['proved']+=1; d['backends'][b.backend or 'simplifier']=d['backends'].get(b.backend or 'simplifier',0)+1
        else: fails.append({'kind':b.kind,'label':b.label,'status':b.status,'backend':b.backend,'detail':b.detail,'inputs':b.inputs,'path':b.path})
    res['obligations']=[{'kind':k[0],'label':k[1],**d} for k,d in ob.items()]
    res['failures']=fails
    return res
if __name__=='__main__':
    src=sys.argv[1]; which=sys.argv[2:] 
    ndim=int(os.environ['NDIM']) if 'NDIM' in os.environ else None
    d=tempfile.mkdtemp(prefix='vw'); ll=d+'/h.ll'
    t=time.time(); compile_ir(src,ll,ndim); 
    plan=src[:-4]+'.py'
    mod=load(ll); ps=proofs(mod); print('compiled %.1fs'%(time.time()-t),len(ps),'proofs')
    for n,o in ps.items():
        if which and not any(re.fullmatch(w,n) for w in which): continue
        r=run_proof(ll,n,o,plan if os.path.exists(plan) else None,verbose='VV' in os.environ)
        tot=sum(x['n'] for x in r['obligations']); pr=sum(x['proved'] for x in r['obligations'])
        bad=[f for f in r['failures']]
        print('%-34s %s obl %d/%d paths %d q %d %.2fs steps %d %s'%(n,'OK  ' if tot==pr and not r['error'] else 'FAIL',pr,tot,r['paths'],r['queries'],r['time'],r['steps'],r['error'] or ''))
        for f in bad[:4]: print('     ',f['status'],f['label'],f['backend'],f['detail'],(f['inputs'] or [])[:12])
        for c,v in r['covers'].items():
            if v!='reached': print('      cover',c,v)
        if os.environ.get('FUNCS'): print('     ',list(r['funcs'])[:40])
    shutil.rmtree(d)
