"""Deductive executor: symbolic execution of the LLVM IR that clang generates from the real sources,
with contracts at calls, invariants at loops, and one solver obligation per asserted fact per path."""
import re, time, subprocess, os, tempfile, sys
import z3
from fractions import Fraction
from term import *
import llir, smt, poly
from smt import Tr, zbool
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class PathEnd(Exception): pass

class Ptr:
    __slots__=('r','o')
    def __init__(s,r,o): s.r=r; s.o=o
    def __repr__(s): return 'Ptr(%s,%s)'%(s.r,show(s.o))
    def __eq__(s,x): return isinstance(x,Ptr) and s.r==x.r and s.o is x.o
    def __hash__(s): return hash((s.r,s.o.id))
Z64=bv(0,64)
NULL=Ptr(0,Z64)

class Region:
    __slots__=('name','size','cells','default','kind','stride','cols','owner','freed','n','const','sz8')
    def __init__(s,name,size,default,kind='cells'):
        s.name=name; s.size=size; s.cells={}; s.default=default; s.kind=kind
        s.stride=None; s.cols={}; s.owner=None; s.freed=False; s.n=None; s.const=False
    def clone(s):
        r=Region(s.name,s.size,s.default,s.kind); r.cells=dict(s.cells); r.stride=s.stride
        r.cols=dict(s.cols); r.freed=s.freed; r.n=s.n; r.const=s.const
        return r

class State:
    __slots__=('pc','mem','inputs','trace','writes','ghost','known')
    def __init__(s):
        s.pc=(); s.mem={}; s.inputs=(); s.trace=(); s.writes=None; s.ghost={}; s.known=frozenset()
    def fork(s):
        n=State(); n.pc=s.pc; n.mem=dict(s.mem); n.inputs=s.inputs; n.trace=s.trace
        n.writes=s.writes; n.ghost=dict(s.ghost); n.known=s.known
        for r in s.mem.values(): r.owner=None
        return n
    def assume(s,c):
        if c is TRUE: return
        add=[]
        for x in (c.args if c.op=='and' else (c,)):
            if x.id not in s.known: add.append(x)
        s.pc+=tuple(add); s.known|={x.id for x in add}
    def reg(s,rid): return s.mem[rid]
    def wreg(s,rid):
        r=s.mem[rid]
        if r.owner is not s:
            r=r.clone(); r.owner=s; s.mem[rid]=r
        if s.writes is not None: s.writes.add(rid)
        return r

class Oblig:
    __slots__=('label','status','backend','time','detail','inputs','path','kind')
    def __init__(s,label,kind): s.label=label; s.kind=kind; s.status=None; s.backend=''; s.time=0; s.detail=''; s.inputs=None; s.path=None

FK={'i':lambda t:t[1] if t[1]!=1 else 'B','f':lambda t:'R'}

JDBG=0
class Exec:
    def __init__(s,mod,mode='int',opts=None):
        s.m=mod; s.mode=mode; s.tr=Tr(mode); s.obl=[]; s.nreg=[1]; s.opts=opts or {}
        s.trl=Tr(mode,True) if mode=='int' else None
        s.models=[]; s.bound=s.opts.get('unroll',5000)
        s.goff={}; s.funcs_used={}; s.depth=0; s.t0=time.time(); s.budget=s.opts.get('budget',600)
        s.assumptions=set(); s.covers={}; s.nsolve=0; s.tsolve=0; s.fcache={}; s.pcache={}
        s.loops_inv=[]; s.demc={}; s.stack=[]; s.havoc_globals=True; s.externs=set(); s.spec=0
        s.feas_to=s.opts.get('feas_to',1500); s.ob_to=s.opts.get('ob_to',8000)
        s.dyn=[]; s.stop_first=s.opts.get('stop_first',True)
        s.check_ovf=s.opts.get('overflow',False); s.check_bounds=s.opts.get('bounds',True)
        s.nmerge=0; s.steps=0; s.nuid=0; s.wlogs=[]; s.dry=0; s.invmode=None; s.use_hooks=True; s.hookc={}; s.atomc={}
        s.stubs={}; s.iteptr={}
    # ---------------------------------------------------------- regions
    def newregion(s,st,name,size,default='undef',kind='cells'):
        rid=s.nreg[0]; s.nreg[0]+=1
        r=Region(name,size,default,kind); r.owner=st; st.mem[rid]=r
        return rid
    def globptr(s,st,name):
        n=s.goff.get(name)
        if name in s.m.funcs or name in s.m.decls or name in s.m.aliases: return Ptr('fn:'+name,Z64)
        if n is None:
            n='g:'+name; s.goff[name]=n
        if n not in st.mem:
            d=s.m.global_def(name)
            if d is None: raise Unsupported('global '+name)
            const,t,init=d
            try: size=s.m.sizeof(t)
            except llir.IRError: size=1<<20
            r=Region(name,bv(size,64),'sym'); r.owner=st; st.mem[n]=r
            if init is not None and (const or name in s.opts.get('init_globals',()) or s.opts.get('all_globals_init')):
                r.default='zero'; s.initinto(st,r,0,t,init)
                r.const=const
        return Ptr(n,Z64)
    def initinto(s,st,r,off,t,c):
        t=s.m.res(t)
        k=c[0]
        if k=='zero' or k in('undef','poison'):
            s.zfill(r,off,t); return
        if t[0]=='arr':
            es=s.m.sizeof(t[2])
            if k=='cstr':
                for i,b in enumerate(c[1]): r.cells[off+i]=(1,bv(b,8))
                return
            for i,(et,ev) in enumerate(c[1]): s.initinto(st,r,off+i*es,et,ev)
        elif t[0]=='struct':
            for i,(et,ev) in enumerate(c[1]):
                o,_=s.m.field_off(t,i); s.initinto(st,r,off+o,et,ev)
        else:
            r.cells[off]=(s.m.sizeof(t),s.val(st,{},t,c))
    def zfill(s,r,off,t):
        pass  # default zero
    # ---------------------------------------------------------- values
    def fresh(s,st,name,t):
        t=s.m.res(t)
        k=t[0]
        if k=='i': return var(name,t[1] if t[1]!=1 else 'B')
        if k=='f': return var(name,'R')
        if k=='ptr': return Ptr('undef',Z64)
        if k=='struct': return tuple(s.fresh(st,name,x) for x in t[1])
        if k=='arr' or k=='vec': return tuple(s.fresh(st,name,t[2]) for _ in range(t[1]))
        raise Unsupported('fresh %r'%(t,))
    def zero(s,t):
        t=s.m.res(t);k=t[0]
        if k=='i': return bv(0,t[1]) if t[1]!=1 else FALSE
        if k=='f': return ZERO
        if k=='ptr': return NULL
        if k=='struct': return tuple(s.zero(x) for x in t[1])
        if k in('arr','vec'): return tuple(s.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero')
    def val(s,st,env,t,v):
        k=v[0]
        if k=='l':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined local '+v[1])
        if k=='ci':
            return bv(v[1],t[1]) if t[1]!=1 else boolc(v[1]&1)
        if k=='cf': return s.fconst(v[1])
        if k=='null': return NULL
        if k=='g': return s.globptr(st,v[1])
        if k in('undef','poison'): 
            return s.fresh(st,'undef',t)
        if k=='zero': return s.zero(t)
        if k=='cgep': return s.gep(st,env,v[1],v[2])
        if k=='cagg': return tuple(s.val(st,env,et,ev) for et,ev in v[1])
        if k=='cstr': return tuple(bv(b,8) for b in v[1])
        if k=='ccast':
            x=s.val(st,env,v[2],v[3]); return s.cast(v[1],v[2],x,v[4],frozenset())
        if k=='cbin':
            return s.arith(st,v[1],v[2],s.val(st,env,v[2],v[3]),s.val(st,env,v[2],v[4]),frozenset())
        if k=='cfx': raise Unsupported('x87 const')
        if k=='meta': return None
        if k=='none': return None
        raise Unsupported('val '+k)
    def fconst(s,f):
        if f!=f or f in(float('inf'),float('-inf')):
            # infinities/NaN are outside the reals: uninterpreted constant
            return namedvar('fconst_%s'%str(f).replace('-','neg'),'R')
        return real(Fraction(f))
    # ---------------------------------------------------------- solver
    def zs(s,terms,extra=()):
        es=[s.tr.b(t) for t in terms]
        es+=s.tr.sides(terms)
        return es
    def slice(s,pc,goalvars):
        return pc
    def feasible(s,st,c):
        if c is FALSE: return False
        if c is TRUE: return True
        if c.id in st.known: return True
        if not_(c).id in st.known: return False
        if s.dry and s.opts.get('fastdry'): return True   # only the write set matters: more paths are harmless
        if s.opts.get('lazyreal'):
            q=c.args[0] if c.op=='not' else c
            if q.op in('req','rlt'):
                if s.spec==0 and not ite_conds(q.args):
                    try: z,R=poly.prove_eq(q.args[0],q.args[1],20000)
                    except Exception: z=None
                    if z: return (q.op=='req')==(c is q)
                return True
        key=(frozenset(st.known),c.id)
        r=s.fcache.get(key)
        if r is None:
            r=s._check(list(st.pc)+[c],s.feas_to)!='unsat'
            s.fcache[key]=r
        return r
    def atoms(s,t):
        """variables of a term (cached)"""
        r=s.atomc.get(t.id)
        if r is None:
            v=set(); seen=set(); st=[t]
            while st:
                x=st.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x.op in('var','avar'): v.add(x.id)
                for a in x.args:
                    if isinstance(a,T): st.append(a)
            r=s.atomc[t.id]=frozenset(v)
        return r
    def near(s,terms,depth):
        """the facts within `depth` steps of the last term in the graph of shared variables (dropping facts is sound)"""
        cnt={}
        for x in terms[:-1]:
            for v in s.atoms(x): cnt[v]=cnt.get(v,0)+1
        n=len(terms); hub={v for v,c in cnt.items() if c>max(12,n//3)}
        cur=set(s.atoms(terms[-1])); keep=[False]*(n-1)
        for d in range(depth):
            new=set()
            for i,x in enumerate(terms[:-1]):
                if keep[i]: continue
                a=s.atoms(x)
                if (a-hub)&cur or a<=cur or not a: keep[i]=True; new|=a
            if not new-cur: break
            cur|=new
        return [x for x,k in zip(terms,keep) if k]+[terms[-1]]
    def _check(s,terms,to,want_model=False,full=False):
        t=time.time()
        if time.time()-s.t0>s.budget: raise Unsupported('time budget exhausted')
        fd=s.opts.get('near')
        if fd and len(terms)>25 and not full and s.trl is not None:
            for d in ((fd,) if not want_model else (1,fd)):
                sub=s.near(terms,d)
                sol=z3.Solver(); sol.set('timeout',1000)
                for e in [s.trl.b(x) for x in sub]+s.trl.sides(sub): sol.add(e)
                r=sol.check(); s.nsolve+=1
                if r==z3.unsat:
                    s.tsolve+=time.time()-t
                    return ('unsat',None) if want_model else 'unsat'
                if not want_model: s.tsolve+=time.time()-t; return 'unknown'
        if s.trl is not None and s.tr.nonlin:
            sol=z3.SolverFor('QF_LIA') if False else z3.Solver(); sol.set('timeout',int(min(to,1000)))
            es=[s.trl.b(x) for x in terms]; es+=s.trl.sides(terms)
            for e in es: sol.add(e)
            r=sol.check(); s.nsolve+=1
            if r==z3.unsat:
                s.tsolve+=time.time()-t
                return ('unsat',None) if want_model else 'unsat'
            if s.opts.get('linfeas') and not want_model and not full: s.tsolve+=time.time()-t; return 'unknown'
        sol=z3.Solver(); sol.set('timeout',int(to))
        for e in s.zs(terms): sol.add(e)
        r=sol.check(); s.nsolve+=1; s.tsolve+=time.time()-t
        if s.opts.get('prof') and time.time()-t>0.3: print('  slow %.2f %s %s goal %s'%(time.time()-t,r,'OB' if want_model else 'feas',show(terms[-1],5)[:200]))
        if want_model and r==z3.sat: return 'sat',sol.model()
        if want_model: return str(r),sol
        return str(r)
    def entails(s,st,c,to=1500):
        """cheap internal question: does the path condition imply c"""
        if c is TRUE or c.id in st.known: return True
        if c is FALSE: return False
        return not s.feasible_to(st,not_(c),to)
    def feasible_to(s,st,c,to):
        if not_(c).id in st.known: return False
        key=(frozenset(st.known),c.id)
        r=s.fcache.get(key)
        if r is None:
            r=s._check(list(st.pc)+[c],to)!='unsat'
            s.fcache[key]=r
        return r
    # ---------------------------------------------------------- obligations
    def prove(s,st,goal,label,kind='ensures'):
        if s.dry: return True
        o=Oblig(label,kind); t=time.time(); s.obl.append(o)
        if goal is TRUE or goal.id in st.known:
            o.status='proved'; o.backend='simplifier'; return True
        key=(frozenset(st.known),goal.id)
        r=s.pcache.get(key)
        if r is not None:
            o.status,o.backend=r; return o.status=='proved'
        s._prove(st,goal,o)
        o.time=time.time()-t
        s.pcache[key]=(o.status,o.backend)
        if o.status!='proved':
            o.path=' / '.join(s.stack)
            if s.opts.get('verbose'): print('FAILED',label,o.status,show(goal,8),'\n   PC',[show(x,6) for x in st.pc][-30:])
        return o.status=='proved'
    def _prove(s,st,goal,o):
        # split conjunctions
        if goal.op=='and':
            for g in goal.args:
                if g.id in st.known: continue
                s._prove(st,g,o)
                if o.status!='proved': return
            o.status='proved'; return
        if goal.op=='req' and s.realgoal(goal):
            r=s.prove_req(st,goal,o)
            if r: o.status='proved'; o.backend=o.backend or 'poly'; return
            if r is False and o.status=='failed': return
        if goal.op=='forall' : pass
        fs=list(st.pc)+[not_(goal)]
        tt=time.time()
        to=s.ob_to
        r,mdl=s._check(fs,to,True)
        if r=='unsat': o.status='proved'; o.backend='z3'; return
        if r=='sat':
            o.status='failed'; o.backend='z3'; s.setmodel(st,o,mdl); return
        r2=s.portfolio(mdl,o)
        if r2=='unsat': o.status='proved'; return
        if r2=='sat': o.status='failed'; return
        o.status='unknown'; o.detail='solvers: unknown/timeout'
    def realgoal(s,g):
        return True
    def portfolio(s,sol,o):
        """second opinions on an undecided obligation: cvc5 and another z3 run, via SMT-LIB"""
        txt='(set-logic ALL)\n'+sol.to_smt2()
        d=tempfile.mkdtemp(prefix='vob'); f=os.path.join(d,'q.smt2')
        open(f,'w').write(txt)
        to=max(5,s.opts.get('port_to',20))
        cmds=[('cvc5',['cvc5','--tlimit=%d'%(to*1000),'--nl-ext-tplanes',f]),
              ('z3-new',['z3-new','-T:%d'%to,'smt.arith.solver=2',f])]
        ps=[(n,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)) for n,c in cmds]
        res='unknown'; end=time.time()+to+5; live=list(ps)
        t0=time.time()
        while live and time.time()<end and res=='unknown':
            for n,p in list(live):
                if p.poll() is not None:
                    live.remove((n,p)); out=p.stdout.read().strip().split('\n')[0]
                    if out in('sat','unsat'): res=out; o.backend=n
            time.sleep(0.02)
        for n,p in live: p.kill()
        s.nsolve+=1; s.tsolve+=time.time()-t0
        try: os.unlink(f); os.rmdir(d)
        except OSError: pass
        return res
    def setmodel(s,st,o,mdl):
        o.inputs=s.concretize(st,mdl)
    def concretize(s,st,mdl):
        out=[]
        for name,kind,t,n in st.inputs:
            try:
                if kind=='array':
                    out.append((name,'array',None)); continue
                e=s.tr.itr(t) if s.mode=='int' else s.tr.tr(t)
                v=mdl.eval(e,model_completion=True)
                if t.sort=='R':
                    if z3.is_rational_value(v): out.append((name,kind,float(Fraction(v.numerator_as_long(),v.denominator_as_long()))))
                    else: out.append((name,kind,float(v.approx(20).as_fraction()) if z3.is_algebraic_value(v) else 0.5))
                elif t.sort=='B': out.append((name,kind,int(z3.is_true(v))))
                else: out.append((name,kind,v.as_long() if s.mode=='int' else v.as_signed_long()))
            except Exception as e: out.append((name,kind,None))
        return out
    # -- real equality goals: polynomial normal form with case split on ite conditions
    def prove_req(s,st,goal,o,depth=0):
        a,b=goal.args
        return s._req(st,a,b,o,0)
    def _req(s,st,a,b,o,depth):
        conds=ite_conds((a,b))
        # substitute conditions already decided
        dec={}
        for c in conds:
            if c.id in st.known: dec[c.id]=TRUE
            elif not_(c).id in st.known: dec[c.id]=FALSE
        if dec: a,b=subst_ite(a,dec),subst_ite(b,dec); conds=ite_conds((a,b))
        if a is b: o.backend=o.backend or 'poly'; return True
        if conds:
            if depth>14: return None
            c=conds[0]
            for v,cc in ((TRUE,c),(FALSE,not_(c))):
                if not s.feasible(st,cc): continue
                st2=st.fork(); st2.assume(cc)
                d={c.id:v}
                r=s._req(st2,subst_ite(a,d),subst_ite(b,d),o,depth+1)
                if not r: return r
            return True
        pinned={}
        for p in st.pc:
            if p.op=='req':
                x,y=p.args
                if x.op in('var','rfun') and y.c is not None: pinned[x.id]=y.c
                elif y.op in('var','rfun') and x.c is not None: pinned[y.id]=x.c
        zs=zero_facts(st.pc)
        for i in zs: pinned.setdefault(i,0)
        ok,R=poly.prove_eq(a,b,s.opts.get('polylimit',400000),pinned)
        if ok:
            o.backend='poly'
            if R.dens: s.assumptions.add('real divisions: denominators non-zero')
            return True
        # quick falsification by evaluation when there are no relevant hypotheses
        if ok is False:
            import random
            rnd=random.Random(7)
            vs=collect_vars((a,b)+tuple(st.pc))
            for k in range(30):
                envv={}
                for v in vs:
                    if v.sort=='R': envv[v.id]=Fraction(rnd.randint(-9,9),rnd.choice([1,2,4]))
                    elif v.sort=='B': envv[v.id]=rnd.random()<.5
                    elif isinstance(v.sort,int):
                        lo=v.args[1] if v.args[1] is not None else -5
                        hi=v.args[2] if v.args[2] is not None else 5
                        envv[v.id]=rnd.randint(lo,min(hi,lo+10))&((1<<v.sort)-1)
                try:
                    if not all(evalt(p,envv) for p in st.pc): continue
                    x,y=evalt(a,envv),evalt(b,envv)
                except EvalErr: continue
                if abs(float(x)-float(y))>1e-6*(1+abs(float(x))):
                    o.status='failed'; o.backend='evaluation'
                    o.inputs=[(n,kd,(float(envv[t.id]) if t.sort=='R' else (signed(envv[t.id],t.sort) if isinstance(t.sort,int) else int(envv[t.id]))) if (t is not None and t.id in envv) else 0) for n,kd,t,_ in st.inputs]
                    o.detail='lhs=%s rhs=%s'%(float(x),float(y))
                    return False
        return None
    # ---------------------------------------------------------- memory
    def region_for(s,st,p,what):
        if not isinstance(p,Ptr): raise Unsupported('%s through non-pointer %s'%(what,p))
        if p.r==0:
            s.prove(st,FALSE,'memory: null dereference in '+s.fn(),'safety'); raise PathEnd()
        if p.r not in st.mem: raise Unsupported('%s through invalid pointer %r'%(what,p))
        r=st.mem[p.r]
        if r.freed:
            s.prove(st,FALSE,'memory: use after free in '+s.fn(),'safety'); raise PathEnd()
        return r
    # pointers that differ between joined states: ('ite',n) stands for a choice, resolved when used
    def mkite(s,c,a,b):
        r=('ite',len(s.iteptr)); s.iteptr[r]=(c,a,b); return Ptr(r,Z64)
    def choices(s,st,p,c=TRUE):
        """[(condition,pointer)] the pointer can be"""
        if not isinstance(p,Ptr) or p.r not in s.iteptr: return [(c,p)]
        x,a,b=s.iteptr[p.r]; out=[]
        for y,q in((x,a),(not_(x),b)):
            d=and_(c,y)
            if d is not FALSE and s.feasible(st,d):
                out+=s.choices(st,Ptr(q.r,q.o if p.o is Z64 else binop('add',q.o,p.o,frozenset({'nsw'}))) if isinstance(q,Ptr) else q,d)
        if not out: raise PathEnd()
        return out
    def notnull(s,st,ch,what):
        for c,q in ch:
            if isinstance(q,Ptr) and q.r==0: s.prove(st,not_(c),'memory: null dereference in '+s.fn(),'safety')
        return [(c,q) for c,q in ch if not(isinstance(q,Ptr) and q.r==0)]
    def one(s,st,p):
        if not isinstance(p,Ptr) or p.r not in s.iteptr: return p
        ch=s.choices(st,p)
        if len(ch)>1: ch=s.notnull(st,ch,'use')
        if len(ch)==1: return ch[0][1]
        raise Unsupported('use of a pointer that differs between paths')
    def load(s,st,p,t):
        if isinstance(p,Ptr) and p.r in s.iteptr:
            ch=s.choices(st,p)
            if len(ch)>1: ch=s.notnull(st,ch,'load')
            if not ch: raise PathEnd()
            res=s.load(st,ch[-1][1],t)
            for c,q in ch[-2::-1]: res=s.vite(c,s.load(st,q,t),res)
            return res
        t=s.m.res(t)
        if t[0] in('struct','arr'):
            out=[]
            n=len(t[1]) if t[0]=='struct' else t[1]
            for i in range(n):
                if t[0]=='struct': o,et=s.m.field_off(t,i)
                else: o,et=i*s.m.sizeof(t[2]),t[2]
                out.append(s.load(st,s.padd(p,o),et))
            return tuple(out)
        if t[0]=='vec':
            es=s.m.sizeof(t[2]); return tuple(s.load(st,s.padd(p,i*es),t[2]) for i in range(t[1]))
        r=s.region_for(st,p,'load')
        size=s.m.sizeof(t)
        if r.kind=='arr': return s.arr_load(st,p,r,size,t)
        c,m=lin(p.o)
        if not m: return s.cell_load(st,p.r,r,c,size,t)
        # symbolic offset in a cell region: enumerate
        cands=s.candidates(st,p,r,size)
        res=None; 
        for c0,cond in cands:
            v=s.cell_load(st,p.r,st.mem[p.r],c0,size,t)
            res=v if res is None else s.vite(cond,v,res)
        return res
    def vite(s,c,a,b):
        if a is b or (isinstance(a,Ptr) and a==b): return a
        if isinstance(a,tuple): return tuple(s.vite(c,x,y) for x,y in zip(a,b))
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a.r==b.r: return Ptr(a.r,ite(c,a.o,b.o))
            raise Unsupported('ite over pointers to different objects')
        if isinstance(a,Ptr) or isinstance(b,Ptr): raise Unsupported('ite ptr/int')
        return ite(c,a,b)
    def padd(s,p,k):
        return Ptr(p.r,binop('add',p.o,bv(k,64),frozenset({'nsw'})) if k else p.o)
    def candidates(s,st,p,r,size):
        c,m=lin(p.o)
        if r.size is None or r.size.c is None: raise Unsupported('symbolic offset in region %s of unknown size'%r.name)
        tot=r.size.c
        if s.check_bounds:
            ok=s.prove(st,and_(cmp('sge',p.o,Z64),cmp('sle',p.o,bv(tot-size,64))),'memory: in-bounds access to %s in %s'%(s.rname(r),s.fn()),'safety')
        st.assume(and_(cmp('sge',p.o,Z64),cmp('sle',p.o,bv(tot-size,64))))
        import math
        g=0
        for k in m.values(): g=math.gcd(g,k)
        out=[]
        x=c%g
        cnt=0
        while x+size<=tot:
            cond=cmp('eq',p.o,bv(x,64))
            cnt+=1
            if cnt>4000: raise Unsupported('too many candidate offsets in '+r.name)
            if cond is not FALSE and (tot//g<=2 or s.feasible(st,cond)): out.append((x,cond))
            x+=g
        if not out: raise PathEnd()
        return out
    def rname(s,r): return r.name
    def cell_load(s,st,rid,r,off,size,t):
        ptr=t[0]=='ptr'
        if r.size is not None and r.size.c is not None and (off<0 or off+size>r.size.c):
            s.prove(st,FALSE,'memory: in-bounds access to %s in %s'%(s.rname(r),s.fn()),'safety'); raise PathEnd()
        x=r.cells.get(off)
        if x and x[0]==size: return s.coerce(st,x[1],t,r,off)
        ov=[o for o in range(off-15,off+size) if o in r.cells and o+r.cells[o][0]>off] 
        if not ov:
            v=s.lazy(st,r,off,size,t)
            if not isinstance(v,Ptr) or v.r!='undef':
                r2=st.mem[rid]
                if r2.owner is not st: 
                    r2=r2.clone(); r2.owner=st; st.mem[rid]=r2
                r2.cells[off]=(size,v if not(isinstance(v,T) and v.sort=='B') else zext(v,8))
            return v
        if t[0]=='f' and size==8 and len(ov)==1 and r.cells[ov[0]][0]==8 and ov[0]==off: pass
        # assemble from pieces (integers only)
        tot=None; o=off
        while o<off+size:
            y=r.cells.get(o)
            if y is None:
                # inside a larger cell?
                q=[z for z in range(o-15,o) if z in r.cells and z+r.cells[z][0]>o]
                if q:
                    z=q[0]; zs,zv=r.cells[z]; n=min(z+zs,off+size)-o
                    piece=extract(s.asint(zv,zs*8),(o-z)*8,n*8)
                else:
                    n=1
                    while o+n<off+size and (o+n) not in r.cells: n+=1
                    piece=s.lazy(st,r,o,n,('i',n*8))
                    if r.default!='undef': 
                        rr=st.wreg(rid) if False else r
            else:
                n=min(y[0],off+size-o); piece=s.asint(y[1],y[0]*8)
                if n<y[0]: piece=extract(piece,0,n*8)
            tot=piece if tot is None else concat(piece,tot)
            o+=n
        return s.coerce(st,tot,t,r,off)
    def asint(s,v,w):
        if isinstance(v,Ptr): raise Unsupported('partial pointer access')
        if v.sort=='R': return mk('rbits',(v,),w)
        if v.sort=='B': return zext(v,w)
        return v
    def coerce(s,st,v,t,r=None,off=None):
        if t[0]=='ptr':
            if isinstance(v,Ptr): return v
            if isinstance(v,T) and v.c==0: return NULL
            raise Unsupported('integer reinterpreted as pointer in %s+%s'%(r.name if r else '?',off))
        if isinstance(v,Ptr): return v        # ptr loaded as i64: keep
        if t[0]=='f':
            if v.sort=='R': return v
            if v.op=='rbits': return v.args[0]
            if v.c is not None:
                import struct
                return s.fconst(struct.unpack('<d' if t[1]==64 else '<f',v.c.to_bytes(t[1]//8,'little'))[0])
            if v.op=='ite': return ite(v.args[0],s.coerce(st,v.args[1],t),s.coerce(st,v.args[2],t))
            raise Unsupported('integer bits as float: '+show(v))
        w=t[1]
        if v.sort=='R': v=mk('rbits',(v,),64 if w==64 else w)
        if w==1: return trunc(v,'B') if v.sort!='B' else v
        if v.sort=='B': return zext(v,w)
        if v.sort!=w and w<v.sort: return extract(v,0,w)
        return v
    def lazy(s,st,r,off,size,t):
        if r.default=='zero': return s.zero(t)
        if r.default=='undef':
            return s.fresh(st,'undef_%s'%r.name,t)
        if t[0]=='ptr': raise Unsupported('symbolic pointer at %s+%d'%(r.name,off))
        nm='%s+%d'%(r.name,off)
        if t[0]=='f': return namedvar(nm+':r','R')
        if t[1]==1: return cmp('ne',namedvar(nm+':8',8,0,1),bv(0,8))
        return namedvar(nm+':%d'%t[1],t[1])
    def store(s,st,p,v,t):
        if isinstance(p,Ptr) and p.r in s.iteptr:
            ch=s.choices(st,p)
            if len(ch)>1: ch=s.notnull(st,ch,'store')
            if not ch: raise PathEnd()
            if len(ch)==1: return s.store(st,ch[0][1],v,t)
            for c,q in ch: s.store(st,q,s.vite(c,v,s.load(st,q,t)),t)
            return
        t=s.m.res(t)
        if t[0] in('struct','arr','vec'):
            n=len(t[1]) if t[0]=='struct' else t[1]
            for i in range(n):
                if t[0]=='struct': o,et=s.m.field_off(t,i)
                else: o,et=i*s.m.sizeof(t[2]),t[2]
                s.store(st,s.padd(p,o),v[i],et)
            return
        r=s.region_for(st,p,'store')
        size=s.m.sizeof(t)
        if r.const: s.prove(st,FALSE,'memory: write to constant %s'%r.name,'safety'); raise PathEnd()
        if isinstance(v,T) and v.sort=='B': v=zext(v,size*8)
        if r.kind=='arr': return s.arr_store(st,p,r,size,v,t)
        c,m=lin(p.o)
        if not m: return s.cell_store(st,p.r,c,size,v)
        cands=s.candidates(st,p,r,size)
        if len(cands)==1: return s.cell_store(st,p.r,cands[0][0],size,v)
        for c0,cond in cands:
            old=s.cell_load(st,p.r,st.mem[p.r],c0,size,t)
            if isinstance(old,T) and old.sort=='B': old=zext(old,size*8)
            s.cell_store(st,p.r,c0,size,s.vite(cond,v,old))
    def cell_store(s,st,rid,off,size,v):
        r=st.wreg(rid)
        if r.size is not None and r.size.c is not None and (off<0 or off+size>r.size.c):
            s.prove(st,FALSE,'memory: in-bounds write to %s in %s'%(s.rname(r),s.fn()),'safety'); raise PathEnd()
        x=r.cells.get(off)
        if x is None or x[0]!=size:
            for o in range(off-15,off+size):
                y=r.cells.get(o)
                if y is not None and o+y[0]>off:
                    del r.cells[o]
                    if o<off:  # keep the lower part
                        r.cells[o]=(off-o,extract(s.asint(y[1],y[0]*8),0,(off-o)*8))
                    if o+y[0]>off+size:
                        n=o+y[0]-off-size
                        r.cells[off+size]=(n,extract(s.asint(y[1],y[0]*8),(off+size-o)*8,n*8))
        r.cells[off]=(size,v)
        for w in s.wlogs: s.wlog(w,(rid,off,size),v)
    def wlog(s,w,k,v):
        l=w.setdefault(k,[])
        if len(l)<40 and not any(x is v or x==v for x in l): l.append(v)
    # arrays of unbounded length
    def arr_idx(s,st,p,r,size,write):
        c,m=lin(p.o)
        if r.stride is None:
            raise Unsupported('array stride unknown '+r.name)
        S=r.stride
        idx=None
        for a,k in m.items():
            if k%S: 
                # maybe index*smaller element inside stride: not supported
                raise Unsupported('offset %s not a multiple of stride %d in %s'%(show(p.o,6),S,r.name))
            t=a if a.sort==64 else sext(a,64)
            e=binop('mul',t,bv(k//S,64),frozenset({'nsw'}))
            idx=e if idx is None else binop('add',idx,e,frozenset({'nsw'}))
        q,sub=divmod(c,S)
        if idx is None: idx=bv(q,64)
        elif q: idx=binop('add',idx,bv(q,64),frozenset({'nsw'}))
        if r.n is not None and s.check_bounds:
            g=and_(cmp('sge',idx,Z64),cmp('slt',idx,r.n))
            s.prove(st,g,'memory: index within %s in %s'%(s.rname(r),s.fn()),'safety')
            st.assume(g)
        return idx,sub
    def arr_load(s,st,p,r,size,t):
        idx,sub=s.arr_idx(st,p,r,size,False)
        sort='R' if t[0]=='f' else (t[1] if t[0]=='i' and t[1]!=1 else (8 if t[0]=='i' else None))
        if sort is None: raise Unsupported('pointer in symbolic array '+r.name)
        A=s.col(st,p.r,r,sub,size,sort)
        if A is None:
            # e.g. i64 load over an R column
            A=s.anycol(r,sub,size)
            if A is None: raise Unsupported('column mismatch in %s+%d'%(r.name,sub))
        v=select(A,idx)
        return s.coerce(st,v,t,r,sub)
    def anycol(s,r,sub,size): return r.cols.get((sub,size))
    def col(s,st,rid,r,sub,size,sort):
        A=r.cols.get((sub,size))
        if A is None:
            for (o,z) in r.cols:
                if o<sub+size and sub<o+z: raise Unsupported('overlapping column access %s+%d:%d vs %d:%d'%(r.name,sub,size,o,z))
            A=mk('avar',('%s.%d'%(r.name,sub),),('A',sort)) if r.default!='zero' else mk('aconst',(ZERO if sort=='R' else bv(0,sort),),('A',sort))
            r2=st.mem[rid]
            if r2.owner is not st: r2=r2.clone(); r2.owner=st; st.mem[rid]=r2
            r2.cols[(sub,size)]=A
        return A
    def arr_store(s,st,p,r,size,v,t):
        idx,sub=s.arr_idx(st,p,r,size,True)
        if isinstance(v,Ptr): raise Unsupported('pointer store in symbolic array '+r.name)
        if (sub,size) in r.cols:
            A=r.cols[(sub,size)]
            if A.sort[1]=='R' and v.sort!='R': v=s.coerce(st,v,('f',size*8))
            elif A.sort[1]!='R' and v.sort=='R': v=mk('rbits',(v,),size*8)
        else:
            if v.op=='rbits': v=v.args[0]
            A=s.col(st,p.r,r,sub,size,v.sort)
        r2=st.wreg(p.r)
        r2.cols[(sub,size)]=store(A,idx,v)
        for w in s.wlogs: s.wlog(w,(p.r,'col',(sub,size),A.sort[1]),'x')
    def memcpy(s,st,d,sr,n,move=False):
        if n.c is None:
            cn,mn=lin(n)
            if mn: return s.memcpy_sym(st,d,sr,n)
            n=bv(cn,64)
        n=n.c
        if n==0: return
        sr=s.one(st,sr); d=s.one(st,d)
        rs=s.region_for(st,sr,'memcpy'); rd=s.region_for(st,d,'memcpy')
        # collect source cells
        vals=[]
        if rs.kind=='cells':
            c,m=lin(sr.o)
            if not m:
                offs=sorted(o for o in rs.cells if c<=o<c+n) if n<5000 else sorted(o for o in rs.cells if c<=o<c+n)
                # gaps: materialise by destination needs: lazily typed -> copy as undef gaps
                pos=c
                for o in offs:
                    if o<pos: raise Unsupported('memcpy overlap cells')
                    if o>pos: vals+=s.gap(st,sr.r,rs,pos,o-pos,c)
                    sz,v=rs.cells[o]
                    if o+sz>c+n: 
                        v=extract(s.asint(v,sz*8),0,(c+n-o)*8); sz=c+n-o
                    vals.append((o-c,sz,v)); pos=o+sz
                if pos<c+n: vals+=s.gap(st,sr.r,rs,pos,c+n-pos,c)
            else:
                cands=s.candidates(st,sr,rs,n)
                acc=None
                for c0,cond in cands:
                    vv={}
                    for o in sorted(rs.cells):
                        if c0<=o<c0+n: vv[o-c0]=rs.cells[o]
                    if acc is None: acc=dict(vv)
                    else:
                        for k in set(acc)|set(vv):
                            if k in vv and k in acc and vv[k][0]==acc[k][0]: acc[k]=(vv[k][0],s.vite(cond,vv[k][1],acc[k][1]))
                            else: raise Unsupported('memcpy with symbolic source: cell shape mismatch in '+rs.name)
                vals=[(k,z,v) for k,(z,v) in acc.items()]
        else:
            idx,sub=s.arr_idx(st,sr,rs,n,False)
            if sub+n>rs.stride: raise Unsupported('memcpy across array elements')
            if not rs.cols and rs.default=='sym': s.infer_cols(st,sr.r,rd,d,n,rs)
            rs=st.mem[sr.r]
            for (o,z),A in rs.cols.items():
                if sub<=o and o+z<=sub+n: vals.append((o-sub,z,select(A,idx)))
            pos=0
            for o,z,v in sorted(vals,key=lambda x:x[0]):
                if o!=pos: raise Unsupported('memcpy from array with untyped columns '+rs.name)
                pos=o+z
            if pos!=n: raise Unsupported('memcpy from array with untyped columns '+rs.name)
        for o,z,v in vals:
            s.rawstore(st,s.padd(d,o),z,v)
    def gap(s,st,rid,r,pos,n,base):
        """uninitialised/lazily symbolic stretch copied by memcpy"""
        if r.default=='undef': return [('skip')] and []
        if r.default=='zero': return [(pos-base+i,8 if n-i>=8 and (pos+i)%8==0 else 1,bv(0,64 if n-i>=8 and (pos+i)%8==0 else 8)) for i in s.chunks(pos,n)]
        raise Unsupported('memcpy of untyped symbolic memory %s+%d..%d'%(r.name,pos,n))
    def chunks(s,pos,n):
        i=0;out=[]
        while i<n:
            out.append(i); i+=8 if n-i>=8 and (pos+i)%8==0 else 1
        return out
    def infer_cols(s,st,rid,rd,d,n,rs): raise Unsupported('memcpy from untyped array '+rs.name)
    def rawstore(s,st,p,size,v):
        r=st.mem[p.r]
        t=PTRT if isinstance(v,Ptr) else (('f',size*8) if v.sort=='R' else ('i',size*8))
        s.store(st,p,v,t)
    def memcpy_sym(s,st,d,sr,n): raise Unsupported('memcpy of symbolic length')
    def memset(s,st,d,v,n):
        if n.c is None: raise Unsupported('memset symbolic length')
        d=s.one(st,d)
        r=s.region_for(st,d,'memset')
        if v.c is None: raise Unsupported('memset symbolic value')
        if r.kind=='arr':
            raise Unsupported('memset on array')
        c,m=lin(d.o)
        if m: raise Unsupported('memset symbolic offset')
        r=st.wreg(d.r)
        if c==0 and r.size is not None and r.size.c==n.c and v.c==0:
            r.cells={}; r.default='zero'
            for w in s.wlogs: s.wlog(w,(d.r,'*'),'x')
            return
        o=c
        for q in list(range(c-15,c+n.c)):
            if q in r.cells and q+r.cells[q][0]>c:
                if q<c or q+r.cells[q][0]>c+n.c: raise Unsupported('memset partial cell')
                del r.cells[q]
        while o<c+n.c:
            z=8 if (o%8==0 and o+8<=c+n.c) else (4 if o%4==0 and o+4<=c+n.c else 1)
            b=int.from_bytes(bytes([v.c])*z,'little')
            r.cells[o]=(z,bv(b,z*8))
            for w in s.wlogs: s.wlog(w,(d.r,o,z),bv(b,z*8))
            o+=z
    # ---------------------------------------------------------- gep / arith
    def gep(s,st,env,bt,ops):
        p=s.val(st,env,ops[0][0],ops[0][1])
        if isinstance(p,tuple): raise Unsupported('vector gep')
        t=bt; off=p.o
        fl=frozenset({'nsw'})
        for k,(it,iv) in enumerate(ops[1:]):
            if k==0: sz=s.m.sizeof(t)
            else:
                t=s.m.res(t)
                if t[0]=='struct':
                    i=s.val(st,env,it,iv); o,t=s.m.field_off(t,i.c)
                    if o: off=binop('add',off,bv(o,64),fl)
                    continue
                t=t[2]; sz=s.m.sizeof(t)
            i=s.val(st,env,it,iv)
            if isinstance(i,Ptr): raise Unsupported('gep with pointer index')
            i=sext(i,64) if i.sort!=64 else i
            e=binop('mul',i,bv(sz,64),fl)
            off=binop('add',off,e,fl)
        return Ptr(p.r,off)
    def arith(s,st,op,t,a,b,fl):
        if isinstance(a,tuple): return tuple(s.arith(st,op,t[2],x,y,fl) for x,y in zip(a,b))
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            a=s.one(st,a); b=s.one(st,b)
            if isinstance(a,Ptr) and isinstance(b,Ptr):
                if op=='sub':
                    if a.r==b.r: return binop('sub',a.o,b.o,frozenset({'nsw'}))
                    raise Unsupported('difference of unrelated pointers')
            if isinstance(a,Ptr) and op in('add',): return Ptr(a.r,binop('add',a.o,b,frozenset({'nsw'})))
            if isinstance(a,Ptr) and op=='sub': return Ptr(a.r,binop('sub',a.o,b,frozenset({'nsw'})))
            if isinstance(a,Ptr) and op=='and' and b.c is not None and a.o.c is not None and b.c<4096:
                return bv(a.o.c&b.c,64)   # objects are maximally aligned
            raise Unsupported('pointer arithmetic '+op)
        if op[0]=='f' and op in('fadd','fsub','fmul','fdiv','frem'):
            if op=='fadd': return radd(a,b)
            if op=='fsub': return rsub(a,b)
            if op=='fmul': return rmul(a,b)
            if op=='fdiv': return rdiv(a,b)
            return rfun('fmod',a,b)
        if op in('udiv','sdiv','urem','srem') and a.sort!='B':
            nz=cmp('ne',b,bv(0,b.sort))
            if nz is not TRUE:
                s.prove(st,nz,'arithmetic: division by zero in '+s.fn(),'safety'); st.assume(nz)
        if s.check_ovf and op in('add','sub','mul') and 'nsw' in fl and isinstance(a.sort,int) and (a.c is None or b.c is None) and s.spec==0:
            s.ovf(st,op,a,b)
        if s.mode=='int' and op in('add','sub','mul') and not fl and isinstance(a.sort,int) and (a.c is None or b.c is None):
            fl=s.nowrap(st,op,a,b)
        return binop(op,a,b,fl)
    def ovf(s,st,op,a,b):
        w=a.sort
        if s.mode=='int':
            s.tr._prep(a); s.tr._prep(b); ca,cb=s.tr.S(a),s.tr.S(b)
            lo,hi={'add':(ca[1]+cb[1],ca[2]+cb[2]),'sub':(ca[1]-cb[2],ca[2]-cb[1]),'mul':(min(ca[1]*cb[1],ca[1]*cb[2],ca[2]*cb[1],ca[2]*cb[2]),max(ca[1]*cb[1],ca[1]*cb[2],ca[2]*cb[1],ca[2]*cb[2]))}[op]
            if lo>=-(1<<(w-1)) and hi<(1<<(w-1)): return
            g=mk('fits',(a,b,op,'s'),'B')
        else:
            W=2*w if op=='mul' else w+1
            e=binop(op,sext(a,W),sext(b,W)); g=cmp('eq',e,sext(extract(e,0,w),W))
        s.prove(st,g,'arithmetic: no signed overflow in '+s.fn(),'safety')
    def nowrap(s,st,op,a,b):
        """find out (soundly) whether an unflagged operation can wrap on this path"""
        if op!='mul' and not s.opts.get('nowrap_all'): 
            return frozenset()
        for nm,k in (('unw','u'),('snw','s')):
            if s.entails(st,mk('fits',(a,b,op,k),'B'),1000): return frozenset({nm})
        return frozenset()
    def cast(s,op,t,x,t2,fl):
        t2=s.m.res(t2); t=s.m.res(t)
        if isinstance(x,tuple) and t[0]=='vec' and t2[0]=='vec' and t[1]==t2[1]: return tuple(s.cast(op,t[2],y,t2[2],fl) for y in x)
        if op in('ptrtoint','inttoptr','addrspacecast'):
            if isinstance(x,Ptr): return x
            if op=='inttoptr' and x.c is not None: return Ptr(0,x)
            raise Unsupported('inttoptr')
        if op=='bitcast':
            if isinstance(x,Ptr): return x
            if t==t2: return x
            if isinstance(x,tuple) and t2[0]=='i':
                es=s.m.sizeof(t[2])*8; tot=None
                for y in x:
                    y=s.asint(y,es); tot=y if tot is None else concat(y,tot)
                return tot
            if isinstance(x,tuple): raise Unsupported('vector bitcast')
            if t2[0]=='vec':
                n=t2[1]; es=s.m.sizeof(t2[2])*8
                v=s.asint(x,n*es)
                return tuple(s.coerce(None,extract(v,i*es,es),t2[2]) for i in range(n))
            if t[0]=='f' and t2[0]=='i': return mk('rbits',(x,),t2[1])
            if t[0]=='i' and t2[0]=='f': return s.coerce(None,x,t2)
            raise Unsupported('bitcast')
        if isinstance(x,Ptr):
            if op in('trunc','zext','sext') : raise Unsupported('pointer cast '+op)
        w=t2[1] if t2[0]=='i' else None
        if w==1: w='B'
        if op=='trunc': return trunc(x,w)
        if op=='zext':
            if 'nneg' in fl and x.op!='zext' and x.sort!='B': return sext(x,w)
            return zext(x,w)
        if op=='sext': return sext(x,w)
        if op in('fptrunc','fpext'): return x
        if op in('sitofp','uitofp'): return itor(x,op=='sitofp')
        if op in('fptosi','fptoui'): return rtoi(x,w,op=='fptosi')
        raise Unsupported('cast '+op)
    # ---------------------------------------------------------- functions
    def fn(s): return s.stack[-1] if s.stack else 'top'
    def dem(s,name):
        d=s.demc.get(name)
        if d is None:
            n=name[1:].strip('"')
            d=s.demangle_all().get(n,n)
            s.demc[name]=d
        return d
    def demangle_all(s):
        if not hasattr(s,'_dm'):
            names=[n[1:].strip('"') for n in list(s.m.funcs)+list(s.m.decls)]
            out=subprocess.run(['llvm-cxxfilt-18'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
            s._dm=dict(zip(names,out))
        return s._dm
    def short(s,name):
        d=s.dem(name)
        if len(d)>110: d=d[:107]+'...'
        return d
    def call(s,st,name,args,rty):
        """-> list of (state,ret)"""
        if time.time()-s.t0>s.budget: raise Unsupported('time budget exhausted')
        if name.startswith('@llvm.'): return s.intrinsic(st,name,args,rty)
        if name in s.stubs: name=s.stubs[name]
        d=s.dem(name)
        for rx,f in s.models:
            if rx.search(d):
                r=f(s,st,args,rty,d)
                if r is not NotImplemented: return r
        F=s.m.func(name)
        if F is None: raise Unsupported('call to external function '+d)
        if s.depth>s.opts.get('maxdepth',120): raise Unsupported('call depth')
        s.funcs_used[d]=s.funcs_used.get(d,0)+1
        s.depth+=1; s.stack.append(s.short(name))
        npc=len(st.pc); regs=set(st.mem)
        base_inputs=st.inputs
        try: outs=s.run(st,F,args)
        finally: s.depth-=1; s.stack.pop()
        if len(outs)>1 and s.opts.get('merge',True): outs=s.merge(outs,npc,regs)
        return outs
    def merge(s,outs,npc,regs):
        """greedy merging of path outcomes with compatible memory shapes"""
        groups=[]
        for o in outs:
            for g in groups:
                m=s.merge2(g,o,npc,regs)
                if m is not None: groups[groups.index(g)]=m; s.nmerge+=1; break
            else: groups.append(o)
        return groups
    def merge2(s,A,B,npc,regs,sel=None):
        (sa,ra),(sb,rb)=A,B
        if sa.ghost!=sb.ghost: return None
        if sa.inputs!=sb.inputs:
            n=min(len(sa.inputs),len(sb.inputs))
            if sel is None or sa.inputs[:n]!=sb.inputs[:n]: return None
        # common pc prefix
        k=npc
        if sa.pc[:k]!=sb.pc[:k]: return None
        while k<len(sa.pc) and k<len(sb.pc) and sa.pc[k] is sb.pc[k]: k+=1
        ca=and_(*sa.pc[k:]); cb=and_(*sb.pc[k:])
        try:
            # choose a discriminating condition
            if ca is TRUE or cb is TRUE: return None
            c=ca
            if k<len(sa.pc) and k<len(sb.pc):
                if sa.pc[k] is not_(sb.pc[k]): c=sa.pc[k]
            if sel is not None: c=sel; ca=and_(sel,ca); cb=and_(not_(sel),cb)
            rv=None if ra is None else s.vite(c,ra,rb)
            n=State(); n.pc=sa.pc[:k]; n.known=frozenset(x.id for x in n.pc)
            n.inputs=sa.inputs if len(sa.inputs)>=len(sb.inputs) else sb.inputs; n.trace=sa.trace; n.ghost=dict(sa.ghost); n.writes=sa.writes
            n.mem={}
            for rid in sa.mem.keys()|sb.mem.keys():
                x=sa.mem.get(rid); y=sb.mem.get(rid)
                if x is y: n.mem[rid]=x; x.owner=None; continue
                if x is None or y is None:
                    if rid in regs: return None
                    z=x or y
                    n.mem[rid]=z; z.owner=None
                    continue
                if x.freed!=y.freed or x.kind!=y.kind or x.default!=y.default: return None
                r=x.clone(); r.owner=n
                for o in x.cells.keys()|y.cells.keys():
                    u=x.cells.get(o); v=y.cells.get(o)
                    if u==v: continue
                    if u is None or v is None:
                        if x.default=='undef':
                            # defined on one side only: keep only if dead otherwise
                            r.cells[o]=(u or v); 
                            if any(q!=o and q<o+(u or v)[0] and q+(x.cells.get(q) or y.cells.get(q))[0]>o for q in range(o-15,o+16) if q in x.cells or q in y.cells): return None
                            continue
                        if x.default in('sym','zero'):
                            w=(u or v)
                            if isinstance(w[1],Ptr):
                                if x.default=='zero': lz=NULL
                                else: return None
                            else:
                                lz=s.lazy(n,x,o,w[0],('f',w[0]*8) if w[1].sort=='R' else ('i',w[0]*8))
                            u=u or (w[0],lz); v=v or (w[0],lz)
                        else: return None
                    if u[0]!=v[0]: return None
                    if isinstance(u[1],T) and isinstance(v[1],T) and u[1].sort!=v[1].sort: return None
                    if sel is not None and s.opts.get('lossyptr') and isinstance(u[1],Ptr) and isinstance(v[1],Ptr) and u[1].r!=v[1].r:
                        r.cells[o]=(u[0],s.mkite(c,u[1],v[1])); continue
                    r.cells[o]=(u[0],s.vite(c,u[1],v[1]))
                for q in x.cols.keys()|y.cols.keys():
                    u=x.cols.get(q); v=y.cols.get(q)
                    if u is None or v is None:
                        w=u if u is not None else v
                        base=mk('avar',('%s.%d'%(x.name,q[0]),),w.sort) if x.default!='zero' else mk('aconst',(ZERO if w.sort[1]=='R' else bv(0,w.sort[1]),),w.sort)
                        u=u if u is not None else base; v=v if v is not None else base
                    r.cols[q]=u if u is v else ite(c,u,v)
                n.mem[rid]=r
            n.assume(or_(ca,cb))
            return (n,rv)
        except Unsupported:
            return None
    # ---------------------------------------------------------- run a function
    def uid(s):
        s.nuid+=1; return s.nuid
    def run(s,st,F,args):
        env={'$frame':s.uid()}
        for (t,nm),v in zip(F.params,args): env[nm]=v
        outs=[]
        s.explore(F,[(st,F.entry,None,env,{})],outs)
        return outs
    def explore(s,F,work,outs,within=None):
        import loops as LP
        loops=F.loops(); H=LP.hooks(s,F) if s.use_hooks else {}
        pend=[]
        while work or pend:
            if not work:
                # the states that are furthest behind go first, so that later ones can join them
                ks=[s.position(F,x[1],x[4]) for x in pend]; m=min(ks)
                work+=s.joinexits(F,[x for x,k in zip(pend,ks) if k==m]); pend[:]=[x for x,k in zip(pend,ks) if k!=m]
            st,b,prev,env,cnt=work.pop()
            if H:
                drop=False
                for h in H:
                    if b not in loops[h]:
                        key=('L',env['$frame'],h); m=st.ghost.get(key)
                        if m is not None:
                            if m=='assume' or within==key: drop=True; break
                            del st.ghost[key]; drop=None
                if drop is None and s.opts.get('merge',True):
                    pend.append((st,b,prev,env,cnt)); continue
                if drop: continue
            if b in H and prev is not None and ('L',env['$frame'],b) not in st.ghost and (isinstance(prev,tuple) or prev not in loops[b]):
                if not isinstance(prev,tuple) and s.opts.get('merge',True) and s.opts.get('joinentry',True):
                    pend.append((st,b,prev,env,cnt)); continue
                cnt=dict(cnt); cnt[b]=0
                work+=LP.do_loop(s,st,F,b,prev,env,cnt); continue
            if b in loops and prev is not None and not isinstance(prev,tuple):
                ls=loops[b]
                if prev not in ls:
                    cnt=dict(cnt); cnt[b]=0
                else:
                    cnt=dict(cnt); cnt[b]=cnt.get(b,0)+1
                    if cnt[b]>s.bound: raise Unsupported('loop in %s exceeds %d iterations without invariant'%(F.name,s.bound))
            try: work+=s.block(st,F,b,prev,env,cnt,outs)
            except PathEnd: pass
    def position(s,F,b,cnt):
        L=F.loops(); r=F._rpo.index
        k=[]
        for h in sorted((h for h in L if b in L[h] and h!=b),key=lambda h:-len(L[h])): k+=[r(h),cnt.get(h,0)]
        return k+[r(b)]
    def joinexits(s,F,pend):
        """merge the states that leave a cut loop at the same place"""
        byb={}
        for st,b,prev,env,cnt in pend:
            env=dict(env)
            if prev is not None and not isinstance(prev,tuple):
                phis={}
                for I in F.blocks[b]:
                    if I.op!='phi': break
                    t,inc=I.a
                    v=next((x for x,bb in inc if bb==prev),None)
                    if v is None: raise Unsupported('phi')
                    phis[I.res]=s.val(st,env,t,v)
            else: phis=prev[1] if prev else {}
            L=F.loops()
            byb.setdefault((b,tuple(sorted((h,c) for h,c in cnt.items() if b in L.get(h,()) and h!=b))),[]).append((st,env,phis,cnt))
        out=[]
        for (b,_),l in byb.items():
            live=F.liveat(b)
            groups=[]
            for st,env,phis,cnt in l:
                ks=tuple(sorted(k for k in env if k in live and k not in phis)); ps=tuple(sorted(phis))
                rv=tuple(env[k] for k in ks)+tuple(phis[k] for k in ps)
                for i,(g,grv,gks,gps,genv,gcnt) in enumerate(groups):
                    if gks!=ks or gps!=ps:
                        if JDBG: print('JOIN keys',set(gks)^set(ks),set(gps)^set(ps))
                        continue
                    m=s.merge2((g,grv),(st,rv),0,frozenset(),var('sel','B'))
                    if JDBG and m is None: print('JOIN values',[(k,x,y) for k,x,y in zip(ks+ps,grv,rv) if isinstance(x,Ptr) and x!=y])
                    if m is not None:
                        s.nmerge+=1; groups[i]=(m[0],m[1],ks,ps,env,cnt); break
                else: groups.append((st,rv,ks,ps,env,cnt))
            for g,rv,ks,ps,env,cnt in groups:
                e=dict(zip(ks,rv)); e['$frame']=env['$frame']
                for k in env:
                    if k.startswith('$'): e.setdefault(k,env[k])
                out.append((g,b,('$phis',dict(zip(ps,rv[len(ks):]))),e,dict(cnt)))
        return out
    def block(s,st,F,b,prev,env,cnt,outs,phis=None):
        """execute one block; returns successor work items"""
        env=dict(env)
        ins=F.blocks[b]
        # phis evaluated simultaneously
        i=0
        if isinstance(prev,tuple): phis=prev[1]
        if phis is None:
            upd={}
            while i<len(ins) and ins[i].op=='phi':
                t,inc=ins[i].a
                v=next((x for x,bb in inc if bb==prev),None)
                if v is None: raise Unsupported('phi')
                upd[ins[i].res]=s.val(st,env,t,v); i+=1
            env.update(upd)
        else:
            while i<len(ins) and ins[i].op=='phi': i+=1
            env.update(phis)
        return s.cont(st,F,b,env,cnt,outs,i)
    def cont(s,st,F,b,env,cnt,outs,i):
        ins=F.blocks[b]
        V=s.val
        while True:
            I=ins[i]; op=I.op; a=I.a; s.steps+=1
            if op in llir.BIN: env[I.res]=s.arith(st,op,a[0],V(st,env,a[0],a[1]),V(st,env,a[0],a[2]),a[3])
            elif op=='load': env[I.res]=s.load(st,V(st,env,llir.PTR,a[1]),a[0])
            elif op=='store': s.store(st,V(st,env,llir.PTR,a[2]),V(st,env,a[0],a[1]),a[0])
            elif op=='getelementptr': env[I.res]=s.gep(st,env,a[0],a[1])
            elif op in llir.CAST: env[I.res]=s.cast(op,a[0],V(st,env,a[0],a[1]),a[2],a[3])
            elif op=='icmp': env[I.res]=s.icmp(st,a[0],a[1],V(st,env,a[1],a[2]),V(st,env,a[1],a[3]))
            elif op=='fcmp': env[I.res]=s.fcmp(a[0],V(st,env,a[1],a[2]),V(st,env,a[1],a[3]))
            elif op=='fneg':
                x=V(st,env,a[0],a[1]); env[I.res]=tuple(rneg(y) for y in x) if isinstance(x,tuple) else rneg(x)
            elif op=='alloca':
                n=1
                if a[1] is not None:
                    c=V(st,env,a[1][0],a[1][1])
                    n=c.c
                if n is None: 
                    rid=s.newregion(st,I.res,None,'undef','arr'); st.mem[rid].stride=s.m.sizeof(a[0]); st.mem[rid].n=c if c.sort==64 else zext(c,64)
                else: rid=s.newregion(st,I.res,bv(s.m.sizeof(a[0])*n,64))
                env[I.res]=Ptr(rid,Z64)
            elif op=='select':
                c=V(st,env,a[1],a[2-0] if False else a[1]) if False else None
                c=V(st,env,a[0],a[1])
                x=V(st,env,a[2],a[3]); y=V(st,env,a[2],a[4])
                if isinstance(c,tuple): env[I.res]=tuple(s.vite(k,p,q) for k,p,q in zip(c,x,y))
                elif c is TRUE: env[I.res]=x
                elif c is FALSE: env[I.res]=y
                else:
                    try:
                        if s.opts.get('forkint') and x is not y and a[2][0]=='i' and a[2][1]>8: raise Unsupported('fork')
                        env[I.res]=s.vite(c,x,y)
                    except Unsupported:
                        w=[]
                        for cc,v in ((c,x),(not_(c),y)):
                            if s.feasible(st,cc):
                                s2=st.fork(); s2.assume(cc); e2=dict(env); e2[I.res]=v
                                try: w+=s.cont(s2,F,b,e2,cnt,outs,i+1)
                                except PathEnd: pass
                        return w
            elif op=='br':
                if len(a)==1: return [(st,a[0],b,env,cnt)]
                c=V(st,env,('i',1),a[0])
                if c is TRUE: return [(st,a[1],b,env,cnt)]
                if c is FALSE: return [(st,a[2],b,env,cnt)]
                w=[]
                f1=s.feasible(st,c); f2=s.feasible(st,not_(c))
                if f1 and f2:
                    s2=st.fork(); s2.assume(not_(c)); w.append((s2,a[2],b,dict(env),cnt))
                    s1=st.fork(); s1.assume(c); w.append((s1,a[1],b,env,cnt))
                elif f1: st.assume(c); w.append((st,a[1],b,env,cnt))
                elif f2: st.assume(not_(c)); w.append((st,a[2],b,env,cnt))
                return w
            elif op=='switch':
                v=V(st,env,a[0],a[1]); w=[]; neg=[]
                for cv,tb in a[3]:
                    k=V(st,env,a[0],cv); c=cmp('eq',v,k)
                    if c is FALSE: continue
                    if s.feasible(st,c):
                        s2=st.fork(); s2.assume(c); w.append((s2,tb,b,dict(env),cnt))
                    neg.append(not_(c))
                    if c is TRUE: break
                d=and_(*neg)
                if d is not FALSE and s.feasible(st,d):
                    s2=st.fork(); s2.assume(d); w.append((s2,a[2],b,dict(env),cnt))
                return w
            elif op=='ret':
                outs.append((st,None if a[1] is None else V(st,env,a[0],a[1]))); return []
            elif op=='unreachable':
                raise PathEnd()
            elif op in('call','invoke'):
                callee=a[1]
                if callee==('asm',): raise Unsupported('inline asm')
                if callee[0]=='g': name=callee[1]
                else:
                    p=V(st,env,llir.PTR,callee)
                    if not(isinstance(p,Ptr) and isinstance(p.r,str) and p.r.startswith('fn:')): raise Unsupported('indirect call')
                    name=p.r[3:]
                if 'verif_inv_' in name:
                    import loops as LP
                    r=LP.hook(s,st,F,b,i,I,env)
                    if r is None: i+=1; continue
                    if len(r)==1: st=r[0]; i+=1; continue
                    w=[]
                    for s2 in r:
                        try: w+=s.cont(s2,F,b,dict(env),cnt,outs,i+1)
                        except PathEnd: pass
                    return w
                if name.startswith('@llvm.') and name.split('.')[1] in('lifetime','dbg','experimental','assume','donothing','var','invariant','prefetch'): 
                    i+=1; continue
                args=[V(st,env,t,v) for t,v in a[2]]
                r=s.call(st,name,args,a[0])
                if len(r)==0: return []
                nxt=None
                if len(r)==1:
                    st,rv=r[0]
                    if I.res: env[I.res]=rv
                    if op=='invoke': return [(st,a[3],b,env,cnt)]
                else:
                    w=[]
                    for s2,rv in r:
                        e2=dict(env)
                        if I.res: e2[I.res]=rv
                        if op=='invoke': w.append((s2,a[3],b,e2,cnt))
                        else:
                            try: w+=s.cont(s2,F,b,e2,cnt,outs,i+1)
                            except PathEnd: pass
                    return w
            elif op=='extractvalue':
                v=V(st,env,a[0],a[1])
                for k in a[2]: v=v[k]
                env[I.res]=v
            elif op=='insertvalue':
                v=V(st,env,a[0],a[1]); x=V(st,env,a[2],a[3]); env[I.res]=insv(v,a[4],x)
            elif op=='extractelement':
                v=V(st,env,a[0],a[1]); k=V(st,env,a[2],a[3])
                if k.c is None: raise Unsupported('extractelement index')
                env[I.res]=v[k.c]
            elif op=='insertelement':
                v=list(V(st,env,a[0],a[1])); k=V(st,env,('i',64),a[3]); v[k.c]=V(st,env,s.m.res(a[0])[2],a[2]); env[I.res]=tuple(v)
            elif op=='shufflevector':
                x=V(st,env,a[0],a[1]); y=V(st,env,a[0],a[2]); m=V(st,env,a[3],a[4])
                z=tuple(x)+tuple(y); env[I.res]=tuple(z[k.c] if k.c is not None else z[0] for k in m)
            elif op=='freeze': env[I.res]=V(st,env,a[0],a[1])
            elif op=='atomicrmw':
                p=V(st,env,llir.PTR,a[1]); x=V(st,env,a[2],a[3]); old=s.load(st,p,a[2])
                n={'add':'add','sub':'sub','and':'and','or':'or','xor':'xor'}.get(a[0])
                s.store(st,p,x if a[0]=='xchg' else s.arith(st,n,a[2],old,x,frozenset()),a[2]); env[I.res]=old
            elif op=='fence': pass
            else: raise Unsupported('instruction '+I.text[:80])
            i+=1
    def icmp(s,st,p,t,a,b):
        if isinstance(a,tuple): return tuple(s.icmp(st,p,t[2],x,y) for x,y in zip(a,b))
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if not(isinstance(a,Ptr) and isinstance(b,Ptr)):
                x=b if isinstance(a,Ptr) else a
                if x.c==0: 
                    if isinstance(a,Ptr): b=NULL
                    else: a=NULL
                else: raise Unsupported('pointer/int compare')
            if a.r in s.iteptr or b.r in s.iteptr:
                res=None
                for c,x in s.choices(st,a):
                    for d,y in s.choices(st,b):
                        v=s.icmp(st,p,t,x,y); res=v if res is None else ite(and_(c,d),v,res)
                return res
            if 'havoc' in(a.r,b.r): raise Unsupported('comparison of an unknown pointer')
            if a.r=='undef' or b.r=='undef': return var('undefcmp','B')
            if a.r==b.r:
                # addresses within one object: offsets are signed-exact
                return cmp(p if p in('eq','ne') else 's'+p[1:],a.o,b.o)
            if p=='eq': return FALSE
            if p=='ne': return TRUE
            if a.r==0 or b.r==0: return boolc((p[1:] in('lt','le'))==(a.r==0))
            raise Unsupported('ordering of unrelated pointers')
        return cmp(p,a,b)
    def fcmp(s,p,a,b):
        if isinstance(a,tuple): return tuple(s.fcmp(p,x,y) for x,y in zip(a,b))
        if p=='true': return TRUE
        if p=='false' or p=='uno': return FALSE
        if p=='ord': return TRUE
        return rcmp(p[1:],a,b)
    # ---------------------------------------------------------- intrinsics of LLVM
    def intrinsic(s,st,name,args,rty):
        n=name[6:]
        def one(v): return [(st,v)]
        def mp(f,*xs):
            if isinstance(xs[0],tuple): return tuple(f(*q) for q in zip(*xs))
            return f(*xs)
        if n.startswith('memcpy') or n.startswith('memmove'):
            s.memcpy(st,args[0],args[1],args[2]); return one(None)
        if n.startswith('memset'): s.memset(st,args[0],args[1],args[2]); return one(None)
        if n.startswith('fmuladd') or n.startswith('fma.'): return one(mp(lambda a,b,c:radd(rmul(a,b),c),*args))
        if n.startswith('fabs'): return one(mp(lambda a:rfun('fabs',a),args[0]))
        if n.startswith('copysign'):
            return one(mp(lambda a,b:ite(rcmp('lt',b,ZERO),rneg(rfun('fabs',a)),rfun('fabs',a)),*args))
        if n.startswith('abs.'):
            a=args[0]; return one(ite(cmp('slt',a,bv(0,a.sort)),binop('sub',bv(0,a.sort),a,frozenset({'nsw'})),a))
        for k in('smax','smin','umax','umin'):
            if n.startswith(k+'.'):
                p={'smax':'sgt','smin':'slt','umax':'ugt','umin':'ult'}[k]
                return one(ite(cmp(p,args[0],args[1]),args[0],args[1]))
        if n.startswith('maxnum') : return one(ite(rcmp('lt',args[0],args[1]),args[1],args[0]))
        if n.startswith('minnum') : return one(ite(rcmp('lt',args[1],args[0]),args[1],args[0]))
        for k in('floor','ceil','trunc','rint','nearbyint','round','sqrt','exp','log','sin','cos','pow','log2','log10','exp2'):
            if n.startswith(k+'.'): return one(mp(lambda *q:rfun(k,*q),*args))
        if n.startswith('umul.with.overflow'):
            a,b=args; w=a.sort
            if a.c is not None: a,b=b,a
            if b.c is not None:
                lim=((1<<w)-1)//b.c if b.c else (1<<w)
                ov=cmp('ugt',a,bv(lim,w)) if b.c else FALSE
                if s.entails(st,not_(ov)): return one((binop('mul',a,b,frozenset({'nuw'})),FALSE))
                return one((binop('mul',a,b),ov))
            raise Unsupported(name)
        if n.startswith(('sadd.with.overflow','uadd.with.overflow','ssub.with')): raise Unsupported(name)
        if n.startswith('expect'): return one(args[0])
        if n.startswith('trap') or n.startswith('ubsantrap'): raise PathEnd()
        if n.startswith('is.constant'): return one(FALSE)
        if n.startswith('objectsize'): return one(bv(-1,64))
        if n.startswith('ctpop'):
            a=args[0]; r=bv(0,a.sort)
            for i in range(a.sort): r=binop('add',r,zext(extract(a,i,1),a.sort) if a.sort>1 else a)
            return one(r)
        if n.startswith('ctlz'):
            a=args[0];w=a.sort;r=bv(w,w)
            for i in range(w): r=ite(cmp('ne',extract(a,i,1),bv(0,1)),bv(w-1-i,w),r)
            return one(r)
        if n.startswith('cttz'):
            a=args[0];w=a.sort;r=bv(w,w)
            for i in reversed(range(w)): r=ite(cmp('ne',extract(a,i,1),bv(0,1)),bv(i,w),r)
            return one(r)
        if n.startswith('vector.reduce.fadd'):
            r=args[0]
            for y in args[1]: r=radd(r,y)
            return one(r)
        if n.startswith('is.fpclass'): return one(FALSE if args[1].c in(3,516,519) else var('fpclass','B'))
        if n.startswith('eh.') or n.startswith('stacksave') : return one(NULL)
        if n.startswith('stackrestore'): return one(None)
        raise Unsupported('intrinsic '+name)
PTRT=('ptr',)
def insv(v,idx,x):
    l=list(v)
    l[idx[0]]=x if len(idx)==1 else insv(l[idx[0]],idx[1:],x)
    return tuple(l)

def zero_facts(pc):
    """ids of real terms that the path condition forces to be zero (sums of squares, maxima, roots)"""
    Z={}; work=[]
    for p in pc:
        if p.op=='req':
            x,y=p.args
            if x.c==0 and x.c is not None: work.append(y)
            elif y.c==0 and y.c is not None: work.append(x)
        elif p.op=='not' and p.args[0].op=='rlt':
            x,y=p.args[0].args
            if x.c is not None and x.c>=0 and nonneg(y): work.append(y)
    deferred=[]
    while work:
        t=work.pop()
        if t.id in Z or t.c is not None: continue
        Z[t.id]=t
        o,a=t.op,t.args
        if o=='radd' and nonneg(a[0]) and nonneg(a[1]): work+=list(a)
        elif o=='rneg': work.append(a[0])
        elif o=='rmul':
            if a[0] is a[1]: work.append(a[0])
            elif nonzero(a[0]): work.append(a[1])
            elif nonzero(a[1]): work.append(a[0])
        elif o=='rdiv': work.append(a[0])
        elif o=='rfun' and a[0]=='sqrt': work.append(a[1])
        elif o=='ite':
            c,x,y=a; n=False
            if c.op=='not': c=c.args[0]; x,y=y,x
            if c.op=='rlt':
                p,q=c.args
                if p is y and q is x and nonneg(x) and nonneg(y): work+=[x,y]   # max(x,y)=0
                elif q.c==0 and q.c is not None and p is y and x is rneg(y): work.append(y) # |y|=0
    return Z
def nonzero(t):
    if t.c is not None: return t.c!=0
    return (t.op=='rdiv' and nonzero(t.args[0])) or (t.op=='rfun' and t.args[0]=='exp')
def ite_conds(ts):
    """conditions of real-valued ite nodes reachable through real operators (outermost first)"""
    out=[];seen=set();st=list(ts);cs=set()
    while st:
        t=st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op=='ite' and t.sort=='R':
            c=t.args[0]
            if c.id not in cs: cs.add(c.id); out.append(c)
            st+=[t.args[1],t.args[2]]
        elif t.sort=='R':
            for a in t.args:
                if isinstance(a,T) and a.sort=='R': st.append(a)
    return out
def subst_ite(t,dec,memo=None):
    memo={} 
    def go(t):
        st=[t]
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            if x.sort!='R' and x.sort!='B' : memo[x.id]=x; st.pop(); continue
            if x.id in dec: memo[x.id]=dec[x.id]; st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
            if pend: st+=pend; continue
            memo[x.id]=rebuild(x,[memo[a.id] if isinstance(a,T) else a for a in x.args]); st.pop()
        return memo[t.id]
    return go(t)
def rebuild(x,a):
    if all(p is q for p,q in zip(a,x.args)): return x
    o=x.op
    if o=='radd': return radd(*a)
    if o=='rneg': return rneg(*a)
    if o=='rmul': return rmul(*a)
    if o=='rdiv': return rdiv(*a)
    if o=='ite': return ite(*a)
    if o=='not': return not_(*a)
    if o=='and': return and_(*a)
    if o=='rlt': return rcmp('lt',*a)
    if o=='req': return rcmp('eq',*a)
    if o=='rfun': return rfun(*a)
    return mk(o,tuple(a),x.sort)
def collect_vars(ts):
    out=[];seen=set();st=list(ts)
    while st:
        t=st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in('var',) : out.append(t)
        for a in t.args:
            if isinstance(a,T): st.append(a)
    return out
class EvalErr(Exception): pass
def evalt(t,env,memo=None):
    import math
    memo={} if memo is None else memo
    st=[t]
    while st:
        x=st[-1]
        if x.id in memo: st.pop(); continue
        pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
        if pend: st+=pend; continue
        memo[x.id]=_ev(x,[memo[a.id] if isinstance(a,T) else a for a in x.args],env); st.pop()
    return memo[t.id]
def _ev(x,a,env):
    import math
    o=x.op
    if x.id in env: return env[x.id]
    if o=='c': return x.c
    if o=='var': raise EvalErr(x.args[0])
    if o=='not': return not a[0]
    if o=='and': return all(a)
    if o=='bxor': return a[0]!=a[1]
    if o=='ite': return a[1] if a[0] else a[2]
    if o=='radd': return a[0]+a[1]
    if o=='rneg': return -a[0]
    if o=='rmul': return a[0]*a[1]
    if o=='rdiv':
        if a[1]==0: raise EvalErr('div0')
        return a[0]/a[1]
    if o=='rlt': return a[0]<a[1]
    if o=='req': return a[0]==a[1]
    if o=='rfun':
        try:
            f={'sqrt':math.sqrt,'exp':math.exp,'log':math.log,'sin':math.sin,'cos':math.cos,'floor':math.floor,'ceil':math.ceil,'trunc':math.trunc,'pow':math.pow,'fmod':math.fmod,'atan2':math.atan2,'acos':math.acos,'asin':math.asin,'atan':math.atan,'tan':math.tan,'round':lambda v:math.floor(abs(v)+.5)*(1 if v>=0 else -1),'rint':round,'nearbyint':round,'cosh':math.cosh,'sinh':math.sinh,'tanh':math.tanh,'hypot':math.hypot}.get(a[0])
            if f is None: raise EvalErr(a[0])
            return f(*[float(v) for v in a[1:]])
        except (ValueError,OverflowError): raise EvalErr(a[0])
    if o=='itor': return Fraction(signed(a[0],x.args[0].sort) if a[1] else a[0])
    if isinstance(x.sort,int) or o in('eq','slt','sle','ult','ule'):
        w=x.args[0].sort if o in('eq','slt','sle','ult','ule','zext','sext','extract','concat') else x.sort
        if o in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            r=binop(o,bv(a[0],w),bv(a[1],w))
            if r.c is None: raise EvalErr(o)
            return r.c
        if o=='eq': return a[0]==a[1]
        if o in('slt','sle'):
            p,q=signed(a[0],w),signed(a[1],w); return p<q if o=='slt' else p<=q
        if o in('ult','ule'): return a[0]<a[1] if o=='ult' else a[0]<=a[1]
        if o=='zext': return a[0]
        if o=='sext': return signed(a[0],w)&((1<<x.sort)-1)
        if o=='extract': return (a[0]>>a[1])&((1<<a[2])-1)
        if o=='concat': return (a[0]<<x.args[1].sort)|a[1]
        if o=='rtoi': return math.trunc(a[0])&((1<<x.sort)-1)
    raise EvalErr(o)
