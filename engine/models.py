"""Meaning of the specification vocabulary and trusted contracts of external functions."""
import re
from term import *
from exec import *
import llir

def cstr(s,st,p):
    if not isinstance(p,Ptr) or p.r not in st.mem: return '?'
    r=st.mem[p.r]; c=p.o.c or 0; out=''
    while True:
        x=r.cells.get(c)
        if x is None or x[1].c is None or x[1].c==0: break
        out+=chr(x[1].c); c+=1
    return out

def input(s,st,name,kind,t):
    st.inputs=st.inputs+((name,kind,t,len(st.inputs)),)

def m_int(s,st,a,rty,d):
    nm=cstr(s,st,a[0]); bits=a[1].c; sg=a[2].c
    lo,hi=(-(1<<(bits-1)),(1<<(bits-1))-1) if sg else (0,(1<<bits)-1)
    if bits<64 :
        t=var(nm,bits,lo,hi)
        r=sext(t,64) if sg else zext(t,64)
    else:
        t=r=var(nm,64,lo,hi)
    input(s,st,nm,'i',r); return [(st,r)]
def m_range(s,st,a,rty,d):
    nm=cstr(s,st,a[0])
    if a[1].c is not None and a[2].c is not None:
        lo,hi=signed(a[1].c,64),signed(a[2].c,64)
        if lo==hi:
            input(s,st,nm,'i',a[1]); return [(st,a[1])]
        if lo>=0 and hi<(1<<31):
            t=var(nm,32,lo,hi); r=sext(t,64)
        elif lo>=-(1<<31) and hi<(1<<31): t=var(nm,32,lo,hi); r=sext(t,64)
        else: r=var(nm,64,lo,hi)
    else:
        r=var(nm,64)
        st.assume(and_(cmp('sle',a[1],r),cmp('sle',r,a[2])))
    input(s,st,nm,'i',r); return [(st,r)]
def m_real(s,st,a,rty,d):
    nm=cstr(s,st,a[0]); t=var(nm,'R'); input(s,st,nm,'r',t); return [(st,t)]
def m_require(s,st,a,rty,d):
    c=a[0]
    if c is FALSE or not s.feasible(st,c): return []
    st.assume(c); return [(st,None)]
def m_ensure(s,st,a,rty,d):
    l=cstr(s,st,a[1]); s.prove(st,a[0],l,'ensures'); st.assume(a[0]) 
    if a[0] is FALSE: return []
    return [(st,None)]
def m_ensure_eq(s,st,a,rty,d):
    l=cstr(s,st,a[2]); g=rcmp('eq',a[0],a[1]); s.prove(st,g,l,'ensures')
    return [(st,None)]
def m_cover(s,st,a,rty,d):
    l=cstr(s,st,a[0])
    if s.covers.get(l)!='reached':
        r=s._check(list(st.pc),5000,full=True) if st.pc else 'sat'
        s.covers[l]='reached' if r=='sat' else ('unknown' if r!='unsat' else s.covers.get(l,'unreachable'))
    return [(st,None)]
def m_array(s,st,a,rty,d):
    nm=cstr(s,st,a[0]); n=a[1]
    rid=s.newregion(st,'%s#%d'%(nm,s.nreg[0]),None,'sym','arr')
    r=st.mem[rid]; r.n=n; r.stride=a[2].c
    input(s,st,nm,'array',None)
    return [(st,Ptr(rid,Z64))]
def m_forall(s,st,a,rty,d):
    lo,hi,f,clo=a
    v=var('k',64)
    st2=st.fork(); rng=and_(cmp('sle',lo,v),cmp('slt',v,hi)); st2.assume(rng)
    ni=len(st2.inputs)
    old=s.opts.get('merge',True); s.opts['merge']=True; s.spec+=1
    s.stack.append('forall')
    nob=len(s.obl)
    try: outs=s.call(st2,f.r[3:],[clo,v],('i',1))
    finally: s.opts['merge']=old; s.spec-=1; s.stack.pop()
    body=TRUE
    for o,rv in outs:
        pc=and_(*[x for x in o.pc if x.id not in st2.known or x.id==rng.id])
        body=and_(body,implies(pc,rv))
    if body is TRUE: return [(st,TRUE)]
    return [(st,mk('forall',(v,implies(rng,body)),'B'))]
def m_inv(s,st,a,rty,d):
    k,l=s.invmode if s.invmode else ('check','outside of a loop: %s')
    if a[0] is FALSE and k=='assume': return []
    if k=='check': s.prove(st,a[0],'invariant '+(l%cstr(s,st,a[1])),'invariant')
    st.assume(a[0]); return [(st,None)]
def m_define(s,st,a,rty,d):
    if a[0] is FALSE: return []
    st.assume(a[0]); return [(st,None)]
def m_focus(s,st,a,rty,d):
    """obligations of this loop are generated in another instance of the proof: leave it at once"""
    if not s.dry and s.invmode and s.invmode[0]=='assume' and a[0] is FALSE:
        if not s.feasible(st,a[1]): return []
        st.assume(a[1])
    return [(st,None)]
def m_uf(s,st,a,rty,d):
    nm=cstr(s,st,a[0]); return [(st,mk('ufi',(nm,)+tuple(a[1:]),64))]
def m_checking(s,st,a,rty,d): return [(st,boolc(not(s.invmode and s.invmode[0]=='assume')))]
def m_array2(s,st,a,rty,d):
    r=m_array(s,st,a,rty,d); p=r[0][1]; rg=st.mem[p.r]; cw=a[3].c; real=a[4].c
    for o in range(0,rg.stride,cw):
        so='R' if real else cw*8
        rg.cols[(o,cw)]=mk('avar',('%s.%d'%(rg.name,o),),('A',so))
    return r
def m_stop(s,st,a,rty,d): return []

# ---- trusted externals
def m_new(s,st,a,rty,d):
    n=a[0]
    if n.c is not None:
        rid=s.newregion(st,'heap%d'%s.nreg[0],n)
    else:
        rid=s.newregion(st,'heap%d'%s.nreg[0],None,'undef','arr'); st.mem[rid].n=None
        c,m=lin(n)
        if len(m)==1 and c==0:
            (t,k),=m.items(); st.mem[rid].stride=k; st.mem[rid].n=t if t.sort==64 else sext(t,64)
        else: st.mem[rid].size=n
    return [(st,Ptr(rid,Z64))]
def m_calloc(s,st,a,rty,d):
    r=m_new(s,st,[binop('mul',a[0],a[1],frozenset({'nuw','nsw'}))],rty,d)
    p=r[0][1]; st.mem[p.r].default='zero'; return r
def m_delete(s,st,a,rty,d):
    p=a[0]
    if isinstance(p,Ptr) and p.r in s.iteptr:
        ch=s.choices(st,p)
        if len(ch)>1: raise Unsupported('free of a pointer that differs between paths')
        p=ch[0][1]
    if isinstance(p,Ptr) and p.r=='havoc': raise Unsupported('free of an unknown pointer')
    if isinstance(p,Ptr) and p.r in st.mem and not isinstance(p.r,str):
        r=st.wreg(p.r)
        if r.freed: s.prove(st,FALSE,'memory: double free in '+s.fn(),'safety')
        r.freed=True
        for w in s.wlogs: s.wlog(w,(p.r,'freed'),'x')
    return [(st,None)]
def m_id0(s,st,a,rty,d): return [(st,a[0] if a else None)]
def m_nop(s,st,a,rty,d):
    if rty==llir.VOID: return [(st,None)]
    if rty[0]=='i': return [(st,bv(0,rty[1]) if rty[1]>1 else FALSE)]
    return [(st,s.fresh(st,'ext',rty) if rty[0]!='ptr' else (a[0] if a and isinstance(a[0],Ptr) else NULL))]
def m_assert(s,st,a,rty,d):
    s.prove(st,FALSE,'assertion in source: '+cstr(s,st,a[0])[:80],'safety'); return []
def m_end(s,st,a,rty,d):
    s.covers.setdefault('!abort',0); s.covers['!abort']+=1
    if s.opts.get('noabort'): s.prove(st,FALSE,'program aborts in '+s.fn(),'safety')
    return []
def m_math(name):
    def f(s,st,a,rty,d): return [(st,rfun(name,*a))]
    return f
def m_memcmp(s,st,a,rty,d): return NotImplemented
def m_guard(s,st,a,rty,d): return [(st,bv(1,32))]

BASE=[(r'^__v_int$',m_int),(r'^__v_range$',m_range),(r'^__v_real$',m_real),(r'^__v_require$',m_require),
 (r'^__v_ensure$',m_ensure),(r'^__v_ensure_eq$',m_ensure_eq),(r'^__v_cover$',m_cover),(r'^__v_array$',m_array),
 (r'^__v_inv$',m_inv),(r'^__v_define$',m_define),(r'^__v_focus$',m_focus),(r'^__v_uf$',m_uf),(r'^__v_checking$',m_checking),(r'^__v_array2$',m_array2),
 (r'^__v_forall$',m_forall),(r'^__v_stop$',m_stop),
 (r'^operator new(\[\])?\(|^malloc$|^aligned_alloc$',m_new),(r'^calloc$',m_calloc),
 (r'^operator delete(\[\])?\(|^free$',m_delete),
 (r'^__assert_fail$',m_assert),
 (r'^(exit|abort|_exit|std::terminate\(\)|hila::terminate\(|hila::error\(|std::__throw_.*)',m_end),
 (r'^std::basic_ostream<.*>::operator<<|^std::basic_ostream<.*operator<<|^std::ostream::|std::basic_ostream<.*& std::(endl|flush|operator<<)',m_id0),
 (r'^std::__cxx11::basic_string<char.*>::~?basic_string\(|^std::allocator<char>::~?allocator\(|^std::__new_allocator<char>::|^std::setprecision|^std::setw',m_nop),
 (r'^(__cxa_atexit)$',m_nop),(r'^__cxa_guard_acquire$',m_guard),(r'^__cxa_guard_release$',m_nop),
 (r'^hila::timer::|^hila::gettime\(|^hila::synchronize',m_nop),
]
for n in ('sqrt','exp','log','sin','cos','tan','pow','atan2','acos','asin','atan','floor','ceil','trunc','round','rint','nearbyint','fabs','fmod','cosh','sinh','tanh','hypot','log2','log10','cbrt','exp2'):
    BASE.append((r'^%sf?l?$'%n,m_math(n)))
BASE.append((r'^fma(f|l)?$',lambda s,st,a,rty,d:[(st,radd(rmul(a[0],a[1]),a[2]))]))
def install(ex,extra=()):
    ex.models=[(re.compile(r),f) for r,f in list(extra)+BASE]

def install_stubs(ex,mod,names):
    """contracts standing for calls: stub_<n> (harness code) replaces the functions matching stubrx_<n>"""
    out=[]; active=set()
    for n in names:
        g=mod.global_def('@stubrx_'+n)
        if g is None: raise Unsupported('no stub '+n)
        rx=g[2][1].rstrip(b'\0').decode()
        def f(s,st,a,rty,d,n=n):
            if n in active: return NotImplemented
            active.add(n)
            try: return s.call(st,'@stub_'+n,a,rty)
            finally: active.discard(n)
        out.append((re.compile(rx),f)); ex.assumptions.add('callee replaced by its contract: '+n)
    ex.models=out+ex.models
