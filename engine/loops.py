"""Loops with invariants. The invariant stands in the real code as a call to a hook verif_inv_<name>(...)
(empty unless the guard HILA_VERIFY is defined); its meaning is given by the harness. The loop is cut at the
hook: the invariant is proved on the first arrival, then assumed for an arbitrary iteration (everything the
loop can write is replaced by arbitrary values) and proved again when the hook is reached the next time."""
from term import *
from exec import *

def hooks(s,F):
    """header -> (block, index) of the hook that cuts the loop; hooks without a definition are ignored"""
    if F.name in s.hookc: return s.hookc[F.name]
    L=F.loops(); H={}; inner={}
    for b in F.blocks:
        hs=[h for h in L if b in L[h]]
        if hs: inner[b]=min(hs,key=lambda h:len(L[h]))
    off=s.opts.get('nohooks','').split('+') if isinstance(s.opts.get('nohooks'),str) else []
    for b in F._rpo:
        for i,I in enumerate(F.blocks[b]):
            if I.op in('call','invoke') and I.a[1][0]=='g' and 'verif_inv_' in I.a[1][1]:
                n=I.a[1][1]
                if s.m.func(n) is None or b not in inner or any(o and 'verif_inv_'+o in n for o in off): continue
                H.setdefault(inner[b],(b,i,n))
    s.hookc[F.name]=H
    return H

def do_loop(s,st,F,h,prev,env,cnt):
    b,i,n=hooks(s,F)[h]
    key=('L',env['$frame'],h)
    name=s.fn()+' '+s.dem(n).split('(')[0].replace('verif_inv_','')
    st1=st.fork(); st1.ghost[key]='init'
    # what the loop can write
    W={}
    for rnd in range(12):
        st2,phis=havoc(s,st,F,h,prev,env,W)
        st2.ghost[key]='assume'
        new={}
        s.wlogs.append(new); s.dry+=1
        try: s.explore(F,[(st2,h,('$phis',phis),dict(env),dict(cnt))],[],within=key)
        finally: s.wlogs.pop(); s.dry-=1
        grew=False
        for k,v in new.items():
            if k[0] not in st.mem and not(isinstance(k[0],str) and k[0].startswith('g:')): continue
            if k not in W: W[k]=[]; grew=True
            for x in v:
                if sig(W[k]+[x])!=sig(W[k]): grew=True; W[k].append(x)
        if not grew: break
    else: raise Unsupported('write set of loop in '+F.name+' does not stabilise')
    st2,phis=havoc(s,st,F,h,prev,env,W)
    st2.ghost[key]='assume'
    if not s.dry and name not in s.loops_inv: s.loops_inv.append(name)
    return [(st2,h,('$phis',phis),dict(env),dict(cnt)),(st1,h,prev,dict(env),dict(cnt))]

def sig(vs):
    return (frozenset(p.r for p in vs if isinstance(p,Ptr)),len({p.o.id for p in vs if isinstance(p,Ptr)})>1,
            any(not bool01(p) for p in vs if not isinstance(p,Ptr)),any(isinstance(p,T) and p.sort=='R' for p in vs),any(not isinstance(p,Ptr) for p in vs))
def bool01(v):
    return isinstance(v,T) and v.sort==8 and (v.c in(0,1) or (v.op=='zext' and v.args[0].sort=='B'))

def havoc(s,st,F,h,prev,env,W):
    st2=st.fork()
    for k in W:
        if isinstance(k[0],str) and k[0] not in st2.mem: s.globptr(st2,k[0][2:])
    for k,vals in W.items():
        rid=k[0]
        r=st2.wreg(rid)
        if k[1]=='freed': raise Unsupported('object %s freed in a loop'%r.name)
        if k[1]=='*': raise Unsupported('whole object %s rewritten in a loop'%r.name)
        if k[1]=='col':
            _,_,q,sort=k
            if q in r.cols: sort=r.cols[q].sort[1]
            r.cols[q]=mk('avar',('%s.%d!%d'%(r.name,q[0],s.uid()),),('A',sort)); continue
        off,size=k[1],k[2]
        old=r.cells.get(off)
        ps=[v for v in vals if isinstance(v,Ptr)]
        if ps or (old and isinstance(old[1],Ptr)):
            regs={p.r for p in ps}
            if old and isinstance(old[1],Ptr): regs.add(old[1].r)
            elif old is not None and not(isinstance(old[1],T) and old[1].op=='var'): regs.add('?')
            elif old is None and r.default=='zero': regs.add(0)
            if len(vals)!=len(ps): regs.add('?')
            if len(regs)!=1: 
                r.cells[off]=(size,Ptr('havoc',Z64))    # any use is an error
                continue
            nv=Ptr(regs.pop(),var('hv',64))
            ow=old[1].o if old and isinstance(old[1],Ptr) else None
            if ow is not None and all(p.o is ow for p in ps): nv=Ptr(nv.r,ow)
        elif any(v.sort=='R' for v in vals): nv=var('hv','R')
        elif all(bool01(v) for v in vals) and (old is None and r.default=='undef' or old is not None and old[0]==size and bool01(old[1])): nv=zext(var('hv','B'),8)
        else: nv=var('hv',size*8)
        for o in range(off-15,off+size):
            y=r.cells.get(o)
            if y is not None and o+y[0]>off and o!=off:
                del r.cells[o]
                if o<off: r.cells[o]=(off-o,extract(s.asint(y[1],y[0]*8),0,(off-o)*8))
                if o+y[0]>off+size:
                    m=o+y[0]-off-size
                    r.cells[off+size]=(m,extract(s.asint(y[1],y[0]*8),(off+size-o)*8,m*8))
        if old is not None and old[0]>size:
            m=old[0]-size; r.cells[off+size]=(m,extract(s.asint(old[1],old[0]*8),size*8,m*8))
        r.cells[off]=(size,nv)
    phis={}
    for I in F.blocks[h]:
        if I.op!='phi': break
        t=s.m.res(I.a[0]); v0=prev[1][I.res] if isinstance(prev,tuple) else next(s.val(st,env,t,x) for x,bb in I.a[1] if bb==prev)
        # values coming round the loop that are the phi itself do not change
        if isinstance(v0,Ptr): phis[I.res]=Ptr(v0.r,var('hv',64))
        else: phis[I.res]=s.fresh(st2,'hv',t)
    return st2,phis

def hook(s,st,F,b,i,I,env):
    """arrival at a hook call; None: not a cut point (ignore), [] path ends, else list of states"""
    H=hooks(s,F)
    for h,(bb,ii,n) in H.items():
        if (bb,ii)==(b,i):
            key=('L',env['$frame'],h); mode=st.ghost.get(key)
            break
    else: return None
    if mode is None: return None
    args=[s.val(st,env,t,v) for t,v in I.a[2]]
    name=s.dem(n).split('(')[0].replace('verif_inv_','')
    old=s.invmode; s.spec+=1
    s.invmode=('assume',name) if mode=='assume' else ('check','%s: %%s (%s)'%(name,'first iteration' if mode=='init' else 'preserved'))
    try: outs=s.call(st,n,args,('void',))
    finally: s.invmode=old; s.spec-=1
    if mode!='assume': return []
    res=[]
    for o,_ in outs:
        o.ghost[key]='step'; res.append(o)
        if not s.dry:
            l='loop %s: body reachable'%name
            if s.covers.get(l)!='reached':
                r=s._check(list(o.pc),5000,full=True)
                s.covers[l]='reached' if r=='sat' else ('unknown' if r!='unsat' else s.covers.get(l,'unreachable'))
    return res
