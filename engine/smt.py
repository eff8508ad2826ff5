"""Translation of terms to z3, in two exact modes:
 bv  : every iN is a BitVec(N)                       (all operators, bit precise)
 int : every iN is a mathematical integer with wrap-around made explicit except where the
       IR carries nsw/nuw (overflow there is UB; see exec.py for the overflow obligations)"""
import z3
from term import *
from fractions import Fraction

class Tr:
    def __init__(s,mode,linear=False):
        s.linear=linear; s.pol={}; s.mono={}; s.nonlin=False
        s.mode=mode; s.cache={}; s.side={}; s.z3vars={}; s.ufs={}; s._wr={}; s._keep=[]
    # ---- linear abstraction of products: polynomials over atoms, every monomial a variable
    def pl(s,e):
        i=e.get_id()
        p=s.pol.get(i)
        if p is None:
            if z3.is_int_value(e): p={():e.as_long()} if e.as_long() else {}
            else: p={(i,):1}; s._keep.append(e); s.mono[(i,)]=e
            s.pol[i]=p; s._keep.append(e)
        return p
    def setpl(s,e,p): s.pol[e.get_id()]=p; s._keep.append(e); return e
    def padd(s,a,b,k=1):
        p=dict(a)
        for m,c in b.items():
            n=p.get(m,0)+k*c
            if n: p[m]=n
            else: p.pop(m,None)
        return p
    def pmul(s,a,b):
        p={}
        for m,c in a.items():
            for n,d in b.items():
                q=tuple(sorted(m+n)); x=p.get(q,0)+c*d
                if x: p[q]=x
                else: p.pop(q,None)
        return p
    def pexpr(s,p):
        ts=[]
        for m,c in p.items():
            if m==(): ts.append(z3.IntVal(c)); continue
            v=s.mono.get(m)
            if v is None: v=s.mono[m]=z3.Int('mono!'+'*'.join(map(str,m)))
            ts.append(v if c==1 else c*v)
        if not ts: return z3.IntVal(0)
        return z3.Sum(ts) if len(ts)>1 else ts[0]
    def iadd(s,x,y,k=1):
        e=x+y if k==1 else x-y
        if s.linear: s.setpl(e,s.padd(s.pl(x),s.pl(y),k))
        return e
    def imul(s,x,y):
        if z3.is_int_value(x) or z3.is_int_value(y):
            e=x*y
            if s.linear: s.setpl(e,s.pmul(s.pl(x),s.pl(y)))
            return e
        s.nonlin=True
        if not s.linear: return x*y
        a,b=s.pl(x),s.pl(y)
        if len(a)*len(b)>200: return z3.FreshInt('nl')
        p=s.pmul(a,b)
        return s.setpl(s.pexpr(p),p)
    # ---- public
    def b(s,t):
        """bool term -> z3 Bool"""
        return s.tr(t) if s.mode=='bv' else s.itr(t)
    def sides(s,ts):
        """side facts (ranges, definitions) for all subterms of ts"""
        out=[];seen=set()
        st=[t for t in ts]
        while st:
            t=st.pop()
            if t.id in seen: continue
            seen.add(t.id)
            x=s.side.get(t.id)
            if x: out+=x
            for a in t.args:
                if isinstance(a,T): st.append(a)
        return out
    def addside(s,t,e): s.side.setdefault(t.id,[]).append(e)
    def zv(s,name,sort):
        k=(name,str(sort))
        v=s.z3vars.get(k)
        if v is None: v=z3.Const(name,sort); s.z3vars[k]=v
        return v
    def uf(s,name,*sorts):
        k=(name,)+tuple(str(x) for x in sorts)
        f=s.ufs.get(k)
        if f is None: f=z3.Function(name,*sorts); s.ufs[k]=f
        return f
    def zsort(s,so):
        if so=='B': return z3.BoolSort()
        if so=='R': return z3.RealSort()
        if isinstance(so,int): return z3.BitVecSort(so) if s.mode=='bv' else z3.IntSort()
        if so[0]=='A': return z3.ArraySort(z3.BitVecSort(64) if s.mode=='bv' else z3.IntSort(), s.zsort(so[1]))
        raise Exception(so)
    # ---- recursion without Python stack problems
    def _prep(s,t):
        st=[t]
        f=s._tr if s.mode=='bv' else s._itr
        while st:
            x=st[-1]
            if x.id in s.cache: st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.id not in s.cache]
            if pend: st+=pend; continue
            s.cache[x.id]=f(x); s._keep.append(x); st.pop()
        return s.cache[t.id]
    def tr(s,t): return s._prep(t)
    def itr(s,t):
        r=s._prep(t)
        return r[0] if isinstance(r,tuple) else r

    # ---- reals / bool common
    def _common(s,t,g):
        o=t.op;a=t.args
        if o=='z3': return a[0].e
        if o=='c' and t.sort=='B': return z3.BoolVal(t.c)
        if o=='c' and t.sort=='R': return z3.Q(t.c.numerator,t.c.denominator) if t.c.denominator!=1 else z3.RealVal(t.c.numerator)
        if o=='var' and t.sort in('B','R'): return s.zv(a[0],s.zsort(t.sort))
        if o=='avar':
            return s.zv(a[0],s.zsort(t.sort))
        if o=='not': return z3.Not(g(a[0]))
        if o=='and' and t.sort=='B': return z3.And(*[g(x) for x in a])
        if o=='bxor': return z3.Xor(g(a[0]),g(a[1]))
        if o=='ite' and t.sort in('B','R') or (o=='ite' and isinstance(t.sort,tuple)): return z3.If(g(a[0]),g(a[1]),g(a[2]))
        if o=='radd': return g(a[0])+g(a[1])
        if o=='rneg': return -g(a[0])
        if o=='rmul': return g(a[0])*g(a[1])
        if o=='rdiv': 
            q=s.zv('rdiv!%d'%t.id,z3.RealSort()); s.addside(t,z3.Implies(g(a[1])!=0,q*g(a[1])==g(a[0]))); return q
        if o=='rlt': return g(a[0])<g(a[1])
        if o=='req': return g(a[0])==g(a[1])
        if o=='rfun':
            xs=[g(x) for x in a[1:]]
            f=s.uf('f_'+a[0],*([z3.RealSort()]*(len(xs)+1)))
            e=f(*xs)
            if a[0]=='sqrt': s.addside(t,z3.Implies(xs[0]>=0,z3.And(e>=0,e*e==xs[0])))
            if a[0]=='exp': s.addside(t,e>0)
            if a[0] in('sin','cos'):
                c=s.uf('f_cos',z3.RealSort(),z3.RealSort())(xs[0]); d=s.uf('f_sin',z3.RealSort(),z3.RealSort())(xs[0])
                s.addside(t,c*c+d*d==1)
            return e
        if o=='forall':
            v=a[0]; body=a[1]
            vz=g(v)
            ss=s.sides([body]); bs=g(body)
            inner=[e for e in ss if _mentions(e,vz)]
            for e in ss:
                if not _mentions(e,vz): s.addside(t,e)
            rng=[]
            return z3.ForAll([vz],z3.Implies(z3.And(*inner),bs) if inner else bs)
        return None

    # ---- BV mode
    def _tr(s,t):
        g=lambda x:s.cache[x.id]
        r=s._common(t,g)
        if r is not None: return r
        o=t.op;a=t.args
        if o=='c': return z3.BitVecVal(t.c,t.sort)
        if o=='var':
            v=s.zv(a[0],z3.BitVecSort(t.sort))
            if a[1] is not None:
                if a[1]>=0: s.addside(t,z3.And(z3.UGE(v,a[1]),z3.ULE(v,a[2])))
                else: s.addside(t,z3.And(v>=a[1],v<=a[2]))
            return v
        if o=='ite': return z3.If(g(a[0]),g(a[1]),g(a[2]))
        if o=='add': return g(a[0])+g(a[1])
        if o=='sub': return g(a[0])-g(a[1])
        if o=='mul': return g(a[0])*g(a[1])
        if o=='udiv': return z3.UDiv(g(a[0]),g(a[1]))
        if o=='urem': return z3.URem(g(a[0]),g(a[1]))
        if o=='sdiv': return g(a[0])/g(a[1])
        if o=='srem': return z3.SRem(g(a[0]),g(a[1]))
        if o=='and' : return g(a[0])&g(a[1])
        if o=='or': return g(a[0])|g(a[1])
        if o=='xor': return g(a[0])^g(a[1])
        if o=='shl': return g(a[0])<<g(a[1])
        if o=='lshr': return z3.LShR(g(a[0]),g(a[1]))
        if o=='ashr': return g(a[0])>>g(a[1])
        if o=='zext': return z3.ZeroExt(t.sort-a[0].sort,g(a[0]))
        if o=='sext': return z3.SignExt(t.sort-a[0].sort,g(a[0]))
        if o=='extract': return z3.Extract(a[1]+a[2]-1,a[1],g(a[0]))
        if o=='concat': return z3.Concat(g(a[0]),g(a[1]))
        if o=='eq': return g(a[0])==g(a[1])
        if o=='slt': return g(a[0])<g(a[1])
        if o=='sle': return g(a[0])<=g(a[1])
        if o=='ult': return z3.ULT(g(a[0]),g(a[1]))
        if o=='ule': return z3.ULE(g(a[0]),g(a[1]))
        if o=='select': return z3.Select(g(a[0]),s._ix(g(a[1]),a[1]))
        if o=='store': return z3.Store(g(a[0]),s._ix(g(a[1]),a[1]),g(a[2]))
        if o=='aconst': return z3.K(z3.BitVecSort(64),g(a[0]))
        if o=='itor': return z3.ToReal(z3.BV2Int(g(a[0]),is_signed=a[1]))
        if o=='rtoi':
            return z3.Int2BV(z3.If(g(a[0])>=0,z3.ToInt(g(a[0])),-z3.ToInt(-g(a[0]))),t.sort)
        if o=='ufi':
            xs=[g(x) for x in a[1:]]
            return s.uf(a[0],*[x.sort() for x in xs],z3.BitVecSort(t.sort))(*xs)
        raise Exception('bv tr '+o)
    def _ix(s,e,t):
        if t.sort<64: return z3.SignExt(64-t.sort,e)
        return e

    # ---- Int mode: cache holds (expr,lo,hi,kind) for iN sorts
    def U(s,t):
        e,lo,hi,k=s.cache[t.id]; w=t.sort
        if k=='u' or lo>=0: return e,max(lo,0),hi
        if hi<0: return e+(1<<w),lo+(1<<w),hi+(1<<w)
        return z3.If(e<0,e+(1<<w),e),0,(1<<w)-1
    def S(s,t):
        e,lo,hi,k=s.cache[t.id]; w=t.sort
        if k=='s' or hi<(1<<(w-1)): return e,lo,hi
        if lo>=(1<<(w-1)): return e-(1<<w),lo-(1<<w),hi-(1<<w)
        return z3.If(e>=(1<<(w-1)),e-(1<<w),e),-(1<<(w-1)),(1<<(w-1))-1
    def sint(s,t): s._prep(t); return s.S(t)[0]
    def uint(s,t): s._prep(t); return s.U(t)[0]
    def _fit(s,w,x,y):
        """choose canonical form given integer-exact results in s or u"""
    def _itr(s,t):
        def g(x):
            r=s.cache[x.id]
            return r[0] if isinstance(r,tuple) else r
        r=s._common(t,g)
        if r is not None: return r
        o=t.op;a=t.args;w=t.sort
        if o in('eq','slt','sle','ult','ule'):
            if o=='eq':
                ca,cb=s.cache[a[0].id],s.cache[a[1].id]
                if ca[3]==cb[3] : return ca[0]==cb[0]
                return s.S(a[0])[0]==s.S(a[1])[0] if 's' in (ca[3],cb[3]) and not (ca[1]>=0 and cb[1]>=0) else s.U(a[0])[0]==s.U(a[1])[0]
            f=s.S if o[0]=='s' else s.U
            x,l1,h1=f(a[0]); y,l2,h2=f(a[1])
            if o[1:]=='lt':
                if h1<l2: return z3.BoolVal(True)
                return x<y
            if h1<=l2: return z3.BoolVal(True)
            return x<=y
        if o=='fits':
            f=s.S if a[3]=='s' else s.U; x=f(a[0])[0]; y=f(a[1])[0]; w=a[0].sort
            e=s.iadd(x,y) if a[2]=='add' else (s.iadd(x,y,-1) if a[2]=='sub' else s.imul(x,y))
            return z3.And(e>=-(1<<(w-1)),e<(1<<(w-1))) if a[3]=='s' else z3.And(e>=0,e<(1<<w))
        if o=='rtoi':
            x=g(a[0]); return (z3.If(x>=0,z3.ToInt(x),-z3.ToInt(-x)),-(1<<(w-1)),(1<<(w-1))-1,'s') if a[1] else (z3.ToInt(x),0,(1<<w)-1,'u')
        if o=='itor':
            return z3.ToReal((s.S if a[1] else s.U)(a[0])[0])
        if o=='store': return z3.Store(g(a[0]),s.S(a[1])[0],s.S(a[2])[0] if isinstance(a[2].sort,int) else g(a[2]))
        if o=='aconst': return z3.K(z3.IntSort(),s.S(a[0])[0] if isinstance(a[0].sort,int) else g(a[0]))
        if o=='select':
            e=z3.Select(g(a[0]),s.S(a[1])[0])
            if not isinstance(w,int): return e
            lo,hi=-(1<<(w-1)),(1<<(w-1))-1
            s.addside(t,z3.And(e>=lo,e<=hi))
            return (e,lo,hi,'s')
        if not isinstance(w,int): raise Exception('int tr '+o+' '+str(t.sort))
        MX=(1<<w); H=1<<(w-1)
        if o=='c':
            v=signed(t.c,w); return (z3.IntVal(v),v,v,'s')
        if o=='var':
            e=s.zv(a[0],z3.IntSort())
            lo,hi=(a[1],a[2]) if a[1] is not None else (-H,H-1)
            s.addside(t,z3.And(e>=lo,e<=hi))
            return (e,lo,hi,'u' if hi>=H else 's')
        if o=='ite':
            ka,kb=s.cache[a[1].id],s.cache[a[2].id]
            if ka[3]==kb[3]: return (z3.If(g(a[0]),ka[0],kb[0]),min(ka[1],kb[1]),max(ka[2],kb[2]),ka[3])
            if ka[1]>=0 and kb[1]>=0: return (z3.If(g(a[0]),ka[0],kb[0]),min(ka[1],kb[1]),max(ka[2],kb[2]),'u')
            x,y=s.S(a[1]),s.S(a[2])
            return (z3.If(g(a[0]),x[0],y[0]),min(x[1],y[1]),max(x[2],y[2]),'s')
        if o in('add','sub','mul'):
            fl=a[2]
            def comb(x,y):
                if o=='add': return s.iadd(x[0],y[0]),x[1]+y[1],x[2]+y[2]
                if o=='sub': return s.iadd(x[0],y[0],-1),x[1]-y[2],x[2]-y[1]
                c=[x[1]*y[1],x[1]*y[2],x[2]*y[1],x[2]*y[2]]
                return s.imul(x[0],y[0]),min(c),max(c)
            S=comb(s.S(a[0]),s.S(a[1]))
            if S[1]>=-H and S[2]<H: return S+('s',)
            U=comb(s.U(a[0]),s.U(a[1]))
            if U[1]>=0 and U[2]<MX: return U+('u',)
            if 'nsw' in fl:
                # exact integer value (overflow is UB); range facts are NOT assumed
                if 'nuw' in fl and U[1]>=0 and s.U(a[0])[1]==s.cache[a[0].id][1] and s.U(a[1])[1]==s.cache[a[1].id][1]:
                    return (S[0],max(S[1],0),min(S[2],H-1),'s')
                return (S[0],max(S[1],-H),min(S[2],H-1),'s')
            if 'nuw' in fl:
                return (U[0],max(U[1],0),min(U[2],MX-1),'u')
            if 'snw' in fl:   # proved in context: signed-exact
                return (S[0],max(S[1],-H),min(S[2],H-1),'s')
            if 'unw' in fl:
                return (U[0],max(U[1],0),min(U[2],MX-1),'u')
            # wrap
            if o=='mul':
                return (U[0]%MX,0,MX-1,'u')
            # prefer operands' kind
            ks=(s.cache[a[0].id][3],s.cache[a[1].id][3])
            if ks==('u','u') or (o=='add' and 'u' in ks):
                x=U[0]; 
                e=x
                if U[2]>=MX: e=z3.If(x>=MX,x-MX,e)
                if U[1]<0: e=z3.If(x<0,x+MX,e)
                return (e,0,MX-1,'u')
            x=S[0];e=x
            if S[2]>=H: e=z3.If(x>=H,x-MX,e)
            if S[1]<-H: e=z3.If(x<-H,x+MX,e)
            return (e,-H,H-1,'s')
        if o in('udiv','urem'):
            x,l1,h1=s.U(a[0]); y,l2,h2=s.U(a[1])
            if a[1].c is not None:
                if a[1].c==0: return (z3.FreshInt('div0'),0,MX-1,'u')
                return (x/y,l1//a[1].c,h1//a[1].c,'u') if o=='udiv' else (x%y,0,min(h1,h2-1),'u')
            q,r=s._divmod(t,x,y,h1,h2)
            return (q,0,h1,'u') if o=='udiv' else (r,0,min(h1,h2),'u')
        if o in('sdiv','srem'):
            x,l1,h1=s.S(a[0]); y,l2,h2=s.S(a[1])
            if a[1].c is not None and signed(a[1].c,w)>0:
                c=signed(a[1].c,w)
                if l1>=0: return (x/c,l1//c,h1//c,'s') if o=='sdiv' else (x%c,0,min(h1,c-1),'s')
                if o=='sdiv': return (z3.If(x>=0,x/c,-((-x)/c)),-((-l1)//c),max(h1,0)//c,'s')
                return (z3.If(x>=0,x%c,-((-x)%c)),-(c-1),c-1,'s')
            if l1>=0 and l2>=0:
                q,r=s._divmod(t,x,y,h1,h2)
                return (q,0,h1,'s') if o=='sdiv' else (r,0,min(h1,h2),'s')
            # truncated division with symbolic divisor
            ax=z3.If(x>=0,x,-x); ay=z3.If(y>=0,y,-y)
            q,r=s._divmod(t,ax,ay,MX,MX)
            if o=='sdiv': return (z3.If((x>=0)==(y>=0),q,-q),-H,H,'s')
            return (z3.If(x>=0,r,-r),-H,H-1,'s')
        if o=='zext':
            e,lo,hi=s.U(a[0]); return (e,lo,hi,'s' if hi<H else 'u')
        if o=='sext':
            e,lo,hi=s.S(a[0]); return (e,lo,hi,'s')
        if o=='extract':
            n=a[2]
            c=s.cache[a[0].id]
            if a[1]==0:
                h=1<<(n-1)
                if c[1]>=-h and c[2]<h: return (c[0],c[1],c[2],'s')
                if c[1]>=0 and c[2]<(1<<n): return (c[0],c[1],c[2],'u')
                e=c[0]
                return (e%(1<<n),0,(1<<n)-1,'u')
            e,lo,hi=s.U(a[0])
            return ((e/(1<<a[1]))%(1<<n),0,(1<<n)-1,'u')
        if o=='concat':
            h,l1,h1=s.U(a[0]); l,l2,h2=s.U(a[1]); k=1<<a[1].sort
            return (h*k+l,l1*k+l2,h1*k+h2,'u')
        if o=='and' and a[1].c is not None:
            c=a[1].c; e,lo,hi=s.U(a[0])
            z=(c&-c).bit_length()-1; m=c>>z
            if m&(m+1)==0:
                k=m.bit_length()
                x=e/(1<<z) if z else e
                if hi>>z > m: x=x%(1<<k)
                x=x*(1<<z) if z else x
                return (x,0,min(hi,c),'u')
            # general constant: sum of runs
            tot=0;i=0;ex=z3.IntVal(0)
            while c>>i:
                if (c>>i)&1:
                    j=i
                    while (c>>j)&1: j+=1
                    ex=ex+((e/(1<<i))%(1<<(j-i)))*(1<<i); i=j
                else: i+=1
            return (ex,0,c,'u')
        if o=='xor' and a[1].c is not None:
            c=a[1].c; e,lo,hi=s.U(a[0])
            if c==MX-1:
                x,l,h=s.S(a[0]); return (-x-1,-h-1,-l-1,'s')
            # flip set bits one by one
            ex=e
            for i in range(w):
                if (c>>i)&1: ex=ex+z3.If((e/(1<<i))%2==0,1<<i,-(1<<i))
            return (ex,0,MX-1,'u')
        if o=='or' and a[1].c is not None:
            c=a[1].c; e,lo,hi=s.U(a[0]); ex=e
            for i in range(w):
                if (c>>i)&1: ex=ex+z3.If((e/(1<<i))%2==0,1<<i,0)
            return (ex,0,MX-1,'u')
        if o in('lshr','ashr') and a[1].c is not None:
            k=1<<a[1].c
            e,lo,hi=s.U(a[0]) if o=='lshr' else s.S(a[0])
            return (e/k,lo//k,hi//k,'u' if o=='lshr' else 's')
        if o in('and','or','xor'):
            # via bit decomposition when narrow
            e,lo,hi=s.U(a[0]); f,lo2,hi2=s.U(a[1])
            n=max(hi.bit_length(),hi2.bit_length())
            if n<=16:
                ex=z3.IntVal(0)
                for i in range(n):
                    p=((e/(1<<i))%2)==1; q=((f/(1<<i))%2)==1
                    r={'and':z3.And(p,q),'or':z3.Or(p,q),'xor':z3.Xor(p,q)}[o]
                    ex=ex+z3.If(r,1<<i,0)
                return (ex,0,(1<<n)-1,'u')
            p=z3.Int2BV(e,w); q=z3.Int2BV(f,w); p={'and':p&q,'or':p|q,'xor':p^q}[o]
            return (z3.BV2Int(p,False),0,MX-1,'u')
        if o in('shl','lshr','ashr'):
            e,lo,hi=s.U(a[0]); f,lo2,hi2=s.U(a[1])
            if hi2<=64 or True:
                # pow2 table
                n=min(hi2,w-1)
                pw=z3.IntVal(1)
                for i in range(1,n+1): pw=z3.If(f==i,z3.IntVal(1<<i),pw)
                if o=='shl': return ((e*pw)%MX,0,MX-1,'u')
                if o=='lshr': return (e/pw,0,hi,'u')
                x,l,h=s.S(a[0]); return (x/pw,min(l,-1),max(h,0),'s')
        if o=='ufi':
            xs=[s.S(x)[0] if isinstance(x.sort,int) else g(x) for x in a[1:]]
            e=s.uf(a[0],*[x.sort() for x in xs],z3.IntSort())(*xs)
            s.addside(t,z3.And(e>=-H,e<H)); return (e,-H,H-1,'s')
        raise Exception('int tr %s %s'%(o,t))
    def _divmod(s,t,x,y,h1,h2):
        """x>=0,y>=0 symbolic divisor: fresh quotient/remainder defined by q*y+r=x (shared per (x,y))"""
        k=(x.get_id(),y.get_id())
        p=s._wr.get(k)
        if p is None:
            n=len(s._wr)
            q=z3.Int('q!%d'%n); r=z3.Int('r!%d'%n)
            d=z3.Implies(y>0,z3.And(s.iadd(s.imul(q,y),r)==x,r>=0,r<y,q>=0,q<=x))
            p=(q,r,d); s._wr[k]=p; s._keep+=[x,y]
        s.addside(t,p[2])
        return p[0],p[1]

def _mentions(e,v):
    seen=set();st=[e];vid=v.get_id()
    while st:
        x=st.pop();i=x.get_id()
        if i==vid: return True
        if i in seen: continue
        seen.add(i); st+=x.children() if z3.is_app(x) else ([x.body()] if z3.is_quantifier(x) else [])
    return False

class Z:
    """holder making a raw z3 expression hashable inside a term"""
    __slots__=('e',)
    def __init__(s,e): s.e=e
    def __hash__(s): return s.e.hash()
    def __eq__(s,o): return isinstance(o,Z) and s.e.eq(o.e)
def zbool(e): return mk('z3',(Z(e),),'B')
