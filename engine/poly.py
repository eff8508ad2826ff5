"""Exact decision of polynomial / rational / sqrt identities over the reals: terms are expanded to a
normal form (dict monomial->Fraction, monomials packed 10 bits per variable); divisions and square
roots become atoms eliminated through inv*den=1 and s*s=arg."""
from fractions import Fraction
from term import *
W=10
class Blow(Exception): pass
class Ring:
    def __init__(s,limit=400000):
        s.idx={}; s.names=[]; s.rel=[]  # rel[i]: None | ('inv',poly) | ('sqrt',poly)
        s.cache={}; s.limit=limit; s.byrel={}; s.dens=[]; s.keep=[]; s.pinned={}
    def newvar(s,key,rel=None):
        i=s.idx.get(key)
        if i is None:
            i=len(s.names); s.idx[key]=i; s.names.append(key); s.rel.append(rel)
        return i
    def add(s,p,q,k=1):
        r=dict(p)
        for m,c in q.items():
            v=r.get(m,0)+k*c
            if v==0: r.pop(m,None)
            else: r[m]=v
        return r
    def mul(s,p,q):
        if len(p)>len(q): p,q=q,p
        if len(p)*len(q)>s.limit*40: raise Blow()
        r={}
        for m,c in p.items():
            for n,d in q.items():
                k=m+n; v=r.get(k)
                r[k]=c*d if v is None else v+c*d
        r={m:c for m,c in r.items() if c!=0}
        if len(r)>s.limit: raise Blow()
        return s.reduce(r)
    def reduce(s,p):
        # s^2 -> arg, inv*... lazily (only sqrt here), highest index first
        for i in range(len(s.names)-1,-1,-1):
            r=s.rel[i]
            if r is None or r[0]=='inv': continue
            sh=W*i; hit=[m for m in p if (m>>sh)&1023>=2]
            if not hit: continue
            if r[0]=='sc':   # sin^2 -> 1-cos^2 ; r=('sc',cosidx)
                arg={0:1,2<<(W*r[1]):-1}
            else: arg=r[1]
            q={m:c for m,c in p.items() if (m>>sh)&1023<2}
            for m in hit:
                e=(m>>sh)&1023; base=m-(e<<sh)+((e&1)<<sh)
                t={base:p[m]}
                for _ in range(e//2): t=s.mul(t,arg)
                q=s.add(q,t)
            return s.reduce(q)
        return p
    def of(s,t):
        st=[t]
        while st:
            x=st[-1]
            if x.id in s.cache: st.pop(); continue
            if x.op in('radd','rmul','rneg','rdiv') or x.op=='rfun':
                pend=[a for a in x.args if isinstance(a,T) and a.id not in s.cache]
                if pend: st+=pend; continue
            s.cache[x.id]=s._of(x); s.keep.append(x); st.pop()
        return s.cache[t.id]
    def _of(s,t):
        g=lambda a:s.cache[a.id]
        o=t.op
        if t.id in s.pinned: return {0:s.pinned[t.id]} if s.pinned[t.id]!=0 else {}
        if o=='c': return {0:t.c} if t.c!=0 else {}
        if o=='radd': return s.add(g(t.args[0]),g(t.args[1]))
        if o=='rneg': return {m:-c for m,c in g(t.args[0]).items()}
        if o=='rmul': return s.mul(g(t.args[0]),g(t.args[1]))
        if o=='rdiv':
            b=g(t.args[1]); a=g(t.args[0])
            if not b: raise Blow('division by zero polynomial')
            if len(b)==1:
                (m,c),=b.items()
                if m==0: return {k:v/Fraction(c) for k,v in a.items()}
            # normalise leading coefficient so that equal denominators share atoms
            lead=Fraction(b[max(b)]); bn={m:c/lead for m,c in b.items()}
            key=('inv',tuple(sorted(bn.items())))
            i=s.newvar(key,('inv',bn)); s.dens.append(t.args[1])
            return s.mul({k:v/lead for k,v in a.items()},{1<<(W*i):1})
        if o=='rfun' and t.args[0]=='sqrt':
            a=g(t.args[1])
            if not a: return {}
            lead=abs(Fraction(a[max(a)]))   # sqrt(k*p) = sqrt(k)*sqrt(p), k>0
            k=s.sqrtc(lead)
            if len(a)==1 and 0 in a and a[0]>0: return k
            a={m:c/lead for m,c in a.items()}
            key=('sqrt',tuple(sorted(a.items())))
            i=s.newvar(key,('sqrt',a))
            return s.mul(k,{1<<(W*i):1})
        if o=='rfun' and t.args[0] in('sin','cos'):
            k=tuple(sorted(g(t.args[1]).items()))
            c=s.newvar(('cos',k))
            if t.args[0]=='cos': return {1<<(W*c):1}
            i=s.newvar(('sin',k),('sc',c))
            return {1<<(W*i):1}
        if o=='rfun': # uninterpreted: equal arguments give equal values
            k=(t.args[0],)+tuple(tuple(sorted(g(a).items())) if isinstance(a,T) else a for a in t.args[1:])
            return {1<<(W*s.newvar(k)):1}
        return {1<<(W*s.newvar(t.id)):1}
    def sqrtc(s,f):
        # square root of a positive rational as rational * product of square roots of primes
        n=f.numerator*f.denominator; k=Fraction(1,f.denominator); primes=[]; d=2
        while d*d<=n and d<10000:
            while n%(d*d)==0: n//=d*d; k*=d
            if n%d==0: n//=d; primes.append(d)
            d+=1
        import math
        r=math.isqrt(n)
        if r*r==n: k*=r
        elif n>1: primes.append(n)
        p={0:k}
        for q in primes:
            i=s.newvar(('sqrtc',q),('sqrt',{0:q})); p=s.mul(p,{1<<(W*i):1})
        return p
    def is_zero(s,p):
        # clear inverse atoms, newest first
        p=s.reduce(p)
        for i in range(len(s.names)-1,-1,-1):
            r=s.rel[i]
            if not p: return True
            if r is None or r[0]!='inv': continue
            sh=W*i; K=max((m>>sh)&1023 for m in p)
            if K==0: continue
            by={}
            for m,c in p.items():
                e=(m>>sh)&1023; by.setdefault(e,{})[m-(e<<sh)]=c
            out={}; bp=[{0:1}]
            for e in range(K): bp.append(s.mul(bp[-1],r[1]))
            for e,q in by.items(): out=s.add(out,s.mul(q,bp[K-e]))
            p=s.reduce(out)
        return not p

def prove_eq(a,b,limit=400000,pinned=None):
    R=Ring(limit)
    if pinned: R.pinned=pinned
    try:
        p=R.add(R.of(a),R.of(b),-1)
        return R.is_zero(p),R
    except Blow:
        return None,R
