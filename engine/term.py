"""Hash-consed terms: fixed-width integers (sort = width), 'B' booleans, 'R' reals
(floating point is interpreted over the reals), ('A',elem) arrays indexed by 64-bit ints."""
from fractions import Fraction

_tab={}
class T:
    __slots__=('op','args','sort','id','_h','c')
    def __repr__(s): return show(s,6)
_n=[0]
def mk(op,args,sort):
    k=(op,args,sort)
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.args=args; t.sort=sort; _n[0]+=1; t.id=_n[0]; t.c=None
        if op=='c': t.c=args[0]
        _tab[k]=t
    return t

def show(t,d=4):
    if not isinstance(t,T): return str(t)
    if t.op=='c': return str(t.args[0])
    if t.op in('var','avar'): return str(t.args[0])
    if d==0: return '..'
    return '('+t.op+' '+' '.join(show(a,d-1) for a in t.args)+')'

# ---------- constants
def bv(v,w): return mk('c',(v & ((1<<w)-1),),w)
TRUE=mk('c',(True,),'B'); FALSE=mk('c',(False,),'B')
def boolc(b): return TRUE if b else FALSE
def real(v): return mk('c',(Fraction(v),),'R')
def signed(v,w): return v-(1<<w) if v>>(w-1) else v
_cnt=[0]
def var(name,sort,lo=None,hi=None):
    """unique variable"""
    _cnt[0]+=1
    return mk('var',('%s!%d'%(name,_cnt[0]),lo,hi),sort)
def namedvar(name,sort,lo=None,hi=None): return mk('var',(name,lo,hi),sort)
def avar(name,elem):
    _cnt[0]+=1
    return mk('avar',('%s!%d'%(name,_cnt[0]),),('A',elem))

def isc(t): return t.op=='c'

# ---------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op=='not': return a.args[0]
    return mk('not',(a,),'B')
def and_(*xs):
    s=[];seen=set()
    for x in xs:
        ys=x.args if x.op=='and' else (x,)
        for y in ys:
            if y is FALSE: return FALSE
            if y is TRUE or y.id in seen: continue
            seen.add(y.id); s.append(y)
    for y in s:
        if y.op=='not' and y.args[0].id in seen: return FALSE
    if not s: return TRUE
    if len(s)==1: return s[0]
    return mk('and',tuple(s),'B')
def or_(*xs): return not_(and_(*[not_(x) for x in xs]))
def implies(a,b): return or_(not_(a),b)
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort=='B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c,b)
        if a is FALSE: return and_(not_(c),b)
        if b is TRUE: return or_(not_(c),a)
        if b is FALSE: return and_(c,a)
    if c.op=='not': return ite(c.args[0],b,a)
    if a.op=='ite' and a.args[0] is c: a=a.args[1]
    if b.op=='ite' and b.args[0] is c: b=b.args[2]
    if a is b: return a
    return mk('ite',(c,a,b),a.sort)

# ---------- bitvector ops
def _s(t): return signed(t.c,t.sort)
def binop(op,a,b,fl=frozenset()):
    w=a.sort
    assert a.sort==b.sort,(op,a,b)
    if w=='B':
        if op in('xor','add','sub'): return xor_(a,b)
        if op in('and','mul'): return and_(a,b)
        if op=='or': return or_(a,b)
        raise Exception('bool op '+op)
    M=(1<<w)-1
    if a.c is not None and b.c is not None:
        x,y=a.c,b.c
        if op=='add': return bv(x+y,w)
        if op=='sub': return bv(x-y,w)
        if op=='mul': return bv(x*y,w)
        if op=='and': return bv(x&y,w)
        if op=='or': return bv(x|y,w)
        if op=='xor': return bv(x^y,w)
        if op=='shl' and y<w: return bv(x<<y,w)
        if op=='lshr' and y<w: return bv(x>>y,w)
        if op=='ashr' and y<w: return bv(signed(x,w)>>y,w)
        if y!=0:
            if op=='udiv': return bv(x//y,w)
            if op=='urem': return bv(x%y,w)
            sx,sy=signed(x,w),signed(y,w)
            q=abs(sx)//abs(sy)
            if (sx<0)!=(sy<0): q=-q
            if op=='sdiv': return bv(q,w)
            if op=='srem': return bv(sx-q*sy,w)
    if op in('add','mul','and','or','xor') and a.c is not None: a,b=b,a
    if op=='sub' and b.c is not None:
        # keep nsw unless INT_MIN
        return binop('add',a,bv(-b.c,w),frozenset(fl)&{'nsw'} if b.c!=(1<<(w-1)) else frozenset())
    if b.c is not None:
        y=b.c
        if op in('add','or','xor','shl','lshr','ashr') and y==0: return a
        if op in('mul','and') and y==0: return b
        if op in('mul','udiv','sdiv') and y==1: return a
        if op=='urem' and y==1: return bv(0,w)
        if op=='srem' and (y==1): return bv(0,w)
        if op=='and' and y==M: return a
        if op=='or' and y==M: return b
        if op=='add' and a.op=='add' and a.args[1].c is not None:
            f2=a.args[2]
            s=signed(y,w)+signed(a.args[1].c,w)
            # nsw survives if both nsw and constants have same sign, or it fits anyway
            keep=frozenset({'nsw'}) if ('nsw' in fl and 'nsw' in f2 and -(1<<(w-1))<=s<(1<<(w-1))) else frozenset()
            if 'nuw' in fl and 'nuw' in f2 and y+a.args[1].c<=M: keep|={'nuw'}
            return binop('add',a.args[0],bv(s,w),keep)
        if op=='shl' and y<w:
            f=set(fl)
            if y==w-1: f.discard('nsw')
            return binop('mul',a,bv(1<<y,w),frozenset(f))
        if op=='mul' and a.op=='mul' and a.args[1].c is not None:
            f2=a.args[2]; p=signed(y,w)*signed(a.args[1].c,w)
            keep=frozenset()
            if 'nsw' in fl and 'nsw' in f2 and -(1<<(w-1))<=p<(1<<(w-1)): keep=frozenset({'nsw'})
            return binop('mul',a.args[0],bv(p,w),keep)
        if op=='sdiv' and a.op=='mul' and a.args[1] is b and 'nsw' in a.args[2]: return a.args[0]
        if op=='and' and a.op=='and' and a.args[1].c is not None: return binop('and',a.args[0],bv(y&a.args[1].c,w))
        if op=='xor' and a.op=='xor' and a.args[1].c is not None: return binop('xor',a.args[0],bv(y^a.args[1].c,w))
        if a.op=='ite' and a.args[1].c is not None and a.args[2].c is not None and not (op in('udiv','sdiv','urem','srem') and y==0):
            return ite(a.args[0],binop(op,a.args[1],b),binop(op,a.args[2],b))
        if op=='lshr' and a.op=='concat' and y<w:
            lo=a.args[1].sort
            if y==lo: return zext(a.args[0],w)
        if op=='and' and a.op=='zext' and y==(1<<a.args[0].sort)-1: return a
    if op in('and','or','xor') and (a.op=='zext' or (a.c is not None and a.c<=1)) and (b.op=='zext' or (b.c is not None and b.c<=1)):
        p,q=_b01(a),_b01(b)
        if p is not None and q is not None: return zext(binop(op,p,q),w)
    if op in('and','or','xor') and a.op=='ite' and b.op=='ite' and all(x.c is not None for x in a.args[1:]+b.args[1:]):
        return ite(a.args[0],ite(b.args[0],binop(op,a.args[1],b.args[1]),binop(op,a.args[1],b.args[2])),ite(b.args[0],binop(op,a.args[2],b.args[1]),binop(op,a.args[2],b.args[2])))
    if a is b:
        if op in('sub','xor'): return bv(0,w)
        if op in('and','or'): return a
    if op=='sub':
        if b.op=='add' and b.args[0] is a: return binop('sub',bv(0,w),b.args[1])
        if a.op=='add' and (a.args[0] is b): return a.args[1]
        if a.op=='add' and (a.args[1] is b): return a.args[0]
        if a.op=='add' and b.op=='add' and a.args[0] is b.args[0]: return binop('sub',a.args[1],b.args[1])
    if op=='or' and disjoint(a,b): 
        return binop('add',a,b,frozenset({'nuw','nsw'} if not (maybe_top(a) or maybe_top(b)) else {'nuw'}))
    if op in('add','mul','and','or','xor') and b.c is None and a.id>b.id: a,b=b,a
    return mk(op,(a,b,frozenset(fl) if op in('add','sub','mul') else frozenset()),w)
def _b01(a):
    if a.c is not None: return boolc(a.c)
    if a.op=='zext' and a.args[0].sort=='B': return a.args[0]
    return None
def maybe_top(a):
    return not(a.op=='zext' or (a.c is not None and not a.c>>(a.sort-1)))
def tz(t):
    """known trailing zero bits"""
    if t.c is not None: return t.sort if t.c==0 else (t.c & -t.c).bit_length()-1
    if t.op=='mul' and t.args[1].c is not None: return tz(t.args[1])
    if t.op=='concat': 
        z=tz(t.args[1]); return z if z<t.args[1].sort else z+tz(t.args[0])
    return 0
def topbits(t):
    """upper bound on number of significant bits"""
    if t.c is not None: return t.c.bit_length()
    if t.op=='zext': return topbits(t.args[0])
    if t.op=='ite': return max(topbits(t.args[1]),topbits(t.args[2]))
    if t.op=='and' and t.args[1].c is not None: return t.args[1].c.bit_length()
    if t.op=='mul' and t.args[1].c is not None and (t.args[1].c&(t.args[1].c-1))==0:
        return min(t.sort,topbits(t.args[0])+t.args[1].c.bit_length()-1)
    return t.sort
def disjoint(a,b): return topbits(a)<=tz(b) or topbits(b)<=tz(a)
def xor_(a,b):
    if a.c is not None: a,b=b,a
    if b.c is not None: return not_(a) if b.c else a
    if a is b: return FALSE
    return mk('bxor',(a,b),'B')
def zext(a,w):
    if a.sort=='B': return ite(a,bv(1,w),bv(0,w))
    if a.sort==w: return a
    if a.c is not None: return bv(a.c,w)
    if a.op=='zext': return zext(a.args[0],w)
    if a.op=='ite' and a.args[1].c is not None and a.args[2].c is not None: return ite(a.args[0],zext(a.args[1],w),zext(a.args[2],w))
    return mk('zext',(a,),w)
def sext(a,w):
    if a.sort=='B': return ite(a,bv(-1,w),bv(0,w))
    if a.sort==w: return a
    if a.c is not None: return bv(_s(a),w)
    if a.op=='sext': return sext(a.args[0],w)
    if a.op=='zext': return zext(a.args[0],w)
    if a.op=='ite' and a.args[1].c is not None and a.args[2].c is not None: return ite(a.args[0],sext(a.args[1],w),sext(a.args[2],w))
    return mk('sext',(a,),w)
def extract(a,lo,n):
    """bits [lo,lo+n)"""
    w=a.sort
    if lo==0 and n==w: return a
    if a.c is not None: return bv(a.c>>lo,n)
    if a.op=='concat':
        h,l=a.args
        if lo+n<=l.sort: return extract(l,lo,n)
        if lo>=l.sort: return extract(h,lo-l.sort,n)
    if a.op=='extract': return extract(a.args[0],a.args[1]+lo,n)
    if a.op in('zext','sext'):
        b=a.args[0]
        if lo+n<=b.sort: return extract(b,lo,n)
        if a.op=='zext':
            if lo>=b.sort: return bv(0,n)
            if lo==0: return zext(b,n)
        elif lo==0: return sext(b,n)
    if a.op=='ite': return ite(a.args[0],extract(a.args[1],lo,n),extract(a.args[2],lo,n))
    if lo==0 and a.op in('add','sub','mul','and','or','xor') : 
        if n<w: return binop(a.op,extract(a.args[0],0,n),extract(a.args[1],0,n))
    return mk('extract',(a,lo,n),n)
def concat(h,l):
    if h.c is not None and l.c is not None: return bv((h.c<<l.sort)|l.c,h.sort+l.sort)
    if h.c==0: return zext(l,h.sort+l.sort)
    if h.op=='extract' and l.op=='extract' and h.args[0] is l.args[0] and h.args[1]==l.args[1]+l.args[2]:
        return extract(h.args[0],l.args[1],l.args[2]+h.args[2])
    return mk('concat',(h,l),h.sort+l.sort)
def trunc(a,w):
    if w=='B':
        if a.op=='ite' and a.args[1].c is not None and a.args[2].c is not None:
            return ite(a.args[0],boolc(a.args[1].c&1),boolc(a.args[2].c&1))
        if a.c is not None: return boolc(a.c&1)
        if a.op=='tobool8': return a.args[0]
        if a.sort==8 and a.op=='var' and a.args[1]==0 and a.args[2]==1: return cmp('ne',a,bv(0,8))
        return cmp('ne',binop('and',a,bv(1,a.sort)),bv(0,a.sort))
    return extract(a,0,w)

NEGP={'eq':'ne','ne':'eq','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}
SWAPP={'eq':'eq','ne':'ne','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}
def cmp(p,a,b):
    if a.sort=='B':
        r=not_(xor_(a,b))
        if p=='eq': return r
        if p=='ne': return not_(r)
        a=zext(a,8); b=zext(b,8)
    w=a.sort
    assert w==b.sort,(p,a.sort,b.sort)
    if a.c is not None and b.c is not None:
        x,y=(a.c,b.c) if p[0]=='u' or p in('eq','ne') else (_s(a),_s(b))
        return boolc({'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[p if p in('eq','ne') else p[1:]])
    if a is b: return boolc(p in('eq','sle','sge','ule','uge'))
    if a.c is not None: a,b,p=b,a,SWAPP[p]
    if b.c is not None:
        if a.op=='ite' and (a.args[1].c is not None or a.args[2].c is not None):
            return ite(a.args[0],cmp(p,a.args[1],b),cmp(p,a.args[2],b))
        if p=='ult' and b.c==0: return FALSE
        if p=='uge' and b.c==0: return TRUE
        if p=='ugt' and b.c==0: p='ne'
        if p=='ult' and b.c==1: p,b='eq',bv(0,w)
        if a.op=='zext':
            n=a.args[0].sort
            if b.c < (1<<n):
                if p in('eq','ne') or p[0]=='u': return cmp(p,a.args[0],bv(b.c,n))
                if b.c<(1<<(w-1)): return cmp('u'+p[1:],a.args[0],bv(b.c,n))
        if a.op=='sext' and p in('eq','ne') :
            n=a.args[0].sort
            if -(1<<(n-1))<=_s(b)<(1<<(n-1)): return cmp(p,a.args[0],bv(b.c,n))
        if a.op=='add' and p in('eq','ne') and a.args[1].c is not None: return cmp(p,a.args[0],bv(b.c-a.args[1].c,w))
    if p in('ne','sge','uge','sgt','ugt'):
        return not_(cmp(NEGP[p],a,b))
    if p=='eq' and a.id>b.id: a,b=b,a
    return mk(p,(a,b),'B')

# ---------- reals
ZERO=real(0); ONE=real(1)
def radd(a,b):
    if a.c is not None and b.c is not None: return real(a.c+b.c)
    if a.c==0 and a.c is not None: return b
    if b.c is not None and b.c==0: return a
    if a.id>b.id: a,b=b,a
    return mk('radd',(a,b),'R')
def rneg(a):
    if a.c is not None: return real(-a.c)
    if a.op=='rneg': return a.args[0]
    return mk('rneg',(a,),'R')
def rsub(a,b): 
    if a is b: return ZERO
    return radd(a,rneg(b))
def rmul(a,b):
    if a.c is not None and b.c is not None: return real(a.c*b.c)
    if b.c is not None: a,b=b,a
    if a.c is not None:
        if a.c==0: return ZERO
        if a.c==1: return b
        if a.c==-1: return rneg(b)
    if a.id>b.id: a,b=b,a
    return mk('rmul',(a,b),'R')
def rdiv(a,b):
    if b.c is not None and b.c!=0: return rmul(a,real(1/b.c))
    if a.c is not None and a.c==0: return ZERO   # x/0 excluded by the totality assumption
    return mk('rdiv',(a,b),'R')
def rfun(name,*args):
    if name=='fabs':
        a=args[0]
        if a.c is not None: return real(abs(a.c))
        if a.op=='rneg': a=a.args[0]
        return ite(rcmp('lt',a,ZERO),rneg(a),a)
    if name=='sqrt' and args[0].c is not None:
        import math
        f=args[0].c
        if f>=0:
            p,q=math.isqrt(f.numerator),math.isqrt(f.denominator)
            if p*p==f.numerator and q*q==f.denominator: return real(Fraction(p,q))
    if name in('sin','tan','sinh','asin','atan') and args[0].c==0 and args[0].c is not None: return ZERO
    if name in('cos','exp','cosh') and args[0].c==0 and args[0].c is not None: return ONE
    return mk('rfun',(name,)+tuple(args),'R')
_nn={}
def nonneg(t):
    r=_nn.get(t.id)
    if r is None:
        _nn[t.id]=False; r=_nonneg(t); _nn[t.id]=r; _nnkeep.append(t)
    return r
_nnkeep=[]
def _nonneg(t):
    if t.c is not None: return t.c>=0
    o=t.op;a=t.args
    if o=='rmul': return a[0] is a[1] or (nonneg(a[0]) and nonneg(a[1]))
    if o in('radd','rdiv'): return nonneg(a[0]) and nonneg(a[1])
    if o=='rfun': return a[0] in('sqrt','exp','cosh')
    if o=='ite':
        if nonneg(a[1]) and nonneg(a[2]): return True
        c=a[0]
        if c.op=='rlt' and c.args[1].c==0 and c.args[0] is a[2] and a[1] is rneg(a[2]): return True
    return False
def rcmp(p,a,b):
    if a.c is not None and b.c is not None:
        x,y=a.c,b.c
        return boolc({'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[p])
    if a is b: return boolc(p in('eq','le','ge'))
    if p=='ne': return not_(rcmp('eq',a,b))
    if p=='gt': return rcmp('lt',b,a)
    if p=='ge': return not_(rcmp('lt',a,b))
    if p=='le': return not_(rcmp('lt',b,a))
    if p=='lt' and b.c is not None and b.c<=0 and nonneg(a): return FALSE
    if p=='eq' and a.id>b.id: a,b=b,a
    return mk('r'+p,(a,b),'B')
def itor(a,sgn):
    if a.sort=='B': return ite(a,ONE,ZERO)
    if a.c is not None: return real(_s(a) if sgn else a.c)
    return mk('itor',(a,sgn),'R')
def rtoi(a,w,sgn):
    if a.c is not None:
        f=a.c; v=abs(f.numerator)//f.denominator
        if f<0: v=-v
        return bv(v,w)
    if a.op=='itor':
        b,s=a.args
        if b.sort==w and s==sgn: return b
    return mk('rtoi',(a,sgn),w)

# ---------- arrays
def select(A,i):
    while A.op=='store':
        j=A.args[1]
        if j is i: return A.args[2]
        d=idxdiff(i,j)
        if d is not None and d!=0: A=A.args[0]; continue
        break
    if A.op=='aconst': return A.args[0]
    return mk('select',(A,i),A.sort[1])
def store(A,i,v):
    if A.op=='store' and A.args[1] is i: A=A.args[0]
    return mk('store',(A,i,v),A.sort)
def lin(t,w=None):
    """linear decomposition over the integers valid under the nsw/nuw facts: (const,{atom:coef})"""
    t0=t
    if t.c is not None: return _s(t),{}
    if t.op=='add' and ('nsw' in t.args[2]):
        c1,m1=lin(t.args[0]); c2,m2=lin(t.args[1])
        m=dict(m1)
        for k,v in m2.items():
            m[k]=m.get(k,0)+v
            if m[k]==0: del m[k]
        return c1+c2,m
    if t.op=='sub' and 'nsw' in t.args[2]:
        c1,m1=lin(t.args[0]); c2,m2=lin(t.args[1])
        m=dict(m1)
        for k,v in m2.items():
            m[k]=m.get(k,0)-v
            if m[k]==0: del m[k]
        return c1-c2,m
    if t.op=='mul' and t.args[1].c is not None and 'nsw' in t.args[2]:
        k=_s(t.args[1]); c,m=lin(t.args[0])
        return c*k,{a:v*k for a,v in m.items()}
    if t.op=='sext': return lin(t.args[0])
    return 0,{t:1}
def idxdiff(i,j):
    c1,m1=lin(i); c2,m2=lin(j)
    if m1==m2: return c1-c2
    return None
