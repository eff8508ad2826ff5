"""Textual LLVM-18 IR reader (the subset clang emits for the HILA sources).
Functions are split textually and parsed lazily, so that a module with thousands of
library functions costs nothing except for those actually reached."""
import re, struct

# ---- types: ints are ('i',w); others tuples
F32=('f',32); F64=('f',64); PTR=('ptr',); VOID=('void',); LABEL=('label',); META=('metadata',)

class IRError(Exception): pass

TOK=re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)|
  (?P<glob>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)|
  (?P<meta>!(?:[-a-zA-Z$._0-9]*))|
  (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)|
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|
  (?P<attr>\#\d+)|
  (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''',re.X)

def tokenize(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m or m.end()==i:
            if s[i:].strip()=='' : break
            if s[i:].lstrip().startswith(';'): break
            raise IRError('tok: '+s[i:i+60])
        k=m.lastgroup; out.append((k,m.group(k))); i=m.end()
    return out

class P:
    """token cursor"""
    __slots__=('t','i','mod')
    def __init__(s,toks,mod): s.t=toks; s.i=0; s.mod=mod
    def pk(s,o=0):
        j=s.i+o
        return s.t[j][1] if j<len(s.t) else None
    def pkk(s): return s.t[s.i] if s.i<len(s.t) else (None,None)
    def nx(s):
        v=s.t[s.i][1]; s.i+=1; return v
    def ac(s,v):
        if s.i<len(s.t) and s.t[s.i][1]==v: s.i+=1; return True
        return False
    def ex(s,v):
        if not s.ac(v): raise IRError('expected %s got %s in %s'%(v,s.pk(),' '.join(x[1] for x in s.t)[:200]))
    def end(s): return s.i>=len(s.t)

    def type(s):
        k,v=s.pkk()
        if k=='word':
            s.i+=1
            if v=='ptr':
                if s.ac('addrspace'): s.ex('(');s.nx();s.ex(')')
                t=PTR
            elif v=='void': t=VOID
            elif v=='float': t=F32
            elif v=='double': t=F64
            elif v=='half': t=('f',16)
            elif v=='x86_fp80': t=('f',80)
            elif v=='fp128': t=('f',128)
            elif v=='label': t=LABEL
            elif v=='metadata': t=META
            elif v=='opaque': t=('opaque',)
            elif v=='token': t=('token',)
            elif re.fullmatch(r'i\d+',v): t=('i',int(v[1:]))
            else: raise IRError('type '+v)
        elif k=='loc':
            s.i+=1; t=('named',v)
        elif v=='[':
            s.i+=1; n=int(s.nx()); s.ex('x'); e=s.type(); s.ex(']'); t=('arr',n,e)
        elif v=='<':
            s.i+=1
            if s.pk()=='{':
                s.i+=1; f=s.typelist('}'); s.ex('>'); t=('struct',tuple(f),True)
            else:
                if s.ac('vscale'): s.ex('x')
                n=int(s.nx()); s.ex('x'); e=s.type(); s.ex('>'); t=('vec',n,e)
        elif v=='{':
            s.i+=1; f=s.typelist('}'); t=('struct',tuple(f),False)
        else: raise IRError('type? %r'%(v,))
        # function type
        while s.pk()=='(' :
            s.i+=1; a=[]
            while not s.ac(')'):
                if s.ac('...'): a.append('...')
                else: a.append(s.type())
                s.ac(',')
            t=('fn',t,tuple(a))
        return t
    def typelist(s,close):
        f=[]
        while not s.ac(close):
            f.append(s.type()); s.ac(',')
        return f

    ATTRW={'noundef','nonnull','signext','zeroext','noalias','nocapture','readonly','writeonly','readnone','inreg','returned','immarg','swiftself','nofree','dead_on_unwind','writable','inalloca','nest','noext','allocptr','allocalign','dead_on_return'}
    def attrs(s):
        while True:
            k,v=s.pkk()
            if k=='word' and v in s.ATTRW: s.i+=1
            elif k=='word' and v in('align',):
                s.i+=1
                if s.ac('('): s.nx(); s.ex(')')
                else: s.nx()
            elif k=='word' and v in('dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','preallocated','memory','range','nofpclass','initializes','captures'):
                s.i+=1; s.ex('('); d=1
                while d:
                    x=s.nx()
                    if x=='(':d+=1
                    elif x==')':d-=1
            elif k=='attr': s.i+=1
            else: break

    def const_or_val(s,ty):
        """value operand given its type -> ('c',...)|('l',name)|('g',name)|..."""
        k,v=s.pkk()
        if k=='loc': s.i+=1; return ('l',v)
        if k=='glob': s.i+=1; return ('g',v)
        if k=='num':
            s.i+=1
            if ty[0]=='i': return ('ci',int(v),ty)
            return ('cf',float(v),ty)
        if k=='hex':
            s.i+=1
            if v[2] in 'KLMRH': return ('cfx',v,ty)
            return ('cf',struct.unpack('>d',bytes.fromhex(v[2:].rjust(16,'0')))[0],ty)
        if k=='word':
            s.i+=1
            if v=='true': return ('ci',1,ty)
            if v=='false': return ('ci',0,ty)
            if v=='null': return ('null',)
            if v in('undef','poison'): return (v,ty)
            if v=='zeroinitializer': return ('zero',ty)
            if v=='none': return ('none',)
            if v in('getelementptr',):
                while s.ac('inbounds') or s.ac('nuw') or s.ac('nusw'): pass
                if s.ac('inrange'):
                    s.ex('(')
                    while not s.ac(')'): s.nx()
                s.ex('('); bt=s.type(); s.ex(',')
                ops=[]
                while True:
                    s.ac('inrange')
                    t=s.type(); ops.append((t,s.const_or_val(t)))
                    if not s.ac(','): break
                s.ex(')')
                return ('cgep',bt,ops)
            if v in('bitcast','inttoptr','ptrtoint','trunc','zext','sext','addrspacecast'):
                s.ex('('); t=s.type(); x=s.const_or_val(t); s.ex('to'); t2=s.type(); s.ex(')')
                return ('ccast',v,t,x,t2)
            if v in('add','sub','mul','xor','and','or','shl'):
                while s.ac('nsw') or s.ac('nuw'): pass
                s.ex('('); t=s.type(); a=s.const_or_val(t); s.ex(','); t2=s.type(); b=s.const_or_val(t2); s.ex(')')
                return ('cbin',v,t,a,b)
            if v in('dso_local_equivalent','no_cfi'): return s.const_or_val(ty)
            if v=='blockaddress': raise IRError('blockaddress')
            raise IRError('const '+v)
        if k=='str':
            s.i+=1
            b=v[v.index('"')+1:-1]
            out=bytearray();i=0
            while i<len(b):
                if b[i]=='\\':
                    if b[i+1]=='\\': out.append(92); i+=2
                    else: out.append(int(b[i+1:i+3],16)); i+=3
                else: out.append(ord(b[i])); i+=1
            return ('cstr',bytes(out))
        if v in('[','{','<'):
            s.i+=1
            packed=False
            close={'[':']','{':'}','<':'>'}[v]
            if v=='<' and s.pk()=='{': s.i+=1; close='}'; packed=True
            el=[]
            while not s.ac(close):
                t=s.type(); el.append((t,s.const_or_val(t))); s.ac(',')
            if packed: s.ex('>')
            return ('cagg',el)
        if v=='!' or k=='meta':
            s.i+=1
            if s.ac('{'):
                d=1
                while d:
                    x=s.nx()
                    if x=='{':d+=1
                    elif x=='}':d-=1
            return ('meta',)
        raise IRError('val %r'%(v,))
    def tv(s):
        t=s.type(); s.attrs()
        if t==META:
            # metadata operand: may be a typed value
            k,v=s.pkk()
            if k=='meta':
                s.i+=1
                if s.pk()=='(':
                    d=0
                    while True:
                        x=s.nx()
                        if x=='(':d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
                return t,('meta',)
            return s.tv()
        return t,s.const_or_val(t)

class Instr:
    __slots__=('res','op','a','text','uid')
    def __init__(s,res,op,a,text): s.res=res;s.op=op;s.a=a;s.text=text;s.uid=0

class Function:
    def __init__(s,mod,name,header,body):
        s.mod=mod;s.name=name;s.header=header;s.body=body;s._p=False
    def parse(s):
        if s._p: return s
        p=P(tokenize(s.header),s.mod)
        # find '@name' token followed by '('
        i=next(j for j,(k,v) in enumerate(p.t) if k=='glob' and v==s.name)
        # return type: parse backwards is hard -> parse from after 'define' skipping linkage words
        p.i=1
        LW={'linkonce_odr','dso_local','internal','weak_odr','weak','private','available_externally','linkonce','external','hidden','protected','unnamed_addr','local_unnamed_addr','fastcc','dllexport','extern_weak','common','appending','constant','comdat'}
        while p.pk() in LW: p.i+=1
        p.attrs(); s.rty=p.type(); p.i=i+1
        p.ex('('); s.params=[]; s.vararg=False
        n=0
        while not p.ac(')'):
            if p.ac('...'): s.vararg=True; continue
            t=p.type()
            sret = False
            p.attrs()
            k,v=p.pkk()
            if k=='loc': p.i+=1; nm=v
            else: nm='%%%d'%n
            s.params.append((t,nm)); n+=1
            p.ac(',')
        # blocks
        s.blocks={}; cur=None; order=[]
        first=True
        for line in s.body:
            if not line.startswith(' '):
                m=re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):',line)
                if m:
                    cur='%'+m.group(1); s.blocks[cur]=[]; order.append(cur); first=False
                continue
            if first:
                cur='%entry0'; s.blocks[cur]=[]; order.append(cur); first=False
                # implicit number
                cnt=len([1 for t,nm in s.params if re.fullmatch(r'%\d+',nm)])
                s.implicit='%%%d'%cnt
                s.blocks.pop(cur); order.pop(); cur=s.implicit; s.blocks[cur]=[]; order.append(cur)
            s.blocks[cur].append(line)
        s.entry=order[0]; s.order=order
        for b in order:
            lines=s.blocks[b]; out=[];i=0
            while i<len(lines):
                l=lines[i]
                # join multi-line switch / landingpad
                st=l.strip()
                if re.match(r'(%\S+ = )?switch ',st) and not st.rstrip().endswith(']') and ']' not in st:
                    while ']' not in lines[i]:
                        i+=1; st+=' '+lines[i].strip()
                if st.startswith('#dbg') : i+=1; continue
                out.append(parse_instr(st,s.mod)); i+=1
            s.blocks[b]=out
        for b in order:
            for k,ins in enumerate(s.blocks[b]): ins.uid=(b,k)
        s._p=True
        s._loops=None
        return s
    def succs(s,b):
        t=s.blocks[b][-1]
        if t.op=='br': return [t.a[0]] if len(t.a)==1 else [t.a[1],t.a[2]]
        if t.op=='switch': return [t.a[2]]+[x[1] for x in t.a[3]]
        return []
    def liveat(s,b):
        """local names whose value is still used from the start of b on (phis of b already evaluated)"""
        if s.__dict__.get('_live') is None:
            def names(x,out):
                if isinstance(x,(tuple,list)):
                    if len(x)==2 and x[0]=='l' and isinstance(x[1],str): out.add(x[1]); return
                    for y in x: names(y,out)
            use={};df={};phi={}
            for q,ins in s.blocks.items():
                u=set();d=set()
                for I in ins:
                    if I.op=='phi':
                        for v,bb in I.a[1]:
                            o=set(); names((v,),o); phi.setdefault(bb,set()).update(o)
                    else:
                        o=set(); names(I.a,o); u|=o-d
                    if I.res: d.add(I.res)
                use[q]=u;df[q]=d
            live={q:set(use[q]) for q in s.blocks}
            ch=True
            while ch:
                ch=False
                for q in s.blocks:
                    o=set(phi.get(q,()))
                    for n in s.succs(q): o|=live[n]
                    o=use[q]|(o-df[q])
                    if not o<=live[q]: live[q]|=o; ch=True
            s._live=live
        return s._live[b]
    def loops(s):
        """header -> set of blocks (natural loops via dominators)"""
        if s._loops is not None: return s._loops
        order=[];seen=set()
        st=[(s.entry,iter(s.succs(s.entry)))]; seen.add(s.entry)
        while st:
            b,it=st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x,iter(s.succs(x)))); break
            else: order.append(b); st.pop()
        rpo=order[::-1]; idx={b:i for i,b in enumerate(rpo)}
        preds={b:[] for b in rpo}
        for b in rpo:
            for x in s.succs(b): preds[x].append(b)
        idom={s.entry:s.entry}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[p for p in preds[b] if p in idom]
                n=ps[0]
                for p in ps[1:]:
                    a,c=p,n
                    while a!=c:
                        while idx[a]>idx[c]: a=idom[a]
                        while idx[c]>idx[a]: c=idom[c]
                    n=a
                if idom.get(b)!=n: idom[b]=n; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==s.entry: return False
                b=idom[b]
        L={}
        for b in rpo:
            for x in s.succs(b):
                if dom(x,b):
                    body=L.setdefault(x,{x}); w=[b]
                    while w:
                        y=w.pop()
                        if y in body: continue
                        body.add(y); w+=preds[y]
        s._loops=L; s._preds=preds; s._rpo=rpo
        return L

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST={'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
FLAGS={'nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','inbounds','nusw','samesign'}

def parse_instr(line,mod):
    # strip metadata attachments
    p=P(tokenize(line),mod)
    res=None
    if p.pkk()[0]=='loc' and p.pk(1)=='=': res=p.nx(); p.nx()
    op=p.nx()
    if op in('tail','musttail','notail'): op=p.nx()
    fl=set()
    def flags():
        while p.pk() in FLAGS: fl.add(p.nx())
    a=None
    if op in BIN:
        flags(); t=p.type(); x=p.const_or_val(t); p.ex(','); y=p.const_or_val(t); a=(t,x,y,frozenset(fl))
    elif op=='fneg': flags(); t=p.type(); a=(t,p.const_or_val(t))
    elif op in CAST:
        flags(); t=p.type(); x=p.const_or_val(t); p.ex('to'); t2=p.type(); a=(t,x,t2,frozenset(fl))
    elif op in('icmp','fcmp'):
        flags(); pr=p.nx()
        flags(); t=p.type(); x=p.const_or_val(t); p.ex(','); y=p.const_or_val(t); a=(pr,t,x,y)
    elif op=='alloca':
        p.ac('inalloca'); t=p.type(); cnt=None
        if p.ac(','):
            if p.pk()!='align' and p.pkk()[0]!='meta' and p.pk()!='addrspace':
                t2=p.type(); cnt=(t2,p.const_or_val(t2))
        a=(t,cnt)
    elif op=='load':
        p.ac('atomic'); p.ac('volatile'); t=p.type(); p.ex(','); t2=p.type(); a=(t,p.const_or_val(t2))
    elif op=='store':
        p.ac('atomic'); p.ac('volatile'); t=p.type(); x=p.const_or_val(t); p.ex(','); t2=p.type(); a=(t,x,p.const_or_val(t2))
    elif op=='getelementptr':
        flags(); bt=p.type(); p.ex(','); ops=[]
        while True:
            t=p.type(); ops.append((t,p.const_or_val(t)))
            if not p.ac(','): break
            if p.pkk()[0]=='meta': break
        a=(bt,ops)
    elif op=='br':
        if p.pk()=='label': p.nx(); a=(p.nx(),)
        else:
            t=p.type(); c=p.const_or_val(t); p.ex(','); p.ex('label'); x=p.nx(); p.ex(','); p.ex('label'); y=p.nx(); a=(c,x,y)
    elif op=='switch':
        t=p.type(); v=p.const_or_val(t); p.ex(','); p.ex('label'); d=p.nx(); p.ex('['); cs=[]
        while not p.ac(']'):
            t2=p.type(); c=p.const_or_val(t2); p.ex(','); p.ex('label'); cs.append((c,p.nx()))
        a=(t,v,d,cs)
    elif op=='ret':
        t=p.type(); a=(t,None if t==VOID else p.const_or_val(t))
    elif op=='phi':
        flags(); t=p.type(); inc=[]
        while True:
            p.ex('['); v=p.const_or_val(t); p.ex(','); b=p.nx(); p.ex(']'); inc.append((v,b))
            if not p.ac(',') or p.pkk()[0]=='meta': break
        a=(t,inc)
    elif op=='select':
        flags(); t=p.type(); c=p.const_or_val(t); p.ex(','); t1=p.type(); x=p.const_or_val(t1); p.ex(','); t2=p.type(); y=p.const_or_val(t2); a=(t,c,t1,x,y)
    elif op in('call','invoke'):
        flags()
        while p.pk() in('fastcc','ccc','coldcc'): p.nx()
        p.attrs(); rt=p.type(); 
        if rt[0]=='fn': rt=rt[1]
        if p.pk()=='asm':
            a=('asm',rt,[]) ; return Instr(res,'call',(rt,('asm',),[],None),line)
        callee=p.const_or_val(PTR); p.ex('('); args=[]
        while not p.ac(')'):
            t,v=p.tv(); args.append((t,v)); p.ac(',')
        a=(rt,callee,args,None)
        if op=='invoke':
            p.attrs(); p.ex('to'); p.ex('label'); n=p.nx(); a=(rt,callee,args,n)
    elif op=='extractvalue':
        t,v=p.tv(); idx=[]
        while p.ac(','):
            if p.pkk()[0]=='meta': break
            idx.append(int(p.nx()))
        a=(t,v,idx)
    elif op=='insertvalue':
        t,v=p.tv(); p.ex(','); t2,v2=p.tv(); idx=[]
        while p.ac(','):
            if p.pkk()[0]=='meta': break
            idx.append(int(p.nx()))
        a=(t,v,t2,v2,idx)
    elif op=='extractelement':
        t,v=p.tv(); p.ex(','); t2,i=p.tv(); a=(t,v,t2,i)
    elif op=='insertelement':
        t,v=p.tv(); p.ex(','); t2,v2=p.tv(); p.ex(','); t3,i=p.tv(); a=(t,v,v2,i)
    elif op=='shufflevector':
        t,v=p.tv(); p.ex(','); t2,v2=p.tv(); p.ex(','); t3,m=p.tv(); a=(t,v,v2,t3,m)
    elif op=='freeze':
        t,v=p.tv(); a=(t,v)
    elif op=='unreachable': a=()
    elif op in('atomicrmw',):
        p.ac('volatile'); o=p.nx(); t,pt=p.tv(); p.ex(','); t2,v=p.tv(); a=(o,pt,t2,v)
    elif op in('fence',): a=()
    elif op=='cmpxchg':
        p.ac('weak'); p.ac('volatile'); t,pt=p.tv(); p.ex(','); t2,c=p.tv(); p.ex(','); t3,n=p.tv(); a=(pt,t2,c,n)
    else: 
        return Instr(res,'unsupported',(op,),line)
    return Instr(res,op,a,line)

class Module:
    def __init__(s,text):
        s.types={}; s.globals={}; s.funcs={}; s.decls={}; s.aliases={}
        s._sz={}
        lines=text.split('\n'); i=0;n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('define '):
                m=re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(',l); nm=m.group(1)
                j=i+1
                while lines[j]!='}': j+=1
                h=l
                # cut header at the brace
                s.funcs[nm]=Function(s,nm,cut_header(h),lines[i+1:j])
                i=j+1; continue
            if l.startswith('declare '):
                m=re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(',l); s.decls[m.group(1)]=l
            elif l.startswith('%') and ' = type ' in l:
                nm,r=l.split(' = type ',1); s.types[nm]=r
            elif l.startswith('@'):
                m=re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$',l)
                if m:
                    if re.search(r'\balias\b',m.group(2).split('"')[0]): s.aliases[m.group(1)]=m.group(2)
                    else: s.globals[m.group(1)]=m.group(2)
            i+=1
    def func(s,nm):
        f=s.funcs.get(nm)
        if f is None:
            a=s.aliases.get(nm)
            if a:
                m=re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+',a)
                if m: return s.func(m[-1])
            return None
        return f.parse()
    def named(s,nm):
        t=s.types[nm]
        if isinstance(t,str):
            t=P(tokenize(t),s).type(); s.types[nm]=t
        return t
    def res(s,t):
        while t[0]=='named': t=s.named(t[1])
        return t
    def size_align(s,t):
        r=s._sz.get(t)
        if r: return r
        k=t[0]
        if k=='i':
            w=t[1]; b=(w+7)//8
            p=1
            while p<b: p*=2
            r=(p,min(p,16))
        elif k=='f': r={16:(2,2),32:(4,4),64:(8,8),80:(16,16),128:(16,16)}[t[1]]
        elif k=='ptr': r=(8,8)
        elif k=='arr':
            a,b=s.size_align(t[2]); r=(a*t[1],b)
        elif k=='vec':
            a,b=s.size_align(t[2]); x=a*t[1]; p=1
            while p<x: p*=2
            r=(p,p)
        elif k=='struct':
            o=0;al=1
            for f in t[1]:
                a,b=s.size_align(f)
                if not t[2]: o=(o+b-1)//b*b; al=max(al,b)
                o+=a
            r=((o+al-1)//al*al,al)
        elif k=='named': r=s.size_align(s.named(t[1]))
        elif k=='opaque': r=(0,1)
        else: raise IRError('sizeof %r'%(t,))
        s._sz[t]=r
        return r
    def sizeof(s,t): return s.size_align(t)[0]
    def field_off(s,t,i):
        t=s.res(t)
        o=0
        for j,f in enumerate(t[1]):
            a,b=s.size_align(f)
            if not t[2]: o=(o+b-1)//b*b
            if j==i: return o,f
            o+=a
        raise IRError('field')
    def global_def(s,nm):
        """-> (const?, type, init or None(external))"""
        r=s.globals.get(nm)
        if r is None: return None
        if isinstance(r,tuple): return r
        p=P(tokenize(r),s)
        const=False; ext=False
        while True:
            w=p.pk()
            if w in('external','extern_weak'): ext=True; p.i+=1
            elif w in('thread_local',):
                p.i+=1
                if p.ac('('): p.nx(); p.ex(')')
            elif w=='global': p.i+=1; break
            elif w=='constant': const=True; p.i+=1; break
            elif w=='addrspace': p.i+=1; p.ex('('); p.nx(); p.ex(')')
            else: p.i+=1
        t=p.type(); init=None
        if not ext and not p.end() and p.pk()!=',':
            init=p.const_or_val(t)
        x=(const,t,init); s.globals[nm]=x
        return x

def cut_header(l):
    return l.rsplit('{',1)[0]
