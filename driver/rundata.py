"""What a simulated run of the full program left behind: the record written by harness/run.cpp, and the HDF5/XML files of the program itself."""
import array, ctypes, math, os, struct
class Bad(Exception): pass

class Dump:
    """global state at one save, merged over ranks. octs: {(level,x,y,z): bytes of nf*nsub doubles}; parts: {array: (attrs, [(x,y,z,attr...), ...])}"""
    def __init__(self): self.octs={}; self.owner={}; self.parts={}; self.order=[]; self.ranks=0; self.dup=None; self.iters=set(); self.times=set(); self.dts=set(); self.fieldsets=set()
    def add(self,rank,b):
        o=0
        def u(fmt,n=1):
            nonlocal o
            v=struct.unpack_from('<'+fmt*n,b,o); o+=struct.calcsize('<'+fmt*n); return v
        def s():
            nonlocal o
            n,=u('I'); t=b[o:o+n].decode(); o+=n; return t
        it,=u('i'); t,=u('d'); dt,=u('d'); dim,bx,by,bz,noct,nf=u('I',6); f=tuple(s() for _ in range(nf))
        self.iters.add(it); self.times.add(t); self.dts.add(dt); self.fieldsets.add(f); self.iter,self.time,self.dt,self.dim,self.b,self.fields=it,t,dt,dim,(bx,by,bz),f
        self.ns=bx*by*bz; sz=nf*self.ns*8
        ks=[u('I',4) for _ in range(noct)]
        for k in ks:
            if k in self.octs: self.dup=k
            self.octs[k]=b[o:o+sz]; self.owner[k]=rank; self.order.append(k); o+=sz
        na,=u('I')
        for _ in range(na):
            n=s(); np_,nat=u('I',2); at=tuple(s() for _ in range(nat)); pos=u('d',3*np_) if np_ else (); cols=[u('d',np_) if np_ else () for _ in range(nat)]
            rows=[tuple(pos[3*i:3*i+3])+tuple(c[i] for c in cols) for i in range(np_)]
            a=self.parts.setdefault(n,(at,[]))
            if a[0]!=at: raise Bad('ranks disagree on the attributes of %s'%n)
            a[1].extend(rows)
        self.ranks+=1
        if o!=len(b): raise Bad('record has trailing bytes')
    def values(self,k,f):
        i=self.fields.index(f); return array.array('d',self.octs[k][i*self.ns*8:(i+1)*self.ns*8])
    def maxabs(self):
        if not hasattr(self,'_m'):
            m=[0.0]*len(self.fields)
            for v in self.octs.values():
                a=array.array('d',v)
                for i in range(len(m)):
                    s=a[i*self.ns:(i+1)*self.ns]; x=max(abs(min(s)),abs(max(s)))
                    if not math.isfinite(sum(s)): x=math.inf
                    if x>m[i]: m[i]=x
            self._m=m
        return self._m
class View:
    """a state as it looks in another coordinate system (see View in harness/run.cpp): axis e is axis perm[e] of the original, reversed if flip[e], moved by shift[e] blocks of the coarse grid; lengths and times are multiplied by scale"""
    def __init__(self,dim,cg,lmin,perm=(0,1,2),flip=(0,0,0),shift=(0,0,0),scale=1.0,lo=(0,0,0),L=(1,1,1),vlo=(0,0,0)): self.lo,self.L,self.vlo=lo,L,vlo; self.dim,self.cg,self.lmin,self.perm,self.flip,self.shift,self.scale=dim,cg,lmin,perm,flip,shift,scale
    def apply(self,a):
        d=Dump(); d.iter,d.time,d.dt,d.dim,d.ns,d.fields=a.iter,a.time*self.scale,a.dt*self.scale,a.dim,a.ns,a.fields
        P,F=self.perm,self.flip; b=[a.b[P[e]] for e in range(3)]; d.b=tuple(b); src=[]
        for i in range(a.ns):
            q=[i%b[0],i//b[0]%b[1],i//(b[0]*b[1])]; p=[0,0,0]
            for e in range(3): p[P[e]]=b[e]-1-q[e] if F[e] else q[e]
            src.append(p[0]+a.b[0]*(p[1]+a.b[1]*p[2]))
        cols=[]
        for f in a.fields:
            x=f[-1] if f in ('rho_vx','rho_vy','rho_vz','Bx','By','Bz','gx','gy','gz') else None
            if x: e='xyz'.index(x); cols.append((a.fields.index(f[:-1]+'xyz'[P[e]]),(-1.0 if F[e] else 1.0)/(self.scale if f[0]=='g' else 1)))
            else: cols.append((a.fields.index(f),1.0))
        for (l,x,y,z),v in a.octs.items():
            p=(x,y,z); k=[0,0,0]
            for e in range(self.dim):
                w=1<<(l-self.lmin); n=self.cg[P[e]]*w; t=p[P[e]]; t=n-1-t if F[e] else t; k[e]=(t+self.shift[e]*w)%n
            A=array.array('d',v); out=array.array('d')
            for j,s in cols:
                c=A[j*a.ns:(j+1)*a.ns]; out.extend(s*c[i] for i in src)
            d.octs[(l,*k)]=out.tobytes()
        for n,(at,rows) in a.parts.items():
            out=[]
            for r in rows:
                p=[r[e] if e>=self.dim else 0.0 for e in range(3)]; q=list(r[3:])
                for e in range(self.dim):
                    x=(r[P[e]]-self.lo[P[e]])/self.L[P[e]]; x=1-x if F[e] else x
                    if self.shift[e]: x=math.fmod(x+self.shift[e]/self.cg[P[e]],1.0)
                    p[e]=self.vlo[e]+x*self.L[P[e]]*self.scale
                for j,f in enumerate(at):
                    if f in ('vx','vy','vz'): e='xyz'.index(f[1]); q[j]=(-1.0 if F[e] else 1.0)*r[3+at.index('v'+'xyz'[P[e]])]
                    if f=='mass': q[j]=r[3+j]*self.scale**self.dim
                out.append(tuple(p)+tuple(q))
            d.parts[n]=(at,out)
        return d
def layers(a,cz,lmin):
    """{height: Dump of the plane at this height} of a state that does not vary along z; a str where the mesh is not a column"""
    cols={}; ns=a.b[0]*a.b[1]; out={}
    for k in a.octs: cols.setdefault((k[0],k[1],k[2]),[]).append(k)
    hs=set()
    for (l,x,y),ks in cols.items():
        n=cz<<(l-lmin)
        if len(ks)!=n: return {0:'%d of %d blocks of the column of %s are at this level'%(len(ks),n,oname(ks[0]))}
        hs.update((k[3]*a.b[2]+s)/float(n*a.b[2]) for k in ks for s in range(a.b[2]))
    parts={n:(at,[(r[0],r[1],0.0)+r[3:] for r in rows]) for n,(at,rows) in a.parts.items()}
    for h in hs:
        d=Dump(); d.iter,d.time,d.dt,d.dim,d.ns,d.fields,d.b=a.iter,a.time,a.dt,2,ns,a.fields,(a.b[0],a.b[1],1); d.parts=parts
        for (l,x,y),ks in cols.items():
            n=cz<<(l-lmin); p=int(h*n*a.b[2]+1e-9); v=array.array('d',a.octs[(l,x,y,p//a.b[2])]); q=p%a.b[2]; w=array.array('d')
            for f in range(len(a.fields)): w.extend(v[f*a.ns+q*ns:f*a.ns+(q+1)*ns])
            d.octs[(l,x,y,0)]=w.tobytes()
        out[h]=d
    return out
def oname(k): return '(level %d at %d,%d,%d)'%k
def diff(a,b,tol=0.0,ignore=(),atol={},parts=True,ptol=0.0,box=None):
    """None, or the first difference between two global states. tol: relative to the largest value of the field"""
    if a.iter!=b.iter: return 'iteration %d, expected %d'%(b.iter,a.iter)
    if (a.time!=b.time if tol==0 else abs(a.time-b.time)>tol*max(1e-300,abs(a.time))): return 'time %.17g, expected %.17g'%(b.time,a.time)
    if set(a.octs)!=set(b.octs):
        m=sorted(set(a.octs)-set(b.octs))[:1]; n=sorted(set(b.octs)-set(a.octs))[:1]
        return 'mesh differs: %s%s%s'%('missing '+oname(m[0]) if m else '',' and ' if m and n else '','unexpected '+oname(n[0]) if n else '')
    fa=[f for f in a.fields if f not in ignore]; fb=[f for f in b.fields if f not in ignore]
    if set(fa)!=set(fb): return 'fields %s, expected %s'%(sorted(fb),sorted(fa))
    same=a.fields==b.fields
    lim=None
    for k,v in a.octs.items():
        w=b.octs[k]
        if same and v==w: continue
        if lim is None:
            m=a.maxabs()
            if tol and not all(x==x and x!=math.inf for x in m): return None # the reference itself is not finite: rounding is amplified without limit
            vm=max([m[a.fields.index(f)] for f in ('rho_vx','rho_vy','rho_vz') if f in a.fields] or [0])
            vm=max(vm,1e-6)
            lim={f:max(tol*(max(m[a.fields.index(f)],vm) if f.startswith('rho_v') else max(m[a.fields.index(f)],1e-9)),atol.get(f,0)) for f in fa}
        for f in fa:
            x=a.values(k,f); y=b.values(k,f)
            if x==y: continue
            for i in range(a.ns):
                if x[i]!=y[i] and not abs(x[i]-y[i])<=lim[f] and not (x[i]!=x[i] and y[i]!=y[i]): return 'field %s of %s sub-cell %d: %.17g, expected %.17g'%(f,oname(k),i,y[i],x[i])
    if parts:
        if set(a.parts)!=set(b.parts): return 'particle arrays %s, expected %s'%(sorted(b.parts),sorted(a.parts))
        for n in a.parts:
            d=pdiff(n,a.parts[n],b.parts[n],ptol,box)
            if d: return d
    return None
def pdiff(n,pa,pb,tol,box=None):
    at,ra=pa; bt,rb=pb
    if len(ra)!=len(rb): return 'array %s holds %d particles, expected %d'%(n,len(rb),len(ra))
    if set(at)!=set(bt): return 'array %s has attributes %s, expected %s'%(n,sorted(bt),sorted(at))
    perm=[bt.index(x) for x in at]; rb=[r[:3]+tuple(r[3+j] for j in perm) for r in rb]
    key=(lambda r:r[3+at.index('id')]) if 'id' in at else (lambda r:r)
    ra=sorted(ra,key=key); rb=sorted(rb,key=key)
    if tol==0: 
        for x,y in zip(ra,rb):
            if x!=y: return 'particle of %s: %s, expected %s'%(n,y,x)
        return None
    if 'id' not in at: # match by nearest position
        rb=list(rb); out=[]
        for x in ra:
            j=min(range(len(rb)),key=lambda j:sum(abs(rb[j][d]-x[d]) for d in range(3))); out.append(rb.pop(j))
        rb=out
    names=('x','y','z')+at
    mx=[max([abs(r[c]) for r in ra] or [0]) for c in range(len(names))]
    for x,y in zip(ra,rb):
        for c in range(len(names)):
            d=abs(x[c]-y[c])
            if box and c<3 and box[c]: d=min(d,abs(d-box[c]))
            if not d<=tol*max(mx[c],1e-3): return '%s of a particle of %s: %.17g, expected %.17g (id %s)'%(names[c],n,y[c],x[c],x[3+at.index('id')] if 'id' in at else '?')
    return None

class Record:
    """logs and dumps of one run"""
    def __init__(self,d,ranks):
        self.d=d; self.ranks=ranks; self.logs=[]
        for r in range(ranks):
            p=os.path.join(d,'log.%d'%r); self.logs.append([l.split() for l in open(p)] if os.path.exists(p) else [])
        self._c={}
    def saves(self,kind):
        """[(seq, iter, time, begun on all ranks, returned on all ranks)] in order"""
        B=[{int(l[2]):(int(l[3]),float.fromhex(l[4])) for l in g if l[0]=='B' and l[1]==kind} for g in self.logs]
        E=[{int(l[2]) for l in g if l[0]=='E' and l[1]==kind} for g in self.logs]
        out=[]
        for s in sorted(set().union(*[set(b) for b in B])):
            who=[b[s] for b in B if s in b]; out.append((s,who[0][0],who[0][1],len(who)==self.ranks,all(s in e for e in E)))
        return out
    def dump(self,kind,seq):
        if (kind,seq) in self._c: return self._c[kind,seq]
        D=Dump()
        for r in range(self.ranks):
            p=os.path.join(self.d,'d.%s.%d.%d'%(kind,seq,r))
            if not os.path.exists(p): return None
            with open(p,'rb') as f: D.add(r,f.read())
        self._c[kind,seq]=D; return D
    def steps(self):
        """[{iter,time,nocts,tot}] one per step, merged over ranks; raises Bad if ranks disagree on iteration or time"""
        S=[[l for l in g if l[0]=='S'] for g in self.logs]; n=min(len(s) for s in S) if S else 0; out=[]
        for i in range(n):
            h={(int(s[i][1]),float.fromhex(s[i][2])) for s in S}
            if len(h)!=1: raise Bad('ranks disagree on iteration and time: %s'%sorted(h))
            it,t=h.pop(); out.append(dict(iter=it,time=t,nocts=sum(int(s[i][4]) for s in S),tot=merge_tot([s[i][5:] for s in S])))
        return out
    def save_tot(self,kind):
        out={}
        for g in self.logs:
            for l in g:
                if l[0]=='B' and l[1]==kind: out.setdefault(int(l[2]),[]).append(l[6:])
        return {k:merge_tot(v) for k,v in out.items() if len(v)==self.ranks}
def merge_tot(l):
    if not l or l[0][0]=='none': return None
    t=dict(finite=all(x[0]=='1' for x in l),minrho=min(float.fromhex(x[1]) for x in l),minp=min(float.fromhex(x[2]) for x in l),inv=max(float.fromhex(x[3]) for x in l),pv=max(float.fromhex(x[4]) for x in l))
    t['tot']=[sum(float.fromhex(x[5+2*i]) for x in l) for i in range(8)]; t['abs']=[sum(float.fromhex(x[6+2*i]) for x in l) for i in range(8)]
    return t

# ---------- HDF5 through the C library ----------
_h=None
def h5lib():
    global _h
    if _h: return _h
    _h=ctypes.CDLL('libhdf5_openmpi.so.103',mode=ctypes.RTLD_GLOBAL); I=ctypes.c_int64; P=ctypes.c_void_p; S=ctypes.c_char_p
    for n,res,args in (('H5open',ctypes.c_int,[]),('H5Fopen',I,[S,ctypes.c_uint,I]),('H5Fclose',ctypes.c_int,[I]),('H5Dopen2',I,[I,S,I]),('H5Dclose',ctypes.c_int,[I]),('H5Dget_space',I,[I]),('H5Dget_type',I,[I]),('H5Sclose',ctypes.c_int,[I]),('H5Tclose',ctypes.c_int,[I]),('H5Tget_class',ctypes.c_int,[I]),('H5Tget_size',ctypes.c_size_t,[I]),
        ('H5Sget_simple_extent_ndims',ctypes.c_int,[I]),('H5Sget_simple_extent_dims',ctypes.c_int,[I,P,P]),('H5Dread',ctypes.c_int,[I,I,I,I,I,P]),('H5Gopen2',I,[I,S,I]),('H5Gclose',ctypes.c_int,[I]),('H5Gget_num_objs',ctypes.c_int,[I,P]),('H5Gget_objname_by_idx',ctypes.c_ssize_t,[I,ctypes.c_uint64,S,ctypes.c_size_t]),('H5Gget_objtype_by_idx',ctypes.c_int,[I,ctypes.c_uint64]),('H5Eset_auto2',ctypes.c_int,[I,P,P]),
        ('H5Aget_num_attrs',ctypes.c_int,[I]),('H5Aopen_idx',I,[I,ctypes.c_uint]),('H5Aget_name',ctypes.c_ssize_t,[I,ctypes.c_size_t,S]),('H5Aread',ctypes.c_int,[I,I,P]),('H5Aclose',ctypes.c_int,[I])):
        f=getattr(_h,n); f.restype=res; f.argtypes=args
    _h.H5open(); _h.H5Eset_auto2(0,None,None)
    _h.DBL=I.in_dll(_h,'H5T_NATIVE_DOUBLE_g').value; _h.LL=I.in_dll(_h,'H5T_NATIVE_LLONG_g').value
    return _h
def h5read(path):
    """{name: (dims, 'f4'|'f8'|'i..', array)}; raises Bad when anything cannot be read"""
    h=h5lib(); f=h.H5Fopen(path.encode(),0,0)
    if f<0: raise Bad('cannot open %s'%os.path.basename(path))
    out={}
    try: _walk(h,f,b'/',out,os.path.basename(path))
    finally: h.H5Fclose(f)
    return out
def h5safe(path):
    """h5read in a child process: a damaged file may bring the library down"""
    import pickle
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        try:
            os.close(r)
            try: x=('ok',h5read(path))
            except Bad as e: x=('bad',str(e))
            with os.fdopen(w,'wb') as f: pickle.dump(x,f,4)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r,'rb') as f: b=f.read()
    os.waitpid(pid,0)
    if not b: raise Bad('%s: reading it crashes the HDF5 library'%os.path.basename(path))
    k,v=pickle.loads(b)
    if k=='bad': raise Bad(v)
    return v
def _walk(h,f,g,out,fn):
    gi=h.H5Gopen2(f,g,0)
    if gi<0: raise Bad('%s: cannot open group %s'%(fn,g.decode()))
    n=ctypes.c_uint64(0)
    if h.H5Gget_num_objs(gi,ctypes.byref(n))<0: raise Bad('%s: cannot list %s'%(fn,g.decode()))
    names=[]
    for i in range(n.value):
        b=ctypes.create_string_buffer(256); h.H5Gget_objname_by_idx(gi,i,b,256); names.append((b.value,h.H5Gget_objtype_by_idx(gi,i)))
    for i in range(max(0,h.H5Aget_num_attrs(gi))): # '@group/name': value
        a=h.H5Aopen_idx(gi,i); b=ctypes.create_string_buffer(256); v=ctypes.c_double(0)
        if a<0 or h.H5Aget_name(a,256,b)<0 or h.H5Aread(a,h.DBL,ctypes.byref(v))<0: raise Bad('%s: cannot read an attribute of %s'%(fn,g.decode()))
        h.H5Aclose(a); out['@'+g.decode().strip('/')+'/'+b.value.decode()]=v.value
    h.H5Gclose(gi)
    for nm,ty in names:
        p=(g.rstrip(b'/')+b'/'+nm)
        if ty==0: _walk(h,f,p,out,fn); continue
        d=h.H5Dopen2(f,p,0)
        if d<0: raise Bad('%s: cannot open dataset %s'%(fn,p.decode()))
        try:
            s=h.H5Dget_space(d); nd=h.H5Sget_simple_extent_ndims(s); dims=(ctypes.c_uint64*max(nd,1))(); h.H5Sget_simple_extent_dims(s,dims,None); h.H5Sclose(s); dims=tuple(dims[i] for i in range(nd)); t=h.H5Dget_type(d); c=h.H5Tget_class(t); sz=h.H5Tget_size(t); h.H5Tclose(t)
            cnt=1
            for x in dims: cnt*=x
            if cnt>1<<26: raise Bad('%s: dataset %s is too large'%(fn,p.decode()))
            a=array.array('d' if c==1 else 'q',bytes(8*cnt))
            if cnt:
                ad,_=a.buffer_info()
                if h.H5Dread(d,h.DBL if c==1 else h.LL,0,0,0,ad)<0: raise Bad('%s: cannot read dataset %s'%(fn,p.decode()))
            out[p.decode().lstrip('/')]=(dims,('f' if c==1 else 'i')+str(sz),a)
        finally: h.H5Dclose(d)
