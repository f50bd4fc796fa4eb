"""Extraction of Accumulator/Pollard: one concrete class.

As for the forest (forest.py): Accumulator and Pollard become one record `Pollard`, every Accumulator::Node is a
Pollard::Node (so dynamic_pointer_cast is the identity), and both kinds of nodes live in arenas of objects that are
never freed: `heap` holds the Pollard::Node objects, `iheap` the Pollard::InternalNode objects. std::deque is a sequence.
"""
from forest import *
PNODES=('Pollard::Node','Accumulator::Node','Pollard::InternalNode')

class PollardTr(ForestTr):
    NODES=PNODES; ACC='Pollard'
    def arena(self,cls):
        if cls=='Pollard::InternalNode': return 'iheap'
        if cls in('Pollard::Node','Accumulator::Node'): return 'heap'
        raise Unsupported('pointer to '+cls)
    def rawptr(self,o):
        """p.get(), possibly cast: the pointer p"""
        so=self.strip(o)
        while so.get('kind') in('CStyleCastExpr','CXXStaticCastExpr','CXXReinterpretCastExpr','CXXDynamicCastExpr'): so=self.strip(kids(so)[0])
        if so.get('kind')=='CXXMemberCallExpr':
            c=kids(so)[0]
            if c.get('kind')=='MemberExpr' and c.get('name')=='get':
                p=kids(c)[0]
                t=deref_t(self.T(self.strip(p)))
                if t[0]=='sp': return p,t
        return None
    def arrow(self,n,o,nm,lv):
        r=self.rawptr(o)
        if r:
            t=deref_t(self.T(self.strip(o)))
            if t[0]!='ptr': raise Unsupported('-> on a pointer')
            cls=self.X.norm(t[1][1])
            if cls.split('::')[-1]=='element_type': cls=self.X.norm(r[1][1][1])
            return 'this.%s[np_ix(%s)].%s'%(self.arena(cls),self.ex(r[0]),nm)
        return ForestTr.arrow(self,n,o,nm,lv)
    post=()
    def args(self,e,args):
        """an output argument inside a node is copied in and out (the callees under contract read their inputs before they write)"""
        av=Tr.args(self,e,args); out=[]
        for v in av:
            m=re.fullmatch(r'&mut (this\.i?heap\[.*)',v)
            if m and (e['cls'] in('Accumulator',) and e['static']):
                i=self.tmp('ix'); base,idx,fld=self.split_place(m.group(1)); t=self.tmp('out')
                self.hoist('let %s = %s;'%(i,idx)); self.hoist('let mut %s = %s[%s]%s;'%(t,base,i,fld))
                self.post=list(self.post)+['%s[%s]%s = %s;'%(base,i,fld,t)]; v='&mut '+t
            out.append(v)
        return out
    def split_place(self,p):
        b=p.index('['); d=0
        for k in range(b,len(p)):
            d+={'[':1,']':-1}.get(p[k],0)
            if d==0: return p[:b],p[b+1:k],p[k+1:]
        raise Unsupported('output argument')
    def call(self,e,obj,args,n):
        save=self.post; self.post=[]
        code=ForestTr.call(self,e,obj,args,n); post=self.post; self.post=save
        if not post: return code
        if deref_t(self.T(n))[0]=='void': self.hoist(code+';'); r='()'
        else: r=self.tmp('r'); self.hoist('let %s = %s;'%(r,code))
        for x in post: self.hoist(x)
        return r
    def std_method_more(self,nm,obj,args,n,lv,ot):
        if ot[0]=='sp' and nm=='use_count': return 'sp_use_count(%s)'%self.ex(obj)
        if ot[0]=='vec' and nm=='push_front':
            v=self.let(self.conv(args[0],ot[1]),args[0]); self.hoist('%s.insert(0, %s);'%(self.ex(obj,lv=True),v)); return '()'
        return ForestTr.std_method_more(self,nm,obj,args,n,lv,ot)
    def std_method(self,nm,obj,args,n,lv):
        ot=deref_t(self.T(self.strip(obj)))
        if (ot[0]=='vec' and nm=='push_front') or (ot[0]=='sp' and nm=='use_count'): return self.std_method_more(nm,obj,args,n,lv,ot)
        return ForestTr.std_method(self,nm,obj,args,n,lv)
    def std_call_more(self,nm,args,n,want):
        if nm in('MakeNodePtr','make_shared'):
            tt=deref_t(self.T(n))
            if tt[0]!='sp': raise Unsupported('MakeNodePtr')
            cls=self.X.norm(tt[1][1])
            if cls not in('Pollard::Node','Pollard::InternalNode'): raise Unsupported('MakeNodePtr of another type')
            def fits(e):
                if len(e['params'])!=len(args): return False
                for t,a in zip(e['ptypes'],args):
                    t=deref_t(self.X.normt(t)); u=deref_t(self.X.normt(self.T(self.strip(a))))
                    if t[0]!=u[0] and not(t[0]=='sp' and u[0]=='null'): return False
                return True
            c2=[e for e in self.P.funcs[cls+'::new'].values() if fits(e) and not any(deref_t(t)[0]=='cls' for t in e['ptypes'])]
            if len(c2)!=1: raise Unsupported('node constructor')
            e=c2[0]; self.X.need(e['key']); self.calls.add(e['key'])
            if e['key'] not in self.X.ov.fns: raise Unsupported('node constructor without contract')
            k=self.calln.get('MakeNodePtr',0); self.calln['MakeNodePtr']=k+1; self.marks.append('MakeNodePtr#%d'%k)
            v=self.tmp('nd'); self.hoist('let %s = %s(%s);'%(v,fn_rust(e['key']),', '.join(self.fwd_args(e,args))))
            p=self.tmp('np')
            if self.e['const'] and self.e['cls'] in('Pollard','Accumulator'):
                # an object made by a query is not entered in the arenas: nothing is known about it but that it is new
                self.hoist('let %s = mk_away(%s, %s);'%(p,'&this.iheap' if cls=='Pollard::InternalNode' else '&this.heap',v)); return p
            self.hoist('let %s = %s;'%(p,'mk_inode(&mut this.iheap, %s)'%v if cls=='Pollard::InternalNode' else 'mk_node(&mut this.heap, %s)'%v)); return p
        if nm=='copy' and len(args)==3:
            # std::copy(v.begin(), v.end(), std::inserter(w, w.begin()))
            def rng(a,names):
                s=self.strip(a)
                while s.get('kind')=='CXXConstructExpr' and len(kids(s))==1: s=self.strip(kids(s)[0])
                if s.get('kind')=='CXXMemberCallExpr':
                    kd,m,o=self.callee(kids(s)[0])
                    if kd=='stdm' and m in names: return self.place(o)
                raise Unsupported('copy')
            a=rng(args[0],('begin','cbegin')); b=rng(args[1],('end','cend'))
            s=self.strip(args[2])
            while s.get('kind')=='CXXConstructExpr' and len(kids(s))==1: s=self.strip(kids(s)[0])
            if a!=b or s.get('kind')!='CallExpr' or self.strip(kids(s)[0]).get('referencedDecl',{}).get('name') not in('inserter','back_inserter'): raise Unsupported('copy')
            w=self.place(kids(s)[1])
            if self.strip(kids(s)[0])['referencedDecl']['name']=='inserter':
                if rng(kids(s)[2],('begin','cbegin'))!=w: raise Unsupported('copy')
                self.hoist('vprepend(&mut %s, &%s);'%(w,a))
            else: self.hoist('vconcat(&mut %s, &%s);'%(w,a))
            return '()'
        return ForestTr.std_call_more(self,nm,args,n,want)

class PollardX(ForestX):
    ACC='Pollard'
    def self_type(self,cls):
        return 'Pollard' if cls in('Pollard','Accumulator') else cls_rust(cls)
    def struct_text(self,q):
        names={x:cls_rust(x) for x in('Pollard','Pollard::Node','Pollard::InternalNode')}
        if q in names:
            return 'pub struct %s {\n%s\n%s}\n'%(names[q],'\n'.join('    pub %s: %s,'%(f,rty(self.normt(t))) for f,t,_ in self.flat(q)),'    pub heap: Vec<RNode>,\n    pub iheap: Vec<InternalNode>,\n' if q=='Pollard' else '')
        return Extractor.struct_text(self,q)
    def ctor_struct(self,tr,e,rec):
        q=self.norm(e['cls'])
        if q not in('Pollard','Pollard::Node','Pollard::InternalNode'): return Extractor.ctor_struct(self,tr,e,rec)
        vals={}
        for ini in e['inits']:
            f=ini.get('anyInit',{}).get('name')
            if f:
                x=kids(ini)[0]
                if x.get('kind') in('CXXConstructExpr','CXXDefaultInitExpr') and not kids(x): continue
                ft=[t for f2,t,_ in self.flat(q) if f2==f][0]
                if deref_t(ft)[0]=='arr' and deref_t(ft)[1][0]=='sp': continue
                vals[f]=tr.conv(x,ft)
        out=[]
        for f,t,ini in self.flat(q):
            t=self.normt(t); v=vals.get(f)
            if v is None and ini is not None: v=tr.conv(ini,t)
            out.append('%s: %s'%(f,v or tr.default(t)))
        if q=='Pollard': out+=['heap: Vec::<RNode>::new()','iheap: Vec::<InternalNode>::new()']
        return '%s { %s }'%(self.self_type(q),', '.join(out))
