"""Extraction of Accumulator/RamForest: one concrete class.

The only concrete accumulator in this unit is RamForest, so Accumulator and RamForest become one record
(`RamForest`, the fields of both), virtual calls go to RamForest's overrides and every node is a RamForest::Node.
Node objects (std::shared_ptr) live in an arena `heap`: a NodePtr is a copyable index into it, so sharing and
mutation through one pointer is visible through all others; objects are never freed (what is dropped: deallocation).
A Node's m_forest is always the forest that made it: MakeNodePtr must pass `this` (or m_forest), which is checked here.
"""
from extract import *
from build import *
NODES=('RamForest::Node','Accumulator::Node')
FOREST=('RamForest','Accumulator')

class ForestTr(Tr):
    NODES=NODES; ACC='RamForest'
    def isnode(self): return self.e['cls'] in self.NODES
    def arena(self,cls):
        """the arena that holds the objects of a node class"""
        return 'heap'
    def isctor(self): return self.e['kind']=='CXXConstructorDecl'
    # ---- virtual dispatch
    def callee(self,n):
        kind,info,obj=Tr.callee(self,n)
        if kind in('method','fn') and info['cls'] in('Accumulator','Accumulator::Node') and info['kind'] in('CXXMethodDecl','CXXDestructorDecl') and not info['static']:
            sub=self.ACC+info['cls'][len('Accumulator'):]
            g=self.P.funcs.get(sub+'::'+info['name'],{}).get(info['sig'])
            if g is not None and not self.qualified(self.strip(n)): info=g
        return kind,info,obj
    def qualified(self,c):
        """a qualified name (X::f) calls X's own version"""
        if c.get('kind')!='MemberExpr': return False
        rg=c.get('range',{}); b,e=rg.get('begin',{}),rg.get('end',{})
        b=b.get('expansionLoc',b); e=e.get('expansionLoc',e)
        o=kids(c)[0]
        while o.get('kind') in STRIP_KINDS or o.get('kind')=='ImplicitCastExpr': o=kids(o)[0]
        if o.get('kind')=='CXXThisExpr' and o.get('implicit'): return b.get('offset')!=e.get('offset')
        oe=o.get('range',{}).get('end',{}); 
        # explicit object: only "->f" / ".f" may lie between the object and the name
        gap=e.get('offset',0)-oe.get('offset',0)-oe.get('tokLen',0)
        return gap>2
    # ---- nodes
    def np(self,o):
        return self.ex(o)
    def isforest_expr(self,o):
        so=self.strip(o)
        if so.get('kind')=='CXXThisExpr': return not self.isnode()
        if so.get('kind')=='MemberExpr' and so.get('name')=='m_forest': return self.strip(kids(so)[0]).get('kind')=='CXXThisExpr' and self.isnode()
        if so.get('kind')=='DeclRefExpr' and self.isnode() and self.isctor():
            t=deref_t(self.T(so)); return t[0]=='ptr' and t[1][0]=='cls' and t[1][1]==self.ACC
        return False
    def x_MemberExpr(self,n,want,lv):
        o=kids(n)[0]; so=self.strip(o); nm=n['name']
        if so.get('kind')=='CXXThisExpr' and self.isnode():
            if self.isctor(): return 'this.%s'%nm
            return 'this.%s[np_ix(%s)].%s'%(self.arena(self.e['cls']),self.me,nm)
        return Tr.x_MemberExpr(self,n,want,lv)
    def arrow(self,n,o,nm,lv):
        if self.isforest_expr(o): return 'this.%s'%nm
        so=self.strip(o)
        if so.get('kind')=='CXXOperatorCallExpr':
            a=kids(so)[1]; at=deref_t(self.T(self.strip(a)))
            if at[0]=='sp': return 'this.%s[np_ix(%s)].%s'%(self.arena(self.X.norm(at[1][1])),self.ex(a),nm)
            if at[0]=='mapit':
                if nm=='second': return 'map_at(&%s, it_key(%s))'%self.mapit(a)
                if nm=='first': return 'it_key(%s)'%self.mapit(a)[1]
        raise Unsupported('-> on a pointer')
    def mapit_member(self,o,nm):
        m,c=self.mapit(o)
        return 'map_at(&%s, it_key(%s))'%(m,c) if nm=='second' else 'it_key(%s)'%c
    def mapit(self,x):
        """a map iterator -> (map place, key option); the value is looked up at the time of use"""
        s=self.strip(x)
        while s.get('kind') in('CXXConstructExpr',) and len(kids(s))==1: s=self.strip(kids(s)[0])
        if s.get('kind')=='DeclRefExpr':
            v=self.vars.get(self.rid(s))
            if v and 'map' in v: return v['map'],v['rust']
        if s.get('kind')=='CXXMemberCallExpr':
            kind,nm,obj=self.callee(kids(s)[0])
            if kind=='stdm' and deref_t(self.T(self.strip(obj)))[0]=='map':
                m=self.ex(obj); args=[a for a in kids(s)[1:] if a.get('kind')!='CXXDefaultArgExpr']
                if nm=='find': return m,'map_find(&%s, %s)'%(m,self.ex(args[0]))
                if nm in('end','cend'): return m,None
        raise Unsupported('map iterator')
    def ptr_cmp(self,op,a,b):
        ta=deref_t(self.T(self.strip(a))); tb=deref_t(self.T(self.strip(b)))
        if ta[0]=='sp' and (tb[0]=='null' or self.strip(b).get('kind')=='CXXNullPtrLiteralExpr'): return '%s(%s).null'%('' if op=='==' else '!',self.ex(a))
        if ta[0]=='sp' and tb[0]=='sp': return '%snp_eq(%s, %s)'%('' if op=='==' else '!',self.ex(a),self.ex(b))
        raise Unsupported('pointer comparison')
    def x_CXXNullPtrLiteralExpr(self,n,want,lv): return 'np_null()'
    def deref_other(self,s):
        raise Unsupported('pointer dereference')
    def inline_obj(self,e,so,obj):
        if e['cls'] in self.NODES: return self.this_arg(e,obj).split(', ')[1]
        raise Unsupported('inlining a method on another object')
    def this_arg(self,e,obj):
        if e['cls'] in self.NODES:
            so=self.strip(obj)
            if so.get('kind')=='CXXThisExpr': return 'this, '+self.me
            if so.get('kind')=='CXXOperatorCallExpr':
                a=kids(so)[1]
                if deref_t(self.T(self.strip(a)))[0]=='sp':
                    v=self.tmp('np'); self.hoist('let %s = %s;'%(v,self.ex(a))); return 'this, %s'%v
            raise Unsupported('method of a node')
        if self.isforest_expr(obj): return ('&this' if e['const'] else '&mut this') if self.isctor() else 'this'
        return Tr.this_arg(self,e,obj)
    def args(self,e,args):
        if e['kind']=='CXXConstructorDecl' and e['cls'] in self.NODES:
            out=[]
            for p,t,a in zip(e['params'],e['ptypes'],args):
                if deref_t(t)[0]=='ptr':
                    if not self.isforest_expr(a): raise Unsupported('a node of another forest')
                    continue
                out.append(self.arg(t,a))
            return out
        return Tr.args(self,e,args)
    # ---- shared pointers, maps
    def construct_other(self,n,t,ks):
        if t[0]=='sp':
            if not ks: return 'np_null()'
            if len(ks)==1:
                s=self.strip(ks[0]); st=deref_t(self.T(s))
                if st[0]=='null' or s.get('kind')=='CXXNullPtrLiteralExpr': return 'np_null()'
                if st[0]=='sp': return self.ex(ks[0])
        if t[0]=='map':
            if len(ks)==1 and deref_t(self.T(self.strip(ks[0])))[0]=='map': return self.val(ks[0])
        if t[0]=='mapit' and len(ks)==1: return self.mapit(ks[0])[1]
        if t[0]=='set':
            if not ks: return 'set_new()'
        if t[0]=='file':
            if not ks: return 'file_closed()'
            if len(ks)==1 and deref_t(self.T(self.strip(ks[0])))[0]=='file': return self.ex(ks[0])
            if deref_t(self.T(self.strip(ks[0])))[0]=='str':
                fl=openmode(ks[1],self) if len(ks)>1 else {'in','out'}
                if fl-{'binary'}=={'in','out'}: return 'file_open(&%s)'%self.ex(ks[0]).lstrip('&')
                if fl-{'binary'}=={'in','out','trunc'}: return 'file_create(&%s)'%self.ex(ks[0]).lstrip('&')
            raise Unsupported('opening a file')
        return Tr.construct_other(self,n,t,ks)
    def default(self,t):
        if t[0]=='sp': return 'np_null()'
        if t[0]=='arr' and deref_t(t[1])[0]=='sp': return '[np_null(); %d]'%t[2]
        if t[0]=='opt': return 'None'
        if t[0]=='map': return 'map_new()'
        if t[0]=='set': return 'set_new()'
        if t[0]=='file': return 'file_closed()'
        return Tr.default(self,t)
    def var(self,d):
        t=self.X.normt(self.T(d))
        if 'Openmode' in str(d.get('type',{})) or 'openmode' in str(d.get('type',{})):
            if 'const' not in d['type']['qualType']: raise Unsupported('changing open mode')
            self.omodes=dict(getattr(self,'omodes',{})); self.omodes[d['id']]=d; return
        if deref_t(t)[0]=='mapit' and kids(d):
            m,c=self.mapit(kids(d)[0])
            if c is None: raise Unsupported('end iterator')
            if not self.inline_stack: self.names.append((d.get('name'),'mapit'))
            r=self.bind(d,deref_t(t)); self.vars[d['id']]['map']=m
            self.w('let mut %s = %s;'%(r,c)); return
        return Tr.var(self,d)
    def x_BinaryOperator(self,n,want,lv):
        if n['opcode']=='=':
            a,b=kids(n); sa=self.strip(a)
            if self.mapidx(sa): return self.mapset(sa,b)
            if sa.get('kind')=='MemberExpr' and sa.get('name')=='second':
                so=self.strip(kids(sa)[0])
                if so.get('kind')=='CXXOperatorCallExpr' and len(kids(so))==2 and deref_t(self.T(self.strip(kids(so)[1])))[0]=='mapit':
                    v=self.let(self.val(b),b); m,c=self.mapit(kids(so)[1]); k=self.let('it_key(%s)'%c,None)
                    self.hoist('map_set(&mut %s, %s, %s);'%(m,k,v)); return '()'
        return Tr.x_BinaryOperator(self,n,want,lv)
    def mapidx(self,sa):
        return sa.get('kind')=='CXXOperatorCallExpr' and self.strip(kids(sa)[0]).get('referencedDecl',{}).get('name')=='operator[]' and deref_t(self.T(self.strip(kids(sa)[1])))[0]=='map'
    def mapset(self,sa,b):
        v=self.let(self.val(b),b); m=self.ex(kids(sa)[1],lv=True)
        k=self.let(self.ex(kids(sa)[2]),None); self.hoist('map_set(&mut %s, %s, %s);'%(m,k,v)); return '()'
    def op_more(self,op,args,n,lv,t0):
        if op in('==','!='):
            t1=deref_t(self.T(self.strip(args[1])))
            if t0[0]=='mapit' and t1[0]=='mapit':
                m1,c1=self.mapit(args[0]); m2,c2=self.mapit(args[1])
                if m1!=m2 or (c1 is None)==(c2 is None): raise Unsupported('map iterator comparison')
                return '%s.is_%s()'%(c1 or c2,'none' if op=='==' else 'some')
            if t0[0]=='map': return '%smap_eq(&%s, &%s)'%('' if op=='==' else '!',self.ex(args[0]),self.ex(args[1]))
            if t0[0]=='sp' or t1[0]=='sp': return self.ptr_cmp(op,args[0],args[1])
        if op=='*' and len(args)==1 and t0[0]=='opt': return 'opt_value(%s)'%self.ex(args[0])
        if op=='bool' and t0[0]=='file': return '(%s).good'%self.ex(args[0])
        if op=='bool' and t0[0]=='sp': return '(!(%s).null)'%self.ex(args[0])
        return Tr.op_more(self,op,args,n,lv,t0)
    def std_method_more(self,nm,obj,args,n,lv,ot):
        if ot[0]=='map':
            m=self.ex(obj,lv=True)
            if nm=='size': return 'map_size(&%s)'%m
            if nm=='empty': return '(map_size(&%s) == 0)'%m
            if nm=='erase' and deref_t(self.T(self.strip(args[0])))[0]=='arr': k=self.let(self.ex(args[0]),None); self.hoist('map_erase(&mut %s, %s);'%(m,k)); return '()'
            if nm=='erase' and len(args)==1 and deref_t(self.T(self.strip(args[0])))[0]=='mapit':
                m2,c=self.mapit(args[0])
                if m2!=m or c is None: raise Unsupported('erase of another map\'s element')
                k=self.let('it_key(%s)'%c,None); self.hoist('map_erase(&mut %s, %s);'%(m,k)); return '()'
            if nm=='clear': self.hoist('map_clear(&mut %s);'%m); return '()'
            if nm in('emplace','try_emplace','insert_or_assign') and len(args)==2 and deref_t(self.T(self.strip(args[0])))[0]=='arr':
                k=self.let(self.ex(args[0]),None); v=self.let(self.cast(self.ex(args[1]),self.intt(args[1]),'u64'),None)
                self.hoist('map_%s(&mut %s, %s, %s);'%('set' if nm=='insert_or_assign' else 'add',m,k,v)); return '()'
            if nm=='insert' and len(args)==1:
                q=self.strip(args[0])
                while q.get('kind') in('CXXConstructExpr','CXXTemporaryObjectExpr','CXXFunctionalCastExpr') and len(kids(q))==1: q=self.strip(kids(q)[0])
                qk=kids(q)
                if q.get('kind')=='CallExpr' and self.strip(qk[0]).get('referencedDecl',{}).get('name')=='make_pair': qk=qk[1:]
                if len(qk)==2 and deref_t(self.T(self.strip(qk[0])))[0]=='arr':
                    k=self.let(self.ex(qk[0]),None); v=self.let(self.cast(self.ex(qk[1]),self.intt(qk[1]),'u64'),None)
                    self.hoist('map_add(&mut %s, %s, %s);'%(m,k,v)); return '()'
            if nm=='find': return 'map_find(&%s, %s)'%(m,self.ex(args[0]))
            if nm=='at': return 'map_at(&%s, %s)'%(m,self.ex(args[0]))
            if nm=='count': return '(if map_find(&%s, %s).is_some() { 1u64 } else { 0u64 })'%(m,self.ex(args[0]))
        if ot[0]=='file':
            if nm=='operator bool': return '(%s).good'%self.ex(obj)
            m=self.ex(obj,lv=True)
            if nm in('good','is_open') : return '%s.good'%m
            if nm=='fail': return '(!%s.good)'%m
            if nm in('seekg','seekp') and len(args)==1:
                o=self.strip(args[0])
                v=self.fpos(args[0]); self.hoist('file_seek(&mut %s, %s);'%(m,v)); return '()'
            if nm in('flush','close') and not args: self.hoist('file_%s(&mut %s);'%(nm,m)); return '()'
            if nm in('read','write') and len(args)==2:
                kd,base,off,et=self.pan(args[0],nm=='read')
                if deref_t(et) not in(('int','u8'),('int','i8')) or kd!='mem': raise Unsupported('file transfer of other than bytes')
                k=self.cast(self.ex(args[1]),self.intt(args[1]),'u64')
                o2=self.tmp('off'); self.hoist('let %s: u64 = %s;'%(o2,off)); c2=self.tmp('cnt'); self.hoist('let %s: u64 = %s;'%(c2,k))
                self.hoist('file_%s(&mut %s, %s, %s, %s);'%(nm,m,base,o2,c2)); return '()'
        if ot[0]=='sp' and nm=='operator bool': return '(!(%s).null)'%self.ex(obj)
        if ot[0]=='opt' and nm=='operator bool': return '%s.is_some()'%self.ex(obj)
        if ot[0]=='set' and nm=='insert' and len(args)==1: self.hoist('set_insert(&mut %s, %s);'%(self.ex(obj,lv=True),self.ex(args[0]))); return '()'
        return Tr.std_method_more(self,nm,obj,args,n,lv,ot)
    def std_method(self,nm,obj,args,n,lv):
        ot=deref_t(self.T(self.strip(obj)))
        if ot[0]=='opt' and nm=='operator bool': return '%s.is_some()'%self.ex(obj)
        if ot[0]=='vec' and nm=='resize' and len(args)==1:
            sfx={'arr':'_hash','vec':'_vec'}.get(deref_t(ot[1])[0])
            if sfx: self.hoist('vresize%s(&mut %s, %s);'%(sfx,self.ex(obj,lv=True),self.ex(args[0]))); return '()'
        return Tr.std_method(self,nm,obj,args,n,lv)
    def x_CXXConstructExpr(self,n,want,lv):
        t=deref_t(self.T(n)); ks=[c for c in kids(n) if c.get('kind')!='CXXDefaultArgExpr']
        if t[0]=='vec' and len(ks)==1 and deref_t(self.T(self.strip(ks[0])))[0]=='int' and deref_t(t[1])[0]=='arr':
            return 'vnew_hash(%s)'%self.ex(ks[0])
        if t[0]=='vec' and len(ks)==2 and deref_t(self.T(self.strip(ks[0])))[0] not in('it','int'):
            a=self.strip(ks[0]); b=self.strip(ks[1])
            if a.get('kind')=='CXXMemberCallExpr' and b.get('kind')=='CXXMemberCallExpr':
                _,na,oa=self.callee(kids(a)[0]); _,nb,ob=self.callee(kids(b)[0])
                if na in('begin','cbegin') and nb in('end','cend') and deref_t(self.T(self.strip(oa)))[0]=='set' and self.ex(oa)==self.ex(ob): return 'set_list(&%s)'%self.ex(oa)
        return Tr.x_CXXConstructExpr(self,n,want,lv)
    def std_call_more(self,nm,args,n,want):
        if nm=='dynamic_pointer_cast' or nm=='static_pointer_cast': return self.ex(args[0])
        if nm=='swap' and len(args)==2:
            a=self.place(args[0]); b=self.place(args[1]); t=self.tmp()
            self.hoist('let %s = %s;'%(t,a)); self.hoist('%s = %s;'%(a,b)); self.hoist('%s = %s;'%(b,t)); return '()'
        if nm=='MakeNodePtr':
            q=(n.get('type',{}).get('qualType') or ''); tt=deref_t(self.T(n))
            if tt[0]!='sp' or self.X.norm(tt[1][1])!='RamForest::Node': raise Unsupported('MakeNodePtr of another type')
            if not args or not self.isforest_expr(args[0]): raise Unsupported('a node of another forest')
            c2=[e for e in self.P.funcs['RamForest::Node::new'].values() if len(e['params'])==len(args) and deref_t(e['ptypes'][0])[0]=='ptr' and all(self.fwd_fits(deref_t(self.X.normt(t)),deref_t(self.X.normt(self.T(self.strip(a))))) for t,a in list(zip(e['ptypes'],args))[1:])]
            if len(c2)!=1: raise Unsupported('node constructor')
            e=c2[0]; self.X.need(e['key']); self.calls.add(e['key'])
            if e['key'] not in self.X.ov.fns: raise Unsupported('node constructor without contract')
            k=self.calln.get('MakeNodePtr',0); self.calln['MakeNodePtr']=k+1; self.marks.append('MakeNodePtr#%d'%k)
            v=self.tmp('nd'); self.hoist('let %s = %s(%s);'%(v,fn_rust(e['key']),', '.join(self.fwd_args(e,args))))
            p=self.tmp('np'); self.hoist('let %s = mk_node(&mut this.heap, %s);'%(p,v)); return p
        return Tr.std_call_more(self,nm,args,n,want)
    def fpos(self,a):
        s=a
        while True:
            k=s.get('kind')
            if k in STRIP_KINDS or (k=='ImplicitCastExpr' and s.get('castKind') in('ConstructorConversion','NoOp')) or (k in('CXXConstructExpr','CXXFunctionalCastExpr') and len(kids(s))==1): s=kids(s)[0]; continue
            break
        if deref_t(self.T(s))[0]!='int': raise Unsupported('file position')
        return self.cast(self.ex(s),self.intt(s),'i64')
    def dropped_field(self,n):
        s=self.strip(n)
        return s.get('kind')=='MemberExpr' and s.get('name')=='m_file_path'
    # ---- node methods take the forest and the node
    def run(self):
        self.allocates=mentions(self.e['body'],'MakeNodePtr') if self.e['body'] else False
        al,sig,hdr,body=Tr.run(self)
        if self.isnode():
            if self.isctor():
                sig=re.sub(r'\w+: FPTR,?\s*','',sig)
            else:
                mut=not self.e['const'] or self.allocates
                sig=re.sub(r'this: &(mut )?[\w]+','this: &%s%s, me: NP'%('mut ' if mut else '',self.ACC),sig)
        return al,sig,hdr,body
    def ctor_prologue(self):
        for ini in self.e['inits']:
            if 'baseInit' in ini or 'delegatingInit' in ini:
                x=self.strip(kids(ini)[0]); ks=[c for c in kids(x) if c.get('kind')!='CXXDefaultArgExpr']
                bt=parse_type((ini.get('baseInit') or ini.get('delegatingInit')).get('desugaredQualType') or (ini.get('baseInit') or ini.get('delegatingInit'))['qualType'])
                q=self.X.norm(bt[1]); ct=(x.get('ctorType') or {}).get('qualType')
                cands=[e for e in self.P.funcs.get(q+'::new',{}).values() if len(e['params'])==len(ks) and (ct is None or e['qt']==ct)]
                if len(cands)!=1: raise Unsupported('base constructor')
                self.inline_ctor(cands[0],ks)
    def inline_ctor(self,e,args):
        if e['body'] is None:
            if not args: return
            raise Unsupported('base constructor')
        self.inl+=1
        for p,t,a in zip(e['params'],e['ptypes'],args):
            if deref_t(t)[0]=='ptr': self.vars[p['id']]=dict(rust='this',type=t,mode='alias'); continue
            v=self.conv(a,t); r='%s_c%d'%(p['name'],self.inl); self.w('let mut %s = %s;'%(r,v)); self.vars[p['id']]=dict(rust=r,type=t,mode='own')
        save=(self.inline_stack,self.src,self.e)
        self.inline_stack=self.inline_stack+[e['key']]; self.src=e['src']; self.e=e
        for ini in e['inits']:
            f=ini.get('anyInit',{}).get('name')
            if 'baseInit' in ini or 'delegatingInit' in ini: self.ctor_prologue_of(ini)
            elif f and f!='m_forest' and not (self.strip(kids(ini)[0]).get('kind')=='CXXConstructExpr' and not kids(self.strip(kids(ini)[0]))): self.w('this.%s = %s;'%(f,self.conv(kids(ini)[0],[t2 for c in (e['cls'],) for f2,t2,_ in self.P.records[c]['fields'] if f2==f][0])))
        self.block(e['body'])
        self.inline_stack,self.src,self.e=save
    def ctor_prologue_of(self,ini):
        e=self.e; self.e=dict(e,inits=[ini]); self.ctor_prologue(); self.e=e

def openmode(n,tr):
    """the flags of an openmode expression"""
    k=n.get('kind')
    if k=='DeclRefExpr':
        rd=n.get('referencedDecl',{}); nm=rd.get('name')
        if nm in('in','out','binary','trunc'): return {nm}
        d=getattr(tr,'omodes',{}).get(rd.get('id')) or tr.P.decls.get((tr.src,rd.get('id')))
        if d and d['kind']=='VarDecl' and 'const' in d.get('type',{}).get('qualType','') and kids(d): return openmode(kids(d)[0],tr)
        if nm!='operator|': raise Unsupported('open mode '+str(nm))
        return set()
    if k=='MemberExpr' and n.get('name') in('in','out','binary','trunc'): return {n['name']}
    if k in('CXXOperatorCallExpr','CallExpr','ImplicitCastExpr','ParenExpr','ConstantExpr','BinaryOperator') or k in STRIP_KINDS:
        r=set()
        for c in kids(n): r|=openmode(c,tr)
        return r
    raise Unsupported('open mode')
def mentions(n,name):
    if n.get('referencedDecl',{}).get('name')==name: return True
    return any(mentions(c,name) for c in kids(n) if isinstance(c,dict))

class ForestX(Extractor):
    DROP={'m_forest','m_file_path'}
    def self_type(self,cls):
        return 'RamForest' if cls in FOREST else 'RNode' if cls in NODES else Extractor.self_type(self,cls)
    def flat(self,q):
        r=self.P.records[q]; out=[]
        for b in r['bases']: out+=self.flat(self.norm(b[1]))
        return out+[x for x in r['fields'] if x[0] not in self.DROP]
    def struct_text(self,q):
        if q=='RamForest':
            return 'pub struct RamForest {\n%s\n    pub heap: Vec<RNode>,\n}\n'%'\n'.join('    pub %s: %s,'%(f,rty(self.normt(t))) for f,t,_ in self.flat(q))
        if q=='RamForest::Node':
            return 'pub struct RNode {\n%s\n}\n'%'\n'.join('    pub %s: %s,'%(f,rty(self.normt(t))) for f,t,_ in self.flat(q))
        return Extractor.struct_text(self,q)
    def ctor_struct(self,tr,e,rec):
        q=self.norm(e['cls'])
        if q not in('RamForest','RamForest::Node'): return Extractor.ctor_struct(self,tr,e,rec)
        vals={}
        for ini in e['inits']:
            f=ini.get('anyInit',{}).get('name')
            if f and f not in self.DROP:
                x=kids(ini)[0]
                if x.get('kind')=='CXXConstructExpr' and not kids(x): continue
                ft=[t for f2,t,_ in self.flat(q) if f2==f][0]; vals[f]=tr.conv(x,ft)
            if f=='m_forest' and not tr.isforest_expr(kids(ini)[0]): raise Unsupported('a node of another forest')
        out=['%s: %s'%(f,vals.get(f) or tr.default(self.normt(t))) for f,t,_ in self.flat(q)]
        if q=='RamForest': out.append('heap: Vec::<RNode>::new()')
        return '%s { %s }'%(self.self_type(q),', '.join(out))
