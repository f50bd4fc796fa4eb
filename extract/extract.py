"""Mechanical extraction of the C++ functions under contract to Verus (Rust) text.

Input : clang's AST of /repo's current sources (cxxast.Program) and the contract overlay (specs/*.ov).
Output: one Rust file with the bodies translated statement by statement and the contracts attached.
What the translation drops or adds is documented in DESIGN.md ("Extraction").
"""
import re, os, sys, json
from cxxast import *

STRIP_KINDS={'ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ParenExpr','ConstantExpr','FullExpr','SubstNonTypeTemplateParmExpr'}
STRIP_CASTS={'LValueToRValue','NoOp','FunctionToPointerDecay','UserDefinedConversion','ConstructorConversion','ArrayToPointerDecay','UncheckedDerivedToBase','DerivedToBase','BaseToDerived','Dynamic'}
WID={'u8':8,'u16':16,'u32':32,'u64':64,'i8':8,'i16':16,'i32':32,'i64':64}
def signed(t): return t[0]=='i'

def kids(n): return n.get('inner',[]) or []

class Overlay:
    """contract text per function key"""
    def __init__(self, text=''):
        self.fns={}; self.order=[]
        if text: self.parse(text)
    def parse(self, text, fname='?'):
        cur=None; sec=None
        for ln,l in enumerate(text.split('\n'),1):
            if l.startswith('//#'): continue
            m=re.match(r'^@(\w+)\s*(.*)$', l)
            if m and m.group(1)=='fn':
                cur=dict(key=m.group(2).strip(), secs=[], file=fname); self.fns[cur['key']]=cur; self.order.append(cur['key']); sec=None; continue
            if m and cur is not None and m.group(1) in SECTIONS:
                sec=dict(name=m.group(1), arg=m.group(2).strip(), lines=[]); cur['secs'].append(sec); continue
            if sec is not None and l.strip(): sec['lines'].append(l.rstrip())
SECTIONS={'module','attr','requires','ensures','entry','loop','invariant','invariant_except_break','loop_ensures','decreases','body_start','body_end','after','before','ret','bv','bvfact','ghostret','names','inline','props','external','loop_before','loop_after','generic','rlimit','spinoff','trust','ghost_params','ghost_args','nodecreases','isolate','at_break','wrapadd','may_abort'}

def rty(t, fld=False):
    t=deref_t(t)
    k=t[0]
    if k=='int': return t[1]
    if k=='bool': return 'bool'
    if k=='void': return '()'
    if k=='vec': return 'Vec<%s>'%rty(t[1])
    if k=='arr': return '[%s; %d]'%(rty(t[1]),t[2])
    if k=='tuple': return '(%s)'%', '.join(rty(x) for x in t[1])+''
    if k=='opt': return 'Option<%s>'%rty(t[1])
    if k=='it': return "VIt<%s>"%rty(t[1])
    if k=='rit': return "VRit<%s>"%rty(t[1])
    if k=='map': return 'CMap'
    if k=='mapit': return 'Option<%s>'%rty(t[1])
    if k=='sp': return 'NP'
    if k=='file': return 'CFile'
    if k=='set': return 'CSet'
    if k=='str': return 'CPath'
    if k=='bitset': return 'u64'
    if k=='cls': return cls_rust(t[1])
    if k=='ptr' and t[1][0]=='int': return '&mut [%s]'%t[1][1]
    if k=='ptr' and t[1]==('cls','RamForest'): return 'FPTR'
    raise Unsupported('type '+str(t))
def cls_rust(n): return {'Accumulator':'RamForest'}.get(n) or (n.split('::')[-1] if n.split('::')[-1] not in ('Node',) else 'RNode')

def fn_rust(key):
    return re.sub(r'[^A-Za-z0-9_]','_',key.replace('::','_').replace('(','_').replace(')','').replace(',','_')).rstrip('_')

BVOP={'+':'add','-':'sub','*':'mul'}

PTRK={'ImplicitCastExpr','BinaryOperator','CXXMemberCallExpr','UnaryOperator','CStyleCastExpr','CXXReinterpretCastExpr','CXXStaticCastExpr'}
def rawptr(n):
    q=(n.get('type') or {}); q=(q.get('desugaredQualType') or q.get('qualType') or '').rstrip()
    return q.endswith('*') or q.endswith('*const')

class Tr:
    """translates one function"""
    def __init__(self, X, e, ov):
        self.X=X; self.P=X.P; self.e=e; self.ov=ov; self.src=e['src']
        self.lines=[]; self.ind=1; self.vars={}   # decl id -> dict(rust, type, mode)
        self.names=[]     # (name,type) in declaration order
        self.loopn=0; self.rangen=0; self.tmpn=0; self.calln={}; self.usedcalls=set()
        self.loopstack=[]; self.inl=0
        self.pre=None
        self.bv = ov is not None and any(s['name']=='bv' for s in ov['secs'])
        self.env={}; self.facts=[]; self.path=[]; self.cn=0; self.symof={}
        self.rename={}; self.dmap=False; self.scope_ids=set()
        self.calls=set()
        self.used_hooks=set()
        self.loopinfo=[]
        self.retn=0
        self.mutated=set()
        self.inline_stack=[]
    # ------------------------------------------------------------ helpers
    def w(self, s, tag=None):
        self.lines.append(('    '*self.ind+s, tag))
    def tmp(self, p='t'):
        self.tmpn+=1; return '%s_%d'%(p,self.tmpn)
    def hoist(self, s):
        if self.pre is None: self.w(s)
        else: self.pre.append(s)
    def sec(self, name, arg=None):
        if not self.ov: return []
        return [s for s in self.ov['secs'] if s['name']==name and (arg is None or s['arg']==arg)]
    def ovtext(self, lines):
        rn=dict(self.rename); rn.update(self.scoped())
        rn={a:b for a,b in rn.items() if a!=b}
        if not rn: return lines
        rx=re.compile(r'(?<![\w.$])(%s)\b'%'|'.join(map(re.escape,rn)))
        return [rx.sub(lambda m:rn[m.group(1)],l) for l in lines]
    def scoped(self):
        """names of the baseline -> names of the aligned declarations that are visible here (the innermost one)"""
        if not self.dmap: return {}
        r={}
        for k,(i,nm) in enumerate(self.bnames):
            if i is None: continue
            d=self.cur_decls[i]
            if d['id'] is not None and (d['id'] not in self.vars or d['scope'] not in self.scope_ids): continue
            r[nm]=d['name']
        return self.gfree(r)
    def emit_ov(self, s, tag):
        for l in self.ovtext(s['lines']): self.w(l.strip(), tag)
    def emit_proof(self, s, tag):
        ls=[l.strip() for l in self.ovtext(s['lines'])]
        for l in ls:
            if l.startswith('let ghost '): self.w(l,tag)
        ls=[l for l in ls if not l.startswith('let ghost ')]
        if not ls: return
        self.w('proof {', None); self.ind+=1
        for l in ls: self.w(l, tag)
        self.ind-=1; self.w('}')
    # ------------------------------------------------------------ names
    def strip(self, n):
        while True:
            k=n.get('kind')
            if k in STRIP_KINDS: n=kids(n)[0]; continue
            if k=='ImplicitCastExpr' and n.get('castKind') in STRIP_CASTS: n=kids(n)[0]; continue
            return n
    def rid(self, n):
        return n.get('referencedDecl',{}).get('id')
    def declname(self, d):
        return d.get('name')
    def bind(self, decl, t, rust=None, mode='own'):
        nm=decl.get('name') or '_anon'
        if rust is None:
            rust=self.fresh_name(nm)
        self.vars[decl['id']]=dict(rust=rust,type=t,mode=mode)
        return rust
    KW={'in','fn','let','loop','match','move','mut','ref','self','type','use','where','impl','pub','mod','as','dyn','box','final','old','ret','this','proof','spec','exec','ghost','tracked'}
    def gnames(self):
        if not hasattr(self,'_gn'):
            secs=self.ov['secs'] if self.ov else []; ls=[l for x in secs for l in x['lines']]
            self._gn={m for l in ls for m in re.findall(r'let ghost (?:mut )?(\w+)',l)}
            self._gn|={l.split(':')[0].strip() for x in secs if x['name']=='ghost_params' for l in x['lines'] if ':' in l}
        return self._gn
    def specname(self, nm):
        """a local that is new since the baseline and has the name of a specification function"""
        return nm in spec_names() and nm not in getattr(self,'base_names',{nm})
    def fresh_name(self, nm):
        if nm in self.KW: nm=nm+'_'
        if nm in self.gnames() or self.specname(nm): nm=nm+'_c'      # do not shadow a ghost variable of the contract
        if self.inline_stack: nm='%s_i%d'%(nm,self.inl)
        return nm
    # ------------------------------------------------------------ lookup of callee entries
    def callee(self, n):
        """n: callee expression -> (kind, info)"""
        c=self.strip(n)
        if c.get('kind')=='ImplicitCastExpr' and c.get('castKind')=='BuiltinFnToFnPtr': c=self.strip(kids(c)[0])
        if c.get('kind')=='DeclRefExpr':
            rd=c.get('referencedDecl',{})
            d=self.P.decls.get((self.src,rd.get('id')))
            if d and d['kind']=='fn': return ('fn',self.P.entry_of(d['entry']),None)
            sg=self.P.funcs.get(rd.get('name'))
            if sg and len(sg)==1 and list(sg.values())[0]['body'] is not None: return ('fn',list(sg.values())[0],None)
            return ('std',rd.get('name'),None)
        if c.get('kind')=='MemberExpr':
            rid=c.get('referencedMemberDecl')
            d=self.P.decls.get((self.src,rid))
            obj=kids(c)[0]
            if d and d['kind']=='fn': return ('method',self.P.entry_of(d['entry']),obj)
            return ('stdm',c.get('name'),obj)
        raise Unsupported('callee '+str(c.get('kind')))
    # ------------------------------------------------------------ expressions
    def T(self, n): return ntype(n)
    def is_copy(self, t): return self.X.is_copy(t)
    def val(self, n, want=None):
        """translate as a value (copying lvalues)"""
        s=self.strip(n); t=deref_t(self.T(s))
        code=self.ex(n, want)
        if self.is_copy(t) or t[0] in ('it','rit'): return code
        if t[0] in ('cls',) and t[1]=='null': return code
        k=s.get('kind')
        if s.get('valueCategory')=='lvalue':
            return self.clone(code,t)
        return code
    def clone(self, code, t):
        t=deref_t(t)
        if self.is_copy(t): return code
        if t[0]=='vec':
            if self.is_copy(t[1]): return 'vclone(&%s)'%code
            if t[1][0]=='vec' and self.is_copy(t[1][1]): return 'vclone2(&%s)'%code
        if t[0]=='map': return 'map_clone(&%s)'%code
        if t[0]=='cls' and self.value_class(t[1]): return 'sclone(&%s)'%code
        raise Unsupported('copy of '+str(t))
    def value_class(self,c):
        """a class whose implicit copy constructor copies plain values"""
        r=self.P.records.get(c)
        if not r: return False
        for base in (c+'::operator=',c+'::new'):
            for x in self.P.funcs.get(base,{}).values():
                if len(x['ptypes'])==1 and deref_t(self.X.normt(x['ptypes'][0]))==('cls',c) and not (x['node'].get('isImplicit') or x['node'].get('explicitlyDefaulted')): return False
        return all(self.value_type(self.X.normt(t)) for _,t,_ in r['fields'])
    def value_type(self,t):
        if self.is_copy(t): return True
        if t[0]=='vec': return self.value_type(self.X.normt(t[1]))
        return t[0]=='cls' and self.value_class(t[1])
    def place(self, n):
        return self.ex(n, lv=True)
    def cast(self, code, frm, to, n=None):
        if frm==to: return code
        if re.fullmatch(r'\d+(%s)'%frm, code):
            v=int(code[:-len(frm)])
            if 0<=v<(1<<(WID[to]-(1 if signed(to) else 0))): return '%d%s'%(v,to)
        wf,wt=WID[frm],WID[to]
        if not signed(frm) and (wt>wf): return '(%s as %s)'%(code,to)
        if signed(frm) and signed(to) and wt>wf: return '(%s as %s)'%(code,to)
        return 'cast_%s_%s(%s)'%(frm,to,code)
    def symcast(self, s, frm, to): return s if frm==to else '(%s as %s)'%(s,to)
    def intt(self, n):
        t=deref_t(self.T(n))
        if t[0]=='int': return t[1]
        if t[0]=='bool': return 'bool'
        raise Unsupported('integer expected, got %s'%(t,))
    def arith(self, op, a, b, t):
        if t in ('u64','u32'):
            if op=='+' and t=='u64' and self.sec('wrapadd'): return 'wadd64(%s, %s)'%(a,b)
            if op in BVOP: return 'u%s%s(%s, %s)'%(BVOP[op],t[1:],a,b)
            if t=='u64' and not self.bv and op in '/%&' and (b in ('2u64','2') if op in '/%' else b in ('1u64','1')):
                return '%s(%s)'%({'/':'half64','%':'low64','&':'low64'}[op],a)
            if op in '/%': return '(%s %s %s)'%(a,op,b)
            return '(%s %s %s)'%(a,op,b)
        if op in ('/','%'):
            return 's%s_%s(%s, %s)'%('div' if op=='/' else 'rem',t,a,b)
        return '(%s %s %s)'%(a,op,b)
    def shift(self, op, a, b, ta, tb):
        # C++: the amount must be in [0,width); native Rust shift carries the same obligation
        if tb in ('u64','u32'): sb='(%s as u64)'%b if tb=='u32' else b
        elif signed(tb):
            m=re.fullmatch(r'(\d+)'+tb,b)
            m2=re.fullmatch(r'\((.*) as i32\)',b)
            if m: sb=m.group(1)+'u64'
            else: sb='sh_amt(%s)'%b if tb=='i32' else 'sh_amt64(%s)'%b
        else: sb='(%s as u64)'%b
        if signed(ta): return 's%s_%s(%s, %s)'%('shl' if op=='<<' else 'shr',ta,a,sb)
        if ta=='u64' and op=='>>' and sb=='1u64' and not self.bv: return 'half64(%s)'%a
        if ta=='u64': return '(%s %s %s)'%(a,op,sb)
        return '%s_%s(%s, %s)'%('shl' if op=='<<' else 'shr',ta,a,sb)

    def ex(self, n, want=None, lv=False):
        k=n.get('kind')
        if k in PTRK and rawptr(n) and not lv:
            pt=deref_t(self.T(n))
            if pt[0]=='it' or (pt[0]=='ptr' and pt[2] and pt[1][0]=='cls' and pt[1][1]=='value_type'): return self.cptr(n)
        m=getattr(self,'x_'+k,None)
        if m is None: raise Unsupported('expression '+str(k))
        return m(n,want,lv)
    def x_strip(self,n,want,lv): return self.ex(kids(n)[0],want,lv)
    x_ExprWithCleanups=x_MaterializeTemporaryExpr=x_CXXBindTemporaryExpr=x_ParenExpr=x_ConstantExpr=x_SubstNonTypeTemplateParmExpr=x_strip
    def x_ImplicitCastExpr(self,n,want,lv):
        ck=n.get('castKind'); s=kids(n)[0]
        if ck in STRIP_CASTS: return self.ex(s, want if want else (deref_t(self.T(n)) if ck=='ConstructorConversion' else None), lv)
        if ck=='IntegralCast':
            st=deref_t(self.T(s))
            if st[0]=='bool': return 'b2%s(%s)'%(self.intt(n),self.ex(s))
            return self.cast(self.ex(s),self.intt(s),self.intt(n),s)
        if ck=='IntegralToBoolean': return '(%s != 0)'%self.ex(s)
        if ck=='ToVoid': return self.ex(s)
        if ck=='PointerToBoolean' or ck=='NullToPointer': return self.ptr_cast(n,ck,s)
        raise Unsupported('cast '+str(ck))
    def ptr_cast(self,n,ck,s): raise Unsupported('pointer')
    def x_castany(self,n,want,lv):
        ck=n.get('castKind'); s=kids(n)[0]
        if ck=='NoOp' and deref_t(self.T(n))[0]=='ref': return self.ex(s,want,lv)
        return self.x_ImplicitCastExpr(n,want,lv)
    x_CXXStaticCastExpr=x_CXXFunctionalCastExpr=x_CStyleCastExpr=x_castany
    def x_IntegerLiteral(self,n,want,lv): return '%s%s'%(n['value'],self.intt(n))
    def abort_fn(self):
        """a failing assert is excluded by an obligation, unless the contract only speaks about calls that return"""
        return 'cpp_stop' if self.sec('may_abort') else 'cpp_abort'
    def x_UnaryExprOrTypeTraitExpr(self,n,want,lv):
        if n.get('name')!='sizeof': raise Unsupported(str(n.get('name')))
        if 'argType' in n: t=ntype({'type':n['argType']})
        else: t=deref_t(self.T(self.strip(kids(n)[0])))
        def sz(t):
            t=deref_t(t) if t else t
            if t and t[0]=='int': return {'8':1,'16':2,'32':4,'64':8}[t[1].lstrip('iu')]
            if t and t[0]=='arr': return sz(t[1])*int(t[2])
            raise Unsupported('sizeof')
        return '%du64'%sz(t)
    def x_CXXBoolLiteralExpr(self,n,want,lv): return 'true' if n['value'] else 'false'
    def x_CXXThisExpr(self,n,want,lv): return 'this'
    def x_CXXDefaultArgExpr(self,n,want,lv): raise Unsupported('default argument')
    def x_DeclRefExpr(self,n,want,lv):
        rd=n.get('referencedDecl',{}); v=self.vars.get(rd.get('id'))
        if v is None:
            d=self.P.decls.get((self.src,rd.get('id')))
            if d and d['kind']=='VarDecl': return self.X.global_ref(d)
            raise Unsupported('reference to '+str(rd.get('name')))
        if v['mode']=='alias': return v['rust']
        if v['mode']=='mutref':
            t=deref_t(v['type'])
            if lv or self.is_copy(t): return '(*%s)'%v['rust'] 
            return v['rust']
        return v['rust']
    def x_MemberExpr(self,n,want,lv):
        o=kids(n)[0]; nm=n['name']
        so=self.strip(o); ot=deref_t(self.T(so))
        if n.get('isArrow') and so.get('kind')!='CXXThisExpr': return self.arrow(n,o,nm,lv)
        if ot[0]=='tuple' and nm in ('first','second'):
            return '%s.%d'%(self.ex(o,lv=lv), 0 if nm=='first' else 1)
        if ot[0]=='mapit' : return self.mapit_member(o,nm)
        base=self.ex(o,lv=lv)
        if base.startswith('(*') and base.endswith(')') and re.fullmatch(r'\(\*\w+\)',base): base=base[2:-1]
        path=self.X.field_path(ot if so.get('kind')!='CXXThisExpr' else ('cls',self.e['cls']), nm, self)
        return '%s%s'%(base,path)
    def arrow(self,n,o,nm,lv): raise Unsupported('-> on a pointer')
    def mapit_member(self,o,nm): raise Unsupported('map iterator')
    def x_UnaryOperator(self,n,want,lv):
        op=n['opcode']; s=kids(n)[0]
        if op=='!': return '(!%s)'%self.ex(s)
        if op=='~':
            t=self.intt(n)
            if signed(t):
                v=self.ex(s); m=re.fullmatch(r'\(?(\d+)i32\)?',v)
                return '(%di32)'%(-1-int(m.group(1))) if m and t=='i32' else 'snot_%s(%s)'%(t,v)
            return '(!%s)'%self.ex(s)
        if op=='-': return '(-%s)'%self.ex(s) if signed(self.intt(n)) else 'usub64(0u64, %s)'%self.ex(s)
        if op=='+': return self.ex(s)
        if op in ('++','--'):
            if self.pre is None and not getattr(self,'in_stmt',False): pass
            if rawptr(s):
                sa=self.pstrip(s); v=self.vars.get(self.rid(sa)) if sa.get('kind')=='DeclRefExpr' else None
                if v and v['mode']=='mptr':
                    if n.get('isPostfix') and not getattr(self,'as_stmt',False): raise Unsupported('value of p++')
                    self.hoist('%s = u%s64(%s, 1u64);'%(v['off'],'add' if op=='++' else 'sub',v['off'])); return '()'
                p=self.place(s); u='%s = it_add(&%s, %s);'%(p,p,'1' if op=='++' else '-1')
                if n.get('isPostfix'):
                    v=self.tmp(); self.hoist('let %s = it_add(&%s, 0);'%(v,p)); self.hoist(u); return v
                self.hoist(u); return p
            p=self.place(s); t=self.intt(s)
            upd='%s = %s;'%(p,self.incdec(p,t,op))
            if n.get('isPostfix'):
                v=self.tmp(); self.hoist('let %s = %s;'%(v,p)); self.hoist(upd); return v
            self.hoist(upd); return p
        if op=='*': return self.deref(s)
        if op=='__extension__': return self.ex(s)
        raise Unsupported('unary '+op)
    def deref(self,s):
        if self.strip(s).get('kind')=='CXXThisExpr': return '(*this)'
        return self.deref_ptr(s)
    def deref_ptr(self,s):
        sa=self.pstrip(s); v=self.vars.get(self.rid(sa)) if sa.get('kind')=='DeclRefExpr' else None
        if v and v['mode']=='mptr': return '%s[(%s) as usize]'%(v['base'](None),v['off'])
        if deref_t(self.T(s))[0]=='it' : return 'it_at(&%s, 0)'%self.ex(s)
        return self.deref_other(s)
    def deref_other(self,s): raise Unsupported('pointer dereference')
    def incdec(self,p,t,op):
        if t in ('u64','u32'): return 'u%s%s(%s, 1%s)'%('add' if op=='++' else 'sub',t[1:],p,t)
        if not signed(t): return '%s_%s(%s)'%('inc' if op=='++' else 'dec',t,p)
        return '%s %s 1%s'%(p,op[0],t)
    def cond_hooks(self,m0):
        # hooks of calls that are made only if the left operand says so stay inside the right operand
        if self.inline_stack or self.bv: return '',''
        out=[]
        for nm in ('before','after'):
            ls=[]
            for mk in self.marks[m0:]:
                for h in self.sec(nm,mk):
                    t=[l.strip() for l in self.ovtext(h['lines']) if l.strip() and not l.strip().startswith('//')]
                    if any(l.startswith('let ghost ') for l in t): raise Unsupported('a proof step at a conditional call')
                    ls+=t; self.used_hooks.add(id(h))
            out.append('proof { %s }'%' '.join(ls) if ls else '')
        del self.marks[m0:]
        return out
    def x_BinaryOperator(self,n,want,lv):
        op=n['opcode']; a,b=kids(n)
        if op==',': self.stmt_expr(a); return self.ex(b)
        if op in ('&&','||'):
            ca=self.ex(a)
            save=self.pre; self.pre=[]
            m0=len(self.marks)
            cb=self.ex(b); pr=self.pre; self.pre=save
            bf,af=self.cond_hooks(m0)
            if af: v=self.tmp('cond'); cb='let %s = %s; %s %s'%(v,cb,af,v)
            if pr or bf or af: cb='{ %s %s %s }'%(' '.join(pr),bf,cb)
            return '(%s %s %s)'%(ca,op,cb)
        if op=='=':
            p=self.place(a); v=self.val(b); self.hoist('%s = %s;'%(p,v)); return p
        ta=deref_t(self.T(a)); tb=deref_t(self.T(b))
        if ta[0]=='it' and tb[0]=='it' and rawptr(a) and rawptr(b):
            nm={'<':'lt','<=':'le','>':'gt','>=':'ge','==':'eq','!=':'ne','-':'diff'}.get(op)
            if nm: return 'it_%s(&%s, &%s)'%(nm,self.ex(a),self.ex(b))
        if op in ('==','!=') and (ta[0] in ('sp','ptr','null') or tb[0] in ('sp','ptr','null')): return self.ptr_cmp(op,a,b)
        ca=self.ex(a); cb=self.ex(b)
        if op in ('==','!=','<','>','<=','>='):
            return '(%s %s %s)'%(ca,op,cb)
        if op in ('<<','>>'): return self.shift(op,ca,cb,self.intt(n),self.intt(b))
        return self.arith(op,ca,cb,self.intt(n))
    def ptr_cmp(self,op,a,b): raise Unsupported('pointer comparison')
    # ------------------------------------------------------------ raw pointers into byte/word storage
    def pstrip(self,n):
        while True:
            k=n.get('kind')
            if k in STRIP_KINDS: n=kids(n)[0]; continue
            if k in ('ImplicitCastExpr','CStyleCastExpr','CXXReinterpretCastExpr','CXXStaticCastExpr','CXXConstCastExpr') and n.get('castKind') in ('BitCast','NoOp','LValueToRValue','ArrayToPointerDecay'):
                n=kids(n)[0]; continue
            return n
    def pan(self,n,mut):
        """-> (kind, base code, offset code u64, element type); kind: it | mem | int"""
        s=self.pstrip(n); k=s.get('kind'); t=deref_t(self.T(s))
        if k=='BinaryOperator' and s['opcode'] in '+-':
            a,b=kids(s)
            if not rawptr(a) and not deref_t(self.T(a))[0]=='arr': a,b=b,a
            kd,base,off,et=self.pan(a,mut)
            if kd=='int': raise Unsupported('pointer arithmetic on a variable')
            c=self.ex(b); ct=self.intt(b)
            if kd=='it':
                c=self.cast(c,ct,'i64')
                return (kd,'it_add(&%s, %s)'%(base,c if s['opcode']=='+' else '-(%s)'%c),'0u64',et)
            c=self.cast(c,ct,'u64')
            if s['opcode']=='-': return (kd,base,'usub64(%s, %s)'%(off,c),et)
            return (kd,base,c if off=='0u64' else 'uadd64(%s, %s)'%(off,c),et)
        if k in('DeclRefExpr','MemberExpr') and t[0]=='arr':
            return ('mem',self.memref(s,t,mut),'0u64',t[1])
        if k=='DeclRefExpr':
            v=self.vars.get(self.rid(s))
            if v and v['mode']=='mptr': return ('mem',v['base'](mut),v['off'],v['type'][1])
            if t[0]=='it': return ('it',self.x_DeclRefExpr(s,None,False),'0u64',t[1])
        if k=='CXXMemberCallExpr':
            kind,nm,obj=self.callee(kids(s)[0])
            if kind=='stdm' and nm in ('data','begin','cbegin'):
                so=self.strip(obj); ot=deref_t(self.T(so))
                if ot[0] in('vec','arr'): return ('mem',self.memref(obj,ot,mut),'0u64',deref_t(ot[1]))
        if k=='UnaryOperator' and s['opcode']=='&':
            x=self.strip(kids(s)[0]); xt=deref_t(self.T(x))
            if x.get('kind')=='ArraySubscriptExpr':
                a,i=kids(x)
                kd,base,off,et=self.pan(a,mut); c=self.cast(self.ex(i),self.intt(i),'u64')
                if kd=='mem': return (kd,base,c if off=='0u64' else 'uadd64(%s, %s)'%(off,c),et)
                if kd=='it': return (kd,'it_add(&%s, %s)'%(base,self.cast(self.ex(i),self.intt(i),'i64')),'0u64',et)
            if x.get('kind')=='CXXOperatorCallExpr' and self.strip(kids(x)[0]).get('referencedDecl',{}).get('name')=='operator[]':
                o=kids(x)[1]; ot=deref_t(self.T(self.strip(o)))
                if ot[0] in('vec','arr'): return ('mem',self.memref(o,ot,mut),self.idx(kids(x)[2]),deref_t(ot[1]))
            if xt[0]=='int' and x.get('kind')=='DeclRefExpr': return ('int',self.ex(x,lv=True),'0u64',xt)
        raise Unsupported('pointer expression '+str(k))
    def memref(self,obj,t,mut):
        c=self.ex(obj,lv=mut)
        m=re.fullmatch(r'\(\*(\w+)\)',c)
        if m: c=m.group(1)
        if mut: return '%s.as_mut_slice()'%c if t[0]=='vec' else '&mut %s'%('(*%s)'%m.group(1) if m else c)
        return '%s.as_slice()'%c if t[0]=='vec' else 'arr_slice(&%s)'%c
    def cptr(self,n):
        kd,base,off,et=self.pan(n,False)
        if kd=='it': return base
        if kd=='int': raise Unsupported('read-only pointer to a variable')
        return 'it_of(%s, %s)'%(base,off)
    def mptr(self,n):
        kd,base,off,et=self.pan(n,True)
        if kd!='mem': raise Unsupported('mutable pointer')
        return base,off,et
    def memcpy(self,args):
        d=self.pan(args[0],True); n=args[2]
        nb=self.cast(self.ex(n),self.intt(n),'u64')
        try: sr=self.pan(args[1],False)
        except Unsupported: raise
        u8=('int','u8')
        if d[0]=='int':
            if sr[0] not in('it','mem') or deref_t(sr[3])!=u8: raise Unsupported('memcpy into a variable')
            src=sr[1] if sr[0]=='it' else 'it_of(%s, %s)'%(sr[1],sr[2])
            w=WID[d[3][1]]//8
            if nb!='%du64'%w: raise Unsupported('memcpy of part of a variable')
            self.hoist('%s = mem_load_%s(%s);'%(d[1],d[3][1],src)); return '()'
        if sr[0]=='int':
            w=WID[sr[3][1]]//8
            if d[0]!='mem' or deref_t(d[3])!=u8 or nb!='%du64'%w: raise Unsupported('memcpy from a variable')
            self.hoist('mem_store_%s(%s, %s, %s);'%(sr[3][1],d[1],d[2],sr[1])); return '()'
        if d[0]!='mem' or deref_t(d[3])!=u8 or deref_t(sr[3])!=u8: raise Unsupported('memcpy')
        src=sr[1] if sr[0]=='it' else 'it_of(%s, %s)'%(sr[1],sr[2])
        sv=self.tmp('src'); self.hoist('let %s = %s;'%(sv,src))
        nv=self.tmp('cnt'); self.hoist('let %s: u64 = %s;'%(nv,nb))
        self.hoist('mem_copy(%s, %s, %s, %s);'%(d[1],d[2],sv,nv)); return '()'
    def x_CompoundAssignOperator(self,n,want,lv):
        op=n['opcode'][:-1]; a,b=kids(n)
        if rawptr(a) and op in '+-':
            sa=self.pstrip(a); v=self.vars.get(self.rid(sa)) if sa.get('kind')=='DeclRefExpr' else None
            if v and v['mode']=='mptr':
                self.hoist('%s = u%s64(%s, %s);'%(v['off'],'add' if op=='+' else 'sub',v['off'],self.cast(self.ex(b),self.intt(b),'u64'))); return '()'
            p=self.place(a); c=self.cast(self.ex(b),self.intt(b),'i64')
            self.hoist('%s = it_add(&%s, %s);'%(p,p,c if op=='+' else '-(%s)'%c)); return p
        p=self.place(a); tl=self.intt(a)
        ct=parse_type((n.get('computeResultType') or {}).get('desugaredQualType') or (n.get('computeResultType') or {}).get('qualType','int'))
        if tl=='bool':
            sb=b
            while sb.get('kind') in STRIP_KINDS or (sb.get('kind')=='ImplicitCastExpr' and sb.get('castKind') in('IntegralCast','LValueToRValue','NoOp') and deref_t(self.T(kids(sb)[0]))[0]=='bool'): sb=kids(sb)[0]
            if op not in '&|' or deref_t(self.T(sb))[0]!='bool': raise Unsupported('compound assignment to bool')
            c=self.let(self.ex(sb),sb); self.hoist('%s = (%s %s %s);'%(p,p,op*2,c)); return p
        ctn=ct[1]
        av=self.cast(p,tl,ctn); bv=self.ex(b); tb=self.intt(b)
        if op in ('<<','>>'): r=self.shift(op,av,bv,ctn,tb)
        else: r=self.arith(op,av,bv,ctn)
        self.hoist('%s = %s;'%(p,self.cast(r,ctn,tl)))
        return p
    def x_ConditionalOperator(self,n,want,lv):
        c,a,b=kids(n)
        if deref_t(self.T(n))[0]=='void':
            sb=self.strip(b)
            if sb.get('kind')=='CallExpr':
                cal=self.strip(kids(sb)[0])
                if cal.get('referencedDecl',{}).get('name')=='__assert_fail':
                    cc=self.ex(c); self.hoist('if !%s { %s(); }'%(cc,self.abort_fn())); return '()'
            raise Unsupported('void conditional')
        cc=self.ex(c)
        def arm(x):
            save=self.pre; self.pre=[]; v=self.val(x,want); pr=self.pre; self.pre=save
            return '{ %s }'%' '.join(pr+[v])
        return '(if %s %s else %s)'%(cc,arm(a),arm(b))
    def x_ArraySubscriptExpr(self,n,want,lv):
        a,i=kids(n); at=deref_t(self.T(self.strip(a)))
        if at[0]!='arr':
            sa=self.pstrip(a); v=self.vars.get(self.rid(sa)) if sa.get('kind')=='DeclRefExpr' else None
            if v and v['mode']=='mptr':
                c=self.cast(self.ex(i),self.intt(i),'u64')
                return '%s[(%s) as usize]'%(v['base'](None),c if v['off']=='0u64' else 'uadd64(%s, %s)'%(v['off'],c))
            if at[0]=='it': return 'it_at(&%s, %s)'%(self.ex(a),self.cast(self.ex(i),self.intt(i),'i64'))
            raise Unsupported('subscript of a pointer')
        return '%s[(%s) as usize]'%(self.ex(a,lv=lv),self.cast(self.ex(i),self.intt(i),'u64'))
    def x_InitListExpr(self,n,want,lv):
        t=deref_t(self.T(n)); ks=kids(n)
        if t[0] in ('int','bool') and len(ks)==1: return self.ex(ks[0])
        if t[0]=='int' and not ks: return '0%s'%t[1]
        if t[0]=='arr' and t[1][0]=='int':
            xs=[c for c in n.get('array_filler',[]) if c.get('kind')!='ImplicitValueInitExpr'] if n.get('array_filler') else ks
            if any(x.get('kind')=='ImplicitValueInitExpr' for x in xs): raise Unsupported('initializer list')
            vs=[self.conv(x,t[1]) for x in xs]
            if not vs: return '[0%s; %d]'%(t[1][1],t[2])
            if len(vs)==t[2]: return '[%s]'%', '.join(vs)
            v=self.tmp('arr'); self.hoist('let mut %s = [0%s; %d];'%(v,t[1][1],t[2]))
            for i,x in enumerate(vs): self.hoist('%s[%d] = %s;'%(v,i,x))
            return v
        raise Unsupported('initializer list for '+str(t))
    def x_CXXScalarValueInitExpr(self,n,want,lv):
        t=deref_t(self.T(n))
        if t[0]=='int': return '0%s'%t[1]
        raise Unsupported('value init')
    def x_CXXStdInitializerListExpr(self,n,want,lv):
        raise Unsupported('initializer_list')
    def x_CXXTemporaryObjectExpr(self,n,want,lv): return self.x_CXXConstructExpr(n,want,lv)
    def x_CXXFunctionalCast(self,n,want,lv): return self.ex(kids(n)[0])
    def x_CXXConstructExpr(self,n,want,lv):
        t=deref_t(self.T(n)); ks=[c for c in kids(n) if c.get('kind')!='CXXDefaultArgExpr']
        if t[0]=='vec':
            if not ks: return 'Vec::<%s>::new()'%rty(t[1])
            if len(ks)==1:
                s=self.strip(ks[0]); st=deref_t(self.T(s))
                if st==t or st[0]=='vec': return self.val(ks[0])
                if st[0]=='int': return ('vnew_np(%s)'%self.ex(ks[0]) if deref_t(t[1])[0]=='sp' else 'vnew_n::<%s>(%s)'%(rty(t[1]),self.ex(ks[0])))
            if len(ks)==2:
                a,b=ks; ta=deref_t(self.T(self.strip(a)))
                if ta[0]=='it': return 'vnew_range(%s, %s)'%(self.ex(a),self.ex(b))
            raise Unsupported('vector constructor')
        if t[0]=='bitset' and len(ks)==1: return self.ex(ks[0])
        if t[0] in ('it','rit'):
            if len(ks)==1: return self.ex(ks[0])
        if t[0]=='tuple':
            if len(ks)==1:
                s=self.strip(ks[0])
                st=deref_t(self.T(s))
                if s.get('kind')=='CallExpr': return self.ex(ks[0],t)
                if st==t: return self.val(ks[0])
            if len(ks)==len(t[1]): return '(%s)'%', '.join(self.conv(k,tt) for k,tt in zip(ks,t[1]))
            raise Unsupported('tuple constructor')
        if t[0]=='arr':
            if not ks: return '[0; %d]'%t[2]
            if len(ks)==1: return self.val(ks[0])
        if t[0]=='cls':
            if len(ks)==1:
                s=self.strip(ks[0]); st=deref_t(self.T(s))
                if st[0]=='cls' and self.X.norm(st[1])==self.X.norm(t[1]): return self.val(ks[0])
            return self.X.construct(self,n,t,ks)
        if t[0]=='opt':
            if len(ks)==1:
                s=self.strip(ks[0]); st=deref_t(self.T(s))
                if st[0]=='opt': return self.val(ks[0])
                if st[0]=='cls' and 'nullopt' in st[1]: return 'None'
                return 'Some(%s)'%self.val(ks[0])
            if not ks: return 'None'
        if t[0]=='map' and not ks: return 'map_new()'
        return self.construct_other(n,t,ks)
    def construct_other(self,n,t,ks): raise Unsupported('constructor of '+str(t))
    def conv(self,n,tt):
        """value of n converted to type tt (element-wise tuple conversion)"""
        tt=deref_t(tt); st=deref_t(self.T(self.strip(n)))
        inner=self.strip(n)
        c=self.val(n)
        nt=deref_t(self.T(n))
        if tt[0]=='int' and nt[0]=='int' and nt!=tt: return self.cast(c,nt[1],tt[1])
        return c
    # ------------------------------------------------------------ calls
    def args(self, e, args):
        out=[]
        for p,t,a in zip(e['params'],e['ptypes'],args):
            if t[0]=='ptr' and t[1][0]=='int':
                base,off,et=self.mptr(a)
                if off!='0u64': ov=self.tmp('off'); self.hoist('let %s: u64 = %s;'%(ov,off)); off=ov
                out+=[base,off]
            else: out.append(self.arg(t,a))
        return out
    def arg(self,t,a):
        if t[0]=='ref' and not t[2] and not self.rvalue_ref(t):
            p=self.place(a)
            m=re.fullmatch(r'\(\*(\w+)\)',p)
            if m: return m.group(1)
            # a &mut parameter variable passed on
            return '&mut '+p
        if t[0]=='ref':
            dt=deref_t(t)
            if self.is_copy(dt): return self.val(a)
            s=self.strip(a)
            c=self.ex(a)
            v=self.vars.get(self.rid(s)) if s.get('kind')=='DeclRefExpr' else None
            if v and v['mode'] in ('ref','mutref'): return v['rust']
            m=re.fullmatch(r'\(\*(\w+)\)',c)
            if m: return m.group(1)
            return '&'+c
        return self.val(a)
    def rvalue_ref(self,t): return False
    def dropped_field(self,n): return False
    def x_CallExpr(self,n,want,lv):
        ks=kids(n); kind,info,_=self.callee(ks[0]); args=ks[1:]
        if kind=='std': return self.std_call(info,args,n,want)
        return self.call(info,None,args,n)
    def x_CXXMemberCallExpr(self,n,want,lv):
        ks=kids(n); kind,info,obj=self.callee(ks[0]); args=[a for a in ks[1:] if a.get('kind')!='CXXDefaultArgExpr']
        if kind=='method': return self.call(info,obj,args,n)
        if kind=='stdm': return self.std_method(info,obj,args,n,lv)
        raise Unsupported('member call')
    def call(self, e, obj, args, n):
        ov=self.X.ov.fns.get(e['key'])
        self.X.need(e['key'])
        short=e['name']
        k=self.calln.get(short,0); self.calln[short]=k+1
        # contracts bind callees; functions without a contract are inlined
        if ov is None and e['body'] is not None:
            return self.inline_call(e,obj,args,n)
        if ov is None: raise Unsupported('call of %s, which has neither a contract nor a body'%e['key'])
        self.calls.add(e['key'])
        av=[]
        if e['cls'] and not e['static'] and e['kind']!='FunctionDecl':
            av.append(self.this_arg(e,obj))
        av+=self.args(e,args)
        gp=[l.strip().rstrip(',') for s in ov['secs'] if s['name']=='ghost_params' for l in s['lines'] if l.strip()]
        if gp:
            ga=[s for s in self.sec('ghost_args') if s['arg'] in (short,'%s#%d'%(short,k))]
            if not ga: raise Unsupported('call of %s needs ghost arguments that the contract of this function does not supply'%short)
            self.used_hooks.add(id(ga[0]))
            gl=[l.strip().rstrip(',') for l in self.ovtext(ga[0]['lines']) if l.strip()]
            av+=['Ghost(%s)'%x for x in gl]
        self.marks.append('%s#%d'%(short,k))
        code='%s(%s)'%(fn_rust(e['key']),', '.join(av))
        if self.bv:
            v='c%d'%self.cn; self.cn+=1
            self.hoist('let %s = %s;'%(v,code))
            for f in [s for s in ov['secs'] if s['name']=='bvfact']:
                for l in f['lines']:
                    try: self.facts.append(self.fmt_fact(l,v,args,obj))
                    except KeyError: pass
            self.symof[n['id']]=v
            return v
        return code
    def fmt_fact(self,l,v,args,obj):
        r=l.strip().replace('{r}',v)
        for i,a in enumerate(args):
            if '{%d}'%i in r: r=r.replace('{%d}'%i,self.sym(a))
        if '{this.n}' in r:
            so=self.strip(obj)
            if so.get('kind')!='CXXThisExpr': raise KeyError('this')
            r=r.replace('{this.n}','this.m_num_leaves')
        return r
    def this_arg(self,e,obj):
        so=self.strip(obj)
        if so.get('kind')=='CXXThisExpr':
            return self.X.this_for(self,e)
        c=self.ex(obj,lv=not e['const'])
        m=re.fullmatch(r'\(\*(\w+)\)',c)
        if m: return m.group(1)
        v=self.vars.get(self.rid(so)) if so.get('kind')=='DeclRefExpr' else None
        if v and v['mode'] in ('ref','mutref'): return v['rust']
        return ('&' if e['const'] else '&mut ')+c
    me='me'
    def inline_obj(self,e,so,obj): raise Unsupported('inlining a method on another object')
    def inline_call(self,e,obj,args,n):
        if e['key'] in self.inline_stack or len(self.inline_stack)>6: raise Unsupported('recursive helper '+e['key'])
        if self.pre is not None and self.pre_cond: pass
        self.inl+=1
        save=(self.inline_stack,self.src,self.e)
        binds=[]
        if e['cls'] and not e['static'] and e['kind']!='FunctionDecl':
            so=self.strip(obj)
            newme=self.me if so.get('kind')=='CXXThisExpr' else self.inline_obj(e,so,obj)
        else: newme=self.me
        oldme=self.me
        for p,t,a in zip(e['params'],e['ptypes'],args):
            if t[0]=='ref' and not (t[2] and self.is_copy(t)):
                binds.append((p,t,self.ex(a,lv=not t[2]),'alias'))
            else:
                binds.append((p,t,self.conv(a,t),'own'))
        self.inline_stack=self.inline_stack+[e['key']]; self.src=e['src']; self.e=dict(e,cls=e['cls']); self.me=newme
        void=e['qt'].startswith('void')
        buf=[]; savelines=self.lines; savepre=self.pre
        self.lines=[]; self.pre=None
        for p,t,c,mode in binds:
            if mode=='alias':
                self.vars[p['id']]=dict(rust=c,type=t,mode='alias')
            else:
                r=self.fresh_name(p['name']); self.vars[p['id']]=dict(rust=r,type=t,mode='own')
                self.w('let mut %s = %s;'%(r,c))
                if self.bv: self.env[p['id']]=self.sym(a) if False else r
        if self.bv: raise Unsupported('helper call in bit-vector function')
        rv=None
        if void:
            if has_return(e['body']): self.inline_void_body(kids(e['body']))
            else: self.block(e['body'])
        else:
            rv=self.tmp('iv')
            rt=self.rettype(e)
            self.inline_body(kids(e['body']),rv,rt)
        ls=self.lines; self.lines=savelines; self.pre=savepre; self.me=oldme
        self.inline_stack,self.src,self.e=save
        if self.pre is None: self.lines+= ([('    '*self.ind+'let mut %s: %s;'%(rv,rty(rt)),None)] if rv else [])+ls
        else: self.pre+= (['let mut %s: %s;'%(rv,rty(rt))] if rv else [])+[l for l,_ in ls]
        return rv or '()'
    def inline_body(self,stmts,rv,rt):
        """if/else-structured body that returns on every path -> assignments to rv"""
        for i,s in enumerate(stmts):
            k=s.get('kind')
            if k=='ReturnStmt':
                self.w('%s = %s;'%(rv,self.with_pre(lambda: self.conv_ret(kids(s)[0],rt)))); return
            if k=='IfStmt' and has_return(s):
                ks=kids(s); c=self.with_pre(lambda: self.ex(ks[0]))
                self.w('if %s {'%c); self.ind+=1
                self.inline_body(blk(ks[1])+([] if always_returns(ks[1]) else stmts[i+1:]),rv,rt); self.ind-=1
                self.w('} else {'); self.ind+=1
                els=blk(ks[2]) if len(ks)>2 else []
                self.inline_body(els+([] if (len(ks)>2 and always_returns(ks[2])) else stmts[i+1:]),rv,rt); self.ind-=1
                self.w('}'); return
            if has_return(s): raise Unsupported('return inside a loop of an inlined helper')
            self.stmt(s)
        raise Unsupported('inlined helper may fall off its end')
    def inline_void_body(self,stmts):
        for i,s in enumerate(stmts):
            k=s.get('kind')
            if k=='ReturnStmt': return
            if k=='IfStmt' and has_return(s):
                ks=kids(s); c=self.with_pre(lambda: self.ex(ks[0]))
                self.w('if %s {'%c); self.ind+=1
                self.inline_void_body(blk(ks[1])+([] if always_returns(ks[1]) else stmts[i+1:])); self.ind-=1
                self.w('} else {'); self.ind+=1
                els=blk(ks[2]) if len(ks)>2 else []
                self.inline_void_body(els+([] if (len(ks)>2 and always_returns(ks[2])) else stmts[i+1:])); self.ind-=1
                self.w('}'); return
            if has_return(s): raise Unsupported('return inside a loop of an inlined helper')
            self.stmt(s)
    pre_cond=False
    marks=[]
    def with_pre(self,f):
        """evaluate f with hoisting straight into the output"""
        save=self.pre; self.pre=None
        r=f(); self.pre=save
        return r
    def rettype(self,e):
        q=e['qt']; d=0
        # "T (args) const"
        for i,ch in enumerate(q):
            if ch=='<': d+=1
            elif ch=='>': d-=1
            elif ch=='(' and d==0: return self.X.normt(parse_type(q[:i].strip()))
        raise Unsupported('return type '+q)
    def fwd_fits(self,t,u): return t==u or (t[0]=='int' and u[0]=='int')
    def fwd_args(self,e,args):
        """arguments that pass through a forwarding template: conversions happen at the forwarded call"""
        vs=list(self.args(e,args)); off=1 if e['ptypes'] and deref_t(e['ptypes'][0])[0]=='ptr' else 0   # a pointer to the accumulator is dropped
        for i,a in enumerate(args[off:]):
            t=deref_t(self.X.normt(e['ptypes'][i+off])); u=deref_t(self.X.normt(self.T(self.strip(a))))
            if t[0]=='int' and u[0]=='int' and t!=u: vs[i]=self.cast(vs[i],u[1],t[1])
        return vs
    def self_ret(self,e):
        """a method that returns *this by reference"""
        if not e['cls'] or e['kind']!='CXXMethodDecl': return False
        q=e['qt']; h=q[:q.index('(')].strip()
        if not h.endswith('&'): return False
        t=parse_type(h)
        return t[0]=='ref' and t[1][0]=='cls' and self.X.norm(t[1][1])==e['cls']
    def conv_ret(self,n,rt):
        s=self.strip(n)
        rt=deref_t(rt)
        if s.get('kind')=='DeclRefExpr' and not self.is_copy(rt) and not self.inline_stack:
            v=self.vars.get(self.rid(s))
            if v and v['mode']=='own' and deref_t(v['type'])[0]==rt[0]: return v['rust']
        if rt[0]=='tuple': return self.val(n,rt)
        return self.val(n)
    # ------------------------------------------------------------ std
    def std_call(self,nm,args,n,want):
        if nm in ('make_pair','make_tuple'):
            t=want if want and want[0]=='tuple' else None
            out=[]
            for i,a in enumerate(args):
                s=self.strip(a)
                if t: c=self.move_or(a,t[1][i])
                else: c=self.move_or(a,deref_t(self.T(s)))
                out.append(c)
            return '(%s)'%', '.join(out)
        if nm=='move' or nm=='forward': return self.ex(args[0])
        if nm in ('max','min'):
            return '%s_u64(%s, %s)'%(nm,self.ex(args[0]),self.ex(args[1]))
        if nm=='get' and len(args)==1 and deref_t(self.T(self.strip(args[0])))[0]=='tuple':
            m=re.search(r'tuple_element(?:_t)?<(\d+)',self.strip(kids(n)[0]).get('type',{}).get('qualType','')) 
            if not m: raise Unsupported('std::get without an index')
            a=self.strip(args[0]); b=self.ex(args[0])
            if a.get('kind') in('CallExpr','CXXMemberCallExpr'): tv=self.tmp(); self.hoist('let %s = %s;'%(tv,b)); b=tv
            return '%s.%s'%(b,m.group(1))
        if nm=='sort' and len(args)==2:
            v=self.range_vec(args[0],args[1]); self.hoist('vsort(&mut %s);'%v); return '()'
        if nm=='__assert_fail': self.hoist('%s();'%self.abort_fn()); return '()'
        return self.std_call_more(nm,args,n,want)
    def std_call_more(self,nm,args,n,want):
        if nm=='memcpy' and len(args)==3: return self.memcpy(args)
        if nm in ('__bswap_16','__bswap_32','__bswap_64'): return 'bswap_u%s(%s)'%(nm[8:],self.ex(args[0]))
        raise Unsupported('call of std '+str(nm))
    in_return=False
    def move_or(self,a,t):
        s=self.strip(a)
        if self.in_return and s.get('kind')=='DeclRefExpr' and not self.inline_stack:
            v=self.vars.get(self.rid(s))
            if v and v['mode']=='own' and not self.is_copy(deref_t(v['type'])): return v['rust']
        return self.conv(a,t)
    def range_vec(self,a,b):
        """[v.begin(), v.end()) -> v"""
        def who(x,names):
            s=self.strip(x)
            while s.get('kind') in ('CXXConstructExpr',) and len(kids(s))==1: s=self.strip(kids(s)[0])
            if s.get('kind')!='CXXMemberCallExpr': raise Unsupported('iterator range')
            kind,nm,obj=self.callee(kids(s)[0])
            if kind!='stdm' or nm not in names: raise Unsupported('iterator range')
            return self.place(obj)
        va=who(a,('begin','cbegin')); vb=who(b,('end','cend'))
        if va!=vb: raise Unsupported('iterator range over two vectors')
        return va
    def std_method(self,nm,obj,args,n,lv):
        so=self.strip(obj); ot=deref_t(self.T(so))
        if ot[0]=='vec':
            et=ot[1]
            if nm=='size': return '(%s.len() as u64)'%self.ex(obj)
            if nm=='empty': return '(%s.len() == 0)'%self.ex(obj)
            if nm in ('begin','cbegin'): return 'it_begin(%s)'%self.vref(obj)
            if nm in ('end','cend'): return 'it_end(%s)'%self.vref(obj)
            if nm in ('rbegin','crbegin'): return 'rit_begin(%s)'%self.vref(obj)
            if nm in ('rend','crend'): return 'rit_end(%s)'%self.vref(obj)
            if nm=='at' : return '%s[(%s) as usize]'%(self.ex(obj,lv=lv),self.idx(args[0]))
            if nm=='back':
                if lv or not self.is_copy(et): return '%s[last_ix(&%s)]'%(self.ex(obj,lv=lv),self.ex(obj))
                return '%s[last_ix(%s)]'%(self.ex(obj),self.vref(obj))
            if nm=='front': return '%s[0]'%self.ex(obj,lv=lv)
            if nm in ('push_back','emplace_back'):
                if nm=='emplace_back' and (len(args)!=1 or deref_t(self.T(self.strip(args[0])))!=et):
                    if et[0]=='tuple' and len(args)==len(et[1]): v='(%s)'%', '.join(self.conv(a,t) for a,t in zip(args,et[1]))
                    elif not args: self.hoist('%s.push(%s);'%(self.ex(obj,lv=True),self.default(self.X.normt(et)))); return '()'
                    else: raise Unsupported('emplace_back')
                else: v=self.conv(args[0],et)
                v=self.let(v,args[0])
                self.hoist('%s.push(%s);'%(self.ex(obj,lv=True),v)); return '()'
            if nm=='pop_back': self.hoist('vpop(&mut %s);'%self.ex(obj,lv=True)); return '()'
            if nm=='clear': self.hoist('vclear(&mut %s);'%self.ex(obj,lv=True)); return '()'
            if nm in ('reserve','shrink_to_fit'): return '()'
            if nm=='resize' and len(args)==1: self.hoist('vresize(&mut %s, %s);'%(self.ex(obj,lv=True),self.ex(args[0]))); return '()'
            if nm=='insert': return self.vinsert(obj,args,et)
            raise Unsupported('vector::'+nm)
        if ot[0]=='arr':
            if nm=='at': return '%s[(%s) as usize]'%(self.ex(obj,lv=lv),self.idx(args[0]))
            if nm=='size': return '%du64'%ot[2]
            if nm=='fill': self.hoist('%s = [%s; %d];'%(self.ex(obj,lv=True),self.ex(args[0]),ot[2])); return '()'
        if ot[0]=='bitset' and nm=='count': return 'popcount(%s)'%self.ex(obj)
        if ot[0]=='opt':
            if nm=='has_value': return '%s.is_some()'%self.ex(obj)
            if nm=='value': return 'opt_value(%s)'%self.ex(obj)
        return self.std_method_more(nm,obj,args,n,lv,ot)
    def std_method_more(self,nm,obj,args,n,lv,ot): raise Unsupported('%s of %s'%(nm,ot[0]))
    def let(self,v,a):
        if re.fullmatch(r'[\w.]+',v): return v
        t=self.tmp(); self.hoist('let %s = %s;'%(t,v)); return t
    def idx(self,a): return self.cast(self.ex(a),self.intt(a),'u64')
    def vref(self,obj):
        so=self.strip(obj)
        v=self.vars.get(self.rid(so)) if so.get('kind')=='DeclRefExpr' else None
        if v and v['mode'] in ('ref','mutref'): return v['rust'] if v['mode']=='ref' else '&*'+v['rust']
        c=self.ex(obj)
        if re.match(r'\w+\(',c) and so.get('kind') in('CallExpr','CXXMemberCallExpr') and not self.bv: c=self.let(c,None)
        return '&'+c
    def vinsert(self,obj,args,et):
        # only insertion at end()
        s=self.strip(args[0])
        while s.get('kind')=='CXXConstructExpr' and len(kids(s))==1: s=self.strip(kids(s)[0])
        if s.get('kind')!='CXXMemberCallExpr': raise Unsupported('insert position')
        kind,nm,o2=self.callee(kids(s)[0])
        if kind!='stdm' or nm not in ('end','cend') or self.ex(o2)!=self.ex(obj): raise Unsupported('insert not at end')
        v=self.ex(obj,lv=True)
        if len(args)==3:
            a=self.ex(args[1]); b=self.ex(args[2]); self.hoist('vappend(&mut %s, %s, %s);'%(v,a,b)); return '()'
        if len(args)==2:
            s=self.strip(args[1])
            if s.get('kind')=='CXXStdInitializerListExpr':
                ini=self.strip(kids(s)[0])
                if ini.get('kind')!='InitListExpr': raise Unsupported('initializer list')
                vs=[self.let(self.conv(x,et),x) for x in kids(ini)]
                for x in vs: self.hoist('%s.push(%s);'%(v,x))
                return '()'
            x=self.let(self.conv(args[1],et),args[1]); self.hoist('%s.push(%s);'%(v,x)); return '()'
        raise Unsupported('insert')
    def x_CXXOperatorCallExpr(self,n,want,lv):
        lc=self.lambda_call(n)
        if lc is not None: return lc
        ks=kids(n); op=self.strip(ks[0]).get('referencedDecl',{}).get('name','')[8:]; args=ks[1:]
        rd=self.strip(ks[0]).get('referencedDecl',{})
        d=self.P.decls.get((self.src,rd.get('id')))
        a0=self.strip(args[0]); t0=deref_t(self.T(a0))
        if op=='=':
            if t0[0]=='tuple' or a0.get('kind')=='CallExpr':
                if a0.get('kind')=='CallExpr' and self.strip(kids(a0)[0]).get('referencedDecl',{}).get('name')=='tie':
                    tv=self.tmp(); targs=kids(a0)[1:]
                    self.hoist('let %s = %s;'%(tv,self.ex(args[1])))
                    st=deref_t(self.T(self.strip(args[1])))
                    for i,a in enumerate(targs):
                        sa=self.strip(a)
                        if sa.get('referencedDecl',{}).get('name')=='ignore': continue
                        f='%s.%d'%(tv,i)
                        ft=deref_t(st[1][i]); tt=deref_t(self.T(sa))
                        if ft!=tt and ft[0]=='int': f=self.cast(f,ft[1],tt[1])
                        self.hoist('%s = %s;'%(self.place(a),f))
                    return '()'
            if d and d['kind']=='fn' and d['entry'].get('body') is not None and not(d['entry']['node'].get('isImplicit') or d['entry']['node'].get('explicitlyDefaulted')): raise Unsupported('user operator=')
            if self.dropped_field(args[0]): return '()'
            v=self.val(args[1],t0); p=self.place(args[0])
            self.hoist('%s = %s;'%(p,v)); return p
        if op=='[]':
            if t0[0] in ('vec','arr'): return '%s[(%s) as usize]'%(self.ex(args[0],lv=lv),self.idx(args[1]))
            if t0[0]=='it': return 'it_at(%s, %s)'%(self.itref(args[0]),self.ex(args[1]))
            return self.op_more(op,args,n,lv,t0)
        if t0[0] in ('it','rit'):
            pf='' if t0[0]=='it' else 'r'
            if op=='*' and len(args)==1: return '%sit_at(%s, 0)'%(pf,self.itref(args[0]))
            if op in ('<','<=','>','>=','==','!='):
                nm={'<':'lt','<=':'le','>':'gt','>=':'ge','==':'eq','!=':'ne'}[op]
                return '%sit_%s(%s, %s)'%(pf,nm,self.itref(args[0]),self.itref(args[1]))
            if op=='-':
                if deref_t(self.T(self.strip(args[1])))[0]==t0[0]: return '%sit_diff(%s, %s)'%(pf,self.itref(args[0]),self.itref(args[1]))
                return '%sit_add(%s, -(%s))'%(pf,self.itref(args[0]),self.ex(args[1]))
            if op=='+': return '%sit_add(%s, %s)'%(pf,self.itref(args[0]),self.ex(args[1]))
            if op in ('+=','-='):
                p=self.place(args[0]); a=self.ex(args[1]); a='-(%s)'%a if op=='-=' else a
                self.hoist('%s = %sit_add(&%s, %s);'%(p,pf,p,a)); return p
            if op in ('++','--'):
                p=self.place(args[0])
                upd='%s = %sit_add(&%s, %s);'%(p,pf,p,'1' if op=='++' else '-1')
                if len(args)==2:
                    t=self.tmp(); self.hoist('let %s = %sit_add(&%s, 0);'%(t,pf,p)); self.hoist(upd); return t
                self.hoist(upd); return p
        if op in ('==','!='):
            if t0[0]=='arr':
                r='arr_eq(&%s, &%s)'%(self.ex(args[0]),self.ex(args[1]))
                return r if op=='==' else '(!%s)'%r
            if t0[0]=='vec':
                r='vec_eq(&%s, &%s)'%(self.ex(args[0]),self.ex(args[1]))
                return r if op=='==' else '(!%s)'%r
        return self.op_more(op,args,n,lv,t0)
    def itref(self,a):
        c=self.ex(a)
        return '&'+c
    def op_more(self,op,args,n,lv,t0): raise Unsupported('operator %s on %s'%(op,t0[0]))
    # ------------------------------------------------------------ symbolic (bit-vector) view
    def sym(self,n):
        k=n.get('kind')
        if k in STRIP_KINDS: return self.sym(kids(n)[0])
        if k in ('ImplicitCastExpr','CXXStaticCastExpr','CXXFunctionalCastExpr','CStyleCastExpr'):
            ck=n.get('castKind'); s=kids(n)[0]
            if ck in STRIP_CASTS: return self.sym(s)
            if ck=='IntegralCast':
                if deref_t(self.T(s))[0]=='bool': return '(if %s {1%s} else {0%s})'%(self.sym(s),self.intt(n),self.intt(n))
                v=self.sym(s); f,t=self.intt(s),self.intt(n)
                m=re.fullmatch(r'(\d+)'+f,v)
                if m and int(m.group(1))<(1<<31): return m.group(1)+t
                return self.symcast(v,f,t)
            if ck=='IntegralToBoolean': return '(%s != 0)'%self.sym(s)
            raise Unsupported('sym cast '+ck)
        if k=='IntegerLiteral': return '%s%s'%(n['value'],self.intt(n))
        if k=='CXXBoolLiteralExpr': return 'true' if n['value'] else 'false'
        if k=='DeclRefExpr':
            i=self.rid(n)
            if i in self.env: return self.env[i]
            raise Unsupported('sym of '+str(n.get('referencedDecl',{}).get('name')))
        if k=='MemberExpr' and self.strip(kids(n)[0]).get('kind')=='CXXThisExpr': return 'this.'+n['name']
        if k=='UnaryOperator':
            op=n['opcode']; s=self.sym(kids(n)[0])
            if op in ('!','~'): return '(!%s)'%s
        if k=='BinaryOperator':
            op=n['opcode']; a,b=[self.sym(x) for x in kids(n)]
            if op in ('+','-','*'): return '%s(%s, %s)'%(BVOP[op],a,b)
            if op in ('<<','>>'):
                tb=self.intt(kids(n)[1])
                if tb!='u64': b='(%s as u64)'%b if not re.fullmatch(r'\d+\w\d\d',b) else re.sub(r'i32|u32|u8','u64',b)
                return '(%s %s %s)'%(a,op,b)
            if op=='==' : return '(%s == %s)'%(a,b)
            return '(%s %s %s)'%(a,op,b)
        if k=='ConditionalOperator':
            c,a,b=[self.sym(x) for x in kids(n)]; return '(if %s {%s} else {%s})'%(c,a,b)
        if k in ('CallExpr','CXXMemberCallExpr') and n['id'] in self.symof: return self.symof[n['id']]
        raise Unsupported('sym of '+k)
    # ------------------------------------------------------------ statements
    def flush_marks(self, when):
        pass
    def block(self,n):
        top=n.get('id') not in self.scope_ids
        self.scope_ids.add(n.get('id'))
        for s in blk(n): self.stmt(s)
        if top: self.scope_ids.discard(n.get('id'))
    def stmt(self,n):
        k=n.get('kind')
        savem=self.marks; self.marks=[]
        pos=len(self.lines)
        m=getattr(self,'s_'+k,None)
        top=n.get('id') not in self.scope_ids
        self.scope_ids.add(n.get('id'))
        try:
            if m: m(n)
            else: self.stmt_expr(n)
        finally:
            if top: self.scope_ids.discard(n.get('id'))
        # before / after hooks keyed on calls made by this statement (not for compound statements)
        if k not in ('IfStmt','ForStmt','WhileStmt','CXXForRangeStmt','CompoundStmt','DoStmt') and not self.inline_stack:
            for mk in self.marks:
                for s in self.sec('before',mk):
                    ls=self.lines[pos:]; self.lines=self.lines[:pos]; self.emit_proof(s,('hint',mk)); pos=len(self.lines); self.lines+=ls; self.used_hooks.add(id(s))
                if k!='ReturnStmt':
                    for s in self.sec('after',mk): self.emit_proof(s,('hint',mk)); self.used_hooks.add(id(s))
            self.marks=savem
        else: self.marks=savem
    def stmt_expr(self,n):
        s=n
        while s.get('kind') in STRIP_KINDS: s=kids(s)[0]
        assert self.pre is None
        if self.bv and s.get('kind')=='BinaryOperator' and s.get('opcode')=='=':
            a=self.strip(kids(s)[0]); c=self.ex(s); 
            if a.get('kind')!='DeclRefExpr': raise Unsupported('bv assignment')
            self.env[self.rid(a)]=self.sym(kids(s)[1]); return
        if self.bv and s.get('kind') in ('CompoundAssignOperator',) : raise Unsupported('bv compound')
        c=self.ex(s)
        if c in ('()',) or re.fullmatch(r'[\w.]+|\(\*\w+\)|.*\]',c) and not c.endswith(')'): return
        if s.get('kind') in ('CallExpr','CXXMemberCallExpr'):
            t=deref_t(self.T(s)); self.w(('%s;' if t[0]=='void' else 'let _ = %s;')%c)
        elif s.get('kind') in ('UnaryOperator','CompoundAssignOperator','BinaryOperator','CXXOperatorCallExpr','ConditionalOperator'):
            if s.get('kind')=='BinaryOperator' and s.get('opcode') not in ('=',','): self.w('let _ = %s;'%c)
        else: self.w('let _ = %s;'%c)
    def s_NullStmt(self,n): pass
    def s_CompoundStmt(self,n):
        self.w('{'); self.ind+=1; self.block(n); self.ind-=1; self.w('}')
    def s_DeclStmt(self,n):
        for d in kids(n):
            if d.get('kind')=='VarDecl': self.var(d)
            elif d.get('kind')=='DecompositionDecl': self.decomp(d)
            elif d.get('kind') in ('TypedefDecl','UsingDecl','TypeAliasDecl','StaticAssertDecl'): pass
            else: raise Unsupported('declaration '+d.get('kind'))
    def decomp(self,d):
        ini=[c for c in kids(d) if c.get('kind')!='BindingDecl'][0]; bs=[c for c in kids(d) if c.get('kind')=='BindingDecl']
        t=deref_t(self.T(d)); v=self.tmp('sb'); 
        if t[0]!='tuple': raise Unsupported('structured binding')
        isref=self.T(d)[0]=='ref'
        if isref and self.strip(ini).get('valueCategory')=='lvalue': base=self.place(ini)
        else: self.w('let mut %s = %s;'%(v,self.val(ini))); base=v
        for i,b in enumerate(bs):
            self.names.append((b.get('name'),tname(t[1][i]))); self.vars[b['id']]=dict(rust='%s.%d'%(base,i),type=t[1][i],mode='alias')
            self.dvars=getattr(self,'dvars',{}); self.dvars[b.get('name')]='%s.%d'%(base,i)
    # ---- local lambdas: the body is inlined at each call; what is captured by value is copied where the lambda is made
    def lambda_of(self,n):
        while n.get('kind') in STRIP_KINDS or (n.get('kind') in('CXXConstructExpr','ImplicitCastExpr') and len(kids(n))==1): n=kids(n)[0]
        return n if n.get('kind')=='LambdaExpr' else None
    def lambda_var(self,d,n):
        if self.bv: raise Unsupported('lambda')
        rec=kids(n)[0]; op=[c for c in kids(rec) if c.get('kind')=='CXXMethodDecl' and c.get('name')=='operator()']
        flds=[c for c in kids(rec) if c.get('kind')=='FieldDecl']; caps=kids(n)[1:-1]
        if len(op)!=1 or len(flds)!=len(caps): raise Unsupported('lambda')
        op=op[0]; body=kids(n)[-1]
        if body.get('kind')!='CompoundStmt' or not op.get('type',{}).get('qualType','').rstrip().endswith(('const','noexcept')) and '->' not in op['type']['qualType']: raise Unsupported('mutable lambda')
        copies={}
        for f,c in zip(flds,caps):
            ft=ntype(f)
            if ft[0]=='ref' or c.get('kind')=='CXXThisExpr': continue
            s=self.strip(c)
            while s.get('kind')=='CXXConstructExpr' and len(kids(s))==1: s=self.strip(kids(s)[0])
            if s.get('kind')!='DeclRefExpr': raise Unsupported('lambda capture')
            r=self.fresh_name('cap_'+s['referencedDecl'].get('name','x')); self.w('let %s = %s;'%(r,self.val(s)))
            copies[self.rid(s)]=dict(rust=r,type=self.vars[self.rid(s)]['type'] if self.rid(s) in self.vars else self.T(s),mode='own')
        ps=[p for p in kids(op) if p.get('kind')=='ParmVarDecl']
        self.lambdas=dict(getattr(self,'lambdas',{}))
        self.lambdas[d['id']]=(dict(self.e,key='lambda '+str(d.get('name')),params=ps,ptypes=[self.X.normt(ntype(p)) for p in ps],body=body,qt=op['type'].get('desugaredQualType') or op['type']['qualType'],static=True,kind='CXXMethodDecl'),copies)
    def lambda_call(self,n):
        ks=kids(n)
        if len(ks)<2: return None
        rd=self.strip(ks[0]).get('referencedDecl',{})
        if rd.get('name')!='operator()': return None
        s=self.strip(ks[1])
        la=getattr(self,'lambdas',{}).get(self.rid(s)) if s.get('kind')=='DeclRefExpr' else None
        if la is None: raise Unsupported('call of a function object')
        e,copies=la; save={k:self.vars.get(k) for k in copies}
        self.vars.update(copies)
        r=self.inline_call(e,None,ks[2:],n)
        for k,v in save.items():
            if v is None: self.vars.pop(k,None)
            else: self.vars[k]=v
        return r
    def var(self,d):
        t=self.X.normt(self.T(d)); nm=d.get('name')
        ini=kids(d)[0] if kids(d) else None
        if ini is not None and self.lambda_of(ini) is not None: self.lambda_var(d,self.lambda_of(ini)); return
        if d.get('storageClass')=='static' and not (d.get('type',{}).get('qualType','').startswith('const') or d.get('constexpr')): raise Unsupported('static local')
        if not self.inline_stack: self.names.append((nm,tname(t)))
        if t[0]=='ref':
            if ini is None: raise Unsupported('reference without initializer')
            s=self.strip(ini)
            if s.get('valueCategory')!='lvalue':
                c=self.val(ini); r=self.bind(d,t); self.w('let mut %s = %s;'%(r,c)); return
            c=self.freeze(self.ex(ini,lv=not t[2]))
            if t[2] and self.is_copy(deref_t(t)) : self.vars[d['id']]=dict(rust=c,type=t,mode='alias'); return
            self.vars[d['id']]=dict(rust=c,type=t,mode='alias'); return
        if t[0]=='ptr' and t[1][0]=='int':
            if ini is None: raise Unsupported('pointer without initializer')
            kd,b0,off,et=self.pan(ini,True)
            if kd!='mem': raise Unsupported('local pointer')
            r=self.fresh_name(nm); self.w('let mut %s_i: u64 = %s;'%(r,off))
            bare=re.sub(r'^&mut |\.as_mut_slice\(\)$','',b0)
            self.vars[d['id']]=dict(rust=r,type=t,mode='mptr',off=r+'_i',base=(lambda m,b0=b0,bare=bare: bare if m is None else (b0 if m else (bare+'.as_slice()' if b0.endswith('.as_mut_slice()') else 'arr_slice(&%s)'%bare if b0.startswith('&mut') else bare)))); return
        if ini is None or (ini.get('kind')=='CXXConstructExpr' and not kids(ini) and t[0] not in ('vec','cls','map','opt')):
            dv=self.default(t)
            if self.bv: self.env[d['id']]=None
        else:
            dv=self.conv(ini,t)
            if t[0]=='tuple': pass
            if self.bv: self.env[d['id']]=self.sym(ini)
        r=self.bind(d,t)
        self.w('let mut %s: %s = %s;'%(r,rty(t),dv))
        m=re.fullmatch(r'\w+ \{ (\w+): (t_\d+) \}',dv)
        if m: self.w('proof { assert(%s.%s == %s); }'%(r,m.group(1),m.group(2)))
    def freeze(self,c):
        """freeze index expressions of an aliased place"""
        m=re.match(r'^(.*)\[\((.*)\) as usize\]$',c)
        if m and not re.fullmatch(r'\d+u64',m.group(2)):
            base=self.freeze(m.group(1)); t=self.tmp('fx'); self.w('let %s: u64 = %s;'%(t,m.group(2))); return '%s[(%s) as usize]'%(base,t)
        return c
    def default(self,t):
        if t[0]=='int': return 'uninit_%s()'%t[1]
        if t[0]=='bool': return 'uninit_bool()'
        if t[0]=='arr' and deref_t(t[1])==('int','u8'): return 'uninit_arr::<%d>()'%t[2]
        if t[0]=='arr' and deref_t(t[1])==('int','u64'): return 'uninit_arr64::<%d>()'%t[2]
        if t[0]=='vec': return 'Vec::<%s>::new()'%rty(t[1])
        if t[0]=='tuple': return '(%s)'%', '.join(self.default(x) for x in t[1])
        raise Unsupported('default value of '+str(t))
    def cond(self,n):
        self.pre=[]; c=self.ex(n); p=self.pre; self.pre=None
        return p,c
    def s_IfStmt(self,n):
        ks=kids(n)
        if (n.get('hasInit') or n.get('hasVar')) and not self.bv:
            # if (init; cond) / if (T x = ...): a block with the declaration, then the if
            k=int(bool(n.get('hasInit')))+int(bool(n.get('hasVar')))
            self.w('{'); self.ind+=1
            for c in ks[:k]: self.stmt(c)
            self.s_IfStmt(dict(n,hasInit=False,hasVar=False,inner=ks[k:]))
            self.ind-=1; self.w('}'); return
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with init')
        c=self.with_pre(lambda: self.ex(ks[0]))
        if self.bv:
            sc=self.sym(ks[0])
            self.w('if %s {'%c); self.ind+=1
            fl=len(self.facts)
            self.path.append(sc); env0=dict(self.env); self.block(ks[1]); self.path.pop(); self.ind-=1
            if not always_returns(ks[1]) : raise Unsupported('bv: branch without return')
            self.env=env0
            if len(ks)>2: raise Unsupported('bv: else')
            self.w('}'); self.path.append('!%s'%sc); return
        if not self.inline_stack:
            cm=list(self.marks); aft=[]
            for mk in cm:
                for h in self.sec('before',mk): self.emit_proof(h,('hint',mk)); self.used_hooks.add(id(h))
                aft+=[(h,mk) for h in self.sec('after',mk)]
            if aft:
                v=self.tmp('cond'); self.w('let %s: bool = %s;'%(v,c)); c=v
                for h,mk in aft: self.emit_proof(h,('hint',mk)); self.used_hooks.add(id(h))
            self.marks=[]
        self.w('if %s {'%c); self.ind+=1; self.block(ks[1]); self.ind-=1
        if len(ks)>2:
            self.w('} else {'); self.ind+=1; self.block(ks[2]); self.ind-=1
        self.w('}')
    def s_ReturnStmt(self,n):
        if self.inline_stack: raise Unsupported('return in inlined helper')
        ks=kids(n); self.retn+=1
        if ks and self.self_ret(self.e):
            x=self.strip(ks[0])
            if not (x.get('kind')=='UnaryOperator' and x['opcode']=='*' and self.strip(kids(x)[0]).get('kind')=='CXXThisExpr'): raise Unsupported('returned reference')
            ks=[]
        rets=[s for s in self.sec('ret') if s['arg'] in ('',str(self.retn-1))]
        if not ks:
            for s in rets: self.used_hooks.add(id(s)); self.emit_proof(s,('ret',''))
            self.probe('return %d'%(self.retn-1)); self.w('return;'); return
        self.in_return=True
        c=self.conv_ret(ks[0],self.rt); self.in_return=False
        if rets or self.bv:
            self.w('let ret_: %s = %s;'%(rty(self.rt),c))
            for s in rets: self.used_hooks.add(id(s)); self.emit_ret(s,n)
            if self.bv:
                sy=self.sym(ks[0])
                for s in self.sec('bv'):
                    self.used_hooks.add(id(s))
                    self.w('proof {'); self.ind+=1
                    facts=self.facts+self.path
                    for l in self.ovtext(s['lines']):
                        self.w(l.strip().replace('$SYM','(%s)'%sy).replace('$FACTS',', '.join(facts) if facts else 'true').replace('$ret','ret_'),('bv',''))
                    self.ind-=1; self.w('}')
            self.probe('return %d'%(self.retn-1)); self.w('return ret_;')
        else: self.probe('return %d'%(self.retn-1)); self.w('return %s;'%c)
    def probe(self,what):
        if self.X.probes is not None:
            self.X.probes.append((self.e['key'],what)); self.w('proof { assert(probe(%d)); }'%(len(self.X.probes)-1),('probe',what))
    def emit_ret(self,s,n):
        self.w('proof {'); self.ind+=1
        for l in self.ovtext(s['lines']): self.w(l.strip().replace('$ret','ret_'),('ret',''))
        self.ind-=1; self.w('}')
    # loops
    def loop_header(self,k,auto_inv,auto_dec):
        """emit invariant/decreases of loop k"""
        def lsec(name): return [s for s in self.sec(name) if s['arg']==str(k)]
        any_=False
        for name,kw in (('invariant_except_break','invariant_except_break'),('invariant','invariant'),('loop_ensures','ensures')):
            ls=[]
            for s in lsec(name): self.used_hooks.add(id(s)); ls+=[(l,('inv','loop %d'%k)) for l in self.ovtext(s['lines'])]
            if name=='invariant': ls=[(a+',',('autoinv','loop %d'%k)) for a in auto_inv]+ls
            if ls:
                self.w(kw); self.ind+=1
                for l,tg in ls: self.w(l.strip(),tg)
                self.ind-=1
        d=lsec('decreases')
        for s in d: self.used_hooks.add(id(s))
        dl=self.ovtext(d[0]['lines']) if d else ([auto_dec] if auto_dec else [])
        if dl: self.w('decreases '+' '.join(x.strip() for x in dl),('decreases','loop %d'%k))
        else: self.nodec=True
    nodec=False
    def hook(self,name,k):
        for s in self.sec(name):
            if s['arg']==str(k): self.used_hooks.add(id(s)); self.emit_proof(s,(name,'loop %d'%k))
    def gen_loop(self,cond,inc,body,auto_inv=(),auto_dec=None,bodypre=()):
        k=self.loopn; self.loopn+=1
        self.hook('loop_before',k)
        iso='#[verifier::loop_isolation(%s)]'%('true' if any(x['arg']==str(k) for x in self.sec('isolate')) else 'false')
        if cond is None: p,c=[],'true'
        else: p,c=self.cond(cond) if not isinstance(cond,str) else ([],cond)
        if self.pre is not None: raise Unsupported('loop in expression')
        self.w(iso)
        if p:
            self.w('loop')
        else: self.w('while %s'%c)
        self.ind+=1; self.loop_header(k,list(auto_inv),auto_dec); self.ind-=1
        self.w('{'); self.ind+=1
        if p:
            for l in p: self.w(l)
            self.w('if !(%s) { break; }'%c)
        for l in bodypre: self.w(l)
        self.hook('body_start',k); self.probe('loop %d'%k)
        self.loopstack.append((inc,k))
        if callable(body): body()
        else: self.block(body)
        self.hook('body_end',k)
        if inc: self.stmt_expr(inc)
        self.loopstack.pop()
        self.ind-=1; self.w('}')
        self.hook('loop_after',k)
    def s_WhileStmt(self,n):
        if self.bv: raise Unsupported('loop in bv function')
        ks=kids(n); self.gen_loop(ks[0],None,ks[1])
    def s_ForStmt(self,n):
        if self.bv: raise Unsupported('loop in bv function')
        ini,_,c,inc,body=(kids(n)+[{}]*5)[:5]
        self.w('{'); self.ind+=1
        if ini.get('kind'): self.stmt(ini)
        self.gen_loop(c if c.get('kind') else None, inc if inc.get('kind') else None, body)
        self.ind-=1; self.w('}')
    def s_CXXForRangeStmt(self,n):
        ks=kids(n)
        rng=None; var=None
        for d in ks:
            if d.get('kind')=='DeclStmt':
                v=kids(d)[0]
                if v.get('name','').startswith('__range'): rng=v
                elif v.get('name','').startswith(('__begin','__end')): pass
                else: var=v
        body=ks[-1]
        r=kids(rng)[0]; rs=self.strip(r); rt=deref_t(self.T(rs))
        if rt[0] not in ('vec','arr'): return self.range_more(n,rng,var,body)
        j=self.rangen; self.rangen+=1
        ix='ix%d'%j; nn='n_ix%d'%j
        if rs.get('valueCategory')=='lvalue': R=self.freeze(self.ex(r,lv=True))
        else: R='rng%d'%j; self.w('let %s = %s;'%(R,self.ex(r)))
        m=re.fullmatch(r'\(\*(\w+)\)',R)
        if m: R=m.group(1)
        if re.match(r'^\w+\(.*\)$',R): self.w('let rng%d = %s;'%(j,R)); R='rng%d'%j
        ln='%s.len()'%R if rt[0]=='vec' else str(rt[2])
        self.w('let mut %s: usize = 0;'%ix); self.w('let %s: usize = %s;'%(nn,ln))
        vt=self.X.normt(self.T(var))
        if not self.inline_stack: self.names.append((var.get('name'),tname(vt)))
        pre=[]
        isref=vt[0]=='ref'
        if isref:
            pre.append('let cur_%s: usize = %s;'%(ix,ix))
            self.vars[var['id']]=dict(rust='%s[cur_%s]'%(R,ix),type=vt,mode='alias')
        else:
            rr=self.bind(var,vt); et=rt[1]
            pre.append('let mut %s = %s;'%(rr,self.clone('%s[%s]'%(R,ix),et)))
        pre.append('%s = %s + 1;'%(ix,ix))
        ai=['%s <= %s'%(ix,nn)]+(['%s.len() == %s'%(re.sub(r' as usize\]',' as int]',R),nn)] if rt[0]=='vec' else ['%s == %d'%(nn,rt[2])])
        self.gen_loop('%s < %s'%(ix,nn),None,body,ai,'%s - %s'%(nn,ix),pre)
    def range_more(self,n,rng,var,body): raise Unsupported('range-for')
    def s_SwitchStmt(self,n):
        ks=kids(n)
        if len(ks)!=2 or ks[1].get('kind')!='CompoundStmt': raise Unsupported('switch')
        v=self.tmp('sw'); t=self.intt(ks[0]); self.w('let %s: %s = %s;'%(v,t,self.with_pre(lambda: self.ex(ks[0]))))
        segs=[]
        for c in kids(ks[1]):
            labs=[]
            while c.get('kind') in ('CaseStmt','DefaultStmt'):
                kk=kids(c)
                if c['kind']=='CaseStmt':
                    cv=kk[0].get('value') or const_eval(kk[0])
                    if len(kk)!=2 or cv is None: raise Unsupported('case label')
                    labs.append('%s == %s%s'%(v,cv,t)); c=kk[1]
                else: labs.append('default'); c=kk[0]
            if labs: segs.append((labs,[c]))
            elif not segs: raise Unsupported('switch')
            else: segs[-1][1].append(c)
        out=[]
        for i,(labs,body) in enumerate(segs):
            if body and body[-1].get('kind')=='BreakStmt': body=body[:-1]
            elif i<len(segs)-1 and not (body and always_returns(body[-1])): raise Unsupported('switch fall-through')
            if any(has_break(b) for b in body): raise Unsupported('break inside a switch')
            out.append((labs,body))
        d=[x for x in out if 'default' in x[0]]; out=[x for x in out if 'default' not in x[0]]
        for i,(labs,body) in enumerate(out):
            self.w('%sif %s {'%('} else ' if i else '',' || '.join(labs))); self.ind+=1
            for b in body: self.stmt(b)
            self.ind-=1
        if out: self.w('} else {')
        else: self.w('{')
        self.ind+=1
        for labs,body in d:
            for b in body: self.stmt(b)
        self.ind-=1; self.w('}')
    def s_ContinueStmt(self,n):
        inc,k=self.loopstack[-1]
        for s in self.sec('body_end'):
            if s['arg']==str(k): self.emit_proof(s,('body_end','loop %d'%k))
        if inc: self.stmt_expr(inc)
        self.w('continue;')
    def s_BreakStmt(self,n):
        k=self.loopstack[-1][1]
        for s in self.sec('at_break'):
            if s['arg']==str(k): self.used_hooks.add(id(s)); self.emit_proof(s,('body_end','loop %d'%k))
        self.w('break;')
    # ------------------------------------------------------------ whole function
    def run(self):
        e=self.e; X=self.X; ov=self.ov
        if e['body'] is None: raise Unsupported('no body')
        b0=self.X.baseline.get(e['key'])
        if b0 is not None: self.base_names={x[0] for x in b0}
        ctor=e['kind']=='CXXConstructorDecl'
        self.rt=('cls',e['cls']) if ctor else self.rettype(e) if e['kind']!='CXXDestructorDecl' else ('void',)
        if not ctor and self.self_ret(e): self.rt=('void',)
        ps=[]
        if e['cls'] and not e['static'] and e['kind']!='FunctionDecl' and not ctor:
            ps.append('this: %s%s'%('&' if e['const'] else '&mut ',X.self_type(e['cls'])))
        shadows=[]
        mut=assigned_ids(e['body'])
        for p,t in zip(e['params'],e['ptypes']):
            t=X.normt(t)
            nm=self.fresh_name(p.get('name') or 'unused%d'%len(ps)); self.names.append((p.get('name'),tname(t)))
            dt=deref_t(t)
            if t[0]=='ptr' and t[1][0]=='int':
                ps.append('%s: &mut [%s]'%(nm,t[1][1])); ps.append('%s_i: u64'%nm)
                if p['id'] in mut: shadows.append(nm+'_i')
                self.vars[p['id']]=dict(rust=nm,type=t,mode='mptr',off=nm+'_i',base=(lambda m,nm=nm: nm)); continue
            if t[0]=='ref' and not t[2]: mode='mutref'; ps.append('%s: &mut %s'%(nm,rty(dt)))
            elif t[0]=='ref' and not self.is_copy(dt): mode='ref'; ps.append('%s: &%s'%(nm,rty(dt)))
            else:
                mode='own'; ps.append('%s: %s'%(nm,rty(dt)))
                if p['id'] in mut: shadows.append(nm)
            self.vars[p['id']]=dict(rust=nm,type=t,mode=mode)
            if self.bv: self.env[p['id']]=nm
        for s in self.sec('ghost_params'):
            for l in s['lines']:
                l=l.strip().rstrip(',')
                if l: a,b=l.split(':',1); ps.append('Ghost(%s): Ghost<%s>'%(a.strip(),b.strip()))
        # local names, for the rename alignment
        self.align(e)
        self.ind=0
        self.lines=[]
        attrs=[s for s in self.sec('attr')]
        sig='pub fn %s(%s)'%(fn_rust(e['key']),', '.join(ps))
        if self.rt[0]!='void': sig+=' -> (ret: %s)'%rty(self.rt)
        self.ind=1
        for kw in ('requires','ensures'):
            ss=self.sec(kw)
            if ss:
                self.w(kw)
                self.ind+=1
                for s in ss:
                    self.used_hooks.add(id(s))
                    for l in self.ovtext_sig(s['lines']):
                        m=re.search(r'//=\s*(.*)$',l)
                        self.w(re.sub(r'\s*//=.*$','',l).strip(),(kw,m.group(1) if m else ''))
                self.ind-=1
        for s in self.sec('decreases'):
            if s['arg']=='fn':
                self.used_hooks.add(id(s)); self.w('decreases '+' '.join(x.strip() for x in self.ovtext_sig(s['lines'])),('decreases','recursion'))
        hdr=self.lines; self.lines=[]
        for nm in shadows: self.w('let ghost %s_in = %s;'%(nm,nm)); self.w('let mut %s = %s;'%(nm,nm))
        for s in self.sec('entry'):
            self.used_hooks.add(id(s))
            for l in self.ovtext(s['lines']): self.w(l.strip(),('entry',''))
        self.probe('entry')
        if ctor: self.w('let mut this: %s = %s;'%(cls_rust(e['cls']),X.ctor_struct(self,e,self.P.records[e['cls']])))
        if ctor: self.ctor_prologue()
        self.block(e['body'])
        if ctor:
            if has_return(e['body']): raise Unsupported('return in a constructor')
            for s in self.sec('ret'):
                self.used_hooks.add(id(s)); self.emit_proof(s,('ret',''))
            self.probe('end'); self.w('this')
        if self.rt[0]=='void' and not always_returns(e['body']):
            for s in self.sec('ret'):
                self.used_hooks.add(id(s)); self.emit_proof(s,('ret',''))
            self.probe('end')
        body=self.lines
        # every hook must have found its place
        for s in (ov['secs'] if ov else []):
            if s['name'] in ('invariant','body_start','body_end','loop_before','loop_after','after','before','decreases','loop_ensures','invariant_except_break') and id(s) not in self.used_hooks:
                raise Unsupported('the contract\'s @%s %s finds no place in the current body'%(s['name'],s['arg']))
        al=[]
        for a in attrs: al+=a['lines']+([a['arg']] if a['arg'] else [])
        if self.nodec: al.append('#[verifier::exec_allows_no_decreases_clause]')
        for s in self.sec('rlimit'): al.append('#[verifier::rlimit(%s)]'%s['arg'])
        if self.sec('spinoff'): al.append('#[verifier::spinoff_prover]')
        return al,sig,hdr,body
    def ctor_prologue(self): pass
    def ovtext_sig(self,lines): return self.ovtext(lines)
    def align(self,e):
        """rename tolerance: compare with the baseline's declaration list"""
        base=self.X.baseline.get(e['key'])
        cur=decl_list(self,e)
        self.cur_names=cur
        if base is None: return
        b=[tuple(x) for x in base]; c=[tuple(x) for x in cur]
        if [n for n,_ in b]==[n for n,_ in c]: return
        bn={n for n,_ in b}; cn={n for n,_ in c}
        missing=[x for x in b if x[0] not in cn]; new=[x for x in c if x[0] not in bn]
        dup={n for n,_ in b if sum(1 for m,_ in b if m==n)>1}
        if len(b)==len(c) and [t for _,t in b]==[t for _,t in c]:
            self.cur_decls=decl_scopes(self,e); self.dmap=True; self.bnames=[(i,x[0]) for i,x in enumerate(b)]
            return
        if dup:
            import difflib
            m=[None]*len(b)
            for op,i1,i2,j1,j2 in difflib.SequenceMatcher(None,b,c,autojunk=False).get_opcodes():
                if op=='equal':
                    for i in range(i2-i1): m[i1+i]=j1+i
                elif op=='replace':
                    j=j1
                    for i in range(i1,i2):
                        q=[x for x in range(j,j2) if c[x][1]==b[i][1]]
                        if q: m[i]=q[0]; j=q[0]+1
            self.cur_decls=decl_scopes(self,e); self.dmap=True; self.bnames=[(m[i],x[0]) for i,x in enumerate(b) if x[0] in dup]
        if not missing: return
        # pair the missing names with new ones of the same type, in order
        r={}
        for n,t in missing:
            for x in new:
                if x[1]==t and x[0] not in r.values(): r[n]=x[0]; break
        self.rename=self.gfree(r)
    def gfree(self,r):
        return {a:(b+'_c' if b in self.gnames() or self.specname(b) else b) for a,b in r.items()}

_SN=None
def spec_names():
    global _SN
    if _SN is None:
        import glob
        d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'specs')
        _SN={m for f in glob.glob(d+'/*.rs') for m in re.findall(r'\bfn (\w+)',open(f).read())}
    return _SN
def decl_scopes(tr,e):
    """the declarations in source order with the innermost statement that limits their scope"""
    out=[]
    for p,t in zip(e['params'],e['ptypes']): out.append(dict(name=p.get('name') or '',type=tname(t),id=None,scope=None))
    def walk(n,sc):
        if n.get('kind') in ('CompoundStmt','ForStmt','CXXForRangeStmt','WhileStmt','IfStmt','DoStmt'): sc=n.get('id')
        if n.get('kind')=='VarDecl' and n.get('name') and not n['name'].startswith('__'):
            try: t=tname(tr.X.normt(ntype(n)))
            except Unsupported: t='?'
            out.append(dict(name=n['name'],type=t,id=n['id'],scope=sc))
        if n.get('kind')=='BindingDecl': out.append(dict(name=n.get('name'),type='b',id=n['id'],scope=sc))
        for c in kids(n):
            if isinstance(c,dict): walk(c,sc)
    walk(e['body'],e['body'].get('id'))
    return out
def decl_list(tr,e): return [(d['name'],d['type']) for d in decl_scopes(tr,e)]

def blk(n): return kids(n) if n.get('kind')=='CompoundStmt' else [n]
def has_return(n):
    if n.get('kind')=='ReturnStmt': return True
    if n.get('kind')=='LambdaExpr': return False
    return any(has_return(c) for c in kids(n) if isinstance(c,dict))
def has_break(n):
    k=n.get('kind')
    if k=='BreakStmt': return True
    if k in('ForStmt','WhileStmt','DoStmt','CXXForRangeStmt','SwitchStmt'): return False
    return any(has_break(c) for c in kids(n) if isinstance(c,dict))
def always_returns(n):
    k=n.get('kind')
    if k=='ReturnStmt': return True
    if k=='CompoundStmt': return any(always_returns(c) for c in kids(n))
    if k=='IfStmt':
        ks=kids(n); return len(ks)>2 and always_returns(ks[1]) and always_returns(ks[2])
    return False
def assigned_ids(n,out=None):
    out=set() if out is None else out
    def root(x):
        while True:
            k=x.get('kind')
            if k=='DeclRefExpr': out.add(x.get('referencedDecl',{}).get('id')); return
            if k in STRIP_KINDS or k in ('ImplicitCastExpr','MemberExpr','ArraySubscriptExpr','CXXMemberCallExpr'):
                x=kids(x)[0]; continue
            if k=='CXXOperatorCallExpr': x=kids(x)[1]; continue
            return
    k=n.get('kind')
    if k in ('BinaryOperator','CompoundAssignOperator') and n.get('opcode','').endswith('=') and n.get('opcode') not in ('==','!=','<=','>='): root(kids(n)[0])
    if k=='UnaryOperator' and n.get('opcode') in ('++','--'): root(kids(n)[0])
    if k=='CXXOperatorCallExpr': root(kids(n)[1]) if len(kids(n))>1 else None
    if k=='CXXMemberCallExpr': root(kids(n)[0])
    if k in('CallExpr','CXXMemberCallExpr'):
        for a in kids(n)[1:]: root(a)
    for c in kids(n):
        if isinstance(c,dict): assigned_ids(c,out)
    return out

class Extractor:
    def __init__(self, P, ov, baseline=None, TrClass=Tr):
        self.P=P; self.ov=ov; self.baseline=baseline or {}; self.TrClass=TrClass
        self.needed=set(); self.probes=None
        self.copycls=set()
        for q,r in P.records.items():
            pass
        ch=True
        while ch:
            ch=False
            for q,r in P.records.items():
                if q not in self.copycls and not r['bases'] and r['fields'] and all(is_copy(self.normt(t),self.copycls|{q.split('::')[-1]}) for _,t,_ in r['fields']):
                    self.copycls.add(q); self.copycls.add(q.split('::')[-1]); ch=True
    def need(self,k): self.needed.add(k)
    def norm(self,c):
        if c in self.P.records: return c
        for q in self.P.records:
            if q.split('::')[-1]==c.split('::')[-1]: return q
        return c
    def normt(self,t):
        if t[0]=='cls':
            a=self.P.aliases.get(t[1].split('::')[-1])
            if a and t[1] not in self.P.records: return self.normt(a)
            return ('cls',self.norm(t[1]))
        if t[0] in ('vec','opt','it','rit','sp','set'): return (t[0],self.normt(t[1]))
        if t[0]=='ref': return ('ref',self.normt(t[1]),t[2])
        if t[0]=='tuple': return ('tuple',[self.normt(x) for x in t[1]])
        return t
    def is_copy(self,t): return is_copy(t,self.copycls)
    def self_type(self,cls): return cls_rust(cls)
    def this_for(self,tr,e): return 'this'
    def field_path(self,t,nm,tr):
        return '.'+nm
    def global_ref(self,d):
        n=d['node']
        t=deref_t(ntype(n))
        for c in kids(n):
            s=c
            while s.get('kind') in STRIP_KINDS or s.get('kind')=='ImplicitCastExpr': s=kids(s)[0]
            if s.get('kind')=='IntegerLiteral' and t[0]=='int': return '%s%s'%(s['value'],t[1])
            v=const_eval(s)
            if v is not None and t[0]=='int': return '%d%s'%(v,t[1])
        raise Unsupported('global '+str(d.get('name')))
    def construct(self,tr,n,t,ks):
        """inline a constructor that only has member initialisers"""
        q=self.norm(t[1])
        if q not in self.P.records: raise Unsupported('constructor of '+t[1])
        # find the constructor by its type
        ct=(n.get('ctorType') or {}).get('qualType')
        cands=[e for e in self.P.funcs.get(q+'::new',{}).values() if len(e['params'])==len(ks)]
        if ct:
            c2=[e for e in cands if e['qt']==ct]
            if c2: cands=c2
        if len(cands)!=1: raise Unsupported('constructor overload of '+q)
        e=cands[0]
        if e['key'] in self.ov.fns:
            tr.calls.add(e['key']); self.need(e['key'])
            short=e['cls'].split('::')[-1]; k=tr.calln.get(short,0); tr.calln[short]=k+1; tr.marks.append('%s#%d'%(short,k))
            return '%s(%s)'%(fn_rust(e['key']),', '.join(tr.args(e,ks)))
        if kids(e['body'] or {}): raise Unsupported('constructor with a body: '+q)
        args={}
        for p,pt,a in zip(e['params'],e['ptypes'],ks):
            v=tr.let(tr.conv(a,pt),a) if not tr.bv else tr.conv(a,pt)
            args[p['id']]=v
        old=dict(tr.vars)
        for p,pt in zip(e['params'],e['ptypes']): tr.vars[p['id']]=dict(rust=args[p['id']],type=pt,mode='own')
        s=tr.src; tr.src=e['src']
        r=self.ctor_struct(tr,e,self.P.records[q])
        tr.src=s; tr.vars=old
        return r
    def ctor_struct(self,tr,e,rec):
        """the member initialisers of a constructor as a struct value"""
        q=self.norm(e['cls']); vals={}
        for ini in e['inits']:
            f=ini.get('anyInit',{}).get('name')
            if not f: raise Unsupported('base initialiser')
            x=kids(ini)[0]
            ft=[t2 for f2,t2,_ in rec['fields'] if f2==f][0]
            if x.get('kind')=='CXXDefaultInitExpr':
                d=[d2 for f2,_,d2 in rec['fields'] if f2==f][0]; x=d
            elif x.get('kind')=='CXXConstructExpr' and not kids(x) and ft[0] not in('vec','cls','map','opt'):
                vals[f]=tr.default(self.normt(ft)); continue
            vals[f]=tr.conv(x,ft)
        out=[]
        for f,ft,d in rec['fields']:
            if f not in vals:
                if d is not None: vals[f]=tr.conv(d,ft)
                else: vals[f]=tr.default(self.normt(ft))
            out.append('%s: %s'%(f,vals[f]))
        return '%s { %s }'%(cls_rust(q),', '.join(out))
    def struct_text(self,q):
        r=self.P.records[q]
        d='#[derive(Clone, Copy)]\n' if q in self.copycls else ''
        return d+'pub struct %s {\n%s\n}\n'%(cls_rust(q),'\n'.join('    pub %s: %s,'%(f,rty(self.normt(t))) for f,t,_ in r['fields']))
    def function(self,key):
        """-> dict(attrs, sig, header lines, body lines)"""
        e=self.P.keys[key]; ov=self.ov.fns.get(key)
        tr=self.TrClass(self,e,ov)
        al,sig,hdr,body=tr.run()
        return dict(attrs=al,sig=sig,hdr=hdr,body=body,calls=tr.calls,names=tr.cur_names,loops=tr.loopn,rt=tr.rt,nodec=tr.nodec)

def const_eval(s):
    while s.get('kind') in STRIP_KINDS or s.get('kind')=='ImplicitCastExpr': s=kids(s)[0]
    if s.get('kind')=='IntegerLiteral': return int(s['value'])
    if s.get('kind')=='BinaryOperator':
        a,b=[const_eval(x) for x in kids(s)]
        if a is None or b is None: return None
        return {'<<':a<<b,'+':a+b,'-':a-b,'*':a*b,'|':a|b,'&':a&b}.get(s['opcode'])
    if s.get('kind')=='UnaryOperator' and s['opcode']=='-':
        a=const_eval(kids(s)[0]); return None if a is None else -a
    return None
