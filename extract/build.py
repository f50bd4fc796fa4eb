"""Builds one Verus file from /repo's sources, specs/*.rs and specs/*.ov, runs Verus, maps the diagnostics back."""
import os, re, sys, json, subprocess, time, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
sys.path.insert(0,HERE)
from cxxast import *
from extract import *

def expand(text):
    text=text.replace('$HH','let ghost hh: u64 = hh_of(this.m_num_leaves) as u64; proof { nr_62(this.m_num_leaves); }')
    while True:
        m=re.search(r'\$PB\(',text)
        if not m: return text
        i=m.end(); d=1; j=i
        while d:
            if text[j]=='(': d+=1
            if text[j]==')': d-=1
            j+=1
        a=split_args(text[i:j-1])
        text=text[:m.start()]+'add(sub(2u64 << (%s), 1u64 << sub(add(%s, 1), %s)), %s)'%(a[0],a[0],a[1],a[2])+text[j:]

def load_overlay(files):
    ov=Overlay()
    for f in files:
        ov.parse(expand(open(os.path.join(ROOT,'specs',f)).read()),f)
    return ov

class Unit:
    """a verification unit: a set of C++ sources, spec files and overlay files"""
    def __init__(self, name, sources, filters, rs, ovs, TrClass=Tr, XClass=Extractor, structs=(), repo='/repo', assumed=()):
        self.name=name; self.sources=sources; self.filters=filters; self.rs=rs; self.ovs=ovs; self.structs=structs
        self.repo=repo; self.TrClass=TrClass; self.XClass=XClass
        self.assumed_src=assumed; self.assumed={}   # (unit, overlay file, keys or None): contracts verified in another unit, assumed here
    def load(self):
        self.P=Program(self.repo,self.sources,self.filters)
        self.ov=load_overlay(self.ovs)
        bp=os.path.join(ROOT,'specs','baseline_%s.json'%self.name)
        self.baseline=json.load(open(bp)) if os.path.exists(bp) else {}
        for un,f,keys in self.assumed_src:
            o2=load_overlay([f]); b2=json.load(open(os.path.join(ROOT,'specs','baseline_%s.json'%un)))
            for k in o2.order:
                if keys is not None and k not in keys: continue
                self.ov.fns[k]=o2.fns[k]; self.ov.order.append(k); self.assumed[k]=un
                if k in b2: self.baseline[k]=b2[k]
        self.X=self.XClass(self.P,self.ov,{k:v['names'] for k,v in self.baseline.items()},self.TrClass)
    def save_baseline(self):
        out={}
        for k in self.ov.order:
            if k in self.res and self.res[k]: out[k]=dict(names=self.res[k]['names'],loops=self.res[k]['loops'],sig=self.res[k]['sig'])
        json.dump(out,open(os.path.join(ROOT,'specs','baseline_%s.json'%self.name),'w'),indent=0,sort_keys=True)
    def translate(self, failed=None):
        """failed: key -> reason; those are kept as assumed contracts (out of the verifier's reach)"""
        self.failed=dict(failed or {}); self.res={}
        for k in self.ov.order:
            if k in self.assumed: self.res[k]=None; continue
            if k not in self.P.keys or self.P.keys[k]['body'] is None:
                self.failed.setdefault(k,'the function no longer exists under this name and signature'); self.res[k]=None; continue
            try:
                r=self.X.function(k)
                b=self.baseline.get(k)
                if b is not None and k not in self.failed:
                    if b['loops']!=r['loops']: raise Unsupported('loop structure changed (%d loops, contract written for %d)'%(r['loops'],b['loops']))
                    if b['sig'].split('(')[0]!=r['sig'].split('(')[0] or [x.split(':')[-1] for x in b['sig'].split(',')]!=[x.split(':')[-1] for x in r['sig'].split(',')]: raise Unsupported('signature changed')
                self.res[k]=r
            except Unsupported as u:
                self.failed[k]='extraction: '+str(u); self.res[k]=None
            except (KeyError,IndexError,AttributeError,TypeError,ValueError,AssertionError) as ex:
                if os.environ.get('VDEBUG'): raise
                self.failed[k]='extraction: %s %s'%(type(ex).__name__,ex); self.res[k]=None
    def emit(self, path, extra_spec=''):
        L=[]; self.map=[]
        def out(s,tag=None):
            for x in s.split('\n'):
                L.append(x); self.map.append(tag)
        out('// generated from %s by extract/build.py; do not edit'%self.repo)
        out('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, non_camel_case_types, unreachable_code)]')
        out('use vstd::prelude::*;')
        for f in self.rs:
            mod='s_'+f.replace('.rs','')
            txt=open(os.path.join(ROOT,'specs',f)).read()
            out('pub mod %s { use super::*; use vstd::prelude::*; verus! {'%mod,('spec',f,0))
            for i,l in enumerate(txt.split('\n'),1): out(l,('spec',f,i))
            out('} } pub use %s::*;'%mod)
        if extra_spec: out('pub mod s_probe { use super::*; verus! { %s } } pub use s_probe::*;'%extra_spec)
        out('pub mod m_types { use super::*; verus! {')
        for q in self.structs:
            if q in self.P.records: out(self.X.struct_text(q))
        out('} } pub use m_types::*;')
        mods={}
        for k in self.ov.order:
            o=self.ov.fns[k]; m=[s['arg'] for s in o['secs'] if s['name']=='module']
            mods.setdefault(m[0] if m else 'm_misc',[]).append(k)
        self.modof={}
        for m,ks in mods.items():
            out('pub mod %s { use super::*; verus! {'%m)
            out('pub proof fn keep_%s() { }'%m)
            for k in ks:
                self.modof[k]=m
                r=self.res.get(k)
                if r is None or k in self.failed:
                    self.emit_assumed(k,out); continue
                out('// %s'%k)
                for a in r['attrs']: out(a)
                out(r['sig'],('fn',k,'sig','',r['sig']))
                for l,t in r['hdr']: out(l,('fn',k)+(t or ('','')) +(l.strip(),))
                out('{',('fn',k,'body','',''))
                for l,t in r['body']: out(l,('fn',k)+(t or ('body',''))+(l.strip(),))
                out('}',('fn',k,'body','',''))
            out('} } pub use %s::*;'%m)
        out('fn main() {}')
        open(path,'w').write('\n'.join(L)+'\n')
        self.path=path; self.text='\n'.join(L)
    def emit_assumed(self,k,out):
        """a function whose body is out of reach: keep its contract so that callers can still be checked against it"""
        b=self.baseline.get(k)
        o=self.ov.fns[k]
        if b is None: return
        out('#[verifier::external_body]')
        out(b['sig'],('fn',k,'sig','',''))
        for kw in ('requires','ensures'):
            ss=[s for s in o['secs'] if s['name']==kw]
            if ss:
                out('    '+kw)
                for s in ss:
                    for l in s['lines']: out('        '+re.sub(r'\s*//=.*$','',l).strip())
        out('{ unimplemented!() }')
    def verus(self, modules=None, timeout=800, rlimit=None, extra=(), multi=4):
        cmd=['verus',self.path,'--error-format=json','--output-json','--multiple-errors',str(multi),'--num-threads','8','--time-expanded']+list(extra)
        if rlimit: cmd+=['--rlimit',str(rlimit)]
        for m in modules or []: cmd+=['--verify-only-module',m]
        t=time.time()
        try:
            p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout,cwd=os.path.dirname(self.path),env=dict(os.environ,RUST_MIN_STACK=str(1<<29)))
        except subprocess.TimeoutExpired as ex:
            return dict(status='timeout',cmd=cmd,wall=time.time()-t,diags=[],verified=0,errors=0,raw='timeout')
        diags=[]
        for l in p.stderr.split('\n'):
            if l.startswith('{'):
                try: diags.append(json.loads(l))
                except ValueError: pass
        res={}
        try: res=json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError: pass
        vr=res.get('verification-results',{})
        smt=res.get('times-ms',{}).get('smt',{})
        return dict(status='ok',rc=p.returncode,cmd=cmd,wall=time.time()-t,diags=[d for d in diags if d.get('level')=='error'],verified=vr.get('verified',0),errors=vr.get('errors',0),success=vr.get('success',False),encerr=vr.get('encountered-vir-error',False),res=res,raw=p.stderr if not diags else '',smt_ms=smt.get('total',0) if isinstance(smt,dict) else 0)
    def vacuity(self, modules, path, timeout=800):
        """every marked program point (function entry, loop body, return) must be reachable: assert an unknown fact
        there; if the verifier can prove it, the assumptions at that point are contradictory. Returns (points, vacuous)"""
        self.X.probes=[]; f=dict(self.failed); old=(self.map,self.path,self.text)
        self.translate({k:v for k,v in f.items()})
        self.emit(path,'pub uninterp spec fn probe(k: int) -> bool;')
        # the probes multiply the queries of a function: give them resources in proportion
        t=re.sub(r'#\[verifier::rlimit\((\d+)\)\]',lambda m:'#[verifier::rlimit(%d)]'%(int(m.group(1))*8),open(path).read()); open(path,'w').write(t)
        r=self.verus(modules,timeout=timeout,multi=400,rlimit=80)
        hit=set(); limited=set()
        for d in r['diags']:
            c=classify(self,d)
            if c[0]=='limit': limited.add(c[1])
            for s in d.get('spans',[]):
                for t in s.get('text',[]):
                    m=re.search(r'assert\(probe\((\d+)\)\)',t.get('text',''))
                    if m: hit.add(int(m.group(1)))
        pts=[(i,)+p for i,p in enumerate(self.X.probes) if modules is None or self.modof.get(p[0]) in modules]
        self.X.probes=None; self.map,self.path,self.text=old; self.limited=sorted(map(str,limited)) # probes of these functions were not all decided
        if r['status']!='ok': return len(pts),[],r['wall']
        # an exit that the callees' contracts rule out is fine as long as the function has a reachable one
        ok={p[1] for p in pts if p[0] in hit and (p[2].startswith('return') or p[2]=='end')}
        return len(pts),[p[1:] for p in pts if p[0] not in hit and p[1] not in limited and not(p[1] in ok and p[2].startswith('return'))],r['wall']
    def where(self,line):
        return self.map[line-1] if 0<line<=len(self.map) else None
    def explain(self,d):
        """diagnostic -> (kind, key, text)"""
        spans=d.get('spans',[]); msg=d.get('message','')
        locs=[]
        for s in spans:
            t=self.where(s['line_start'])
            locs.append((t,s.get('label') or '',s['line_start'],s['is_primary']))
        return msg,locs

def classify(u,d):
    """-> (category, function key or None, description)  category: proof | limit | compile | spec"""
    msg,locs=u.explain(d)
    fnloc=None
    # the function whose body/obligation failed: prefer body locations, then clause locations
    for pri in (0,1):
        for t,lab,ln,prim in locs:
            if t and t[0]=='fn' and (t[2] in ('body','entry','ret','bv','hint','body_start','body_end','loop_before','loop_after','inv','autoinv','decreases') or pri): 
                if fnloc is None: fnloc=t
        if fnloc: break
    if fnloc is None:
        for t,lab,ln,prim in locs:
            if t and t[0]=='spec': return ('spec',None,'%s in specs/%s line %d'%(msg,t[1],t[2]))
        return ('other',None,msg+' '+json.dumps([x[:3] for x in locs])[:300])
    desc=msg; det=[]
    for t,lab,ln,prim in locs:
        if t and t[0]=='fn':
            det.append('%s%s'%((lab+': ') if lab else '', t[4] if len(t)>4 else ''))
            if t[2] in ('ensures','requires') and t[3]: det[-1]='%s [%s of %s: %s]'%(det[-1],t[2],t[1],t[3])
            if t[2] in ('inv','autoinv'): det[-1]='%s [invariant of %s, %s]'%(det[-1],t[1],t[3])
    desc='%s -- %s'%(msg,' | '.join(det))
    low=msg.lower()
    if 'rlimit' in low or 'resource limit' in low or 'timed out' in low or 'timeout' in low or 'inconclusive' in low: cat='limit'
    elif any(x in low for x in ('not satisfied','assertion failed','overflow','underflow','decreases','invariant','recommendation','unreachable','possible','precondition','postcondition','requires','termination','bitvector')): cat='proof'
    else: cat='compile'
    return (cat,fnloc[1],desc)
