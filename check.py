#!/usr/bin/env python3
"""check.py <property>   (environment: VERIF_TIER=quick|thorough, VERIF_SEED)

Decides one property of /repo's current working tree:
 1. the functions the property depends on are extracted from /repo (clang AST) and verified, function by
    function, against the contracts in specs/ (Verus + Z3);
 2. the real code, compiled from the same tree, is run against an executable form of the contracts on a stated
    finite set of inputs: to find a concrete input for a failed obligation, to test what the extraction trusts, and
    as the labelled bounded stand-in for functions outside the verifier's reach.
exit 0: held; exit 1 + VIOLATION line: violated.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, signal, threading
ROOT=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(ROOT,'extract'))
REPO=os.environ.get('VERIF_REPO','/repo')
T0=time.time()
BUDGET=800
def left(): return BUDGET-(time.time()-T0)
def log(*a): print(*a,flush=True)

class Harness:
    def __init__(self,pid,work,seed): self.pid=pid; self.work=work; self.seed=seed; self.ok=None; self.err=''
    def build(self):
        p=subprocess.run(['bash',os.path.join(ROOT,'bounded','build.sh'),os.path.join(self.work,'hb')],env=dict(os.environ,REPO=REPO),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        self.ok=p.returncode==0; self.err=p.stdout[-3000:]
    def start(self): self.th=threading.Thread(target=self.build); self.th.start()
    def run(self,tier,seed,timeout):
        self.th.join()
        if not self.ok: return dict(status='nobuild',evals=0,nontrivial=0,samples=[],out=self.err)
        cmd=[os.path.join(self.work,'hb','harness'),self.pid,tier,str(seed)]
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',TMPDIR=self.work)
        t=time.time()
        p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env,start_new_session=True,errors='replace',text=True)
        try: out,err=p.communicate(timeout=max(5,timeout)); st='done'
        except subprocess.TimeoutExpired:
            os.killpg(p.pid,signal.SIGKILL); out,err=p.communicate(); st='timeout'
        r=dict(status=st,evals=0,nontrivial=0,samples=[],fail=None,err=err[-4000:],wall=time.time()-t,tier=tier,seed=seed)
        for l in out.split('\n'):
            f=l.split('\t')
            if f[0]=='FAIL' and len(f)>=3: r['fail']=dict(case=f[1],message=f[2],history=f[3] if len(f)>3 else '',tier=tier,seed=seed)
            if f[0]=='STATS' and len(f)==3: r['evals'],r['nontrivial']=int(f[1]),int(f[2])
            if f[0]=='SAMPLE': r['samples'].append(f[1])
        return r

def deductive(unit,mods,tier,work):
    """returns dict(failed=[(key,desc,diag)], undecided={key:reason}, verified, errors, ...)"""
    from build import classify
    u=unit; out=dict(unit=u.name,failed=[],undecided={},verified=0,obligations=0,wall=0,smt_ms=0,cmd='',vac=None,raw='')
    try: u.load()
    except BaseException as ex:
        if isinstance(ex,(KeyboardInterrupt,)): raise
        out['undecided']['*']='extraction failed: %s: %s'%(type(ex).__name__,str(ex)[:300]); return out
    forced={}; seen=set()
    path=os.path.join(work,u.name+'.rs')
    for attempt in range(8):
        u.translate(forced); u.emit(path)
        r=u.verus(mods,timeout=max(30,left()-60)); out['wall']+=r['wall']; out['cmd']=' '.join(r['cmd'])
        if r['status']=='timeout': out['undecided']['*']='verifier time limit'; out['cat']='timeout'; return out
        cls=[classify(u,d)+(d,) for d in r['diags'] if not d['message'].startswith('aborting')]
        comp=[c for c in cls if c[0] in('compile','other','spec')] if (r['verified']+r['errors']==0) else []
        if r['verified']+r['errors']==0 or r['encerr'] or comp:
            new={}
            for c in cls:
                if c[1] and c[1] not in forced: new[c[1]]='the extracted text is outside what the verifier accepts: '+c[2][:300]
            if new: forced.update(new); continue
            out['undecided']['*']='verifier rejected the unit: '+(cls[0][2][:500] if cls else r['raw'][-500:]); return out
        break
    else:
        out['undecided']['*']='the unit could not be brought into a form the verifier accepts'; return out
    out['verified']=r['verified']; out['obligations']=r['verified']+r['errors']; out['smt_ms']=r['smt_ms']
    closure={k for k in u.ov.order if u.modof.get(k) in mods}
    for k,why in u.failed.items():
        if k in closure: out['undecided'][k]=why
    for cat,key,desc,d in cls:
        if cat=='limit': out['undecided'][key or '*']='solver resource limit: '+desc[:300]
        else: out['failed'].append((key,desc,d.get('rendered') or d.get('message')))
    keys=[k for k in u.ov.order if k in closure]
    out['functions']=[k for k in keys if k not in out['undecided'] and k not in {f[0] for f in out['failed']}]
    out['trusted']=[k for k in keys if any(s['name']=='trust' for s in u.ov.fns[k]['secs'])]
    out['assumed']=sorted('contract of %s, proved in unit %s'%(k,un) for k,un in u.assumed.items())
    out['clauses']=sum(1 for t in u.map if t and t[0]=='fn' and t[1] in closure and t[2] in('ensures','requires','inv','autoinv'))
    import re
    out['external_body']=u.text.count('external_body'); out['assumes']=len(re.findall(r'\b(assume|admit)\s*\(',u.text))
    if tier=='thorough' and not out['failed']:
        os.makedirs(os.path.join(work,'p'),exist_ok=True)
        out['vac']=u.vacuity(mods,os.path.join(work,'p',u.name+'.rs'),timeout=max(30,left()-100))
    out['props']={k:set(' '.join(s['arg'] for s in u.ov.fns[k]['secs'] if s['name']=='props').split()) for k in u.ov.order}
    out['path']=path
    return out

def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    if tier not in('quick','thorough'): tier='quick'
    import props
    cfg=props.PROPS[pid]
    os.makedirs(os.path.join(ROOT,'_build'),exist_ok=True); os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    work=tempfile.mkdtemp(prefix=pid+'.',dir=os.path.join(ROOT,'_build'))
    rc=2
    try: rc=run(pid,tier,seed,cfg,work)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)

def violation(pid,replay,concrete):
    d=os.path.join(ROOT,'replays'); os.makedirs(d,exist_ok=True)
    p=os.path.join(d,'%s-%s.json'%(pid,hashlib.sha1(json.dumps(replay,sort_keys=True,default=str).encode()).hexdigest()[:10]))
    json.dump(replay,open(p,'w'),indent=1,default=str)
    log('VIOLATION property=%s replay=%s%s'%(pid,p,'' if concrete else ' no-failing-input-found'))

def run(pid,tier,seed,cfg,work):
    import props
    H=Harness(pid,work,seed); H.start()
    D=[]
    for un,mods in cfg['units']:
        d=deductive(props.UNITS[un](REPO),mods,tier,work); D.append(d)
        log('[%s] %s: %d of %d obligation groups discharged in %.1f s, %d functions under contract%s'%(pid,d['unit'],d['verified'],d['obligations'],d['wall'],len(d.get('functions',[])),', undecided: %s'%d['undecided'] if d['undecided'] else ''))
    failed=[]; dep=[]
    for d in D:
        for k,desc,rend in d['failed']:
            tags=re.findall(r'\[(C\d\d)\]',desc)      # a clause that names its properties decides for those only
            (failed if (pid in tags if tags else (k is None or pid in d['props'].get(k,()))) else dep).append((k,desc,rend))
    undecided={k:v for d in D for k,v in d['undecided'].items()}
    vac=[x for d in D if d['vac'] for x in d['vac'][1]]
    for k,desc,_ in failed: log('[%s] FAILED OBLIGATION in %s: %s'%(pid,k,desc[:600]))
    for k,desc,_ in dep: log('[%s] failed obligation of a dependency, %s: %s'%(pid,k,desc[:600]))
    # the real code on concrete inputs
    runs=[]
    r=H.run(tier if not(failed or undecided or dep) else 'quick',seed,left()-20); runs.append(r)
    if not r.get('fail') and r['status']=='done' and (failed or dep or undecided) :
        # look deeper for a concrete input; the time allowed depends on whether an obligation really failed
        s=seed
        end=time.time()+min(left()-40, 420 if failed else 240)
        first=True
        while time.time()<end-10:
            r=H.run('thorough' if first else 'quick',s+1000*len(runs),end-time.time()); runs.append(r); first=False
            if r.get('fail') or len(runs)>40: break
    conc=next((x['fail'] for x in runs if x.get('fail')),None)
    evals=sum(x['evals'] for x in runs); nontriv=max([x['nontrivial'] for x in runs]+[0])
    samples=[s for x in runs for s in x['samples']][:6]
    obl=sum(d['obligations'] for d in D); ok=sum(d['verified'] for d in D)
    cov=dict(obligations=obl,discharged=ok,checker_cmd=' ; '.join(d['cmd'] for d in D) or 'none',
        trusted_base=props.TRUSTED+[ 'trusted contract of '+k for d in D for k in d.get('trusted',[])],
        contracts_proved_elsewhere=sorted({a for d in D for a in d.get('assumed',[])}),
        functions_under_contract=[k for d in D for k in d.get('functions',[])],
        contract_clauses=sum(d.get('clauses',0) for d in D),
        solver='Z3 (bundled with Verus), %d ms SMT time, %.1f s wall'%(sum(d['smt_ms'] for d in D),sum(d['wall'] for d in D)),
        external_body_items=sum(d.get('external_body',0) for d in D),assume_statements=sum(d.get('assumes',0) for d in D),
        undecided_functions=undecided,failed_obligations=[f[:2] for f in failed+dep],
        bounded=dict(label='bounded stand-in / conformance run of the real code, never counted as proved',covers=cfg.get('bounded_for',[]),rule=cfg['rule'],evaluations=evals,distinct_nontrivial=nontriv,samples=samples),
        evaluations=evals,distinct_nontrivial=nontriv,rule=cfg['rule'],samples=samples or ['(none)'])
    if any(d['vac'] for d in D): cov['reachability_probes']=dict(points=sum(d['vac'][0] for d in D if d['vac']),vacuous=vac)
    ev=dict(property=pid,tier=tier,seed=seed,level=cfg['level'],coverage=cov,assumptions=cfg.get('assumptions',[])+props.ASSUMPTIONS,wall_s=0,violations=0)
    rc=0
    if conc:
        violation(pid,dict(property=pid,kind='concrete input on the real code',case=conc['case'],message=conc['message'],history=conc['history'],sanitizer=next((x.get('err') for x in runs if x.get('fail')),''),
            replay_cmd="bash bounded/build.sh /tmp/hb && /tmp/hb/harness %s replay '%s' %s %d"%(pid,conc['case'],conc['tier'],conc['seed']),failed_obligations=[dict(function=k,obligation=d,verifier=v) for k,d,v in failed+dep],undecided=undecided),True)
        log('  case: %s\n  %s'%(conc['case'],conc['message'])); rc=1
    elif failed:
        violation(pid,dict(property=pid,kind='failed obligation',failed_obligations=[dict(function=k,obligation=d,verifier=v) for k,d,v in failed],note='the search on the real code (%d evaluations) found no failing input'%evals),False); rc=1
    elif vac:
        log('[%s] contradictory assumptions at %s'%(pid,vac)); rc=2
    elif all(x['status']=='nobuild' for x in runs) and (undecided or not D):
        log('[%s] neither the verifier nor the compiled harness could judge this tree: %s %s'%(pid,undecided,H.err[-800:])); rc=2
    else:
        for x in props.known(pid): log('KNOWN-FINDING: property=%s %s'%(pid,x))
        log('[%s] held: %d/%d obligation groups discharged; %d cases run on the real code'%(pid,ok,obl,evals))
    ev['violations']=1 if rc==1 else 0; ev['wall_s']=round(time.time()-T0,2)
    json.dump(ev,open(os.path.join(ROOT,'evidence',pid+'.json'),'w'),indent=1,default=str)
    return rc
if __name__=='__main__': main()
