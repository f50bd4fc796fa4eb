// ------------------------------------------------------------------ pollards
// Cached hashes are read through Read(pos) (compiled with -fno-access-control).
struct PSnap { uint64_t n, count, cached; VH roots; std::map<uint64_t,Hash> nodes; std::map<Hash,uint64_t> provable; 
    bool operator==(const PSnap& o) const { return n==o.n&&count==o.count&&cached==o.cached&&roots==o.roots&&nodes==o.nodes&&provable==o.provable; } };
static PSnap snap(Pollard& q,const VH& universe){
    PSnap s; s.n=q.NumLeaves(); s.count=q.CountNodes(); s.cached=q.NumCachedLeaves(); s.roots=roots_of(q); int h=rows_of(s.n);
    for(int r=0;(s.n>>r)>0;r++) for(uint64_t i=0;i<(s.n>>r);i++){ auto x=q.Read(P(h,r,i)); if(x) s.nodes[P(h,r,i)]=*x; }
    for(auto& x:universe){ BatchProof p; if(q.Prove(p,{x})) s.provable[x]=p.GetTargets().at(0); }
    return s;
}
static std::string diff(const PSnap& a,const PSnap& b){ std::string s; if(a.n!=b.n) s+=" leaf count "+str(a.n)+"->"+str(b.n); if(a.roots!=b.roots) s+=" roots "+str(a.roots)+"->"+str(b.roots); if(a.count!=b.count) s+=" nodes "+str(a.count)+"->"+str(b.count); if(a.cached!=b.cached) s+=" cached leaves "+str(a.cached)+"->"+str(b.cached); if(a.nodes!=b.nodes) s+=" cached hashes differ ("+str(a.nodes.size())+"->"+str(b.nodes.size())+")"; if(a.provable!=b.provable) s+=" provable leaves differ ("+str(a.provable.size())+"->"+str(b.provable.size())+")"; return s; }
enum { M_TAMPER=1, M_PRUNE=2, M_PARTIAL=4, M_CHECKREM=8, M_ATOMIC=16, M_HASHES=32, M_OMIT=64, M_FROMROOTS=128, M_BADMOD=256, M_ZERO=512 };

// the proof with those hashes left out that the pollard has cached
static BatchProof omit(Pollard& q,const BatchProof& p,G& g,bool all){ V pp,c; proof_oracle(q.NumLeaves(),p.GetSortedTargets(),pp,c); VH k; bool can=true; int md=all?0:R(g,3); for(size_t i=0;i<pp.size();i++){ auto x=q.Read(pp[i]); bool cached=(bool)x; bool drop=cached && (md==0 || (md==1&&R(g,2))); if(!drop) k.push_back(p.GetHashes()[i]); (void)can; } return BatchProof(p.GetTargets(),k); }

static VH hseq(const VH& lv,const V& t){ VH r; for(uint64_t x:t) r.push_back(lv[x]); return r; }
// true iff the (possibly partial) proof is consistent with the forest: each target hash right.
static bool targets_right(const VH& lv,const V& t,const VH& th){ if(t.size()!=th.size()) return false; for(size_t i=0;i<t.size();i++) if(t[i]>=lv.size()||!(lv[t[i]]==th[i])) return false; return true; }

static void tamper(Pollard& q,const VH& lv,const BatchProof& good,const VH& th,G& g,int mode,const VH& universe){
    V t=good.GetTargets(); VH h=good.GetHashes(), x=th; int kind=R(g,13); std::string what; bool mustfail=true;
    switch(kind){
        case 0: if(h.empty()) return; h[R(g,h.size())][R(g,32)]^=1+R(g,255); what="proof hash flipped"; break;
        case 1: if(x.empty()) return; x[R(g,x.size())][R(g,32)]^=1+R(g,255); what="target hash flipped"; break;
        case 2: if(h.empty()) return; h.erase(h.begin()+R(g,h.size())); what="proof hash dropped"; mustfail=false; break;
        case 3: h.insert(h.begin()+R(g,h.size()+1),H(77777)); what="surplus proof hash"; break;
        case 4: if(h.size()<2) return; { size_t a=R(g,h.size()),b=R(g,h.size()); if(h[a]==h[b]) return; std::swap(h[a],h[b]); } what="proof hashes swapped"; break;
        case 5: if(x.size()<2) return; { size_t a=R(g,x.size()),b=R(g,x.size()); if(a==b) return; std::swap(x[a],x[b]); } what="target hashes swapped"; break;
        case 6: if(t.empty()) return; { size_t i=R(g,t.size()); uint64_t v=R(g,lv.size()+2); if(std::find(t.begin(),t.end(),v)!=t.end()) return; t[i]=v; V s2=t; std::sort(s2.begin(),s2.end()); t=s2; } what="target position changed"; break;
        case 7: if(x.empty()) return; x.pop_back(); what="target hash missing"; break;
        case 8: x.push_back(H(4242)); what="surplus target hash"; break;
        case 9: if(t.empty()) return; t.push_back(t.back()); x.push_back(x.back()); what="duplicate target"; break;
        case 10: if(t.empty()) return; { size_t i=R(g,t.size()); t.erase(t.begin()+i); x.erase(x.begin()+i); } what="target and hash removed"; mustfail=false; break;
        case 11: if(h.empty()) return; { size_t i=R(g,h.size()); h[i].fill(0); } what="proof hash zeroed"; { Hash zh; zh.fill(0); /* a zero leaf in the forest may be cached and omitted: then this is just another honest partial proof */ mustfail=std::find(lv.begin(),lv.end(),zh)==lv.end(); } break;
        case 12: if(lv.empty()) return; { // proof for other leaves claimed for these
            if(x.empty()) return; size_t i=R(g,x.size()); x[i]=lv[R(g,lv.size())]; if(x==th) return; } what="target hash replaced by another leaf"; break;
    }
    if(h==good.GetHashes()&&x==th&&t==good.GetTargets()) return;
    BatchProof bad(t,h); V st=bad.GetSortedTargets();
    PSnap before; if(mode&(M_ATOMIC)) before=snap(q,universe);
    uint64_t n0=q.NumLeaves(); VH r0=roots_of(q);
    logop("verify tampered ("+what+")"); bool ok=q.Verify(bad,x);
    if(ok){ REQ(targets_right(lv,st,x),"accepted a proof with wrong targets ("+what+"), targets "+str(st)); 
        // accepted: allowed only for proofs that are right (e.g. only cached hashes were dropped)
        if(mustfail && kind!=6 && kind!=12 && kind!=1 && !st.empty()) throw Fail{"accepted a tampered proof ("+what+"), targets "+str(st)}; }
    else if(mode&M_ATOMIC){ PSnap after=snap(q,universe); REQ(before==after,"rejected proof ("+what+", targets "+str(st)+") changed the pollard:"+diff(before,after)); }
    EQ(q.NumLeaves(),n0,"leaf count after verify"); EQ(roots_of(q),r0,"roots after verify ("+what+")");
    (void)mode;
}
static void pollard_hist(uint64_t s,int mode,int steps,bool accept_updates_rem=true){
    G g(s); RamForest f(0); auto qp=std::make_unique<Pollard>(0); std::set<Hash> rem; VH universe; uint64_t u=1; uint64_t remp=R(g,4); bool zero=(mode&M_ZERO)&&R(g,3)==0;
    for(int st=0;st<steps;st++){
        Pollard& q=*qp; uint64_t n=f.NumLeaves(); VH lv=leaves_of(f); V T; 
        if(n){ if(R(g,3)==0) T=rand_targets(g,n,6); else { int d=R(g,7); for(uint64_t i=0;i<n;i++) if(R(g,8)<(uint64_t)d&&R(g,2)) T.push_back(i); } }
        VH th=hseq(lv,T); BatchProof p; REQ(f.Prove(p,th),"forest cannot prove"); 
        if((mode&M_FROMROOTS)&&R(g,4)==0){ logop("rebuild pollard from roots"); qp=std::make_unique<Pollard>(roots_of(f),n); rem.clear(); }
        Pollard& q2=*qp;
        if(mode&M_TAMPER) for(int k=R(g,4);k>0;k--){ 
            std::set<Hash> rb=rem; BatchProof base=R(g,2)?p:omit(q2,p,g,false);
            uint64_t c0=q2.NumCachedLeaves(); (void)c0;
            V tt; tamper(q2,lv,base,th,g,mode,universe);
            // an accepted (still correct) tampered proof may have added remembered leaves: resynchronise
            rem.clear(); for(auto& x:lv){ BatchProof pr; if(q2.Prove(pr,{x})) rem.insert(x); } for(auto&x:rb) REQ(rem.count(x)||!(mode&M_CHECKREM),"leaf "+hex(x)+" was forgotten by a verification"); }
        if((mode&M_PRUNE)&&R(g,5)==0){ logop("prune"); q2.Prune(); rem.clear(); EQ(q2.NumCachedLeaves(),(uint64_t)0,"cached leaves after prune"); EQ(roots_of(q2),roots_of(f),"roots after prune"); }
        // honest proof
        { BatchProof hp=p; if((mode&M_OMIT)&&R(g,2)) hp=omit(q2,p,g,false); if(R(g,3)==0){ V sh=hp.GetTargets(); std::shuffle(sh.begin(),sh.end(),g); hp=BatchProof(sh,hp.GetHashes()); } VH r0=roots_of(q2); logop("verify "+str(T)+(hp.GetHashes().size()<p.GetHashes().size()?" (partial)":"")); REQ(q2.Verify(hp,th),"honest proof rejected, targets "+str(T)+", "+str(hp.GetHashes().size())+" of "+str(p.GetHashes().size())+" hashes"); for(auto&x:th) rem.insert(x); EQ(roots_of(q2),r0,"roots after verify"); EQ(q2.NumLeaves(),n,"leaf count after verify"); }
        auto consistent=[&](const std::string& when){ VH l2=leaves_of(f); Merkle m(l2); EQ(q2.NumLeaves(),m.n,"leaf count "+when); EQ(roots_of(q2),m.roots,"roots "+when);
            if(mode&M_HASHES) for(int r=0;(m.n>>r)>0;r++) for(uint64_t i=0;i<(m.n>>r);i++){ auto x=q2.Read(P(m.h,r,i)); if(x) EQ(Hash(*x),m.d[r][i],"cached hash at row "+str(r)+" index "+str(i)+" "+when); }
            if(mode&M_CHECKREM){ EQ(q2.NumCachedLeaves(),(uint64_t)rem.size(),"number of cached leaves "+when); for(uint64_t i=0;i<m.n;i++){ BatchProof a,b; bool ok=q2.Prove(a,{l2[i]}); EQ((uint64_t)ok,(uint64_t)rem.count(l2[i]),"leaf "+str(i)+(rem.count(l2[i])?" (remembered)":" (not remembered)")+" provable "+when); if(ok){ REQ(f.Prove(b,{l2[i]}),"forest cannot prove"); REQ(a==b,"pollard and forest proofs for leaf "+str(i)+" differ "+when); EQ(a.GetSortedTargets(),b.GetSortedTargets(),"sorted targets"); } }
                for(auto&x:universe) if(std::find(l2.begin(),l2.end(),x)==l2.end()){ BatchProof a; REQ(!q2.Prove(a,{x}),"removed leaf is still provable "+when); }
                if(rem.size()>1){ VH a(rem.begin(),rem.end()); BatchProof x,y; REQ(q2.Prove(x,a),"remembered leaves not provable together "+when); REQ(f.Prove(y,a),"forest cannot prove"); REQ(x==y,"joint proofs differ "+when); } 
                REQ(q2.ComparePositionMap(f),"position map differs from the forest "+when); } };
        consistent("after verify");
        if((mode&M_BADMOD)&&R(g,2)){ V B=bad_targets(g,n); PSnap b=snap(q2,universe); logop("bad modify "+str(B)); auto al=mk(u,R(g,3)); REQ(!q2.Modify(al,B),"unacceptable targets accepted"); PSnap a=snap(q2,universe); REQ(a==b,"rejected modification changed the pollard:"+diff(b,a)); }
        std::vector<Leaf> al; int na=R(g,10); if(st==0) na=1+R(g,R(g,6)==0?40:14); for(int i=0;i<na;i++){ Hash x=H(u++); if(zero&&u==4){ x.fill(0);} al.push_back({x,R(g,4)<remp}); universe.push_back(x);} 
        V D; for(auto t:T) if(!(mode&M_PARTIAL)||R(g,2)) D.push_back(t);
        UndoBatch ub; logop("modify(add "+str(al.size())+", remove "+str(D)+")"); REQ(f.Modify(ub,al,D),"forest rejected the modification"); REQ(q2.Modify(al,D),"pollard rejected the modification"); for(auto d:D) rem.erase(lv[d]); for(auto&x:al) if(x.second) rem.insert(x.first);
        consistent("after modify");
    }
}
static void hists(const char* nm,int mode,int q,int t,int steps=9){ int N=g_tier?t:q; for(int i=0;i<N;i++){ uint64_t s=g_seed*1000003ull*(mode+1)+i; run_case(std::string(nm)+" mode="+str(mode)+" seed="+str(s),true,[&]{ pollard_hist(s,mode,steps); }); } }
// all target subsets of small forests, pollards built in three ways
static std::unique_ptr<Pollard> build(int kind,const VH& lv,const RamForest& f){ if(kind==0) return std::make_unique<Pollard>(roots_of(f),lv.size()); auto q=std::make_unique<Pollard>(0); std::vector<Leaf> l; for(size_t i=0;i<lv.size();i++) l.push_back({lv[i],kind==1?false:kind==2?true:(i%3==1)}); q->Modify(l,{}); return q; }
static void small_forest(RamForest& f,uint64_t n,VH& lv){ uint64_t u=1; UndoBatch ub; f.Modify(ub,mk(u,n),{}); lv=leaves_of(f); }
static void run_C14(){
    // exhaustive single-defect tampering of small proofs
    for(uint64_t n=1;n<=(g_tier?9u:7u);n++) for(uint64_t m=1;m<(1ull<<n);m++) for(int kind=0;kind<4;kind++){ V T=subset(n,m); run_case("soundness "+tstr(n,T)+" pollard="+str(kind),true,[&]{ RamForest f(0); VH lv; small_forest(f,n,lv); BatchProof p; VH th=hseq(lv,T); f.Prove(p,th); VH h=p.GetHashes();
            auto attempt=[&](const V& t,const VH& hh,const VH& x,const char* what,bool strict){ auto q=build(kind,lv,f); BatchProof b(t,hh); bool ok=q->Verify(b,x); if(ok&&(strict||!targets_right(lv,b.GetSortedTargets(),x))) throw Fail{std::string("accepted a tampered proof: ")+what}; };
            for(size_t i=0;i<h.size();i++){ VH a=h; a[i][i%32]^=0x10; attempt(T,a,th,"one proof hash changed",true); a[i].fill(0); attempt(T,a,th,"one proof hash zeroed",true); a=h; a.erase(a.begin()+i); attempt(T,a,th,"one proof hash dropped",kind==0); }
            for(size_t i=0;i<=h.size();i++){ VH a=h; a.insert(a.begin()+i,H(5555)); attempt(T,a,th,"surplus proof hash",true); if(i<h.size()){ a=h; a.insert(a.begin()+i,h[i]); attempt(T,a,th,"duplicated proof hash",true);} }
            for(size_t i=0;i+1<h.size();i++){ VH a=h; std::swap(a[i],a[i+1]); attempt(T,a,th,"proof hashes swapped",true); }
            for(size_t i=0;i<th.size();i++){ VH a=th; a[i][31]^=1; attempt(T,h,a,"target hash changed",true); for(uint64_t j=0;j<n;j++) if(j!=T[i]){ a=th; a[i]=lv[j]; attempt(T,h,a,"target hash replaced",true);} a=th; a.erase(a.begin()+i); attempt(T,h,a,"target hash missing",true); V t=T; t.erase(t.begin()+i); attempt(t,h,a,"target and hash removed",false); attempt(t,h,th,"target removed",true); }
            for(uint64_t m2=1;m2<(1ull<<n);m2++) if(__builtin_popcountll(m2)==(int)T.size()&&m2!=m){ attempt(subset(n,m2),h,th,"other target positions",true); }
            { VH a=th; a.push_back(H(99)); attempt(T,h,a,"surplus target hash",true); V t=T; t.push_back(n); attempt(t,h,a,"target outside the forest",true); t=T; t.push_back(T.back()); a=th; a.push_back(th.back()); attempt(t,h,a,"duplicate target",true); }
        }); }
    hists("pollardhist",M_TAMPER|M_OMIT|M_PRUNE|M_PARTIAL|M_FROMROOTS,700,20000); hists("pollardhist",M_TAMPER|M_OMIT,500,10000); hists("pollardhist",M_TAMPER|M_HASHES|M_PRUNE|M_ZERO,300,10000);
}
static void run_C15(){
    for(uint64_t n=1;n<=(g_tier?12u:9u);n++) for(uint64_t m=1;m<(1ull<<n);m++) run_case("honest "+tstr(n,subset(n,m)),true,[&]{ V T=subset(n,m); RamForest f(0); VH lv; small_forest(f,n,lv); BatchProof p; VH th=hseq(lv,T); f.Prove(p,th); G g(m);
        for(int kind=0;kind<4;kind++){ auto q=build(kind,lv,f); uint64_t c0=q->NumCachedLeaves(); std::set<uint64_t> rem; if(kind==2) for(uint64_t i=0;i<n;i++) rem.insert(i); if(kind==3) for(uint64_t i=0;i<n;i++) if(i%3==1) rem.insert(i); EQ(c0,(uint64_t)rem.size(),"cached leaves of a new pollard"); BatchProof hp=(m+kind)%2?omit(*q,p,g,true):p; REQ(q->Verify(hp,th),"honest proof rejected (pollard kind "+str(kind)+", "+str(hp.GetHashes().size())+" of "+str(p.GetHashes().size())+" hashes)"); for(uint64_t t:T) rem.insert(t); EQ(q->NumCachedLeaves(),(uint64_t)rem.size(),"cached leaves after verify"); EQ(roots_of(*q),roots_of(f),"roots after verify"); REQ(q->Verify(BatchProof(T,{}),th),"proof without the cached hashes rejected the second time"); REQ(q->Verify(p,th),"full proof rejected the second time"); for(uint64_t t:T){ BatchProof a,b; REQ(q->Prove(a,{lv[t]}),"verified target not remembered"); f.Prove(b,{lv[t]}); REQ(a==b,"proof of a verified target differs"); } } });
    hists("pollardhist",M_OMIT|M_PARTIAL,700,20000); hists("pollardhist",M_OMIT|M_PRUNE|M_FROMROOTS|M_CHECKREM|M_ZERO,500,15000); hists("pollardhist",M_OMIT|M_TAMPER|M_PARTIAL|M_ZERO,400,10000);
}
static void run_C16(){
    for(uint64_t n=1;n<=(g_tier?8u:6u);n++) for(uint64_t m=1;m<(1ull<<n);m++) for(int kind=0;kind<4;kind++){ V T=subset(n,m); run_case("atomic "+tstr(n,T)+" pollard="+str(kind),true,[&]{ RamForest f(0); VH lv; small_forest(f,n,lv); BatchProof p; VH th=hseq(lv,T); f.Prove(p,th); VH h=p.GetHashes(); auto q=build(kind,lv,f); PSnap b=snap(*q,lv);
            auto attempt=[&](const V& t,const VH& hh,const VH& x,const char* what){ BatchProof bp(t,hh); bool ok=q->Verify(bp,x); PSnap a=snap(*q,lv); EQ(a.roots,b.roots,std::string("roots after verifying: ")+what); EQ(a.n,b.n,"leaf count"); if(!ok) REQ(a==b,std::string("rejected proof (")+what+") changed the pollard:"+diff(b,a)); else { q=build(kind,lv,f); } };
            for(size_t i=0;i<h.size();i++){ VH a=h; a[i][0]^=1; attempt(T,a,th,"proof hash changed"); a=h; a.erase(a.begin()+i); attempt(T,a,th,"proof hash dropped"); a=h; a.insert(a.begin()+i,h[i]); attempt(T,a,th,"surplus hash"); }
            attempt(T,{},th,"no hashes"); { VH a=h; a.push_back(H(3)); attempt(T,a,th,"trailing hash"); a=h; a.insert(a.begin(),H(3)); attempt(T,a,th,"leading hash"); }
            for(size_t i=0;i<th.size();i++){ VH a=th; a[i][5]^=4; attempt(T,h,a,"target hash changed"); a=th; a.erase(a.begin()+i); attempt(T,h,a,"target hash missing"); }
            for(size_t i=0;i+1<th.size();i++){ VH a=th; std::swap(a[i],a[i+1]); attempt(T,h,a,"target hashes swapped"); }
            { VH a=th; a.push_back(H(8)); attempt(T,h,a,"surplus target hash"); V t=T; t.push_back(n+1); attempt(t,h,a,"unknown target"); }
        }); }
    hists("pollardhist",M_TAMPER|M_ATOMIC|M_OMIT,350,8000,7); hists("pollardhist",M_TAMPER|M_ATOMIC|M_OMIT|M_PRUNE|M_PARTIAL|M_FROMROOTS,350,8000,7);
}
static void run_C17(){ 
    for(uint64_t n=1;n<=(g_tier?10u:8u);n++) for(uint64_t m=1;m<(1ull<<n);m++) run_case("agree "+tstr(n,subset(n,m)),true,[&]{ V T=subset(n,m); for(int kind=0;kind<4;kind++) for(int adds:{0,1,3}){ RamForest f(0); VH lv; small_forest(f,n,lv); auto q=build(kind,lv,f); BatchProof p; VH th=hseq(lv,T); f.Prove(p,th); REQ(q->Verify(p,th),"honest proof rejected"); uint64_t u=500; auto al=mk(u,adds); UndoBatch ub; f.Modify(ub,al,T); REQ(q->Modify(al,T),"pollard rejected the modification"); EQ(q->NumLeaves(),f.NumLeaves(),"leaf count"); EQ(roots_of(*q),roots_of(f),"roots (pollard kind "+str(kind)+", adds "+str(adds)+")"); } });
    hists("pollardhist",M_HASHES|M_PARTIAL,700,20000); hists("pollardhist",M_HASHES|M_PRUNE|M_FROMROOTS|M_TAMPER|M_OMIT|M_PARTIAL,600,15000); hists("pollardhist",M_HASHES|M_OMIT,300,10000,14); }
static void run_C18(){ hists("pollardhist",M_CHECKREM,600,15000); hists("pollardhist",M_CHECKREM|M_PARTIAL|M_OMIT,700,20000); hists("pollardhist",M_CHECKREM|M_PRUNE|M_TAMPER|M_PARTIAL,500,15000); hists("pollardhist",M_CHECKREM|M_FROMROOTS|M_OMIT|M_PRUNE,300,10000); }
static void run_C20(){ run_C20_forest(); hists("pollardhist",M_BADMOD|M_OMIT|M_PARTIAL,400,10000,7);
    for(int i=0;i<(g_tier?3000:200);i++){ uint64_t s=g_seed*8713+i; run_case("pollardqueries seed="+str(s),true,[&]{ G g(s); RamForest f(0); uint64_t u=1; Pollard q(0); VH uni; for(int st=0;st<4;st++){ std::vector<Leaf> l; for(int k=R(g,9);k>0;k--){ l.push_back({H(u++),(bool)R(g,2)}); uni.push_back(l.back().first);} q.Modify(l,{}); UndoBatch ub; f.Modify(ub,l,{}); VH r0=roots_of(q); uint64_t c=q.CountNodes(), k=q.NumCachedLeaves(); PSnap a=snap(q,uni); q.ComparePositionMap(f); q.CountNodes(); roots_of(q); PSnap b=snap(q,uni); REQ(a==b&&roots_of(q)==r0&&q.CountNodes()==c&&q.NumCachedLeaves()==k,"queries changed the pollard:"+diff(a,b)); } }); } }
