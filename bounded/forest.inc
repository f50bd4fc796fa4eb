// ------------------------------------------------------------------ full forest oracle (public API only)
typedef std::vector<Hash> VH;
static std::string str(const Hash& h){ return hex(h); }
static std::string str(const VH& v){ std::string s="["; for(auto&h:v){ if(s.size()>1) s+=","; s+=hex(h,3);} return s+"]"; }
struct Merkle { uint64_t n; int h; std::vector<VH> d; VH roots;
    explicit Merkle(const VH& leaves):n(leaves.size()),h(rows_of(n)){ d.push_back(leaves); for(int r=1;r<=h;r++){ VH v; for(uint64_t i=0;i<(n>>r);i++) v.push_back(PH(d[r-1][2*i],d[r-1][2*i+1])); d.push_back(v);} for(int r=h;r>=0;r--) if(n>>r&1) roots.push_back(d[r][(n>>r)-1]); }
    const Hash& at(uint64_t pos) const { for(int r=0;r<=h;r++) if(pos<off(h,r)+(1ull<<(h-r))) return d[r].at(pos-off(h,r)); throw Fail{"oracle position"}; }
};
static VH leaves_of(const RamForest& f){ VH v; for(uint64_t i=0;i<f.NumLeaves();i++) v.push_back(f.GetLeaf(i)); return v; }
static VH roots_of(const Accumulator& f){ VH r; f.Roots(r); return r; }
// Every observable fact about the forest: leaf count, leaves, roots, positions, and every inner node (via proofs).
static void check_forest(const RamForest& f,const VH& leaves,const VH& gone,const std::string& when){
    EQ(f.NumLeaves(),(uint64_t)leaves.size(),"leaf count "+when);
    for(uint64_t i=0;i<leaves.size();i++) EQ(f.GetLeaf(i),leaves[i],"leaf "+str(i)+" "+when);
    Merkle m(leaves); EQ(roots_of(f),m.roots,"roots "+when);
    size_t step=leaves.size()>400?leaves.size()/200:1;
    for(uint64_t i=0;i<leaves.size();i+=step){ BatchProof p; REQ(f.Prove(p,{leaves[i]}),"leaf "+str(i)+" cannot be proven "+when); EQ(p.GetTargets(),V{i},"position of leaf "+str(i)+" "+when);
        V pp,c; proof_oracle(m.n,{i},pp,c); VH e; for(uint64_t x:pp) e.push_back(m.at(x)); EQ(p.GetHashes(),e,"node hashes next to the path of leaf "+str(i)+" "+when); }
    for(auto& g:gone){ BatchProof p; REQ(!f.Prove(p,{g}),"removed leaf "+hex(g)+" is still provable "+when); }
}
static void check_set(const RamForest& f,VH expect,const std::string& when){ VH a=leaves_of(f); std::sort(a.begin(),a.end()); std::sort(expect.begin(),expect.end()); REQ(a==expect,"set of leaves differs "+when+": got "+str(a)+", expected "+str(expect)); }
static std::vector<Leaf> mk(uint64_t& uniq,int k){ std::vector<Leaf> v; for(int i=0;i<k;i++) v.push_back({H(uniq++),false}); return v; }
static VH hs(const std::vector<Leaf>& l){ VH v; for(auto&x:l) v.push_back(x.first); return v; }
static V dels(G& g,uint64_t n){ if(n==0||R(g,5)==0) return {}; if(R(g,12)==0){ V v; for(uint64_t i=0;i<n;i++) v.push_back(i); return v; } if(R(g,3)==0){ V v; int d=1+R(g,9); for(uint64_t i=0;i<n;i++) if(R(g,10)<(uint64_t)d) v.push_back(i); return v; } return rand_targets(g,n,1+n/2); }

// large forests: every leaf's position and the roots, inner nodes next to a sample of paths
static void big_check(const RamForest& f,const VH& leaves,const std::string& when){
    EQ(f.NumLeaves(),(uint64_t)leaves.size(),"leaf count "+when); Merkle m(leaves); EQ(roots_of(f),m.roots,"roots "+when);
    for(uint64_t i=0;i<leaves.size();i++){ EQ(f.GetLeaf(i),leaves[i],"leaf "+str(i)+" "+when); }
    V T=dense(leaves.size(),1); VH th; for(uint64_t t:T) th.push_back(leaves[t]); BatchProof p; REQ(f.Prove(p,th),"leaves cannot be proven "+when); EQ(p.GetTargets(),T,"positions of leaves "+when); V pp,c; proof_oracle(m.n,T,pp,c); VH e; for(uint64_t x:pp) e.push_back(m.at(x)); EQ(p.GetHashes(),e,"proof hashes "+when);
    T.clear(); for(uint64_t i=0;i<leaves.size();i+=97) T.push_back(i); th.clear(); for(uint64_t t:T) th.push_back(leaves[t]); BatchProof p2; REQ(f.Prove(p2,th),"leaves cannot be proven "+when); EQ(p2.GetTargets(),T,"positions of leaves "+when); pp.clear(); c.clear(); proof_oracle(m.n,T,pp,c); e.clear(); for(uint64_t x:pp) e.push_back(m.at(x)); EQ(p2.GetHashes(),e,"proof hashes "+when);
}
static void big_add(uint64_t a,uint64_t b){ RamForest f(0); uint64_t u=1; auto l1=mk(u,a), l2=mk(u,b); UndoBatch ub; REQ(f.Modify(ub,l1,{}),"add rejected"); VH e=hs(l1); big_check(f,e,"after the first batch"); REQ(f.Modify(ub,l2,{}),"add rejected"); EQ(ub.GetNumAdds(),b,"number of additions in the undo data"); for(auto&x:hs(l2)) e.push_back(x); big_check(f,e,"after the second batch"); }
static void big_remove(uint64_t n,int pat,int mode){ // mode 0: check the removal, 1: check the undo
    RamForest f(0); uint64_t u=1; auto l=mk(u,n); UndoBatch u0,ub; REQ(f.Modify(u0,l,{}),"add rejected"); VH b=hs(l); V T=dense(n,pat); REQ(f.Modify(ub,{},T),"removal rejected"); VH gone,keep; { std::set<uint64_t> s(T.begin(),T.end()); for(uint64_t i=0;i<n;i++) (s.count(i)?gone:keep).push_back(b[i]); }
    if(mode==0){ check_set(f,keep,"after removing"); big_check(f,leaves_of(f),"after removing"); for(auto& x:gone){ BatchProof p; REQ(!f.Prove(p,{x}),"removed leaf is still provable"); } }
    else { EQ(ub.GetDeletedPositions(),T,"positions in the undo data"); EQ((uint64_t)ub.GetDeletedHashes().size(),(uint64_t)T.size(),"hashes in the undo data"); REQ(f.Undo(ub),"undo rejected"); big_check(f,b,"after undo"); }
}
static void run_C07(){
    for(int a=0;a<=(g_tier?70:34);a++) for(int b=0;b<=(g_tier?40:18);b++) run_case("add "+str(a)+" then "+str(b),b>0,[&]{ RamForest f(0); uint64_t u=1; auto l1=mk(u,a), l2=mk(u,b); VH e=hs(l1); REQ(f.Modify(*std::make_unique<UndoBatch>(),l1,{}),"add rejected"); check_forest(f,e,{},"after the first batch"); Accumulator& acc=f; REQ(acc.Modify(l2,{}),"add rejected"); for(auto&x:hs(l2)) e.push_back(x); check_forest(f,e,{},"after the second batch"); });
    for(uint64_t a:{(uint64_t)65537,(uint64_t)3}) run_case("add "+str(a)+" then 66000",true,[&]{ big_add(a,66000); });
    int N=g_tier?4000:250;
    for(int i=0;i<N;i++){ uint64_t s=g_seed*100003+i; run_case("addhist seed="+str(s),true,[&]{ G g(s); RamForest f(0); uint64_t u=1; bool big=R(g,12)==0; for(int st=0;st<6;st++){ V T=dels(g,f.NumLeaves()); if(R(g,2)) T.clear(); UndoBatch ub; 
            REQ(f.Modify(ub,{},T),"removal rejected"); logop("remove "+str(T)); VH before=leaves_of(f); auto l=mk(u,R(g,big?700:14)); logop("add "+str(l.size())); REQ(f.Modify(ub,l,{}),"add rejected"); for(auto&x:hs(l)) before.push_back(x); check_forest(f,before,{},"after adding"); if(R(g,4)==0&&l.size()){ REQ(f.Undo(ub),"undo rejected"); logop("undo"); before.resize(before.size()-l.size()); check_forest(f,before,{},"after undoing the addition"); } } }); }
}
static void remove_case(uint64_t n,const V& T,int adds){
    RamForest f(0); uint64_t u=1; auto l=mk(u,n); UndoBatch ub; REQ(f.Modify(ub,l,{}),"add rejected"); VH b=leaves_of(f);
    VH gone,keep; { std::set<uint64_t> s(T.begin(),T.end()); for(uint64_t i=0;i<n;i++) (s.count(i)?gone:keep).push_back(b[i]); }
    auto al=mk(u,adds); if(T.size()%2){ REQ(((Accumulator&)f).Modify(al,T),"removal rejected"); } else REQ(f.Modify(ub,al,T),"removal rejected");
    for(auto&x:hs(al)) keep.push_back(x);
    check_set(f,keep,"after removing"); check_forest(f,leaves_of(f),gone,"after removing");
}
static void hist_case(uint64_t s,int mode){ // random history with removals, additions and undo; full check after every step
    G g(s); RamForest f(0); uint64_t u=1; bool big=R(g,15)==0; std::vector<std::tuple<UndoBatch,VH,VH>> stack; VH gone;
    int steps=mode==2?8:7;
    for(int st=0;st<steps;st++){
        if(mode==2&&!stack.empty()&&R(g,3)==0){ int k=1+R(g,stack.size()); while(k--){ auto [ub,lv,added]=stack.back(); stack.pop_back(); logop("undo"); REQ(f.Undo(ub),"undo rejected"); check_forest(f,lv,added,"after undo"); } gone.clear(); continue; }
        VH b=leaves_of(f); V T=dels(g,b.size()); int na=R(g,big?300:12); auto l=mk(u,na); logop("modify(add "+str(na)+", remove "+str(T)+")");
        UndoBatch ub; REQ(f.Modify(ub,l,T),"modification rejected");
        std::set<uint64_t> s2(T.begin(),T.end()); VH keep; for(uint64_t i=0;i<b.size();i++) if(!s2.count(i)) keep.push_back(b[i]); else gone.push_back(b[i]); for(auto&x:hs(l)) keep.push_back(x);
        check_set(f,keep,"after modify"); check_forest(f,leaves_of(f),gone,"after modify");
        EQ(ub.GetNumAdds(),(uint64_t)na,"number of additions in the undo data"); EQ(ub.GetDeletedPositions(),T,"positions in the undo data"); { VH a=ub.GetDeletedHashes(),e; for(uint64_t t:T) e.push_back(b[t]); std::sort(a.begin(),a.end()); std::sort(e.begin(),e.end()); EQ(a,e,"removed hashes in the undo data"); }
        stack.push_back({ub,b,hs(l)});
    }
    if(mode==2) while(!stack.empty()){ auto [ub,lv,added]=stack.back(); stack.pop_back(); logop("undo"); REQ(f.Undo(ub),"undo rejected"); check_forest(f,lv,added,"after undo"); }
}
static void run_C08(){
    int E=g_tier?12:9; for(uint64_t n=1;n<=(uint64_t)E;n++) for(uint64_t m=1;m<(1ull<<n);m++){ V T=subset(n,m); run_case("remove "+tstr(n,T),true,[&]{ remove_case(n,T,m%3==0?m%5:0); }); }
    G g(g_seed*13+1); for(int i=0;i<(g_tier?5000:400);i++){ uint64_t n=1+R(g,i%10==0?600:70); V T=dels(g,n); run_case("remove "+tstr(n,T),T.size()>0,[&]{ remove_case(n,T,R(g,4)==0?R(g,9):0); }); }
    for(int pat:{1,3,4,6}) run_case("remove dense n=140001 pattern="+str(pat),true,[&]{ big_remove(140001,pat,0); });
    run_case("remove dense n=262144 pattern=3",true,[&]{ big_remove(262144,3,0); });
    for(int i=0;i<(g_tier?3000:200);i++){ uint64_t s=g_seed*7919+i; run_case("history seed="+str(s),true,[&]{ hist_case(s,1); }); }
}
static void undo_case(uint64_t n,const V& T,int adds){
    RamForest f(0); uint64_t u=1; auto l=mk(u,n); UndoBatch u0,ub; REQ(f.Modify(u0,l,{}),"add rejected"); VH b=leaves_of(f); auto al=mk(u,adds); REQ(f.Modify(ub,al,T),"modification rejected");
    EQ(ub.GetNumAdds(),(uint64_t)adds,"number of additions in the undo data"); EQ(ub.GetDeletedPositions(),T,"positions in the undo data"); EQ((uint64_t)ub.GetDeletedHashes().size(),(uint64_t)T.size(),"hashes in the undo data");
    REQ(f.Undo(ub),"undo rejected"); check_forest(f,b,hs(al),"after undo"); REQ(f.Undo(u0),"second undo rejected"); check_forest(f,{},b,"after undoing everything");
    // a forest built afresh is equal, and the undone forest behaves like it
    RamForest f2(0); UndoBatch u2; auto l2=l; f2.Modify(u2,l2,{}); UndoBatch u3; REQ(f.Modify(u3,l2,{}),"add after undo rejected"); REQ(f==f2,"forest differs from a freshly built one after undo and redo");
}
static void run_C09(){
    int E=g_tier?12:8; for(uint64_t n=0;n<=(uint64_t)E;n++) for(uint64_t m=0;m<(1ull<<n);m++) for(int a:{0,1,3,6}){ V T=subset(n,m); run_case("undo "+tstr(n,T)+" adds="+str(a),T.size()>0||a>0,[&]{ undo_case(n,T,a); }); }
    G g(g_seed*17+1); for(int i=0;i<(g_tier?4000:300);i++){ uint64_t n=1+R(g,i%10==0?400:60); V T=dels(g,n); int a=R(g,20); run_case("undo "+tstr(n,T)+" adds="+str(a),true,[&]{ undo_case(n,T,a); }); }
    for(int pat:{1,3,6}) run_case("undo dense n=140001 pattern="+str(pat),true,[&]{ big_remove(140001,pat,1); });
    for(int i=0;i<(g_tier?3000:200);i++){ uint64_t s=g_seed*6007+i; run_case("undohistory seed="+str(s),true,[&]{ hist_case(s,2); }); }
}

// ------------------------------------------------------------------ serialization
static void be32(std::vector<uint8_t>& b,uint32_t x){ b.push_back(x>>24); b.push_back(x>>16); b.push_back(x>>8); b.push_back(x); }
static std::string bstr(const std::vector<uint8_t>& b){ std::string s; char t[3]; for(size_t i=0;i<b.size()&&i<60;i++){ snprintf(t,3,"%02x",b[i]); s+=t; } if(b.size()>60) s+="..("+str(b.size())+" bytes)"; return s; }
static uint32_t r32(G& g){ int k=R(g,33); return k>=32?(uint32_t)g():(uint32_t)(g()&((1ull<<k)-1)); }
static BatchProof rbp(G& g){ V T; int k=R(g,10); for(int i=0;i<k;i++) T.push_back(r32(g)); VH h(R(g,6)); for(auto&x:h) for(auto&b:x) b=g(); return BatchProof(T,h); }
static void bp_accept(const std::vector<uint8_t>& b,uint64_t salt){
    bool ok=b.size()>=8; uint64_t nt=0,nh=0; if(ok){ for(int i=0;i<4;i++){ nt=nt<<8|b[i]; nh=nh<<8|b[4+i]; } ok=(uint64_t)b.size()==8+4*nt+32*nh; }
    G g(salt); BatchProof q=rbp(g); V t0=q.GetTargets(), s0=q.GetSortedTargets(); VH h0=q.GetHashes();
    std::vector<uint8_t> exact(b); exact.shrink_to_fit();
    bool got=q.Unserialize(exact); EQ((uint64_t)got,(uint64_t)ok,"acceptance of bytes "+bstr(b));
    if(!ok){ EQ(q.GetTargets(),t0,"targets after rejection"); EQ(q.GetSortedTargets(),s0,"sorted targets after rejection"); EQ(q.GetHashes(),h0,"hashes after rejection"); return; }
    V T; for(uint64_t i=0;i<nt;i++){ uint64_t x=0; for(int j=0;j<4;j++) x=x<<8|b[8+4*i+j]; T.push_back(x);} VH hh; for(uint64_t i=0;i<nh;i++){ Hash h; std::copy(b.begin()+8+4*nt+32*i,b.begin()+8+4*nt+32*i+32,h.begin()); hh.push_back(h);} 
    EQ(q.GetTargets(),T,"targets"); EQ(q.GetHashes(),hh,"hashes"); std::sort(T.begin(),T.end()); EQ(q.GetSortedTargets(),T,"sorted targets");
}
static std::vector<uint8_t> rbytes(G& g){ // adversarial byte strings: counts that nearly or modulo 2^32 fit
    static const uint32_t special[]={0,1,2,7,8,0x08000000,0x10000000,0x40000000,0x80000000,0xC0000000,0xFFFFFFFF,0x38E38E39,0x71C71C72,0xAAAAAAAB,0x07FFFFFF,0x20000000,0x71C71C7,0x8E38E38E,0xE38E38E4};
    auto n=[&]{ return R(g,3)?(uint32_t)R(g,6):special[R(g,sizeof(special)/4)]+(uint32_t)R(g,2); };
    uint32_t a=n(),c=n(); std::vector<uint8_t> b; be32(b,a); be32(b,c);
    uint64_t sz; switch(R(g,5)){ case 0: sz=8+4ull*a+32ull*c; break; case 1: sz=(uint32_t)(8u+4u*a+32u*c); break; case 2: sz=(uint32_t)(8u+36u*c); break; case 3: sz=8+36ull*c; break; default: sz=R(g,60);} 
    if(R(g,4)==0) sz+=R(g,3)-1; if(sz>4000||sz>(1ull<<40)) sz=R(g,200);
    while(b.size()<sz) b.push_back(g()); b.resize(sz); return b;
}
static void big_bytes(uint64_t nt,uint64_t nh,bool undo){ // more elements than 8-bit and 16-bit counters hold
    G g(nt*7+nh); V T; for(uint64_t i=0;i<nt;i++) T.push_back(r32(g)); VH h(nh); for(auto&x:h) for(auto&b:x) b=g(); std::vector<uint8_t> b,e;
    if(!undo){ BatchProof a(T,h); a.Serialize(b); be32(e,nt); be32(e,nh); for(uint64_t t:T) be32(e,t); for(auto&x:h) e.insert(e.end(),x.begin(),x.end()); REQ(b==e,"serialized bytes differ from the documented layout"); V srt=T; std::sort(srt.begin(),srt.end()); EQ(a.GetSortedTargets(),srt,"sorted targets of a new proof"); bp_accept(b,nt); BatchProof c; REQ(c.Unserialize(b),"serialized proof rejected"); REQ(c==a,"proof differs after round trip"); }
}
static void run_C10(){
    for(uint64_t a:{255,256,300,65535,65536,70000}) for(uint64_t b:{0,255,256,257,66000}) run_case("batchproof of "+str(a)+" targets and "+str(b)+" hashes",true,[&]{ big_bytes(a,b,false); });
    G g(g_seed*5+2); int N=g_tier?60000:6000;
    for(int i=0;i<N;i++){ uint64_t s=g(); run_case("batchproof seed="+str(s),true,[&]{ G q(s); BatchProof a=rbp(q); std::vector<uint8_t> b(R(q,50),7), e; a.Serialize(b); be32(e,a.GetTargets().size()); be32(e,a.GetHashes().size()); for(uint64_t t:a.GetTargets()) be32(e,t); for(auto&h:a.GetHashes()) e.insert(e.end(),h.begin(),h.end());
            REQ(b==e,"serialized bytes "+bstr(b)+" differ from the documented layout "+bstr(e)); BatchProof c=R(q,2)?rbp(q):BatchProof(); REQ(c.Unserialize(b),"serialized proof rejected"); REQ(c==a,"proof differs after round trip"); EQ(c.GetTargets(),a.GetTargets(),"targets"); EQ(c.GetSortedTargets(),a.GetSortedTargets(),"sorted targets"); EQ(c.GetHashes(),a.GetHashes(),"hashes");
            BatchProof d=rbp(q); REQ((d==a)==(d.GetTargets()==a.GetTargets()&&d.GetHashes()==a.GetHashes()),"proof equality"); 
            for(size_t k=0;k<b.size();k+=1+b.size()/9){ std::vector<uint8_t> t(b.begin(),b.begin()+k); bp_accept(t,s); } }); }
    for(int i=0;i<N;i++){ uint64_t s=g(); run_case("batchproofbytes seed="+str(s),true,[&]{ G q(s); auto b=rbytes(q); logop(bstr(b)); bp_accept(b,s); }); }
}
static UndoBatch rub(G& g){ V T; VH h; int k=R(g,9); for(int i=0;i<k;i++){ T.push_back(r32(g)); Hash x; for(auto&b:x) b=g(); h.push_back(x);} return UndoBatch(r32(g),T,h); }
static void ub_accept(const std::vector<uint8_t>& b,uint64_t salt){
    bool ok=b.size()>=8; uint64_t na=0,nt=0; if(ok){ for(int i=0;i<4;i++){ na=na<<8|b[i]; nt=nt<<8|b[4+i]; } ok=(uint64_t)b.size()==8+36*nt; }
    G g(salt); UndoBatch q=rub(g); std::vector<uint8_t> exact(b); exact.shrink_to_fit(); bool got=q.Unserialize(exact); EQ((uint64_t)got,(uint64_t)ok,"acceptance of bytes "+bstr(b)); if(!ok) return;
    V T; for(uint64_t i=0;i<nt;i++){ uint64_t x=0; for(int j=0;j<4;j++) x=x<<8|b[8+4*i+j]; T.push_back(x);} VH hh; for(uint64_t i=0;i<nt;i++){ Hash h; std::copy(b.begin()+8+4*nt+32*i,b.begin()+8+4*nt+32*i+32,h.begin()); hh.push_back(h);} 
    EQ(q.GetNumAdds(),na,"additions"); EQ(q.GetDeletedPositions(),T,"positions"); EQ(q.GetDeletedHashes(),hh,"hashes");
}
static void big_undo_bytes(uint64_t na,uint64_t nt){ G g(nt*7+na); V T; VH h; std::vector<uint8_t> b,e; for(uint64_t i=0;i<nt;i++){ T.push_back(r32(g)); Hash x; for(auto&y:x) y=g(); h.push_back(x); } UndoBatch a(na,T,h); a.Serialize(b); be32(e,na); be32(e,nt); for(uint64_t t:T) be32(e,t); for(auto&x:h) e.insert(e.end(),x.begin(),x.end()); REQ(b==e,"serialized bytes differ from the documented layout"); ub_accept(b,nt); UndoBatch c; REQ(c.Unserialize(b),"serialized undo data rejected"); REQ(c==a,"undo data differs after round trip"); }
static void run_C11(){
    for(uint64_t n:{255,256,257,4000,65535,65536,70000}) for(uint64_t a:{(uint64_t)0,(uint64_t)65536,(uint64_t)0xFFFFFFFF}) run_case("undobatch of "+str(n)+" entries, additions="+str(a),true,[&]{ big_undo_bytes(a,n); });
    G g(g_seed*9+2); int N=g_tier?60000:6000;
    for(int i=0;i<N;i++){ uint64_t s=g(); run_case("undobatch seed="+str(s),true,[&]{ G q(s); UndoBatch a=rub(q); std::vector<uint8_t> b(R(q,50),7), e; a.Serialize(b); be32(e,a.GetNumAdds()); be32(e,a.GetDeletedPositions().size()); for(uint64_t t:a.GetDeletedPositions()) be32(e,t); for(auto&h:a.GetDeletedHashes()) e.insert(e.end(),h.begin(),h.end());
            REQ(b==e,"serialized bytes "+bstr(b)+" differ from the documented layout "+bstr(e)); UndoBatch c=R(q,2)?rub(q):UndoBatch(); REQ(c.Unserialize(b),"serialized undo data rejected"); REQ(c==a,"undo data differs after round trip"); EQ(c.GetNumAdds(),a.GetNumAdds(),"additions"); EQ(c.GetDeletedPositions(),a.GetDeletedPositions(),"positions"); EQ(c.GetDeletedHashes(),a.GetDeletedHashes(),"hashes");
            UndoBatch d=rub(q); REQ((d==a)==(d.GetNumAdds()==a.GetNumAdds()&&d.GetDeletedPositions()==a.GetDeletedPositions()&&d.GetDeletedHashes()==a.GetDeletedHashes()),"equality");
            for(size_t k=0;k<b.size();k+=1+b.size()/9){ std::vector<uint8_t> t(b.begin(),b.begin()+k); ub_accept(t,s); } }); }
    for(int i=0;i<N;i++){ uint64_t s=g(); run_case("undobatchbytes seed="+str(s),true,[&]{ G q(s); auto b=rbytes(q); logop(bstr(b)); ub_accept(b,s); }); }
}

// ------------------------------------------------------------------ persistence
struct Scratch { std::string dir; Scratch(){ char t[]="/tmp/verifXXXXXX"; REQ(mkdtemp(t),"mkdtemp"); dir=t; } ~Scratch(){ unlink((dir+"/f").c_str()); rmdir(dir.c_str()); } };
static void run_C12(){
    for(uint64_t n=0;n<=(g_tier?140u:40u);n++) for(uint64_t d:{(uint64_t)0,n/3,n}) run_case("store n="+str(n)+" removed="+str(d),n>0,[&]{ Scratch sc; std::string p=sc.dir+"/f"; VH lv,gone; { RamForest f(p); EQ(f.NumLeaves(),(uint64_t)0,"leaf count of a new file"); uint64_t u=1; UndoBatch ub; f.Modify(ub,mk(u,n),{}); VH b=leaves_of(f); if(d%2) REQ(f.Commit(),"commit failed"); V T; for(uint64_t i=0;i<d;i++){ T.push_back(n-d+i); } f.Modify(ub,{},T); lv=leaves_of(f); for(auto&x:b) if(std::find(lv.begin(),lv.end(),x)==lv.end()) gone.push_back(x); }
            { RamForest f(p); check_forest(f,lv,gone,"after reopening"); } { RamForest f(p); check_forest(f,lv,gone,"after reopening twice"); } });
    for(int i=0;i<(g_tier?1500:120);i++){ uint64_t s=g_seed*4409+i; run_case("storehistory seed="+str(s),true,[&]{ G g(s); Scratch sc; std::string p=sc.dir+"/f"; VH lv; uint64_t u=1; bool big=R(g,10)==0;
            std::vector<std::pair<UndoBatch,VH>> stack;
            for(int ses=0;ses<4;ses++){ logop("open"); RamForest f(p); check_forest(f,lv,{},"after reopening"); RamForest shadow(0); 
                int ops=R(g,4); for(int k=0;k<ops;k++){ if(!stack.empty()&&R(g,3)==0){ auto [ub,b]=stack.back(); stack.pop_back(); logop("undo"); REQ(f.Undo(ub),"undo rejected"); check_forest(f,b,{},"after undo"); continue; } V T=dels(g,f.NumLeaves()); int na=R(g,big?300:13); logop("modify(add "+str(na)+", remove "+str(T)+")"); UndoBatch ub; VH b=leaves_of(f); REQ(f.Modify(ub,mk(u,na),T),"modification rejected"); stack.push_back({ub,b}); if(R(g,4)==0){ logop("commit"); REQ(f.Commit(),"commit failed"); } check_forest(f,leaves_of(f),{},"after modify"); }
                lv=leaves_of(f); } RamForest f(p); check_forest(f,lv,{},"after reopening"); }); }
}

// ------------------------------------------------------------------ proving
static void prove_check(const RamForest& f,const Merkle& m,const V& order){
    VH th; for(uint64_t t:order) th.push_back(m.d[0][t]); BatchProof p; REQ(f.Prove(p,th),"proving "+str(order)+" failed"); V srt=order; std::sort(srt.begin(),srt.end());
    EQ(p.GetTargets(),order,"targets"); EQ(p.GetSortedTargets(),srt,"sorted targets"); V pp,c; proof_oracle(m.n,srt,pp,c); VH e; for(uint64_t x:pp) e.push_back(m.at(x)); EQ(p.GetHashes(),e,"proof hashes for "+str(order)); REQ(p.CheckSanity(m.n),"own proof fails the sanity check");
}
static void run_C13(){
    for(uint64_t n=0;n<=(g_tier?13u:10u);n++) run_case("prove all subsets n="+str(n),n>0,[&]{ RamForest f(0); uint64_t u=1; UndoBatch ub; f.Modify(ub,mk(u,n),{}); VH lv=leaves_of(f); Merkle m(lv); for(uint64_t s=0;s<(1ull<<n);s++){ V T=subset(n,s); prove_check(f,m,T); if(T.size()>1){ std::reverse(T.begin(),T.end()); prove_check(f,m,T);} } check_forest(f,lv,{},"after proving"); });
    for(int i=0;i<(g_tier?4000:300);i++){ uint64_t s=g_seed*3571+i; run_case("prove history seed="+str(s),true,[&]{ G g(s); RamForest f(0); uint64_t u=1; bool big=R(g,10)==0; VH goneall; for(int st=0;st<4;st++){ V T=dels(g,f.NumLeaves()); VH b=leaves_of(f); for(uint64_t t:T) goneall.push_back(b[t]); int na=R(g,big?300:20); logop("modify(add "+str(na)+", remove "+str(T)+")"); UndoBatch ub; REQ(f.Modify(ub,mk(u,na),T),"modification rejected"); VH lv=leaves_of(f); Merkle m(lv);
            for(int k=0;k<6;k++){ if(!m.n) break; V q=rand_targets(g,m.n,20); for(size_t j=q.size();j>1;j--) std::swap(q[j-1],q[R(g,j)]); logop("prove "+str(q)); prove_check(f,m,q);
                // absent hash or duplicate among them: must fail and leave the proof untouched
                VH th; for(uint64_t t:q) th.push_back(lv[t]); Hash absent=goneall.size()&&R(g,2)?goneall[R(g,goneall.size())]:H(1000000+k); VH bad=th; bad.insert(bad.begin()+R(g,bad.size()+1),absent); BatchProof pr({5,3},{H(7)}); REQ(!f.Prove(pr,bad),"proving an absent leaf succeeded"); EQ(pr.GetTargets(),V({5,3}),"targets after a failed proof"); EQ(pr.GetSortedTargets(),V({3,5}),"sorted targets after a failed proof"); EQ(pr.GetHashes(),VH{H(7)},"hashes after a failed proof");
                bad=th; bad.push_back(th[0]); REQ(!f.Prove(pr,bad),"proving the same leaf twice succeeded"); }
            check_forest(f,lv,goneall,"after proving"); } }); }
}

// ------------------------------------------------------------------ rejected modifications (forest part of C20)
static V bad_targets(G& g,uint64_t n){ for(;;){ V T=n?rand_targets(g,n,8):V{}; switch(R(g,6)){ case 0: T.push_back(n+R(g,3)); break; case 1: if(T.size()>1) std::swap(T[0],T[T.size()-1]); break; case 2: if(T.size()) T.push_back(T.back()); break; case 3: T.push_back(g()); break; case 4: for(uint64_t i=0;i<=n;i++) T.push_back(i); break; case 5: if(T.size()){ size_t i=R(g,T.size()); T.insert(T.begin()+i,T[i]); } else T.push_back(0); } if(!sane(n,T)) return T; } }
static void run_C20_forest(){
    for(int i=0;i<(g_tier?5000:350);i++){ uint64_t s=g_seed*2741+i; run_case("reject history seed="+str(s),true,[&]{ G g(s); RamForest f(0); uint64_t u=1; UndoBatch keep; for(int st=0;st<4;st++){ V T=dels(g,f.NumLeaves()); logop("modify(remove "+str(T)+")"); REQ(f.Modify(keep,mk(u,R(g,12)),T),"modification rejected"); VH lv=leaves_of(f);
            for(int k=0;k<5;k++){ V B=bad_targets(g,lv.size()); logop("bad "+str(B)); UndoBatch ub=keep; std::vector<Leaf> al=mk(u,R(g,4)); bool ok= k%2? f.Modify(ub,al,B) : ((Accumulator&)f).Modify(al,B); REQ(!ok,"unacceptable targets accepted"); REQ(ub==keep,"undo data changed by a rejected modification"); check_forest(f,lv,hs(al),"after a rejected modification"); }
            // queries
            RamForest g2(0); (void)(f==g2); f.ComparePositionMap(f); if(lv.size()) f.GetLeaf(0); BatchProof p; f.Prove(p,{H(999999)}); f.Verify(p,{H(3)}); roots_of(f); check_forest(f,lv,{},"after queries"); }
            // the undo data of the last accepted modification still works
            REQ(f.Undo(keep),"undo after rejected modifications failed"); }); }
}
