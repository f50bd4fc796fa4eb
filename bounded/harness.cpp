// Bounded stand-in / replay harness.  It runs the REAL code of /repo (compiled from the current
// working tree, never a model) on a stated, finite set of inputs and compares every result with an
// executable form of the contracts (specs/*.rs).  It is used (a) to replay a failed proof obligation
// on the real code, (b) as the labelled bounded stand-in for functions outside the verifier's reach.
//
//   harness <property> <tier> <seed>            run all cases
//   harness <property> replay "<case>"          run one case
#include <algorithm>
#include <array>
#include <bitset>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "include/utreexo.h"
#include "state.h"
#include "crypto/sha512.h"

using namespace utreexo;
typedef unsigned __int128 u128;
typedef std::vector<uint64_t> V;

// ------------------------------------------------------------------ infrastructure
struct Fail { std::string msg; };
static std::string str(uint64_t x){ return std::to_string(x); }
static std::string str(const V& v){ std::string s="["; for(size_t i=0;i<v.size();i++){ if(i)s+=","; s+=str(v[i]); } return s+"]"; }
static std::string hex(const Hash& h,int n=6){ char b[3]; std::string s; for(int i=0;i<n;i++){ snprintf(b,3,"%02x",h[i]); s+=b; } return s; }
static void req(bool ok, const std::string& m){ if(!ok) throw Fail{m}; }
#define REQ(c, m) do{ if(!(c)) throw Fail{std::string(m)}; }while(0)
#define EQ(a, b, m) do{ auto _a=(a); auto _b=(b); if(!(_a==_b)) throw Fail{std::string(m)+": got "+str(_a)+", expected "+str(_b)}; }while(0)

struct Shared { uint64_t evals, nontrivial; uint32_t nsamples; char cur[8192]; char log[16384]; char samples[5][600]; };
static Shared* sh;
static int g_tier=0; static uint64_t g_seed=1; static std::string g_only; static const int LIMIT=120;
static std::set<uint64_t> g_seen;   // hashes of distinct cases
static void logop(const std::string& s){ size_t l=strlen(sh->log); if(l+s.size()+3<sizeof(sh->log)){ strcpy(sh->log+l,s.c_str()); strcat(sh->log,"; "); } }
static void run_case(const std::string& name, bool nontrivial, const std::function<void()>& f){
    if(!g_only.empty() && name!=g_only) return;
    snprintf(sh->cur,sizeof(sh->cur),"%s",name.c_str()); sh->log[0]=0;
    sh->evals++;
    if(nontrivial && g_seen.insert(std::hash<std::string>()(name)).second){
        sh->nontrivial++;
        if(sh->nsamples<5 && (sh->nontrivial%97==1)) snprintf(sh->samples[sh->nsamples++],600,"%s",name.c_str());
    }
    alarm(LIMIT);
    try { f(); }
    catch(const Fail& e){ alarm(0); printf("FAIL\t%s\t%s\t%s\n",name.c_str(),e.msg.substr(0,4000).c_str(),sh->log); fflush(stdout); _exit(3); }
    catch(const std::exception& e){ alarm(0); printf("FAIL\t%s\texception: %s\t%s\n",name.c_str(),e.what(),sh->log); fflush(stdout); _exit(3); }
    alarm(0);
}
typedef std::mt19937_64 G;
static uint64_t R(G& g, uint64_t k){ return k? g()%k : 0; }

// ------------------------------------------------------------------ geometry oracle
static int rows_of(uint64_t n){ int h=0; while(h<64 && (u128(1)<<h) < n) ++h; return h; }
static uint64_t off(int h,int r){ return (uint64_t)((u128(1)<<(h+1)) - (u128(1)<<(h+1-r))); }
static uint64_t P(int h,int r,uint64_t i){ return off(h,r)+i; }
static V interesting_n(G& g,int count){
    V v; for(int k=0;k<=62;k++) for(int64_t d=-2;d<=2;d++){ int64_t x=(int64_t)(1ull<<k)+d; if(x>=0 && (uint64_t)x<=(1ull<<62)) v.push_back(x); }
    for(int i=0;i<count;i++){ int k=R(g,62); uint64_t x=(1ull<<k)|(g()&((1ull<<k)-1)); if(R(g,4)==0) x&=g()|(1ull<<k); v.push_back(x);} 
    return v;
}
static V interesting_idx(G& g,uint64_t cnt,int extra){ // indices < cnt
    std::set<uint64_t> s; if(cnt==0) return {};
    for(uint64_t x:{(uint64_t)0,(uint64_t)1,(uint64_t)2,(uint64_t)3,cnt-1,cnt-2,cnt-3,cnt/2,cnt/2-1,cnt/2+1}) if(x<cnt) s.insert(x);
    for(int i=0;i<extra;i++) s.insert(R(g,cnt));
    return V(s.begin(),s.end());
}

// ------------------------------------------------------------------ C01
static void c01_n(uint64_t n, const V* all, G& g){
    ForestState st(n); int h=rows_of(n);
    EQ((uint64_t)st.NumRows(),(uint64_t)h,"NumRows");
    EQ(st.MaxNodes(),(uint64_t)((u128(1)<<(h+1))-1),"MaxNodes");
    for(int r=0;r<=h;r++){
        EQ(st.RowOffset((uint8_t)r),off(h,r),"RowOffset(row "+str(r)+")");
        uint64_t cnt=1ull<<(h-r);
        V idx; if(cnt<=64 && all){ for(uint64_t i=0;i<cnt;i++) idx.push_back(i);} else idx=interesting_idx(g,cnt,6);
        for(uint64_t i:idx){
            uint64_t p=P(h,r,i); std::string at=" at row "+str(r)+" index "+str(i);
            EQ((uint64_t)st.DetectRow(p),(uint64_t)r,"DetectRow"+at);
            EQ(st.RowOffset(p),off(h,r),"RowOffset(pos)"+at);
            EQ(st.RightSibling(p),p|1,"RightSibling"+at);
            EQ(st.Sibling(p),p^1,"Sibling"+at); EQ(st.Cousin(p),p^2,"Cousin"+at);
            if(r<h){ EQ(st.Sibling(p),P(h,r,i^1),"Sibling geometry"+at); EQ(st.RightSibling(p),P(h,r,i|1),"RightSibling geometry"+at);
                if(r+1<h) EQ(st.Cousin(p),P(h,r,i^2),"Cousin geometry"+at);
                EQ(st.Parent(p),P(h,r+1,i>>1),"Parent"+at); EQ(st.Parent(st.Sibling(p)),st.Parent(p),"Parent of sibling"+at); }
            for(int k=0;r+k<=h;k++) EQ(st.Ancestor(p,k),P(h,r+k,i>>k),"Ancestor by "+str(k)+at);
            for(int k=0;k<=r;k++) EQ(st.LeftDescendant(p,k),P(h,r-k,i<<k),"LeftDescendant by "+str(k)+at);
            if(r>0){ EQ(st.LeftChild(p),P(h,r-1,2*i),"LeftChild"+at);
                EQ(st.Child(p,0),P(h,r-1,2*i),"Child 0"+at); EQ(st.Child(p,1),P(h,r-1,2*i+1),"Child 1"+at);
                EQ(st.Parent(st.Child(p,1)),p,"Parent(Child)"+at); }
        }
    }
}
static void run_C01(){
    G g(g_seed); 
    for(uint64_t n=0;n<=(g_tier?600u:140u);n++){ V a; run_case("position n="+str(n),n>1,[&]{ G g2(n); c01_n(n,&a,g2);}); }
    G gg(7*g_seed+3); for(uint64_t n: interesting_n(gg,g_tier?6000:600)) run_case("position n="+str(n),true,[&]{ G g2(n); c01_n(n,nullptr,g2);});
}

// ------------------------------------------------------------------ C02
static int tree_of(uint64_t n,int r,uint64_t i,uint64_t& base){ // row of the tree containing node (r,i); base = first leaf
    base=0; u128 leaf=u128(i)<<r;
    for(int t=62;t>=0;t--) if(n>>t&1){ if(leaf < u128(base)+(u128(1)<<t)) return t; base+=1ull<<t; }
    return -1;
}
static void c02_n(uint64_t n,bool full,G& g){
    ForestState st(n); int h=rows_of(n); int cnt=__builtin_popcountll(n);
    EQ((uint64_t)st.NumRoots(),(uint64_t)cnt,"NumRoots");
    V expect;
    for(int r=62;r>=0;r--) if(r<=h){ bool has=n>>r&1; EQ((uint64_t)st.HasRoot(r),(uint64_t)has,"HasRoot row "+str(r));
        if(has){ EQ(st.RootPosition(r),P(h,r,(n>>r)-1),"RootPosition row "+str(r)); expect.push_back(P(h,r,(n>>r)-1)); } }
    EQ(st.RootPositions(),expect,"RootPositions");
    V ms; if(full) for(uint64_t m=0;m<=n;m++) ms.push_back(m); else ms=interesting_idx(g,n+1,8);
    for(uint64_t m:ms){ V e; for(int r=62;r>=0;r--) if(m>>r&1) e.push_back(P(h,r,(m>>r)-1)); EQ(st.RootPositions(m),e,"RootPositions for "+str(m)+" leaves"); }
    for(int r=0;r<=h;r++){ uint64_t c=n>>r; V idx; if(full) for(uint64_t i=0;i<c;i++) idx.push_back(i); else idx=interesting_idx(g,c,8);
        for(uint64_t i:idx){ uint64_t base; int t=tree_of(n,r,i,base); uint64_t p=P(h,r,i); std::string at=" of row "+str(r)+" index "+str(i);
            int bigger=0; for(int q=t+1;q<=62;q++) if(n>>q&1) ++bigger;
            auto [tr,len,bits]=st.Path(p);
            EQ((uint64_t)tr,(uint64_t)bigger,"Path tree"+at); EQ((uint64_t)len,(uint64_t)(t-r),"Path length"+at);
            uint64_t mask=(t-r)>=64?~0ull:((1ull<<(t-r))-1); uint64_t inner=(i-(base>>r));
            EQ(bits&mask,(~inner)&mask,"Path bits"+at);
            EQ((uint64_t)st.RootIndex(p),(uint64_t)bigger,"RootIndex"+at); } }
}
static void run_C02(){
    for(uint64_t n=0;n<=(g_tier?300u:90u);n++) run_case("roots n="+str(n),n>1,[&]{ G g2(n); c02_n(n,true,g2);});
    G gg(11*g_seed+3); for(uint64_t n: interesting_n(gg,g_tier?6000:800)) run_case("roots n="+str(n),true,[&]{ G g2(n); c02_n(n,false,g2);});
}

// ------------------------------------------------------------------ C03
static void proof_oracle(uint64_t n,const V& T,V& proof,V& comp){
    int h=rows_of(n); V cur=T; // indices on row r
    for(int r=0;r<=h;r++){
        for(uint64_t i:cur) comp.push_back(P(h,r,i));
        std::set<uint64_t> s(cur.begin(),cur.end()); V nx;
        for(uint64_t i:cur){ if((n>>r&1) && i==(n>>r)-1) continue; if(!s.count(i^1)) proof.push_back(P(h,r,i^1)); if(nx.empty()||nx.back()!=i>>1) nx.push_back(i>>1); }
        cur=nx;
    }
}
static std::string tstr(uint64_t n,const V& T){ return "n="+str(n)+" targets="+str(T); }
static V rand_targets(G& g,uint64_t n,int maxk){
    std::set<uint64_t> s; int mode=R(g,5); int k=1+R(g,maxk);
    if(n==0) return {};
    if(mode==0) for(int i=0;i<k;i++) s.insert(R(g,n));
    else if(mode==1){ uint64_t b=R(g,n); for(int i=0;i<k;i++){ uint64_t x=b+R(g,2*k); if(x<n) s.insert(x);} }
    else if(mode==2){ for(int c=0;c<1+k/6;c++){ uint64_t b=R(g,n)&~3ull; for(int i=0;i<4;i++) if(R(g,2) && b+i<n) s.insert(b+i);} }
    else if(mode==3){ for(int i=0;i<k;i++){ uint64_t x=n-1-R(g,std::min<uint64_t>(n,2*k)); s.insert(x);} }
    else { for(int t=0;t<63;t++) if((n>>t&1)&&t<5&&R(g,2)){ uint64_t b=((n>>t)-1)<<t; for(uint64_t i=0;i<(1ull<<t);i++) if(R(g,8)) s.insert(b+i);} for(int i=0;i<k/2;i++) s.insert(R(g,n)); }
    if(s.empty()) s.insert(R(g,n));
    return V(s.begin(),s.end());
}
static V subset(uint64_t n,uint64_t m){ V t; for(uint64_t i=0;i<n;i++) if(m>>i&1) t.push_back(i); return t; }
typedef std::function<void(uint64_t,const V&)> TF;
static void over_targets(const char* nm,const TF& f,int exh_q,int exh_t,int rnd_q,int rnd_t,uint64_t maxbits,int bigk=40){
    int E=g_tier?exh_t:exh_q;
    for(uint64_t n=0;n<=(uint64_t)E;n++) for(uint64_t m=0;m<(1ull<<n);m++){ V T=subset(n,m); run_case(std::string(nm)+" "+tstr(n,T),T.size()>0,[&]{ f(n,T);}); }
    G g(g_seed*1000003+17); int N=g_tier?rnd_t:rnd_q;
    for(int i=0;i<N;i++){ uint64_t n; int md=R(g,4);
        if(md==0) n=1+R(g,80); else if(md==1) n=1+R(g,2000); else { int k=R(g,maxbits); n=(1ull<<k)|(g()&((1ull<<k)-1)); if(R(g,3)==0) n=(1ull<<k)+R(g,5); }
        V T=rand_targets(g,n,n<100?30:bigk); run_case(std::string(nm)+" "+tstr(n,T),true,[&]{ f(n,T);}); }
}
// dense target sets: enough targets on one row to exceed 8-bit and 16-bit counters
static V dense(uint64_t n,int pat){ V t; for(uint64_t i=0;i<n;i++) if(pat==0||(pat==1&&i%2==0)||(pat==2&&i%4<2)||(pat==3&&i<n/2)||(pat==4&&i>=n/2)||(pat==5&&i%3!=1)||(pat==6&&(i*2654435761u>>7)%5<2)) t.push_back(i); return t; }
static void over_dense(const char* nm,const TF& f){
    for(uint64_t n:{(uint64_t)255,(uint64_t)256,(uint64_t)513,(uint64_t)1024,(uint64_t)1533,(uint64_t)4099}) for(int pat=0;pat<7;pat++) run_case(std::string(nm)+" dense n="+str(n)+" pattern="+str(pat),true,[&]{ f(n,dense(n,pat)); });
    for(int pat:{1,6}) run_case(std::string(nm)+" dense n=200001 pattern="+str(pat),true,[&]{ f(200001,dense(200001,pat)); });
    run_case(std::string(nm)+" dense n=131072 pattern=0",true,[&]{ f(131072,dense(131072,0)); });
}
static void c03(uint64_t n,const V& T){ V p,c; proof_oracle(n,T,p,c); auto r=ForestState(n).ProofPositions(T); EQ(r.first,p,"proof positions"); EQ(r.second,c,"computed positions"); }
static void run_C03(){ over_targets("proof",c03,13,17,6000,200000,61); over_dense("proof",c03); }

// ------------------------------------------------------------------ C04
static bool sane(uint64_t n,const V& T){ if(T.empty()) return true; if(T.size()>n) return false; for(size_t i=0;i+1<T.size();i++) if(T[i]>=T[i+1]) return false; return T.back()<n; }
static void c04(uint64_t n,const V& T){
    EQ((uint64_t)ForestState(n).CheckTargetsSanity(T),(uint64_t)sane(n,T),"CheckTargetsSanity");
    V srt=T; std::sort(srt.begin(),srt.end()); bool s=sane(n,srt); V p,c; if(s) proof_oracle(n,srt,p,c);
    for(int extra=-1;extra<=1;extra++){ int64_t k=(int64_t)p.size()+extra; if(k<0) continue; std::vector<Hash> hs(k); 
        BatchProof bp(T,hs); EQ((uint64_t)bp.CheckSanity(n),(uint64_t)(s && (uint64_t)k<=p.size()),"BatchProof::CheckSanity with "+str(k)+" hashes");
        EQ(bp.GetSortedTargets(),srt,"sorted targets"); EQ(bp.GetTargets(),T,"targets"); }
    BatchProof e(T,{}); EQ((uint64_t)e.CheckSanity(n),(uint64_t)s,"BatchProof::CheckSanity without hashes");
}
static void run_C04(){
    for(uint64_t n=0;n<=5;n++){ V vals; for(uint64_t i=0;i<=n+1;i++) vals.push_back(i); vals.push_back(~0ull); vals.push_back(1ull<<63);
        std::function<void(V&,int)> rec=[&](V& cur,int left){ run_case("sanity "+tstr(n,cur),cur.size()>0,[&]{c04(n,cur);}); if(!left) return; for(uint64_t x:vals){ cur.push_back(x); rec(cur,left-1); cur.pop_back(); } };
        V cur; rec(cur,n<=3?4:3); }
    over_dense("sanity",[](uint64_t n,const V& T){ V p,c; proof_oracle(n,T,p,c); BatchProof a(T,std::vector<Hash>(p.size())), b(T,std::vector<Hash>(p.size()+1)); REQ(a.CheckSanity(n),"sane proof rejected"); REQ(!b.CheckSanity(n),"surplus hash accepted"); V d=T; d.insert(d.begin()+d.size()/2,d[d.size()/2]); REQ(!BatchProof(d,{}).CheckSanity(n),"duplicate target accepted"); d=T; d.insert(d.begin()+d.size()/3,n); REQ(!BatchProof(d,{}).CheckSanity(n),"target outside the forest accepted"); REQ(!ForestState(T.size()-1).CheckTargetsSanity(T),"more targets than leaves accepted"); });
    G g(g_seed+5); int N=g_tier?100000:8000;
    for(int i=0;i<N;i++){ int k=R(g,62); uint64_t n=R(g,3)?R(g,40):((1ull<<k)|(g()&((1ull<<k)-1))); V T; if(n) T=rand_targets(g,n,12);
        int mut=R(g,6); if(mut==0&&T.size()>1) std::swap(T[R(g,T.size())],T[R(g,T.size())]); if(mut==1&&T.size()) T[R(g,T.size())]=g(); if(mut==2&&T.size()) T.push_back(T.back()); if(mut==3) T.push_back(n); if(mut==4&&T.size()) T.insert(T.begin(),T[R(g,T.size())]);
        run_case("sanity "+tstr(n,T),true,[&]{c04(n,T);}); }
}

// ------------------------------------------------------------------ C05 / C06
typedef std::vector<std::vector<ForestState::Swap>> SW;
static std::string str(const SW& s){ std::string o; for(size_t r=0;r<s.size();r++){ o+=" row"+str(r)+":"; for(auto&x:s[r]) o+="("+str(x.m_from)+","+str(x.m_to)+(x.m_collapse?"c":"")+")"; } return o; }
static void check_swaps(uint64_t n,const SW& sw){
    int h=rows_of(n); ForestState st(n);
    REQ(sw.size()<=(size_t)std::max(h,1),"more swap rows than rows");
    for(size_t r=0;r<sw.size();r++) for(auto& s:sw[r]) for(uint64_t p:{s.m_from,s.m_to}){
        REQ(p>=off(h,r)&&p-off(h,r)<(n>>r),"swap position "+str(p)+" is not an existing node of row "+str(r)+":"+str(sw)); }
}
static uint64_t app(int h,const SW& sw,uint64_t leaf){
    for(size_t r=0;r<sw.size();r++) for(auto& s:sw[r]){ uint64_t a=s.m_from-off(h,r), b=s.m_to-off(h,r), x=leaf>>r; if(x==a) leaf^=(a^b)<<r; else if(x==b) leaf^=(a^b)<<r; }
    return leaf;
}
struct Fast { int h; std::vector<std::unordered_map<uint64_t,std::vector<uint32_t>>> at; const SW& sw; // app() for long swap lists
    Fast(int h,const SW& sw):h(h),at(sw.size()),sw(sw){ for(size_t r=0;r<sw.size();r++) for(size_t i=0;i<sw[r].size();i++){ at[r][sw[r][i].m_from-off(h,r)].push_back(i); at[r][sw[r][i].m_to-off(h,r)].push_back(i); } }
    uint64_t operator()(uint64_t leaf) const { for(size_t r=0;r<sw.size();r++){ int64_t k=-1; while(true){ uint64_t x=leaf>>r; auto it=at[r].find(x); if(it==at[r].end()) break; auto j=std::upper_bound(it->second.begin(),it->second.end(),k,[](int64_t a,uint32_t b){return a<(int64_t)b;}); if(j==it->second.end()) break; k=*j; uint64_t a=sw[r][k].m_from-off(h,r), b=sw[r][k].m_to-off(h,r); leaf^=(a^b)<<r; } } return leaf; } };
static V sample_leaves(uint64_t n,const V& T,G& g){
    if(n<=3000||T.size()>500){ V v; for(uint64_t i=0;i<n;i++) v.push_back(i); return v; }
    std::set<uint64_t> s(T.begin(),T.end()); int h=rows_of(n);
    for(uint64_t t:T) for(int k=0;k<=h;k++){ uint64_t b=(t>>k^1)<<k; if(b<n) s.insert(b); uint64_t c=b+R(g,1ull<<k); if(c<n) s.insert(c); }
    for(uint64_t x:interesting_idx(g,n,60)) s.insert(x);
    uint64_t np=n-T.size(); for(uint64_t d=0;d<20;d++){ if(np+d<n) s.insert(np+d); if(np>d) s.insert(np-1-d);} 
    return V(s.begin(),s.end());
}
static void c05(uint64_t n,const V& T){
    ForestState st(n); SW sw=st.Transform(T); int h=rows_of(n); G g(n*31+T.size());
    check_swaps(n,sw);
    std::set<uint64_t> tg(T.begin(),T.end()), img; uint64_t np=n-T.size(); Fast fast(h,sw); bool big=T.size()>100;
    for(uint64_t l: sample_leaves(n,T,g)){ uint64_t d=big?fast(l):app(h,sw,l); REQ(d<n,"leaf "+str(l)+" moved outside the forest:"+str(sw));
        REQ(img.insert(d).second,"two leaves moved to "+str(d)+":"+str(sw));
        if(tg.count(l)) REQ(d>=np,"deleted leaf "+str(l)+" moved to "+str(d)+", not behind the "+str(np)+" survivors:"+str(sw));
        else REQ(d<np,"surviving leaf "+str(l)+" moved to "+str(d)+", behind the "+str(np)+" survivors:"+str(sw)); }
    // collapse flags: re-hashing only the upward paths of the non-collapse swaps repairs the tree (small forests)
    if(n<=64){
        // symbolic hashing: node value = set of leaf ids in order
        std::vector<std::vector<V>> d(h+1); for(int r=0;r<=h;r++) for(uint64_t i=0;i<(n>>r);i++){ V s; for(uint64_t l=i<<r;l<(i+1)<<r;l++) s.push_back(l); d[r].push_back(s);} 
        std::vector<std::set<uint64_t>> dirty(h+2);
        for(int r=0;r<h;r++){
            if(r<(int)sw.size()) for(auto& s:sw[r]){ uint64_t a=s.m_from-off(h,r), b=s.m_to-off(h,r); for(int q=r;q>=0;q--) for(uint64_t i=0;i<(1ull<<(r-q));i++) std::swap(d[q][(a<<(r-q))+i],d[q][(b<<(r-q))+i]); if(!s.m_collapse) dirty[r+1].insert(b>>1); }
            for(uint64_t i:dirty[r+1]) if(i<(n>>(r+1))){ d[r+1][i]=d[r][2*i]; d[r+1][i].insert(d[r+1][i].end(),d[r][2*i+1].begin(),d[r][2*i+1].end()); dirty[r+2].insert(i>>1);} 
        }
        for(int r=1;r<=h;r++) for(uint64_t i=0;i<(np>>r);i++){ V s=d[r-1][2*i]; s.insert(s.end(),d[r-1][2*i+1].begin(),d[r-1][2*i+1].end()); REQ(d[r][i]==s,"inner node row "+str(r)+" index "+str(i)+" is stale after re-hashing the paths above the non-collapse swaps:"+str(sw)); }
    }
}
static void run_C05(){ over_targets("transform",[](uint64_t n,const V& T){ if(n||T.empty()) c05(n,T); },12,17,5000,120000,55,24); over_dense("transform",c05); }
static uint64_t app_ranges_rev(const std::vector<ForestState::Swap>& u,uint64_t leaf){
    for(auto it=u.rbegin();it!=u.rend();++it){ uint64_t rg=it->m_is_range_swap?it->m_range:1; if(leaf>=it->m_from&&leaf-it->m_from<rg) leaf=it->m_to+(leaf-it->m_from); else if(leaf>=it->m_to&&leaf-it->m_to<rg) leaf=it->m_from+(leaf-it->m_to); }
    return leaf;
}
static void c06(uint64_t n,const V& T){
    ForestState st(n); SW sw=st.Transform(T); auto u=st.UndoTransform(T); int h=rows_of(n); G g(n*37+T.size());
    std::vector<std::array<uint64_t,3>> e; for(size_t r=0;r<sw.size();r++) for(auto& s:sw[r]) if(s.m_from!=s.m_to) e.push_back({(s.m_from-off(h,r))<<r,(s.m_to-off(h,r))<<r,1ull<<r});
    EQ((uint64_t)u.size(),(uint64_t)e.size(),"number of undo swaps");
    for(size_t i=0;i<u.size();i++){ EQ(u[i].m_from,e[i][0],"from of undo swap "+str(i)); EQ(u[i].m_to,e[i][1],"to of undo swap "+str(i)); EQ(u[i].m_is_range_swap?u[i].m_range:1,e[i][2],"range of undo swap "+str(i)); }
    if(T.size()<=100) for(uint64_t l: sample_leaves(n,T,g)) EQ(app_ranges_rev(u,app(h,sw,l)),l,"position of leaf "+str(l)+" after transform and undo");
}
static void run_C06(){ over_targets("undotransform",[](uint64_t n,const V& T){ if(n||T.empty()) c06(n,T); },12,16,4000,100000,55,24); over_dense("undotransform",c06); }

// ------------------------------------------------------------------ reference SHA-512/256 (independent of the repository)
static const uint64_t K512[80]={
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
static uint64_t rr(uint64_t x,int k){ return x>>k|x<<(64-k); }
struct RefSha { uint64_t s[8]; uint64_t len=0; bool is256; std::vector<uint8_t> buf;
    RefSha(bool is256):is256(is256){
    uint64_t H1[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
    uint64_t H2[8]={0x22312194FC2BF72CULL,0x9F555FA3C84C64C2ULL,0x2393B86B6F53B151ULL,0x963877195940EABDULL,0x96283EE2A88EFFE3ULL,0xBE5E1E2553863992ULL,0x2B0199FC2C85B8AAULL,0x0EB72DDC81C52CA2ULL};
    memcpy(s,is256?H2:H1,64); }
    void block(const uint8_t* d){ uint64_t w[80]; for(int i=0;i<16;i++){ w[i]=0; for(int j=0;j<8;j++) w[i]=w[i]<<8|d[8*i+j]; }
        for(int i=16;i<80;i++){ uint64_t a=rr(w[i-15],1)^rr(w[i-15],8)^(w[i-15]>>7), b=rr(w[i-2],19)^rr(w[i-2],61)^(w[i-2]>>6); w[i]=w[i-16]+a+w[i-7]+b; }
        uint64_t v[8]; memcpy(v,s,64); for(int i=0;i<80;i++){ uint64_t S1=rr(v[4],14)^rr(v[4],18)^rr(v[4],41), ch=(v[4]&v[5])^(~v[4]&v[6]), t1=v[7]+S1+ch+K512[i]+w[i], S0=rr(v[0],28)^rr(v[0],34)^rr(v[0],39), mj=(v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]), t2=S0+mj; v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2; }
        for(int i=0;i<8;i++) s[i]+=v[i]; }
    void add(const uint8_t* p,uint64_t n){ len+=n; if(!buf.empty()){ while(n&&buf.size()<128){ buf.push_back(*p++); n--; } if(buf.size()==128){ block(buf.data()); buf.clear(); } } while(n>=128){ block(p); p+=128; n-=128; } if(n) buf.insert(buf.end(),p,p+n); }
    std::vector<uint8_t> fin(){ std::vector<uint8_t> d=buf; d.push_back(0x80); while(d.size()%128!=112) d.push_back(0); uint64_t hi=len>>61, lo=len<<3; for(int i=7;i>=0;i--) d.push_back(hi>>(8*i)); for(int i=7;i>=0;i--) d.push_back(lo>>(8*i)); for(size_t o=0;o<d.size();o+=128) block(d.data()+o);
        std::vector<uint8_t> out; for(int i=0;i<8;i++) for(int j=7;j>=0;j--) out.push_back(s[i]>>(8*j)); if(is256) out.resize(32); return out; } };
static std::vector<uint8_t> ref512(const std::vector<uint8_t>& m,bool is256){ RefSha r(is256); r.add(m.data(),m.size()); return r.fin(); }
static Hash PHref(const Hash& l,const Hash& r){ std::vector<uint8_t> m(l.begin(),l.end()); m.insert(m.end(),r.begin(),r.end()); auto d=ref512(m,true); Hash h; std::copy(d.begin(),d.end(),h.begin()); return h; }
// The forest oracles use the library's own parent hash: whether it is SHA-512/256 is C19's business.
static Hash PH(const Hash& l,const Hash& r){ Hash p; Accumulator::ParentHash(p,l,r); return p; }

static Hash H(uint64_t k){ Hash h{}; for(int i=0;i<8;i++) h[i]=k>>(8*i); h[9]=0xff; return h; }

#include "forest.inc"
#include "pollard.inc"

static void c19_msg(const std::vector<uint8_t>& m,const V& cuts,bool is256){
    CSHA512 hs=is256?CSHA512(CSHA512::OUTPUT_SIZE_256):CSHA512(); size_t o=0; for(uint64_t c:cuts){ std::vector<uint8_t> part(m.begin()+o,m.begin()+o+c); hs.Write(part.data(),c); o+=c; }
    { std::vector<uint8_t> part(m.begin()+o,m.end()); hs.Write(part.data(),part.size()); }
    std::vector<uint8_t> out(is256?32:64); if(is256) hs.Finalize256(out.data()); else hs.Finalize(out.data());
    REQ(out==ref512(m,is256),std::string(is256?"SHA-512/256":"SHA-512")+" digest differs from FIPS 180-4 for message of length "+str(m.size())+" split "+str(cuts));
}
static void c19_long(uint64_t total,bool is256){ // the same total is written in pieces of 1 MiB; the reference is computed in a streaming way
    std::vector<uint8_t> piece(1<<20); G q(5); for(auto& b:piece) b=q();
    CSHA512 a=is256?CSHA512(CSHA512::OUTPUT_SIZE_256):CSHA512();
    uint64_t w=0; while(w<total){ uint64_t k=std::min<uint64_t>(piece.size(),total-w); a.Write(piece.data(),k); w+=k; }
    std::vector<uint8_t> out(is256?32:64); if(is256) a.Finalize256(out.data()); else a.Finalize(out.data());
    RefSha r(is256); w=0; while(w<total){ uint64_t k=std::min<uint64_t>(piece.size(),total-w); r.add(piece.data(),k); w+=k; }
    REQ(out==r.fin(),"SHA-512/256 digest differs from FIPS 180-4 for a message of "+str(total)+" bytes");
}
static void run_C19(){
    G g(g_seed*77+1);
    auto msg=[&](size_t n,uint64_t s){ G q(s); std::vector<uint8_t> m(n); for(auto& b:m) b=q(); return m; };
    for(int i=0;i<(g_tier?20000:2000);i++){ uint64_t s=g(); run_case("parenthash seed="+str(s),true,[&]{ G q(s); Hash l,r; for(auto& b:l) b=q(); for(auto& b:r) b=q(); if(s%7==0) l.fill(s%2?0:255); if(s%11==0) r.fill(0); REQ(PH(l,r)==PHref(l,r),"ParentHash("+hex(l,32)+","+hex(r,32)+") is not SHA-512/256"); if(l!=r) REQ(!(PH(l,r)==PH(r,l)),"order ignored"); }); }
    for(int is=0;is<2;is++) for(size_t n=0;n<=(g_tier?700u:300u);n++){ auto m=msg(n,n+1); run_case("sha len="+str(n)+" is256="+str(is),true,[&]{ c19_msg(m,{},is); });
        for(int k=0;k<6;k++){ V cuts; size_t left=n; int parts=1+R(g,4); for(int j=0;j<parts;j++){ size_t c=R(g,left+1); cuts.push_back(c); left-=c; } run_case("sha len="+str(n)+" is256="+str(is)+" cuts="+str(cuts),true,[&]{ c19_msg(m,cuts,is); }); } }
    for(int is=0;is<2;is++) for(uint64_t n:{(uint64_t)8191,(uint64_t)8192,(uint64_t)65536+77,((uint64_t)1<<20)+5,((uint64_t)1<<24)+3}) run_case("sha len="+str(n)+" is256="+str(is),true,[&]{ auto m=msg(n,n+1); c19_msg(m,{n/3,n/2},is); });
    // 2^29 bytes and more: the bit length needs more than 32 bits
    run_case("sha long message",true,[&]{ c19_long((1ull<<29)+1000,true); });
    if(g_tier) run_case("sha very long message",true,[&]{ alarm(700); c19_long((1ull<<32)+1000,true); });
    run_case("reset",true,[&]{ CSHA512 a; std::vector<uint8_t> m=msg(200,3), o(64); a.Write(m.data(),200); a.Finalize(o.data()); REQ(a.Size()==200||a.Size()>=200,"size"); a.Reset(); a.Write(m.data(),100); a.Finalize(o.data()); REQ(o==ref512(std::vector<uint8_t>(m.begin(),m.begin()+100),false),"digest after Reset"); });
}

int main(int argc,char** argv){
    if(argc<4) return 64;
    sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(sh,0,sizeof(*sh));
    std::string prop=argv[1]; 
    std::map<std::string,void(*)()> tab={{"C01",run_C01},{"C02",run_C02},{"C03",run_C03},{"C04",run_C04},{"C05",run_C05},{"C06",run_C06},{"C07",run_C07},{"C08",run_C08},{"C09",run_C09},{"C10",run_C10},{"C11",run_C11},{"C12",run_C12},{"C13",run_C13},{"C14",run_C14},{"C15",run_C15},{"C16",run_C16},{"C17",run_C17},{"C18",run_C18},{"C19",run_C19},{"C20",run_C20}};
    if(!tab.count(prop)) return 64;
    if(std::string(argv[2])=="replay"){ g_only=argv[3]; g_tier=argc>4&&std::string(argv[4])=="thorough"; if(argc>5) g_seed=strtoull(argv[5],0,10); }
    else { g_tier=std::string(argv[2])=="thorough"; g_seed=strtoull(argv[3],0,10); }
    fflush(stdout);
    pid_t pid=fork();
    if(pid==0){ tab[prop](); fflush(stdout); _exit(0); }
    int st=0; waitpid(pid,&st,0);
    int rc=0;
    if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0&&WEXITSTATUS(st)!=3)){
        const char* why=WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"does not terminate (time limit per case)":strsignal(WTERMSIG(st))):"sanitizer or library abort";
        printf("FAIL\t%s\tcrash: %s\t%s\n",sh->cur,why,sh->log); rc=3;
    } else if(WIFEXITED(st)&&WEXITSTATUS(st)==3) rc=3;
    printf("STATS\t%llu\t%llu\n",(unsigned long long)sh->evals,(unsigned long long)sh->nontrivial);
    for(uint32_t i=0;i<sh->nsamples;i++) printf("SAMPLE\t%s\n",sh->samples[i]);
    return rc;
}
