// Scheme names and ids, and scheme normalisation (C20).
#include "news.hpp"
#include "ops.hpp"
#include "guide.hpp"
#include <clocale>
using namespace h;
static u32 const T=C(20);
static urls::scheme want(char const* s,std::size_t n){
    static struct { char const* n; urls::scheme id; } const K[]={{"ftp",urls::scheme::ftp},{"file",urls::scheme::file},{"http",urls::scheme::http},{"https",urls::scheme::https},{"ws",urls::scheme::ws},{"wss",urls::scheme::wss}};
    for(auto& k: K){ if(std::strlen(k.n)!=n) continue; bool eq=true; for(std::size_t i=0;i<n;++i){ char c=s[i]; if(c>='A'&&c<='Z') c=static_cast<char>(c-'A'+'a'); if(c!=k.n[i]) eq=false; } if(eq) return k.id; }
    return urls::scheme::unknown; }
static void one(char const* p,std::size_t n){
    ++ctx().events[20];
    auto const w=want(p,n); auto const g=urls::string_to_scheme(sv(p,n)); bool const sp=urls::is_special(sv(p,n));
    if(g!=w||sp!=(w!=urls::scheme::unknown)) fail(T,"string_to_scheme("+esc(string(p,n))+") is "+std::to_string(int(g))+", expected "+std::to_string(int(w))+(sp!=(w!=urls::scheme::unknown)?"; is_special is wrong":"")); }
static string const NAMES[]={"ftp","file","http","https","ws","wss"};

// every string of up to three bytes: one case per first byte (and one for the rest)
static void case_exh(u64 idx){
    char buf[4];
    phase(T,"string_to_scheme"); describe("strings of up to 3 bytes starting with byte "+std::to_string(idx));
    // memory right behind the string would complete a known name
    if(idx==256){ one("",0); count_case(1,true); }
    else { buf[0]=static_cast<char>(idx); buf[3]='s'; one(buf,1);
        for(int j=0;j<256;++j){ buf[1]=static_cast<char>(j); one(buf,2); for(int k=0;k<256;++k){ buf[2]=static_cast<char>(k); one(buf,3); } }
        ctx().evals+=65536+256; count_case(mix(1,idx),true); }
    phase(0,"");
    if(idx%64==7) sample("all strings of up to 3 bytes starting with byte "+std::to_string(idx)); }
// every pair of bytes at every pair of positions of every name, in each letter case
static void case_pair(u64 idx){
    u64 v=idx; string const nm=NAMES[v%6]; v/=6; std::size_t const i=v%5; v/=5; std::size_t const j=v%5; v/=5; int const up=int(v%2);
    if(i>=nm.size()||j>=nm.size()||j<i) return;
    string s=nm; if(up) for(char& c: s) c=static_cast<char>(c-32);
    phase(T,"string_to_scheme"); describe("neighbours of "+s);
    for(int a=0;a<256;++a){ string t=s; t[i]=static_cast<char>(a);
        if(i==j){ char const* p=ro().put(t,true); one(p,t.size()); ++ctx().evals; continue; }
        for(int b=0;b<256;++b){ t[j]=static_cast<char>(b); one(t.data(),t.size()); ++ctx().evals; } }
    // insertions, deletions, truncations, extensions
    for(std::size_t p=0;p<=s.size();++p){ for(int a=0;a<256;++a){ string t=s; t.insert(p,1,static_cast<char>(a)); char const* q=ro().put(t,true); one(q,t.size()); ++ctx().evals; }
        if(p<s.size()){ string t=s; t.erase(p,1); char const* q=ro().put(t,true); one(q,t.size()); } }
    for(u32 m=0;m<(1u<<nm.size());++m){ string t=nm; for(std::size_t k=0;k<t.size();++k) if(m>>k&1) t[k]=static_cast<char>(t[k]-32); char const* q=ro().put(t,true); one(q,t.size()); ++ctx().evals; }
    count_case(mix(2,idx),true);
    phase(0,"");
    if(idx%29==3) sample("neighbours of "+s+" at "+std::to_string(i)+","+std::to_string(j)); }
// ids to names and back
static void case_names(u64 idx){
    unsigned const id=unsigned(idx);
    phase(T,"to_string"); ev(T); count_case(mix(3,idx),true);
    string const s=str(urls::to_string(static_cast<urls::scheme>(id)));
    bool const known=id>=1&&id<=6;
    if(known){ if(want(s.data(),s.size())!=static_cast<urls::scheme>(id)) fail(T,"to_string("+std::to_string(id)+") is "+esc(s));
        for(char c: s) if(c<'a'||c>'z') fail(T,"to_string("+std::to_string(id)+") is not normalized"); }
    else if(want(s.data(),s.size())!=urls::scheme::unknown||urls::string_to_scheme(sv(s.data(),s.size()))!=urls::scheme::unknown) fail(T,"the name of an unknown scheme is a known one");
    if(urls::string_to_scheme(sv(s.data(),s.size()))!=(known? static_cast<urls::scheme>(id) : urls::scheme::unknown)) fail(T,"to_string("+std::to_string(id)+") does not map back");
    phase(0,""); sample("id "+std::to_string(id)+" <-> "+s); }
// random longer strings
static void case_rnd(u64 idx){
    Rng g(mix(mix(ctx().seed,0x73),idx));
    string s= g.chance(50)? NAMES[g.below(6)] : gen::scheme(g);
    for(char& c: s) if(g.chance(40)&&ref::alpha(c)) c^=32;
    if(g.chance(50)) s=gen::mutate(g,s);
    phase(T,"string_to_scheme"); describe(esc(s));
    char const* p=ro().put(s,g.chance(50)); one(p,s.size()); count_case(hash_str(4,s),s.size()>1);
    // through a URL: the scheme accessor and normalize
    if(ref::is_scheme(s)){
        string u=s+":"+(g.chance(50)?"//UsEr:PaSs@HoSt:80":"")+"/PaTh/%aF?QuErY=K%eF#FrAg"; 
        urls::url x(sv(u.data(),u.size())); ref::Url m; ref::parse(u,m);
        if(urls::string_to_scheme(x.scheme())!=want(s.data(),s.size())) fail(T,"scheme of "+esc(u)+" is looked up wrongly");
        phase(T,"normalize");
        if(g.chance(50)) x.normalize(); else x.normalize_scheme();
        ref::normalize(m); Obs a,b; snap(x,a); expected(m,false,b); ev(T);
        if(!(a==b)) fail(T,"normalizing "+esc(u)+" gives "+esc(a.f[URL])+", expected "+esc(b.f[URL]));
        if(urls::string_to_scheme(x.scheme())!=want(s.data(),s.size())) fail(T,"normalizing "+esc(u)+" changes the scheme id");
    }
    phase(0,"");
    if(idx%5003==3) sample(esc(s)); }
// every byte of a scheme under normalize
static void case_norm(u64 idx){
    int const c=int(idx%256); std::size_t const pos=idx/256%6; string s="aZq9+M"; s[pos]=static_cast<char>(c);
    string u=s+"://A%4aB@C/D?E#F";
    ref::Url m; if(!ref::parse(u,m)||!m.has_scheme) return;
    phase(T,"normalize"); describe(esc(u)); count_case(hash_str(6,u),true);
    urls::url x(sv(u.data(),u.size())); x.normalize(); ref::normalize(m); Obs a,b; snap(x,a); expected(m,false,b); ev(T);
    if(!(a==b)) fail(T,"normalizing "+esc(u)+" gives "+esc(a.f[URL])+", expected "+esc(b.f[URL]));
    x.normalize(); snap(x,a); if(!(a==b)) fail(T,"normalizing twice "+esc(u));
    phase(0,""); if(idx%301==66) sample(esc(u)); }
// ---- names steered by the comparisons the library makes (see guide.hpp)
#ifdef GUIDED
static void case_guided(u64 idx){
    struct Text { string s; guide::Kept kept; };
    Rng g(mix(mix(ctx().seed,0x6775),idx)); guide::reset(); std::vector<Text> corpus;
    char const* e=std::getenv("VERIF_EXECS"); u64 const N=e? std::strtoull(e,nullptr,0) : 3000; u64 kept=0;
    for(u64 x=0;x<N;++x){
        if(x%500==0) arm(20);
        Text t; if(x<40||corpus.empty()||g.chance(5)) t.s= g.chance(50)? NAMES[g.below(6)] : gen::scheme(g); else { t=guide::choose(corpus,g); t.kept.picks=0; guide::vary(t.s,t.kept.pairs,corpus[g.below(u32(corpus.size()))].s,g); if(t.s.size()>300) continue; }
        describe(esc(t.s)); phase(T,"string_to_scheme"); char const* p=ro().put(t.s,true);
        guide::begin(); guide::resume(); one(p,t.s.size()); guide::pause(); count_case(hash_str(9,t.s),true);
        ref::Url m; bool const ok=ref::parse(t.s+"://h/P",m)&&m.has_scheme&&m.scheme==t.s;
        if(ok){ string const in=t.s+"://h/P"; phase(T,"normalize_scheme"); urls::url u(sv(in.data(),in.size())); guide::resume(); u.normalize_scheme(); guide::pause(); ev(T); ref::normalize(m); if(str(u.encoded_url())!=m.str()) fail(T,"normalize_scheme of "+esc(in)+" gives "+esc(str(u.encoded_url()))); 
            phase(T,"scheme of a view"); urls::url_view const v{sv(in.data(),in.size())}; if(str(v.scheme())!=t.s) fail(T|C(2),"scheme() of "+esc(in)+" is wrong"); }
        phase(0,"");
        if(guide::st().fresh){ t.kept.take(); corpus.push_back(t); ++kept; }
    }
    ctx().stat["guided executions"]+=N; ctx().stat["guided inputs kept for something new"]+=kept; if(idx==0) sample("search, "+std::to_string(kept)+" kept, last "+esc(corpus.back().s,80)); }
#endif

int main(int argc,char** argv){
#ifdef GUIDED
    guide::steady(argv);
#endif
    if(argc>1&&!std::strcmp(argv[1],"--totals")){ std::printf("exh 257\npair 300\nnames 256\nnorm 1536\n"); return 0; }
    return run(argc,argv,{{"exh",case_exh,nullptr},{"pair",case_pair,nullptr},{"names",case_names,nullptr},{"rnd",case_rnd,nullptr},{"norm",case_norm,nullptr}
#ifdef GUIDED
        ,{"guided",case_guided,nullptr}
#endif
    });
}
