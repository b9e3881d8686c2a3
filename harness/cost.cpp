// Work against length (C22): executed edges and bytes handled by memmove & co,
// counted while one operation runs on a URL of some shape at length n and 4n.
#include "news.hpp"
#include "ops.hpp"
#include <memory>
using namespace h;
#define NOCOV __attribute__((no_sanitize("coverage"),noinline))
static u64 g_edges=0, g_bytes=0; static bool g_on=false;
extern "C" {
NOCOV void __sanitizer_cov_trace_pc_guard(std::uint32_t*){ ++g_edges; }
NOCOV void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a,std::uint32_t* b){ for(;a<b;++a) *a=1; }
void* __real_memmove(void*,void const*,std::size_t); void* __real_memcpy(void*,void const*,std::size_t); void* __real_memset(void*,int,std::size_t);
int __real_memcmp(void const*,void const*,std::size_t); void* __real_memchr(void const*,int,std::size_t); std::size_t __real_strlen(char const*);
NOCOV void* __wrap_memmove(void* a,void const* b,std::size_t n){ g_bytes+=n; return __real_memmove(a,b,n); }
NOCOV void* __wrap_memcpy(void* a,void const* b,std::size_t n){ g_bytes+=n; return __real_memcpy(a,b,n); }
NOCOV void* __wrap_memset(void* a,int b,std::size_t n){ g_bytes+=n; return __real_memset(a,b,n); }
NOCOV int __wrap_memcmp(void const* a,void const* b,std::size_t n){ g_bytes+=n; return __real_memcmp(a,b,n); }
NOCOV void* __wrap_memchr(void const* a,int b,std::size_t n){ void* r=__real_memchr(a,b,n); g_bytes+= r? std::size_t((char*)r-(char const*)a)+1 : n; return r; }
NOCOV std::size_t __wrap_strlen(char const* a){ std::size_t n=__real_strlen(a); g_bytes+=n; return n; }
}
static u32 const T=C(22);
struct Cost { u64 e,b; };
struct Meter { u64 e0,b0; Cost& c; explicit Meter(Cost& x): e0(g_edges), b0(g_bytes), c(x) {} ~Meter(){ c.e=g_edges-e0; c.b=g_bytes-b0; } };

// ---- shapes
static char const* const PRE[]={"","s:","s:/","//","s://u:","s://h","s://h/","?","#","//[","//[v1.","s://h:","s://u@","s://h/p?k=v&","s://1."};
static char const* const UNIT[]={"a","/","%41","&","=","&k=v",":","@","a:","/a:b",".","1.","::","?","#","/..","%2f/","&%6b=","0","[","]","//","=&","k&","/.","1:","a@","&k"};
static char const* const SUF[]={"","@h","]","%","/","\xff",":x","#f","?q","/x?y#z","]:1/",":%"};
static int const NP=sizeof PRE/sizeof*PRE, NU=sizeof UNIT/sizeof*UNIT, NS=sizeof SUF/sizeof*SUF;
static string shape(u64 i,std::size_t len,Rng g){
    string pre,unit,suf;
    if(i<u64(NP*NU*NS)){ pre=PRE[i%NP]; unit=UNIT[i/NP%NU]; suf=SUF[i/NP/NU]; }
    else { pre=PRE[g.below(NP)]; suf=SUF[g.below(NS)]; int n=2+int(g.below(3)); for(int k=0;k<n;++k) unit+=UNIT[g.below(NU)]; }
    string s=pre; while(s.size()<len) s+=unit; return s+suf; }

// ---- operations: each returns the cost of exactly one call (or one full iteration)
enum K { K_VIEW,K_URL,K_SET_URL,K_ACCESS,K_DECODE,K_SEG_V,K_SEG_C,K_SEG_M,K_SEGB_V,K_SEGB_C,K_SEGB_M,K_PAR_V,K_PAR_C,K_PAR_M,K_PARB_V,K_PARB_C,K_PARB_M,K_LOOK_V,K_LOOK_C,K_LOOKHIT,K_AT,K_ASSIGN,K_INS0,K_INSM,K_INSE,K_REP0,K_REPM,K_REPE,K_ER0,K_ERM,K_ERE,K_ERALL,
    K_LONG0, // long arguments: the shape itself given to a setter of a small URL
    K_SETTERS=K_LONG0+SEG_REP_ENC+1, NK=K_SETTERS+SEG_INS };
static string kname(int k){
    static char const* const N[]={"url_view constructor","url constructor","set_encoded_url","accessors","decoding accessors","segments of a view","segments of a const url","segments of a url","segments backward of a view","segments backward of a const url","segments backward of a url",
     "params of a view","params of a const url","params of a url","params backward of a view","params backward of a const url","params backward of a url","failing lookups in a view","failing lookups in a url","lookup of the last key","at() of the last key","operator=","insert first","insert in the middle","insert last","replace first","replace in the middle","replace last","erase first","erase in the middle","erase last","erase all"};
    if(k<K_LONG0) return N[k];
    if(k<K_SETTERS) return string(opname(k-K_LONG0))+" with a long argument";
    return string(opname(k-K_SETTERS))+" with a short argument"; }
template<class R> std::size_t fwd(R const& r){ std::size_t n=0; auto const e=r.end(); for(auto it=r.begin();it!=e;++it){ ++n; } return n; }
template<class R> std::size_t bwd(R const& r){ std::size_t n=0; auto const b=r.begin(); for(auto it=r.end();it!=b;){ --it; ++n; } return n; }
static bool measure(int k,string const& s,Cost& c){
    sv const v(s.data(),s.size());
    ref::Url m; bool const ok=ref::parse(s,m);
    if(k==K_VIEW){ Meter t(c); try { urls::url_view u{v}; } catch(urls::invalid_part const&){} return true; }
    if(k==K_URL){ Meter t(c); try { urls::url u{v}; } catch(urls::invalid_part const&){} return true; }
    if(k==K_SET_URL){ urls::url u(sv("s://u:p@h/p?q#f",15)); Meter t(c); try { u.set_encoded_url(v); } catch(urls::invalid_part const&){} return true; }
    if(k>=K_LONG0&&k<K_SETTERS){
        Op o; o.id=k-K_LONG0; o.a=s; if(o.id==PORT_U||o.id==NORMALIZE||o.id==NORM_SCHEME||o.id==ENC_URL) return false;
        urls::url u(sv("s://u:p@h:1/p/q?k=v#f",21)); long pos; o.i=1; Op const& q=o;
        if(o.id==PW_PART_||o.id==PORT_PART_) o.a=":"+s; else if(o.id==QUERY_PART_) o.a="?"+s; else if(o.id==FRAG_PART_) o.a="#"+s; else if(o.id==UI_PART_) o.a=s+"@"; else if(o.id==ENC_ORIGIN&&s.compare(0,2,"s:")) o.a="s://"+s; else if(o.id==ENC_PATH&&s[0]!='/') o.a="/"+s;
        string& a=o.a; a.shrink_to_fit(); ro();
        { Meter t(c); try { call(u,q,2,false,pos); } catch(urls::invalid_part const&){} }
        return true; }
    if(!ok||!m.path_ok()) return false;
    if(k<K_ASSIGN){
        urls::url_view w{v}; urls::url u{v}; urls::url const& cu=u; std::size_t n=0;
        auto const prs=m.params(); string const last=prs.empty()? string("zz") : ref::decode(prs.back().k); sv const lk(last.data(),last.size()), miss("k\x01x",3); string const longk=(last.size()<s.size()/8? string(s.size()/4,'k') : last)+"\x01"; sv const lmiss(longk.data(),longk.size());
        switch(k){
        case K_ACCESS: { Meter t(c); n+=cu.encoded_url().size()+cu.encoded_origin().size()+cu.encoded_authority().size()+cu.encoded_userinfo().size()+cu.encoded_host_and_port().size()+cu.encoded_path().size()+cu.query_part().size()+cu.fragment_part().size()+cu.password_part().size()+cu.port_part().size()+cu.segments().size()+cu.params().size()+w.encoded_origin().size()+w.encoded_authority().size()+w.encoded_path().size()+w.segments().size()+w.params().size()+u.segments().size()+u.params().size(); break; }
        case K_DECODE: { Meter t(c); n+=cu.user().size()+cu.password().size()+cu.host().size()+cu.query().size()+cu.fragment().size()+w.user().size()+w.password().size()+w.host().size()+w.query().size()+w.fragment().size(); break; }
        case K_SEG_V: { Meter t(c); n=fwd(w.segments()); break; } case K_SEG_C: { Meter t(c); n=fwd(cu.segments()); break; } case K_SEG_M: { Meter t(c); n=fwd(u.segments()); break; }
        case K_SEGB_V: { Meter t(c); n=bwd(w.segments()); break; } case K_SEGB_C: { Meter t(c); n=bwd(cu.segments()); break; } case K_SEGB_M: { Meter t(c); n=bwd(u.segments()); break; }
        case K_PAR_V: { Meter t(c); n=fwd(w.params()); break; } case K_PAR_C: { Meter t(c); n=fwd(cu.params()); break; } case K_PAR_M: { Meter t(c); n=fwd(u.params()); break; }
        case K_PARB_V: { Meter t(c); n=bwd(w.params()); break; } case K_PARB_C: { Meter t(c); n=bwd(cu.params()); break; } case K_PARB_M: { Meter t(c); n=bwd(u.params()); break; }
        case K_LOOK_V: { Meter t(c); auto const r=w.params(); n=r.contains(miss)+r.count(miss)+(r.find(miss)==r.end())+r[miss].size()+r.contains(lmiss)+r.count(lmiss); break; }
        case K_LOOK_C: { Meter t(c); auto const r=cu.params(); n=r.contains(miss)+r.count(miss)+(r.find(miss)==r.end())+r[miss].size(); auto const q=u.params(); n+=q.contains(miss)+q.count(miss)+(q.find(miss)==q.end())+q[miss].size(); break; }
        case K_LOOKHIT: { Meter t(c); auto const r=cu.params(); n=r.contains(lk)+r.count(lk)+(r.find(lk)==r.end())+r[lk].size(); auto const q=w.params(); n+=q.contains(lk)+q.count(lk); break; }
        case K_AT: { Meter t(c); try { n=cu.params().at(lk).size(); } catch(std::out_of_range const&){} break; }
        }
        asm volatile("" :: "r"(n));
        return true; }
    if(k==K_ASSIGN){ urls::url a(sv("x:y",3)), b{v}; Meter t(c); a=b; return true; }
    if(k<K_LONG0){
        std::size_t const ns=m.segs().size(); if(ns<3&&k>=K_INSM) return false;
        urls::url u{v}; auto sg=u.segments(); sv const a("xy",2);
        auto at=[&](std::size_t i){ auto it=sg.begin(); while(i--) ++it; return it; };
        auto b=sg.begin(), mid=at(ns/2), e=sg.end(), l=ns? at(ns-1) : sg.begin();
        try { Meter t(c);
            switch(k){
            case K_INS0: sg.insert(b,a); break; case K_INSM: sg.insert_encoded(mid,a); break; case K_INSE: sg.insert(e,a); break;
            case K_REP0: sg.replace(b,a); break; case K_REPM: sg.replace_encoded(mid,a); break; case K_REPE: sg.replace(l,a); break;
            case K_ER0: sg.erase(b); break; case K_ERM: sg.erase(mid); break; case K_ERE: sg.erase(l); break; case K_ERALL: sg.erase(b,e); break; }
        } catch(urls::invalid_part const&){}
        return true; }
    { Op o; o.id=k-K_SETTERS; static char const* const A[]={"z:","z://y","zz","y","n:m","n:m@","uu","uu","pw","pw",":r","hh","hh","","81",":81","/n","q","q","?q","f","f","#f","",""};
      o.a=A[o.id]; o.n=81; urls::url u{v}; long pos; ro();
      { Meter t(c); try { call(u,o,0,false,pos); } catch(urls::invalid_part const&){} }
      return true; } }

static u64 const NSH=u64(NP)*NU*NS, NRND=600;
static u64 total(){ return NSH+NRND; }
static void case_shape(u64 idx){
    Rng g(mix(mix(ctx().seed,0x636f),idx));
    static bool const deep=std::getenv("VERIF_DEEP")!=nullptr;
    std::size_t const n= deep? 24000 : idx%16==3? 12000 : 1500;
    string const a=shape(idx,n,g), b=shape(idx,4*n,g);
    describe(esc(a,40)+"... at "+std::to_string(a.size())+" and "+std::to_string(b.size())+" bytes");
    for(int k=0;k<NK;++k){
        // the grid covers what depends on the shape; setters with a short argument are sampled
        if(k>=K_LONG0&&!g.chance(25)) continue;
        Cost x{0,0},y{0,0};
        string const nm=kname(k);
        phase(T,nm.c_str());
        if(!measure(k,a,x)||!measure(k,b,y)) continue;
        measure(k,a,x); // the first may include first-use work
        phase(0,"");
        ev(T); count_case(mix(idx,u64(k)),true); ctx().stat["measured "+nm]++;
        u64 const r=16*a.size();
        if(y.e>7*(x.e+r)||y.b>7*(x.b+r)) fail(T,nm+" on "+esc(a,60)+": "+std::to_string(x.e)+" edges and "+std::to_string(x.b)+" bytes at length "+std::to_string(a.size())+", "+std::to_string(y.e)+" and "+std::to_string(y.b)+" at "+std::to_string(b.size()));
        // and a plain bound on the constant
        if(y.e>3000*b.size()+100000) fail(T,nm+" on "+esc(b,60)+": "+std::to_string(y.e)+" edges for "+std::to_string(b.size())+" bytes");
    }
    phase(0,"");
    if(idx%211==5) sample(esc(a,40)+"... at "+std::to_string(a.size())+" and "+std::to_string(b.size())+" bytes"); }

// ---- several long components at once, and a long argument given to a long URL: no product of two lengths
enum { R_SCHEME,R_USER,R_PW,R_HOST,R_PORT,R_PATH,R_QUERY,R_FRAG,NR };
static char const* const RUNS[NR][6]={{"s","sS","s1.","s+","S","-.9"},{"u","%41","!$","u%2f",".","&="},{"p",":","%41","p:","=&","@"},{"h",".","%41","1.","0","h."},{"1","0","10","9","01","00"},{"/a","/","a","/%41","/.","/a:b"},{"&","&k=v","k","=","%41","/?"},{"f","%41","/","?","=","&"}};
static string several(u64 which,u64 how,std::size_t len){ // components in `which` are long, `how` picks their runs
    static char const* const SHORT[NR]={"s","u","p","h","1","/p","k=v","f"};
    int n=0; for(int i=0;i<NR;++i) n+=int(which>>i&1); std::size_t const each= n? len/std::size_t(n) : 0;
    string c[NR]; for(int i=0;i<NR;++i){ c[i]=SHORT[i]; if(which>>i&1){ string const u=RUNS[i][how%6]; how/=6; if(i==R_PATH&&u[0]!='/') c[i]="/"; while(c[i].size()<each) c[i]+=u; } }
    if((which>>R_PW&1)&&c[R_PW].find('@')!=string::npos) c[R_PW]=string(c[R_PW].size(),'p');
    return c[R_SCHEME]+"://"+c[R_USER]+":"+c[R_PW]+"@"+c[R_HOST]+":"+c[R_PORT]+c[R_PATH]+"?"+c[R_QUERY]+"#"+c[R_FRAG]; }
static u64 runs_total(){ return 36*36*4; }
static bool judge(string const& nm,string const& shown,Cost const& x,Cost const& y,std::size_t na,std::size_t nb){
    u64 const r=16*na;
    if(y.e>7*(x.e+r)||y.b>7*(x.b+r)){ fail(T,nm+" on "+shown+": "+std::to_string(x.e)+" edges and "+std::to_string(x.b)+" bytes at length "+std::to_string(na)+", "+std::to_string(y.e)+" and "+std::to_string(y.b)+" at "+std::to_string(nb)); return false; }
    if(y.e>3000*nb+100000){ fail(T,nm+" on "+shown+": "+std::to_string(y.e)+" edges for "+std::to_string(nb)+" bytes"); return false; }
    return true; }
static string arg_of(int op,u64 how,std::size_t len){ // a long argument this operation accepts
    static int const COMP[]={-1,-1,R_SCHEME,R_HOST,R_USER,-1,R_USER,R_USER,R_PW,R_PW,-1,R_HOST,R_HOST,-1,R_PORT,-1,R_PATH,R_QUERY,R_QUERY,-1,R_FRAG,R_FRAG,-1};
    int c= op<int(sizeof COMP/sizeof*COMP)? COMP[op] : R_QUERY; if(c<0) c= op==PW_PART_? R_PW : op==PORT_PART_? R_PORT : op==QUERY_PART_? R_QUERY : op==FRAG_PART_? R_FRAG : R_HOST;
    string const u= is_seg(op)? RUNS[R_USER][how%6] : RUNS[c][how%6]; string a; if(c==R_PATH&&!is_seg(op)&&u[0]!='/') a="/"; if(c==R_SCHEME) a="s";
    while(a.size()<len) a+=u;
    switch(op){ case PW_PART_: case PORT_PART_: a=":"+a; break; case QUERY_PART_: a="?"+a; break; case FRAG_PART_: a="#"+a; break; case UI_PART_: a+="@"; break; case ENC_ORIGIN: a="s://"+a; break; default: break; }
    return a; }
static void case_runs(u64 idx){
    Rng g(mix(mix(ctx().seed,0x7275),idx));
    static bool const deep=std::getenv("VERIF_DEEP")!=nullptr;
    std::size_t const n= deep? 24000 : 3000;
    // every pair of long components with random runs, then any set of them
    u64 which=0,how=g.next(); { u64 v=idx%36; for(int i=0;i<NR;++i) for(int j=i;j<NR;++j) if(v--==0) which=(1ull<<i)|(1ull<<j); } if(idx>=36*36*3) which|=g.below(256);
    which&=~(1ull<<R_HOST)|(g.chance(90)?~0ull:0);
    string const a=several(which,how,n), b=several(which,how,4*n); { ref::Url m; if(!ref::parse(a,m)) { ctx().stat["shapes that are no URL"]++; } }
    describe(esc(a,40)+"... at "+std::to_string(a.size())+" and "+std::to_string(b.size())+" bytes");
    for(int k=0;k<NK;++k){
        if(k>=K_LONG0&&k<K_SETTERS) continue;
        if(!g.chance(k<K_SETTERS?50:70)) continue;
        Cost x{0,0},y{0,0}; string const nm=kname(k); phase(T,nm.c_str());
        if(!measure(k,a,x)||!measure(k,b,y)) continue;
        measure(k,a,x); phase(0,""); ev(T); count_case(mix(mix(7,idx),u64(k)),true); ctx().stat["measured on several runs"]++;
        judge(nm,esc(a,60)+"...",x,y,a.size(),b.size());
    }
    for(int op=0;op<=SEG_REP_ENC;++op){
        if(op==PORT_U||op==NORMALIZE||op==NORM_SCHEME||op==ENC_URL||!g.chance(60)) continue;
        u64 const h=g.next(); Cost c[2]; bool done[2]={false,false}; string const nm=string(opname(op))+" with a long argument on a long URL"; phase(T,nm.c_str()); std::size_t tot[2]={0,0};
        for(int rep=0;rep<3;++rep){ int const w= rep==2; string const& s= w? b : a; ref::Url m; if(!ref::parse(s,m)) break;
            Op o; o.id=op; o.a=arg_of(op,h,(w?4:1)*n/2); std::size_t const ns=m.segs().size(); if(is_seg(op)){ if(op>=SEG_REP&&!ns) break; o.i= op>=SEG_REP? ns-1 : ns/2; }
            tot[w]=s.size()+o.a.size(); Op const& q=o;
            // positions are reached outside the measurement
            urls::url u(sv(s.data(),s.size())); auto sg=u.segments(); auto it=sg.begin(); if(is_seg(op)) for(std::size_t i=0;i<o.i;++i) ++it;
            sv const arg(o.a.data(),o.a.size()); long pos; ro(); done[w]=true;
            try { Meter t(c[w]);
                if(op==SEG_INS) sg.insert(it,arg); else if(op==SEG_INS_ENC) sg.insert_encoded(it,arg); else if(op==SEG_REP) sg.replace(it,arg); else if(op==SEG_REP_ENC) sg.replace_encoded(it,arg); else call(u,q,ns,false,pos);
            } catch(urls::invalid_part const&){ ctx().stat["long arguments rejected"]++; } }
        phase(0,""); if(!done[0]||!done[1]) continue;
        ev(T); count_case(mix(mix(8,idx),u64(op)),true); ctx().stat["measured long argument on a long URL"]++;
        judge(nm,esc(a,60)+"...",c[0],c[1],tot[0],tot[1]);
    }
    phase(0,"");
    if(idx%211==5) sample(esc(a,40)+"... at "+std::to_string(a.size())+" and "+std::to_string(b.size())+" bytes"); }

// ---- a short URL in a buffer that was once large: the spare capacity costs nothing
static u64 spare_total(){ return u64(SEG_ERASE_RANGE+1)*6; }
static void case_spare(u64 idx){
    int const op=int(idx%(SEG_ERASE_RANGE+1)); int const kind=int(idx/(SEG_ERASE_RANGE+1));
    static char const* const A[]={"z:","z://y","zz","y","n:m","n:m@","uu","uu","pw","pw",":r","hh","hh","","81",":81","/n","q","q","?q","f","f","#f","","","xy","xy","xy","xy","",""};
    static char const* const S[]={"s://u:p@h:1/p/q?k=v#f","s://h/p/q","//h/p/q","s:p/q?k","/p/q#f","p/q"};
    string const base=S[kind]; Op o; o.id=op; o.a=A[op]; o.n=81; o.i=1; o.j=2; string const nm=string(opname(op))+" on "+base;
    describe(nm); phase(T,nm.c_str());
    u64 first[2]={0,0};
    for(int k=0;k<4;++k){
        std::size_t const cap=std::size_t(200)<<(3*k);
        Cost c{0,0};
        for(int rep=0;rep<2;++rep){
            string const big="s://h/"+string(cap,'a'); urls::url u(sv(big.data(),big.size())); u.set_encoded_url(sv(base.data(),base.size()));
            long pos; ro(); Meter t(c); try { call(u,o,2,false,pos); } catch(urls::invalid_part const&){} }
        ev(T); count_case(mix(idx,cap),true); ctx().stat["measured with spare capacity"]++;
        if(k==0){ first[0]=c.e; first[1]=c.b; }
        else if(c.e>2*first[0]+1000||c.b>2*first[1]+1000){ fail(T,nm+": "+std::to_string(first[0])+" edges and "+std::to_string(first[1])+" bytes with room for 200 characters, "+std::to_string(c.e)+" and "+std::to_string(c.b)+" with room for "+std::to_string(cap)); break; }
    }
    phase(0,"");
    if(idx%37==5) sample(nm+" with spare capacity 200..102400"); }
int main(int argc,char** argv){
    if(argc>1&&!std::strcmp(argv[1],"--totals")){ std::printf("shape %llu\nruns %llu\nspare %llu\n",(unsigned long long)total(),(unsigned long long)runs_total(),(unsigned long long)spare_total()); return 0; }
    return run(argc,argv,{{"shape",case_shape,nullptr},{"runs",case_runs,nullptr},{"spare",case_spare,nullptr}}); }
