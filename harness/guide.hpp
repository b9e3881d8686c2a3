// Workloads steered by what the library's own code compares: built with
// -fsanitize-coverage=inline-8bit-counters,trace-cmp restricted to boost::urls
// (lib.allow).  An input that reaches a new edge or brings the two sides of a
// comparison closer is kept and varied further; the operands seen at the rarest
// comparisons say by how much to lengthen, shorten or replace what.
// The oracle is the same as everywhere: this only chooses inputs.
#pragma once
#include "gen.hpp"
#include "ref.hpp"
#include <sys/personality.h>
namespace guide {
using h::u64; using h::u32; using h::Rng; using std::string;
static u32 const BITS=1u<<21;
struct Pair { u64 a,b; u32 count,id; unsigned char width; };
struct State {
    bool on=false;
    unsigned char seen[BITS]={}; u64 fresh=0;
    u32 site[1<<16]={};
    unsigned char near[1<<16]={};           // stretches of code in which the library compares something
    Pair rare[48]; unsigned n=0; u32 epoch=0; u32 slot[1<<16]={};     // the rarest comparisons of this execution
    std::vector<string> words; unsigned nextw=0;
    unsigned char *c0=nullptr,*c1=nullptr; std::vector<unsigned char> edge;
};
inline State& st(){ static State s; return s; }
inline void feature(u64 x){ State& s=st(); u32 const i=u32((x*0x9E3779B97F4A7C15ull)>>43)&(BITS-1); if(!s.seen[i]){ s.seen[i]=1; ++s.fresh; } }
inline void compared(u64 pc,u64 a,u64 b,unsigned char width){
    State& s=st(); if(!s.on) return;
    s.near[(pc>>7)&0xffff]=1;
    u64 const d= a>b? a-b : b-a;
    u64 const lg= d? 64-u64(__builtin_clzll(d)) : 0;
    feature(pc*256+lg);
    if(width>1&&d<16) feature(pc*256+80+(a>b?16:0)+d);
    if((a|b)<(1ull<<32)) feature(pc*256+128+u64(__builtin_popcountll(a^b)));
    u32 const id=u32(pc^(pc>>16))&0xffff; u32& k=s.site[id]; ++k;
    if(!d||d>=(1u<<20)) return;
    u32& t=s.slot[id];
    if(t>>6==s.epoch){ Pair& p=s.rare[t&63]; if(p.id==id){ if(p.b==b||((k*2654435761u)>>28)<4) p=Pair{a,b,k,id,width}; return; } }     // one of each
    unsigned w=s.n;
    if(s.n<48) ++s.n; else { w=0; for(unsigned i=1;i<48;++i) if(s.rare[i].count>s.rare[w].count) w=i; if(s.rare[w].count<=k) return; }    // the commonest makes room
    s.rare[w]=Pair{a,b,k,id,width}; t=s.epoch<<6|w; }
inline void word(u64 pc,char const* p,std::size_t n){
    State& s=st(); if(!s.on||!n||n>40||!s.near[(pc>>7)&0xffff]) return;
    s.on=false; string const w(p,n); bool known=false; for(auto& x: s.words) known|=x==w;
    s.on=true; if(known) return;
    if(s.words.size()<64) s.words.push_back(w); else { s.words[s.nextw]=w; s.nextw=(s.nextw+1)%64; } }
inline void begin(){ State& s=st(); s.fresh=0; s.n=0; s.epoch=(s.epoch+1)&0x3ffffff; }
inline void resume(){ State& s=st(); if(s.c0) std::memset(s.c0,0,std::size_t(s.c1-s.c0)); s.on=true; }
inline void pause(){ // counts what was executed since resume() for the first time
    State& s=st(); s.on=false;
    std::size_t const n=std::size_t(s.c1-s.c0); if(s.edge.size()!=n) s.edge.assign(n,0);
    for(std::size_t i=0;i<n;++i){
        if(i+8<=n){ u64 w; std::memcpy(&w,s.c0+i,8); if(!w){ i+=7; continue; } }
        if(unsigned char const v=s.c0[i]){
            unsigned char const b= v==1? 1 : v==2? 2 : v==3? 4 : v<8? 8 : v<16? 16 : v<32? 32 : v<128? 64 : 128;
            if(!(s.edge[i]&b)){ s.edge[i]|=b; ++s.fresh; } } } }
inline void reset(){ State& s=st(); std::memset(s.seen,0,sizeof s.seen); std::memset(s.site,0,sizeof s.site); s.words.clear(); s.nextw=0; s.edge.clear(); }

// what an input was kept for: the comparison it reached that the fewest others reach
struct Kept { std::vector<Pair> pairs; u32 rarest=0, picks=0;
    void take(){ State& s=st(); pairs.assign(s.rare,s.rare+s.n); u32 best=~0u; for(auto& p: pairs) if(p.count<best){ best=p.count; rarest=p.id; } }
    u64 score() const { return u64(st().site[rarest]+1)*(1+picks); } };
template<class T> T& choose(std::vector<T>& v,Rng& g){ // prefers the rare and the untried
    std::size_t b=g.below(u32(v.size())); u32 const n=g.below(8);
    for(u32 i=0;i<n;++i){ std::size_t const c=g.below(u32(v.size())); if(v[c].kept.score()<v[b].kept.score()) b=c; }
    ++v[b].kept.picks; return v[b]; }

// the same addresses in every run, so that a search can be repeated
inline void steady(char** argv){ int const p=personality(0xffffffff); if(p==-1||(p&ADDR_NO_RANDOMIZE)) return; if(personality(static_cast<unsigned long>(p)|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }

// ---- varying a string
inline std::size_t spot(string const& s,Rng& g,char const* at){ // a place after one of these characters
    std::vector<std::size_t> v; for(std::size_t i=0;i<s.size();++i) if(std::strchr(at,s[i])&&s[i]) v.push_back(i+1);
    return v.empty()? s.size() : v[g.below(u32(v.size()))]; }
inline void longer(string& s,std::size_t n,Rng& g){
    if(!n||n>70000||s.size()+n>200000) return;
    switch(g.below(6)){
    case 0: { string x; for(std::size_t i=0;i<n;++i) x+="/a"; s.insert(s.empty()? 0 : spot(s,g,"/:")-(g.chance(50)&&!s.empty()?1:0),x); break; }
    case 1: { string x; for(std::size_t i=0;i<n;++i) x+=g.chance(50)?"&":"k&"; s.insert(spot(s,g,"?&"),x); break; }
    case 2: { string x; for(std::size_t i=0;i<n;++i) x+="%41"; s.insert(spot(s,g,"abcdefghijklmnopqrstuvwxyz0123456789"),x); break; }
    default: { std::size_t const p=g.chance(20)? s.size() : spot(s,g,"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"); char const c= p? s[p-1] : 'a'; s.insert(p,string(n,(c>='0'&&c<='9')||(c>='a'&&c<='z')? c : 'a')); break; }
    } }
inline void shorter(string& s,std::size_t n,Rng& g){ if(n<s.size()){ std::size_t const p=g.chance(40)? s.size()-n : g.below(u32(s.size()-n+1)); s.erase(p,n); } }
// the component of this URL that is as long as one side of a comparison, made as long as the other
inline bool fit(string& s,u64 a,u64 b,Rng& g){
    if(a>4000||b>4000) return false;
    ref::Url m; if(!ref::parse(s,m)) return false;
    long const A=long(a), B=long(b);
    struct { long len; int what; } const all[]={ {long(m.scheme.size()),0},{long(m.user.size()),1},{long(m.pw.size()),2},{long(m.host.size()),3},{long(m.port.size()),4},{long(m.path.size()),5},{long(m.query.size()),6},{long(m.frag.size()),7},
        {long(m.segs().size()),8},{long(m.has_query? m.params().size() : 0),9},{long(s.size()),10} };
    int c[11], n=0; for(auto& x: all){ long const slack= x.what<8? 3 : 1; if(x.len-A<=slack&&A-x.len<=slack) c[n++]=x.what; }
    if(!n) return false;
    int w=c[g.below(u32(n))]; long d=B-A; if(g.chance(25)) d+=d<0? -1 : 1;
    if(w==8){
        if(d>0) for(long i=0;i<d&&i<300;++i) m.path+= g.chance(80)? "/a" : "/";
        else while(d++<0){ auto const q=m.path.rfind('/'); if(q==string::npos||(q==0&&m.has_auth&&m.path.size()==1)) break; m.path.erase(q); }
    } else if(w==9){
        if(d>0) for(long i=0;i<d&&i<300;++i){ if(m.has_query) m.query+='&'; m.has_query=true; m.query+= g.chance(60)? "k=v" : "k"; }
        else while(d++<0){ auto const q=m.query.rfind('&'); if(q==string::npos){ m.has_query=false; m.query.clear(); break; } m.query.erase(q); }
    } else {
        string* const part[]={ &m.scheme,&m.user,&m.pw,&m.host,&m.port,&m.path,&m.query,&m.frag };
        if(w==10) w=int(g.below(8));
        string& x=*part[w];
        if(d>0){
            char const f= w==4? char('0'+g.below(10)) : char('a'+g.below(26)); bool const tail=g.chance(50);
            std::size_t at= tail||x.empty()? x.size() : 1+g.below(u32(x.size())); if(w==3&&!x.empty()&&x[0]=='[') return false;
            if(w==5&&x.empty()){ x="/"; at=1; --d; }
            x.insert(at,string(std::size_t(d),f));
        } else { std::size_t const k=std::size_t(-d); if(k>x.size()) return false; std::size_t const from= w==5&&!x.empty()&&x.size()>k? 1 : 0; x.erase(from+g.below(u32(x.size()-k-from+1)),k); }
        if(!x.empty()){
            if(w==0) m.has_scheme=true;
            if(w>=1&&w<=4){ m.has_auth=true; if(!m.path.empty()&&m.path[0]!='/') m.path.insert(0,1,'/'); }
            if(w==1||w==2) m.has_ui=true;
            if(w==2) m.has_colon=true;
            if(w==4) m.has_port=true;
            if(w==6) m.has_query=true;
            if(w==7) m.has_frag=true;
        } else if(w==0) m.has_scheme=false;
    }
    string const r=m.str(); ref::Url t; if(r==s||!ref::parse(r,t)) return false;
    s=r; return true; }
// another component in place of this one, new or from another URL; the rest stays
inline bool swap(string& s,string const& other,Rng& g){
    ref::Url m,o; if(!ref::parse(s,m)) return false;
    if(!g.chance(50)||!ref::parse(other,o)){ bool ok=false; for(int t=0;t<4&&!ok;++t) ok=ref::parse(gen::url(g),o); if(!ok) return false; }
    switch(g.below(7)){
    case 0: m.has_scheme=o.has_scheme; m.scheme=o.scheme; break;
    case 1: m.has_auth=true; m.has_ui=o.has_ui; m.user=o.user; m.has_colon=o.has_colon; m.pw=o.pw; break;
    case 2: case 3: m.has_auth=true; m.host=o.host; break;
    case 4: m.has_auth=true; m.has_port=o.has_port; m.port=o.port; break;
    case 5: m.path=o.path; break;
    default: if(g.chance(60)){ m.has_query=o.has_query; m.query=o.query; } else { m.has_frag=o.has_frag; m.frag=o.frag; } }
    if(m.has_auth&&!m.path.empty()&&m.path[0]!='/') m.path.insert(0,1,'/');
    string const r=m.str(); ref::Url t; if(r==s||!ref::parse(r,t)) return false;
    s=r; return true; }
inline void vary(string& s,std::vector<Pair> const& pairs,string const& other,Rng& g,bool whole=false){
    State& t=st(); u32 const k=g.below(100);
    if(whole&&g.chance(20)&&swap(s,other,g)) return;
    if(k<45&&!pairs.empty()){
        std::size_t c=g.below(u32(pairs.size())); if(g.chance(60)){ std::size_t const d=g.below(u32(pairs.size())); if(pairs[d].count<pairs[c].count) c=d; }
        Pair const& p=pairs[c];
        if(whole&&g.chance(50)&&(g.chance(85)? fit(s,p.a,p.b,g) : fit(s,p.b,p.a,g))) return;
        if(g.chance(30)&&p.a!=p.b){ // the same number, as it is spelled
            char x[24],y[24]; char const* const f= g.chance(40)? "%llu" : g.chance(50)? "%llx" : "%llX"; std::snprintf(x,sizeof x,f,(unsigned long long)p.a); std::snprintf(y,sizeof y,f,(unsigned long long)p.b);
            std::size_t const at=s.find(x,g.chance(50)? 0 : g.below(u32(s.size()+1))); if(at!=string::npos){ s.replace(at,std::strlen(x),y); return; } }
        if(p.width==1||(p.a<256&&p.b<256&&g.chance(50))){ // one character for another
            char const a=static_cast<char>(g.chance(50)?p.a:p.b), b=static_cast<char>(a==static_cast<char>(p.a)?p.b:p.a);
            std::vector<std::size_t> at; for(std::size_t i=0;i<s.size();++i) if(s[i]==a) at.push_back(i);
            if(!at.empty()){ s[at[g.below(u32(at.size()))]]=b; return; }
            s.insert(g.below(u32(s.size()+1)),1,b);
        } else { // or another length
            u64 const d= p.a>p.b? p.a-p.b : p.b-p.a; bool const grow= g.chance(85)? p.a<p.b : p.a>p.b;
            std::size_t const n=std::size_t(d)+(g.chance(80)?0:g.below(2));
            if(grow) longer(s,n,g); else shorter(s,n,g);
        }
    }
    else if(k<55&&!t.words.empty()){ string const& w=t.words[g.below(u32(t.words.size()))]; std::size_t const p=g.below(u32(s.size()+1)); if(g.chance(30)) s=w; else if(g.chance(50)&&p+w.size()<=s.size()) s.replace(p,w.size(),w); else s.insert(p,w); }
    else if(k<65&&!other.empty()){ std::size_t const p=g.below(u32(other.size())), n=1+g.below(u32(other.size()-p)); s.insert(g.below(u32(s.size()+1)),other.substr(p,n)); }
    else if(k<72) gen::stretch(s,g);
    else if(k<78) longer(s,1+g.below(9),g);
    else if(k<84) shorter(s,1+g.below(9),g);
    else s=gen::mutate(g,s);
    if(s.size()>250000) s.resize(250000); }
} // guide
#ifdef GUIDED
extern "C" {
#define PC (u64)(std::uintptr_t)__builtin_return_address(0)
using h::u64;
void __sanitizer_cov_8bit_counters_init(char* a,char* b){ guide::st().c0=(unsigned char*)a; guide::st().c1=(unsigned char*)b; }
void __sanitizer_cov_trace_cmp1(std::uint8_t a,std::uint8_t b){ guide::compared(PC,a,b,1); }
void __sanitizer_cov_trace_cmp2(std::uint16_t a,std::uint16_t b){ guide::compared(PC,a,b,2); }
void __sanitizer_cov_trace_cmp4(std::uint32_t a,std::uint32_t b){ guide::compared(PC,a,b,4); }
void __sanitizer_cov_trace_cmp8(std::uint64_t a,std::uint64_t b){ guide::compared(PC,a,b,8); }
void __sanitizer_cov_trace_const_cmp1(std::uint8_t a,std::uint8_t b){ guide::compared(PC,b,a,1); }
void __sanitizer_cov_trace_const_cmp2(std::uint16_t a,std::uint16_t b){ guide::compared(PC,b,a,2); }
void __sanitizer_cov_trace_const_cmp4(std::uint32_t a,std::uint32_t b){ guide::compared(PC,b,a,4); }
void __sanitizer_cov_trace_const_cmp8(std::uint64_t a,std::uint64_t b){ guide::compared(PC,b,a,8); }
void __sanitizer_cov_trace_switch(std::uint64_t v,std::uint64_t* c){ u64 const pc=PC; for(u64 i=0;i<c[0];++i) guide::compared(pc+i*7,v,c[2+i],static_cast<unsigned char>(c[1]/8)); }
int __real_memcmp(void const*,void const*,std::size_t); int __real_bcmp(void const*,void const*,std::size_t);
int __wrap_memcmp(void const* a,void const* b,std::size_t n){ guide::word(PC,(char const*)a,n); guide::word(PC,(char const*)b,n); return __real_memcmp(a,b,n); }
int __wrap_bcmp(void const* a,void const* b,std::size_t n){ guide::word(PC,(char const*)a,n); guide::word(PC,(char const*)b,n); return __real_bcmp(a,b,n); }
#undef PC
}
#endif
