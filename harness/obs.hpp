// Everything observable about a URL, as a vector of named fields; the expected
// vector is computed from the reference model.
#pragma once
#ifdef BOOST_URL_STANDALONE
#include <string_view>
#include <optional>
#include <system_error>
#include <cassert>
#endif
#include <boost/url.hpp>
#include <boost/url/scheme.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/error.hpp>
#include "common.hpp"
#include "ref.hpp"
namespace urls = boost::urls;
namespace h {
typedef urls::string_view sv;
inline sv mk(char const* p,std::size_t n){ return sv(p,n); }
inline string str(sv s){ return s.empty()? string() : string(s.data(),s.size()); }

enum F { URL,SIZE,ORIGIN,SCHEME,HAS_AUTH,AUTH,HAS_UI,UI,UI_PART,USER,PW,PW_PART,HOST,HOSTPORT,PORT,PORT_PART,
    PATH,QUERY,QUERY_PART,FRAG,FRAG_PART, HOSTTYPE, D_USER,D_PW,D_HOST,D_QUERY,D_FRAG,D_SEGS,D_PARS,
    NSEG,SEGS_F,SEGS_B, NPAR,PARS_F,PARS_B, NF };
inline char const* fname(int i){
    static char const* const N[]={"encoded_url","size","encoded_origin","scheme","has_authority","encoded_authority","has_userinfo",
    "encoded_userinfo","userinfo_part","encoded_user","encoded_password","password_part","encoded_host","encoded_host_and_port","port","port_part",
    "encoded_path","encoded_query","query_part","encoded_fragment","fragment_part","host_type","user","password","host","query","fragment",
    "segment strings","param keys/values","segments().size","segments forward","segments backward","params().size","params forward","params backward"};
    return N[i]; }
inline u32 ftag(int i){
    if(i<HOSTTYPE) return C(2);
    if(i==HOSTTYPE) return C(3);
    if(i<NSEG) return C(4);
    if(i<NPAR) return C(12);
    return C(14); }
struct Obs {
    string f[NF];
    bool operator==(Obs const& o) const { for(int i=0;i<NF;++i) if(f[i]!=o.f[i]) return false; return true; }
    u64 hash(u64 h0) const { for(int i=0;i<NF;++i) h0=hash_str(h0,f[i]); return h0; }
};
inline void put(string& d,string const& s){ d+=std::to_string(s.size()); d+=':'; d+=s; d+=';'; }

template<class R> void walk_segments(R const& r,std::size_t cap,string& fwd,string& bwd,string* dec){
    phase(C(12)|C(21),"segments forward");
    std::vector<string> v;
    auto const b=r.begin(); auto const e=r.end();
    std::size_t n=0;
    for(auto it=b;it!=e;++it){
        if(++n>cap){ fwd+="<runaway>"; break; }
        v.push_back(str((*it).encoded_string())); put(fwd,v.back());
        if(dec){ phase(C(4)|C(12)|C(21),"segment string()"); auto const s=it->string(); put(*dec,string(s.data(),s.size())); phase(C(12)|C(21),"segments forward"); }
    }
    phase(C(12)|C(21),"segments backward");
    std::vector<string> w; n=0;
    for(auto it=e;it!=b;){
        if(++n>cap){ bwd+="<runaway>"; break; }
        --it; w.push_back(str(it->encoded_string()));
    }
    for(std::size_t i=w.size();i-->0;) put(bwd,w[i]);
}
template<class R> void walk_params(R const& r,std::size_t cap,string& fwd,string& bwd,string* dec){
    phase(C(14)|C(21),"params forward");
    auto const b=r.begin(); auto const e=r.end();
    std::size_t n=0;
    for(auto it=b;it!=e;++it){
        if(++n>cap){ fwd+="<runaway>"; break; }
        auto const p=*it;
        put(fwd,str(p.encoded_key())); put(fwd,str(p.encoded_value()));
        if(dec){
            phase(C(4)|C(14)|C(21),"param key()/value()");
            auto const k=p.key(), v=it->value();
            put(*dec,string(k.data(),k.size())); put(*dec,string(v.data(),v.size()));
            phase(C(14)|C(21),"params forward");
        }
    }
    phase(C(14)|C(21),"params backward");
    std::vector<string> w; n=0;
    for(auto it=e;it!=b;){
        if(++n>cap){ bwd+="<runaway>"; break; }
        --it; w.push_back(str(it->encoded_key())); w.push_back(str(it->encoded_value()));
    }
    for(std::size_t i=w.size();i>=2;i-=2){ put(bwd,w[i-2]); put(bwd,w[i-1]); }
}
inline string pw_part(urls::url_view const& u){ (void)u; return "\1n/a"; }
inline string pw_part(urls::url_base const& u){ return str(u.password_part()); }

template<class U> void snap(U const& u,Obs& o){
    for(int i=0;i<NF;++i) o.f[i].clear();
    phase(C(2)|C(21),"component accessors");
    o.f[URL]=str(u.encoded_url()); o.f[SIZE]=std::to_string(u.size()); o.f[ORIGIN]=str(u.encoded_origin());
    o.f[SCHEME]=str(u.scheme()); o.f[HAS_AUTH]=u.has_authority()?"1":"0"; o.f[AUTH]=str(u.encoded_authority());
    o.f[HAS_UI]=u.has_userinfo()?"1":"0"; o.f[UI]=str(u.encoded_userinfo()); o.f[UI_PART]=str(u.userinfo_part());
    o.f[USER]=str(u.encoded_user()); o.f[PW]=str(u.encoded_password()); o.f[PW_PART]=pw_part(u);
    o.f[HOST]=str(u.encoded_host()); o.f[HOSTPORT]=str(u.encoded_host_and_port());
    o.f[PORT]=str(u.port()); o.f[PORT_PART]=str(u.port_part()); o.f[PATH]=str(u.encoded_path());
    o.f[QUERY]=str(u.encoded_query()); o.f[QUERY_PART]=str(u.query_part());
    o.f[FRAG]=str(u.encoded_fragment()); o.f[FRAG_PART]=str(u.fragment_part());
    o.f[HOSTTYPE]=std::to_string(static_cast<int>(u.host_type()));
    phase(C(4)|C(21),"decoding accessors");
    o.f[D_USER]=u.user(); o.f[D_PW]=u.password(); o.f[D_HOST]=u.host(); o.f[D_QUERY]=u.query(); o.f[D_FRAG]=u.fragment();
    std::size_t const cap=u.size()+4;
    auto const sg=u.segments();
    o.f[NSEG]=std::to_string(sg.size())+(sg.empty()?"e":"");
    walk_segments(sg,cap,o.f[SEGS_F],o.f[SEGS_B],&o.f[D_SEGS]);
    auto const pr=u.params();
    o.f[NPAR]=std::to_string(pr.size())+(pr.empty()?"e":"");
    walk_params(pr,cap,o.f[PARS_F],o.f[PARS_B],&o.f[D_PARS]);
    phase(0,"");
}
inline void expected(ref::Url const& m,bool view,Obs& o){
    for(int i=0;i<NF;++i) o.f[i].clear();
    o.f[URL]=m.str(); o.f[SIZE]=std::to_string(o.f[URL].size()); o.f[ORIGIN]=m.origin();
    o.f[SCHEME]=m.scheme; o.f[HAS_AUTH]=m.has_auth?"1":"0"; o.f[AUTH]=m.has_auth?m.authority():"";
    o.f[HAS_UI]=m.has_ui?"1":"0"; o.f[UI]=m.has_ui?m.userinfo():""; o.f[UI_PART]=m.userinfo_part();
    o.f[USER]=m.user; o.f[PW]=m.pw; o.f[PW_PART]=view?"\1n/a":m.password_part();
    o.f[HOST]=m.host; o.f[HOSTPORT]=m.host_and_port(); o.f[PORT]=m.port; o.f[PORT_PART]=m.port_part();
    o.f[PATH]=m.path; o.f[QUERY]=m.query; o.f[QUERY_PART]=m.query_part(); o.f[FRAG]=m.frag; o.f[FRAG_PART]=m.fragment_part();
    int const k=m.kind();
    urls::host_type const t= k==ref::none? urls::host_type::none : k==ref::name? urls::host_type::name :
        k==ref::ipv4? urls::host_type::ipv4 : k==ref::ipv6? urls::host_type::ipv6 : urls::host_type::ipvfuture;
    o.f[HOSTTYPE]=std::to_string(static_cast<int>(t));
    o.f[D_USER]=ref::decode(m.user); o.f[D_PW]=ref::decode(m.pw); o.f[D_HOST]=ref::decode(m.host);
    o.f[D_QUERY]=ref::decode(m.query); o.f[D_FRAG]=ref::decode(m.frag);
    auto const sg=m.segs();
    o.f[NSEG]=std::to_string(sg.size())+(sg.empty()?"e":"");
    for(auto const& s: sg){ put(o.f[SEGS_F],s); put(o.f[D_SEGS],ref::decode(s)); }
    o.f[SEGS_B]=o.f[SEGS_F];
    auto const pr=m.params();
    o.f[NPAR]=std::to_string(pr.size())+(pr.empty()?"e":"");
    for(auto const& p: pr){ put(o.f[PARS_F],p.k); put(o.f[PARS_F],p.v); put(o.f[D_PARS],ref::decode(p.k)); put(o.f[D_PARS],ref::decode(p.v)); }
    o.f[PARS_B]=o.f[PARS_F];
}
// compare; `extra` is added to the tags of a mismatch, `base` replaces C02 when set
inline bool same(Obs const& got,Obs const& want,u32 component_tag,u32 extra,string const& what){
    bool ok=true;
    for(int i=0;i<NF;++i){
        u32 const t=i<HOSTTYPE? component_tag : ftag(i);
        ev(t|extra);
        if(got.f[i]==want.f[i]) continue;
        fail(t|extra,what+": "+fname(i)+" is "+esc(got.f[i])+", expected "+esc(want.f[i]));
        ok=false;
    }
    return ok; }

// ---- random walks over the two lists: any mix of ++ -- post/pre, positions compared
template<class R> void roam_segments(R const& r,std::vector<string> const& v,Rng& g,u32 tags,string const& what){
    phase(tags,"segments walk");
    auto it=r.begin(); std::size_t pos=0;
    for(int k=0;k<24;++k){
        bool const fwd= pos==0? true : pos==v.size()? false : g.chance(50);
        if(fwd&&pos==v.size()) break;
        if(fwd){ if(g.chance(50)) ++it; else { auto o=it++; if(str((*o).encoded_string())!=v[pos]) fail(tags,what+": post-increment yields a wrong segment"); } ++pos; }
        else { if(g.chance(50)) --it; else { auto o=it--; if(pos<v.size()? str((*o).encoded_string())!=v[pos] : !(o==r.end())) fail(tags,what+": post-decrement yields a wrong segment"); } --pos; }
        ev(tags);
        if(g.chance(25)){ auto x=r.begin(); for(std::size_t i=0;i<=v.size();++i){ if((x==it)!=(i==pos)||(x!=it)==(i==pos)){ fail(tags,what+": segment iterators at "+std::to_string(i)+" and "+std::to_string(pos)+" compare wrongly"); return; } if(i<v.size()) ++x; } }
        bool const atend=it==r.end(), atbeg=it==r.begin();
        if(atend!=(pos==v.size())||atbeg!=(pos==0)){ fail(tags,what+": segment iterator at position "+std::to_string(pos)+" of "+std::to_string(v.size())+" compares wrongly to begin/end"); return; }
        if(pos<v.size()&&str(it->encoded_string())!=v[pos]){ fail(tags,what+": segment "+std::to_string(pos)+" after a walk is "+esc(str(it->encoded_string()))+", expected "+esc(v[pos])); return; }
    } }
template<class R> void roam_params(R const& r,std::vector<ref::Url::Param> const& v,Rng& g,u32 tags,string const& what){
    phase(tags,"params walk");
    auto it=r.begin(); std::size_t pos=0;
    for(int k=0;k<24;++k){
        bool const fwd= pos==0? true : pos==v.size()? false : g.chance(50);
        if(fwd&&pos==v.size()) break;
        if(fwd){ if(g.chance(50)) ++it; else { auto o=it++; if(str((*o).encoded_key())!=v[pos].k||str(o->encoded_value())!=v[pos].v) fail(tags,what+": post-increment yields a wrong param"); } ++pos; }
        else { if(g.chance(50)) --it; else { auto o=it--; if(pos<v.size()? str((*o).encoded_key())!=v[pos].k : !(o==r.end())) fail(tags,what+": post-decrement yields a wrong param"); } --pos; }
        ev(tags);
        if(g.chance(25)){ auto x=r.begin(); for(std::size_t i=0;i<=v.size();++i){ if((x==it)!=(i==pos)||(x!=it)==(i==pos)){ fail(tags,what+": param iterators at "+std::to_string(i)+" and "+std::to_string(pos)+" compare wrongly"); return; } if(i<v.size()) ++x; } }
        bool const atend=it==r.end(), atbeg=it==r.begin();
        if(atend!=(pos==v.size())||atbeg!=(pos==0)){ fail(tags,what+": param iterator at position "+std::to_string(pos)+" of "+std::to_string(v.size())+" compares wrongly to begin/end"); return; }
        if(pos<v.size()){
            auto const p=*it;
            if(str(p.encoded_key())!=v[pos].k||str(p.encoded_value())!=v[pos].v){ fail(tags,what+": param "+std::to_string(pos)+" after a walk is "+esc(str(p.encoded_key()))+"="+esc(str(p.encoded_value()))+", expected "+esc(v[pos].k)+"="+esc(v[pos].v)); return; }
            std::pair<std::string const,std::string> const q=p;
            if(q.first!=ref::decode(v[pos].k)||q.second!=ref::decode(v[pos].v)) fail(tags|C(4),what+": param as pair is wrong");
        }
    } }
// ---- lookups
template<class R> void lookup(R const& r,std::vector<ref::Url::Param> const& v,string const& key,string const& what){
    u32 const T=C(14);
    phase(T,"params lookup"); ev(T);
    std::size_t n=0, first=v.size();
    for(std::size_t i=0;i<v.size();++i) if(ref::decode(v[i].k)==key){ if(n++==0) first=i; }
    string k=key; sv const kv(k.data(),k.size());
    string const w=what+": lookup of "+esc(key)+": ";
    if(r.contains(kv)!=(n>0)) fail(T,w+"contains is wrong");
    if(r.count(kv)!=n) fail(T,w+"count is "+std::to_string(r.count(kv))+", expected "+std::to_string(n));
    auto it=r.find(kv);
    auto at=r.begin(); for(std::size_t i=0;i<first;++i) ++at;
    if(it!=at) fail(T,w+"find is not at position "+std::to_string(first));
    else if(n&&str(it->encoded_value())!=v[first].v) fail(T,w+"find yields a wrong value");
    string const want=n? ref::decode(v[first].v) : "";
    if(r[kv]!=want) fail(T,w+"[] is "+esc(r[kv])+", expected "+esc(want));
    try {
        auto const s=r.at(kv);
        if(!n) fail(T,w+"at did not throw");
        else if(string(s.data(),s.size())!=want) fail(T,w+"at is "+esc(string(s.data(),s.size())));
    } catch(std::out_of_range const& e){
        if(n) fail(T,w+"at threw");
        if(!dynamic_cast<urls::out_of_range const*>(&e)||!e.what()||!*e.what()) fail(C(23)|T,w+"at threw a wrong exception");
    }
    phase(0,""); }
// ---- keys that are almost one of those present
inline string near_key(Rng& g,std::vector<ref::Url::Param> const& v){
    if(v.empty()) return g.chance(50)? "k" : "";
    auto const& p=v[g.below(u32(v.size()))]; string d=ref::decode(p.k);
    switch(g.below(12)){
    case 0: return p.k;                                       // the spelling instead of the key
    case 1: for(auto& c: d) if(c=='+') c=' '; return d;
    case 2: for(auto& c: d) if(c==' ') c='+'; return d;
    case 3: for(auto& c: d) if((c>='a'&&c<='z')||(c>='A'&&c<='Z')) c=static_cast<char>(c^32); return d;
    case 4: return d.substr(0,d.size()/2);
    case 5: return d+"x";
    case 6: return d+string(1,'\0');
    case 7: return d+"="+ref::decode(p.v);
    case 8: return ref::decode(p.v);
    case 9: return d.substr(0,d.find('\0'));
    case 10: return ref::decode(d);                           // decoded twice
    default: if(!d.empty()){ u32 const at=g.below(u32(d.size())); char const m=static_cast<char>(1u<<g.below(8)); d[at]=static_cast<char>(d[at]^m); } return d; } }
// ---- reading is pure: no allocation, nothing written, results inside the buffer
template<class U> void purity(U const& u,char const* base,std::size_t n,Heap* hp,string const& what){
    u32 const T=C(21);
    phase(T,"const accessors");
    u64 const h0=hash_bytes(7,base,n), a0=hp? hp->allocs+hp->deallocs : 0;
    u64 const n0=g_news+g_mallocs;
    bool out=false; std::size_t cnt=0;
    auto chk=[&](sv s){ ++cnt; if(!s.empty()&&(s.data()<base||s.data()+s.size()>base+n)) out=true; };
    chk(u.encoded_url()); chk(u.encoded_origin()); chk(u.scheme()); chk(u.encoded_authority()); chk(u.encoded_userinfo());
    chk(u.userinfo_part()); chk(u.encoded_user()); chk(u.encoded_password()); chk(u.encoded_host()); chk(u.encoded_host_and_port());
    chk(u.port()); chk(u.port_part()); chk(u.encoded_path()); chk(u.encoded_query()); chk(u.query_part()); chk(u.encoded_fragment()); chk(u.fragment_part());
    (void)u.has_authority(); (void)u.has_userinfo(); (void)u.host_type(); (void)u.size();
    std::size_t cap=n+4;
    { auto const r=u.segments(); auto const e=r.end(); for(auto it=r.begin();it!=e&&cap;++it){ --cap; chk((*it).encoded_string()); } }
    cap=n+4;
    { auto const r=u.params(); auto const e=r.end(); for(auto it=r.begin();it!=e&&cap;++it){ --cap; chk((*it).encoded_key()); chk((*it).encoded_value()); }
      (void)r.contains(sv("k",1)); (void)r.count(sv("k",1)); (void)r.find(sv("zz",2)); }
    bool const pdata=u.data()==base||n==0;
    ev(T);
    if(g_news+g_mallocs!=n0) fail(T,what+": an encoded accessor called operator new or malloc");
    if(hp&&hp->allocs+hp->deallocs!=a0) fail(T,what+": an encoded accessor used the allocator");
    if(hash_bytes(7,base,n)!=h0) fail(T,what+": an accessor changed the characters");
    if(out) fail(T,what+": an accessor returned text outside the buffer");
    if(!pdata) fail(T,what+": data() moved");
    phase(0,""); }
// ---- a constant URL in memory that cannot be written: every accessor is run on it
struct Protected {
    static constexpr std::size_t N=1<<16; char* p; std::size_t used=0;
    Protected(){ p=(char*)mmap(nullptr,N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){ std::perror("mmap"); std::_Exit(3); } }
    void* get(std::size_t n){ std::size_t const at=(used+15)/16*16; if(n>N||at>N-n) throw std::bad_alloc(); used=at+n; return p+at; }
    void lock(bool on){ if(mprotect(p,N,on? PROT_READ : PROT_READ|PROT_WRITE)){ std::perror("mprotect"); std::_Exit(3); } } };
inline Protected& prot(){ static Protected x; return x; }
template<class T> struct ProtAlloc { typedef T value_type; ProtAlloc(){} template<class U> ProtAlloc(ProtAlloc<U> const&){}
    T* allocate(std::size_t n){ return static_cast<T*>(prot().get(n*sizeof(T))); } void deallocate(T*,std::size_t) noexcept {}
    template<class U> bool operator==(ProtAlloc<U> const&) const { return true; } template<class U> bool operator!=(ProtAlloc<U> const&) const { return false; } };
inline void untouched(string const& s,Obs const& want,string const& what){
    if(s.size()>20000) return;
    typedef urls::basic_url<ProtAlloc<char>> PU; Protected& pr=prot(); pr.lock(false); pr.used=0;
    phase(C(21),"reading a URL in read-only memory"); ev1(21);
    Rng g(hash_str(31,s)); u32 const spare=g.below(3)? 0 : 1+g.below(200);      // some have room behind the terminator
    PU* mu; if(spare){ mu=new(pr.get(sizeof(PU))) PU(); string const big(s.size()+spare,'x'); mu->set_encoded_fragment(sv(big.data(),big.size())); mu->set_encoded_url(sv(s.data(),s.size())); } else mu=new(pr.get(sizeof(PU))) PU(sv(s.data(),s.size()));
    PU const* const u=mu;
    urls::url_view const* v=new(pr.get(sizeof(urls::url_view))) urls::url_view(u->encoded_url());
    pr.lock(true);
    { Outer const o(C(21)); Obs a; purity(*u,u->data(),u->size(),nullptr,what); snap(*u,a); if(!(a==want)) fail(C(21)|C(2),what+": read-only URL differs");
      purity(*v,u->data(),u->size(),nullptr,what); snap(*v,a);
      // the lists of a non-constant URL, only read; all lookups
      string f,b,d; walk_segments(mu->segments(),s.size()+4,f,b,&d); if(f!=want.f[SEGS_F]||b!=f) fail(C(21)|C(12),what+": read-only URL: mutable segments differ");
      f.clear(); b.clear(); d.clear(); walk_params(mu->params(),s.size()+4,f,b,&d); if(f!=want.f[PARS_F]||b!=f) fail(C(21)|C(14),what+": read-only URL: mutable params differ");
      auto const pm=mu->params(); auto const pc=u->params(); auto const pv=v->params(); std::vector<string> ks{"k",string(g.below(48),char('a'+g.below(26)))};
      { u32 n=0; for(auto it=pm.begin();it!=pm.end()&&n<3;++it,++n){ ks.push_back(it->key()); if(n==0) ks.push_back(it->key()+"x"); } }
      phase(C(21)|C(14),"lookups");
      for(auto const& k: ks){ sv const kv(k.data(),k.size());
        if(pm.count(kv)!=pc.count(kv)||pv.count(kv)!=pc.count(kv)||pm.contains(kv)!=pc.contains(kv)||pv.contains(kv)!=pc.contains(kv)||pm[kv]!=pc[kv]||pv[kv]!=pc[kv]||(pm.find(kv)==pm.end())!=(pc.find(kv)==pc.end())||(pv.find(kv)==pv.end())!=(pc.find(kv)==pc.end())) fail(C(21)|C(14),what+": read-only URL: lookups differ");
        if(pc.contains(kv)&&(pm.at(kv)!=pc[kv]||pv.at(kv)!=pc[kv]||pc.at(kv)!=pc[kv])) fail(C(21)|C(14),what+": read-only URL: at() differs"); } }
    phase(C(21),"reading a URL in read-only memory"); pr.lock(false);
    u->~PU(); phase(0,""); }
} // h
