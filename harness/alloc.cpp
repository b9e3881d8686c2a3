// Fault injection: every allocation of every operation along a history is made
// to fail, one after the other; the URL must be exactly what it was before.
#include "news.hpp"
#include "ops.hpp"
#include <memory>
using namespace h;
typedef TrackAlloc<char> Al;
typedef urls::basic_url<Al> Url;
static string trail;
static void note(string const& s){ trail+=(trail.empty()?"":" ; ")+s; if(trail.size()>1500) trail="... "+trail.substr(trail.size()-1400); describe(trail); }
static u32 const T=C(9);

struct Arm { Heap* hp; Arm(Heap* x,long k): hp(x){ if(hp) hp->fail_in=k; else g_new_fail=k; } ~Arm(){ if(hp) hp->fail_in=-1; else g_new_fail=-1; } };
enum Rc { DONE,REJECTED,NOMEM,TOO_LARGE,OTHER };
// `src` is what ASSIGN copies from; it is made before arming
template<class U> Rc attempt(U& u,Op const& o,U const* src,std::size_t ns,bool back,long& pos,Heap* hp,long k,string& ex){
    try {
        Arm a(hp,k);
        if(o.id==ASSIGN) u=*src; else call(u,o,ns,back,pos);
        return DONE;
    } catch(urls::invalid_part const&){ return REJECTED;
    } catch(std::bad_alloc const&){ return NOMEM;
    } catch(std::length_error const& e){ ex=e.what(); return TOO_LARGE;
    } catch(std::exception const& e){ ex=e.what(); return OTHER; } }

// one operation under every failure position; the object is compared after each failure
template<class U,class Mk> bool under_faults(U& u,ref::Url& m,Op const& o,Heap* hp,Rng& g,Obs& last,Mk mk){
    ref::Url w=m; bool const ok=apply(w,o);
    std::size_t const ns=m.segs().size(); bool const back=g.chance(40);
    std::unique_ptr<U> src; Obs s0;
    if(o.id==ASSIGN){ src=mk(o.a); snap(*src,s0); }
    note(show(o));
    string ex; long pos;
    phase(T,opname(o.id));
    for(long k=0;k<12;++k){
        u64 const inj0= hp? hp->injected : g_new_injected; u64 const live0=hp? hp->live.size() : 0;
        Rc const rc=attempt(u,o,src.get(),ns,back,pos,hp,k,ex);
        u64 const inj=(hp? hp->injected : g_new_injected)-inj0;
        string const what=trail+": allocation "+std::to_string(k)+" of the call failing";
        ctx().stat[inj? "operations hit by a failing allocation" : "operations that needed no more allocations"]++;
        count_case(hash_str(hash_str(mix(u64(o.id),u64(k)*64+o.i*5+o.j),last.f[URL]),o.a)^u64(u.capacity()),inj>0);
        ev(T);
        if(inj&&rc!=NOMEM){ fail(T,what+": the exception did not reach the caller (outcome "+std::to_string(rc)+" "+ex+")"); return false; }
        if(rc==OTHER||rc==TOO_LARGE){ fail(T,what+": threw "+ex); return false; }
        if(!inj&&rc==NOMEM){ fail(T,what+": bad_alloc although no allocation failed"); return false; }
        Obs now; snap(u,now); phase(T,opname(o.id));
        if(hp){
            if(hp->live.size()!=(rc==DONE? (hp->live.empty()?0:std::max<std::size_t>(live0,1)) : live0)) { fail(T,what+": "+std::to_string(hp->live.size())+" blocks live, were "+std::to_string(live0)); return false; }
            if(!hp->error.empty()){ fail(T,what+": "+hp->error); return false; }
            if(!hp->live.empty()&&(!hp->live.count(const_cast<char*>(u.data()))||u.size()>u.capacity()||hp->live[const_cast<char*>(u.data())]<u.capacity()+1||u.data()[u.size()]!=0)){ fail(T|C(11),what+": the buffer is not the live block or not terminated"); return false; }
        }
        if(src){ Obs s1; snap(*src,s1); phase(T,opname(o.id)); if(!(s1==s0)){ fail(T|C(24),what+": the source of the assignment changed"); return false; } }
        if(rc==NOMEM||rc==REJECTED){
            if(!(now==last)){ for(int i=0;i<NF;++i) if(now.f[i]!=last.f[i]){ fail(T|(rc==REJECTED?C(8):0),what+": "+fname(i)+" changed from "+esc(last.f[i])+" to "+esc(now.f[i])); break; } return false; }
            if(rc==REJECTED){ if(ok){ fail(C(8),what+": rejected"); return false; } break; }
            continue;   // it must still be usable: the next attempt is on the same object
        }
        if(!ok){ fail(C(8)|C(7),what+": accepted"); return false; }
        m=w; Obs want; expected(m,false,want);
        if(!(now==want)){ for(int i=0;i<NF;++i) if(now.f[i]!=want.f[i]){ fail(T,trail+": after "+std::to_string(k)+" failures and a retry, "+fname(i)+" is "+esc(now.f[i])+", expected "+esc(want.f[i])); break; } return false; }
        last=now;
        break;
    }
    phase(0,"");
    return true; }

// ---- histories on the tracking allocator
static void ctor_faults(string const& s,bool valid){
    phase(T,"constructor");
    for(long k=0;k<6;++k){
        Heap hp; bool threw=false, done=false, inv=false;
        { Arm a(&hp,k); try { Url u(sv(s.data(),s.size()),Al(hp)); done=true; } catch(std::bad_alloc const&){ threw=true; } catch(urls::invalid_part const&){ inv=true; } }
        ev(T);
        string const what="url("+esc(s)+") with allocation "+std::to_string(k)+" failing";
        if(hp.injected&&!threw) fail(T,what+": the exception did not reach the caller");
        if(!hp.injected&&threw) fail(T,what+": bad_alloc without a failure");
        if(!hp.injected&&inv==valid) fail(C(1),what+": accepted/rejected wrongly");
        if(!hp.live.empty()||!hp.error.empty()) fail(T,what+": "+(hp.error.empty()?string("leak"):hp.error));
        (void)done;
        if(!hp.injected) break;
    }
    phase(0,""); }
template<class S> void decode_faults(char const* n,S const& get,string const& want){
    for(long k=0;k<4;++k){
        Heap hp; bool threw=false;
        { Arm a(&hp,k); try { auto const x=get(Al(hp)); ev1(4); if(string(x.data(),x.size())!=want) fail(C(4),trail+": "+n+"(allocator) is wrong");
              if(!(x.get_allocator()==Al(hp))) fail(C(4),trail+": "+n+"(allocator) uses another allocator"); } catch(std::bad_alloc const&){ threw=true; } }
        ev(T); ctx().stat[threw? "decodes hit by a failing allocation" : "decodes completed"]++;
        if((hp.injected>0)!=threw) fail(T,trail+": "+n+" with a failing allocator did not report it");
        if(!hp.live.empty()||!hp.error.empty()) fail(T,trail+": "+n+" with a failing allocator leaked");
        if(!hp.injected) break;
    } }
template<class U> void decodes(U const& u,Obs const& o,ref::Url const& m){
    phase(T|C(4),"decode with failing allocator");
    decode_faults("user",[&](Al const& a){ return u.user(a); },o.f[D_USER]); decode_faults("password",[&](Al const& a){ return u.password(a); },o.f[D_PW]);
    decode_faults("host",[&](Al const& a){ return u.host(a); },o.f[D_HOST]); decode_faults("query",[&](Al const& a){ return u.query(a); },o.f[D_QUERY]);
    decode_faults("fragment",[&](Al const& a){ return u.fragment(a); },o.f[D_FRAG]);
    auto const sg=m.segs(); auto const pr=m.params();
    if(!sg.empty()){ auto const l=u.segments(); decode_faults("segment string",[&](Al const& a){ return (*l.begin()).string(a); },ref::decode(sg[0])); }
    if(!pr.empty()){ auto const l=u.params(); string const k=ref::decode(pr[0].k);
        decode_faults("param key",[&](Al const& a){ return (*l.begin()).key(a); },k); decode_faults("param value",[&](Al const& a){ return (*l.begin()).value(a); },ref::decode(pr[0].v));
        decode_faults("params at",[&](Al const& a){ return l.at(sv(k.data(),k.size()),a); },ref::decode(pr[0].v)); }
    Obs q; snap(u,q); if(!(q==o)) fail(T,trail+": decoding changed the URL");
    phase(0,""); }

static string any_url(Rng& g,ref::Url& m){ string s; do s=g.chance(15)? string() : gen::url(g); while(!ref::parse(s,m)); return s; }
static bool skip(ref::Url const& m,Op const& o){ if(o.id!=SEG_ERASE&&o.id!=SEG_ERASE_RANGE) return false; ref::Url t=m; return !apply(t,o); }

static void case_fault(u64 idx){
    Rng g(mix(mix(ctx().seed,0x66),idx));
    ref::Url m; string const s=any_url(g,m);
    ctor_faults(s,true);
    if(g.chance(30)){ string b=gen::mutate(g,s); ref::Url t; ctor_faults(b,ref::parse(b,t)); }
    Heap hp; hp.fill=static_cast<unsigned char>(g.below(256));
    trail.clear(); note("url("+esc(s,200)+")");
    { Url u(sv(s.data(),s.size()),Al(hp)); Obs last; snap(u,last);
      std::vector<std::unique_ptr<Heap>> heaps;
      u32 const n=2+g.below(8);
      for(u32 i=0;i<n;++i){
          Op o=draw(g,m,g.chance(50)); if(skip(m,o)) continue;
          if(!under_faults(u,m,o,&hp,g,last,[&](string const& x){ heaps.emplace_back(new Heap); return std::unique_ptr<Url>(new Url(sv(x.data(),x.size()),Al(*heaps.back()))); })) return;
          if(g.chance(10)) decodes(u,last,m);
      }
      if(g.chance(20)){ string const str_=last.f[URL]; urls::url_view v{sv(str_.data(),str_.size())}; Obs vo; snap(v,vo); decodes(v,vo,m); } }
    ev(T);
    if(!hp.live.empty()||!hp.error.empty()) fail(T,trail+": after destruction: "+(hp.error.empty()?string("leak"):hp.error));
    if(idx%499==3) sample(trail.substr(0,300)); }

// ---- the same on urls::url, with operator new failing
static void case_new(u64 idx){
    Rng g(mix(mix(ctx().seed,0x6e),idx));
    ref::Url m; string const s=any_url(g,m);
    trail.clear(); note("url("+esc(s,200)+")");
    urls::url u(sv(s.data(),s.size())); Obs last; snap(u,last);
    u32 const n=2+g.below(8);
    for(u32 i=0;i<n;++i){
        Op o=draw(g,m,g.chance(50)); if(skip(m,o)) continue;
        if(!under_faults(u,m,o,(Heap*)nullptr,g,last,[&](string const& x){ return std::unique_ptr<urls::url>(new urls::url(sv(x.data(),x.size()))); })) return;
    }
    if(idx%499==3) sample(trail.substr(0,300)); }

// ---- an allocator with a small maximum size: never asked for more, refused cleanly
static void case_max(u64 idx){
    Rng g(mix(mix(ctx().seed,0x78),idx));
    ref::Url m; string const s=any_url(g,m);
    Heap hp; hp.max=s.size()+1+g.below(60);
    trail.clear(); note("allocator with max_size "+std::to_string(hp.max)+"; url("+esc(s,200)+")");
    { std::unique_ptr<Url> u; string ex;
      phase(T,"constructor");
      try { u.reset(new Url(sv(s.data(),s.size()),Al(hp))); } catch(std::exception const& e){ fail(T,trail+": constructor threw "+e.what()); return; }
      Obs last; snap(*u,last);
      u32 const n=2+g.below(10);
      for(u32 i=0;i<n;++i){
          Op o=draw(g,m,g.chance(50)); if(skip(m,o)||o.id==ASSIGN) continue;
          ref::Url w=m; bool const ok=apply(w,o);
          note(show(o)); phase(T,opname(o.id)); long pos; u64 const over0=hp.error.size();
          Rc const rc=attempt(*u,o,(Url*)nullptr,m.segs().size(),g.chance(40),pos,&hp,-1,ex);
          string const what=trail; ev(T);
          bool const fits=w.str().size()+1<=hp.max;
          count_case(hash_str(hash_str(mix(u64(o.id),hp.max),last.f[URL]),o.a),rc==TOO_LARGE);
          ctx().stat[rc==TOO_LARGE? "refused as too large" : rc==DONE? "done within the maximum size" : "rejected"]++;
          if(hp.over||hp.error.size()!=over0){ fail(T|C(10),what+": "+(hp.error.empty()? "asked the allocator for more than its maximum size" : hp.error)); return; }
          if(rc==OTHER||(rc==NOMEM)){ fail(T,what+": threw another exception than length_error "+ex); return; }
          if(rc==TOO_LARGE&&2*w.str().size()+80<hp.max){ fail(T,what+": refused although the result is far below the maximum size"); return; }
          if(rc==DONE&&!fits){ fail(T|C(10),what+": a result larger than the maximum size was stored"); return; }
          if((rc==DONE)!=ok&&rc!=TOO_LARGE){ fail(C(8),what+": accepted/rejected wrongly"); return; }
          Obs now; snap(*u,now);
          if(rc==DONE){ m=w; Obs want; expected(m,false,want); if(!(now==want)){ fail(T,what+": gives "+esc(now.f[URL])+", expected "+esc(want.f[URL])); return; } last=now; }
          else if(!(now==last)){ fail(T,what+": the refused call changed the URL"); return; }
          if(hp.live.size()>1||(!hp.live.empty()&&hp.live.begin()->second<u->capacity()+1)){ fail(T|C(11),what+": capacity() exceeds the block"); return; }
          phase(0,"");
      } }
    if(!hp.live.empty()) fail(T,trail+": leak");
    if(idx%499==3) sample(trail.substr(0,300)); }

// ---- histories steered by the comparisons the library makes (see guide.hpp), under every failure
#ifdef GUIDED
#include "story.hpp"
static bool play(Story& s,Rng& g){
    ref::Url m; if(!ref::parse(s.base,m)) return true;
    ctor_faults(s.base,true);
    Heap hp; hp.fill=static_cast<unsigned char>(g.below(256)); trail.clear(); note("url("+esc(s.base,200)+")");
    { std::vector<std::unique_ptr<Heap>> heaps; Url u(sv(s.base.data(),s.base.size()),Al(hp)); Obs last; snap(u,last);
      for(auto& o: s.ops){
          std::size_t const ns=m.segs().size(); if(is_seg(o.id)&&o.id>=SEG_REP&&o.id!=SEG_ERASE_RANGE&&ns==0) continue;
          place(o,ns); if(o.id==ASSIGN){ ref::Url t; if(!ref::parse(o.a,t)) continue; } if(skip(m,o)) continue;
          if(!under_faults(u,m,o,&hp,g,last,[&](string const& x){ heaps.emplace_back(new Heap); return std::unique_ptr<Url>(new Url(sv(x.data(),x.size()),Al(*heaps.back()))); })) return false; }
      if(g.chance(20)) decodes(u,last,m); }
    ev(T);
    if(!hp.live.empty()||!hp.error.empty()) fail(T,trail+": after destruction: "+(hp.error.empty()?string("leak"):hp.error));
    return true; }
static void case_guided(u64 idx){ search(idx,play); }
#endif

int main(int argc,char** argv){
#ifdef GUIDED
    guide::steady(argv);
#endif
    return run(argc,argv,{{"fault",case_fault,nullptr},{"new",case_new,nullptr},{"max",case_max,nullptr}
#ifdef GUIDED
        ,{"guided",case_guided,nullptr}
#endif
    });
}
