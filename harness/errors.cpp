// The error taxonomy (C23).
#include "news.hpp"
#include "ops.hpp"
#include <exception>
#include <system_error>
using namespace h;
static u32 const T=C(23);
#ifdef BOOST_URL_STANDALONE
namespace es=std;
#else
namespace es=boost::system;
#endif
static void code(int v){
    urls::error const e=static_cast<urls::error>(v);
    string const what="error "+std::to_string(v);
    bool const known=v>=1&&v<=15;
    ev(T); count_case(mix(1,u64(unsigned(v))),true);
    urls::error_code const ec=urls::make_error_code(e);
    if(ec.value()!=v) fail(T,what+": value is "+std::to_string(ec.value()));
    if(string(ec.category().name())!=urls::make_error_code(urls::error::syntax).category().name()||ec.category()!=urls::make_error_code(urls::error::syntax).category()) fail(T,what+": another category");
    if(static_cast<bool>(ec)!=(v!=0)) fail(T,what+": converts to bool wrongly");
    if(ec.message().empty()) fail(T,what+": empty message");
    { string const m1=ec.message(), n1=ec.category().name(); for(int k=0;k<3;++k) if(urls::make_error_code(e).message()!=m1||n1!=urls::make_error_code(e).category().name()) fail(T,what+": the message changes");
      if(ec.category().message(v)!=m1) fail(T,what+": code and category give different messages");
      for(int o=1;o<=15;++o){ urls::error_code const q=urls::make_error_code(static_cast<urls::error>(o)); (void)q.message(); (void)(q==urls::condition::parse_error); }
      if(ec.message()!=m1) fail(T,what+": the message changes when others are asked for theirs");
      es::error_condition const d=ec.default_error_condition(), d2=ec.category().default_error_condition(v); auto const pe=urls::make_error_condition(urls::condition::parse_error);
      if(d!=d2) fail(T,what+": code and category give different conditions");
      if((d==pe)!=known||(pe==d)!=known) fail(T,what+": default condition is wrong");
      if((pe==ec)!=(ec==pe)||(pe!=ec)==(ec==pe)||(ec!=pe)==(ec==pe)) fail(T,what+": comparing with parse_error is not symmetric");
      if(ec.category().equivalent(v,pe)!=known||pe.category().equivalent(ec,2)||pe.category().equivalent(ec,0)) fail(T,what+": equivalent() disagrees");
      urls::error_code c2; if(c2==ec&&v!=0) fail(T,what+": equal to success"); c2=ec; if(c2!=ec||c2.message()!=m1) fail(T,what+": a copy differs"); c2.clear(); if(c2||c2==pe) fail(T,what+": cleared, and still a failure");
#ifndef BOOST_URL_STANDALONE
      if(ec.failed()!=(v!=0)||ec.category().failed(v)!=(v!=0)) fail(T,what+": failed() is wrong");
      char buf[256]; char const* const t=ec.message(buf,sizeof buf); if(!t||m1!=t) fail(T,what+": message(buffer) differs");
      char small[5]={'#','#','#','#','#'}; char const* const t2=ec.category().message(v,small,4); if(!t2||small[4]!='#'||(t2==small&&std::strlen(t2)>3)) fail(T,what+": message(buffer) writes beyond it");
      std::error_code const sc=ec; if(sc.value()!=v||sc.message()!=m1||sc.category().name()!=n1||static_cast<bool>(sc)!=(v!=0)) fail(T,what+": as std::error_code, differs");
      std::error_condition const sp=pe; if((sc==sp)!=known) fail(T,what+": as std::error_code, equivalence to parse_error differs");
      if(v) for(int k=0;k<140;++k) if(sc==std::error_condition(k,std::generic_category())){ fail(T,what+": as std::error_code, equivalent to generic condition "+std::to_string(k)); break; }
#endif
    }
    if(!known){ if(ec==urls::condition::parse_error) fail(T,what+": not a library error, but equivalent to parse_error"); return; }
    urls::error_code const e2=e; if(e2!=ec) fail(T,what+": implicit conversion differs");
    if(!(ec==e)) fail(T,what+": not equal to itself");
    if(!(ec==urls::condition::parse_error)||!(ec==urls::make_error_condition(urls::condition::parse_error))) fail(T,what+": not equivalent to parse_error");
    for(int o=1;o<=15;++o) if(o!=v&&ec==urls::make_error_code(static_cast<urls::error>(o))) fail(T,what+": equal to error "+std::to_string(o));
    for(int c=0;c<140;++c){
        if(ec==es::error_condition(c,es::generic_category())) fail(T,what+": equivalent to generic condition "+std::to_string(c));
        if(ec==es::error_condition(c,es::system_category())) fail(T,what+": equivalent to system condition "+std::to_string(c));
        if(c!=1&&ec==es::error_condition(c,urls::make_error_condition(urls::condition::parse_error).category())) fail(T,what+": equivalent to library condition "+std::to_string(c));
        ev(T);
    }
    if(ec.category()==es::generic_category()||ec.category()==es::system_category()) fail(T,what+": foreign category"); }
// small values, then values around powers of two and multiples of 100, of either sign, then values spread over all of int
static int code_value(u64 idx){
    if(idx<1000) return int(idx)-40;
    idx-=1000; long long v;
    if(idx<62*11){ v=(1ll<<(idx/11/2+1))+static_cast<long long>(idx%11)-5; if(idx/11%2) v=-v; if(v>2147483647ll) v=2147483647ll-static_cast<long long>(idx%11); return int(v); }
    idx-=62*11; if(idx<400){ v=(static_cast<long long>(idx)-200)*100; return int(v); }
    Rng g(mix(77,idx)); u32 const x=static_cast<u32>(g.next())>>g.below(24); return g.chance(50)? -int(x>>1) : int(x>>1); }
static void case_codes(u64 idx){
    int const v=code_value(idx);
    phase(T,"error codes"); describe("code "+std::to_string(v));
    code(v);
    phase(0,""); if(idx%20==1) sample("error "+std::to_string(v)); }
static void case_foreign(u64 idx){ // codes of other categories are never a library parse error
    phase(T,"conditions"); ev(T); count_case(mix(2,idx),true);
    int const v=idx<1000? int(idx) : code_value(idx-1000);
    auto const pe=urls::make_error_condition(urls::condition::parse_error);
    if(pe.message().empty()||!pe.category().name()||!*pe.category().name()) fail(T,"parse_error has no message or category name");
    if(pe!=urls::make_error_condition(urls::condition::parse_error)) fail(T,"parse_error differs from itself");
    if(es::error_code(v,es::generic_category())==pe||es::error_code(v,es::system_category())==pe) fail(T,"a foreign error "+std::to_string(v)+" is equivalent to parse_error");
    if(urls::error_code()==pe||urls::error_code()==urls::condition::parse_error) fail(T,"success is equivalent to parse_error");
    es::error_code const z(0,urls::make_error_code(urls::error::syntax).category()); if(z||z==pe) fail(T,"code zero is a failure");
    es::error_condition const oc(v,pe.category()); if(v!=1&&urls::make_error_code(urls::error::syntax)==oc) fail(T,"a code is equivalent to condition "+std::to_string(v));
    phase(0,""); }
template<class E,class B,class F> void thrown(char const* what,F f){
    ev(T); count_case(hash_str(3,what),true); ctx().stat["exceptions observed"]++;
    phase(T,what);
    bool as_b=false, as_e=false;
    try { f(); fail(T,string(what)+": did not throw"); return; }
    catch(E const& e){ as_e=true; if(!e.what()||!*e.what()) fail(T,string(what)+": empty what()"); B const& b=e; (void)b; std::exception const& s=b; if(!dynamic_cast<E const*>(&s)) fail(T,string(what)+": type lost"); }
    catch(std::exception const& e){ fail(T,string(what)+": threw something else: "+e.what()); return; }
    try { f(); } catch(B const& b){ as_b=true; if(!b.what()||!*b.what()) fail(T,string(what)+": empty what() through the base"); } catch(...){}
    if(!as_b||!as_e) fail(T,string(what)+": not caught as its documented base");
    // it can be copied, and kept for later
    try { f(); } catch(E const& e){ string const w=e.what(); E c(e); if(w!=c.what()) fail(T,string(what)+": a copy has another message"); std::exception_ptr const p=std::current_exception(); try { std::rethrow_exception(p); } catch(B const& b){ if(w!=b.what()) fail(T,string(what)+": rethrown, it has another message"); } catch(...){ fail(T,string(what)+": rethrown as something else"); }
        try { f(); } catch(E const& x){ if(w!=x.what()) fail(T,string(what)+": another message the second time"); } catch(...){} } catch(...){}
    bool as_std=false; try { f(); } catch(std::exception const& e){ as_std=*e.what()!=0; } catch(...){}
    if(!as_std) fail(T,string(what)+": not a std::exception");
    phase(0,""); }
static void case_throws(u64){
    thrown<urls::invalid_part,std::invalid_argument>("url of garbage",[]{ urls::url u(sv("http://[",8)); });
    thrown<urls::invalid_part,std::invalid_argument>("url_view of garbage",[]{ urls::url_view u(sv("%",1)); });
    thrown<urls::invalid_part,std::invalid_argument>("set_scheme of garbage",[]{ urls::url u; u.set_scheme("1"); });
    thrown<urls::invalid_part,std::logic_error>("set_encoded_path of garbage",[]{ urls::url u; u.set_encoded_path("\x01"); });
    thrown<urls::invalid_part,std::invalid_argument>("insert_encoded of garbage",[]{ urls::url u; u.segments().insert_encoded(u.segments().begin(),"/"); });
    thrown<urls::out_of_range,std::out_of_range>("at of a missing key",[]{ urls::url u(sv("?a=1",4)); u.params().at("b"); });
    thrown<urls::out_of_range,std::out_of_range>("const at of a missing key",[]{ urls::url const u(sv("?a=1",4)); u.params().at("b"); });
    thrown<urls::out_of_range,std::logic_error>("view at of a missing key",[]{ urls::url_view u(sv("?a=1",4)); u.params().at("b"); });
    thrown<urls::too_large,std::length_error>("too large",[]{ Heap hp; hp.max=16; urls::basic_url<TrackAlloc<char>> u{TrackAlloc<char>(hp)}; string s(40,'a'); u.set_encoded_path(sv(s.data(),s.size())); });
    thrown<urls::parse_error,std::invalid_argument>("parse_error",[]{ throw urls::parse_error(); });
    thrown<urls::invalid_part,std::invalid_argument>("invalid_part",[]{ throw urls::invalid_part(); });
    thrown<urls::too_large,std::length_error>("too_large",[]{ throw urls::too_large(); });
    thrown<urls::out_of_range,std::out_of_range>("out_of_range",[]{ throw urls::out_of_range(); });
    thrown<urls::parse_error,std::invalid_argument>("parse_error::raise",[]{ urls::parse_error::raise(); });
    thrown<urls::invalid_part,std::invalid_argument>("invalid_part::raise",[]{ urls::invalid_part::raise(); });
    thrown<urls::too_large,std::length_error>("too_large::raise",[]{ urls::too_large::raise(); });
    thrown<urls::out_of_range,std::out_of_range>("out_of_range::raise",[]{ urls::out_of_range::raise(); });
    thrown<std::bad_alloc,std::exception>("pool exhausted",[]{ urls::static_pool<4> p; p.allocator().allocate(5); });
    sample("18 kinds of failure"); }
// every encoded setter with every kind of bad argument fails as std::invalid_argument
static void case_setters(u64 idx){
    Rng g(mix(mix(ctx().seed,0x74),idx));
    string base; ref::Url m; do base=gen::url(g); while(!ref::parse(base,m));
    urls::url u(sv(base.data(),base.size()));
    for(int k=0;k<6;++k){
        Op o=draw(g,m); if(o.id>NORM_SCHEME&&!is_seg(o.id)) continue;
        if(o.id>=SEG_ERASE) continue;
        if(o.id<=FRAG_PART_) o.a=gen::bytes(g); else if(is_seg(o.id)&&!is_plain(o.id)) o.a=gen::bytes(g);
        ref::Url w=m; bool const ok=apply(w,o);
        phase(T|C(8),opname(o.id)); describe(esc(base)+" "+show(o)); ev(T); count_case(hash_str(hash_str(u64(o.id),m.str()),o.a),!ok);
        bool threw=false; long pos;
        try { call(u,o,m.segs().size(),false,pos); m=w; }
        catch(std::invalid_argument const& e){ threw=true; if(!dynamic_cast<urls::invalid_part const*>(&e)) fail(T,show(o)+": threw an invalid_argument of another kind"); if(!*e.what()) fail(T,show(o)+": empty message"); }
        catch(std::exception const& e){ fail(T,esc(base)+" "+show(o)+": threw "+e.what()); return; }
        catch(...){ fail(T,esc(base)+" "+show(o)+": threw something that is not a std::exception"); return; }
        ctx().stat[threw?"rejected setters":"accepted setters"]++;
        if(threw==ok){ fail(C(8),esc(base)+" "+show(o)+": accepted/rejected wrongly"); return; }
        phase(0,"");
    }
    if(idx%997==1) sample(esc(base,100)); }
int main(int argc,char** argv){
    if(argc>1&&!std::strcmp(argv[1],"--totals")){ std::printf("codes 6000\nforeign 7000\nthrows 1\n"); return 0; }
    return run(argc,argv,{{"codes",case_codes,nullptr},{"foreign",case_foreign,nullptr},{"throws",case_throws,nullptr},{"setters",case_setters,nullptr}});
}
