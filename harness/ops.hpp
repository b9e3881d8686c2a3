// The modifiers of the library, as data: how to draw an argument, what the
// reference says, and how to call the real one.
#pragma once
#include "gen.hpp"
#include "obs.hpp"
namespace h {
enum OpId { ENC_URL,ENC_ORIGIN,SET_SCHEME,ENC_AUTH,ENC_UI,UI_PART_,SET_USER,ENC_USER,SET_PW,ENC_PW,PW_PART_,SET_HOST,ENC_HOST,
    PORT_U,PORT_S,PORT_PART_,ENC_PATH,SET_QUERY,ENC_QUERY,QUERY_PART_,SET_FRAG,ENC_FRAG,FRAG_PART_,NORMALIZE,NORM_SCHEME,
    SEG_INS,SEG_INS_ENC,SEG_REP,SEG_REP_ENC,SEG_ERASE,SEG_ERASE_RANGE,ASSIGN,SELF_ASSIGN,NOPS };
inline char const* opname(int i){
    static char const* const N[]={"set_encoded_url","set_encoded_origin","set_scheme","set_encoded_authority","set_encoded_userinfo","set_userinfo_part","set_user","set_encoded_user",
    "set_password","set_encoded_password","set_password_part","set_host","set_encoded_host","set_port(unsigned)","set_port","set_port_part","set_encoded_path","set_query","set_encoded_query",
    "set_query_part","set_fragment","set_encoded_fragment","set_fragment_part","normalize","normalize_scheme","segments.insert","segments.insert_encoded","segments.replace",
    "segments.replace_encoded","segments.erase","segments.erase(range)","operator=","self operator="};
    return N[i]; }
inline bool is_plain(int op){ return op==SET_USER||op==SET_PW||op==SET_HOST||op==SET_QUERY||op==SET_FRAG||op==SEG_INS||op==SEG_REP; }
inline bool is_seg(int op){ return op>=SEG_INS&&op<=SEG_ERASE_RANGE; }
inline bool is_setter(int op){ return op<=NORM_SCHEME; }
struct Op { int id; string a; std::size_t i=0,j=0; unsigned n=0; };
inline string show(Op const& o){
    string s=opname(o.id); s+='(';
    if(is_seg(o.id)) s+="at "+std::to_string(o.i)+(o.id==SEG_ERASE_RANGE? ".."+std::to_string(o.j) : "")+(o.id<SEG_ERASE?", ":"");
    if(o.id==PORT_U) s+=std::to_string(o.n);
    else if(o.id<SEG_ERASE&&o.id!=NORMALIZE&&o.id!=NORM_SCHEME) s+=esc(o.a,160);
    else if(o.id==ASSIGN) s+=esc(o.a,160);
    return s+")"; }
// the tags a wrong effect of this operation has, besides those of the observable
inline u32 op_tag(int op){
    if(is_seg(op)) return C(13);
    if(op==ASSIGN||op==SELF_ASSIGN) return C(24);
    if(op==ENC_URL) return C(6)|C(2);
    if(op==NORMALIZE||op==NORM_SCHEME) return C(6)|C(20);
    return C(6); }

// ---- reference
inline bool apply(ref::Url& m,Op const& o){
    switch(o.id){
    case ENC_URL: return ref::set_encoded_url(m,o.a);
    case ENC_ORIGIN: return ref::set_encoded_origin(m,o.a);
    case SET_SCHEME: return ref::set_scheme(m,o.a);
    case ENC_AUTH: return ref::set_encoded_authority(m,o.a);
    case ENC_UI: return ref::set_encoded_userinfo(m,o.a);
    case UI_PART_: return ref::set_userinfo_part(m,o.a);
    case SET_USER: return ref::set_user(m,o.a);
    case ENC_USER: return ref::set_encoded_user(m,o.a);
    case SET_PW: return ref::set_password(m,o.a);
    case ENC_PW: return ref::set_encoded_password(m,o.a);
    case PW_PART_: return ref::set_password_part(m,o.a);
    case SET_HOST: return ref::set_host(m,o.a);
    case ENC_HOST: return ref::set_encoded_host(m,o.a);
    case PORT_U: return ref::set_port(m,std::to_string(o.n));
    case PORT_S: return ref::set_port(m,o.a);
    case PORT_PART_: return ref::set_port_part(m,o.a);
    case ENC_PATH: return ref::set_encoded_path(m,o.a);
    case SET_QUERY: return ref::set_query(m,o.a);
    case ENC_QUERY: return ref::set_encoded_query(m,o.a);
    case QUERY_PART_: return ref::set_query_part(m,o.a);
    case SET_FRAG: return ref::set_fragment(m,o.a);
    case ENC_FRAG: return ref::set_encoded_fragment(m,o.a);
    case FRAG_PART_: return ref::set_fragment_part(m,o.a);
    case NORMALIZE: case NORM_SCHEME: return ref::normalize(m);
    case SEG_INS: return ref::seg_insert(m,o.i,ref::encode(o.a,ref::pchar_c));
    case SEG_INS_ENC: return ref::seg_insert(m,o.i,o.a);
    case SEG_REP: return ref::seg_replace(m,o.i,ref::encode(o.a,ref::pchar_c));
    case SEG_REP_ENC: return ref::seg_replace(m,o.i,o.a);
    case SEG_ERASE: return ref::seg_erase(m,o.i,o.i+1);
    case SEG_ERASE_RANGE: return ref::seg_erase(m,o.i,o.j);
    case ASSIGN: return ref::set_encoded_url(m,o.a);
    case SELF_ASSIGN: return true;
    }
    return false; }

// ---- the real thing. `pos` receives the index of the returned iterator (segment edits)
template<class U> typename U::segments_type::iterator seg_at(U& u,std::size_t i,std::size_t n,bool back){
    auto sg=u.segments();
    if(back){ auto it=sg.end(); for(std::size_t k=n;k>i;--k) --it; return it; }
    auto it=sg.begin(); for(std::size_t k=0;k<i;++k) ++it; return it; }
template<class It,class S> long index_of(S const& sg,It const& r,std::size_t cap){
    long k=0; auto const e=sg.end();
    for(auto it=sg.begin();;++it,++k){ if(it==r) return k; if(it==e||std::size_t(k)>cap) return -1; } }
template<class U> void call(U& u,Op const& o,std::size_t nsegs,bool back,long& pos){
    // the argument: exact-size, read-only, no terminator
    bool const at_end=(o.a.size()+o.i)%4!=0;
    sv const a= o.a.empty()&&(nsegs+u.size()+std::size_t(o.id))%2? sv() : sv(ro().put(o.a,at_end),o.a.size());   // an empty one also without an address
    pos=-2;
    switch(o.id){
    case ENC_URL: u.set_encoded_url(a); break;
    case ENC_ORIGIN: u.set_encoded_origin(a); break;
    case SET_SCHEME: u.set_scheme(a); break;
    case ENC_AUTH: u.set_encoded_authority(a); break;
    case ENC_UI: u.set_encoded_userinfo(a); break;
    case UI_PART_: u.set_userinfo_part(a); break;
    case SET_USER: u.set_user(a); break;
    case ENC_USER: u.set_encoded_user(a); break;
    case SET_PW: u.set_password(a); break;
    case ENC_PW: u.set_encoded_password(a); break;
    case PW_PART_: u.set_password_part(a); break;
    case SET_HOST: u.set_host(a); break;
    case ENC_HOST: u.set_encoded_host(a); break;
    case PORT_U: u.set_port(o.n); break;
    case PORT_S: u.set_port(a); break;
    case PORT_PART_: u.set_port_part(a); break;
    case ENC_PATH: u.set_encoded_path(a); break;
    case SET_QUERY: u.set_query(a); break;
    case ENC_QUERY: u.set_encoded_query(a); break;
    case QUERY_PART_: u.set_query_part(a); break;
    case SET_FRAG: u.set_fragment(a); break;
    case ENC_FRAG: u.set_encoded_fragment(a); break;
    case FRAG_PART_: u.set_fragment_part(a); break;
    case NORMALIZE: u.normalize(); break;
    case NORM_SCHEME: u.normalize_scheme(); break;
    case SELF_ASSIGN: { U& v=u; u=v; break; }
    default: {
        auto sg=u.segments(); auto const it=seg_at(u,o.i,nsegs,back); auto r=it;
        switch(o.id){
        case SEG_INS: r=sg.insert(it,a); break;
        case SEG_INS_ENC: r=sg.insert_encoded(it,a); break;
        case SEG_REP: r=sg.replace(it,a); break;
        case SEG_REP_ENC: r=sg.replace_encoded(it,a); break;
        case SEG_ERASE: r=sg.erase(it); break;
        case SEG_ERASE_RANGE: r=sg.erase(it,seg_at(u,o.j,nsegs,!back)); break;
        }
        pos=index_of(u.segments(),r,u.size()+4);
        if(pos>=0){ // the returned iterator is usable: walk from it to the end
            long k=pos; for(auto x=r;x!=u.segments().end();++x){ (void)(*x).encoded_string(); if(++k>long(u.size()+4)) break; }
            if(k!=long(u.segments().size())) pos=-3;
        }
    } }
    ro().scrub(o.a,at_end);
}
inline long want_pos(Op const& o){
    switch(o.id){
    case SEG_INS: case SEG_INS_ENC: case SEG_REP: case SEG_REP_ENC: return long(o.i)+1;
    case SEG_ERASE: case SEG_ERASE_RANGE: return long(o.i); }
    return -2; }

// ---- drawing an operation for the state m
inline string refit(Rng& g,string s,std::size_t old){ // sometimes make the size exactly old-1, old, old+1
    if(!g.chance(12)||s.empty()) return s;
    std::size_t n=old+g.below(3); if(n) --n;
    if(n>2000) return s;
    while(s.size()<n) s+=s;
    s.resize(n);
    return s; }
// almost the value that is already there: a shortcut that compares too little is seen here
inline string near(Rng& g,string s){
    if(s.empty()) return s;
    std::size_t const p=g.chance(40)? s.size()-1 : g.chance(30)? 0 : g.below(u32(s.size())); char& c=s[p];
    switch(g.below(8)){
    case 0: break;
    case 1: case 2: for(std::size_t i=p;i<s.size();++i) if((s[i]>='a'&&s[i]<='z')||(s[i]>='A'&&s[i]<='Z')){ s[i]=static_cast<char>(s[i]^32); break; } break;
    case 3: c= c=='a'?'b':'a'; break;
    case 4: s.resize(s.size()-1); break;
    case 5: s+='a'; break;
    case 6: for(auto& x: s) if((x>='a'&&x<='z')||(x>='A'&&x<='Z')) x=static_cast<char>(x^32); break;
    case 7: c= c=='1'?'2':'1'; break;
    }
    return s; }
inline Op draw(Rng& g,ref::Url const& m,bool grow=false){
    Op o;
    u32 const k=g.below(100);
    std::size_t const ns=m.segs().size();
    if(k<28){
        o.id=SEG_INS+int(g.below(6));
        if(ns==0&&o.id>=SEG_REP) o.id=SEG_INS+int(g.below(2));
        o.i=g.chance(30)?0 : g.chance(40)? ns : g.below(u32(ns+1));
        if(o.id>=SEG_REP&&o.i>=ns) o.i=ns-1;
        if(o.id==SEG_ERASE_RANGE){ o.i=g.below(u32(ns+1)); o.j=o.i+g.below(u32(ns-o.i+1)); if(g.chance(30)) o.j=ns; if(g.chance(20)){ o.i=0; } }
        if(o.id==SEG_INS||o.id==SEG_REP) o.a=g.chance(50)? gen::bytes(g) : ref::decode(gen::segment(g));
        else if(o.id<SEG_ERASE) o.a=g.chance(85)? gen::segment(g) : g.chance(50)? gen::bytes(g) : gen::mutate(g,gen::segment(g));
        if((o.id==SEG_REP||o.id==SEG_REP_ENC)&&g.chance(60)) o.a=refit(g,o.a,m.segs()[o.i].size());
    }
    else if(k<32){ o.id=g.chance(80)?ASSIGN:SELF_ASSIGN; if(o.id==ASSIGN){ ref::Url t; do o.a=g.chance(15)?string():g.chance(30)?near(g,m.str()):gen::url(g); while(!ref::parse(o.a,t)); } }
    else {
        o.id=int(g.below(NORM_SCHEME+1));
        bool bad=g.chance(12);
        switch(o.id){
        case ENC_URL: o.a=gen::url(g); break;
        case ENC_ORIGIN: o.a=gen::scheme(g)+":"; if(g.chance(80)) o.a+="//"+gen::authority(g); if(g.chance(15)) o.a+="/"; if(g.chance(8)) o.a+=g.pick("/?#x"); break;
        case SET_SCHEME: o.a=refit(g,gen::scheme(g),m.scheme.size()); break;
        case ENC_AUTH: o.a=gen::authority(g); break;
        case ENC_UI: o.a=gen::userinfo(g); break;
        case UI_PART_: o.a=gen::userinfo(g)+"@"; break;
        case SET_USER: o.a=g.chance(50)?gen::bytes(g):gen::user(g); break;
        case ENC_USER: o.a=refit(g,gen::user(g),m.user.size()); break;
        case SET_PW: o.a=g.chance(50)?gen::bytes(g):gen::password(g); break;
        case ENC_PW: o.a=refit(g,gen::password(g),m.pw.size()); break;
        case PW_PART_: o.a=":"+gen::password(g); break;
        case SET_HOST: o.a=g.chance(50)?gen::bytes(g):gen::host(g); break;
        case ENC_HOST: o.a=refit(g,gen::host(g),m.host.size()); break;
        case PORT_U: { static unsigned const X[]={0,1,9,10,80,443,65535,65536,99999,100000,4294967295u,1000000000u}; o.n=g.chance(50)? X[g.below(12)] : 0; if(!o.n){ u64 const big=g.next(); o.n=unsigned(big>>(32+g.below(32))); }; bad=false; break; }
        case PORT_S: o.a=refit(g,gen::port(g),m.port.size()); break;
        case PORT_PART_: o.a=":"+gen::port(g); break;
        case ENC_PATH: o.a=refit(g,gen::path(g),m.path.size()); if(m.has_auth&&!o.a.empty()&&o.a[0]!='/'&&g.chance(80)) o.a="/"+o.a; break;
        case SET_QUERY: o.a=g.chance(50)?gen::bytes(g):gen::query(g); break;
        case ENC_QUERY: o.a=refit(g,gen::query(g),m.query.size()); break;
        case QUERY_PART_: o.a="?"+gen::query(g); break;
        case SET_FRAG: o.a=g.chance(50)?gen::bytes(g):gen::frag(g); break;
        case ENC_FRAG: o.a=refit(g,gen::frag(g),m.frag.size()); break;
        case FRAG_PART_: o.a="#"+gen::frag(g); break;
        default: bad=false;
        }
        if(o.id<=FRAG_PART_&&o.id!=PORT_U){
            if(g.chance(12)) o.a.clear();
            else if(g.chance(10)) switch(o.id){
                case ENC_URL: o.a=near(g,m.str()); break; case ENC_ORIGIN: o.a=near(g,m.origin()); break; case SET_SCHEME: o.a=near(g,m.scheme); break; case ENC_AUTH: if(m.has_auth) o.a=near(g,m.authority()); break;
                case ENC_UI: if(m.has_ui) o.a=near(g,m.userinfo()); break; case UI_PART_: o.a=near(g,m.userinfo_part()); break; case SET_USER: o.a=near(g,ref::decode(m.user)); break; case ENC_USER: o.a=near(g,m.user); break;
                case SET_PW: o.a=near(g,ref::decode(m.pw)); break; case ENC_PW: o.a=near(g,m.pw); break; case PW_PART_: o.a=near(g,m.password_part()); break; case SET_HOST: o.a=near(g,ref::decode(m.host)); break; case ENC_HOST: o.a=near(g,m.host); break;
                case PORT_S: o.a=near(g,m.port); break; case PORT_PART_: o.a=near(g,m.port_part()); break; case ENC_PATH: o.a=near(g,m.path); break; case SET_QUERY: o.a=near(g,ref::decode(m.query)); break; case ENC_QUERY: o.a=near(g,m.query); break;
                case QUERY_PART_: o.a=near(g,m.query_part()); break; case SET_FRAG: o.a=near(g,ref::decode(m.frag)); break; case ENC_FRAG: o.a=near(g,m.frag); break; case FRAG_PART_: o.a=near(g,m.fragment_part()); break; }
            else if(bad) o.a= g.chance(70)? gen::mutate(g,o.a) : gen::bytes(g);
            // plain setters take any bytes: corrupt them freely
        }
    }
    if(grow&&g.chance(60)&&o.id!=ASSIGN&&o.id<SEG_ERASE&&o.id!=ENC_URL){ string x=o.a; for(int t=0;t<3&&x.size()<400;++t) x+=o.a; if(x.size()<2000) o.a=x; }
    return o; }
} // h
