// Input generators: valid components, near misses, hostile bytes, long strings.
#pragma once
#include "common.hpp"
namespace gen {
using h::Rng; using std::string;

static char const* const UNRES="abcxyzABCXYZ0189-._~";
static char const* const SUBD="!$&'()*+,;=";
static char const* const HOST="/?#[]@:%&=.-+ a0Fv\\\"<>^`{|}~_*";

inline string hexesc(Rng& r){
    char const* lo="0123456789abcdef"; char const* up="0123456789ABCDEF";
    char const* a=r.chance(50)? lo : up; char const* b=r.chance(50)? lo : up;
    string s="%";
    if(r.chance(40)){ static char const* const X[]={"2f","2F","3a","40","26","3D","25","00","20","ff","5b","3F","23"}; return "%"+string(X[r.below(13)]); }
    s+=a[r.below(16)]; s+=b[r.below(16)]; return s; }
inline char any_byte(Rng& r){
    std::uint32_t k=r.below(10);
    if(k<6) return r.pick(HOST);
    if(k<7) return char(r.below(32));
    if(k<8) return char(128+r.below(128));
    return char(r.below(256)); }
inline std::uint32_t len(Rng& r){
    std::uint32_t k=r.below(1000);
    if(k<700) return r.below(6);
    if(k<900) return r.below(20);
    if(k<970) return r.below(70);
    if(k<990){ static std::uint32_t const X[]={15,16,17,31,32,33,63,64,65,127,128,129,255,256,257}; return X[r.below(15)]; }
    if(k<999) return 200+r.below(800);
    return 1000+r.below(5000); }
inline string body(Rng& r,char const* extra,std::uint32_t n){
    string s; std::size_t ne=std::strlen(extra);
    std::uint32_t style=r.below(10);
    std::uint32_t const at= style==1&&n? (r.chance(50)? n-1 : r.below(n)) : n;   // letters around one character that counts
    while(s.size()<n){
        std::uint32_t k=r.below(100);
        if(style==0||(style==1&&s.size()!=at)) s+=char('a'+r.below(26));
        else if(style==1&&ne&&k<60) s+=extra[r.below(std::uint32_t(ne))];
        else if(k<12) s+=hexesc(r);
        else if(k<30&&ne) s+=extra[r.below(std::uint32_t(ne))];
        else if(k<45) s+=r.pick(SUBD);
        else s+=r.pick(UNRES);
    }
    return s; }
inline string scheme(Rng& r){
    static char const* const K[]={"http","https","ws","wss","ftp","file","HTTP","hTtPs","Z","a","mailto","urn","x-y.z+1","h2","View-Source"};
    if(r.chance(60)) return K[r.below(15)];
    string s; char const s0=r.chance(50)?'a':'A'; s+=char(s0+char(r.below(26)));
    std::uint32_t n=r.chance(97)? len(r)%40 : len(r)%700;
    for(std::uint32_t i=0;i<n;++i) s+=r.pick("abcXYZ0159+-.");
    return s; }
inline string user(Rng& r){ return body(r,"",len(r)); }
inline string password(Rng& r){ return body(r,":",len(r)); }
inline string userinfo(Rng& r){
    string s=user(r);
    if(r.chance(60)) s+=":"+password(r);
    return s; }
inline string octet(Rng& r){
    std::uint32_t k=r.below(20);
    if(k<13) return std::to_string(r.below(256));
    if(k==13) return "0"+std::to_string(r.below(30));
    if(k==14) return std::to_string(250+r.below(12));
    if(k==15) return std::to_string(r.below(3000));
    if(k==16) return "";
    if(k==17) return "00";
    if(k==18) return string(1,any_byte(r));
    return std::to_string(99+r.below(3)); }
inline string ipv4(Rng& r,bool good=false){
    std::uint32_t n=good||r.chance(85)? 4 : 1+r.below(5);
    bool clean=good||r.chance(50);
    string s;
    for(std::uint32_t i=0;i<n;++i){ if(i) s+='.'; s+=clean? std::to_string(r.below(256)) : octet(r); }
    if(!good&&r.chance(10)) s+=r.pick(".a0-:/");
    return s; }
inline string h16(Rng& r){
    std::uint32_t n=r.chance(90)? 1+r.below(4) : r.below(7);
    string s; for(std::uint32_t i=0;i<n;++i) s+=r.pick("0123456789abcdefABCDEF");
    if(r.chance(2)) s+=any_byte(r);
    return s; }
inline string ipv6(Rng& r){
    std::uint32_t a,b; bool dc=r.chance(75);
    if(dc){ a=r.below(r.chance(80)?5:9); b=r.below(r.chance(80)?5:9); if(r.chance(50)&&a+b>7) b=a>7?0:7-a; }
    else { a=r.chance(75)?8:5+r.below(5); b=0; }
    bool v4=r.chance(30);
    std::vector<string> L,R;
    for(std::uint32_t i=0;i<a;++i) L.push_back(r.chance(30)?"0":h16(r));
    for(std::uint32_t i=0;i<b;++i) R.push_back(r.chance(30)?"0":h16(r));
    if(v4){
        string q=ipv4(r,r.chance(60));
        std::vector<string>& T=dc? R : L;
        if(!dc&&T.size()>=2) T.resize(T.size()-2);
        else if(dc&&T.size()>=2&&r.chance(50)) T.resize(T.size()-2);
        T.push_back(q);
    }
    string s;
    for(std::size_t i=0;i<L.size();++i){ if(i) s+=':'; s+=L[i]; }
    if(dc) s+="::";
    for(std::size_t i=0;i<R.size();++i){ if(i) s+=':'; s+=R[i]; }
    if(r.chance(12)){ std::size_t p=r.below(std::uint32_t(s.size()+1)); s.insert(p,1,r.pick(":.0aG]v%")); }
    if(r.chance(6)&&!s.empty()) s.erase(r.below(std::uint32_t(s.size())),1);
    return s; }
inline string ipvfuture(Rng& r){
    string s=r.chance(50)?"v":"V";
    std::uint32_t n=r.chance(90)?1+r.below(3):0;
    for(std::uint32_t i=0;i<n;++i) s+=r.pick("019afAF");
    if(r.chance(95)) s+='.';
    std::uint32_t m=r.chance(90)?1+r.below(5):0;
    for(std::uint32_t i=0;i<m;++i) s+=r.chance(90)? r.pick("abz09-._~!$&'()*+,;=:") : r.pick("%@[]/ g");
    return s; }
inline string host(Rng& r){
    std::uint32_t k=r.below(100);
    if(k<8) return "";
    if(k<24) return ipv4(r);
    if(k<50) { string s="["+ipv6(r); if(r.chance(97)) s+="]"; return s; }
    if(k<56) { string s="["+ipvfuture(r); if(r.chance(97)) s+="]"; return s; }
    if(k<70){ static char const* const K[]={"localhost","example.com","1.2.3.4.5","1.2.3.","256.1.1.1","01.2.3.4","1.2.3.4a","x","127.0.0.1","[::1]","[::]","0.0.0.0","255.255.255.255"}; return K[r.below(13)]; }
    return body(r,"",len(r)); }
inline string port(Rng& r){
    std::uint32_t k=r.below(10);
    if(k<2) return "";
    if(k<7) return std::to_string(r.below(65536));
    if(k<8) return "00000000000000000000000000"+std::to_string(r.below(100));
    if(k<9) return "4294967296";
    string s; std::uint32_t n=len(r); for(std::uint32_t i=0;i<n;++i) s+=char('0'+r.below(10)); return s; }
inline string authority(Rng& r){
    string s;
    if(r.chance(45)) s+=userinfo(r)+"@";
    s+=host(r);
    if(r.chance(40)) s+=":"+port(r);
    return s; }
inline string segment(Rng& r){
    std::uint32_t k=r.below(10);
    if(k<2) return "";
    if(k<3){ static char const* const K[]={".","..",":","@","a:b","%2F","%2e","=","&","*"}; return K[r.below(10)]; }
    std::uint32_t const n=len(r); return body(r,":@",r.chance(90)? n%50 : n%700); }
inline std::uint32_t nitems(Rng& r){
    std::uint32_t k=r.below(1000);
    if(k<850) return r.below(5);
    if(k<985) return r.below(12);
    if(k<998) return 20+r.below(100);
    return 250+r.below(30); }
inline string path(Rng& r){
    string s; std::uint32_t n=nitems(r);
    if(n>200){ for(std::uint32_t i=0;i<n;++i) s+=r.chance(50)?"/a":"/"; return s; }
    for(std::uint32_t i=0;i<n;++i){ if(i||r.chance(75)) s+='/'; s+=segment(r); }
    if(r.chance(8)) s+='/';
    return s; }
inline string param(Rng& r){
    static char const* const K[]={"k","key","a","b","%6b","%6B","k%65y","","z"};
    string s=r.chance(60)? K[r.below(9)] : body(r,":@/?",r.chance(95)? len(r)%20 : len(r)%700);
    std::uint32_t k=r.below(10);
    if(k<6) s+="="+(r.chance(30)?string():body(r,":@/?",r.chance(95)? len(r)%30 : len(r)%700));
    else if(k<7) s+="==";
    return s; }
inline string query(Rng& r){
    string s; std::uint32_t n=nitems(r);
    if(n>200){ for(std::uint32_t i=0;i<n;++i){ if(i) s+='&'; s+=r.chance(50)?"k=v":"a"; } return s; }
    for(std::uint32_t i=0;i<n;++i){ if(i) s+='&'; s+=param(r); }
    if(r.chance(8)) s+=r.pick("&=?");
    return s; }
inline string frag(Rng& r){ return body(r,":@/?",len(r)); }
inline string url(Rng& r){
    string s; bool sc=r.chance(65), au=r.chance(60);
    if(sc) s+=scheme(r)+":";
    if(au) s+="//"+authority(r);
    string p=path(r);
    if(au&&!p.empty()&&p[0]!='/'&&r.chance(95)) p="/"+p;
    if(!au&&r.chance(95)) while(p.compare(0,2,"//")==0) p.erase(0,1);
    s+=p;
    if(r.chance(50)) s+="?"+query(r);
    if(r.chance(40)) s+="#"+frag(r);
    return s; }
inline string mutate(Rng& r,string s){
    std::uint32_t n=1+r.below(3);
    for(std::uint32_t i=0;i<n;++i){
        std::size_t p=s.empty()?0:r.below(std::uint32_t(s.size()));
        switch(r.below(8)){
        case 0: if(!s.empty()) s.erase(p,1); break;
        case 1: s.insert(p,1,any_byte(r)); break;
        case 2: if(!s.empty()) s[p]=any_byte(r); break;
        case 3: s.resize(p); break;
        case 4: { std::size_t q=s.empty()?0:r.below(std::uint32_t(s.size())); if(q>p&&q-p<40) s.insert(p,s.substr(p,q-p)); break; }
        case 5: s.insert(p,1,r.pick("/?#:@%[]&=.")); break;
        case 6: if(s.size()>1){ std::size_t q=r.below(std::uint32_t(s.size())); std::swap(s[p],s[q]); } break;
        case 7: s+=any_byte(r); break;
        }
    }
    return s; }
inline string bytes(Rng& r){
    std::uint32_t n=len(r); string s;
    std::uint32_t style=r.below(4);
    for(std::uint32_t i=0;i<n;++i)
        s+= style==0? char(r.below(256)) : style==1? r.pick(HOST) : any_byte(r);
    return s; }
// runs of characters put next to letters and digits: the same structure at other lengths
inline void stretch(string& s,Rng& g){
    static std::uint32_t const L[]={1,2,7,8,9,15,16,17,30,31,32,33,34,60,63,64,65,100,127,128,129,200,254,255,256,257,300,511,512,513,1000,1024};
    std::vector<std::size_t> at; for(std::size_t i=0;i<s.size();++i){ char const c=s[i]; if((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')) at.push_back(i); }
    if(at.empty()) return;
    std::uint32_t const n=1+g.below(2);
    for(std::uint32_t k=0;k<n;++k){ std::size_t const p=at[g.below(std::uint32_t(at.size()))]; char const c=s[p]; bool const behind=g.chance(50); std::uint32_t const len=L[g.below(32)]; char const f= c>='0'&&c<='9'? c : g.chance(80)? 'k' : c; s.insert(p+(behind?1:0),string(len,f)); for(auto& q: at) if(q>p) q=p; } }
} // gen
