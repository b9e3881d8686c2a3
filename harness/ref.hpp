// Reference specification of RFC 3986 URI-references and of the library's
// component vocabulary. Written from the RFC, with a different algorithm from
// the library's (appendix-B style split first, then per-component predicates);
// it includes no header of the library.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstddef>

namespace ref {
using std::string;

inline bool alpha(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
inline bool digit(char c){ return c>='0'&&c<='9'; }
inline int hexv(char c){
    if(c>='0'&&c<='9') return c-'0';
    if(c>='a'&&c<='f') return c-'a'+10;
    if(c>='A'&&c<='F') return c-'A'+10;
    return -1; }
inline bool in(char c, char const* set){
    for(;*set;++set) if(*set==c) return true;
    return false; }
inline bool unreserved(char c){ return alpha(c)||digit(c)||in(c,"-._~"); }
inline bool subdelim(char c){ return in(c,"!$&'()*+,;="); }
inline bool regname_c(char c){ return unreserved(c)||subdelim(c); }
inline bool userinfo_c(char c){ return regname_c(c)||c==':'; }
inline bool pchar_c(char c){ return regname_c(c)||c==':'||c=='@'; }
inline bool query_c(char c){ return pchar_c(c)||c=='/'||c=='?'; }
inline bool path_c(char c){ return pchar_c(c)||c=='/'; }

template<class P>
bool all_pct(string const& s, P ok){
    for(std::size_t i=0;i<s.size();++i){
        if(s[i]=='%'){
            if(i+2>=s.size()||hexv(s[i+1])<0||hexv(s[i+2])<0) return false;
            i+=2;
        } else if(!ok(s[i])) return false;
    }
    return true;
}
inline bool is_scheme(string const& s){
    if(s.empty()||!alpha(s[0])) return false;
    for(char c: s) if(!(alpha(c)||digit(c)||in(c,"+-."))) return false;
    return true; }
inline bool is_regname(string const& s){ return all_pct(s,regname_c); }
inline bool is_user(string const& s){ return all_pct(s,regname_c); }
inline bool is_userinfo(string const& s){ return all_pct(s,userinfo_c); }
inline bool is_query(string const& s){ return all_pct(s,query_c); }
inline bool is_fragment(string const& s){ return all_pct(s,query_c); }
inline bool is_segment(string const& s){ return all_pct(s,pchar_c); }
inline bool is_pathchars(string const& s){ return all_pct(s,path_c); }
inline bool is_digits(string const& s){
    for(char c: s) if(!digit(c)) return false;
    return true; }

inline std::vector<string> split(string const& s, char d){
    std::vector<string> v; string cur;
    for(char c: s){ if(c==d){ v.push_back(cur); cur.clear(); } else cur+=c; }
    v.push_back(cur);
    return v; }

inline bool is_decoctet(string const& s){
    if(s.empty()||s.size()>3||!is_digits(s)) return false;
    if(s.size()>1&&s[0]=='0') return false;
    int v=0; for(char c: s) v=v*10+(c-'0');
    return v<=255; }
inline bool is_ipv4(string const& s){
    auto v=split(s,'.');
    if(v.size()!=4) return false;
    for(auto const& o: v) if(!is_decoctet(o)) return false;
    return true; }
inline bool is_h16(string const& s){
    if(s.empty()||s.size()>4) return false;
    for(char c: s) if(hexv(c)<0) return false;
    return true; }
// number of 16-bit groups in a colon separated list, or -1
inline int groups(string const& s, bool v4_at_end){
    if(s.empty()) return 0;
    auto v=split(s,':'); int n=0;
    for(std::size_t i=0;i<v.size();++i){
        if(is_h16(v[i])) n+=1;
        else if(v4_at_end&&i+1==v.size()&&is_ipv4(v[i])) n+=2;
        else return -1;
    }
    return n; }
inline bool is_ipv6(string const& s){
    auto p=s.find("::");
    if(p==string::npos) return groups(s,true)==8;
    string l=s.substr(0,p), r=s.substr(p+2);
    if(r.find("::")!=string::npos) return false;
    int a=groups(l,false), b=groups(r,true);
    return a>=0&&b>=0&&a+b<=7; }
inline bool is_ipvfuture(string const& s){
    if(s.size()<4||(s[0]!='v'&&s[0]!='V')) return false;
    auto d=s.find('.');
    if(d==string::npos||d<2||d+1>=s.size()) return false;
    for(std::size_t i=1;i<d;++i) if(hexv(s[i])<0) return false;
    for(std::size_t i=d+1;i<s.size();++i)
        if(!(unreserved(s[i])||subdelim(s[i])||s[i]==':')) return false;
    return true; }

enum Kind { none=0, name, ipv4, ipv6, ipvfuture }; // same order as host_type

// host text -> kind, -1 when it is not a host
inline int host_kind(string const& h){
    if(h.empty()) return none;
    if(h[0]=='['){
        if(h.size()<2||h.back()!=']') return -1;
        string in=h.substr(1,h.size()-2);
        if(in.find(']')!=string::npos) return -1;
        if(is_ipv6(in)) return ipv6;
        if(is_ipvfuture(in)) return ipvfuture;
        return -1;
    }
    if(is_ipv4(h)) return ipv4;
    if(is_regname(h)) return name;
    return -1; }

struct Url {
    bool has_scheme=false; string scheme;
    bool has_auth=false;
    bool has_ui=false; string user; bool has_colon=false; string pw;
    string host; bool has_port=false; string port;
    string path;
    bool has_query=false; string query;
    bool has_frag=false; string frag;

    string scheme_part() const { return has_scheme? scheme+":" : ""; }
    string userinfo() const { return user+(has_colon? ":"+pw : ""); }
    string userinfo_part() const { return has_ui? userinfo()+"@" : ""; }
    string password_part() const { return has_colon? ":"+pw : ""; }
    string port_part() const { return has_port? ":"+port : ""; }
    string host_and_port() const { return host+port_part(); }
    string authority() const { return userinfo_part()+host_and_port(); }
    string authority_part() const { return has_auth? "//"+authority() : ""; }
    string origin() const { return scheme_part()+authority_part(); }
    string query_part() const { return has_query? "?"+query : ""; }
    string fragment_part() const { return has_frag? "#"+frag : ""; }
    string str() const { return origin()+path+query_part()+fragment_part(); }
    int kind() const { return host_kind(host); }
    std::vector<string> segs() const {
        if(path.empty()) return {};
        return split(path[0]=='/'? path.substr(1) : path,'/'); }
    struct Param { string k,v; };
    std::vector<Param> params() const {
        std::vector<Param> r;
        if(!has_query) return r;
        for(auto const& e: split(query,'&')){
            auto p=e.find('=');
            if(p==string::npos) r.push_back({e,""});
            else r.push_back({e.substr(0,p),e.substr(p+1)});
        }
        return r; }
    void clear_userinfo(){ has_ui=false; user.clear(); has_colon=false; pw.clear(); }
    void clear_auth(){ has_auth=false; clear_userinfo(); host.clear(); has_port=false; port.clear(); }
    // may this path stand after this scheme and authority?
    bool path_ok() const {
        if(path.empty()) return true;
        if(has_auth) return path[0]=='/';
        if(path.compare(0,2,"//")==0) return false;
        if(path[0]!='/'&&!has_scheme){
            auto e=path.find('/');
            if(path.substr(0,e).find(':')!=string::npos) return false;
        }
        return true; }
};

inline bool split_hostport(string const& s, Url& u){
    std::size_t e;
    if(!s.empty()&&s[0]=='['){
        e=s.find(']');
        if(e==string::npos) return false;
        ++e;
        if(e<s.size()&&s[e]!=':') return false;
    } else {
        e=s.find(':');
        if(e==string::npos) e=s.size();
    }
    u.host=s.substr(0,e);
    u.has_port=e<s.size();
    u.port=u.has_port? s.substr(e+1) : "";
    return host_kind(u.host)>=0&&is_digits(u.port); }

inline bool set_userinfo(string const& s, Url& u){
    if(!is_userinfo(s)) return false;
    auto c=s.find(':');
    u.has_ui=true;
    u.user=s.substr(0,c);
    u.has_colon=c!=string::npos;
    u.pw=u.has_colon? s.substr(c+1) : "";
    return true; }

inline bool parse_authority(string const& s, Url& u){
    auto at=s.find('@');
    u.clear_auth();
    u.has_auth=true;
    if(at!=string::npos){
        if(!set_userinfo(s.substr(0,at),u)) return false;
        return split_hostport(s.substr(at+1),u);
    }
    return split_hostport(s,u); }

// the only entry point: is `s` a URI-reference, and what are its parts
inline bool parse(string s, Url& u){
    u=Url();
    auto h=s.find('#');
    if(h!=string::npos){ u.has_frag=true; u.frag=s.substr(h+1); s.resize(h); }
    auto q=s.find('?');
    if(q!=string::npos){ u.has_query=true; u.query=s.substr(q+1); s.resize(q); }
    if(!is_fragment(u.frag)||!is_query(u.query)) return false;
    auto c=s.find(':'), sl=s.find('/');
    if(c!=string::npos&&(sl==string::npos||c<sl)){
        u.has_scheme=true; u.scheme=s.substr(0,c); s=s.substr(c+1);
        if(!is_scheme(u.scheme)) return false;
    }
    if(s.compare(0,2,"//")==0){
        auto e=s.find('/',2);
        string a=s.substr(2,e==string::npos? e : e-2);
        u.path=e==string::npos? "" : s.substr(e);
        if(!parse_authority(a,u)) return false;
    } else u.path=s;
    return is_pathchars(u.path); }

inline string decode(string const& s){
    string r;
    for(std::size_t i=0;i<s.size();++i){
        if(s[i]=='%'&&i+2<s.size()&&hexv(s[i+1])>=0&&hexv(s[i+2])>=0){
            r+=static_cast<char>(hexv(s[i+1])*16+hexv(s[i+2])); i+=2;
        } else r+=s[i];
    }
    return r; }
template<class P>
string encode(string const& s, P ok){
    static char const* const H="0123456789ABCDEF";
    string r;
    for(char c: s){
        if(ok(c)) r+=c;
        else { unsigned u=static_cast<unsigned char>(c); r+='%'; r+=H[u/16]; r+=H[u%16]; }
    }
    return r; }

// ---- specification of the modifiers: true = must succeed (u updated),
// ---- false = must be rejected (u unchanged)
inline bool commit(Url& u, Url const& n){ if(!n.path_ok()) return false; u=n; return true; }

inline bool set_encoded_url(Url& u, string const& s){ Url n; if(!parse(s,n)) return false; u=n; return true; }
inline bool set_encoded_origin(Url& u, string const& s){
    Url n=u; n.has_scheme=false; n.scheme.clear(); n.clear_auth();
    if(s.empty()) return commit(u,n);
    auto c=s.find(':');
    if(c==string::npos||!is_scheme(s.substr(0,c))) return false;
    n.has_scheme=true; n.scheme=s.substr(0,c);
    string r=s.substr(c+1);
    if(r.empty()) return commit(u,n);
    if(r.compare(0,2,"//")!=0) return false;
    r=r.substr(2);
    // a single trailing slash after the authority is tolerated (and dropped)
    if(!r.empty()&&r.back()=='/') r.pop_back();
    if(r.find('/')!=string::npos||!parse_authority(r,n)) return false;
    return commit(u,n); }
inline bool set_scheme(Url& u, string const& s){
    Url n=u; n.has_scheme=!s.empty(); n.scheme=s;
    if(!s.empty()&&!is_scheme(s)) return false;
    return commit(u,n); }
inline bool set_encoded_authority(Url& u, string const& s){
    Url n=u;
    if(s.empty()) n.clear_auth();
    else if(s.find('/')!=string::npos||!parse_authority(s,n)) return false;
    return commit(u,n); }
inline bool set_encoded_userinfo(Url& u, string const& s){
    Url n=u;
    if(s.empty()){
        n.clear_userinfo();
        if(n.host.empty()&&!n.has_port) n.clear_auth();
    } else { if(!set_userinfo(s,n)) return false; n.has_auth=true; }
    return commit(u,n); }
inline bool set_userinfo_part(Url& u, string const& s){
    if(s.empty()) return set_encoded_userinfo(u,s);
    Url n=u;
    if(s.back()!='@'||!set_userinfo(s.substr(0,s.size()-1),n)) return false;
    n.has_auth=true;
    return commit(u,n); }
inline bool put_user(Url& u, string const& s){
    Url n=u;
    if(s.empty()){ n.user.clear(); if(!n.has_colon) n.has_ui=false; }
    else { n.has_auth=true; n.has_ui=true; n.user=s; }
    return commit(u,n); }
inline bool set_user(Url& u, string const& s){ return put_user(u,encode(s,regname_c)); }
inline bool set_encoded_user(Url& u, string const& s){ return is_user(s)&&put_user(u,s); }
inline bool put_password(Url& u, bool colon, string const& s){
    Url n=u;
    n.has_colon=colon; n.pw=s;
    if(!colon){ if(n.user.empty()) n.has_ui=false; }
    else { n.has_auth=true; n.has_ui=true; }
    return commit(u,n); }
inline bool set_password(Url& u, string const& s){ return put_password(u,!s.empty(),encode(s,userinfo_c)); }
inline bool set_encoded_password(Url& u, string const& s){
    if(!is_userinfo(s)||(!s.empty()&&s[0]==':')) return false;
    return put_password(u,!s.empty(),s); }
inline bool set_password_part(Url& u, string const& s){
    if(s.empty()) return put_password(u,false,"");
    if(s[0]!=':'||!is_userinfo(s.substr(1))) return false;
    return put_password(u,true,s.substr(1)); }
inline bool put_host(Url& u, string const& s){
    Url n=u; n.host=s;
    if(s.empty()){ if(!n.has_ui&&!n.has_port) n.clear_auth(); }
    else n.has_auth=true;
    return commit(u,n); }
inline bool set_host(Url& u, string const& s){
    int k=host_kind(s);
    if(k==ipv4||k==ipv6||k==ipvfuture) return put_host(u,s);
    return put_host(u,encode(s,regname_c)); }
inline bool set_encoded_host(Url& u, string const& s){ return host_kind(s)>=0&&put_host(u,s); }
inline bool put_port(Url& u, bool colon, string const& s){
    Url n=u; n.has_port=colon; n.port=s;
    if(!colon){ if(!n.has_ui&&n.host.empty()) n.clear_auth(); }
    else n.has_auth=true;
    return commit(u,n); }
inline bool set_port(Url& u, string const& s){ return is_digits(s)&&put_port(u,!s.empty(),s); }
inline bool set_port_part(Url& u, string const& s){
    if(s.empty()) return put_port(u,false,"");
    if(s[0]!=':'||!is_digits(s.substr(1))) return false;
    return put_port(u,true,s.substr(1)); }
inline bool set_encoded_path(Url& u, string const& s){
    if(!is_pathchars(s)) return false;
    Url n=u; n.path=s; return commit(u,n); }
inline bool set_query(Url& u, string const& s){ u.has_query=!s.empty(); u.query=encode(s,query_c); return true; }
inline bool set_encoded_query(Url& u, string const& s){
    if(!is_query(s)) return false;
    u.has_query=!s.empty(); u.query=s; return true; }
inline bool set_query_part(Url& u, string const& s){
    if(!s.empty()&&(s[0]!='?'||!is_query(s.substr(1)))) return false;
    u.has_query=!s.empty(); u.query=s.empty()? "" : s.substr(1); return true; }
inline bool set_fragment(Url& u, string const& s){ u.has_frag=!s.empty(); u.frag=encode(s,query_c); return true; }
inline bool set_encoded_fragment(Url& u, string const& s){
    if(!is_fragment(s)) return false;
    u.has_frag=!s.empty(); u.frag=s; return true; }
inline bool set_fragment_part(Url& u, string const& s){
    if(!s.empty()&&(s[0]!='#'||!is_fragment(s.substr(1)))) return false;
    u.has_frag=!s.empty(); u.frag=s.empty()? "" : s.substr(1); return true; }
inline bool normalize(Url& u){
    for(char& c: u.scheme) if(c>='A'&&c<='Z') c=static_cast<char>(c-'A'+'a');
    return true; }

// ---- segment editing. A path is absolute, or rootless; editing keeps the kind,
// ---- except that the first segment of an empty path makes it absolute.
// ---- false: the segment list has no spelling in this URL.
inline bool put_segs(Url& u, std::vector<string> const& v, bool absolute){
    Url n=u; string p;
    for(std::size_t i=0;i<v.size();++i){ if(i||absolute) p+='/'; p+=v[i]; }
    n.path=p;
    if(n.segs()!=v) return false;      // e.g. rootless path with an empty first segment
    return commit(u,n); }
inline bool is_abs(Url const& u){ return u.path.empty()||u.path[0]=='/'; }
inline bool seg_insert(Url& u, std::size_t i, string const& enc){
    if(!is_segment(enc)) return false;
    auto v=u.segs(); v.insert(v.begin()+static_cast<long>(i),enc);
    return put_segs(u,v,is_abs(u)); }
inline bool seg_replace(Url& u, std::size_t i, string const& enc){
    if(!is_segment(enc)) return false;
    auto v=u.segs(); v[i]=enc;
    return put_segs(u,v,is_abs(u)); }
inline bool seg_erase(Url& u, std::size_t i, std::size_t j){
    auto v=u.segs();
    v.erase(v.begin()+static_cast<long>(i),v.begin()+static_cast<long>(j));
    // a relative path cannot begin with an empty segment: those go too
    if(i==0&&j>0&&!is_abs(u)) while(!v.empty()&&v[0].empty()) v.erase(v.begin());
    return put_segs(u,v,is_abs(u)); }

} // ref
