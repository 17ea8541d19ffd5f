// Independent reference model of a URL: RFC 3986 by components (appendix B
// decomposition plus a per-component validity check), the documented setters
// as operations on a component record, and lists of strings for the path
// segments and query parameters.  Nothing here uses the library.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstdint>
#include <cstddef>

namespace ref {
using std::string;

inline bool alpha(unsigned char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
inline bool digit(unsigned char c){ return c>='0'&&c<='9'; }
inline int  hexval(unsigned char c){
    if(digit(c)) return c-'0';
    if(c>='a'&&c<='f') return c-'a'+10;
    if(c>='A'&&c<='F') return c-'A'+10;
    return -1; }
inline bool in(unsigned char c, char const* set){ for(;*set;++set) if((unsigned char)*set==c) return true; return false; }
inline bool unreserved(unsigned char c){ return alpha(c)||digit(c)||in(c,"-._~"); }
inline bool subdelim(unsigned char c){ return in(c,"!$&'()*+,;="); }
inline bool regname(unsigned char c){ return unreserved(c)||subdelim(c); }
inline bool userinfo(unsigned char c){ return regname(c)||c==':'; }
inline bool pchar(unsigned char c){ return userinfo(c)||c=='@'; }
inline bool qfchar(unsigned char c){ return pchar(c)||c=='/'||c=='?'; }
inline bool schemechar(unsigned char c){ return alpha(c)||digit(c)||in(c,"+-."); }
typedef bool (*cls)(unsigned char);

inline bool valid(string const& s, cls f){
    for(size_t i=0;i<s.size();++i){
        unsigned char c=s[i];
        if(c=='%'){
            if(i+2>=s.size() || hexval(s[i+1])<0 || hexval(s[i+2])<0) return false;
            i+=2; continue; }
        if(!f(c)) return false; }
    return true; }
inline string enc(string const& s, cls f){
    static char const H[]="0123456789ABCDEF";
    string r;
    for(unsigned char c: s){
        if(f(c)) r+=char(c);
        else { r+='%'; r+=H[c/16]; r+=H[c%16]; } }
    return r; }
inline string dec(string const& s){
    string r;
    for(size_t i=0;i<s.size();++i){
        if(s[i]=='%' && i+2<s.size()){ r+=char(hexval(s[i+1])*16+hexval(s[i+2])); i+=2; }
        else r+=s[i]; }
    return r; }
inline bool scheme_ok(string const& s){
    if(s.empty()||!alpha(s[0])) return false;
    for(unsigned char c: s) if(!schemechar(c)) return false;
    return true; }
inline bool digits(string const& s){ for(unsigned char c: s) if(!digit(c)) return false; return true; }

inline std::vector<string> split(string const& s, char d){
    std::vector<string> v(1);
    for(char c: s){ if(c==d) v.emplace_back(); else v.back()+=c; }
    return v; }

inline bool octet(string const& s){
    if(s.empty()||s.size()>3||!digits(s)) return false;
    if(s.size()>1&&s[0]=='0') return false;
    return std::stoi(s)<=255; }
inline bool ipv4(string const& s){
    auto v=split(s,'.');
    if(v.size()!=4) return false;
    for(auto const& x: v) if(!octet(x)) return false;
    return true; }
inline bool h16(string const& s){
    if(s.empty()||s.size()>4) return false;
    for(unsigned char c: s) if(hexval(c)<0) return false;
    return true; }
// number of 16-bit groups in a colon separated list, -1 if malformed;
// "" is the empty list; an IPv4 address is allowed last when v4 is set
inline int groups(string const& s, bool v4){
    if(s.empty()) return 0;
    auto v=split(s,':');
    int n=0;
    for(size_t i=0;i<v.size();++i){
        if(h16(v[i])) ++n;
        else if(v4 && i+1==v.size() && ipv4(v[i])) n+=2;
        else return -1; }
    return n; }
inline bool ipv6(string const& s){
    size_t p=s.find("::");
    if(p==string::npos) return groups(s,true)==8;
    int a=groups(s.substr(0,p),false), b=groups(s.substr(p+2),true);
    return a>=0&&b>=0&&a+b<=7; }
inline bool ipvfuture(string const& s){
    if(s.size()<4||(s[0]!='v'&&s[0]!='V')) return false;
    size_t d=s.find('.');
    if(d==string::npos||d<2||d+1>=s.size()) return false;
    for(size_t i=1;i<d;++i) if(hexval(s[i])<0) return false;
    for(size_t i=d+1;i<s.size();++i) if(!userinfo(s[i])) return false;
    return true; }
enum { none, name, v4, v6, vfuture };
// host type, or -1 if not a host
inline int host_kind(string const& s){
    if(s.empty()) return none;
    if(s[0]=='['){
        if(s.size()<2||s.back()!=']') return -1;
        string t=s.substr(1,s.size()-2);
        if(ipv6(t)) return v6;
        if(ipvfuture(t)) return vfuture;
        return -1; }
    if(!valid(s,regname)) return -1;
    return ipv4(s)? v4: name; }

struct URL {
    bool has_scheme=false; string scheme;
    bool auth=false;
    bool ui=false; string user; bool has_pw=false; string pw;
    string host;
    bool has_port=false; string port;
    string path;
    bool has_q=false; string q;
    bool has_f=false; string f;

    string userinfo() const { return ui? user+(has_pw? ":"+pw: ""): ""; }
    string authority() const {
        string s;
        if(ui) s+=userinfo()+"@";
        s+=host;
        if(has_port) s+=":"+port;
        return s; }
    string origin() const {
        string s;
        if(has_scheme) s+=scheme+":";
        if(auth) s+="//"+authority();
        return s; }
    string str() const {
        string s=origin()+path;
        if(has_q) s+="?"+q;
        if(has_f) s+="#"+f;
        return s; }
    void clear_auth(){ auth=ui=has_pw=has_port=false; user=pw=host=port=""; }
    int kind() const { return auth? host_kind(host): none; }

    // may the path stand in this context?
    static bool path_ok(string const& p, bool sch, bool au){
        for(auto const& s: split(p,'/')) if(!valid(s,pchar)) return false;
        if(p.empty()) return true;
        if(au) return p[0]=='/';
        if(p[0]=='/') return !(p.size()>1&&p[1]=='/');
        if(sch) return true;
        return split(p,'/')[0].find(':')==string::npos; }
    bool valid_() const {
        if(has_scheme && !scheme_ok(scheme)) return false;
        if(auth){
            if(ui && (!valid(user,regname)||!valid(pw,ref::userinfo))) return false;
            if(host_kind(host)<0) return false;
            if(has_port && !digits(port)) return false; }
        if(!path_ok(path,has_scheme,auth)) return false;
        return valid(q,qfchar)&&valid(f,qfchar); }

    bool parse_userinfo(string const& s){
        size_t c=s.find(':');
        ui=true; user=s.substr(0,c);
        has_pw=c!=string::npos; pw=has_pw? s.substr(c+1): "";
        return valid(user,regname)&&valid(pw,ref::userinfo); }
    bool parse_authority(string s){
        clear_auth(); auth=true;
        size_t at=s.find('@');
        if(at!=string::npos){
            if(!parse_userinfo(s.substr(0,at))) return false;
            s=s.substr(at+1); }
        size_t e;
        if(!s.empty()&&s[0]=='['){
            e=s.find(']'); if(e==string::npos) return false; ++e; }
        else { e=s.find(':'); if(e==string::npos) e=s.size(); }
        host=s.substr(0,e); s=s.substr(e);
        if(host_kind(host)<0) return false;
        if(s.empty()) return true;
        if(s[0]!=':') return false;
        has_port=true; port=s.substr(1);
        return digits(port); }
    // RFC 3986 appendix B
    bool parse(string const& s0){
        *this=URL(); string s=s0;
        size_t p=s.find_first_of(":/?#");
        if(p!=string::npos&&s[p]==':'){
            has_scheme=true; scheme=s.substr(0,p); s=s.substr(p+1);
            if(!scheme_ok(scheme)) return false; }
        p=s.find('#');
        if(p!=string::npos){ has_f=true; f=s.substr(p+1); s=s.substr(0,p); }
        p=s.find('?');
        if(p!=string::npos){ has_q=true; q=s.substr(p+1); s=s.substr(0,p); }
        if(s.compare(0,2,"//")==0){
            p=s.find('/',2);
            string a=s.substr(2,p==string::npos? p: p-2);
            if(!parse_authority(a)) return false;
            s= p==string::npos? "": s.substr(p); }
        path=s;
        return valid_(); }

    // path segments
    bool absolute() const { return !path.empty()&&path[0]=='/'; }
    std::vector<string> segs() const {
        if(path.empty()) return {};
        return split(absolute()? path.substr(1): path,'/'); }
    struct param { string k,v; bool has_v; };
    std::vector<param> params() const {
        std::vector<param> r;
        if(!has_q) return r;
        for(auto const& s: split(q,'&')){
            size_t e=s.find('=');
            param x; x.k=s.substr(0,e); x.has_v=e!=string::npos;
            x.v=x.has_v? s.substr(e+1): "";
            r.push_back(x); }
        return r; }
    // replace the segment list; false if it can't be the path of this URL
    bool set_segs(std::vector<string> const& v, bool abs){
        if(v.empty()){ path=""; return true; }
        string p;
        for(size_t i=0;i<v.size();++i){ if(i||abs) p+='/'; p+=v[i]; }
        if(p.empty()||(p[0]=='/')!=abs) return false;
        if(!path_ok(p,has_scheme,auth)) return false;
        path=p;
        return true; }
};

inline string lower(string s){ for(auto& c: s) if(c>='A'&&c<='Z') c=char(c+32); return s; }

// setters; false = must throw and leave the URL unchanged
inline bool apply(URL& u, string const& op, string const& s, unsigned n)
{
    URL m=u;
    auto commit=[&](bool ok){ if(ok && !URL::path_ok(m.path,m.has_scheme,m.auth)) ok=false;
                              if(ok) u=m; return ok; };
    if(op=="set_encoded_url"){
        if(s.empty()){ u=URL(); return true; }
        return commit(m.parse(s)); }
    if(op=="set_encoded_origin"){
        if(s.empty()){ m.has_scheme=false; m.scheme=""; m.clear_auth(); return commit(true); }
        URL o; if(!o.parse(s)||!o.has_scheme||o.has_q||o.has_f) return false;
        m.has_scheme=true; m.scheme=o.scheme; m.clear_auth(); m.auth=o.auth;
        m.ui=o.ui; m.user=o.user; m.has_pw=o.has_pw; m.pw=o.pw; m.host=o.host; m.has_port=o.has_port; m.port=o.port;
        return commit(true); }
    if(op=="set_scheme"){
        m.has_scheme=!s.empty(); m.scheme=s;
        return commit(s.empty()||scheme_ok(s)); }
    if(op=="set_encoded_authority"){
        m.clear_auth();
        if(s.empty()) return commit(true);
        return commit(m.parse_authority(s)); }
    auto set_ui=[&](string const& t){
        if(t.empty()){
            m.ui=m.has_pw=false; m.user=m.pw="";
            if(m.host.empty()&&!m.has_port) m.clear_auth();
            return commit(true); }
        m.auth=true;
        return commit(m.parse_userinfo(t)); };
    if(op=="set_encoded_userinfo") return set_ui(s);
    if(op=="set_userinfo_part"){
        if(s.empty()) return set_ui(s);
        if(s.back()!='@') return false;
        return set_ui(s.substr(0,s.size()-1)); }
    auto set_user=[&](string const& t){
        if(t.empty()){
            m.user=""; if(!m.has_pw) m.ui=false;
            return commit(true); }
        m.auth=m.ui=true; m.user=t;
        return commit(valid(t,regname)); };
    if(op=="set_user") return set_user(enc(s,regname));
    if(op=="set_encoded_user") return set_user(s);
    auto set_pw=[&](string const& t){
        if(t.empty()){
            m.pw=""; m.has_pw=false; if(m.user.empty()) m.ui=false;
            return commit(true); }
        m.auth=m.ui=m.has_pw=true; m.pw=t;
        return commit(valid(t,ref::userinfo)); };
    if(op=="set_password") return set_pw(enc(s,ref::userinfo));
    if(op=="set_encoded_password") return !(s.size()&&s[0]==':') && set_pw(s);
    if(op=="set_password_part"){
        if(s.empty()) return set_pw(s);
        if(s[0]!=':') return false;
        if(s.size()==1){ m.auth=m.ui=m.has_pw=true; m.pw=""; return commit(true); }
        return s[1]!=':' && set_pw(s.substr(1)); }
    auto set_host=[&](string const& t){
        if(t.empty()){
            m.host=""; if(!m.ui&&!m.has_port) m.clear_auth();
            return commit(true); }
        m.auth=true; m.host=t;
        return commit(host_kind(t)>=0); };
    if(op=="set_host"){
        int k=host_kind(s);
        return set_host(k==v4||k==v6||k==vfuture? s: enc(s,regname)); }
    if(op=="set_encoded_host") return set_host(s);
    auto set_port=[&](string const& t){
        if(t.empty()){
            m.port=""; m.has_port=false;
            if(!m.ui&&m.host.empty()) m.clear_auth();
            return commit(true); }
        m.auth=m.has_port=true; m.port=t;
        return commit(digits(t)); };
    if(op=="set_port_n") return set_port(std::to_string(n));
    if(op=="set_port") return set_port(s);
    if(op=="set_port_part"){
        if(s.empty()) return set_port(s);
        if(s[0]!=':') return false;
        if(s.size()>1) return set_port(s.substr(1));
        m.auth=m.has_port=true; m.port="";
        return commit(true); }
    if(op=="set_encoded_path"){ m.path=s; return commit(true); }
    auto set_q=[&](bool h, string const& t){ m.has_q=h; m.q=t; return commit(valid(t,qfchar)); };
    if(op=="set_query") return set_q(!s.empty(),enc(s,qfchar));
    if(op=="set_encoded_query") return set_q(!s.empty(),s);
    if(op=="set_query_part") return s.empty()? set_q(false,s): s[0]=='?'&&set_q(true,s.substr(1));
    auto set_f=[&](bool h, string const& t){ m.has_f=h; m.f=t; return commit(valid(t,qfchar)); };
    if(op=="set_fragment") return set_f(!s.empty(),enc(s,qfchar));
    if(op=="set_encoded_fragment") return set_f(!s.empty(),s);
    if(op=="set_fragment_part") return s.empty()? set_f(false,s): s[0]=='#'&&set_f(true,s.substr(1));
    if(op=="normalize"||op=="normalize_scheme"){ u.scheme=lower(u.scheme); return true; }
    // segments; n = position (for erase: low half first, high half last)
    auto v=m.segs(); bool abs= v.empty()||m.absolute();
    if(op=="seg_erase"){
        size_t a=n&0xffff,b=n>>16;
        if(a==b) return true;
        v.erase(v.begin()+a,v.begin()+b);
        return m.set_segs(v,abs)? (u=m,true): false; }
    bool ins= op=="seg_insert"||op=="seg_insert_encoded", plain= op=="seg_insert"||op=="seg_replace";
    string t= plain? enc(s,pchar): s;
    if(!valid(t,pchar)) return false;
    if(ins) v.insert(v.begin()+n,t); else v[n]=t;
    return m.set_segs(v,abs)? (u=m,true): false;
}
} // ref
