// Replays cases against the real library (header-only build, sanitizers and
// assertions on) and compares it with the reference model in model.hpp.
//
//   hunt PROP SECONDS SEED [CASEFILE]   search; first the cases in CASEFILE
//   hunt --replay PROP CASEFILE         run the cases in a file, verbosely
//
// Exit 0: nothing found.  Exit 1: "FOUND <what>" and the case on stdout.
#define BOOST_URL_HEADER_ONLY
#include <boost/url.hpp>
#include <boost/url/static_pool.hpp>
#include "model.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <locale.h>

namespace U = boost::urls;
using std::string;
using sv = U::string_view;

//---- allocator that can be told to fail
static long g_fail = -1;    // allocations left before failure, -1 = never
template<class T> struct FA {
    using value_type=T;
    FA()=default; template<class V> FA(FA<V> const&) noexcept {}
    T* allocate(size_t n){
        if(n > 0x10000000) throw std::bad_alloc();
        if(g_fail==0) throw std::bad_alloc();
        if(g_fail>0) --g_fail;
        // poison so that nothing relies on fresh memory being zero
        T* p=static_cast<T*>(::operator new(n*sizeof(T)));
        std::memset((void*)p,0xA5,n*sizeof(T));
        return p; }
    void deallocate(T* p,size_t) noexcept { ::operator delete(p); }
    template<class V> bool operator==(FA<V> const&) const noexcept { return true; }
    template<class V> bool operator!=(FA<V> const&) const noexcept { return false; }
};
using url = U::basic_url<FA<char>>;

//---- an input string in an exact heap block, so that overreads are seen
struct In {
    char* p; size_t n;
    explicit In(string const& s): p((char*)std::malloc(s.size()?s.size():1)), n(s.size()) { std::memcpy(p,s.data(),n); }
    ~In(){ std::free(p); }
    In(In const&)=delete;
    sv get() const { return n? sv(p,n): sv(); }
};
static string S(sv v){ return string(v.data()?v.data():"",v.size()); }

//---- cases
struct Op { string name, arg; unsigned n=0; };
struct Case { string kind; string url; std::vector<Op> ops; };

static string hex(string const& s){ string r; char b[3]; for(unsigned char c: s){ std::snprintf(b,3,"%02x",c); r+=b; } return r.empty()?"-":r; }
static string unhex(string const& h){ string r; if(h=="-") return r; for(size_t i=0;i+1<h.size();i+=2) r+=char(std::stoi(h.substr(i,2),nullptr,16)); return r; }
static string show(string const& s){ string r="\""; char b[8]; size_t k=0; for(unsigned char c: s){ if(++k>400){ r+="..."; break; } if(c=='"'||c=='\\'){ r+='\\'; r+=char(c);} else if(c<32||c>126){ std::snprintf(b,8,"\\x%02x",c); r+=b; } else r+=char(c); } return r+"\" ("+std::to_string(s.size())+")"; }
static string text(Case const& c){
    string r="case "+c.kind+" "+hex(c.url)+"\n";
    for(auto& o: c.ops) r+="op "+o.name+" "+hex(o.arg)+" "+std::to_string(o.n)+"\n";
    return r+"end\n"; }
static string human(Case const& c){
    string r="# "+c.kind+" on "+show(c.url)+"\n";
    for(auto& o: c.ops) r+="#   ."+o.name+"("+show(o.arg)+", n="+std::to_string(o.n)+")\n";
    return r; }

//---- failure reporting: kinds map to properties
struct Fail { string what; };
static string g_prop;
static bool wants(char const* props){
    if(g_prop=="*") return true;
    string p=string(" ")+props+" ";
    return p.find(" "+g_prop+" ")!=string::npos; }
struct Diverged {};       // mismatch that belongs to another property
static void bad(char const* props, string const& what){
    if(wants(props)) throw Fail{what};
    throw Diverged{}; }
static void eq(char const* props, char const* what, string const& got, string const& want){
    if(got!=want) bad(props,string(what)+": got "+show(got)+", expected "+show(want)); }
static void eqn(char const* props, char const* what, unsigned long long got, unsigned long long want){
    if(got!=want) bad(props,string(what)+": got "+std::to_string(got)+", expected "+std::to_string(want)); }

// expected value of every observer
template<class V> void observers(V const& v, ref::URL const& m, char const* P, char const* PH)
{
    eq(P,"encoded_url",S(v.encoded_url()),m.str());
    eq(P,"encoded_origin",S(v.encoded_origin()),m.origin());
    eq(P,"scheme",S(v.scheme()),m.scheme);
    eqn(P,"has_authority",v.has_authority(),m.auth);
    eq(P,"encoded_authority",S(v.encoded_authority()),m.authority());
    eqn(P,"has_userinfo",v.has_userinfo(),m.ui);
    eq(P,"encoded_userinfo",S(v.encoded_userinfo()),m.userinfo());
    eq(P,"userinfo_part",S(v.userinfo_part()),m.ui? m.userinfo()+"@": "");
    eq(P,"encoded_user",S(v.encoded_user()),m.user);
    eq(P,"encoded_password",S(v.encoded_password()),m.pw);
    eq(P,"encoded_host_and_port",S(v.encoded_host_and_port()),m.host+(m.has_port? ":"+m.port: ""));
    eq(P,"encoded_host",S(v.encoded_host()),m.host);
    eq(P,"port",S(v.port()),m.port);
    eq(P,"port_part",S(v.port_part()),m.has_port? ":"+m.port: "");
    eq(P,"encoded_path",S(v.encoded_path()),m.path);
    eq(P,"encoded_query",S(v.encoded_query()),m.q);
    eq(P,"query_part",S(v.query_part()),m.has_q? "?"+m.q: "");
    eq(P,"encoded_fragment",S(v.encoded_fragment()),m.f);
    eq(P,"fragment_part",S(v.fragment_part()),m.has_f? "#"+m.f: "");
    eqn(PH,"host_type",(unsigned)v.host_type(),(unsigned)m.kind());
}
template<class V> void decoded(V const& v, ref::URL const& m, char const* P)
{
    eq(P,"user",v.user(),ref::dec(m.user));
    eq(P,"password",v.password(),ref::dec(m.pw));
    int k=m.kind();
    eq(P,"host",v.host(),k==ref::name? ref::dec(m.host): m.host);
    eq(P,"query",v.query(),ref::dec(m.q));
    eq(P,"fragment",v.fragment(),ref::dec(m.f));
}
template<class Seg> void segments(Seg const& ps, ref::URL const& m, char const* P, char const* PD)
{
    auto want=m.segs();
    eqn(P,"segments().size()",ps.size(),want.size());
    eqn(P,"segments().empty()",ps.empty(),want.empty());
    size_t i=0;
    auto it=ps.begin();
    std::vector<decltype(it)> pos;
    for(;it!=ps.end();++it,++i){
        if(i>=want.size()) bad(P,"segment iteration does not end after "+std::to_string(i)+" segments");
        pos.push_back(it);
        eq(P,"segment",S((*it).encoded_string()),want[i]);
        eq(PD,"segment.string()",(*it).string(),ref::dec(want[i]));
    }
    eqn(P,"segments iterated",i,want.size());
    while(i-->0){
        --it;
        if(!(it==pos[i])) bad(P,"-- does not return to segment "+std::to_string(i));
        eq(P,"segment (backward)",S((*it).encoded_string()),want[i]);
    }
    // increment after decrement, at every position
    if(!want.empty()){
        auto e=ps.end(); --e; ++e;
        if(!(e==ps.end())) bad(P,"++ after -- at the end");
        for(size_t k=1;k<pos.size();++k){ auto a=pos[k]; --a; ++a; if(!(a==pos[k])) bad(P,"++ after --"); auto b=pos[k-1]; b++; b--; if(!(b==pos[k-1])) bad(P,"-- after ++"); eq(P,"segment (-- after ++)",S((*b).encoded_string()),want[k-1]); }
    }
}
template<class Par> void params(Par const& ps, ref::URL const& m, char const* P, char const* PD, char const* PL)
{
    auto want=m.params();
    eqn(P,"params().size()",ps.size(),want.size());
    eqn(P,"params().empty()",ps.empty(),want.empty());
    size_t i=0;
    auto it=ps.begin();
    std::vector<decltype(it)> pos;
    for(;it!=ps.end();++it,++i){
        if(i>=want.size()) bad(P,"parameter iteration does not end after "+std::to_string(i)+" parameters");
        pos.push_back(it);
        auto e=*it;
        eq(P,"parameter key",S(e.encoded_key()),want[i].k);
        eq(P,"parameter value",S(e.encoded_value()),want[i].v);
        eq(PD,"key()",e.key(),ref::dec(want[i].k));
        eq(PD,"value()",e.value(),ref::dec(want[i].v));
    }
    eqn(P,"parameters iterated",i,want.size());
    while(i-->0){
        --it;
        if(!(it==pos[i])) bad(P,"-- does not return to parameter "+std::to_string(i));
        eq(P,"parameter key (backward)",S((*it).encoded_key()),want[i].k);
        eq(P,"parameter value (backward)",S((*it).encoded_value()),want[i].v);
    }
    for(size_t k=1;k<pos.size();++k){ auto a=pos[k]; --a; ++a; if(!(a==pos[k])) bad(P,"++ after --"); auto b=pos[k-1]; b++; b--; if(!(b==pos[k-1])) bad(P,"-- after ++"); eq(P,"key (-- after ++)",S((*b).encoded_key()),want[k-1].k); }
    if(! wants(PL)) return;
    std::set<string> keys={"","a","b","%41","A"," ","a&b","k","=","%"};
    for(auto& w: want){ keys.insert(w.k); string d=ref::dec(w.k); keys.insert(d); keys.insert(d+"x"); if(!d.empty()){ keys.insert(d.substr(1)); keys.insert(d.substr(0,d.size()-1)); string t=d; t.back()^=1; keys.insert(t); t=d; t[0]^=0x20; keys.insert(t);} }
    for(auto& k: keys){
        In in(k);
        size_t n=0, first=want.size();
        for(size_t j=0;j<want.size();++j) if(ref::dec(want[j].k)==k){ if(!n) first=j; ++n; }
        eqn(PL,"count",ps.count(in.get()),n);
        eqn(PL,"contains",ps.contains(in.get()),n!=0);
        auto f=ps.find(in.get());
        if(n){ if(!(f==pos[first])) bad(PL,"find does not return the first match for "+show(k)); }
        else if(!(f==ps.end())) bad(PL,"find returns a parameter for the missing key "+show(k));
        eq(PL,"operator[]",ps[in.get()],n? ref::dec(want[first].v): "");
        bool threw=false; string r;
        try { r=ps.at(in.get()); } catch(U::out_of_range const&){ threw=true; }
        eqn(PL,"at throws",threw,n==0);
        if(n) eq(PL,"at",r,ref::dec(want[first].v));
    }
}

// full consistency of a url object with the model
static void consistent(url& u, ref::URL const& m, bool deep, char const* PO, char const* PH)
{
    observers(u,m,PO,PH);
    eq(PO,"password_part",S(u.password_part()),m.has_pw? ":"+m.pw: "");
    eqn("C08",  "size()",u.size(),m.str().size());
    if(u.capacity()<u.size()) bad("C08 C15","capacity() < size()");
    if(std::memcmp(u.data(),m.str().data(),m.str().size())!=0) bad("C08","data()");
    if(u.data()[u.size()]!=0) bad("C08 C15","text is not null-terminated");
    if(deep){
        if(wants("C08")){
            try { U::url_view v{sv(u.data(),u.size())}; observers(v,m,"C08","C08"); }
            catch(U::invalid_part const&){ bad("C08","stored text "+show(m.str())+" does not parse"); }
        }
        decoded(u,m,"C04 C05");
        url const& cu=u;
        segments(u.segments(),m,"C10 C08 C13","C04"); segments(cu.segments(),m,"C10 C08 C13","C04");
        params(u.params(),m,"C11 C08","C04","C12"); params(cu.params(),m,"C11 C08","C04","C12");
    }
}

static std::map<string,std::function<void(url&,sv,unsigned)>> make_ops(){
    std::map<string,std::function<void(url&,sv,unsigned)>> r;
#define OP(n) r[#n]=[](url& u,sv s,unsigned){ U::url_base& b=u.n(s); if(&b!=&u) bad("C06","does not return *this"); };
    OP(set_encoded_url) OP(set_encoded_origin) OP(set_scheme) OP(set_encoded_authority)
    OP(set_encoded_userinfo) OP(set_userinfo_part) OP(set_user) OP(set_encoded_user)
    OP(set_password) OP(set_encoded_password) OP(set_password_part) OP(set_host) OP(set_encoded_host)
    OP(set_port) OP(set_port_part) OP(set_encoded_path) OP(set_query) OP(set_encoded_query) OP(set_query_part)
    OP(set_fragment) OP(set_encoded_fragment) OP(set_fragment_part)
#undef OP
    r["set_port_n"]=[](url& u,sv,unsigned n){ u.set_port(n); };
    r["normalize"]=[](url& u,sv,unsigned){ u.normalize(); };
    r["normalize_scheme"]=[](url& u,sv,unsigned){ u.normalize_scheme(); };
    auto at=[](url& u,unsigned k){ auto it=u.segments().begin(); while(k--) ++it; return it; };
    auto chk=[at](url& u,U::url_base::segments_type::iterator r,unsigned k){ if(!(r==at(u,k))) bad("C13","edit does not return the element after it"); };
    r["seg_insert"]=[=](url& u,sv s,unsigned n){ chk(u,u.segments().insert(at(u,n),s),n+1); };
    r["seg_insert_encoded"]=[=](url& u,sv s,unsigned n){ chk(u,u.segments().insert_encoded(at(u,n),s),n+1); };
    r["seg_replace"]=[=](url& u,sv s,unsigned n){ chk(u,u.segments().replace(at(u,n),s),n+1); };
    r["seg_replace_encoded"]=[=](url& u,sv s,unsigned n){ chk(u,u.segments().replace_encoded(at(u,n),s),n+1); };
    r["seg_erase"]=[=](url& u,sv,unsigned n){ unsigned a=n&0xffff,b=n>>16;
        if(b==a+1 && (a&1)) chk(u,u.segments().erase(at(u,a)),a); else chk(u,u.segments().erase(at(u,a),at(u,b)),a); };
    return r; }
static std::map<string,std::function<void(url&,sv,unsigned)>> const OPS=make_ops();
static char const* const SETTERS[]={"set_encoded_url","set_encoded_origin","set_scheme","set_encoded_authority",
 "set_encoded_userinfo","set_userinfo_part","set_user","set_encoded_user","set_password","set_encoded_password",
 "set_password_part","set_host","set_encoded_host","set_port","set_port_part","set_port_n","set_encoded_path","set_query",
 "set_encoded_query","set_query_part","set_fragment","set_encoded_fragment","set_fragment_part","normalize","normalize_scheme"};
static char const* const EDITS[]={"seg_insert","seg_insert_encoded","seg_replace","seg_replace_encoded","seg_erase"};

// C05 speaks about plain setters, C18 about ports, ...
static string props_of(string const& op){
    string r="C06 C08";
    if(op.compare(0,4,"seg_")==0) r="C13 C08";
    if(op=="set_user"||op=="set_password"||op=="set_host"||op=="set_query"||op=="set_fragment"||op=="seg_insert"||op=="seg_replace") r+=" C05";
    if(op.compare(0,8,"set_port")==0) r+=" C18";
    if(op.compare(0,9,"normalize")==0) r+=" C17";
    if(op=="set_encoded_url") r+=" C02";
    return r; }
static string vprops_of(string const& op){
    string r="C07";
    if(op.compare(0,4,"seg_")==0) r="C13";
    if(op=="set_user"||op=="set_password"||op=="set_host"||op=="set_query"||op=="set_fragment"||op=="seg_insert"||op=="seg_replace") r+=" C05";
    if(op.compare(0,8,"set_port")==0) r+=" C18";
    if(op=="set_encoded_url") r+=" C01";
    return r; }

static bool clamp(Op& o, ref::URL const& m){
    if(o.name.compare(0,4,"seg_")!=0) return true;
    unsigned k=(unsigned)m.segs().size();
    if(o.name=="seg_erase"){ unsigned a=(o.n&0xffff)%(k+1), b=(o.n>>16)%(k+1); if(a>b) std::swap(a,b); o.n=a|(b<<16); return true; }
    if(o.name.find("insert")!=string::npos){ o.n%=k+1; return true; }
    if(!k) return false;
    o.n%=k; return true; }

static bool g_verbose=false;
static void run_parse(string const& s)
{
    ref::URL m; bool ok=m.parse(s);
    In in(s);
    bool got=true;
    std::unique_ptr<U::url_view> v;
    try { v.reset(new U::url_view(in.get())); } catch(U::invalid_part const&){ got=false; }
    if(got!=ok) bad("C01",string("url_view ")+(got?"accepts ":"rejects ")+show(s));
    bool got2=true; url u;
    try { u.set_encoded_url(in.get()); } catch(U::invalid_part const&){ got2=false; }
    if(got2!=ok) bad("C01",string("url ")+(got2?"accepts ":"rejects ")+show(s));
    if(!ok) return;
    observers(*v,m,"C02","C03");
    if(wants("C02")&&v->encoded_url().size()&&v->encoded_url().data()!=in.p) bad("C02","encoded_url() is not the input");
    if(wants("C04 C10 C11 C12 C14")){
        decoded(*v,m,"C04");
        segments(v->segments(),m,"C10","C04");
        params(v->params(),m,"C11","C04","C12");
        if(g_prop!="C02") consistent(u,m,true,"C02","C03");
    }
    if(wants("C02 C03")) { observers(u,m,"C02","C03"); }
}
static void run_ops(Case& c)
{
    ref::URL m; if(!m.parse(c.url)) return;
    url u;
    { In in(c.url); try { u.set_encoded_url(in.get()); } catch(U::invalid_part const&){ bad("C01","rejects a valid URL"); } }
    observers(u,m,"C02","C03");
    for(size_t i=0;i<c.ops.size();++i){
        Op& o=c.ops[i];
        if(!clamp(o,m)) continue;
        ref::URL before=m;
        bool ok=ref::apply(m,o.name,o.arg,o.n);
        In in(o.arg);
        auto const& f=OPS.at(o.name);
        string pc=props_of(o.name), pv=vprops_of(o.name);
        // allocation failure: must leave everything unchanged
        if(wants("C09 C14") && ok){
            g_fail=0; bool threw=false;
            try { f(u,in.get(),o.n); } catch(std::bad_alloc const&){ threw=true; }
            g_fail=-1;
            if(threw) consistent(u,before,true,"C09 C08","C09");
            else { consistent(u,m,false,"C06 C08","C03"); if(i+1==c.ops.size()) consistent(u,m,true,"C06 C08","C03"); continue; }
        }
        bool got=true;
        size_t cap=u.capacity();
        try { f(u,in.get(),o.n); } catch(U::invalid_part const&){ got=false; }
        if(g_verbose) std::cout<<"  "<<o.name<<"("<<show(o.arg)<<","<<o.n<<") -> "<<(got?"ok ":"throws ")<<show(S(u.encoded_url()))<<"\n";
        if(got!=ok) bad(pv.c_str(),o.name+(got?" accepts ":" rejects ")+show(o.arg)+" on "+show(before.str()));
        if(!got) consistent(u,before,wants("C09"),"C09 C08","C09");
        else {
            consistent(u,m,i+1==c.ops.size()||c.ops.size()<4,pc.c_str(),(string("C03 C08")).c_str());
            if(u.capacity()<cap) bad("C15","capacity decreased");
        }
    }
}
static void run_scheme(string const& s)
{
    static std::pair<char const*,U::scheme> const T[]={{"ftp",U::scheme::ftp},{"file",U::scheme::file},{"http",U::scheme::http},{"https",U::scheme::https},{"ws",U::scheme::ws},{"wss",U::scheme::wss}};
    U::scheme want=U::scheme::unknown;
    for(auto& t: T) if(ref::lower(s)==t.first) want=t.second;
    In in(s);
    eqn("C17",("string_to_scheme "+show(s)).c_str(),(unsigned)U::string_to_scheme(in.get()),(unsigned)want);
    for(auto& t: T) eq("C17","to_string",S(U::to_string(t.second)),t.first);
}
// ops: sizes for the allocating storage: "reserve"/"resize" n
static void run_storage(Case& c)
{
    U::detail::alloc_storage<FA<char>> st{FA<char>()};
    string t; size_t cap=0; bool have=false, term=false;
    for(auto& o: c.ops){
        size_t n=o.n; char* p=nullptr; bool threw=false;
        bool fail= o.name[0]=='f';
        bool rs= o.name.find("resize")!=string::npos;
        g_fail=fail? 0: -1;
        U::detail::storage& b=st;
        try { p= rs? b.resize(n): b.reserve(n); } catch(std::bad_alloc const&){ threw=true; }
        g_fail=-1;
        eqn("C15","reallocation",threw,fail&&n>cap);
        if(b.capacity()<cap) bad("C15","capacity decreased");
        if(n<=cap) eqn("C15","capacity changed although the size fits",b.capacity(),cap);
        if(!threw){ if(b.capacity()<n) bad("C15","capacity() < requested"); }
        else eqn("C15","capacity after failure",b.capacity(),cap);
        cap=b.capacity();
        if(threw){ p= have? b.reserve(0): nullptr; }
        else if(rs){ size_t k=t.size(); t.resize(n,'?'); for(size_t i=k;i<n;++i){ t[i]=char('a'+i%26); p[i]=t[i]; } }
        eqn("C15","size()",b.size(),t.size());
        if(p){ have=true; if(t.size()&&std::memcmp(p,t.data(),t.size())!=0) bad("C15","characters lost"); if(rs&&!threw) term=true; if(term&&p[t.size()]!=0) bad("C15","not null-terminated"); std::memset(p+t.size()+1,'#',cap-t.size()); }
    }
}
template<class T> static void pool_get(U::basic_static_pool& sp, size_t n, char* base, size_t cap, std::vector<std::pair<char*,size_t>>& got, size_t& top)
{
    U::basic_static_pool::allocator_type<char> a0=sp.allocator();
    U::basic_static_pool::allocator_type<T> a(a0);
    size_t start=((uintptr_t)(base+top)+alignof(T)-1)/alignof(T)*alignof(T)-(uintptr_t)base;
    if(n>=0xfffffff0u) n=size_t(-1)/sizeof(T)+(0xffffffffu-n);       // counts whose size wraps
    bool fits= start<=cap && n<=(cap-start)/sizeof(T);
    T* p=nullptr; bool threw=false;
    try { p=a.allocate(n); } catch(std::bad_alloc const&){ threw=true; }
    eqn("C16","bad_alloc",threw,!fits);
    if(threw) return;
    char* q=(char*)p;
    if((uintptr_t)q%alignof(T)) bad("C16","misaligned block");
    if(q<base||q+n*sizeof(T)>base+cap) bad("C16","block outside the pool");
    for(auto& g: got) if(q<g.first+g.second&&g.first<q+n*sizeof(T)) bad("C16","block overlaps an earlier one");
    got.emplace_back(q,n*sizeof(T)); top=size_t(q+n*sizeof(T)-base);
}
static void run_pool(Case& c)
{
    size_t cap=std::stoul(c.url.empty()?"0":c.url);
    char* base=(char*)std::malloc(cap+1);
    std::unique_ptr<char,void(*)(void*)> hold(base,std::free);
    U::basic_static_pool sp(base+ (c.ops.size()&1),cap);
    base+=c.ops.size()&1;
    std::vector<std::pair<char*,size_t>> got; size_t top=0;
    struct alignas(16) A16 { char x[16]; };
    for(auto& o: c.ops){
        if(o.name=="p1") pool_get<char>(sp,o.n,base,cap,got,top);
        else if(o.name=="p2") pool_get<uint16_t>(sp,o.n,base,cap,got,top);
        else if(o.name=="p4") pool_get<uint32_t>(sp,o.n,base,cap,got,top);
        else if(o.name=="p8") pool_get<uint64_t>(sp,o.n,base,cap,got,top);
        else pool_get<A16>(sp,o.n,base,cap,got,top);
    }
}
static void run(Case& c)
{
    if(c.kind=="parse") run_parse(c.url);
    else if(c.kind=="ops") run_ops(c);
    else if(c.kind=="scheme") run_scheme(c.url);
    else if(c.kind=="storage") run_storage(c);
    else if(c.kind=="pool") run_pool(c);
}

//---- shared memory: the case being run and the result
struct Shared { char cur[1<<20]; volatile size_t len; volatile unsigned long long n; volatile int found; char what[8192]; };
static Shared* g_sh;
static std::chrono::steady_clock::time_point g_end;
struct TimeUp {};
static bool g_search=true;
static void go(Case const& c0)
{
    Case c=c0;
    string t=text(c);
    size_t n=std::min(t.size(),sizeof(g_sh->cur)-1);
    std::memcpy(g_sh->cur,t.data(),n); g_sh->len=n;
    ++g_sh->n;
    try { run(c); }
    catch(Diverged const&){ g_fail=-1; }
    catch(Fail const& f){ std::snprintf(g_sh->what,sizeof g_sh->what,"%s",f.what.c_str()); g_sh->found=1; if(g_search) std::_Exit(1); else throw; }
    catch(std::exception const& e){ g_fail=-1; std::snprintf(g_sh->what,sizeof g_sh->what,"unexpected exception %s",e.what()); g_sh->found=1; if(g_search) std::_Exit(1); else throw Fail{g_sh->what}; }
    if((g_sh->n&63)==0 && std::chrono::steady_clock::now()>g_end) throw TimeUp{};
}

//---- generators
static std::mt19937_64 rng;
static size_t rnd(size_t n){ return n? rng()%n: 0; }
template<class T,size_t N> T pick(T const(&a)[N]){ return a[rnd(N)]; }
static string pick(std::vector<string> const& v){ return v[rnd(v.size())]; }
static std::vector<string> const SCH={"","x:","http:","HTTP:","a+B.c-9:","z9:"};
static std::vector<string> const AUT={"","//","//@","//u@","//:@","//u:@","//:p@","//u:p@","//h","//h:","//:8","//:","//h:80","//u@h","//u:p@h:443","//:p@h","//@h","//[::1]","//[1:2::3.4.5.6]:9","//[v1.x:y]","//1.2.3.4","//1.2.3.4:0","//u%41@h%2f","//u::p@h","//u:p:q@"};
static std::vector<string> const PAT={"","/","/a","/a/b","a","a/b","a:b","a:b/c","//a","//","a/","/a//b","/a%2Fb/c","a//b","b/a:b","/a:b","/.","a/b:c/d","/a/b/c/d/e","@","a@b","/%25"};
static std::vector<string> const QRY={"","?","?a","?a=b","?a=b&c=d","?a&b","?&","?=","?a=","?=b","?a=b=c&d","?%61=%62&a=%3d","?a=1&a=2&%61=3","?&&a&","?k%26=v","?/?:@"};
static std::vector<string> const FRG={"","#","#f","#a/b?c&d=e","#%41","#/?:@&="};
static std::vector<string> bases(){
    std::vector<string> r; ref::URL m;
    for(auto&a:SCH) for(auto&b:AUT) for(auto&c:PAT) for(auto&d:QRY) for(auto&e:FRG){
        string s=a+b+c+d+e; if(m.parse(s)) r.push_back(s); }
    return r; }
static std::vector<string> args(){
    std::vector<string> r={"","a","b","1","80","0","00080","65536","99999999999",":","@","a:b","a:b:c",":a","::","a@","@a","/","//","/a","//a","a/b","/a/b","/a//","%41","%","%4","%zz","%4g","%g4","a%","a%4","%41%42","%2f","%2F","%00","a%25b","[::1]","[::1","[1:2:3:4:5:6:7:8]","[v1.a]","[v1.]","[]","1.2.3.4","1.2.3.256","1.2.3.4.5","01.2.3.4","1.2.3","x y","?","?a","?a=b&c","a=b&c=d","&","=","#","#f","a#b","a?b","http","HtTp","x+1","1x","x:","x://y","x://u:p@h:1","x://h/p","x://h?q","//h","u:p@h","u:p","u@","u:p@",":p@",":p",":80",":","h:80","h:","\x7f","\x80","\xff","-._~","!$&'()*+,;=","é","A%41a","x%3Ay",".","..","a/../b","a:b/c","b:c",":/","abc%","%%%","%25","a b/c","~","[v1.a:b]","[vF.!]","[V2.x]","[::ffff:1.2.3.4]","[g::]","1.2.3.4:80"};
    for(int i=0;i<256;++i){ r.push_back(string(1,char(i))); r.push_back("a"+string(1,char(i))+"b"); }
    for(size_t n: {2u,7u,8u,14u,15u,16u,17u,31u,32u,33u,63u,64u,65u,127u,128u,129u,255u,256u,257u,511u,513u,1000u}){ r.push_back(string(n,'a')); r.push_back(string(n,' ')); r.push_back(string(n,'1')); }
    r.push_back(string(65535,'a')); r.push_back(string(65536,'a')); r.push_back(string(65537,'%')); r.push_back(string(70000,'1'));
    { string s; for(int i=0;i<300;++i) s+="/s"; r.push_back(s); r.push_back(s.substr(1)); }
    { string s; for(int i=0;i<300;++i) s+="%4"+string(1,"0123456789abcdefABCDEF"[i%22]); r.push_back(s); }
    { string s; for(int i=0;i<300;++i) s+="k=v&"; r.push_back(s); r.push_back("?"+s); }
    { string s; for(int i=0;i<256;++i) s+=char(i); r.push_back(s); r.push_back(s+s); }
    return r; }
static string rstr(char const* al,size_t maxn){ string s; size_t n=rnd(maxn+1), k=std::strlen(al); while(n--) s+=al[rnd(k)]; return s; }
static string v6good(); static string v4str();
static string rarg(std::vector<string> const& A){
    switch(rnd(8)){ case 6: { string s="["+v6good()+"]"; if(rnd(2)) s.resize(rnd(s.size()+1)); return s; } case 7: { string s=v4str(); if(rnd(2)) s.resize(rnd(s.size()+1)); return s; } case 0: return rstr("ab%412:/@?#[]&=. ",8); case 1: { string s; size_t n=rnd(6); while(n--) s+=char(rnd(256)); return s; }
      case 2: return pick(A)+pick(A); case 3: { string s=pick(A); if(s.size()<400){ if(s.size()) s[rnd(s.size())]=char(rnd(256)); } return s; } default: return pick(A); } }
static string v6str(){
    static std::vector<string> const W={"1","12","123","1234","12345","0","ffff","ABCD","abcd","g","","1.2.3.4","01.2.3.4","256.1.1.1","1.2.3","0.0.0.0","255.255.255.255","00.1.2.3","1.2.3.4.5",".1.2.3","1..2.3","12a.1.1.1","1.2.3.04","1.2.3.400"};
    string s; size_t n=rnd(11);
    for(size_t i=0;i<n;++i){ size_t k=rnd(16); if(i) s+= k==0? "::": k==1? ":::": k==2? "": ":"; else if(k<4) s+= k==0? ":": "::";
        s+= rnd(8)? W[rnd(4)]: pick(W); }
    if(rnd(4)==0) s+="::"; if(rnd(12)==0) s+=":";
    if(rnd(20)==0&&s.size()) s[rnd(s.size())]=char(rnd(256));
    return s; }
static string v6good(){ // a valid address
    string s; int tot=(int)rnd(9); bool dc= tot!=8; int at=dc? (int)rnd(tot+1): -1; bool e4= tot>=2&&rnd(3)==0&&at!=tot; 
    if(e4&&at==tot-1) e4=false;
    for(int i=0;i<=tot;++i){
        if(i==at) s+="::";
        if(i==tot) break;
        if(e4&&i==tot-2){ s+=(i&&i!=at?":":"")+std::to_string(rnd(256))+"."+std::to_string(rnd(256))+"."+std::to_string(rnd(256))+"."+std::to_string(rnd(256)); break; }
        if(i&&i!=at) s+=':';
        s+=rstr("0123456789abcdefABCDEF",3)+"1"; }
    return s; }
static string v4str(){ string s; int n=rnd(6)?4:(int)rnd(6); for(int i=0;i<n;++i){ if(i) s+='.'; switch(rnd(5)){ case 0: s+=std::to_string(rnd(256)); break; case 1: s+=std::to_string(rnd(1000)); break; case 2: s+="0"+std::to_string(rnd(30)); break; default: s+=std::to_string(rnd(10)); } } if(rnd(15)==0) s+=rstr("a.1:%",2); return s; }

static void gen_parse(unsigned w, unsigned W, bool small)
{
    auto B=bases();
    size_t cnt=0;
    for(auto& s: B) if(cnt++%W==w) go({"parse",s,{}});
    // every byte at every place of short URLs
    static char const* const T[]={"x://u:p@h:1/a/b?k=v&l#f","x:a/b:c","a/b?c#d","//[1::2.3.4.5]:6/","//[v1.x]/","/a","//u%41@h%42/%43?%44#%45","//1.2.3.4","?a&b=c","#f","X9+-.:/a//b"};
    for(auto t: T){ string s=t; for(size_t i=0;i<=s.size();++i) for(int c=0;c<256;++c){ if(cnt++%W!=w) continue; string r=s; if(i<s.size()){ r[i]=char(c); go({"parse",r,{}}); } r=s; r.insert(i,1,char(c)); go({"parse",r,{}}); } }
    // every prefix: the input may end anywhere
    static char const* const Q[]={"//[1234:abcd::5678:255.255.255.255]:80/a","//[::]/","//[1:2:3:4:5:6:7:8]","//[1:2:3:4:5:6:1.2.3.4]","//[v1f.x:y]:9/","//255.254.253.252:65535/","//u%41:p%42@h%43:12/%44/%45?%46=%47&%48#%49","http://u:p@h:1/a/b?k=v&l#f"};
    for(auto l: {&T[0],&Q[0]}) for(size_t i=0;i<(l==&T[0]? sizeof(T)/sizeof(T[0]): sizeof(Q)/sizeof(Q[0]));++i){ string t=l[i]; for(size_t n=0;n<=t.size();++n) if(cnt++%W==w) go({"parse",t.substr(0,n),{}}); }
    // exhaustive short strings
    static char const AL[]="a1:/?#[]@%.&=v ";
    size_t k=sizeof(AL)-1;
    for(size_t len=0;len<=(small?3u:4u);++len){ size_t tot=1; for(size_t i=0;i<len;++i) tot*=k; for(size_t x=0;x<tot;++x){ if(cnt++%W!=w) continue; string s; size_t y=x; for(size_t i=0;i<len;++i){ s+=AL[y%k]; y/=k; } go({"parse",s,{}}); } }
    // lengths
    for(size_t n: {15u,16u,17u,127u,128u,255u,256u,257u,4095u,4096u,32767u,32768u,65535u,65536u,70000u}) if(cnt++%W==w){
        string L(n,'a'); string D(n,'7');
        for(string s: {L+":", L+"://h", "//"+L, "//"+L+"@", "//u:"+L+"@h", "//h:"+D, "/"+L, L, "?"+L, "?"+L+"="+L+"&"+L, "#"+L, "x://h/"+L+"?"+L+"#"+L, "//"+D, "//1.2.3."+D, "//[::"+D+"]", "//[v"+D+"."+L+"]", L+"%", L+"%4", "?"+L+"%4g", "//"+L+"%zz"}) go({"parse",s,{}});
        string M; for(size_t i=0;i<n/2;++i) M+="/s"; go({"parse",M,{}}); go({"parse",M.substr(1)+"?q",{}}); M=""; for(size_t i=0;i<n/2;++i) M+="&s"; go({"parse","?"+M+"#f",{}}); }
    for(;;){
        string s;
        switch(rnd(8)){
        case 0: s="//["+v6str()+"]"+(rnd(3)?"":":80"); break;
        case 1: s="//["+v6good()+"]"; break;
        case 2: s=(rnd(2)?"//":"//u@")+v4str()+(rnd(3)?"":":1")+(rnd(3)?"":"/x"); break;
        case 3: s=rstr(AL,9); break;
        case 4: s=B[rnd(B.size())]; for(size_t k=1+rnd(2);k--;){ if(s.size()){ size_t i=rnd(s.size()); switch(rnd(3)){ case 0: s[i]=char(rnd(256)); break; case 1: s.erase(i,1); break; default: s.insert(i,1,"%:/?#[]@&=a1 "[rnd(13)]); } } } break;
        case 5: s="//["+string(rnd(5)?"v":"V")+rstr("0123456789abcdefABCDEFg",3)+rstr(".",1)+rstr("a1:%@!~",4)+"]"; break;
        case 6: s=rstr("aZ9+-.:",5)+pick(AUT)+pick(PAT)+pick(QRY)+pick(FRG); break;
        default: s=pick(SCH)+pick(AUT)+pick(PAT)+"/"+rstr("a%41/:@",7)+pick(QRY)+rstr("&=a%42/",6)+pick(FRG); }
        if(rnd(4)==0) s.resize(rnd(s.size()+1));
        go({"parse",s,{}});
    }
}
static void gen_ops(unsigned w, unsigned W, std::vector<string> const& names, bool full)
{
    auto A=args(); size_t cnt=0;
    // a spread of bases: all of the small cross product
    std::vector<string> B; ref::URL m;
    for(auto&a:{"","x:","A:"}) for(auto&b:AUT) for(auto&c:PAT) for(auto&d:{"","?a&b=c"}) for(auto&e:{"","#f"}){ string s=string(a)+b+c+d+e; if(m.parse(s)) B.push_back(s); }
    std::vector<string> B2; for(size_t i=0;i<B.size();++i) if(i%5==0) B2.push_back(B[i]);
    auto all=bases();
    bool edits=false; for(auto& n: names) if(n.compare(0,4,"seg_")==0) edits=true;
    // 1. every op x every interesting argument on a few URLs; every op x few arguments on many URLs
    static std::vector<string> const few={"","a","1",":","@","a:b","/","//","/a","a/b","%41","[::1]","1.2.3.4","x y","?","?a&b","#","#f","x:","x://h","u:p@h:1",":p",":8","u:p","u@","b:c"};
    static std::vector<string> const urls={"","x:","x://u:p@h:80/a/b?k=v#f","//h","a/b?q#f","x:a:b","http://h//x","/a?q","//@","//u:@h:","//:1/","?q","#f","x://[::1]/","//1.2.3.4/a//b"};
    auto one=[&](string const& b,string const& n,string const& s){
        if(n=="seg_erase"){ for(unsigned i=0;i<4;++i) for(unsigned j=i;j<4;++j) if(cnt++%W==w) go({"ops",b,{{n,"",i|(j<<16)}}}); }
        else if(n.compare(0,4,"seg_")==0){ for(unsigned i=0;i<3;++i) if(cnt++%W==w) go({"ops",b,{{n,s,i}}}); }
        else if(cnt++%W==w) go({"ops",b,{{n,s,(unsigned)rng()}}}); };
    for(auto& n: names) for(auto& b: urls) for(auto& s: few) one(b,n,s);
    for(auto& n: names) for(auto& b: urls) for(auto& s: A) if(s.size()<2000) one(b,n,s);
    for(auto& n: names) for(auto& b: B) for(auto& s: few) { if(n=="seg_erase"&&&s!=&few[0]) continue; one(b,n,s); }
    for(auto& n: names) for(auto& b: {"","x://u:p@h:80/a/b?k=v#f","a/b"}) for(auto& s: A) if(s.size()>=2000) one(b,n,s);
    if(std::find(names.begin(),names.end(),"set_port_n")!=names.end())
        for(unsigned n: {0u,1u,9u,10u,11u,99u,100u,101u,443u,999u,1000u,9999u,10000u,65534u,65535u,65536u,65537u,99999u,100000u,999999u,1000000u,9999999u,10000000u,99999999u,100000000u,999999999u,1000000000u,2147483647u,2147483648u,4294967295u}) for(auto& b: urls) if(cnt++%W==w) go({"ops",b,{{"set_port_n","",n}}});
    // 2. histories
    for(;;){
        Case c{"ops",rnd(3)? pick(all): B[rnd(B.size())],{}};
        size_t n=1+rnd(full? 8: 4);
        for(size_t i=0;i<n;++i){ Op o; o.name= rnd(4)||!edits? pick(names): pick(names); o.arg=rnd(3)? pick(few): rarg(A); o.n=(unsigned)rng(); if(o.name.compare(0,4,"seg_")==0) o.n=rnd(6)|(rnd(6)<<16); if(rnd(3)==0) o.n%=70000; if(o.name=="set_port_n"&&rnd(2)) o.n>>=rnd(32); c.ops.push_back(o); }
        go(c);
    }
}
static string variant(string s){ for(auto& c: s) if(rnd(2)) c=char(std::toupper(c)); return s; }
static void gen_scheme(unsigned w,unsigned W)
{
    static std::vector<string> const T={"ftp","file","http","https","ws","wss","","x","htt","httpx","wsss","fttp","fi1e"};
    size_t cnt=0;
    for(auto& t: T){ for(unsigned k=0;k<(1u<<t.size());++k){ string s=t; for(size_t i=0;i<s.size();++i) if(k>>i&1) s[i]=char(s[i]^0x20); if(cnt++%W==w) go({"scheme",s,{}}); }
        for(size_t i=0;i<t.size();++i) for(int c=0;c<256;++c){ string s=t; s[i]=char(c); if(cnt++%W==w) go({"scheme",s,{}}); }
        for(size_t i=0;i<=t.size();++i) for(int c=0;c<256;++c){ string s=t; s.insert(i,1,char(c)); if(cnt++%W==w) go({"scheme",s,{}}); } }
    for(auto& b: bases()) if(cnt++%(W*5)==w) go({"ops",b,{{"normalize","",0}}});
    for(int i=0;i<40000;++i){ string s=variant(pick(T)); if(rnd(3)==0&&s.size()) s[rnd(s.size())]=char(rnd(256)); go({"scheme",s,{}}); }
    for(int c=0;c<256;++c) for(auto t: {"","a","http"}) { go({"ops",t+string(1,char(c))+"://H/P",{{rnd(2)?"normalize":"normalize_scheme","",0}}}); go({"ops",string(t)+"Q"+string(1,char(c))+"Z:",{{"normalize","",0}}}); }
    gen_ops(w,W,{"normalize","normalize_scheme","set_scheme"},false);
}
static void gen_storage(unsigned w,unsigned W)
{
    static char const* const N[]={"reserve","resize","resize","freserve","fresize"};
    static unsigned const Z[]={0,1,2,3,4,7,8,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,1000,4096,5000,65536,70001};
    size_t cnt=0;
    for(auto a: N) for(auto x: Z) for(auto b: N) for(auto y: Z) if(cnt++%W==w) go({"storage","",{{a,"",x},{b,"",y},{"resize","",x},{"reserve","",y}}});
    std::vector<string> ops(std::begin(SETTERS),std::end(SETTERS)); for(auto e: EDITS) ops.push_back(e);
    for(int k=0;k<30000;++k){ Case c{"storage","",{}}; size_t n=1+rnd(10); while(n--){ Op o; o.name=pick(N); o.n= rnd(2)? pick(Z): (unsigned)rnd(300); c.ops.push_back(o);} go(c); }
    gen_ops(w,W,ops,true);
}
static void gen_pool(unsigned,unsigned)
{
    for(;;){ Case c{"pool",std::to_string(rnd(3)? rnd(20): rnd(200)),{}}; size_t n=1+rnd(8);
        static char const* const N[]={"p1","p2","p4","p8","p16"};
        while(n--){ Op o; o.name=pick(N); o.n=(unsigned)(rnd(3)? rnd(4): rnd(12)); if(rnd(40)==0) o.n=0xffffffffu-(unsigned)rnd(4); c.ops.push_back(o);} go(c); }
}

static std::vector<Case> load(char const* f)
{
    std::vector<Case> r; std::ifstream in(f); string l;
    while(std::getline(in,l)){
        std::istringstream ss(l); string a,b,c; unsigned n=0; ss>>a;
        if(a=="case"){ ss>>b>>c; r.push_back({b,unhex(c),{}}); }
        else if(a=="op"&&!r.empty()){ ss>>b>>c>>n; r.back().ops.push_back({b,unhex(c),n}); }
    }
    return r;
}
static void search(unsigned w,unsigned W,char const* file)
{
    if(file && w==0) for(auto& c: load(file)) go(c);
    std::vector<string> set(std::begin(SETTERS),std::end(SETTERS)), ed(std::begin(EDITS),std::end(EDITS)), all=set;
    all.insert(all.end(),ed.begin(),ed.end());
    string const& p=g_prop;
    bool half= w%2;
    if(p=="C01"||p=="C02") gen_parse(w,W,false);
    else if(p=="C03") { if(half) gen_parse(w,W,true); else gen_ops(w,W,{"set_encoded_url","set_encoded_origin","set_encoded_authority","set_encoded_userinfo","set_host","set_encoded_host","set_port","set_port_part","set_user","set_password","set_userinfo_part"},true); }
    else if(p=="C04"||p=="C10"||p=="C11"||p=="C12") { if(half) gen_parse(w,W,true); else gen_ops(w,W,p=="C10"? all: p=="C04"? std::vector<string>{"set_user","set_password","set_host","set_query","set_fragment","set_encoded_user","set_encoded_password","set_encoded_host","set_encoded_query","set_encoded_fragment","seg_insert","set_encoded_path"}: std::vector<string>{"set_query","set_encoded_query","set_query_part","set_encoded_url","set_fragment","set_encoded_path"},true); }
    else if(p=="C05") gen_ops(w,W,{"set_user","set_password","set_host","set_query","set_fragment","seg_insert","seg_replace"},true);
    else if(p=="C06"||p=="C07") gen_ops(w,W,set,true);
    else if(p=="C08"||p=="C09") gen_ops(w,W,all,true);
    else if(p=="C13") gen_ops(w,W,ed,true);
    else if(p=="C14"||p=="*") { if(half) gen_parse(w,W,true); else gen_ops(w,W,all,true); }
    else if(p=="C15") gen_storage(w,W);
    else if(p=="C16") gen_pool(w,W);
    else if(p=="C17") gen_scheme(w,W);
    else if(p=="C18") { if(half) gen_parse(w,W,true); else gen_ops(w,W,{"set_port_n","set_port","set_port_part","set_encoded_authority","set_host","set_user"},true); }
}
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options(){ return "halt_on_error=1:print_stacktrace=0"; }

int main(int argc,char** argv)
{
    if(argc>=4&&string(argv[1])=="--replay"){
        g_prop=argv[2]; g_search=false; g_verbose=true; g_end=std::chrono::steady_clock::now()+std::chrono::hours(1);
        g_sh=(Shared*)std::calloc(1,sizeof(Shared));
        int rc=0;
        for(auto& c: load(argv[3])){
            std::cout<<human(c)<<std::flush;
            try { go(c); std::cout<<"ok\n"; } catch(Fail const& f){ std::cout<<"FAILS: "<<f.what<<"\n"; rc=1; }
        }
        return rc;
    }
    if(argc<4){ std::fprintf(stderr,"usage\n"); return 2; }
    g_prop=argv[1]; double secs=std::atof(argv[2]); unsigned long seed=std::strtoul(argv[3],nullptr,10);
    char const* file= argc>4? argv[4]: nullptr;
    unsigned W=8;
    std::vector<Shared*> sh(W); std::vector<pid_t> pid(W);
    for(unsigned w=0;w<W;++w){
        sh[w]=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        std::fflush(stdout);
        pid[w]=fork();
        if(pid[w]==0){
            g_sh=sh[w]; rng.seed(seed*1000+w);
            g_end=std::chrono::steady_clock::now()+std::chrono::milliseconds((long)(secs*1000));
            alarm((unsigned)secs+20);
            if(!freopen("/dev/null","w",stdout)) std::_Exit(0);
            string ef="/tmp/hunt."+std::to_string(getppid())+"."+std::to_string(w)+".err";
            if(!freopen(ef.c_str(),"w",stderr)) std::_Exit(0);
            try { search(w,W,file); } catch(TimeUp const&){}
            std::_Exit(0);
        }
    }
    int rc=0; unsigned long long n=0; string best;
    for(unsigned left=W;left;--left){
        int st; pid_t p=wait(&st); if(p<0) break;
        for(unsigned w=0;w<W;++w) if(pid[w]==p){
            n+=sh[w]->n;
            string ef="/tmp/hunt."+std::to_string(getpid())+"."+std::to_string(w)+".err";
            bool killed= WIFSIGNALED(st) && (WTERMSIG(st)==SIGTERM);
            if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0) && !killed && !rc){
                rc=1;
                string what;
                if(sh[w]->found) what=sh[w]->what;
                else { std::ifstream e(ef); string l; what="crash:"; int k=0; while(std::getline(e,l)&&k<12) if(!l.empty()){ what+=" | "+l; ++k; } if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) what="does not terminate "+what; }
                std::printf("FOUND %s\n%.*s",what.c_str(),(int)sh[w]->len,sh[w]->cur);
                for(unsigned v=0;v<W;++v) if(v!=w) kill(pid[v],SIGTERM);
            }
            std::remove(ef.c_str());
        }
    }
    std::printf("CASES %llu\n",n);
    return rc;
}
