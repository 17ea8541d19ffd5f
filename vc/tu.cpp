// Verification translation unit: the library's own source, plus one wrapper per
// public operation so that inline functions and templates are emitted.
#include <boost/url.hpp>
#include <boost/url/src.hpp>
#include <boost/url/static_pool.hpp>
#include <cstddef>

template class boost::urls::detail::alloc_storage<std::allocator<char>>;

namespace vt {
using namespace boost::urls;
using sv = boost::urls::string_view;
using A = std::allocator<char>;
using V = url_view; using U = url_base;
template<class T> using seg_it = typename T::segments_type::iterator;
using VS = V::segments_type; using US = U::segments_type;
using VP = V::params_type; using UP = U::params_type;

#define GET(T, n) sv T##_##n(T const& u) { return u.n(); }
#define GETI(T, n) std::size_t T##_##n(T const& u) { return static_cast<std::size_t>(u.n()); }
#define DEC(T, n) std::string T##_##n(T const& u) { return u.n(); }
#define BOTH(M, n) M(V, n) M(U, n)
BOTH(GET, encoded_url) BOTH(GET, encoded_origin) BOTH(GET, scheme) BOTH(GET, encoded_authority)
BOTH(GET, encoded_userinfo) BOTH(GET, userinfo_part) BOTH(GET, encoded_user) BOTH(GET, encoded_password)
BOTH(GET, encoded_host) BOTH(GET, encoded_host_and_port) BOTH(GET, port) BOTH(GET, port_part)
BOTH(GET, encoded_path) BOTH(GET, encoded_query) BOTH(GET, query_part) BOTH(GET, encoded_fragment) BOTH(GET, fragment_part)
GET(U, password_part)
BOTH(GETI, has_authority) BOTH(GETI, has_userinfo) BOTH(GETI, host_type)
BOTH(DEC, user) BOTH(DEC, password) BOTH(DEC, host) BOTH(DEC, query) BOTH(DEC, fragment)
std::size_t U_size(U const& u) { return u.size(); }
char const* U_data(U const& u) { return u.data(); }
std::size_t U_capacity(U const& u) { return u.capacity(); }
std::size_t V_size(V const& u) { return u.size(); }
char const* V_data(V const& u) { return u.data(); }

// views of segments and parameters
void V_segments(V const& u, VS& r) { r = u.segments(); }
void U_csegments(U const& u, VS& r) { r = u.segments(); }
void V_params(V const& u, VP& r) { r = u.params(); }
void U_cparams(U const& u, VP& r) { r = u.params(); }
void U_segments(U& u, US& r) { r = u.segments(); }
void U_params(U& u, UP& r) { r = u.params(); }
std::size_t VS_size(VS const& s) { return s.size(); }
std::size_t US_size(US const& s) { return s.size(); }
std::size_t VS_empty(VS const& s) { return s.empty(); }
std::size_t US_empty(US const& s) { return s.empty(); }
std::size_t VP_size(VP const& s) { return s.size(); }
std::size_t UP_size(UP const& s) { return s.size(); }
std::size_t VP_empty(VP const& s) { return s.empty(); }
std::size_t UP_empty(UP const& s) { return s.empty(); }
#define ITER(S) \
  void S##_begin(S const& s, S::iterator& r) { r = s.begin(); } \
  void S##_end(S const& s, S::iterator& r) { r = s.end(); } \
  void S##_inc(S::iterator& i) { ++i; } \
  void S##_dec(S::iterator& i) { --i; } \
  void S##_pinc(S::iterator& i, S::iterator& r) { r = i++; } \
  void S##_pdec(S::iterator& i, S::iterator& r) { r = i--; } \
  std::size_t S##_eq(S::iterator const& i, S::iterator const& j) { return i == j; } \
  std::size_t S##_ne(S::iterator const& i, S::iterator const& j) { return i != j; }
ITER(VS) ITER(US) ITER(VP) ITER(UP)
sv VS_enc(VS::iterator const& i) { return (*i).encoded_string(); }
sv US_enc(US::iterator const& i) { return (*i).encoded_string(); }
std::string VS_str(VS::iterator const& i) { return (*i).string(); }
std::string US_str(US::iterator const& i) { return (*i).string(); }
sv VS_aenc(VS::iterator const& i) { return i->encoded_string(); }
sv US_aenc(US::iterator const& i) { return i->encoded_string(); }
#define PAR(S) \
  sv S##_ekey(S::iterator const& i) { return (*i).encoded_key(); } \
  sv S##_evalue(S::iterator const& i) { return (*i).encoded_value(); } \
  sv S##_aekey(S::iterator const& i) { return i->encoded_key(); } \
  sv S##_aevalue(S::iterator const& i) { return i->encoded_value(); } \
  std::pair<std::string const, std::string> S##_pair(S::iterator const& i) { return *i; } \
  std::string S##_key(S::iterator const& i) { return (*i).key(); } \
  std::string S##_value(S::iterator const& i) { return (*i).value(); } \
  void S##_find(S const& s, sv k, S::iterator& r) { r = s.find(k); } \
  std::size_t S##_contains(S const& s, sv k) { return s.contains(k); } \
  std::size_t S##_count(S const& s, sv k) { return s.count(k); } \
  std::string S##_index(S const& s, sv k) { return s[k]; } \
  std::string S##_at(S const& s, sv k) { return s.at(k); }
PAR(VP) PAR(UP)

// construction and modification
void V_ctor(sv s, V& r) { r = V(s); }
void V_ctor0(V& r) { r = V(); }
template<class T> T* mk(void* p) { return ::new(p) T(); }
void VS_ctor0(void* p) { mk<VS>(p); }
void US_ctor0(void* p) { mk<US>(p); }
void VP_ctor0(void* p) { mk<VP>(p); }
void UP_ctor0(void* p) { mk<UP>(p); }
void VS_it0(void* p) { mk<VS::iterator>(p); }
void US_it0(void* p) { mk<US::iterator>(p); }
void VP_it0(void* p) { mk<VP::iterator>(p); }
void UP_it0(void* p) { mk<UP::iterator>(p); }
using W = basic_url<A>;
void W_ctor0(void* p) { ::new(p) W(); }
void W_ctora(void* p) { ::new(p) W(A{}); }
void W_ctor(void* p, sv s) { ::new(p) W(s); }
void W_dtor(W& u) { u.~W(); }
extern "C" { extern const int vt_w_base; const int vt_w_base = sizeof(detail::storage_member<A>); }
struct ub : U { using U::U; };
void U_ctor(void* p, detail::storage& st, sv s) { ::new(p) U(st, s); }
void U_ctor0(void* p, detail::storage& st) { ::new(p) U(st); }
#define SET(n) void U_##n(U& u, sv s) { u.n(s); }
SET(set_encoded_url) SET(set_encoded_origin) SET(set_scheme) SET(set_encoded_authority) SET(set_encoded_userinfo)
SET(set_userinfo_part) SET(set_user) SET(set_encoded_user) SET(set_password) SET(set_encoded_password) SET(set_password_part)
SET(set_host) SET(set_encoded_host) SET(set_port) SET(set_port_part) SET(set_encoded_path)
SET(set_query) SET(set_encoded_query) SET(set_query_part) SET(set_fragment) SET(set_encoded_fragment) SET(set_fragment_part)
void U_set_portn(U& u, unsigned n) { u.set_port(n); }
void U_normalize(U& u) { u.normalize(); }
void U_normalize_scheme(U& u) { u.normalize_scheme(); }
void US_insert(US& s, US::iterator b, sv t, US::iterator& r) { r = s.insert(b, t); }
void US_insert_encoded(US& s, US::iterator b, sv t, US::iterator& r) { r = s.insert_encoded(b, t); }
void US_replace(US& s, US::iterator b, sv t, US::iterator& r) { r = s.replace(b, t); }
void US_replace_encoded(US& s, US::iterator b, sv t, US::iterator& r) { r = s.replace_encoded(b, t); }
void US_erase1(US& s, US::iterator b, US::iterator& r) { r = s.erase(b); }
void US_erase2(US& s, US::iterator b, US::iterator e, US::iterator& r) { r = s.erase(b, e); }
std::size_t S_special(sv s) { return is_special(s); }
std::size_t S_to_scheme(sv s) { return static_cast<std::size_t>(string_to_scheme(s)); }
sv S_to_string(std::size_t k) { return to_string(static_cast<scheme>(k)); }

// storage and pool
using AS = detail::alloc_storage<A>;
void AS_ctor(void* p) { ::new(p) AS(A{}); }
void AS_dtor(AS& s) { s.~AS(); }
std::size_t AS_capacity(AS const& s) { return s.AS::capacity(); }
std::size_t AS_size(AS const& s) { return s.AS::size(); }
char* AS_reserve(AS& s, std::size_t n) { return s.AS::reserve(n); }
char* AS_resize(AS& s, std::size_t n) { return s.AS::resize(n); }
template<class T> T* pool_alloc(basic_static_pool& p, std::size_t n) { return basic_static_pool::allocator_type<T>(p).allocate(n); }
void SP_ctor(void* p, char* b, std::size_t n) { ::new(p) basic_static_pool(b, n); }
char* SP_char(basic_static_pool& p, std::size_t n) { return pool_alloc<char>(p, n); }
std::uint16_t* SP_u16(basic_static_pool& p, std::size_t n) { return pool_alloc<std::uint16_t>(p, n); }
std::uint32_t* SP_u32(basic_static_pool& p, std::size_t n) { return pool_alloc<std::uint32_t>(p, n); }
std::uint64_t* SP_u64(basic_static_pool& p, std::size_t n) { return pool_alloc<std::uint64_t>(p, n); }
long double* SP_ld(basic_static_pool& p, std::size_t n) { return pool_alloc<long double>(p, n); }
extern "C" { extern const int vt_no_match; const int vt_no_match = static_cast<int>(error::no_match);
extern const int vt_host_none; const int vt_host_none = static_cast<int>(host_type::none);
extern const int vt_host_name; const int vt_host_name = static_cast<int>(host_type::name);
extern const int vt_host_ipv4; const int vt_host_ipv4 = static_cast<int>(host_type::ipv4);
extern const int vt_host_ipv6; const int vt_host_ipv6 = static_cast<int>(host_type::ipv6);
extern const int vt_host_ipvfuture; const int vt_host_ipvfuture = static_cast<int>(host_type::ipvfuture);
}
#define SCH(n) extern "C" { extern const int vt_scheme_##n; const int vt_scheme_##n = static_cast<int>(scheme::n); }
SCH(unknown) SCH(ftp) SCH(file) SCH(http) SCH(https) SCH(ws) SCH(wss)
} // vt
