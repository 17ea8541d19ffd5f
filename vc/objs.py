"""Entry states: url_view and url objects in any state their invariant allows,
and the contracts of the observers."""
import z3
from contract import *
import spec as S
import leaf as L
import url as U
from leaf import at
from pub import pub

class Obj:
    """an object and its specification-level parts"""
    def __init__(s, **k): s.__dict__.update(k)
def mk_offs(X, st):
    o = [0] + [z3.Int('o%d' % i) for i in range(1, 9)]
    ns, np, h = z3.Int('nseg'), z3.Int('nparam'), z3.Int('host')
    st.fact(z3.And(*[tz(o[i]) <= o[i+1] for i in range(8)])); st.fact(o[8] < (1 << 46))
    st.fact(z3.And(ns >= 0, np >= 0, ns <= o[8], np <= o[8], h >= 0, h <= 4))
    st.g['show'] = dict(st.g.get('show', {}), **{'o%d' % i: o[i] for i in range(1, 9)}, nseg=ns, nparam=np, host=h)
    return o, ns, np, h
def cells_parts(base, o, ns, np, h):
    m = {}
    for i in range(9): m[base + 8*i] = (8, si(o[i], 64, 0, 1 << 46))
    m[base + 72] = (8, si(ns, 64, 0, 1 << 46)); m[base + 80] = (8, si(np, 64, 0, 1 << 46)); m[base + 88] = (4, si(h, 32, 0, 4))
    return m
def mk_view(X, st, full):
    """a url_view: default constructed, or of a text that is a URL"""
    q = X.region(st, 'view', 'cells', 104); h0 = X.m.host['none']
    if not full:
        st.mem[q.id] = {0: (8, NULL), **cells_parts(8, [0]*9, 0, 0, h0)}
        return Obj(p=P(q, 0), r=None, C=None, o=[0]*9, ns=0, np=0, h=h0, pt=P(q, 8))
    o, ns, np, h = mk_offs(X, st)
    r = mk_bytes(X, st, 'url', o[8]); C = st.mem[r.id]
    st.mem[q.id] = {0: (8, P(r, 0)), **cells_parts(8, o, ns, np, h)}
    for nm, c in U.wf(X, st, C, o, ns, np, h): st.fact(bz(c))
    return Obj(p=P(q, 0), r=r, C=C, o=o, ns=ns, np=np, h=h, pt=P(q, 8))
def mk_url(X, st, full):
    """a url: nothing stored yet, or the invariant's text in its storage"""
    q = X.region(st, 'obj', 'cells', 112); sg = X.region(st, 'store', 'storage', 0); h0 = X.m.host['none']
    if not full:
        # capacity may have been reserved before, by the owner of the storage
        st.mem[sg.id] = {'size': 0, 'cap': 0, 'buf': NULL}
        st.mem[q.id] = {0: (8, P(sg, 0)), 104: (8, NULL), **cells_parts(8, [0]*9, 0, 0, h0)}
        return Obj(p=P(q, 0), r=None, C=None, o=[0]*9, ns=0, np=0, h=h0, pt=P(q, 8), sg=sg)
    o, ns, np, h = mk_offs(X, st); cap = z3.Int('cap'); st.fact(z3.And(o[8] <= cap, cap < (1 << 46)))
    r = mk_bytes(X, st, 'url', tadd(cap, 1)); C = st.mem[r.id]
    st.mem[sg.id] = {'size': o[8], 'cap': cap, 'buf': P(r, 0)}
    st.mem[q.id] = {0: (8, P(sg, 0)), 104: (8, P(r, 0)), **cells_parts(8, o, ns, np, h)}
    for nm, c in U.wf(X, st, C, o, ns, np, h): st.fact(bz(c))
    st.fact(bz(eq(at(st, C, o[8]), 0)))
    return Obj(p=P(q, 0), r=r, C=C, o=o, ns=ns, np=np, h=h, pt=P(q, 8), sg=sg, cap=cap)
MK = {'V': mk_view, 'U': mk_url}

def span(X, f, v, u, a, b):
    """v is the string_view of [a, b) of the object's text"""
    if not isinstance(v, Agg) or len(v.v) != 2: return False
    p, n = v.v; n = f.uns(n); d = tsub(b, a)
    if not isinstance(p, P): return False
    if p.r is not u.r or p.r is None: return band(eq(n, d), eq(n, 0))
    return band(eq(n, d), bor(eq(n, 0), eq(X.off(f, p.o), a)))
# the text of every observer: f(offsets) -> (begin, end)
def has_auth(o): return gt(o[5], o[1])
def has_ui(o): return gt(o[3], o[2])
IF = ite
RANGES = dict(
    encoded_url=lambda o: (o[0], o[8]),
    encoded_origin=lambda o: (o[0], o[5]),
    scheme=lambda o: (o[0], IF(gt(o[1], o[0]), tsub(o[1], 1), o[0])),
    encoded_authority=lambda o: (IF(has_auth(o), tadd(o[1], 2), o[5]), o[5]),
    userinfo_part=lambda o: (IF(has_ui(o), tadd(o[1], 2), o[3]), o[3]),
    encoded_userinfo=lambda o: (IF(has_ui(o), tadd(o[1], 2), o[3]), IF(has_ui(o), tsub(o[3], 1), o[3])),
    encoded_user=lambda o: (IF(has_auth(o), tadd(o[1], 2), o[2]), o[2]),
    encoded_password=lambda o: (IF(ge(o[3], tadd(o[2], 2)), tadd(o[2], 1), o[3]), IF(ge(o[3], tadd(o[2], 2)), tsub(o[3], 1), o[3])),
    password_part=lambda o: (o[2], IF(has_ui(o), tsub(o[3], 1), o[3])),
    encoded_host=lambda o: (o[3], o[4]),
    encoded_host_and_port=lambda o: (o[3], o[5]),
    port=lambda o: (IF(gt(o[5], o[4]), tadd(o[4], 1), o[5]), o[5]),
    port_part=lambda o: (o[4], o[5]),
    encoded_path=lambda o: (o[5], o[6]),
    query_part=lambda o: (o[6], o[7]),
    encoded_query=lambda o: (IF(gt(o[7], o[6]), tadd(o[6], 1), o[7]), o[7]),
    fragment_part=lambda o: (o[7], o[8]),
    encoded_fragment=lambda o: (IF(gt(o[8], o[7]), tadd(o[7], 1), o[8]), o[8]))
class Obs(Contract):
    public = True; kind = 'V'
    def entries(s, X, st):
        out = []
        for full in (False, True):
            t = st.copy(); u = MK[s.kind](X, t, full); t.g['u'] = u
            out.append((t, s.args(X, t, u)))
        return out
    def args(s, X, st, u): return [u.p]
class Getter(Obs):
    tags = ('C02',)
    def spec(s, X, st, v):
        u = st.g['u']
        def post(X, f):
            a, b = RANGES[s.get](u.o)
            return [(span(X, f, f.final[1], u, a, b), 'the characters of ' + s.get, None)]
        return [Out(True, ANY, post=post)]
class Flag(Obs):
    tags = ('C02',)
    def spec(s, X, st, v):
        u = st.g['u']; e = {'has_authority': has_auth, 'has_userinfo': has_ui, 'size': lambda o: o[8]}
        r = u.h if s.get == 'host_type' else e[s.get](u.o)
        if s.get == 'size' or s.get == 'host_type': return [Out(True, si(r, 64, 0, 1 << 46))]
        return [Out(r, 1, name='present'), Out(bnot(r), 0, name='absent')]
for _k in 'VU':
    for _n in RANGES:
        if _n == 'password_part' and _k == 'V': continue
        pub(type('%s_%s' % (_k, _n), (Getter,), dict(kind=_k, get=_n, wrap='%s_%s' % (_k, _n))))
    for _n in ('has_authority', 'has_userinfo', 'host_type'):
        pub(type('%s_%s' % (_k, _n), (Flag,), dict(kind=_k, get=_n, wrap='%s_%s' % (_k, _n), tags=('C03',) if _n == 'host_type' else ('C02',))))
pub(type('U_size', (Flag,), dict(kind='U', get='size', wrap='U_size', tags=('C08',))))
@pub
class U_data(Obs):
    kind = 'U'; wrap = 'U_data'; tags = ('C08',)
    def spec(s, X, st, v):
        u = st.g['u']
        def post(X, f):
            p = f.final[1]
            if not isinstance(p, P) or p.r is None: return [(False, 'data() is not null', None)]
            if u.r is None:
                C = X.content(f, p.r); return [(band(eq(p.o, 0) if isint(p.o) else False, eq(C.at(f, 0), 0)), 'empty text is null-terminated', None)]
            return [(band(p.r is u.r, eq(X.off(f, p.o), 0)), 'data() is the stored text', None)]
        return [Out(True, ANY, post=post)]

# ---------------------------------------------------------------- decoded observers
def str_is(X, f, sp, C, a, b, dec, tags=None):
    """the std::string at sp is the text [a, b) of C, percent-decoded if dec"""
    M = f.mem[sp.r.id]
    if sp.o not in M or sp.o + 8 not in M: return [(False, 'a string is returned', tags)]
    d, n = M[sp.o][1], f.uns(M[sp.o + 8][1])
    if C is None: return [(eq(n, 0), 'empty string', tags)]
    want = S.decsize(f, C, a, b) if dec else tsub(b, a)
    out = [(eq(n, want), 'length', tags)]
    t = f.copy(); t.final = f.final; k = X.fresh('K'); t.fact(z3.And(k >= 0, k < tz(n), bz(eq(n, want))))
    D = X.content(t, d.r); o = X.off(t, d.o); t.mark(D, tadd(o, k))
    w = S.decchar(t, C, a, k) if dec else at(t, C, tadd(a, k))
    X.oblige(t, eq(D.at(t, tadd(o, k)), w), tags or X.ct.tags, X.ct.name + ': characters')
    return out
DECODED = dict(user='encoded_user', password='encoded_password', host='encoded_host', query='encoded_query', fragment='encoded_fragment')
class Decoded(Obs):
    tags = ('C04',); reveal = {'A'}
    def args(s, X, st, u):
        q = X.region(st, 'out:str', 'cells', 32); st.g['sret'] = P(q, 0)
        return [P(q, 0), u.p]
    def spec(s, X, st, v):
        u = st.g['u']; a, b = RANGES[DECODED[s.get]](u.o)
        name = eq(u.h, X.m.host['name']) if s.get == 'host' else True
        post = lambda d: lambda X, f: str_is(X, f, v[0], u.C, a, b, d)
        return [Out(name, ANY, post=post(True), name='decoded'), Out(bnot(name), ANY, post=post(False), name='literal'), Out(True, exc='bad_alloc', maybe=True)]
for _k in 'VU':
    for _n in DECODED: pub(type('%s_%s' % (_k, _n), (Decoded,), dict(kind=_k, get=_n, wrap='%s_%s' % (_k, _n))))

# ---------------------------------------------------------------- construction
def parts_at(f, p):
    """offsets, segments, parameters and host type of the parts object at p"""
    M = f.mem[p.r.id]; b = p.o
    return [f.uns(M[b + 8*i][1]) for i in range(9)], f.uns(M[b + 72][1]), f.uns(M[b + 80][1]), f.uns(M[b + 88][1])
@pub
class V_ctor(Contract):
    public = True; wrap = 'V_ctor'; tags = ('C01', 'C02', 'C03')
    def entries(s, X, st):
        out = []
        for null in (True, False):
            t = st.copy(); u = mk_view(X, t, False); a = [NULL, 0] if null else mk_str(X, t)
            out.append((t, a + [u.p]))
        return out
    def spec(s, X, st, v):
        p, n, w = v; n = st.uns(n); C = X.content(st, p.r) if p.r else None
        ok = U.okurl(st, C, 0, n) if p.r else True
        def post(X, f):
            o, ns, np, h = parts_at(f, P(w.r, 8)); q = f.mem[w.r.id][0][1]
            out = [(veq(X, f, q, p) if p.r else True, 'refers to the given text', ('C02',)), (band(eq(o[0], 0), eq(o[8], n)), 'covers the given text', ('C02',))]
            if p.r is None: return out + [(band(*[eq(x, 0) for x in o] + [eq(ns, 0), eq(np, 0), eq(h, X.m.host['none'])]), 'empty', ('C02',))]
            return out + [(c, 'components: ' + nm, ('C02', 'C03')) for nm, c in U.wf(X, f, C, o, ns, np, h)]
        W = [(P(w.r, 0), 8, ANY)] + [(P(w.r, 8*i), 8, Havoc()) for i in range(1, 12)] + [(P(w.r, 96), 4, Havoc())]
        return [Out(ok, None, w=W, post=post, name='URI reference', tags=('C01',)), Out(bnot(ok), exc='invalid_part', name='anything else', tags=('C01',))]
