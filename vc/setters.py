"""Contracts of the modifiers of url.

An outcome names, for each of the eight parts of the URL, the pieces its new
text consists of: ranges of the old text, ranges of the argument, literal
characters, or the percent-encoding of the argument."""
import z3
from contract import *
import spec as S
import leaf as L
import url as U
from leaf import at
from pub import pub
from objs import *

def old(a, b): return ('old', a, b)
def arg(a, b): return ('arg', a, b)
def lit(s): return ('lit', s.encode())
def enc(T, a, b): return ('enc', a, b, T)
ALLT = ('C03', 'C05', 'C06', 'C07', 'C08', 'C09')

def pathok(st, C, sch, auth, a, e):
    """the path [a, e) fits a URL with or without scheme and authority"""
    if C is None: return True
    sl = U.ch(st, C, a, e, '/')
    return band(imp(auth, bor(eq(a, e), sl)), bor(auth, bnot(sl), bnot(U.ch(st, C, tadd(a, 1), e, '/'))), bor(auth, sch, sl, U.nocolon(st, C, a, e)))
class CheckPath(Contract):
    fnname = 'boost::urls::url_base::check_path(bool, bool) const'
    reveal = {'A'}
    def entries(s, X, st):
        out = []
        for k in range(4):
            t = st.copy(); u = mk_url(X, t, True); out.append((t, [u.p, k & 1, k >> 1]))
        return out
    def get(s, X, st, v):
        p = v[0]; M = st.mem[p.r.id]; q = M[p.o + 104][1]
        if q.r is None: raise Unsupported('nothing stored')
        if not all(isinstance(b, bool) or isint(b) or z3.is_bool(b) for b in v[1:]): raise Unsupported('flags')
        return q, st.uns(M[p.o + 48][1]), st.uns(M[p.o + 56][1])
    def pre(s, X, st, v):
        q, a, e = s.get(X, st, v); C = X.content(st, q.r)
        return [(band(eq(q.o, 0), ge(a, 0), le(a, e), le(e, q.r.size)), 'range'), (U.allp(st, C, S.PATH, a, e), 'characters of a path')]
    def spec(s, X, st, v):
        q, a, e = s.get(X, st, v); C = X.content(st, q.r)
        sch, auth = (X.bool(b) for b in v[1:])
        ok = pathok(st, C, sch, auth, a, e)
        return [Out(ok, name='fits'), Out(bnot(ok), exc='invalid_part', name='does not fit')]
class CountParams(Contract):
    fnname = L.D + 'count_params(%s)' % L.SV
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        return [P(r, a), si64(tsub(e, a))]
    def pre(s, X, st, v):
        if v[0].r is None: raise Unsupported('null')
        a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1]))
        return [(band(ge(a, 0), le(a, e), le(e, v[0].r.size)), 'range')]
    def spec(s, X, st, v):
        C = X.content(st, v[0].r); a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1]))
        return [Out(True, si(tadd(tsub(S.cnt(st, C, 38, e), S.cnt(st, C, 38, a)), 1), 64, 0, MAXOBJ))]
class MatchPath(Contract):
    reveal = {'A', 'N'}; kind = None
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        return [P(r, a), si64(tsub(e, a))]
    def pre(s, X, st, v):
        if v[0].r is None: raise Unsupported('null')
        a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1]))
        return [(band(ge(a, 0), lt(a, e), le(e, v[0].r.size)), 'range')]
    def spec(s, X, st, v):
        C = X.content(st, v[0].r); a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1])); sl = U.ch(st, C, a, e, '/')
        c = dict(abempty=[sl], absolute=[sl, bnot(U.ch(st, C, tadd(a, 1), e, '/'))], noscheme=[bnot(sl), U.nocolon(st, C, a, e)], rootless=[bnot(sl)])[s.kind]
        ok = band(U.allp(st, C, S.PATH, a, e), *c)
        ns = U.nseg(st, C, a, e)
        return [Out(ok, si(ns, 64, 0, MAXOBJ), name='path', facts=[ge(ns, 0), le(ns, tsub(e, a))]), Out(bnot(ok), exc='invalid_part', name='no path')]
for _k in ('abempty', 'absolute', 'noscheme', 'rootless'):
    L.LEAF.append(type('MatchPath_' + _k, (MatchPath,), dict(kind=_k, fnname=L.D + 'match_path_%s(%s)' % (_k, L.SV))))
def plain_host(st, A, n, a=0):
    """the text [a, n) is an IPv4 address, an IPv6 literal, an IPvFuture literal"""
    lit_ = eq(at(st, A, a), 91); q = tadd(a, 1); fut = U.ch(st, A, q, n, 'vV'); last = tsub(n, 1)
    P4 = U.dfb(st, 'P4', A, (a, n), lambda: band(bnot(lit_), eq(S.v4end(st, A, a, n, False), n)), 'plain')
    P6 = U.dfb(st, 'P6', A, (a, n), lambda: band(lit_, bnot(fut), eq(S.v6end(st, A, q, n, False), last)), 'plain')
    PF = U.dfb(st, 'PF', A, (a, n), lambda: band(lit_, fut, eq(S.vfend(st, A, q, n), last)), 'plain')
    return P4, P6, PF
class PlainHost(Contract):
    fnname = L.D + 'parse_plain_hostname(boost::urls::detail::parts&, %s)' % L.SV
    reveal = {'plain'}
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        return [mk_parts(X, st), P(r, a), si64(tsub(e, a))]
    def pre(s, X, st, v):
        if v[1].r is None: raise Unsupported('null')
        a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2]))
        return [(band(ge(a, 0), lt(a, e), le(e, v[1].r.size)), 'range')]
    def spec(s, X, st, v):
        C = X.content(st, v[1].r); a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2])); H = X.m.host
        P4, P6, PF = plain_host(st, C, e, a); I = z3.IntVal
        t = z3.If(P4, I(H['ipv4']), z3.If(P6, I(H['ipv6']), z3.If(PF, I(H['ipvfuture']), I(H['name']))))
        return [Out(True, w=[(P(v[0].r, tadd(v[0].o, 88)), 4, SI(t, 32, 0, 4))])]
L.LEAF += [CheckPath, CountParams, PlainHost]

class New:
    """an expected state: eight lists of pieces, number of segments and parameters, host type"""
    def __init__(s, parts, ns, np, h): s.parts, s.ns, s.np, s.h = parts, ns, np, h
class K:
    """what a setter's specification can use"""
    def __init__(s, X, st, u, A, n):
        s.X, s.st, s.u, s.A, s.n, s.o = X, st, u, A, n, u.o
        o = u.o; s.sch = gt(o[1], o[0]); s.auth = gt(o[5], o[1]); s.ui = gt(o[3], o[2]); s.port = gt(o[5], o[4])
        s.H = X.m.host; s.lem = []     # consequences that the contracts of the parser state
    def keep(s, i): return [old(s.o[i], s.o[i+1])]
    def new(s, ch={}, ns=None, np=None, h=None):
        """the old URL with the parts in ch replaced"""
        return New([ch.get(i, s.keep(i)) for i in range(8)], s.u.ns if ns is None else ns, s.u.np if np is None else np, s.u.h if h is None else h)
    def at(s, i): return at(s.st, s.A, i)
    def fits(s, sch, auth): return pathok(s.st, s.u.C, sch, auth, s.o[5], s.o[6])
    def allp(s, T, a, b): return U.allp(s.st, s.A, T, a, b)

def plen(k, p):
    if p[0] in ('lit', 'dec'): return len(p[1])
    if p[0] == 'enc': return S.encsize(k.st, k.A, p[3], p[1], p[2])
    return tsub(p[2], p[1])
def layout(k, new):
    """offsets of the new parts, and (position, length, piece) of the text"""
    o = [0]; out = []; x = 0
    for ps in new.parts:
        for p in ps:
            n = plen(k, p)
            if isint(n) and n == 0: continue
            if p[0] == 'old' and out and out[-1][2][0] == 'old' and eq(out[-1][2][2], p[1]) is True:
                a, m, q = out[-1]; out[-1] = (a, tadd(m, n), old(q[1], p[2]))
            else: out.append((x, n, p))
            x = tadd(x, n)
        o.append(x)
    return o, out
def pchar(k, t, p, i, guard):
    """i-th character of piece p"""
    if p[0] in ('lit', 'dec'):
        e = p[1][-1]
        for j in range(len(p[1]) - 1): e = ite(eq(i, j), p[1][j], e)
        return e
    if p[0] == 'low': return S.tab(at(t, k.u.C, tadd(p[1], i)), LOWER)
    if p[0] == 'enc': return S.encchar(t, k.A, p[3], p[1], p[2], i, guard)
    C = k.u.C if p[0] == 'old' else k.A
    return at(t, C, tadd(p[1], i))

def check(k, X, f, new, T, pieces=None):
    """the object is in the state new: obligations, tagged by T(what)"""
    u = k.u; M = f.mem[u.p.r.id]; sg = f.mem[u.sg.id]; out = []; nm = X.ct.name
    if isinstance(new, Parsed): return new.check(k, X, f, T)
    o, ps = layout(k, new); ps = pieces or ps; O, ns, np, h = parts_at(f, P(u.p.r, 8))
    q = M[104][1]
    out.append((veq(X, f, M[0][1], P(u.sg, 0)), 'same storage', T('store')))
    for i in range(9): out.append((eq(O[i], o[i]), 'offset %d' % i, T('offset')))
    out.append((eq(ns, new.ns), 'number of segments', T('nseg'))); out.append((eq(np, new.np), 'number of parameters', T('nparam')))
    out.append((eq(h, new.h), 'host type', T('host')))
    if not isinstance(q, P) or q.r is None:
        return out + [(eq(o[8], 0), 'text', T('text')), (band(eq(sg['size'], 0), sg['buf'].r is None), 'storage', T('store'))]
    b = sg['buf']
    if b.r is not q.r or q.r.id in f.dead: return out + [(False, 'text is in the storage', T('store'))]
    D = X.content(f, q.r)
    out.append((band(eq(X.off(f, q.o), 0), eq(X.off(f, b.o), 0), eq(q.r.size, tadd(sg['cap'], 1)), eq(sg['size'], o[8]), le(o[8], sg['cap'])), 'storage holds the text', T('store')))
    f.mark(D, o[8]); out.append((eq(D.at(f, o[8]), 0), 'null-terminated', T('store')))
    for x, n, p in ps:
        if u.C is D and p[0] == 'old' and eq(x, p[1]) is True: continue
        t = f.copy(); t.final = f.final; i = X.fresh('K'); t.fact(bz(band(ge(i, 0), lt(i, n))))
        y = tadd(x, i); t.mark(D, y)
        X.oblige(t, eq(D.at(t, y), pchar(k, t, p, i, True)), T('text'), '%s: %s characters' % (nm, p[0]))
    return out

class Setter(Obs):
    kind = 'U'; tags = ('C03', 'C06', 'C07', 'C08', 'C09'); reveal = {'A'}; extra = ()
    def entries(s, X, st):
        out = []
        for full in (False, True):
            for null in (True, False):
                t = st.copy(); u = mk_url(X, t, full); t.g['u'] = u
                out.append((t, [u.p] + ([NULL, 0] if null else mk_str(X, t))))
        return out
    def T(s, ok):
        d = dict(offset=('C06', 'C08'), text=('C06', 'C08') + tuple(s.extra), host=('C03', 'C08', 'C06'), nseg=('C08', 'C06', 'C10'), nparam=('C08', 'C06', 'C11'), store=('C08',))
        return lambda w: tuple(d[w]) if ok else ('C09',)
    def k(s, X, st, v):
        p, n = v[1], st.uns(v[2])
        return K(X, st, st.g['u'], X.content(st, p.r) if p.r else None, n)
    def spec(s, X, st, v):
        k = s.k(X, st, v); u = k.u; free = [u.p.r, u.sg, u.r]
        same = k.new()
        bad = lambda X, f: check(k, X, f, same, s.T(False))
        outs = []
        for c in s.cases(k):
            g, new = c[0], c[1]; name = c[2] if len(c) > 2 else ''
            if new is None: outs.append(Out(g, exc='invalid_part', name=name or 'rejected', tags=('C07',) + tuple(s.extra), free=free, post=bad))
            else: outs.append(Out(g, ANY, name=name or 'accepted', tags=('C07',) + tuple(s.extra), free=free, post=lambda X, f, new=new: check(k, X, f, new, s.T(True))))
        for e in ('bad_alloc', 'too_large'): outs.append(Out(True, exc=e, maybe=True, tags=('C09',), free=free, post=bad))
        return outs
def setter(name, cases, extra=(), **kw):
    t = tuple(dict.fromkeys(Setter.tags + tuple(extra)))
    return pub(type('U_' + name, (Setter,), dict(wrap='U_' + name, cases=lambda s, k: cases(k), extra=tuple(extra), tags=t, **kw)))

def branches(*bs):
    """(guard, outcome)... tried in order"""
    out = []; rest = True
    for b in bs:
        out.append((band(rest, b[0]),) + tuple(b[1:])); rest = band(rest, bnot(b[0]))
    return out
# ---- query and fragment
def c_query(a, plain):
    def f(k):
        n = k.n
        if k.A is None: return [(True, k.new({6: []}, np=0))]
        np = tadd(tsub(S.cnt(k.st, k.A, 38, n), S.cnt(k.st, k.A, 38, a)), 1)
        body = enc(S.QF, a, n) if plain else arg(a, n)
        bs = [(eq(n, 0), k.new({6: []}, np=0), 'empty')]
        if a: bs.append((ne(k.at(0), 63), None, 'no question mark'))
        if not plain: bs.append((bnot(k.allp(S.QF, a, n)), None, 'invalid'))
        return branches(*bs, (True, k.new({6: [lit('?'), body]}, np=np)))
    return f
def c_frag(a, plain):
    def f(k):
        n = k.n
        if k.A is None: return [(True, k.new({7: []}))]
        body = enc(S.QF, a, n) if plain else arg(a, n)
        bs = [(eq(n, 0), k.new({7: []}), 'empty')]
        if a: bs.append((ne(k.at(0), 35), None, 'no hash'))
        if not plain: bs.append((bnot(k.allp(S.QF, a, n)), None, 'invalid'))
        return branches(*bs, (True, k.new({7: [lit('#'), body]})))
    return f
setter('set_query', c_query(0, True), ('C05', 'C11')); setter('set_encoded_query', c_query(0, False), ('C11',)); setter('set_query_part', c_query(1, False), ('C11',))
setter('set_fragment', c_frag(0, True), ('C05',)); setter('set_encoded_fragment', c_frag(0, False)); setter('set_fragment_part', c_frag(1, False))

# ---- whole URL and origin
def c_scheme(k):
    n = k.n
    drop = [(k.fits(False, k.auth), k.new({0: []}), 'empty'), (True, None, 'path needs the scheme')]
    if k.A is None: return branches(*drop)
    ok = band(gt(n, 0), inset(k.at(0), S.ALPHA), U.allr(k.st, k.A, S.SCHEME, 0, n))
    e = eq(n, 0)
    return branches((band(e, drop[0][0]), drop[0][1], 'empty'), (e, None, 'path needs the scheme'), (bnot(ok), None, 'invalid'), (True, k.new({0: [arg(0, n), lit(':')]})))
setter('set_scheme', c_scheme)
def c_authority(k):
    n = k.n; none = k.H['none']
    drop = k.new({1: [], 2: [], 3: [], 4: []}, h=none); f0 = k.fits(k.sch, False)
    if k.A is None: return branches((f0, drop, 'empty'), (True, None, 'path needs the authority'))
    ok, o2, o3, o4, o5, ty = U.g_auth(k.X, k.st, k.A, 0, n); e = eq(n, 0)
    if k.X.ct.lemma: k.lem = [imp(ok, c) for c in U.auth_wf(k.X, k.st, k.A, 0, o2, o3, o4, o5, ty) + [le(o5, n)]]
    return branches((band(e, f0), drop, 'empty'), (e, None, 'path needs the authority'), (bnot(band(ok, eq(o5, n))), None, 'invalid'), (bnot(k.fits(k.sch, True)), None, 'relative path'),
        (True, k.new({1: [lit('//'), arg(0, o2)], 2: [arg(o2, o3)], 3: [arg(o3, o4)], 4: [arg(o4, n)]}, h=ty)))
setter('set_encoded_authority', c_authority, ('C02',))
def c_userinfo(part):
    def f(k):
        o, n = k.o, k.n
        only = eq(o[3], o[5])      # nothing but the userinfo in the authority
        sl = [old(o[1], tadd(o[1], 2))] if k.u.C is not None else []
        drop = [(band(only, k.fits(k.sch, False)), k.new({1: [], 2: []}), 'empty, no authority'), (only, None, 'path needs the authority'), (True, k.new({1: sl, 2: []}), 'empty')]
        if k.A is None: return branches(*drop)
        m = tsub(n, 1) if part else n; e = eq(m, 0); bs = []
        if part: bs = [(band(eq(n, 0), g), x, nm) for g, x, nm in drop] + [(ne(at(k.st, k.A, m), 64), None, 'no @')]
        bs += [(band(e, g), x, nm) for g, x, nm in drop]
        U1 = S.fb(k.st, k.A, S.REGNAME, 0, m); U2 = S.fb(k.st, k.A, S.USERINFO, U1, m)
        return branches(*bs, (ne(U2, m), None, 'invalid'), (bnot(k.fits(k.sch, True)), None, 'relative path'), (True, k.new({1: [lit('//'), arg(0, U1)], 2: [arg(U1, m), lit('@')]})))
    return f
setter('set_encoded_userinfo', c_userinfo(False)); setter('set_userinfo_part', c_userinfo(True))
def slashes(k): return [old(k.o[1], tadd(k.o[1], 2))] if k.u.C is not None else []
def c_user(plain):
    def f(k):
        o, n = k.o, k.n; sl = slashes(k)
        drop = [(bnot(k.ui), k.new(), 'empty, none before'), (eq(o[3], tadd(o[2], 1)), k.new({1: sl, 2: []}), 'empty, no password'), (True, k.new({1: sl}), 'empty')]
        if k.A is None: return branches(*drop)
        bs = [(band(eq(n, 0), g), x, nm) for g, x, nm in drop]; body = enc(S.REGNAME, 0, n) if plain else arg(0, n)
        if not plain: bs.append((bnot(k.allp(S.REGNAME, 0, n)), None, 'invalid'))
        return branches(*bs, (k.ui, k.new({1: sl + [body]}), 'replaced'), (bnot(k.fits(k.sch, True)), None, 'relative path'), (True, k.new({1: [lit('//'), body], 2: [lit('@')]}), 'added'))
    return f
setter('set_user', c_user(True), ('C05',)); setter('set_encoded_user', c_user(False))
def c_password(plain, part=False):
    def f(k):
        o, n = k.o, k.n
        drop = [(bnot(k.ui), k.new(), 'empty, none before'), (eq(o[2], tadd(o[1], 2)), k.new({2: []}), 'empty, no user'), (True, k.new({2: [lit('@')]}), 'empty')]
        if k.A is None: return branches(*drop)
        bs = [(band(eq(n, 0), g), x, nm) for g, x, nm in drop]; a = 1 if part else 0
        if part: bs += [(ne(k.at(0), 58), None, 'no colon')]
        body = enc(S.USERINFO, a, n) if plain else arg(a, n)
        if not plain: bs += [(band(gt(n, a), eq(k.at(a), 58)), None, 'begins with a colon'), (bnot(k.allp(S.USERINFO, a, n)), None, 'invalid')]
        p2 = [lit(':'), body, lit('@')]
        return branches(*bs, (k.auth, k.new({2: p2}), 'replaced'), (bnot(k.fits(k.sch, True)), None, 'relative path'), (True, k.new({1: [lit('//')], 2: p2}), 'added'))
    return f
setter('set_password', c_password(True), ('C05',)); setter('set_encoded_password', c_password(False)); setter('set_password_part', c_password(False, True))
def c_host(plain):
    def f(k):
        o, n = k.o, k.n; none = k.H['none']
        only = band(k.auth, eq(o[3], tadd(o[1], 2)), eq(o[4], o[5]))
        drop = [(band(only, k.fits(k.sch, False)), k.new({1: [], 2: [], 3: [], 4: []}, h=none), 'empty, no authority'), (only, None, 'path needs the authority'), (True, k.new({3: []}, h=none), 'empty')]
        if k.A is None: return branches(*drop)
        bs = [(band(eq(n, 0), g), x, nm) for g, x, nm in drop]; st, A = k.st, k.A; out = []
        def put(g, body, h):
            return [(band(g, k.auth), k.new({3: [body]}, h=h), 'replaced'), (band(g, bnot(k.fits(k.sch, True))), None, 'relative path'), (g, k.new({1: [lit('//')], 3: [body]}, h=h), 'added')]
        if not plain:
            ok, end, ty = U.g_host(k.X, st, A, 0, n)
            if k.X.ct.lemma: k.lem = [imp(ok, c) for c in U.host_facts(k.X, st, A, 0, n, end, ty)]
            return branches(*bs, (bnot(band(ok, eq(end, n))), None, 'invalid'), *put(True, arg(0, n), ty))
        v4, v6, vf = plain_host(st, A, n)
        return branches(*bs, *put(v4, arg(0, n), k.H['ipv4']), *put(v6, arg(0, n), k.H['ipv6']), *put(vf, arg(0, n), k.H['ipvfuture']), *put(True, enc(S.REGNAME, 0, n), k.H['name']))
    return f
setter('set_host', c_host(True), ('C05',)); setter('set_encoded_host', c_host(False))
def c_port(part):
    def f(k):
        o, n = k.o, k.n; only = band(k.auth, eq(o[4], tadd(o[1], 2)))
        drop = [(band(only, k.fits(k.sch, False)), k.new({1: [], 2: [], 3: [], 4: []}), 'empty, no authority'), (only, None, 'path needs the authority'), (True, k.new({4: []}), 'empty')]
        if k.A is None: return branches(*drop)
        bs = [(band(eq(n, 0), g), x, nm) for g, x, nm in drop]; a = 1 if part else 0
        if part: bs.append((ne(k.at(0), 58), None, 'no colon'))
        return branches(*bs, (bnot(U.allr(k.st, k.A, S.DIGIT, a, n)), None, 'invalid'), (k.auth, k.new({4: [lit(':'), arg(a, n)]}), 'replaced'),
            (bnot(k.fits(k.sch, True)), None, 'relative path'), (True, k.new({1: [lit('//')], 4: [lit(':'), arg(a, n)]}), 'added'))
    return f
setter('set_port', c_port(False), ('C18',)); setter('set_port_part', c_port(True), ('C18',))
def c_path(k):
    n = k.n
    if k.A is None: return [(True, k.new({5: []}, ns=0))]
    ok = band(k.allp(S.PATH, 0, n), pathok(k.st, k.A, k.sch, k.auth, 0, n))
    return branches((eq(n, 0), k.new({5: []}, ns=0), 'empty'), (bnot(ok), None, 'invalid'), (True, k.new({5: [arg(0, n)]}, ns=U.nseg(k.st, k.A, 0, n))))
setter('set_encoded_path', c_path, ('C10',), reveal=frozenset())

def c_origin(k):
    n, X, st = k.n, k.X, k.st
    drop = [(k.fits(False, False), k.new({i: [] for i in range(5)}, h=k.H['none']), 'empty'), (True, None, 'path needs the origin')]
    if k.A is None: return branches(*drop)
    F = S.run(st, k.A, S.SCHEME, 0, n); sch = band(U.ch(st, k.A, 0, n, U.AZ), U.ch(st, k.A, F, n, ':')); a = tadd(F, 1)
    ok, o, ns, ty, _ = U.g_hier(X, st, k.A, True, a, n); e = eq(n, 0)
    if X.ct.lemma: k.lem = [imp(band(sch, ok), c) for c in U.hier_facts(X, st, k.A, True, a, n, o, ns, ty)]
    return branches((band(e, drop[0][0]), drop[0][1], 'empty'), (e, None, 'path needs the origin'), (bnot(sch), None, 'no scheme'), (bnot(band(ok, eq(o[4], n))), None, 'invalid'),
        (bnot(k.fits(True, gt(o[3], a))), None, 'path does not fit'),
        (True, k.new({0: [arg(0, a)], 1: [arg(a, o[0])], 2: [arg(o[0], o[1])], 3: [arg(o[1], o[2])], 4: [arg(o[2], o[3])]}, h=ty)))
setter('set_encoded_origin', c_origin)
class Parsed:
    """the argument, with the components of the grammar"""
    def check(s, k, X, f, T):
        O, ns, np, h = parts_at(f, P(k.u.p.r, 8))
        new = New([[arg(O[i], O[i+1])] for i in range(8)], ns, np, h)
        W = [(c, 'components: ' + nm, ('C03', 'C08', 'C06', 'C02')) for nm, c in U.wf(X, f, k.A, O, ns, np, h)]
        return check(k, X, f, new, T, [(0, k.n, arg(0, k.n))]) + W + [(band(eq(O[0], 0), eq(O[8], k.n)), 'all of the text', ('C08', 'C06'))]
def c_url(k):
    none = New([[] for _ in range(8)], 0, 0, k.H['none'])
    if k.A is None: return [(True, none, 'empty')]
    ok = U.okurl(k.st, k.A, 0, k.n)
    return branches((eq(k.n, 0), none, 'empty'), (bnot(ok), None, 'not a URI reference'), (True, Parsed(), 'URI reference'))
setter('set_encoded_url', c_url, ('C01', 'C02', 'C10', 'C11'))
@pub
class U_ctor(Setter):
    wrap = 'U_ctor'; extra = ('C01', 'C02'); tags = ('C01', 'C02', 'C03', 'C08')
    def cases(s, k): return c_url(k)
    def entries(s, X, st):
        out = []
        for null in (True, False):
            t = st.copy(); u = mk_url(X, t, False); t.mem[u.p.r.id] = {}; t.g['u'] = u
            out.append((t, [u.p, P(u.sg, 0)] + ([NULL, 0] if null else mk_str(X, t))))
        return out
    def k(s, X, st, v):
        p, n = v[2], st.uns(v[3])
        return K(X, st, st.g['u'], X.content(st, p.r) if p.r else None, n)
    def spec(s, X, st, v):
        out = Setter.spec(s, X, st, v)
        for o in out:
            if o.exc: o.post = None; o.tags = ('C01',)
            else: o.tags = ('C01',)
        return out
@pub
class U_ctor0(U_ctor):
    wrap = 'U_ctor0'
    def entries(s, X, st):
        t = st.copy(); u = mk_url(X, t, False); t.mem[u.p.r.id] = {}; t.g['u'] = u
        return [(t, [u.p, P(u.sg, 0)])]
    def k(s, X, st, v): return K(X, st, st.g['u'], None, 0)
@pub
class U_set_portn(Setter):
    wrap = 'U_set_portn'; extra = ('C18',); tags = Setter.tags + ('C18',); unroll = 12
    def entries(s, X, st):
        out = []
        for full in (False, True):
            t = st.copy(); u = mk_url(X, t, full); t.g['u'] = u; n = X.freshsi(t, 32, 'n'); t.g['show'] = dict(t.g.get('show', {}), n=n.e)
            out.append((t, [u.p, n]))
        return out
    def k(s, X, st, v): return K(X, st, st.g['u'], None, st.uns(v[1]))
    def cases(s, k):
        n = tz(k.n); out = []
        for d in range(1, 11):
            g = band(n >= (10**(d-1) if d > 1 else 0), n < 10**d)
            # the quotients by repeated division
            q = [n]
            for i in range(d - 1): q.append(q[-1] / 10)
            p4 = [lit(':'), ('dec', [48 + (q[d-1-i] % 10 if i else q[d-1]) for i in range(d)])]
            out += [(band(g, k.auth), k.new({4: p4}), 'replaced %d' % d), (band(g, bnot(k.auth), bnot(k.fits(k.sch, True))), None, 'relative path'), (band(g, bnot(k.auth), k.fits(k.sch, True)), k.new({1: [lit('//')], 4: p4}), 'added %d' % d)]
        return out
LOWER = tuple(i + 32 if 65 <= i <= 90 else i for i in range(256))
class Normalize(Setter):
    tags = ('C06', 'C08', 'C17'); extra = ('C17',)
    def entries(s, X, st): return Obs.entries(s, X, st)
    def k(s, X, st, v): return K(X, st, st.g['u'], None, 0)
    def cases(s, k):
        X, st, u = k.X, k.st, k.u
        if u.C is None: return [(True, k.new())]
        end = ite(gt(u.o[1], 0), tsub(u.o[1], 1), 0)
        low = lambda q, t, g: S.tab(at(q, u.C, t), LOWER)
        def hook(X, st, vars, bts):
            if bts != {u.r.id}: return None
            B = st.mem[u.r.id]
            def mk(w0, w): return lambda q: {u.r.id: Fun(B, w0, tsub(w(q), w0), lambda q, t, g: S.tab(B.at(q, tadd(w0, t)), LOWER))}
            return [mk(w0, w) for w0, w in L.movers(X, st, vars, u.r, 0)]
        L.hints(X, 6, hook)
        return [(True, k.new({0: [('low', 0, end), old(end, u.o[1])]}))]
for _n in ('normalize', 'normalize_scheme'): pub(type('U_' + _n, (Normalize,), dict(wrap='U_' + _n)))
