"""The URI-reference grammar as a specification, the invariant of a URL object,
and the contracts of the functions that parse URLs.

Specification functions and predicates are named constants per (kind, text,
arguments); a contract sees the definition of a kind only if it reveals it."""
import z3
from contract import *
import spec as S
import leaf as L
from leaf import D, SV, EC, at, pget, ppre, setp, ecz, marked, havocp, ANYP, ERR

def name_(st, kind, C, args, sort):
    f = z3.Function('%s_%d' % (kind, C.id), *([z3.IntSort()]*len(args) + [sort()]))
    return f(*[tz(a) for a in args])
def shown(st, kind, grp): 
    r = st.X.ct.reveal
    return kind in r or grp in r or '*' in r
def dfn(st, kind, C, args, f, grp=None):
    """an integer constant, defined by f() where revealed"""
    v = name_(st, kind, C, args, z3.IntSort)
    if C.transfer is not None and C.transfer(st, kind, args, v): return v
    if f is not None and shown(st, kind, grp) and S._once(st, v.get_id()): st.X.keep.append(v); st.fact(v == tz(f()))
    return v
def dfb(st, kind, C, args, f, grp=None):
    """a truth value, defined by f() where revealed"""
    v = name_(st, kind, C, args, z3.BoolSort)
    if C.transfer is not None and C.transfer(st, kind, args, v): return v
    if f is not None and shown(st, kind, grp) and S._once(st, v.get_id()): st.X.keep.append(v); st.fact(v == bz(f()))
    return v
def ch(st, C, p, e, c):
    """p is before e and the character there is c (or in c)"""
    b = at(st, C, p)
    return band(lt(p, e), inset(b, S.cs(c)) if len(c) > 1 else eq(b, ord(c)))
def stop(st, C, F, e):
    """a run that ended at F ended at a malformed escape"""
    return ch(st, C, F, e, '%')
AZ = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
def allp(st, C, T, a, b):
    """[a, b) consists of characters of T and percent escapes"""
    return dfb(st, 'A_' + S.tname(T), C, (a, b), lambda: eq(S.fb(st, C, T, a, b), b), 'A')
def allr(st, C, T, a, b):
    """[a, b) consists of characters of T"""
    return dfb(st, 'R_' + S.tname(T), C, (a, b), lambda: eq(S.run(st, C, T, a, b), b), 'A')
def num(st, C, c, a, b):
    """number of characters c in [a, b)"""
    return dfn(st, 'N%d' % c, C, (a, b), lambda: tsub(S.cnt(st, C, c, b), S.cnt(st, C, c, a)), 'N')

# ---- host
def v6cut(st, C, q, e, e2):
    """lemma v6cut: an address is found within a longer text exactly if it is found in the text that ends after it"""
    a, b = S.v6end(st, C, q, e, False), S.v6end(st, C, q, e2, False)
    st.fact(z3.Implies(bz(le(e2, e)), z3.And(z3.Implies(z3.And(a >= 0, a < tz(e2)), b == a), z3.Implies(b >= 0, a == b), b < tz(e2))))
def v4cut(st, C, p, e, e2):
    """lemma v4cut: the same for IPv4 addresses that end at e2, when no digit follows"""
    a, b = S.v4end(st, C, p, e, False), S.v4end(st, C, p, e2, False)
    nd = bor(ge(e2, e), bnot(inset(at(st, C, e2), S.DIGIT)))
    st.fact(z3.Implies(bz(band(le(p, e2), le(e2, e), nd)), (a == tz(e2)) == (b == tz(e2))))
def ht(X, st, C, a, b):
    """host type of the text [a, b), -1 if it is not a host"""
    H = X.m.host
    def f():
        lit = ch(st, C, a, b, '['); q = tadd(a, 1)
        fut = ch(st, C, q, b, 'vV'); vf = S.vfend(st, C, q, b); v6 = S.v6end(st, C, q, b, False); v4 = S.v4end(st, C, a, b, False)
        F = S.fb(st, C, S.REGNAME, a, b); last = tsub(b, 1)
        I = z3.IntVal
        return z3.If(bz(ge(a, b)), I(H['none']), z3.If(bz(lit), z3.If(bz(fut), z3.If(vf == tz(last), I(H['ipvfuture']), I(-1)), z3.If(v6 == tz(last), I(H['ipv6']), I(-1))),
            z3.If(bz(eq(F, b)), z3.If(v4 == tz(b), I(H['ipv4']), I(H['name'])), I(-1))))
    return dfn(st, 'HT', C, (a, b), f, 'host')
def g_host(X, st, C, p, e):
    """(ok, end, type) of the host at p"""
    H = X.m.host; q = tadd(p, 1); I = z3.IntVal
    def lit(): return ch(st, C, p, e, '[')
    def fut(): return ch(st, C, q, e, 'vV')
    def vf(): return S.vfend(st, C, q, e)
    def v6(): return S.v6end(st, C, q, e, False)
    def v4(): return S.v4end(st, C, p, e, False)
    def F(): return S.fb(st, C, S.REGNAME, p, e)
    ok = dfb(st, 'hok', C, (p, e), lambda: bor(band(lit(), fut(), vf() >= 0), band(lit(), bnot(fut()), v6() >= 0), band(bnot(lit()), bnot(stop(st, C, F(), e)))), 'host')
    end = dfn(st, 'hend', C, (p, e), lambda: z3.If(bz(lit()), z3.If(bz(fut()), vf() + 1, v6() + 1), tz(F())), 'host')
    typ = dfn(st, 'htyp', C, (p, e), lambda: z3.If(bz(lit()), z3.If(bz(fut()), I(H['ipvfuture']), I(H['ipv6'])), z3.If(F() == tz(p), I(H['none']), z3.If(v4() == tz(F()), I(H['ipv4']), I(H['name'])))), 'host')
    return ok, end, typ

def host_facts(X, st, C, p, e, H, typ):
    return [band(le(p, H), le(H, e)), eq(ht(X, st, C, p, H), typ), imp(eq(typ, X.m.host['name']), allp(st, C, S.REGNAME, p, H)), band(ge(typ, 0), le(typ, 4), imp(eq(H, p), eq(typ, X.m.host['none'])))]
class Hostname(Contract):
    fnname = D + 'parser::parse_hostname(boost::urls::detail::parts&, %s)' % EC
    reveal = {'host', 'A_REGNAME'}
    def entries(s, X, st): return [mk_parser(X, st), mk_parts(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[2])]
    def spec(s, X, st, v):
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        ok, H, typ = g_host(X, st, C, p, e)
        h = P(pt.r, tadd(pt.o, 88)); h0 = rawv(rd(X, st, I32, pt, 88))
        t2 = z3.If(bz(eq(H, p)), tz(h0), typ)
        facts = host_facts(X, st, C, p, e, H, typ)
        if 'host' in X.ct.reveal: v6cut(st, C, tadd(p, 1), e, H); v4cut(st, C, p, e, H)
        return [Out(ok, w=[setp(this, r, H), (h, 4, SI(t2, 32, 0, mask(32)))] + marked(X, st, pt, 3, tsub(H, b)), name='host', facts=facts),
                Out(bnot(ok), w=[(ec, 4, ERR(X)), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))] + havocp(pt, [88]), name='no host')]
L.LEAF += [Hostname]

def g_auth(X, st, C, p, e):
    """the authority at p (after the slashes): ok, user end, password part end, host end, port end, host type"""
    g = 'auth'; A = (p, e); rv = shown(st, g, g)
    U1 = S.fb(st, C, S.REGNAME, p, e) if rv else None; U2 = S.fb(st, C, S.USERINFO, U1, e) if rv else None
    def has(): return ch(st, C, U2, e, '@')
    o2 = dfn(st, 'a2', C, A, lambda: z3.If(bz(has()), tz(U1), tz(p)), g)
    o3 = dfn(st, 'a3', C, A, lambda: z3.If(bz(has()), U2 + 1, tz(p)), g)
    hok, he, ty = g_host(X, st, C, o3, e)
    o4 = dfn(st, 'a4', C, A, lambda: he, g); typ = dfn(st, 'at', C, A, lambda: ty, g)
    o5 = dfn(st, 'a5', C, A, lambda: z3.If(bz(ch(st, C, he, e, ':')), S.run(st, C, S.DIGIT, tadd(he, 1), e), tz(he)), g)
    ok = dfb(st, 'aok', C, A, lambda: band(bnot(stop(st, C, U1, e)), bnot(stop(st, C, U2, e)), hok), g)
    return ok, o2, o3, o4, o5, typ
def mk_parts1(X, st, o0=None, zero=False):
    """parts in which everything after the scheme is empty"""
    pt = mk_parts(X, st); m = dict(st.mem[pt.r.id])
    for i in range(9): m[8*i] = (8, 0 if zero else m[8][1] if i > 1 else m[8*i][1])
    m[72] = (8, 0); m[80] = (8, 0); m[88] = (4, X.m.host['none'])
    st.mem[pt.r.id] = m
    return pt
def setoff(pt, i, v): return (P(pt.r, tadd(pt.o, 8*i)), 8, si(v, 64, 0, MAXOBJ))
def fresh_from(X, st, pt, k):
    """offsets k.. are equal, and no host yet"""
    o = [rawv(rd(X, st, I64, pt, 8*i)) for i in range(k, 9)]
    return [(band(*[eq(x, o[0]) for x in o[1:]]), 'nothing parsed yet'), (eq(rawv(rd(X, st, I32, pt, 88)), X.m.host['none']), 'no host yet')]
class Authority(Contract):
    fnname = D + 'parser::parse_authority(boost::urls::detail::parts&, %s)' % EC
    reveal = {'auth', 'A_REGNAME', 'A_USERINFO', 'R_DIGIT'}
    def entries(s, X, st): return [mk_parser(X, st), mk_parts1(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[2])] + fresh_from(X, st, v[1], 1)
    def spec(s, X, st, v):
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        ok, o2, o3, o4, o5, typ = g_auth(X, st, C, p, e)
        h = P(pt.r, tadd(pt.o, 88))
        w = [setp(this, r, o5), (h, 4, SI(typ, 32, 0, mask(32)))] + [setoff(pt, i, tsub(x, b)) for i, x in ((2, o2), (3, o3), (4, o4), (5, o5), (6, o5), (7, o5), (8, o5))]
        facts = auth_wf(X, st, C, p, o2, o3, o4, o5, typ) + [le(o5, e)]
        return [Out(ok, w=w, name='authority', facts=facts),
                Out(bnot(ok), w=[(ec, 4, ERR(X)), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))] + havocp(pt, [16, 24, 32, 40, 48, 56, 64, 88]), name='no authority')]
def auth_wf(X, st, C, p, o2, o3, o4, o5, typ):
    """[p, o5) is an authority with these parts; absolute positions"""
    return [band(le(p, o2), le(o2, o3), le(o3, o4), le(o4, o5)),
            allp(st, C, S.REGNAME, p, o2),
            bor(band(eq(o2, o3), eq(o2, p)),
                band(lt(o2, o3), eq(at(st, C, tsub(o3, 1)), 64), allp(st, C, S.USERINFO, o2, tsub(o3, 1)), bor(eq(o2, tsub(o3, 1)), eq(at(st, C, o2), 58)))),
            band(eq(ht(X, st, C, o3, o4), typ), ge(typ, 0), le(typ, 4), imp(eq(o3, o4), eq(typ, X.m.host['none']))),
            imp(eq(typ, X.m.host['name']), allp(st, C, S.REGNAME, o3, o4)),
            bor(eq(o4, o5), band(lt(o4, o5), eq(at(st, C, o4), 58), allr(st, C, S.DIGIT, tadd(o4, 1), o5)))]
def nseg(st, C, o5, o6):
    """number of segments of the path [o5, o6)"""
    return dfn(st, 'NS', C, (o5, o6), lambda: ite(eq(o5, o6), 0, ite(ch(st, C, o5, o6, '/'), num(st, C, 47, o5, o6), tadd(num(st, C, 47, o5, o6), 1))), 'N')
def npar(st, C, o6, o7):
    """number of parameters of the query part [o6, o7)"""
    return dfn(st, 'NP', C, (o6, o7), lambda: ite(eq(o6, o7), 0, tadd(num(st, C, 38, o6, o7), 1)), 'N')
def nocolon(st, C, o5, o6):
    """the first segment of [o5, o6) has no colon"""
    def f():
        F0 = S.fb(st, C, S.PCHAR_NC, o5, o6)
        return bor(eq(F0, o6), eq(at(st, C, F0), 47))
    return dfb(st, 'NC', C, (o5, o6), f, 'A')
def path_wf(st, C, scheme, auth, o5, o6, ns):
    """scheme, auth: whether the URL has them"""
    sl = ch(st, C, o5, o6, '/')
    return [le(o5, o6), allp(st, C, S.PATH, o5, o6), imp(auth, bor(eq(o5, o6), sl)),
            bor(auth, bnot(sl), bnot(ch(st, C, tadd(o5, 1), o6, '/'))),
            bor(auth, scheme, sl, nocolon(st, C, o5, o6)), eq(ns, nseg(st, C, o5, o6)), ge(ns, 0)]
def query_wf(st, C, o6, o7, np):
    return [le(o6, o7), bor(eq(o6, o7), band(eq(at(st, C, o6), 63), allp(st, C, S.QF, tadd(o6, 1), o7))), eq(np, npar(st, C, o6, o7)), ge(np, 0)]
def frag_wf(st, C, o7, o8):
    return [le(o7, o8), bor(eq(o7, o8), band(eq(at(st, C, o7), 35), allp(st, C, S.QF, tadd(o7, 1), o8)))]
def scheme_wf(st, C, o0, o1):
    return [le(o0, o1), bor(eq(o0, o1), band(ge(o1, tadd(o0, 2)), eq(at(st, C, tsub(o1, 1)), 58), inset(at(st, C, o0), S.ALPHA), allr(st, C, S.SCHEME, o0, tsub(o1, 1))))]
def wf(X, st, C, o, nseg, nparam, host, only=None):
    """the invariant: (name, condition) for the text C[o[0], o[8]) and its parts"""
    auth = gt(o[5], o[1]); scheme = gt(o[1], o[0]); p = tadd(o[1], 2)
    parts = dict(scheme=lambda: scheme_wf(st, C, o[0], o[1]),
        slashes=lambda: [bor(band(*[eq(o[i], o[1]) for i in range(2, 6)] + [eq(host, X.m.host['none'])]),
                               band(auth, ge(o[2], p), eq(at(st, C, o[1]), 47), eq(at(st, C, tadd(o[1], 1)), 47)))],
        authority=lambda: [imp(auth, c) for c in auth_wf(X, st, C, p, o[2], o[3], o[4], o[5], host)],
        path=lambda: path_wf(st, C, scheme, auth, o[5], o[6], nseg),
        query=lambda: query_wf(st, C, o[6], o[7], nparam), fragment=lambda: frag_wf(st, C, o[7], o[8]))
    return [(n, c) for n, f in parts.items() if only is None or n == only for c in f()]

def g_hier(X, st, C, sch, p, e):
    """what follows the scheme (sch) or the beginning: ok, o1.., segments, host type"""
    k = 'h' if sch else 'r'; A = (p, e); g = 'hier'; rv = shown(st, g, g)
    If = lambda c, x, y: z3.If(bz(c), tz(x), tz(y)); Q = {}
    if rv:
        sl = ch(st, C, p, e, '/'); auth = band(sl, ch(st, C, tadd(p, 1), e, '/'))
        aok, a2, a3, a4, a5, aty = g_auth(X, st, C, tadd(p, 2), e)
        ps = ch(st, C, a5, e, '/'); Pa = S.fb(st, C, S.PATH, a5, e); P1 = S.fb(st, C, S.PATH, tadd(p, 1), e)
        F0 = S.fb(st, C, S.PCHAR if sch else S.PCHAR_NC, p, e); F1 = S.fb(st, C, S.PATH, F0, e); more = ch(st, C, F0, e, '/')
        cn = lambda x, y: tsub(S.cnt(st, C, 47, y), S.cnt(st, C, 47, x))
        Q = dict(sl=sl, auth=auth)
        def f2(x): return lambda: If(auth, x, p)
        d2, d3, d4, d5, dt = f2(a2), f2(a3), f2(a4), f2(a5), (lambda: If(auth, aty, X.m.host['none']))
        d6 = lambda: If(auth, If(ps, Pa, a5), If(sl, P1, If(F0 == tz(p), p, If(more, F1, F0))))
        dn = lambda: If(auth, If(ps, cn(a5, Pa), 0), If(sl, tadd(cn(tadd(p, 1), P1), 1), If(F0 == tz(p), 0, If(more, tadd(cn(F0, F1), 1), 1))))
        dok = lambda: If3(auth, band(aok, bnot(band(ps, stop(st, C, Pa, e)))), sl, bnot(stop(st, C, P1, e)), band(bnot(stop(st, C, F0, e)), imp(more, bnot(stop(st, C, F1, e)))))
    else: d2 = d3 = d4 = d5 = dt = d6 = dn = dok = None
    o = [dfn(st, k + n, C, A, d, g) for n, d in (('2', d2), ('3', d3), ('4', d4), ('5', d5), ('6', d6))]
    return dfb(st, k + 'ok', C, A, dok, g), o, dfn(st, k + 'n', C, A, dn, g), dfn(st, k + 't', C, A, dt, g), Q
def If3(a, x, b, y, z): return bor(band(a, x), band(bnot(a), b, y), band(bnot(a), bnot(b), z))
def hier_facts(X, st, C, sch, p, e, o, n, typ):
    oo = [tsub(p, 1) if sch else p, p] + o + [o[4]]*2
    return [c for nm in ('slashes', 'authority', 'path') for _, c in wf(X, st, C, oo, n, 0, typ, nm)] + [le(o[4], e), band(le(p, o[0]), le(o[0], o[1]), le(o[1], o[2]), le(o[2], o[3]), le(o[3], o[4]))]
class HierPart(Contract):
    fnname = D + 'parser::parse_hier_part(boost::urls::detail::parts&, %s)' % EC
    reveal = {'hier', 'A_PATH', 'NC', 'N'}; sch = True; split = True; slices = 3; weight = 20
    def entries(s, X, st): return [mk_parser(X, st), mk_parts1(X, st), mk_ec(X, st)]
    def pre(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0]); o1 = rawv(rd(X, st, I64, v[1], 8))
        return ppre(X, st, v[0]) + [ecz(X, st, v[2]), (eq(rawv(rd(X, st, I64, v[1], 72)), 0), 'no segments yet'), (eq(o1, tsub(p, b)), 'marked here')] + fresh_from(X, st, v[1], 1)
    def spec(s, X, st, v):
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        ok, o, n, typ, Q = g_hier(X, st, C, s.sch, p, e)
        h = P(pt.r, tadd(pt.o, 88)); ns = P(pt.r, tadd(pt.o, 72)); oo = [None, p] + o
        w = [setp(this, r, o[4]), (h, 4, SI(typ, 32, 0, mask(32))), (ns, 8, SI(n, 64, 0, MAXOBJ))] + [setoff(pt, i, tsub(oo[min(i, 6)], b)) for i in range(2, 9)]
        facts = hier_facts(X, st, C, s.sch, p, e, o, n, typ)
        bad = [(ec, 4, ERR(X)), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))] + havocp(pt, [16, 24, 32, 40, 48, 56, 64, 72, 88])
        cases = [('', True)]
        if Q: cases = [('authority', Q['auth']), ('absolute', band(Q['sl'], bnot(Q['auth']))), ('rootless', bnot(Q['sl']))]
        return [x for nm, c in cases for x in (Out(band(c, ok), w=w, name=nm, facts=facts), Out(band(c, bnot(ok)), w=bad, name=nm + ' error'))]
class RelativePart(HierPart):
    fnname = D + 'parser::parse_relative_part(boost::urls::detail::parts&, %s)' % EC
    sch = False

def g_url(X, st, C, a, e):
    """the URI-reference in [a, e): ok, offsets (absolute), number of segments, parameters, host type"""
    F = S.run(st, C, S.SCHEME, a, e); sch = band(ch(st, C, a, e, AZ), ch(st, C, F, e, ':')); out = []
    for k in (True, False):
        h = tadd(F, 1) if k else a
        ok, o, n, typ, _ = g_hier(X, st, C, k, h, e); o6 = o[4]
        q = ch(st, C, o6, e, '?'); Q = S.fb(st, C, S.QF, o6, e)
        o7 = dfn(st, 'u7%d' % k, C, (a, e), lambda: z3.If(bz(q), tz(Q), tz(o6)), 'url')
        np = dfn(st, 'unp%d' % k, C, (a, e), lambda: z3.If(bz(q), tz(tadd(tsub(S.cnt(st, C, 38, Q), S.cnt(st, C, 38, o6)), 1)), z3.IntVal(0)), 'url')
        f = ch(st, C, o7, e, '#'); G = S.fb(st, C, S.QF, tadd(o7, 1), e)
        o8 = dfn(st, 'u8%d' % k, C, (a, e), lambda: z3.If(bz(f), tz(G), tz(o7)), 'url')
        out.append((sch if k else bnot(sch), band(ok, bnot(band(q, stop(st, C, Q, e))), eq(o8, e)), [a, h] + o + [o7, o8], n, np, typ))
    OK = dfb(st, 'OKU', C, (a, e), lambda: bor(band(out[0][0], out[0][1]), band(out[1][0], out[1][1])), 'url')
    return OK, out
def okurl(st, C, a, e): return dfb(st, 'OKU', C, (a, e), None)

class ParseUrl(Contract):
    fnname = D + 'parse_url(boost::urls::detail::parts&, %s, %s)' % (SV, EC)
    weight = 50; budget = 600; slices = 4; reveal = {'url', 'R_SCHEME', 'NP'}; split = True
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        return [mk_parts1(X, st, zero=True), P(r, a), si64(tsub(e, a)), mk_ec(X, st)]
    def pre(s, X, st, v):
        pt, p, n, ec = v
        if p.r is None: raise Unsupported('null')
        a = X.off(st, p.o); e = tadd(a, st.uns(n))
        z = [eq(rawv(rd(X, st, I64, pt, 8*i)), 0) for i in range(11)]
        return [(band(ge(a, 0), le(a, e), le(e, p.r.size)), 'range'), ecz(X, st, ec), (band(*z), 'new parts')] + fresh_from(X, st, pt, 0)[1:]
    def spec(s, X, st, v):
        pt, p, n, ec = v
        C = X.content(st, p.r); a = X.off(st, p.o); e = tadd(a, st.uns(n)); h = P(pt.r, tadd(pt.o, 88))
        def parts(o, ns, np, ty):
            return [setoff(pt, i, tsub(o[i], a)) for i in range(9)] + [(P(pt.r, tadd(pt.o, 72)), 8, si(ns, 64, 0, MAXOBJ)), (P(pt.r, tadd(pt.o, 80)), 8, si(np, 64, 0, MAXOBJ)), (h, 4, SI(ty, 32, 0, mask(32)))]
        bad = [(ec, 4, NZERO())] + havocp(pt, [8*i for i in range(12)])
        W = lambda o, ns, np, ty: [c for _, c in wf(X, st, C, o, ns, np, ty)]
        if X.ct is s:
            ok, cs = g_url(X, st, C, a, e); outs = []
            for (g, k, o, ns, np, ty), nm in zip(cs, ('URI', 'relative reference')):
                outs += [Out(band(g, ok), w=parts(o, ns, np, ty), name=nm, facts=W(o, ns, np, ty)), Out(band(g, bnot(ok)), w=bad, name='not a ' + nm)]
            return outs
        ok = okurl(st, C, a, e)
        o = [a] + [X.fresh('o%d' % i) for i in range(1, 8)] + [e]; ns, np, ty = X.fresh('nseg'), X.fresh('nparam'), X.fresh('host')
        return [Out(ok, w=parts(o, ns, np, ty), name='URI reference', facts=W(o, ns, np, ty)), Out(bnot(ok), w=bad, name='not a URI reference')]
def NZERO(): return Havoc(lambda e: e != 0, 0, 1 << 16)
L.LEAF += [Authority, HierPart, RelativePart, ParseUrl]
