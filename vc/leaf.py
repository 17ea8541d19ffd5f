"""Contracts of the percent-encoding functions and of the parser's parts."""
import z3
from contract import *
import spec as S
D = 'boost::urls::detail::'
SV = 'boost::basic_string_view<char, std::char_traits<char> >'
EC = 'boost::system::error_code&'
NZ = lambda: Havoc(lambda e: e != 0, 0, 1 << 16)

def tables(mod):
    """all percent-encoding tables in the module: symbol -> set of plain characters"""
    if hasattr(mod, '_tables'): return mod._tables
    out = {}
    for n, (ty, init, const) in mod.globals.items():
        if not const or not init or init[0] != 'bytes' or len(init[1]) != 257: continue
        if 'pct_set' not in n: continue
        out[n] = frozenset(i for i in range(256) if init[1][i] != 3)
    mod._tables = out
    return out
def usable(T): return 37 not in T and S.HEX <= T
def table_of(X, st, this):
    """set of plain characters of the pct_encoding object"""
    v = rd(X, st, PTR, this)
    if not isinstance(v, P) or v.r is None or not isinstance(st.mem[v.r.id], Bytes) or v.o != 0: raise Unsupported('percent-encoding table')
    d = st.mem[v.r.id].data
    if len(d) < 256: raise Unsupported('short table')
    if any(x not in (1, 3) for x in d[:256]): raise Unsupported('table values')
    T = frozenset(i for i in range(256) if d[i] != 3)
    if not usable(T): raise Unsupported('table contents')
    if T not in [t for t in tables(X.m).values()]: raise Unsupported('unknown table')
    return T
def each_table(X, st, f):
    out = []
    ts = {}
    for n, T in sorted(tables(X.m).items()):
        if usable(T): ts.setdefault(T, n)
    if not ts: raise Unsupported('no percent-encoding tables')
    for T, n in ts.items():
        t = st.copy()
        q = X.region(t, 'enc', 'cells', 8); t.mem[q.id] = {0: (8, P(X.globreg(t, n), 0))}
        out.append((t, [P(q, 0)] + f(t)))
    return out

class PctParse(Contract):
    fnname = D + 'pct_encoding::parse(char const*, char const*, %s) const' % EC
    split = True
    def entries(s, X, st):
        def f(t):
            r, a, e = mk_slice(X, t)
            return [P(r, a), P(r, e), mk_ec(X, t, X.freshsi(t, 32, 'ec'))]
        return each_table(X, st, f)
    def pre(s, X, st, v):
        if v[1].r is None or v[2].r is not v[1].r: raise Unsupported('range')
        return [(band(ge(X.off(st, v[1].o), 0), le(X.off(st, v[1].o), X.off(st, v[2].o)), le(X.off(st, v[2].o), v[1].r.size)), 'range')]
    def spec(s, X, st, v):
        T = table_of(X, st, v[0]); C = X.content(st, v[1].r)
        a, e = X.off(st, v[1].o), X.off(st, v[2].o)
        F = S.fb(st, C, T, a, e)
        bad = band(lt(F, e), eq(C.at(st, F), 37))
        z = eq(rawv(rd(X, st, I32, v[3])), 0)
        return [Out(band(z, bnot(bad)), P(v[1].r, F), name='ok'), Out(band(z, bad), P(v[1].r, F), w=[(v[3], 4, ERR(X))], name='bad escape'),
                Out(bnot(z), ANYP(v[1].r, a, e), w=[(v[3], 4, NZ())], name='error before')]

class Check(Contract):
    fnname = D + 'pct_encoding::check(%s) const' % SV
    split = True
    def entries(s, X, st):
        def f(t):
            r, a, e = mk_slice(X, t)
            return [P(r, a), si64(tsub(e, a))]
        return each_table(X, st, f)
    def pre(s, X, st, v):
        if v[1].r is None: raise Unsupported('null')
        n = st.uns(v[2])
        return [(band(ge(X.off(st, v[1].o), 0), ge(n, 0), le(tadd(X.off(st, v[1].o), n), v[1].r.size)), 'range')]
    def spec(s, X, st, v):
        T = table_of(X, st, v[0]); C = X.content(st, v[1].r)
        a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2]))
        F = S.fb(st, C, T, a, e)
        return [Out(eq(F, e), 1, name='valid'), Out(ne(F, e), 0, name='invalid')]

def valid(st, C, a, e):
    """[a, e) is percent-encoded text; the class is whatever the caller knows"""
    T = frozenset(S.ALLB - {37})
    if st.X.ct.opaque: return eq(S.Least(C, 'pct_' + S.tname(T), None, a, e).term, e)
    return eq(S.fb(st, C, T, a, e), e)
def valid_any(X, st, C, a, e):
    """prove validity from any class known in this state"""
    return valid(st, C, a, e)

class RawSize(Contract):
    fnname = D + 'pct_encoding::raw_decoded_size(%s)' % SV
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        return [P(r, a), si64(tsub(e, a))]
    def pre(s, X, st, v):
        if v[0].r is None: raise Unsupported('null')
        a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1]))
        return [(band(ge(a, 0), le(a, e), le(e, v[0].r.size)), 'range')]
    def spec(s, X, st, v):
        C = X.content(st, v[0].r); a = X.off(st, v[0].o); e = tadd(a, st.uns(v[1]))
        n = S.decsize(st, C, a, e)
        st.g['bounds'] = st.g.get('bounds', []) + [n]
        return [Out(True, SI(n, 64, 0, MAXOBJ))]

def movers(X, st, vars, r, start):
    """the variables of a loop that can stand for a position in r: a pointer
    into it, or a counter that goes up or down from the position start;
    [(first position, position in a state)]"""
    out = []
    for x in vars:
        if isinstance(x.v0, P) and x.v0.r is r:
            out.append((X.off(st, x.v0.o), lambda q, x=x: X.off(q, x.get(q).o)))
    for x in vars:
        if (isinstance(x.v0, SI) or isint(x.v0)) and x.w > 1:
            g0 = st.uns(x.v0) if isinstance(x.v0, SI) else x.v0
            def g(q, x=x):
                y = x.get(q); return q.uns(y) if isinstance(y, SI) else y
            out.append((tadd(start, g0), lambda q, g=g: tadd(start, g(q))))
            out.append((start, lambda q, g=g, g0=g0: tadd(start, tsub(g0, g(q)))))
    return out
def hints(X, n, f):
    """f(X, st, vars, bts) gives a list of content templates; at most n of them are tried"""
    for j in range(n):
        def hook(X, st, vars, bts, j=j):
            l = f(X, st, vars, bts)
            return l[j] if l is not None and j < len(l) else None
        X.hints.append(hook)

class Decode(Contract):
    fnname = D + 'pct_encoding::decode(char*, %s)' % SV
    def entries(s, X, st):
        r, a, e = mk_slice(X, st)
        d = mk_bytes(X, st, 'dest'); o = z3.Int('dest_o'); st.fact(z3.And(0 <= o, o <= d.size))
        return [P(d, o), P(r, a), si64(tsub(e, a))]
    def pre(s, X, st, v):
        if v[0].r is None or v[1].r is None or v[0].r is v[1].r: raise Unsupported('ranges')
        a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2])); C = X.content(st, v[1].r)
        n = S.decsize(st, C, a, e); o = X.off(st, v[0].o)
        return [(band(ge(a, 0), le(a, e), le(e, v[1].r.size)), 'range'), (band(ge(o, 0), le(tadd(o, n), v[0].r.size)), 'room'),
                (valid(st, C, a, e), 'valid escapes')]
    def out(s, st, C0, o, C, a, n):
        return Fun(C0, o, n, lambda q, t, g: S.decchar(q, C, a, t))
    def spec(s, X, st, v):
        C = X.content(st, v[1].r); a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2])); o = X.off(st, v[0].o)
        n = S.decsize(st, C, a, e)
        st.g['bounds'] = st.g.get('bounds', []) + [n]
        st.g['pbounds'] = st.g.get('pbounds', []) + [tadd(o, n)]
        C0 = st.mem[v[0].r.id]
        def hook(X, st, vars, bts):
            if bts != {v[0].r.id}: return None
            B = st.mem[v[0].r.id]
            return [lambda q, w0=w0, w=w: {v[0].r.id: s.out(q, B, w0, C, a, tsub(w(q), w0))}
                    for w0, w in movers(X, st, vars, v[0].r, o)]
        hints(X, 4, hook)
        return [Out(True, P(v[0].r, tadd(o, n)), content={v[0].r.id: s.out(st, C0, o, C, a, n)})]

class EncSize(Contract):
    fnname = D + 'pct_encoding::encoded_size(%s) const' % SV
    def entries(s, X, st):
        def f(t):
            r, a, e = mk_slice(X, t)
            return [P(r, a), si64(tsub(e, a))]
        return each_table(X, st, f)
    def pre(s, X, st, v):
        if v[1].r is None: raise Unsupported('null')
        a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2]))
        return [(band(ge(a, 0), le(a, e), le(e, v[1].r.size)), 'range')]
    def spec(s, X, st, v):
        T = table_of(X, st, v[0]); C = X.content(st, v[1].r)
        a = X.off(st, v[1].o); e = tadd(a, st.uns(v[2]))
        return [Out(True, SI(S.encsize(st, C, T, a, e), 64, 0, MAXOBJ))]

class Encode(Contract):
    fnname = D + 'pct_encoding::encode(char*, %s) const' % SV
    def entries(s, X, st):
        def f(t):
            r, a, e = mk_slice(X, t)
            d = mk_bytes(X, t, 'dest'); o = z3.Int('dest_o'); t.fact(z3.And(0 <= o, o <= d.size))
            return [P(d, o), P(r, a), si64(tsub(e, a))]
        return each_table(X, st, f)
    def pre(s, X, st, v):
        if v[1].r is None or v[2].r is None or v[1].r is v[2].r: raise Unsupported('ranges')
        T = table_of(X, st, v[0]); C = X.content(st, v[2].r)
        a = X.off(st, v[2].o); e = tadd(a, st.uns(v[3])); o = X.off(st, v[1].o)
        n = S.encsize(st, C, T, a, e)
        return [(band(ge(a, 0), le(a, e), le(e, v[2].r.size)), 'range'), (band(ge(o, 0), le(tadd(o, n), v[1].r.size)), 'room')]
    def spec(s, X, st, v):
        T = table_of(X, st, v[0]); C = X.content(st, v[2].r)
        a = X.off(st, v[2].o); e = tadd(a, st.uns(v[3])); o = X.off(st, v[1].o)
        n = S.encsize(st, C, T, a, e); C0 = st.mem[v[1].r.id]
        def hook(X, st, vars, bts):
            if bts != {v[1].r.id}: return None
            B = st.mem[v[1].r.id]
            return [lambda q, w0=w0, w=w, p0=p0, p=p: {v[1].r.id: S.enc_content(B, w0, C, T, p0, p(q), tsub(w(q), w0))}
                    for w0, w in movers(X, st, vars, v[1].r, o) for p0, p in movers(X, st, vars, v[2].r, a)]
        hints(X, 12, hook)
        return [Out(True, SI(n, 64, 0, MAXOBJ), content={v[1].r.id: S.enc_content(C0, o, C, T, a, e, n)})]

# ---------------------------------------------------------------- the parser
def pget(X, st, this):
    """content, begin, end, position of a parser object"""
    b, e, p = (rd(X, st, PTR, this, k) for k in (0, 8, 16))
    if b.r is None or p.r is not b.r or e.r is not b.r: raise Unsupported('parser')
    return b.r, X.content(st, b.r), X.off(st, b.o), X.off(st, e.o), X.off(st, p.o)
def ppre(X, st, this):
    r, C, b, e, p = pget(X, st, this)
    return [(band(ge(b, 0), le(b, p), le(p, e), le(e, r.size)), 'parser position')]
def setp(this, r, o): return (P(this.r, tadd(this.o, 16)), 8, P(r, o))
def at(st, C, t):
    st.mark(C, t); return C.at(st, t)
def ecz(X, st, ec): return (eq(rawv(rd(X, st, I32, ec)), 0), 'no error before')

class MatchScheme(Contract):
    fnname = D + 'parser::match_scheme()'
    split = True
    def entries(s, X, st): return [mk_parser(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0])
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        c = band(lt(p, e), inset(at(st, C, p), S.ALPHA))
        F = S.run(st, C, S.SCHEME, p, e)
        return [Out(c, 1, w=[setp(v[0], r, F)], name='scheme'), Out(bnot(c), 0, name='none')]

class MatchPort(Contract):
    fnname = D + 'parser::match_port()'
    def entries(s, X, st): return [mk_parser(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0])
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        return [Out(True, w=[setp(v[0], r, S.run(st, C, S.DIGIT, p, e))])]

class MatchLiteral(Contract):
    fnname = D + 'parser::match_literal(%s)' % SV
    split = True; LENS = (1, 2, 3)
    def entries(s, X, st):
        out = []
        for n in s.LENS:
            t = st.copy(); r = mk_bytes(X, t, 'lit'); t.fact(bz(le(n, r.size)))
            out.append((t, [mk_parser(X, t), P(r, 0), n]))
        return out
    def pre(s, X, st, v):
        if v[1].r is None or v[2] not in s.LENS: raise Unsupported('literal')
        o = X.off(st, v[1].o)
        return ppre(X, st, v[0]) + [(band(ge(o, 0), le(tadd(o, v[2]), v[1].r.size)), 'literal')]
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0]); n = v[2]; o = X.off(st, v[1].o); L = X.content(st, v[1].r)
        d = [at(st, L, tadd(o, i)) for i in range(n)]
        m = band(le(tadd(p, n), e), *[eq(at(st, C, tadd(p, i)), d[i]) for i in range(n)])
        return [Out(m, 1, w=[setp(v[0], r, tadd(p, n))], name='match'), Out(bnot(m), 0, name='none')]

ID = dict(scheme=0, user=1, password=2, host=3, port=4, path=5, query=6, frag=7, end=8)
def off_(X, st, pt, i): return rd(X, st, I64, pt, 8*i)
def marked(X, st, pt, i, n):
    """writes of mark(id) when the position is n characters after the beginning"""
    o1 = off_(X, st, pt, i + 1); a, lo, hi = st.raw(o1, 64); out = []
    for k in range(i + 1, 9):
        b, lb, hb = st.raw(off_(X, st, pt, k), 64)
        out.append((P(pt.r, tadd(pt.o, 8*k)), 8, si(norm(tz(b) - tz(a) + tz(n)), 64, lb - hi, hb - lo + MAXOBJ)))
    return out
def addc(X, st, pt, off, n):
    b, lb, hb = st.raw(rd(X, st, I64, pt, off), 64)
    return (P(pt.r, tadd(pt.o, off)), 8, si(norm(tz(b) + tz(n)), 64, lb, hb + MAXOBJ))
def havocp(pt, offs): return [(P(pt.r, tadd(pt.o, o)), 4 if o == 88 else 8, Havoc(None, 0, mask(32 if o == 88 else 64))) for o in offs]

class PathLoop(Contract):
    split = True
    kind = None
    def entries(s, X, st): return [mk_parser(X, st), mk_parts(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[2]), (le(st.uns(rd(X, st, I64, v[1], 72)), 1 << 46), 'number of segments')]
    def spec(s, X, st, v):
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        outs = []
        some = lt(p, e); c0 = at(st, C, p)
        slash = band(some, eq(c0, 47))
        hav = [(P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))] + havocp(pt, [72])
        def case(g, q, start, extra, nm):
            # run of path characters from q; segments: extra + slashes in [start, F)
            F = S.fb(st, C, S.PATH, q, e)
            bad = band(lt(F, e), eq(at(st, C, F), 37))
            n = tadd(tsub(S.cnt(st, C, 47, F), S.cnt(st, C, 47, start)), extra)
            return [Out(band(g, bnot(bad)), w=[setp(this, r, F), addc(X, st, pt, 72, n)] + marked(X, st, pt, 5, tsub(F, b)), name=nm),
                    Out(band(g, bad), w=[(ec, 4, ERR(X))] + hav, name=nm + ' bad escape')]
        k = s.kind
        if k == 'abempty':
            outs = [Out(bnot(slash), w=marked(X, st, pt, 5, tsub(p, b)), name='empty')] + case(slash, p, p, 0, 'path')
        elif k == 'absolute':
            q = tadd(p, 1); two = band(slash, lt(q, e), eq(at(st, C, q), 47))
            outs = [Out(bnot(slash), w=[(ec, 4, X.m.err['no_match'])], name='no match'),
                    Out(two, w=[(ec, 4, ERR(X))] + hav, name='//')] + case(band(slash, bnot(two)), q, q, 1, 'path')
        else:
            T = S.PCHAR_NC if k == 'noscheme' else S.PCHAR
            F0 = S.fb(st, C, T, p, e)
            none = eq(F0, p); bade = band(lt(F0, e), eq(at(st, C, F0), 37))
            # the first segment ends at F0
            outs = [Out(bade, w=[(ec, 4, ERR(X)), setp(this, r, F0)], name='bad escape in first segment'),
                    Out(band(none, bnot(bade)), w=[(ec, 4, X.m.err['no_match'])], name='no match')]
            sl = band(lt(F0, e), eq(at(st, C, F0), 47)); ok = band(bnot(bade), bnot(none))
            outs.append(Out(band(ok, bnot(sl)), w=[setp(this, r, F0), addc(X, st, pt, 72, 1)] + marked(X, st, pt, 5, tsub(F0, b)), name='one segment'))
            outs += case(band(ok, sl), F0, F0, 1, 'path')
        return outs
def ANYP(r, lo, hi): return AnyPtr(r, lo, hi)
def ERR(X):
    """an error other than no_match"""
    nm = X.m.err['no_match']
    return Havoc(lambda e: band(e != 0, e != nm), 0, 1 << 16)

class PathAbempty(PathLoop):
    fnname = D + 'parser::parse_path_abempty(boost::urls::detail::parts&, %s)' % EC; kind = 'abempty'
class PathAbsolute(PathLoop):
    fnname = D + 'parser::parse_path_absolute(boost::urls::detail::parts&, %s)' % EC; kind = 'absolute'
class PathRootless(PathLoop):
    fnname = D + 'parser::parse_path_rootless(boost::urls::detail::parts&, %s)' % EC; kind = 'rootless'
class PathNoscheme(PathLoop):
    fnname = D + 'parser::parse_path_noscheme(boost::urls::detail::parts&, %s)' % EC; kind = 'noscheme'

class ParseQuery(Contract):
    reveal = {'A_QF', 'N'}
    fnname = D + 'parser::parse_query(boost::urls::detail::parts&, %s)' % EC
    split = True
    def entries(s, X, st): return [mk_parser(X, st), mk_parts(X, st), mk_ec(X, st, X.freshsi(st, 32, 'ec'))]
    def pre(s, X, st, v): return ppre(X, st, v[0])
    def spec(s, X, st, v):
        this, pt, ec = v
        import url as U
        r, C, b, e, p = pget(X, st, this); z = eq(rawv(rd(X, st, I32, ec)), 0)
        g = band(lt(p, e), eq(at(st, C, p), 63)); F = S.fb(st, C, S.QF, p, e)
        bad = band(lt(F, e), eq(at(st, C, F), 37))
        n = tadd(tsub(S.cnt(st, C, 38, F), S.cnt(st, C, 38, p)), 1)
        return [Out(band(z, bnot(g)), name='none'), Out(band(z, g, bnot(bad)), w=[setp(this, r, F), (P(pt.r, tadd(pt.o, 80)), 8, SI(n, 64, 0, MAXOBJ))] + marked(X, st, pt, 6, tsub(F, b)), name='query', facts=[U.allp(st, C, S.QF, tadd(p, 1), F), eq(n, U.npar(st, C, p, F)), gt(F, p), le(F, e)]),
                Out(band(z, g, bad), w=[(ec, 4, ERR(X)), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))], name='bad escape'),
                Out(bnot(z), w=[(ec, 4, NZ()), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))], name='error before')]

class ParseFragment(Contract):
    fnname = D + 'parser::parse_fragment(boost::urls::detail::parts&, %s)' % EC
    split = True; reveal = {'A_QF'}
    def entries(s, X, st): return [mk_parser(X, st), mk_parts(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[2])]
    def spec(s, X, st, v):
        import url as U
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        g = band(lt(p, e), eq(at(st, C, p), 35)); F = S.fb(st, C, S.QF, tadd(p, 1), e)
        bad = band(lt(F, e), eq(at(st, C, F), 37))
        return [Out(bnot(g), name='none'), Out(band(g, bnot(bad)), w=[setp(this, r, F)] + marked(X, st, pt, 7, tsub(F, b)), name='fragment', facts=[U.allp(st, C, S.QF, tadd(p, 1), F), gt(F, p), le(F, e)]),
                Out(band(g, bad), w=[(ec, 4, ERR(X)), (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))], name='bad escape')]
LEAF = [ParseFragment, PctParse, Check, RawSize, Decode, EncSize, Encode, MatchScheme, MatchPort, MatchLiteral, PathAbempty, PathAbsolute, PathRootless, PathNoscheme, ParseQuery]

# ---------------------------------------------------------------- hosts
class MatchOctet(Contract):
    fnname = D + 'parser::match_octet()'
    unroll = 6
    def entries(s, X, st): return [mk_parser(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0])
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        S.trigger(st, 'v4')
        n = S.octlen(st, C, p, e); R = S.run(st, C, S.DIGIT, p, e)
        return [Out(n > 0, SI(S.octval(st, C, p, n), 16, 0, 255), w=[setp(v[0], r, tadd(p, n))], name='octet'),
                Out(n == 0, 0xffff, w=[(P(v[0].r, tadd(v[0].o, 16)), 8, ANYP(r, p, R))], name='none')]
DD = frozenset(S.DIGIT | {46})
class MatchV4(Contract):
    fnname = D + 'parser::match_ip_v4()'
    def entries(s, X, st): return [mk_parser(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0])
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        n = S.v4end(st, C, p, e); R = S.run(st, C, DD, p, e)
        return [Out(n >= 0, 1, w=[setp(v[0], r, n)], name='IPv4', facts=[band(le(p, n), le(n, R))]),
                Out(n < 0, 0, w=[(P(v[0].r, tadd(v[0].o, 16)), 8, ANYP(r, p, R))], name='none')]
class ParseWord(Contract):
    fnname = D + 'parser::parse_word(%s)' % EC
    def entries(s, X, st): return [mk_parser(X, st), mk_ec(X, st)]
    def pre(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        return ppre(X, st, v[0]) + [ecz(X, st, v[1]), (lt(p, e), 'a character')]
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        n = S.hexlen(st, C, p, e); S.trigger(st, 'w', p)
        return [Out(n > 0, SI(S.hexval(st, C, p, n), 64, 0, 65535), w=[setp(v[0], r, tadd(p, n))], name='word'),
                Out(n == 0, mask(64), w=[(v[1], 4, ERR(X))], name='none')]
class VFuture(Contract):
    fnname = D + 'parser::parse_ip_vfuture(%s)' % EC
    split = True
    def entries(s, X, st): return [mk_parser(X, st), mk_ec(X, st)]
    def pre(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        return ppre(X, st, v[0]) + [ecz(X, st, v[1]), (lt(p, e), 'a character')]
    def spec(s, X, st, v):
        r, C, b, e, p = pget(X, st, v[0])
        h = S.run(st, C, S.HEX, tadd(p, 1), e); f = S.run(st, C, S.USERINFO, tadd(h, 1), e)
        ok = band(gt(h, tadd(p, 1)), lt(h, e), eq(at(st, C, h), 46), gt(f, tadd(h, 1)))
        return [Out(ok, w=[setp(v[0], r, f)], name='ok'), Out(bnot(ok), w=[(v[1], 4, ERR(X)), (P(v[0].r, tadd(v[0].o, 16)), 8, ANYP(r, p, e))], name='bad')]
class V6(Contract):
    """parse_ip_v6: stops at the ']' that closes a valid address, otherwise fails or stops elsewhere"""
    fnname = D + 'parser::parse_ip_v6(%s)' % EC
    unroll = 20; nomarks = True; weight = 100
    def cut(s, X, st, h):
        """at the loop head: the value of the specification depends only on the current position and on
        the loop's counters; keep that and forget how it was reached"""
        ent = s.entry; this, ec = s.vals; fr = st.frames[-1]
        if len(st.frames) != 1: return None
        r, C, b, e, p0 = pget(X, ent, this); p = X.off(st, rd(X, st, PTR, this, 16).o); V = S.v6end(st, C, p0, e, False)
        if rawv(rd(X, st, I32, ec)) != 0: return None
        consts = []; ptrs = []; ints = []
        for rid in sorted(st.mem):
            m = st.mem[rid]; reg = X.gregs.get(rid)
            if rid in ent.mem or not isinstance(m, dict) or reg is None or reg.const: continue
            for o, (w, v) in sorted(m.items()):
                if isint(v): consts.append((rid, o, v))
                elif isinstance(v, P) and v.r is r: ptrs.append((rid, o, v))
                elif isinstance(v, SI): ints.append((rid, o, w, v))
        rel = None
        for k in range(0, 9):
            if rel: break
            for dc in (0, 1):
                f = S.named(st, 'V6_%d_%d' % (k, dc), C, p, e)
                if X.prove(st, V == f): rel = ('word', k, dc); break
            if not rel and k <= 7 and ('after', k, p if isint(p) else p.get_id()) in st.g.get('after', ()) and X.prove(st, V == S.v6after(st.copy(), C, k, p, e)): rel = ('after', k)
            for rid, o, v in ptrs:
                if rel: break
                x = X.off(st, v.o)
                for dc in (0, 1):
                    hl = S.named(st, 'HL', C, x, e)
                    if X.prove(st, band(V == S.named(st, 'V6_%d_%d' % (k, dc), C, x, e), eq(p, tadd(x, hl)), hl > 0)): rel = ('in', k, dc, rid, o); break
        if rel is None: return None
        key = (h, tuple(consts), rel, fr.f.name)
        if key in s.seen: return False
        s.seen.add(key)
        # the summary
        t = ent.copy(); t.abst = True
        t.frames = [f.copy() for f in st.frames]; t.lctx = list(st.lctx); t.evq = []
        t.mem = dict(st.mem); t.g = dict(ent.g); t.g['lazy'] = ()
        np = X.fresh('pos'); t.fact(z3.And(tz(p0) < np, np <= tz(e)))
        keep = None
        for rid, o, v in ptrs:
            x = X.fresh('ptr'); t.fact(z3.And(tz(p0) <= x, x <= tz(e)))
            m = dict(t.mem[rid]); m[o] = (8, P(r, x)); t.mem[rid] = m
            if rel[0] == 'in' and (rid, o) == rel[3:]: keep = x
        hv = None
        if rel[0] == 'word': t.fact(V == S.v6word(t, C, rel[1], bool(rel[2]), np, e))
        elif rel[0] == 'after': t.fact(V == S.v6after(t, C, rel[1], np, e))
        else:
            t.fact(V == S.v6word(t, C, rel[1], bool(rel[2]), keep, e)); S.trigger(t, 'w', keep)
            n = S.hexlen(t, C, keep, e); t.fact(n > 0); t.fact(np == keep + n); np = tadd(keep, n); hv = S.hexval(t, C, keep, n)
            xo = X.off(st, dict(((q, oo), v) for q, oo, v in ptrs)[rel[3:]].o)
            old = S.hexval(st, C, xo, S.hexlen(st, C, xo, e))
        for rid, o, w, v in ints:
            nv = X.freshsi(t, v.w, 'int')
            if hv is not None and X.prove(st, eq(v.e, old)): nv = SI(hv, v.w, 0, 65535)
            m = dict(t.mem[rid]); m[o] = (w, nv); t.mem[rid] = m
        for rid, m in list(t.mem.items()):
            if rid in ent.mem or not isinstance(m, dict) or (X.gregs.get(rid) and X.gregs[rid].const): continue
            t.mem[rid] = {o: (w, v) for o, (w, v) in m.items() if isint(v) or isinstance(v, (P, SI)) or v is UNDEF}
        m = dict(t.mem[this.r.id]); m[tadd(this.o, 16)] = (8, P(r, np)); t.mem[this.r.id] = m
        return t
    def finish(s, X, st):
        S.trigger(st, 'v4'); S.trigger(st, 'w')
    def entries(s, X, st): return [mk_parser(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[1])]
    def spec(s, X, st, v):
        this, ec = v
        r, C, b, e, p = pget(X, st, this)
        v6 = S.v6end(st, C, p, e, getattr(X, 'fid', None) == s.fn)
        pp = P(this.r, tadd(this.o, 16))
        def stopped(f):
            q = X.off(f, rd(X, f, PTR, this, 16).o)
            return bor(eq(q, e), ne(C.at(f, q), 93))
        code = Havoc(lambda c: True, 0, 1 << 16)
        if getattr(X, 'fid', None) == s.fn:
            s.entry = st.copy(); s.vals = v; s.seen = set(); X.cut = s.cut
            def post(X, f):
                return [(bor(ne(rawv(rd(X, f, I32, ec)), 0), stopped(f)), 'error or not at the end of a literal', None),
                        (ne(rawv(rd(X, f, I32, ec)), X.m.err['no_match']), 'not no_match', None)]
            return [Out(v6 >= 0, w=[setp(this, r, v6)], name='IPv6', facts=[band(lt(p, v6), lt(v6, e), eq(C.at(st, v6), 93))]),
                    Out(v6 < 0, w=[(ec, 4, code), (pp, 8, ANYP(r, p, e))], name='not IPv6', post=post)]
        q = X.fresh('v6p'); st.fact(z3.And(tz(p) <= q, q <= tz(e))); st.mark(C, q)
        return [Out(v6 >= 0, w=[setp(this, r, v6)], name='IPv6', facts=[band(lt(p, v6), lt(v6, e), eq(C.at(st, v6), 93))]),
                Out(v6 < 0, w=[(ec, 4, ERR(X)), (pp, 8, ANYP(r, p, e))], name='not IPv6'),
                Out(band(v6 < 0, bor(q == tz(e), ne(C.at(st, q), 93))), w=[setp(this, r, q)], name='something else')]
HOST = dict(none=0, name=1, ipv4=2, ipv6=3, ipvfuture=4)
class IpLiteral(Contract):
    fnname = D + 'parser::parse_ip_literal(boost::urls::detail::parts&, %s)' % EC
    def entries(s, X, st): return [mk_parser(X, st), mk_parts(X, st), mk_ec(X, st)]
    def pre(s, X, st, v): return ppre(X, st, v[0]) + [ecz(X, st, v[2])]
    def spec(s, X, st, v):
        this, pt, ec = v
        r, C, b, e, p = pget(X, st, this)
        g = band(lt(p, e), eq(at(st, C, p), 91)); q = tadd(p, 1)
        fut = band(lt(q, e), inset(at(st, C, q), S.cs('vV')))
        vf = S.vfend(st, C, q, e); v6 = S.v6end(st, C, q, e, False)
        h = P(pt.r, tadd(pt.o, 88))
        anyp = (P(this.r, tadd(this.o, 16)), 8, ANYP(r, p, e))
        return [Out(bnot(g), w=[(ec, 4, X.m.err['no_match'])], name='not a literal'),
                Out(band(g, fut, vf >= 0), w=[setp(this, r, tadd(vf, 1)), (h, 4, X.m.host['ipvfuture'])], name='IPvFuture', facts=[band(lt(q, vf), lt(vf, e))]),
                Out(band(g, fut, vf < 0), w=[(ec, 4, ERR(X)), anyp], name='bad IPvFuture'),
                Out(band(g, bnot(fut), v6 >= 0), w=[setp(this, r, tadd(v6, 1)), (h, 4, X.m.host['ipv6'])], name='IPv6', facts=[band(lt(q, v6), lt(v6, e))]),
                Out(band(g, bnot(fut), v6 < 0), w=[(ec, 4, ERR(X)), anyp], name='bad IPv6')]
LEAF += [MatchOctet, MatchV4, ParseWord, VFuture, V6, IpLiteral]
