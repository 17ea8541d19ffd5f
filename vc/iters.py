"""Contracts of the segment and parameter views and their iterators.

A position is the offset of a piece: the beginning of the path (query), a
separator inside it, or its end.  next and prev are functions of the text."""
import z3
from contract import *
import spec as S
import url as U
from leaf import at
from pub import pub
from objs import *

NOT = lambda cs: frozenset(ALLB - S.cs(cs))
def run(st, C, T, a, e):
    """S.run; a contract that is opaque does not see the definition"""
    if not st.X.ct.opaque: return S.run(st, C, T, a, e)
    l = S.Least(C, 'run_' + S.tname(T), None, a, e); st.X.keep.append(l.term)
    st.fact(z3.Implies(bz(le(a, e)), z3.And(bz(le(a, l.term)), bz(le(l.term, e)))))
    return l.term
class Seg:
    """positions of a path [a, e)"""
    tags = ('C10',); cells = 2
    def __init__(s, st, u): s.st, s.u, s.C, s.a, s.e, s.n = st, u, u.C, u.o[5], u.o[6], u.ns
    def next(s, st, p): return run(st, s.C, NOT('/'), tadd(p, 1), s.e)
    def prev(s, st, p): return S.last(st, s.C, S.cs('/'), tadd(s.a, 1), p)
    def valid(s, st, p): return band(ge(p, s.a), le(p, s.e), bor(eq(p, s.a), eq(p, s.e), eq(at(st, s.C, p), 47)))
    def lens(s, st, p): return [ite(lt(p, s.e), tsub(s.next(st, p), p), 0)]
    def index(s, st, p):
        """number of pieces before p"""
        d = tsub(S.cnt(st, s.C, 47, p), S.cnt(st, s.C, 47, s.a))
        return ite(eq(p, s.a), 0, ite(eq(at(st, s.C, s.a), 47), d, tadd(d, 1)))
    def inner(s, st, p, ln): return tadd(p, ite(eq(at(st, s.C, p), 47), 1, 0)), tadd(p, ln[0])
class Par:
    """positions of a query part [a, e)"""
    tags = ('C11',); cells = 3
    def __init__(s, st, u): s.st, s.u, s.C, s.a, s.e, s.n = st, u, u.C, u.o[6], u.o[7], u.np
    def next(s, st, p): return run(st, s.C, NOT('&'), tadd(p, 1), s.e)
    def kend(s, st, p):
        k = run(st, s.C, NOT('=&'), tadd(p, 1), s.e)
        if st.X.ct.opaque: st.fact(bz(imp(lt(p, s.e), le(k, s.next(st, p)))))      # proved as a consequence in ItLeaf
        return k
    def prev(s, st, p): return S.last(st, s.C, S.cs('&'), tadd(s.a, 1), p)
    def valid(s, st, p): return band(ge(p, s.a), le(p, s.e), bor(eq(p, s.a), eq(p, s.e), eq(at(st, s.C, p), 38)))
    def lens(s, st, p):
        i = lt(p, s.e); k = s.kend(st, p); n = s.next(st, p)
        return [ite(i, tsub(k, p), 0), ite(i, tsub(n, k), 0)]
    def index(s, st, p):
        d = tsub(S.cnt(st, s.C, 38, p), S.cnt(st, s.C, 38, s.a))
        return ite(eq(p, s.a), 0, tadd(d, 1))
    def key(s, st, p): return tadd(p, 1), s.kend(st, p)
    def value(s, st, p):
        k = s.kend(st, p); n = s.next(st, p)
        return ite(lt(k, n), tadd(k, 1), n), n

def mk_at(X, st, u, kind, name, inside=None):
    """an iterator of u at any valid position; inside: 'deref' not at the end, 'dec' not at the beginning"""
    I = (Seg if kind[1] == 'S' else Par)(st, u); n = I.cells
    q = X.region(st, name, 'cells', (40 if kind[0] == 'V' else 32) - (8 if n == 2 else 0))
    head = [(8, P(u.r, 0) if u.r else NULL), (8, u.pt)] if kind[0] == 'V' else [(8, u.p)]
    if u.C is None: p = 0; ln = [0]*(n - 1)
    else:
        p = z3.Int(name + '_p'); st.fact(bz(I.valid(st, p))); st.fact(bz(imp(eq(I.a, I.e), eq(p, I.a))))
        if inside == 'deref': st.fact(bz(lt(p, I.e)))
        if inside == 'dec': st.fact(bz(gt(p, I.a)))
        ln = I.lens(st, p); st.g['show'] = dict(st.g.get('show', {}), **{name + '_p': p})
    cells = head + [(8, si(p, 64, 0, 1 << 46))] + [(8, si(x, 64, 0, 1 << 46)) for x in ln]
    st.mem[q.id] = {8*i: c for i, c in enumerate(cells)}
    return P(q, 0), I, p, ln
def it_is(X, f, q, kind, u, p, ln, tags=None):
    """the iterator at q is at position p"""
    M = f.mem[q.r.id]; b = q.o; h = 16 if kind[0] == 'V' else 8; out = []
    if any(b + 8*i not in M for i in range(h//8 + 1 + len(ln))): return [(False, 'an iterator', tags)]
    if kind[0] == 'V': out.append((band(veq(X, f, M[b][1], P(u.r, 0) if u.r else NULL), veq(X, f, M[b+8][1], u.pt)), 'same URL', tags))
    else: out.append((veq(X, f, M[b][1], u.p), 'same URL', tags))
    out.append((eq(f.uns(M[b + h][1]), p), 'position', tags))
    for i, x in enumerate(ln): out.append((eq(f.uns(M[b + h + 8 + 8*i][1]), x), 'length %d' % i, tags))
    return out
def mk_range(X, st, u, kind):
    """the segments or params view of u"""
    if kind[0] == 'V':
        q = X.region(st, 'range', 'cells', 16); st.mem[q.id] = {0: (8, P(u.r, 0) if u.r else NULL), 8: (8, u.pt)}
    else: q = X.region(st, 'range', 'cells', 8); st.mem[q.id] = {0: (8, u.p)}
    return P(q, 0)
def mk_null(X, st, kind):
    q = X.region(st, 'range', 'cells', 16 if kind[0] == 'V' else 8); st.mem[q.id] = {8*i: (8, NULL) for i in range(2 if kind[0] == 'V' else 1)}
    return P(q, 0)
class It(Obs):
    kind2 = 'VS'; inside = None; states = (False, True)
    def entries(s, X, st):
        out = []
        for full in s.states:
            t = st.copy(); u = MK[s.kind2[0]](X, t, full); t.g['u'] = u
            out.append((t, s.args(X, t, u)))
        return out
class Make(Obs):
    """segments() and params() of url_view and const url_base"""
    def args(s, X, st, u):
        q = X.region(st, 'o:view', 'cells', 16); st.mem[q.id] = {0: (8, NULL), 8: (8, NULL)}; return [u.p, P(q, 0)]
    def spec(s, X, st, v):
        u = st.g['u']
        return [Out(True, w=[(v[1], 8, P(u.r, 0) if u.r else NULL), (P(v[1].r, 8), 8, u.pt)])]
for _n, _k, _t in (('V_segments', 'V', 'C10'), ('U_csegments', 'U', 'C10'), ('V_params', 'V', 'C11'), ('U_cparams', 'U', 'C11')):
    pub(type(_n, (Make,), dict(wrap=_n, kind=_k, tags=(_t,))))
class Size(It):
    def entries(s, X, st):
        t = st.copy(); t.g['u'] = None
        return It.entries(s, X, st) + ([(t, [mk_null(X, t, s.kind2)])] if s.kind2[0] == 'V' else [])
    def args(s, X, st, u): return [mk_range(X, st, u, s.kind2)]
    def spec(s, X, st, v):
        u = st.g['u']
        if u is None: n = 0
        else: n = u.ns if s.kind2[1] == 'S' else u.np
        if s.op == 'size': return [Out(True, si(n, 64, 0, 1 << 46))]
        return [Out(eq(n, 0), 1, name='empty'), Out(ne(n, 0), 0, name='not empty')]
class Begin(It):
    def args(s, X, st, u):
        q = X.region(st, 'out:it', 'cells', 40)
        return [mk_range(X, st, u, s.kind2), P(q, 0)]
    def entries(s, X, st):
        t = st.copy(); q = X.region(t, 'out:it', 'cells', 40); t.g['u'] = None
        return It.entries(s, X, st) + ([(t, [mk_null(X, t, s.kind2), P(q, 0)])] if s.kind2[0] == 'V' else [])
    def spec(s, X, st, v):
        u = st.g['u']
        if u is None:
            n = 3 if s.kind2[1] == 'S' else 4
            def post(X, f):
                M = f.mem[v[1].r.id]
                return [(band(veq(X, f, M[0][1], NULL), veq(X, f, M[8][1], NULL), *[eq(f.uns(M[8*i][1]), 0) for i in range(2, n + 1)]), 'begin and end of nothing are equal', None)]
            return [Out(True, post=post)]
        I = (Seg if s.kind2[1] == 'S' else Par)(st, u); p = I.a if s.op == 'begin' else I.e
        if u.C is None: ln = [0]*(I.cells - 1)
        else:
            ln = I.lens(st, p); N = I.index(st, I.e)
        def post(X, f):
            out = it_is(X, f, v[1], s.kind2, u, p, ln)
            if u.C is not None:
                out.append((eq(I.index(f, I.a), 0), 'the first piece has index 0', None))
                out.append((eq(I.index(f, I.e), I.n), 'the end has index size()', None))
                out.append((iff(eq(I.n, 0), eq(I.a, I.e)), 'empty exactly when size() is 0', None))
            return out
        return [Out(True, post=post)]
class Move(It):
    states = (True,)
    def args(s, X, st, u):
        q, I, p, ln = mk_at(X, st, u, s.kind2, 'it', 'deref' if s.op == 'inc' else 'dec'); st.g['I'] = (I, p, ln)
        return [q]
    def spec(s, X, st, v):
        u = st.g['u']; I, p, ln = st.g['I']
        p2 = I.next(st, p) if s.op == 'inc' else I.prev(st, p)
        ln2 = I.lens(st, p2); ix = I.index(st, p), I.index(st, p2)
        back = I.prev(st, p2) if s.op == 'inc' else I.next(st, p2)
        def post(X, f):
            return it_is(X, f, v[0], s.kind2, u, p2, ln2) + [(I.valid(f, p2), 'valid position', None), (eq(back, p), 'undone by the inverse', None),
                (eq(tsub(ix[1], ix[0]), 1 if s.op == 'inc' else -1), 'index changes by one', None)]
        return [Out(True, free=[v[0].r], post=post)]
class Eq(It):
    states = (True,)
    def args(s, X, st, u):
        q, I, p, ln = mk_at(X, st, u, s.kind2, 'it'); q2, I, p2, ln2 = mk_at(X, st, u, s.kind2, 'jt'); st.g['pp'] = p, p2
        return [q, q2]
    def spec(s, X, st, v):
        p, p2 = st.g['pp']; c = eq(p, p2) if s.op == 'eq' else ne(p, p2)
        return [Out(c, 1, name='yes'), Out(bnot(c), 0, name='no')]
class Deref(It):
    states = (True,)
    def args(s, X, st, u):
        q, I, p, ln = mk_at(X, st, u, s.kind2, 'it', 'deref'); st.g['I'] = (I, p, ln)
        return [q]
    def spec(s, X, st, v):
        u = st.g['u']; I, p, ln = st.g['I']
        a, b = I.inner(st, p, ln) if s.op == 'enc' else getattr(I, s.op)(st, p)
        return [Out(True, ANY, post=lambda X, f: [(span(X, f, f.final[1], u, a, b), 'the characters of the piece', None)])]
class DerefStr(It):
    tags = ('C04',); states = (True,)
    def args(s, X, st, u):
        q, I, p, ln = mk_at(X, st, u, s.kind2, 'it', 'deref'); st.g['I'] = (I, p, ln)
        r = X.region(st, 'out:str', 'cells', 32)
        return [P(r, 0), q]
    def spec(s, X, st, v):
        u = st.g['u']; I, p, ln = st.g['I']
        a, b = I.inner(st, p, ln) if s.op == 'enc' else getattr(I, s.op)(st, p)
        return [Out(True, ANY, post=lambda X, f: str_is(X, f, v[0], u.C, a, b, True)), Out(True, exc='bad_alloc', maybe=True)]
for _k in ('VS', 'US', 'VP', 'UP'):
    _t = ('C10',) if _k[1] == 'S' else ('C11',)
    def _mk(n, B, op, tags=_t, _k=_k): pub(type('%s_%s' % (_k, n), (B,), dict(wrap='%s_%s' % (_k, n), kind2=_k, op=op, tags=tags, reveal={'NP', 'N38', 'A_QF'} if _k[1] == 'P' else {'NS', 'N47', 'A_PATH'} if B is DerefStr else {'NS', 'N47'})))
    for _n in ('size', 'empty'): _mk(_n, Size, _n)
    for _n in ('begin', 'end'): _mk(_n, Begin, _n)
    for _n in ('inc', 'dec'): _mk(_n, Move, _n)
    for _n in ('eq', 'ne'): _mk(_n, Eq, _n)
    if _k[1] == 'S': _mk('enc', Deref, 'enc'); _mk('str', DerefStr, 'enc', ('C04',))
    else:
        _mk('ekey', Deref, 'key'); _mk('evalue', Deref, 'value'); _mk('key', DerefStr, 'key', ('C04',)); _mk('value', DerefStr, 'value', ('C04',))

# ---------------------------------------------------------------- contracts used at call sites
import leaf as L
CLS = dict(VS='url_view::segments_type', US='url_base::segments_type', VP='url_view::params_type', UP='url_base::params_type')
def at_it(X, st, q, kind, lens=True):
    """the URL and position of the iterator at q"""
    M = st.mem[q.r.id]; b = q.o
    def g(o):
        c = M.get(tadd(b, o))
        if c is None or c[1] is UNDEF: raise Unsupported('iterator')
        return c[1]
    if kind[0] == 'V': s, pt, h = g(0), g(8), 16
    else:
        v = g(0); h = 8
        if not isinstance(v, P) or v.r is None: raise Unsupported('iterator')
        s, pt = st.mem[v.r.id][tadd(v.o, 104)][1], P(v.r, tadd(v.o, 8))
    if not isinstance(s, P) or s.r is None or pt.r is None or not (isint(s.o) and s.o == 0): raise Unsupported('iterator')
    o, ns, np, hh = parts_at(st, pt)
    u = Obj(C=X.content(st, s.r), o=o, ns=ns, np=np, r=s.r)
    I = (Seg if kind[1] == 'S' else Par)(st, u)
    return I, st.uns(g(h)), h, [g(h + 8 + 8*i) for i in range(I.cells - 1)] if lens else []
class ItLeaf(Contract):
    """parse() and ++ of an iterator"""
    def end(s): return s.kind2 == 'US' and s.op == 'parse'     # parse() of a url's segments accepts the end
    def entries(s, X, st):
        u = MK[s.kind2[0]](X, st, True); q, I, p, ln = mk_at(X, st, u, s.kind2, 'it', None if s.end() else 'deref')
        if s.op == 'parse':
            h = 16 if s.kind2[0] == 'V' else 8; m = dict(st.mem[q.r.id])
            for i in range(len(ln)): m[h + 8 + 8*i] = (8, X.freshsi(st, 64, 'any'))
            st.mem[q.r.id] = m
        return [q]
    def pre(s, X, st, v):
        I, p, h, ln = at_it(X, st, v[0], s.kind2, s.op == 'inc'); C = I.C; a, e = I.a, I.e
        c = [(band(ge(a, 0), le(a, e), le(e, I.u.r.size), le(a, p), le(p, e) if s.end() else lt(p, e), True if s.end() else gt(I.n, 0)), 'range'), (I.valid(st, p), 'position')]
        if s.kind2[1] == 'P': c.append((band(eq(at(st, C, a), 63), U.allp(st, C, S.QF, tadd(a, 1), e)), 'query'))
        if s.op == 'inc': c.append((band(*[eq(st.uns(x), y) for x, y in zip(ln, I.lens(st, p))]), 'lengths'))
        return c
    def spec(s, X, st, v):
        I, p, h, ln = at_it(X, st, v[0], s.kind2, s.op == 'inc'); q = v[0]; facts = []
        if s.op == 'inc':
            w = [(P(q.r, tadd(q.o, h)), 8, si(I.next(st, p), 64, 0, MAXOBJ))]; p = I.next(st, p); facts = [I.valid(st, p)]
        else: w = []
        for i, x in enumerate(I.lens(st, p)): w.append((P(q.r, tadd(q.o, h + 8 + 8*i)), 8, si(x, 64, 0, MAXOBJ)))
        if s.kind2[1] == 'P':
            k, n = I.kend(st, p), I.next(st, p); i = lt(p, I.e)
            facts.append(imp(i, band(L.valid(st, I.C, tadd(p, 1), k), le(k, n), bor(eq(k, n), eq(at(st, I.C, k), 61)))))
            facts.append(imp(band(i, lt(k, n)), L.valid(st, I.C, tadd(k, 1), n)))
        return [Out(True, v[0] if s.op == 'inc' else None, w=w, facts=facts)]
for _k in ('VS', 'US', 'VP', 'UP'):
    for _n, _f in (('parse', 'parse()'), ('inc', 'operator++()')):
        L.LEAF.append(type('%s_it_%s' % (_k, _n), (ItLeaf,), dict(kind2=_k, op=_n, fnname='boost::urls::%s::iterator::%s' % (CLS[_k], _f), reveal={'NP', 'N38', 'A_QF'} if _k[1] == 'P' else {'NS', 'N47'})))

# ---------------------------------------------------------------- lookup by key
import leaf as L
def key_eq(st, C, a, e, A, m, n):
    """the percent-decoding of C[a, e) is the text A[m, m+n)"""
    if A is None: return U.dfb(st, 'KE0', C, (a, e), lambda: eq(S.decsize(st, C, a, e), 0), 'KE')
    def f():
        d = S.decsize(st, C, a, e)
        pred = lambda q, B, t, x: eq(B.at(q, t), S.decchar(q, C, a, tsub(t, m)))
        l = S.Least(A, 'eq%d_%s' % (C.id, a if isint(a) else a.get_id()), pred, m, tadd(m, n)); st.addleast(l)
        return band(eq(d, n), eq(l.term, tadd(m, n)))
    return U.dfb(st, 'KE%d' % A.id, C, (a, e, m, n), f, 'KE')
class KeyEqual(Contract):
    fnname = L.D + 'key_equal(%s, %s)' % (L.SV, L.SV)
    reveal = {'KE'}
    def entries(s, X, st):
        out = []
        for null in (True, False):
            t = st.copy(); r, a, e = mk_slice(X, t)
            if null: k = [NULL, 0]
            else: q, b, d = mk_slice(X, t, 'key'); k = [P(q, b), si64(tsub(d, b))]
            out.append((t, [P(r, a), si64(tsub(e, a))] + k))
        return out
    def get(s, X, st, v):
        if v[0].r is None: raise Unsupported('null')
        if v[2].r is None and v[3] != 0: raise Unsupported('null key')
        a = X.off(st, v[0].o); m = X.off(st, v[2].o) if v[2].r else 0
        return X.content(st, v[0].r), a, tadd(a, st.uns(v[1])), X.content(st, v[2].r) if v[2].r else None, m, st.uns(v[3])
    def pre(s, X, st, v):
        C, a, e, A, m, n = s.get(X, st, v)
        return [(band(ge(a, 0), le(a, e), le(e, v[0].r.size)), 'range'), (L.valid(st, C, a, e), 'valid escapes'), (True if A is None else band(ge(m, 0), ge(n, 0), le(tadd(m, n), v[2].r.size)), 'key')]
    def spec(s, X, st, v):
        C, a, e, A, m, n = s.get(X, st, v)
        c = key_eq(st, C, a, e, A, m, n)
        return [Out(c, 1, name='equal'), Out(bnot(c), 0, name='different')]
L.LEAF.append(KeyEqual)
class Lookup:
    """the parameters with key A[0, n), from a position on"""
    def __init__(s, st, u, A, n, lemma=True):
        s.lemma = lemma; s.I = Par(st, u); s.A, s.n, s.C = A, n, u.C; k = '%d_%d' % (u.C.id, A.id if A else 0)
        s.F, s.N = S.uf('FP_' + k, 1), S.uf('CN_' + k, 1)
        s.unfold(st, s.I.a)
    def unfold(s, st, p):
        I = s.I; x = I.next(st, p); a, b = I.key(st, p); c = key_eq(st, s.C, a, b, s.A, 0, s.n); p, x = tz(p), tz(x); i = bz(lt(p, I.e))
        st.fact(z3.Implies(i, z3.And(s.F(p) == z3.If(c, p, s.F(x)), s.N(p) == s.N(x) + z3.If(c, z3.IntVal(1), z3.IntVal(0)))))
        st.fact(z3.Implies(bz(eq(p, I.e)), z3.And(s.F(p) == p, s.N(p) == 0)))
        # lemma lookup: the position found is not before p (induction over next)
        if s.lemma: st.fact(z3.Implies(z3.And(i, bz(I.valid(st, p))), z3.And(s.F(p) >= p, s.F(p) <= tz(I.e), s.N(p) >= 0, s.N(p) <= tz(I.e) - p)))
    def first(s): return s.F(tz(s.I.a))
    def count(s): return s.N(tz(s.I.a))
    def candidates(s, X, st, vars, ints, T, x0):
        out = []; I = s.I; loc = {(v.rid, v.off): v for v, r in ints if r is None}
        for v in loc.values():
            if not isint(v.off): continue
            w = [loc.get((v.rid, v.off + 8)), loc.get((v.rid, v.off + 16))]
            if None in w: continue
            g = T(v)
            out.append(('valid', lambda q, g=g: I.valid(q, g(q))))
            out.append(('lens', lambda q, g=g, w=w: band(*[eq(T(x)(q), y) for x, y in zip(w, I.lens(q, g(q)))])))
            def esc(q, g=g):
                p = g(q); k, n = I.kend(q, p), I.next(q, p); i = lt(p, I.e)
                return band(imp(i, band(L.valid(q, I.C, tadd(p, 1), k), le(k, n), bor(eq(k, n), eq(at(q, I.C, k), 61)))), imp(band(i, lt(k, n)), L.valid(q, I.C, tadd(k, 1), n)))
            out.append(('escapes', esc))
            def same(q, g=g): s.unfold(q, g(q)); return s.F(tz(g(q))) == s.first()
            out.append(('first', same))
            for z, r in ints:
                if r is None and z is not v and z not in w:
                    b = tz(x0[id(v)])
                    def sm(q, g=g, z=z, b=b): s.unfold(q, g(q)); return tz(T(z)(q)) + s.N(tz(g(q))) == tz(x0[id(z)]) + s.N(b)
                    out.append(('count', sm)); out.append(('bound', lambda q, z=z, g=g, b=b: z3.And(tz(T(z)(q)) >= 0, tz(T(z)(q)) - tz(x0[id(z)]) <= tz(g(q)) - b)))
        return out
class Find(It):
    tags = ('C12',); out = False
    def entries(s, X, st):
        outs = []
        for full in (None, False, True):
            for nk in (True, False):
                if full is None and s.kind2[0] == 'U': continue
                t = st.copy(); u = None if full is None else MK[s.kind2[0]](X, t, full); t.g['u'] = u
                q = mk_null(X, t, s.kind2) if u is None else mk_range(X, t, u, s.kind2)
                k = [NULL, 0] if nk else mk_str(X, t, 'key')
                o = [P(X.region(t, 'out:it' if s.op == 'find' else 'out:str', 'cells', 40), 0)]
                outs.append((t, ([q] + k + o) if s.op == 'find' else (o + [q] + k) if s.op in ('index', 'at') else [q] + k))
        return outs
    def spec(s, X, st, v):
        u = st.g['u']; b = 1 if s.op in ('index', 'at') else 0
        none = u is None or u.C is None
        if not none:
            A = X.content(st, v[b+1].r) if v[b+1].r else None
            k = Lookup(st, u, A, st.uns(v[b+2])); I = k.I; F = k.first(); X.extra_candidates = [k.candidates]
            miss = eq(F, I.e); hit = bnot(miss); k.unfold(st, F)
        else: miss = True; hit = False
        if s.op == 'contains': return [Out(hit, 1, name='present'), Out(miss, 0, name='absent')]
        if s.op == 'count': return [Out(True, 0 if none else SI(k.count(), 64, 0, MAXOBJ))]
        if s.op == 'find':
            if none: return [Out(True)]
            ln = I.lens(st, F)
            return [Out(True, post=lambda X, f: it_is(X, f, v[3], s.kind2, u, F, ln))]
        empty = lambda X, f: str_is(X, f, v[0], None, 0, 0, False)
        outs = [Out(miss, ANY, name='absent', post=empty) if s.op == 'index' else Out(miss, exc='out_of_range', name='absent')]
        if not none:
            x, y = I.value(st, F); outs.append(Out(hit, ANY, name='present', post=lambda X, f: str_is(X, f, v[0], u.C, x, y, True)))
        return outs + [Out(True, exc='bad_alloc', maybe=True)]
for _k in ('VP', 'UP'):
    for _n in ('find', 'contains', 'count', 'index', 'at'):
        pub(type('%s_%s' % (_k, _n), (Find,), dict(opaque=True, eslices=6, wrap='%s_%s' % (_k, _n), kind2=_k, op=_n, reveal={'NP', 'N38'})))
