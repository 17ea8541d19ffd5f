"""Contracts of the edits of a url's segments: the new path as pieces of the
old path, the argument and separators, and the iterator that is returned."""
import z3
from contract import *
import spec as S
import url as U
from leaf import at
from pub import pub
from objs import *
from setters import *
import iters
from iters import Seg, NOT, mk_at, mk_range, it_is

def nocol(st, C, a, b): return U.allr(st, C, NOT(':'), a, b)
class Edit(Setter):
    tags = ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13'); extra = ('C13',); reveal = {'NS', 'N47', 'NC', 'R_' + S.tname(NOT(':')), 'A_' + S.tname(S.PCHAR)}; plain = False
    def entries(s, X, st):
        out = []
        for full in (False, True):
            if not full and s.op != 'insert': continue
            for null in ((True, False) if s.op != 'erase' else (None,)):
                t = st.copy(); u = mk_url(X, t, full); t.g['u'] = u
                q, I, p, ln = mk_at(X, t, u, 'US', 'pos', 'deref' if s.op == 'replace' or s.wrap == 'US_erase1' else None); t.g['p'] = (I, p)
                a = [mk_range(X, t, u, 'US'), q]
                if s.wrap == 'US_erase2':
                    q2, I, p2, ln = mk_at(X, t, u, 'US', 'last'); t.fact(p <= p2); t.g['p2'] = p2; a.append(q2)
                if null is not None: a += [NULL, 0] if null else mk_str(X, t)
                r = X.region(t, 'out:it', 'cells', 24); t.mem[r.id] = {0: (8, NULL), 8: (8, 0), 16: (8, 0)}
                out.append((t, a + [P(r, 0)]))
        return out
    def k(s, X, st, v):
        if s.op == 'erase': k = K(X, st, st.g['u'], None, 0)
        else: k = K(X, st, st.g['u'], X.content(st, v[2].r) if v[2].r else None, st.uns(v[3]))
        k.I, k.p = st.g['p']; k.it = v[-1]
        return k
    def seg(s, k):
        """pieces of the new segment, whether it is acceptable, empty, and free of colons"""
        if k.A is None: return [], True, True, True
        body = enc(S.PCHAR, 0, k.n) if s.plain else arg(0, k.n)
        return [body], True if s.plain else k.allp(S.PCHAR, 0, k.n), eq(k.n, 0), nocol(k.st, k.A, 0, k.n)
    def spec(s, X, st, v):
        k = s.k(X, st, v); u = k.u; free = [u.p.r, u.sg, u.r] + [q.r for q in v if isinstance(q, P) and q.r and q.r.name in ('pos', 'last')]
        same = k.new(); bad = lambda X, f: check(k, X, f, same, s.T(False)); outs = []
        T2 = lambda X, f, new, off: check(k, X, f, new, s.T(True)) + s.after(k, X, f, new, off)
        for c in s.cases(k):
            g, new = c[0], c[1]; name = c[-1]
            if new is None: outs.append(Out(g, exc='invalid_part', name=name, tags=('C13', 'C07'), free=free, post=bad))
            else: outs.append(Out(g, ANY, name=name, tags=('C13', 'C07'), free=free, post=lambda X, f, new=new, off=c[2]: T2(X, f, new, off)))
        for e in ('bad_alloc', 'too_large'): outs.append(Out(True, exc=e, maybe=True, tags=('C09',), free=free, post=bad))
        return outs
    def T(s, ok):
        d = dict(offset=('C06', 'C08', 'C13'), text=('C06', 'C08', 'C13') + (('C05',) if s.plain else ()), host=('C08', 'C06', 'C13'), nseg=('C08', 'C10', 'C13'), nparam=('C08', 'C06', 'C13'), store=('C08',))
        return lambda w: tuple(d[w]) if ok else ('C09', 'C13')
    def after(s, k, X, f, new, off):
        """the returned iterator is at offset off of the new path"""
        o, _ = layout(k, new); M = f.mem[k.u.p.r.id]; q = M[104][1]; p = tadd(o[5], off)
        if not isinstance(q, P) or q.r is None: return it_is(X, f, k.it, 'US', k.u, p, [0], ('C13',))
        I = Seg(f, Obj(C=X.content(f, q.r), o=o, ns=new.ns)); f.mark(I.C, p)
        return it_is(X, f, k.it, 'US', k.u, p, I.lens(f, p), ('C13',)) + [(I.valid(f, p), 'valid position', ('C13',))]
class Insert(Edit):
    op = 'insert'
    def cases(s, k):
        st, u, o, p = k.st, k.u, k.o, k.p; seg, ok, empty, nc = s.seg(k); o5, o6 = o[5], o[6]; sl = lit('/')
        n = 0
        for x in seg: n = tadd(n, plen(k, x))
        mk = lambda ps: k.new({5: ps}, ns=tadd(u.ns, 1))
        bs = [(bnot(ok), None, 'invalid segment'), (eq(o5, o6), mk([sl] + seg), tadd(n, 1), 'empty path')]
        if u.C is None: return branches(*bs)
        ab = eq(at(st, u.C, o5), 47); first = eq(p, o5)
        bs += [(band(first, ab, bnot(k.auth), empty), None, 'would start with two slashes'),
               (band(first, ab), mk([sl] + seg + [old(o5, o6)]), tadd(n, 1), 'first, absolute'),
               (band(first, bor(empty, band(bnot(k.sch), bnot(nc)))), None, 'not a first segment'),
               (first, mk(seg + [sl, old(o5, o6)]), n, 'first, relative'),
               (band(bnot(k.auth), ab, eq(o6, tadd(o5, 1))), None, 'after an empty first segment'),
               (True, mk([old(o5, p), sl] + seg + [old(p, o6)]), tadd(tsub(p, o5), tadd(n, 1)), 'later')]
        return branches(*bs)
class Replace(Edit):
    op = 'replace'
    def cases(s, k):
        st, u, o, p, I = k.st, k.u, k.o, k.p, k.I; seg, ok, empty, nc = s.seg(k); o5, o6 = o[5], o[6]
        n = 0
        for x in seg: n = tadd(n, plen(k, x))
        ab = eq(at(st, u.C, o5), 47); first = eq(p, o5); nx = I.next(st, p); sl = eq(at(st, u.C, p), 47)
        return branches((bnot(ok), None, 'invalid segment'),
            (band(first, ab, bnot(k.auth), empty, lt(nx, o6)), None, 'would start with two slashes'),
            (band(first, bnot(ab), bor(empty, band(bnot(k.sch), bnot(nc)))), None, 'not a first segment'),
            (sl, k.new({5: [old(o5, tadd(p, 1))] + seg + [old(nx, o6)]}), tadd(tsub(tadd(p, 1), o5), n), 'after a slash'),
            (True, k.new({5: seg + [old(nx, o6)]}), n, 'first of a relative path'))
class Erase(Edit):
    op = 'erase'
    def cases(s, k):
        st, u, o, p, I = k.st, k.u, k.o, k.p, k.I; o5, o6 = o[5], o[6]
        q = st.g['p2'] if s.wrap == 'US_erase2' else I.next(st, p); qn = I.next(st, q)
        st.mark(u.C, q)
        ab = eq(at(st, u.C, o5), 47); first = eq(p, o5); ns = tsub(u.ns, tsub(I.index(st, q), I.index(st, p))); rest = lt(q, o6)
        e2 = eq(qn, tadd(q, 1)); nc = nocol(st, u.C, tadd(q, 1), qn)
        return branches((eq(p, q), k.new(), tsub(p, o5), 'nothing'),
            (band(first, rest, bnot(k.auth), ab, e2, lt(qn, o6)), None, 'would start with two slashes'),
            (band(first, rest, bnot(ab), bor(e2, band(bnot(k.sch), bnot(nc)))), None, 'not a first segment'),
            (band(first, bnot(ab), rest), k.new({5: [old(tadd(q, 1), o6)]}, ns=ns), 0, 'first of a relative path'),
            (band(first, bnot(ab)), k.new({5: []}, ns=ns), 0, 'all of a relative path'),
            (True, k.new({5: [old(o5, p), old(q, o6)]}, ns=ns), tsub(p, o5), 'range'))
for _n, _B, _pl in (('insert', Insert, True), ('insert_encoded', Insert, False), ('replace', Replace, True), ('replace_encoded', Replace, False), ('erase1', Erase, False), ('erase2', Erase, False)):
    pub(type('US_' + _n, (_B,), dict(wrap='US_' + _n, plain=_pl, weight=50, eslices={'insert': 4, 'replace': 2}.get(_B.op), tags=Edit.tags if _pl else tuple(t for t in Edit.tags if t != 'C05'))))
