"""Lemmas about the specification functions: every fact that spec.py, url.py,
iters.py and inv.py add without deriving it is proved here, by unfolding the
definitions and, where it speaks about a range, by an explicit induction step."""
import z3
from contract import *
import spec as S
import url as U
import inv, iters
from leaf import at
from pub import LEMMA
from objs import *
from setters import K, New, arg, enc
I = z3.Int
ALLP = tuple('C%02d' % i for i in range(1, 15)) + ('C18',)
def lemma(tags=ALLP, weight=1, reveal=(), budget=300):
    def f(fn):
        LEMMA.append(type('Lemma_' + fn.__name__, (Contract,), dict(lemma=True, public=True, tags=tags, weight=weight, reveal=set(reveal), budget=budget, __doc__=fn.__doc__,
            prove=lambda s, X, st: fn(X, st, lambda q, c, what: check(X, q, c, tags, s.name + ': ' + what)))))
        return fn
    return f
def check(X, q, c, tags, what):
    if X.check(q)[0] == z3.unsat: X.res.und.append(dict(what=what + ': contradictory assumptions', tags=list(tags), abst=False, kind='vacuous'))
    X.oblige(q, c, tags, what)
def text(X, st, name='c'):
    C = Base(name); X.keep.append(C); return C
class Shift(Content):
    """a text that agrees with C on [a, b), moved by d"""
    def __init__(s, C, a, b, d): Content.__init__(s); s.C, s.a, s.b, s.d, s.o = C, a, b, d, Base('other')
    def at(s, st, t):
        u = tsub(t, s.d)
        return ite(band(le(s.a, u), lt(u, s.b)), s.C.at(st, u), s.o.at(st, t))
    def prop(s, st, t): st.mark(s.C, tsub(t, s.d))

@lemma()
def prefix(X, st, ob):
    """Prefix.pair: a sum of terms between lo and hi"""
    f, w = S.uf('lf', 1), S.uf('lw', 1); a, d = I('a'), I('d')
    for lo, hi in ((0, 1), (1, 3)):
        q = st.copy(); P = lambda n: z3.And(lo*n <= f(a + n) - f(a), f(a + n) - f(a) <= hi*n)
        ob(q, P(z3.IntVal(0)), 'base')
        q.fact(d >= 0); q.fact(z3.And(w(a + d) >= lo, w(a + d) <= hi)); q.fact(f(a + d + 1) == f(a + d) + w(a + d)); q.fact(P(d))
        ob(q, P(d + 1), 'step')
@lemma()
def nohit(X, st, ob):
    """Cnt.onleast: a run of characters other than c contains none"""
    for c in (38, 47):
        for pct in (True, False):
            q = st.copy(); C = text(X, q); a, e, d = I('a'), I('e'), I('d'); T = frozenset(ALLB - {c, 37}) if pct else frozenset(ALLB - {c})
            q.fact(z3.And(0 <= a, a <= e)); l = S.Least(C, 'x%d%d' % (c, pct), (S.okpct if pct else S.okin)(T), a, e); q.addleast(l)
            N = lambda t: S.uf('N_%d' % C.id, 1)(t)
            q.fact(z3.And(0 <= d, a + d < l.term)); q.mark(C, norm(a + d)); b = C.at(q, norm(a + d))
            q.fact(N(a + d + 1) == N(a + d) + z3.If(b == c, 1, 0)); q.fact(N(a + d) == N(a))
            ob(q, N(a + d + 1) == N(a), 'step')
            q = st.copy(); C = text(X, q); q.fact(z3.And(0 <= a, a <= e)); l = S.Last(C, 'y%d' % c, lambda r, C, t: inset(C.at(r, t), frozenset([c])), a, e); q.addleast(l)
            N = lambda t: S.uf('N_%d' % C.id, 1)(t); G = l.term; t = norm(G + 1 + d)
            q.fact(z3.And(0 <= d, G + 1 + d < e)); q.mark(C, t); b = C.at(q, t)
            q.fact(N(t + 1) == N(t) + z3.If(b == c, 1, 0)); q.fact(N(t) == N(G + 1))
            ob(q, N(t + 1) == N(G + 1), 'step, after the last')
@lemma()
def encpos(X, st, ob):
    """encchar: every position of an encoding belongs to one character"""
    E, w = S.uf('lf', 1), S.uf('lw', 1); a, b, q, j = I('a'), I('b'), I('q'), I('j')
    at_ = lambda J, b: z3.And(a <= J, J < b, E(J) <= q, q < E(J + 1))
    st.fact(z3.And(a <= b, E(a) <= q, q < E(b + 1), z3.Implies(q < E(b), at_(j, b))))
    ob(st, at_(z3.If(q < E(b), j, b), b + 1), 'step')
@lemma()
def spmono(X, st, ob):
    """Sp: every decoded character takes at least one octet"""
    f, w = S.uf('lf', 1), S.uf('lw', 1); x, d = I('x'), I('d')
    st.fact(z3.And(x >= 0, d >= 0, f(x + d) - f(x) >= d, z3.Or(w(x + d) == 1, w(x + d) == 3), f(x + d + 1) == f(x + d) + w(x + d)))
    ob(st, f(x + d + 1) - f(x) >= d + 1, 'step')
@lemma()
def samecount(X, st, ob):
    """same_count: equal texts, and encodings, have equally many characters c"""
    for c in (38, 47):
        q = st.copy(); C = text(X, q); a, b, d, n = I('a'), I('b'), I('d'), I('n'); q.fact(z3.And(0 <= a, a <= b, 0 <= n, a + n < b)); D = Shift(C, a, b, d)
        c1 = lambda k: S.cnt(q, D, c, norm(a + d + k)) - S.cnt(q, D, c, norm(a + d)) == S.cnt(q, C, c, norm(a + k)) - S.cnt(q, C, c, a)
        q.fact(c1(n)); q.mark(C, norm(a + n)); q.mark(D, norm(a + d + n)); ob(q, c1(n + 1), 'step')
        for T in (S.PCHAR, S.QF):
            q = st.copy(); A = text(X, q); a, b, j, x = I('a'), I('b'), I('j'), I('x'); E = lambda t: S.ep(q, A, T, t)
            q.fact(z3.And(0 <= a, a <= j, j < b, 0 <= x)); k = K(X, q, Obj(C=None, o=[0]*9), A, b)
            q.mark(A, j); E(norm(j + 1)); D = inv.Pieces(k, [(x, tsub(E(b), E(a)), enc(T, a, b))]); x2 = lambda t: norm(x + E(t) - E(a))
            if c not in T: c2 = lambda t: S.cnt(q, D, c, x2(t)) - S.cnt(q, D, c, x) == 0
            else: c2 = lambda t: S.cnt(q, D, c, x2(t)) - S.cnt(q, D, c, x) == S.cnt(q, A, c, t) - S.cnt(q, A, c, a)
            q.fact(c2(j))
            for i in range(3): q.mark(D, norm(x2(j) + i))
            S.cnt(q, A, c, norm(j + 1)); ob(q, c2(norm(j + 1)), 'step, encoded')
@lemma()
def plainrun(X, st, ob):
    """characters of the set are not encoded; an encoding of the same size is the same text"""
    T = S.REGNAME; A = text(X, st); a, b, d, x = I('a'), I('b'), I('d'), I('x'); E = lambda t: S.ep(st, A, T, t)
    st.fact(z3.And(0 <= a, a <= b, d >= 0)); j = S.run(st, A, T, a, b); t = norm(a + d); st.fact(tz(t) < j); st.mark(A, t)
    st.fact(tz(E(t)) - E(a) == d); ob(st, tz(E(norm(t + 1))) - E(a) == d + 1, 'step')
    q = st.copy(); q.fact(j == b); q.fact(tz(E(b)) - E(a) == b - a)
    k = K(X, q, Obj(C=None, o=[0]*9), A, b); D = inv.Pieces(k, [(x, tsub(E(b), E(a)), enc(T, a, b))])
    ob(q, eq(D.at(q, norm(x + d)), at(q, A, t)), 'same text')
@lemma()
def v4chars(X, st, ob):
    C = text(X, st); a, b = I('a'), I('b'); st.fact(z3.And(0 <= a, a <= b)); v = S.v4end(st, C, a, b); st.fact(v == b)
    r = S.run(st, C, S.cs('0123456789.'), a, b); ob(st, r == b, 'digits and dots')
@lemma(reveal=('A', 'N'))
def ext(X, st, ob):
    """transfer: specification functions of a range depend on the text in the range"""
    for T in (S.REGNAME, S.USERINFO, S.PATH, S.QF, S.PCHAR, S.PCHAR_NC, S.DIGIT, S.SCHEME):
        q = st.copy(); C = text(X, q); a, b, d = I('a'), I('b'), I('d'); q.fact(z3.And(0 <= a, a <= b, 0 <= a + d)); D = Shift(C, a, b, d); a2, b2 = norm(a + d), norm(b + d)
        f = [(S.run, 'run')] if T in (S.DIGIT, S.SCHEME) else [(S.fb, 'escapes')]
        for g, nm in f:
            u, v = g(q, C, T, a, b), g(q, D, T, a2, b2); q.mark(D, norm(u + d)); q.mark(C, norm(v - d)); q.mark(C, u)
            ob(q, u + d == v, '%s %s' % (nm, S.tname(T)))
    q = st.copy(); C = text(X, q); a, b, d = I('a'), I('b'), I('d'); q.fact(z3.And(0 <= a, a <= b, 0 <= a + d)); D = Shift(C, a, b, d); a2, b2 = norm(a + d), norm(b + d)
    for c in (38, 47): q.fact(tz(S.cnt(q, D, c, b2)) - S.cnt(q, D, c, a2) == tz(S.cnt(q, C, c, b)) - S.cnt(q, C, c, a))      # samecount
    u, v = S.fb(q, C, S.PCHAR_NC, a, b), S.fb(q, D, S.PCHAR_NC, a2, b2); q.fact(u + d == v); q.mark(D, v); q.mark(C, u)
    ob(q, U.nseg(q, C, a, b) == U.nseg(q, D, a2, b2), 'number of segments'); ob(q, U.npar(q, C, a, b) == U.npar(q, D, a2, b2), 'number of parameters')
    ob(q, U.nocolon(q, C, a, b) == U.nocolon(q, D, a2, b2), 'no colon')
def unfold_w(st, n0):
    """unfold the words named since n0, and return what they refer to"""
    L = st.g.get('lazy', ()); new = L[n0:]; st.g['lazy'] = L[:n0]
    for kd, p, f in new:
        if kd == 'w': f(st)
    return new
def moved(x, y, d): return z3.If(x >= 0, y == x + d, y == x)
@lemma(('C03', 'C08'), 10)
def hostext(X, st, ob):
    """transfer of host types"""
    a, b, d, p = I('a'), I('b'), I('d'), I('p'); X.ct.reveal = {'host'}
    def start():
        q = st.copy(); C = text(X, q); q.fact(z3.And(0 <= a, a <= b, 0 <= a + d, a <= p)); D = Shift(C, a, b, d); return q, C, D, norm(b + d)
    q, C, D, b2 = start(); p2 = norm(p + d)
    ob(q, S.octlen(q, C, p, b) == S.octlen(q, D, p2, b2), 'octet'); ob(q, S.hexlen(q, C, p, b) == S.hexlen(q, D, p2, b2), 'word')
    # IPv4: octet by octet
    q, C, D, b2 = start(); u, v = S.v4end(q, C, p, b), S.v4end(q, D, p2, b2); x, y = p, p2
    for i in range(4):
        m, n = S.octlen(q, C, x, b), S.octlen(q, D, y, b2); ob(q, m == n, 'octet %d' % i); x, y = tadd(x, tadd(m, 1)), tadd(y, tadd(n, 1))
    ob(q, z3.And(moved(u, v, d), z3.Or(u == -1, u > p)), 'IPv4')
    # IPv6: word by word, given the words after it
    for dc in (False, True):
        for k in range(8 if not dc else 7):
            q, C, D, b2 = start(); u, v = v6node(q, C, k, dc, p, b), v6node(q, D, k, dc, p2, b2)
            ob(q, u.h == v.h, 'word length'); kids(X, q, u, v, lambda x, y: moved(x, y, d)); q.fact(z3.And(*[z3.Or(x == -1, x > p) for n, x in u.kids if n == 'V4']))
            ob(q, moved(u.f, v.f, d), 'IPv6 word %d%s' % (k, ' after ::' if dc else ''))
    q, C, D, b2 = start(); q.fact(p == a); u, v = v6top(q, C, p, b), v6top(q, D, p2, b2); kids(X, q, u, v, lambda x, y: moved(x, y, d)); ob(q, moved(u.f, v.f, d), 'IPv6')
    # IPvFuture
    q, C, D, b2 = start(); q.fact(p <= b); h1, h2 = S.run(q, C, S.HEX, norm(p + 1), b), S.run(q, D, S.HEX, norm(p2 + 1), b2)
    q.mark(D, norm(h1 + d)); q.mark(C, norm(h2 - d)); ob(q, z3.Implies(p < b, h1 + d == h2), 'version')
    f1, f2 = S.run(q, C, S.USERINFO, norm(h1 + 1), b), S.run(q, D, S.USERINFO, norm(h2 + 1), b2); q.mark(D, norm(f1 + d)); q.mark(C, norm(f2 - d))
    ob(q, z3.Implies(z3.And(p < b, h1 < b), f1 + d == f2), 'address'); ob(q, moved(S.vfend(q, C, p, b), S.vfend(q, D, p2, b2), d), 'IPvFuture')
    # all of it
    q, C, D, b2 = start(); a2 = norm(a + d); F1, F2 = S.fb(q, C, S.REGNAME, a, b), S.fb(q, D, S.REGNAME, a2, b2); q.fact(F1 + d == F2)
    for f in (lambda C, x, e, s: S.v4end(q, C, x, e, False), lambda C, x, e, s: S.v6end(q, C, tadd(x, 1), e, False)): q.fact(moved(f(C, a, b, 0), f(D, a2, b2, 1), d))
    q.fact(z3.Implies(bz(lt(a, b)), moved(S.vfend(q, C, norm(a + 1), b), S.vfend(q, D, norm(a2 + 1), b2), d)))
    ob(q, U.ht(X, q, C, a, b) == U.ht(X, q, D, a2, b2), 'host type')
def v6node(q, C, k, dc, p, e):
    """a word of an address, unfolded once; kids are the terms it refers to"""
    n0 = len(q.g.get('lazy', ())); nd = dict(q.X.named); f = S.v6word(q, C, k, dc, p, e)
    L = q.g['lazy'][n0:]; q.g['lazy'] = q.g['lazy'][:n0]
    if L: L[0][2](q)
    kd = [(n[0], v[0]) for n, v in q.X.named.items() if n not in nd and n[0].startswith('V6_') and v[0] is not f]
    if (k <= 5 if dc else k == 6): kd.append(('V4', S.v4end(q, C, p, e, False)))
    q.g['lazy'] = q.g['lazy'][:n0]
    return Obj(f=f, kids=kd, h=S.hexlen(q, C, p, e), p=p, e=e)
def v6top(q, C, p, e):
    nd = dict(q.X.named); f = S.v6end(q, C, p, e)
    return Obj(f=f, kids=[(n[0], v[0]) for n, v in q.X.named.items() if n not in nd and n[0].startswith('V6_')], h=z3.IntVal(0), p=p, e=e)
def kids(X, q, u, v, rel):
    assert [n for n, _ in u.kids] == [n for n, _ in v.kids]
    for (n, x), (_, y) in zip(u.kids, v.kids): q.fact(z3.Implies(u.h == v.h, rel(x, y)))
@lemma(('C01', 'C02', 'C03', 'C06', 'C07', 'C08', 'C09'), 10)
def cut(X, st, ob):
    """v4cut and v6cut"""
    p, e, e2 = I('p'), I('e'), I('e2')
    def start():
        q = st.copy(); C = text(X, q); q.fact(z3.And(0 <= p, e2 <= e)); return q, C
    rel4 = lambda a, b, p=p: z3.And(z3.Implies(z3.And(a >= 0, a < e2), b == a), z3.Implies(z3.And(b >= 0, b < e2), a == b), z3.Or(a == -1, z3.And(a >= p + 7, a <= e)), z3.Or(b == -1, z3.And(b >= p + 7, b <= e2)))
    q, C = start(); a, b = S.v4end(q, C, p, e), S.v4end(q, C, p, e2); x, y = p, p; ins = True
    for i in range(4):
        m, n = S.octlen(q, C, x, e), S.octlen(q, C, y, e2); ins = band(ins, eq(x, y), bor(band(m > 0, lt(tadd(x, m), e2)), band(n > 0, lt(tadd(y, n), e2))))
        ob(q, imp(ins, eq(m, n)), 'octet %d' % i); x, y = tadd(x, tadd(m, 1)), tadd(y, tadd(n, 1))
    ob(q, rel4(a, b), 'IPv4')
    q, C = start(); q.fact(p <= e2); a, b = S.v4end(q, C, p, e), S.v4end(q, C, p, e2); q.fact(z3.Or(bz(ge(e2, e)), bz(bnot(inset(at(q, C, e2), S.DIGIT))))); x, y = p, p; ins = True
    for i in range(4):
        m, n = S.octlen(q, C, x, e), S.octlen(q, C, y, e2); ins = band(ins, eq(x, y), bor(band(m > 0, le(tadd(x, m), e2)), band(n > 0, le(tadd(y, n), e2))))
        ob(q, imp(ins, eq(m, n)), 'octet %d, cut at its end' % i); x, y = tadd(x, tadd(m, 1)), tadd(y, tadd(n, 1))
    ob(q, (a == e2) == (b == e2), 'IPv4, cut at its end')
    rel = lambda a, b, p: z3.And(z3.Implies(z3.And(a >= 0, a < e2), b == a), z3.Implies(b >= 0, a == b), z3.Or(a == -1, z3.And(a >= p + 1, a < e)), z3.Or(b == -1, z3.And(b >= p + 1, b < e2)))
    for dc in (False, True):
        for k in range(8 if not dc else 7):
            q, C = start(); u, v = v6node(q, C, k, dc, p, e), v6node(q, C, k, dc, p, e2)
            off = lambda n: 1 + (not dc and n.endswith('_1'))       # a word after '::' starts one character later
            for w, E in ((u, e), (v, e2)):
                for n, x in w.kids: q.fact(z3.Or(x == -1, z3.And(x >= p + w.h + off(n), x < E)) if n != 'V4' else z3.Or(x == -1, x > p))
            for (n, x), (_, y) in zip(u.kids, v.kids): q.fact(rel4(x, y) if n == 'V4' else z3.Implies(u.h == v.h, rel(x, y, p + u.h + off(n))))
            ob(q, rel(u.f, v.f, p), 'IPv6 word %d%s' % (k, ' after ::' if dc else ''))
    q, C = start(); u, v = v6top(q, C, p, e), v6top(q, C, p, e2)
    for (n, x), (_, y) in zip(u.kids, v.kids): q.fact(rel(x, y, p + 2 if n.endswith('_1') else p))
    ob(q, rel(u.f, v.f, p), 'IPv6')
@lemma(('C12',), reveal=('NP', 'N38'))
def lookup(X, st, ob):
    """Lookup: the parameter found is not before the position searched from"""
    u = mk_url(X, st, True); A = text(X, st, 'key'); n = I('n'); k = iters.Lookup(st, u, A, n, False); J = k.I; p = I('p'); st.fact(bz(J.valid(st, p)))
    P = lambda p: z3.And(k.F(tz(p)) >= p, k.F(tz(p)) <= tz(J.e), k.N(tz(p)) >= 0, k.N(tz(p)) <= tz(J.e) - p)
    k.unfold(st, p); x = J.next(st, p)
    ob(st, z3.Implies(bz(lt(p, J.e)), z3.And(tz(x) > p, bz(J.valid(st, x)))), 'the next position is valid')
    q = st.copy(); q.fact(p == J.e); ob(q, P(p), 'base')
    q = st.copy(); q.fact(p < J.e); q.fact(P(x)); ob(q, P(p), 'step')
def fbcut(q, C, T, a, m, e, f=None):
    """lemma stops: a run of characters (and escapes) ends where none of them follows"""
    g = (f or S.fb)(q, C, T, a, e); pct = frozenset([37]) if f is None else frozenset()
    pre = band((U.allp if f is None else U.allr)(q, C, T, a, m), le(a, m), le(m, e), bor(eq(m, e), bnot(inset(at(q, C, m), frozenset(T) | pct))))
    return pre, g
@lemma(('C01', 'C02', 'C08'), reveal=('A',))
def stops(X, st, ob):
    """a run of characters and escapes ends where none of them follows"""
    for T, f in ((S.REGNAME, None), (S.USERINFO, None), (S.PATH, None), (S.QF, None), (S.PCHAR, None), (S.PCHAR_NC, None), (S.DIGIT, S.run), (S.SCHEME, S.run)):
        q = st.copy(); C = text(X, q); a, m, e = I('a'), I('m'), I('e'); q.mark(C, m); pre, g = fbcut(q, C, T, a, m, e, f); q.fact(bz(pre)); q.mark(C, g); ob(q, eq(g, m), S.tname(T))
@lemma(('C01', 'C02', 'C08'), 10, reveal=('url', 'hier', 'auth', 'host', 'NC', 'NS', 'NP', 'N47', 'N38'))
def unambiguous(X, st, ob):
    """a text with parts that satisfy the invariant is accepted by the parser's specification, with these parts"""
    H = X.m.host
    for scheme in (True, False):
        for auth in (True, False):
            q = st.copy(); C = text(X, q); n = I('n'); o = [0] + [I('o%d' % i) for i in range(1, 8)] + [n]; ns, np, h = I('ns'), I('np'), I('h')
            p = norm(o[1] + 2); o1 = o[1]
            X.ct.reveal = set()      # first what is known of the parts, by name
            w = dict(); 
            for nm, c in U.wf(X, q, C, o, ns, np, h): q.fact(bz(c)); w.setdefault(nm, []).append(c)
            q.fact(bz(gt(o1, 0)) == z3.BoolVal(scheme)); q.fact(bz(gt(o[5], o1)) == z3.BoolVal(auth))
            for x in o: q.mark(C, x); q.mark(C, tsub(x, 1))
            q.mark(C, p); q.mark(C, norm(o1 + 1))
            stepf = []
            def step(what, c, reveal=(), then=None):
                r = q.copy(); X.ct.reveal = set(reveal)
                if then: then(r)
                ob(r, c, '%s%s: %s' % ('scheme' if scheme else 'no scheme', ', authority' if auth else '', what)); X.ct.reveal = set(); q.fact(bz(c))
            def cut(T, a, m, what, f=None, e=n, also=True):
                pre, g = fbcut(q, C, T, a, m, e, f); q.mark(C, m)
                step(what, imp(also, pre)); q.fact(bz(imp(also, eq(g, m)))); return g
            # scheme
            F = S.run(q, C, S.SCHEME, 0, n); isch = band(U.ch(q, C, 0, n, U.AZ), U.ch(q, C, F, n, ':'))
            if scheme: cut(S.SCHEME, 0, norm(o1 - 1), 'scheme', S.run); step('scheme', isch)
            else:
                def th(r):
                    F0 = S.fb(r, C, S.PCHAR_NC, o[5], o[6]); r.mark(C, F); r.mark(C, F0); U.nocolon(r, C, o[5], o[6])
                step('no scheme', bnot(isch), ('NC',), th)
            a = norm(o1); sl = U.ch(q, C, a, n, '/'); sl2 = band(sl, U.ch(q, C, norm(a + 1), n, '/'))
            step('slashes', sl2 if auth else bnot(sl2))
            # what may follow
            fo = lambda i, cs: bor(eq(o[i], n), inset(at(q, C, o[i]), S.cs(cs)))
            step('after the query', fo(7, '#')); step('after the path', fo(6, '?#'))
            if auth:
                step('after the authority', fo(5, '/?#')); step('after the host', fo(4, ':/?#'))
                # host
                A, e = o[3], n; lit = U.ch(q, C, A, n, '[')
                def th(r): U.ht(X, r, C, o[3], o[4]); U.allp(r, C, S.REGNAME, o[3], o[4])
                v6a, v6b = S.v6end(q, C, norm(A + 1), o[4], False), S.v6end(q, C, norm(A + 1), n, False); v4a, v4b = S.v4end(q, C, A, o[4], False), S.v4end(q, C, A, n, False)
                U.v6cut(q, C, norm(A + 1), n, o[4]); U.v4cut(q, C, A, n, o[4])
                step('bracket', eq(lit, U.ch(q, C, A, o[4], '[')) if False else bz(lit) == bz(U.ch(q, C, A, o[4], '[')))
                def vf(r):
                    U.ht(X, r, C, o[3], o[4]); x, y = S.vfend(r, C, norm(A + 1), o[4]), S.vfend(r, C, norm(A + 1), n)
                    for e_ in (o[4], n):
                        h1 = S.run(r, C, S.HEX, norm(A + 2), e_); r.mark(C, h1); f1 = S.run(r, C, S.USERINFO, norm(h1 + 1), e_); r.mark(C, f1); r.mark(C, norm(h1 + 1))
                vfn = S.vfend(q, C, norm(A + 1), n); fut = band(lit, U.ch(q, C, norm(A + 1), n, 'vV'))
                step('future address', imp(fut, band(vfn == tz(o[4]) - 1, h == H['ipvfuture'])), ('host',), vf)
                step('IPv6 address', imp(band(lit, bnot(fut)), band(v6b == tz(o[4]) - 1, h == H['ipv6'])), ('host',), th)
                step('name', imp(bnot(lit), U.allp(q, C, S.REGNAME, o[3], o[4])), ('host', 'A'), th)
                FH = cut(S.REGNAME, o[3], o[4], 'host', also=bnot(lit))
                step('type of a name', imp(bnot(lit), h == z3.If(bz(eq(o[3], o[4])), H['none'], z3.If(v4b == tz(o[4]), H['ipv4'], H['name']))), ('host',), th)
                # userinfo
                ui = gt(o[3], p); U1 = cut(S.REGNAME, p, o[2], 'user', also=ui)
                X.ct.reveal = set(); U2 = S.fb(q, C, S.USERINFO, U1, n)
                pre, g = fbcut(q, C, S.USERINFO, o[2], norm(o[3] - 1), n); step('password', imp(ui, pre)); q.fact(bz(imp(ui, eq(g, norm(o[3] - 1))))); q.fact(bz(imp(ui, eq(U2, norm(o[3] - 1)))))
                # without userinfo no '@' follows what could be one
                def th(r): r.mark(C, U1); r.mark(C, U2); U.allr(r, C, S.DIGIT, norm(o[4] + 1), o[5])
                step('no user', imp(bnot(ui), band(U1 == z3.If(bz(lit), A, o[4]), bnot(U.ch(q, C, U2, n, '@')), bnot(U.stop(q, C, U2, n)))), ('A',), th)
                pd = gt(o[5], o[4]); cut(S.DIGIT, norm(o[4] + 1), o[5], 'port', S.run, also=pd)
                def th(r): U.g_host(X, r, C, A, n)
                hok, he, ty = U.g_host(X, q, C, A, n); step('host', band(hok, eq(he, o[4]), eq(ty, h)), ('host',), th)
                aok, a2, a3, a4, a5, aty = U.g_auth(X, q, C, p, n)
                def th(r): U.g_auth(X, r, C, p, n); U.g_host(X, r, C, A, n)
                step('user parts', band(eq(a2, o[2]), eq(a3, o[3])), ('auth',), th)
                def th(r):
                    U.g_auth(X, r, C, p, n)
                    hb, e4, t4 = U.g_host(X, r, C, a3, n); r.fact(z3.Implies(bz(eq(a3, A)), z3.And(hb == hok, e4 == he, t4 == ty)))   # congruence
                step('authority', band(aok, eq(a4, o[4]), eq(a5, o[5]), eq(aty, h)), ('auth',), th)
            # path
            if auth: cut(S.PATH, o[5], o[6], 'path', also=gt(o[6], o[5]))
            else:
                abs_ = U.ch(q, C, o[5], o[6], '/'); step('absolute', bz(abs_) == bz(sl))
                P1 = S.fb(q, C, S.PATH, norm(o1 + 1), n); F0 = S.fb(q, C, S.PCHAR if scheme else S.PCHAR_NC, o1, n); F1 = S.fb(q, C, S.PATH, F0, n)
                def th(r): U.allp(r, C, S.PATH, o[5], o[6]); r.mark(C, P1); r.mark(C, F0); r.mark(C, F1); 
                step('absolute path', imp(sl, eq(P1, o[6])), ('A', 'NC'), th)
                def th(r): U.allp(r, C, S.PATH, o[5], o[6]); r.mark(C, F0); U.nocolon(r, C, o[5], o[6]); r.mark(C, S.fb(r, C, S.PCHAR_NC, o[5], o[6]))
                step('first segment', imp(bnot(sl), band(le(F0, o[6]), bor(eq(F0, o[6]), eq(at(q, C, F0), 47)))), ('A', 'NC'), th)
                def th(r): U.allp(r, C, S.PATH, o[5], o[6]); r.mark(C, F0); r.mark(C, F1)
                step('further segments', imp(bnot(sl), eq(F1, o[6])), ('A',), th)
            ok, oo, hn, ht, _ = U.g_hier(X, q, C, scheme, o1, n)
            def th(r):
                U.g_hier(X, r, C, scheme, o1, n)
                if auth: U.g_auth(X, r, C, norm(o1 + 2), n)
            step('hierarchical part', band(ok, *[eq(x, y) for x, y in zip(oo, o[2:7])], eq(ht, h)), ('hier',), th)
            def th(r): U.g_hier(X, r, C, scheme, o1, n); U.nseg(r, C, o[5], o[6])
            step('segments', eq(hn, ns), ('hier', 'N'), th)
            cut(S.QF, norm(o[6] + 1), o[7], 'query', also=gt(o[7], o[6])); cut(S.QF, norm(o[7] + 1), n, 'fragment', also=gt(n, o[7]))
            OK, out = U.g_url(X, q, C, 0, n)
            c, ok2, po, pn, pp, pt = out[0 if scheme else 1]
            def th(r): U.g_url(X, r, C, 0, n); S.fb(r, C, S.QF, o[6], n); U.npar(r, C, o[6], o[7])
            step('parts', band(c, ok2, *[eq(x, y) for x, y in zip(po, o)], eq(pn, ns), eq(pp, np), eq(pt, h)), ('url', 'N'), th)
            step('accepted', OK, ('url',), th)
