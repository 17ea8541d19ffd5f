"""Specification functions.  Every fact added here is a definitional axiom or a
lemma listed in lemmas.py, which checks each of them on every run."""
import z3
from engine import *

# ---- RFC 3986 character classes
def cs(s): return frozenset(s.encode())
ALPHA = cs('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = cs('0123456789')
HEX = cs('0123456789abcdefABCDEF')
UNRES = ALPHA | DIGIT | cs('-._~')
SUBD = cs("!$&'()*+,;=")
REGNAME = UNRES | SUBD
USERINFO = REGNAME | cs(':')
PCHAR = USERINFO | cs('@')
PCHAR_NC = PCHAR - cs(':')
PATH = PCHAR | cs('/')
QF = PCHAR | cs('/?')
QKEY = QF - cs('=&')
QVAL = QF - cs('&')
SCHEME = ALPHA | DIGIT | cs('+-.')
NAMES = {}
for _n in 'ALPHA DIGIT HEX REGNAME USERINFO PCHAR PCHAR_NC PATH QF QKEY QVAL SCHEME'.split(): NAMES[globals()[_n]] = _n
_tn = {}
def tname(T):
    if T in NAMES: return NAMES[T]
    if T not in _tn: _tn[T] = 'T%d' % len(_tn)
    return _tn[T]
HEXV = tuple((i - 48 if 48 <= i <= 57 else i - 55 if 65 <= i <= 70 else i - 87 if 97 <= i <= 102 else 255) for i in range(256))
def hexv(b):
    """value of a hexadecimal digit"""
    if isint(b): return HEXV[b]
    return fm_term(FM(b, tuple(x if x < 16 else 0 for x in HEXV), 8))
HEXC = b'0123456789ABCDEF'
ENC1 = tuple(HEXC[i >> 4] for i in range(256))
ENC2 = tuple(HEXC[i & 15] for i in range(256))
def tab(b, t): return t[b] if isint(b) else fm_term(FM(b, t, 8))

def uf(name, n): return z3.Function(name, *([z3.IntSort()]*(n+1)))

class Least:
    """least i in [a,e) where pred fails, else e"""
    def __init__(s, C, key, pred, a, e, excl=frozenset(), back=False):
        s.C, s.key, s.pred, s.a, s.e, s.excl = C, key, pred, a, e, excl
        s.term = uf('L_%s_%d' % (key, C.id), 2)(tz(a), tz(e))
    def basic(s, st):
        L = s.term
        st.fact(z3.Implies(bz(le(s.a, s.e)), z3.And(bz(le(s.a, L)), bz(le(L, s.e)))))
        st.fact(z3.Implies(bz(band(le(s.a, s.e), lt(L, s.e))), bz(bnot(s.pred(st, s.C, L, s.e)))))
    def inst(s, st, t):
        c = band(le(s.a, t), lt(t, s.term))
        if c is False or st.simp(c) is False: return
        st.fact(z3.Implies(bz(c), bz(s.pred(st, s.C, t, s.e))))
class Last:
    """greatest i in [a,e) where hit holds, else a-1"""
    excl = frozenset()
    def __init__(s, C, key, hit, a, e):
        s.C, s.key, s.hit, s.a, s.e = C, key, hit, a, e
        s.term = uf('G_%s_%d' % (key, C.id), 2)(tz(a), tz(e))
    def basic(s, st):
        G = s.term
        st.fact(z3.Implies(bz(le(s.a, s.e)), z3.And(bz(le(tsub(s.a, 1), G)), bz(lt(G, s.e)))))
        st.fact(z3.Implies(bz(band(le(s.a, s.e), le(s.a, G))), bz(s.hit(st, s.C, G))))
    def inst(s, st, t):
        c = band(le(s.a, t), lt(t, s.e), gt(t, s.term))
        if c is False: return
        st.fact(z3.Implies(bz(c), bz(bnot(s.hit(st, s.C, t)))))

def okpct(T):
    T = frozenset(T)
    def pred(st, C, t, e):
        b = C.at(st, t)
        return bor(inset(b, T), band(eq(b, 37), lt(tadd(t, 2), e), inset(C.at(st, tadd(t, 1)), HEX), inset(C.at(st, tadd(t, 2)), HEX)))
    return pred
def okin(T):
    T = frozenset(T)
    def pred(st, C, t, e): return inset(C.at(st, t), T)
    return pred

def fb(st, C, T, a, e):
    """end of the longest run of T characters and percent escapes from a (37 not in T, HEX within T)"""
    L = Least(C, 'pct_' + tname(T), okpct(T), a, e, frozenset(ALLB - T - {37}))
    st.addleast(L); return L.term
def run(st, C, T, a, e):
    """end of the longest run of characters of T from a"""
    L = Least(C, 'run_' + tname(T), okin(T), a, e, frozenset(ALLB - T))
    st.addleast(L); return L.term
def last(st, C, T, a, e):
    G = Last(C, tname(T), lambda st, C, t: inset(C.at(st, t), T), a, e)
    st.addleast(G); return G.term

class Prefix:
    """prefix sums over a content"""
    def __init__(s, C, key, w, lo, hi):
        s.C, s.key, s.w, s.lo, s.hi = C, key, w, lo, hi
        s.f = uf('%s_%d' % (key, C.id), 1)
    def at(s, st, t):
        s = st.addstep(s)
        e = s.f(tz(t))
        d = st.prefix.setdefault((s.C.id, s.key), {})
        k = e.get_id()
        if k not in d:
            for u in list(d.values()):
                s.pair(st, t, u); 
            d[k] = t; st.X.keep.append(e)
        return e
    def pair(s, st, t, u):
        d = tsub(t, u)
        for a, b in ((t, u), (u, t)):
            c = le(a, b)
            if c is False: continue
            x, y = s.f(tz(a)), s.f(tz(b))
            st.fact(z3.Implies(bz(c), z3.And(tz(tsub(b, a))*s.lo <= y - x, y - x <= tz(tsub(b, a))*s.hi)))
    def step(s, st, t):
        a, b = s.at(st, t), s.at(st, tadd(t, 1))
        st.fact(b == a + tz(s.w(s.C.at(st, t))))
    def onleast(s, st, L): pass
class Cnt(Prefix):
    """number of characters c before a position"""
    def __init__(s, C, c):
        Prefix.__init__(s, C, 'N%d' % c, lambda b: ite(eq(b, c), 1, 0), 0, 1); s.c = c
    def onleast(s, st, L):
        if isinstance(L, Last):
            # none after the last occurrence
            if L.key == tname(frozenset([s.c])):
                st.fact(z3.Implies(bz(le(L.a, L.e)), s.at(st, tadd(L.term, 1)) == s.at(st, L.e)))
            return
        if s.c in L.excl:
            st.fact(z3.Implies(bz(le(L.a, L.e)), s.at(st, L.term) == s.at(st, L.a)))
def cnt(st, C, c, t):
    c = ord(c) if isinstance(c, str) else c
    return Cnt(C, c).at(st, t)
class Enc(Prefix):
    """encoded length before a position"""
    def __init__(s, C, T):
        T = frozenset(T)
        Prefix.__init__(s, C, 'E' + tname(T), lambda b: ite(inset(b, T), 1, 3), 1, 3); s.T = T
def ep(st, C, T, t): return Enc(C, T).at(st, t)
def encsize(st, C, T, a, b): return tsub(ep(st, C, T, b), ep(st, C, T, a))
def encchar(st, C, T, a, b, t, guard=True):
    """t-th character of the encoding of C[a,b); guard implies 0 <= t < size"""
    T = frozenset(T)
    q = tadd(ep(st, C, T, a), t)
    j = uf('EI_%s_%d' % (tname(T), C.id), 1)(tz(q))
    ep(st, C, T, b)
    st.mark(C, j)
    st.fact(z3.Implies(bz(guard), z3.And(bz(le(a, j)), bz(lt(j, b)), ep(st, C, T, j) <= tz(q), tz(q) < ep(st, C, T, tadd(j, 1)))))
    b0 = C.at(st, j); d = tsub(q, ep(st, C, T, j))
    return ite(inset(b0, T), b0, ite(eq(d, 0), 37, ite(eq(d, 1), tab(b0, ENC1), tab(b0, ENC2))))
def enc_content(prev, off, C, T, a, b, n):
    return Fun(prev, off, n, lambda st, t, g: encchar(st, C, T, a, b, t, g))

# ---- decoding: sp(k) is where the k-th decoded character starts
class Sp:
    def __init__(s, C, a):
        s.C, s.a = C, a; s.key = ('SP', a if isint(a) else a.get_id())
        s.f = uf('SP_%d' % C.id, 2)
    def t(s, k): return s.f(tz(s.a), tz(k))
    def at(s, st, k):
        d = st.prefix.setdefault((s.C.id, s.key), {})
        e = s.t(k); i = e.get_id()
        if i not in d:
            us = list(d.values()); d[i] = k; st.X.keep.append(e)
            if not us: st.g['sp'] = st.g.get('sp', []) + [s]; st.fact(s.t(0) == tz(s.a)); us = [0]; d[s.t(0).get_id()] = 0
            for u in us:
                for x, y in ((k, u), (u, k)):
                    c = band(le(0, x), le(x, y))
                    if c is False: continue
                    st.fact(z3.Implies(bz(c), s.t(y) - s.t(x) >= tz(tsub(y, x))))
            st.mark(s.C, e)
            b = s.C.at(st, e)
            st.fact(z3.Implies(bz(le(0, k)), s.t(tadd(k, 1)) == e + tz(ite(eq(b, 37), 3, 1))))
        return e
def sp(st, C, a, k): return Sp(C, a).at(st, k)
def decsize(st, C, a, b):
    n = uf('DL_%d' % C.id, 2)(tz(a), tz(b))
    st.fact(z3.Implies(bz(le(a, b)), z3.And(n >= 0, n <= tz(tsub(b, a)), sp(st, C, a, n) >= tz(b),
        z3.Implies(n > 0, sp(st, C, a, tsub(n, 1)) < tz(b)))))
    return n
def decchar(st, C, a, k):
    p = sp(st, C, a, k); b = C.at(st, p)
    v = tadd(tmul(hexv(C.at(st, tadd(p, 1))), 16), hexv(C.at(st, tadd(p, 2))))
    return ite(eq(b, 37), v, b)

# ---- hosts.  Functions of a position, unfolded once per position term.
def _once(st, key):
    d = st.g.get('def', frozenset())
    if key in d: return False
    st.g['def'] = d | {key}; return True
def _at(st, C, t):
    st.mark(C, t); return C.at(st, t)
def named(st, kind, C, p, e):
    """a constant for a function value at one position (positions are canonical terms)"""
    k = (kind, C.id, p if isint(p) else p.get_id(), e if isint(e) else e.get_id())
    d = st.X.named
    if k not in d: d[k] = (z3.Int('%s!%d' % (kind, len(d))), p, e)
    return d[k][0]
def octlen(st, C, p, e):
    """length of the dec-octet at p (greedy), 0 if there is none"""
    f = named(st, 'OL', C, p, e)
    if _once(st, f.get_id()):
        st.X.keep.append(f)
        b = [_at(st, C, tadd(p, i)) for i in range(4)]
        d = [band(lt(tadd(p, i), e), inset(b[i], DIGIT)) for i in range(4)]
        v = tz(b[0])*100 + tz(b[1])*10 + tz(b[2]) - 48*111
        st.fact(f == z3.If(bz(bnot(d[0])), 0, z3.If(bz(bor(eq(b[0], 48), bnot(d[1]))), 1, z3.If(bz(bnot(d[2])), 2,
            z3.If(bz(band(v <= 255, bnot(d[3]))), z3.IntVal(3), z3.IntVal(0))))))
    return f
def octval(st, C, p, n):
    b = [tz(_at(st, C, tadd(p, i))) - 48 for i in range(3)]
    return z3.If(n == 1, b[0], z3.If(n == 2, b[0]*10 + b[1], b[0]*100 + b[1]*10 + b[2]))
def lazy(st, kind, p, f):
    """f unfolds a definition when execution gets to position p"""
    k = p if isint(p) else p.get_id()
    st.X.keep.append(p)
    st.g['lazy'] = st.g.get('lazy', ()) + ((kind, k, f),)
def trigger(st, kind, p=None, last=None):
    L = st.g.get('lazy', ())
    k = None if p is None else (p if isint(p) else p.get_id())
    hit = [x for x in L if x[0] == kind and (p is None or x[1] == k)]
    if last is not None: hit = hit[-last:]
    st.g['lazy'] = tuple(x for x in L if not any(x is h for h in hit))
    for x in hit: x[2](st)
def v4end(st, C, p, e, now=True):
    """end of the IPv4 address at p, or -1"""
    f = uf('V4_%d' % C.id, 2)(tz(p), tz(e))
    def unfold(st):
        if not _once(st, f.get_id()): return
        st.X.keep.append(f)
        ok = []; q = p
        for i in range(4):
            n = octlen(st, C, q, e); ok.append(n > 0); q = tadd(q, n)
            if i < 3:
                ok.append(band(lt(q, e), eq(_at(st, C, q), 46))); q = tadd(q, 1)
        st.fact(f == z3.If(bz(band(*ok)), tz(q), z3.IntVal(-1)))
    if now: unfold(st)
    else: lazy(st, 'v4', p, unfold)
    return f
def hexlen(st, C, p, e):
    """number of hexadecimal digits at p, at most 4"""
    f = named(st, 'HL', C, p, e)
    if _once(st, f.get_id()):
        st.X.keep.append(f)
        b = [_at(st, C, tadd(p, i)) for i in range(4)]
        d = [band(lt(tadd(p, i), e), inset(b[i], HEX)) for i in range(4)]
        st.fact(f == z3.If(bz(bnot(d[0])), 0, z3.If(bz(bnot(d[1])), 1, z3.If(bz(bnot(d[2])), 2, z3.If(bz(bnot(d[3])), z3.IntVal(3), z3.IntVal(4))))))
    return f
def hexval(st, C, p, n):
    h = [hexv(_at(st, C, tadd(p, i))) for i in range(4)]
    return z3.If(n == 1, tz(h[0]), z3.If(n == 2, h[0]*16 + h[1], z3.If(n == 3, h[0]*256 + h[1]*16 + h[2], h[0]*4096 + h[1]*256 + h[2]*16 + h[3])))
def v6word(st, C, k, dc, p, e):
    """position of the ']' after an IPv6 address whose words k, k+1, ... start at p, or -1"""
    f = named(st, 'V6_%d_%d' % (k, dc), C, p, e)
    def unfold(st):
        if not _once(st, f.get_id()): return
        st.X.keep.append(f); NO = z3.IntVal(-1)
        h = hexlen(st, C, p, e); q = tadd(p, h); c = _at(st, C, q); q1 = tadd(q, 1); c1 = _at(st, C, q1)
        lim = 6 if dc else 7        # a further word needs k + 1 <= lim
        nxt = v6word(st, C, k + 1, dc, q1, e) if k + 1 <= lim else NO
        two = NO if dc else v6after(st, C, k + 1, tadd(q, 2), e)
        dot = NO
        if (k <= 5 if dc else k == 6):
            v = v4end(st, C, p, e, False)
            dot = z3.If(z3.And(v >= 0, bz(lt(v, e)), bz(eq(_at(st, C, v), 93))), v, NO)
        r = z3.If(bz(h == 0), NO, z3.If(bz(ge(q, e)), NO,
             z3.If(bz(eq(c, 58)), z3.If(bz(band(lt(q1, e), eq(c1, 58))), two, nxt),
             z3.If(bz(eq(c, 93)), tz(q) if (k + 1 <= 7 if dc else k + 1 == 8) else NO,
             z3.If(bz(eq(c, 46)), dot, NO)))))
        st.fact(f == r)
    lazy(st, 'w', p, unfold)
    return f
def v6after(st, C, k, p, e):
    """the same after '::' and k words"""
    NO = z3.IntVal(-1)
    if k > 7: return NO
    st.X.keep.append(p); st.g['after'] = st.g.get('after', frozenset()) | {('after', k, p if isint(p) else p.get_id())}
    end = band(lt(p, e), eq(_at(st, C, p), 93))
    return z3.If(bz(end), tz(p), v6word(st, C, k, True, p, e) if k <= 6 else NO)
def v6end(st, C, p, e, now=True):
    """position of the ']' closing the IPv6 address at p, or -1"""
    f = uf('V6_%d' % C.id, 2)(tz(p), tz(e))
    if now and _once(st, f.get_id()):
        st.X.keep.append(f)
        two = band(lt(tadd(p, 1), e), eq(_at(st, C, p), 58), eq(_at(st, C, tadd(p, 1)), 58))
        st.fact(f == z3.If(bz(two), v6after(st, C, 0, tadd(p, 2), e), v6word(st, C, 0, False, p, e)))
    return f
def vfend(st, C, p, e):
    """position of the ']' closing the IPvFuture address at p, or -1"""
    h = run(st, C, HEX, tadd(p, 1), e); f = run(st, C, USERINFO, tadd(h, 1), e)
    ok = band(lt(p, e), inset(_at(st, C, p), cs('vV')), gt(h, tadd(p, 1)), lt(h, e), eq(_at(st, C, h), 46), gt(f, tadd(h, 1)), lt(f, e), eq(_at(st, C, f), 93))
    return z3.If(bz(ok), tz(f), z3.IntVal(-1))
