"""Contracts of the public operations (through the vt:: wrappers of tu.cpp)."""
import z3
from contract import *
import spec as S

PUB = []; LEMMA = []     # contracts of public operations; lemmas over the contracts
def pub(c): PUB.append(c); return c
def wrappers(m, w):
    return [k for k in m.byname if k.startswith(('vt::%s(' % w, 'vt::%s[' % w))]

# ---------------------------------------------------------------- static_pool
class Pool(Contract):
    tags = ('C16',); public = True
    def entries(s, X, st):
        b = mk_bytes(X, st, 'buf', inp=False)
        top = z3.Int('top'); n = X.freshsi(st, 64, 'n')
        cap = z3.Int('len_buf'); st.fact(cap >= 0); st.fact(cap < (1 << 46)); b.size = cap
        st.fact(z3.And(0 <= top, top <= cap))
        X.addr(st, b)
        q = X.region(st, 'pool', 'cells', 24); st.mem[q.id] = {0: (8, P(b, 0)), 8: (8, SI(cap, 64, 0, 1 << 46)), 16: (8, P(b, top))}
        st.g['show'] = dict(top=top, n=n.e, cap=cap, addr=b.addr)
        return [P(q, 0), n]
    def spec(s, X, st, v):
        b = rd(X, st, PTR, v[0]).r; top = rd(X, st, PTR, v[0], 16).o; cap = b.size; n = st.uns(v[1])
        a = X.addr(st, b); A = s.align
        u = z3.Int('pad'); st.fact(z3.And(u >= 0, u < A, (a + top + u) % A == 0))
        first = tadd(top, u); fits = tadd(first, tmul(n, s.size)) <= cap
        def post(X, f):
            p = f.final[1]; t = f.mem[v[0].r.id][16][1]
            if not isinstance(p, P) or p.r is not b or not isinstance(t, P) or t.r is not b:
                return [(False, 'a block in the buffer', None)]
            o = X.off(f, p.o); t = X.off(f, t.o)
            return [((a + tz(o)) % A == 0, 'aligned', None), (ge(o, top), 'after the blocks handed out before', None),
                    (le(tadd(o, tmul(n, s.size)), cap), 'inside the buffer', None),
                    (band(ge(t, tadd(o, tmul(n, s.size))), le(t, cap)), 'later blocks come after it', None)]
        return [Out(fits, ANY, w=[(P(v[0].r, 16), 8, AnyPtr(b, 0, cap))], name='fits', post=post), Out(bnot(fits), exc='bad_alloc', name='does not fit')]
for _n, _sz in dict(SP_char=1, SP_u16=2, SP_u32=4, SP_u64=8, SP_ld=16).items():
    pub(type('Pool_' + _n, (Pool,), dict(wrap=_n, size=_sz, align=_sz)))

@pub
class Pool_ctor(Contract):
    tags = ('C16',); public = True; wrap = 'SP_ctor'
    def entries(s, X, st):
        b = mk_bytes(X, st, 'buf', inp=False); q = X.region(st, 'pool', 'cells', 24)
        return [P(q, 0), P(b, 0), si64(b.size)]
    def spec(s, X, st, v):
        return [Out(True, w=[(P(v[0].r, 0), 8, v[1]), (P(v[0].r, 8), 8, v[2]), (P(v[0].r, 16), 8, v[1])])]

# ---------------------------------------------------------------- alloc_storage
def as_layout(X):
    """offsets of pointer, size, capacity"""
    for n, t in X.m.structs.items():
        if 'alloc_storage"' in n and t.k == 's':
            ps = [X.m.field(t, i) for i, e in enumerate(t.el) if e.k == 'p']; ns = [X.m.field(t, i) for i, e in enumerate(t.el) if e.k == 'i' and e.w == 64]
            if len(ps) == 1 and len(ns) == 2: return X.m.size(t), ps[0], ns[0], ns[1]
    raise Unsupported('layout of alloc_storage')
def mk_storage(X, st, empty):
    n, po, so, co = as_layout(X)
    q = X.region(st, 'storage', 'cells', n)
    vt = [g for g in X.m.globals if g.startswith('@_ZTV') and 'alloc_storage' in g]
    if len(vt) != 1: raise Unsupported('vtable')
    V = {0: (8, P(X.globreg(st, vt[0]), 16))}
    if empty:
        st.mem[q.id] = {0: V[0], po: (8, NULL), so: (8, 0), co: (8, 0)}; return q
    size, cap = z3.Int('size'), z3.Int('cap')
    st.fact(z3.And(0 <= size, size <= cap, cap > 0, cap < (1 << 46)))
    b = mk_bytes(X, st, 'text', tadd(cap, 1), inp=False)
    st.mem[q.id] = {0: V[0], po: (8, P(b, 0)), so: (8, SI(size, 64, 0, 1 << 46)), co: (8, SI(cap, 64, 0, 1 << 46))}
    st.g['show'] = dict(size=size, cap=cap)
    return q
class Store_(Contract):
    tags = ('C15',); public = True; meth = None
    def entries(s, X, st):
        out = []
        for e in (True, False):
            t = st.copy(); q = mk_storage(X, t, e); a = [P(q, 0)]
            if s.meth in ('reserve', 'resize'):
                n = X.freshsi(t, 64, 'n'); t.fact(n.e < (1 << 62)); a.append(n); t.g['show'] = dict(t.g.get('show', {}), n=n.e)
            out.append((t, a))
        return out
    def spec(s, X, st, v):
        N, po, so, co = as_layout(X); q = v[0].r
        g = lambda o: st.mem[q.id][o][1]
        p, size, cap = g(po), g(so), g(co)
        if s.meth == 'size': return [Out(True, size)]
        if s.meth == 'capacity': return [Out(True, cap)]
        n = st.uns(v[1]); size, cap = st.uns(size), st.uns(cap); C = X.content(st, p.r) if p.r else None
        fits = le(n, cap); outs = []
        keep = size if s.meth == 'reserve' else tmin(size, n)
        def post(X, f):
            M = f.mem[q.id]; p2, s2, c2 = M[po][1], f.uns(M[so][1]), f.uns(M[co][1]); r = f.final[1]; out = []
            out.append((veq(X, f, r, p2), 'returns the buffer', None))
            out.append((eq(s2, size if s.meth == 'reserve' else n), 'size', None))
            out.append((band(ge(c2, cap), ge(c2, n)), 'capacity', None))
            if p2.r is None:
                out.append((band(eq(c2, 0), eq(s2, 0)), 'no buffer only when empty', None)); return out
            out.append((band(p2.r.id not in f.dead, eq(X.off(f, p2.o), 0), eq(p2.r.size, tadd(c2, 1))), 'buffer has room for capacity and terminator', None))
            D = X.content(f, p2.r)
            if C is not None:
                t = f.copy(); t.final = f.final; k = X.fresh('K'); t.fact(z3.And(k >= 0, k < tz(keep)))
                t.mark(D, k); t.mark(C, k)
                X.oblige(t, eq(D.at(t, k), C.at(t, k)), s.tags, s.name + ': existing characters preserved')
                if s.meth == 'reserve':
                    f.mark(D, size); f.mark(C, size)
                    out.append((bor(ne(C.at(f, size), 0), eq(D.at(f, size), 0)), 'terminator kept', None))
            if s.meth == 'resize':
                f.mark(D, n); out.append((eq(D.at(f, n), 0), 'terminator written', None))
            return out
        any_ = lambda lo=0: Havoc(None, 0, mask(64))
        def same(X, f):
            M = f.mem[q.id]
            return [(veq(X, f, M[po][1], p), 'same buffer', None), (eq(f.uns(M[co][1]), cap), 'same capacity', None)]
        # within the capacity: same buffer; beyond it: a new one, or bad_alloc and nothing changed
        outs.append(Out(fits, ANY, w=[(P(q, so), 8, any_())] if s.meth == 'resize' else [], content={p.r.id: ANYC} if p.r and s.meth == 'resize' else {},
                        name='fits', post=lambda X, f: same(X, f) + post(X, f)))
        w = [(P(q, po), 8, ANY), (P(q, co), 8, any_())]
        if s.meth == 'resize': w.append((P(q, so), 8, any_()))
        outs.append(Out(bnot(fits), ANY, w=w, name='grows', post=post))
        outs.append(Out(bnot(fits), exc='bad_alloc', maybe=True, name='allocation failure'))
        return outs
for _n in 'capacity size reserve resize'.split():
    pub(type('Storage_' + _n, (Store_,), dict(wrap='AS_' + _n, meth=_n)))

@pub
class Storage_ctor(Contract):
    tags = ('C15',); public = True; wrap = 'AS_ctor'
    def entries(s, X, st):
        q = X.region(st, 'storage', 'cells', as_layout(X)[0]); return [P(q, 0)]
    def spec(s, X, st, v):
        n, po, so, co = as_layout(X); vt = [g for g in X.m.globals if g.startswith('@_ZTV') and 'alloc_storage' in g]
        q = v[0].r
        return [Out(True, w=[(P(q, 0), 8, P(X.globreg(st, vt[0]), 16)), (P(q, po), 8, NULL), (P(q, so), 8, 0), (P(q, co), 8, 0)])]

# ---------------------------------------------------------------- schemes
SCHEMES = ['ftp', 'file', 'http', 'https', 'ws', 'wss']
@pub
class ToScheme(Contract):
    tags = ('C17',); public = True; wrap = 'S_to_scheme'
    def entries(s, X, st): return mk_str(X, st)
    def spec(s, X, st, v):
        C = X.content(st, v[0].r); n = st.uns(v[1]); outs = []; rest = True
        for k in SCHEMES:
            for i in range(len(k)): st.mark(C, i)
            c = band(eq(n, len(k)), *[inset(C.at(st, i), S.cs(ch + ch.upper())) for i, ch in enumerate(k)])
            outs.append(Out(c, X.m.scheme[k], name=k)); rest = band(rest, bnot(c))
        outs.append(Out(rest, X.m.scheme['unknown'], name='unknown'))
        return outs
@pub
class FromScheme(Contract):
    tags = ('C17',); public = True; wrap = 'S_to_string'
    def entries(s, X, st):
        k = X.freshsi(st, 64, 'k', 0, 255); return [k]
    def spec(s, X, st, v):
        outs = []; rest = True; k = st.uns(v[0])
        for nm in SCHEMES:
            c = eq(k, X.m.scheme[nm])
            def post(X, f, nm=nm):
                r = f.final[1]; p, n = r.v; C = X.content(f, p.r)
                o = X.off(f, p.o)
                return [(eq(f.uns(n), len(nm)), 'length', None)] + [(eq(C.at(f, tadd(o, i)), ord(ch)), 'character %d' % i, None) for i, ch in enumerate(nm)]
            outs.append(Out(c, ANY, name=nm, post=post)); rest = band(rest, bnot(c))
        outs.append(Out(rest, ANY, name='other'))
        return outs
