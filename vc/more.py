"""Contracts of the remaining public operations: forwarding members, default
construction, postfix iteration, and the url class itself (a url_base together
with the storage it owns)."""
import z3
from contract import *
import spec as S
import leaf as L
import url as U
import iters, pub as PB, setters
from leaf import at
from pub import pub
from objs import *
from iters import It, Deref, Move, Seg, Par, Make, mk_at, it_is

pub(type('V_size', (Flag,), dict(kind='V', get='size', wrap='V_size', tags=('C02',))))
@pub
class V_data(Obs):
    kind = 'V'; wrap = 'V_data'; tags = ('C02',)
    def spec(s, X, st, v):
        u = st.g['u']
        return [Out(True, ANY, post=lambda X, f: [(veq(X, f, f.final[1], P(u.r, 0) if u.r else NULL), 'the given text', None)])]
@pub
class U_capacity(Obs):
    kind = 'U'; wrap = 'U_capacity'; tags = ('C15',)
    def spec(s, X, st, v):
        u = st.g['u']; return [Out(True, si(st.mem[u.sg.id]['cap'], 64, 0, MAXOBJ))]
for _n, _t in (('U_segments', 'C10'), ('U_params', 'C11')):
    class _M(Obs):
        def args(s, X, st, u):
            q = X.region(st, 'o:view', 'cells', 8); st.mem[q.id] = {0: (8, NULL)}; return [u.p, P(q, 0)]
        def spec(s, X, st, v): return [Out(True, w=[(v[1], 8, st.g['u'].p)])]
    pub(type(_n, (_M,), dict(wrap=_n, kind='U', tags=(_t,))))
class PMove(Move):
    """i++ and i--: move the iterator and return where it was"""
    def args(s, X, st, u): return Move.args(s, X, st, u) + [P(X.region(st, 'out:old', 'cells', 40), 0)]
    def spec(s, X, st, v):
        u = st.g['u']; I, p, ln = st.g['I']; o = Move.spec(s, X, st, v)[0]; move = o.post
        o.post = lambda X, f: move(X, f) + it_is(X, f, v[1], s.kind2, u, p, ln)
        return [o]
class Pair(It):
    """the conversion of a parameter to a pair of strings"""
    tags = ('C04',); states = (True,)
    def args(s, X, st, u):
        q, I, p, ln = mk_at(X, st, u, s.kind2, 'it', 'deref'); st.g['I'] = (I, p, ln)
        return [P(X.region(st, 'out:pair', 'cells', 64), 0), q]
    def spec(s, X, st, v):
        u = st.g['u']; I, p, ln = st.g['I']; r = v[0].r
        return [Out(True, ANY, post=lambda X, f: str_is(X, f, P(r, 0), u.C, *I.key(f, p), True) + str_is(X, f, P(r, 32), u.C, *I.value(f, p), True)), Out(True, exc='bad_alloc', maybe=True)]
class Zero(Contract):
    """a default constructed view or iterator refers to nothing"""
    public = True; n = 8
    def entries(s, X, st): return [P(X.region(st, 'obj', 'cells', s.n), 0)]
    def spec(s, X, st, v): return [Out(True, ANY if s.wrap.endswith('it0') else None, w=[(P(v[0].r, 8*i), 8, NULL if i < s.np else 0) for i in range(s.n // 8)])]
for _k in ('VS', 'US', 'VP', 'UP'):
    _t = ('C10',) if _k[1] == 'S' else ('C11',); _p = 2 if _k[0] == 'V' else 1; _s = _k[1] == 'S'
    _r = {'NP', 'N38', 'A_QF'} if not _s else {'NS', 'N47'}
    def _mk(n, B, op, tags=_t, _k=_k, _r=_r): pub(type('%s_%s' % (_k, n), (B,), dict(wrap='%s_%s' % (_k, n), kind2=_k, op=op, tags=tags, reveal=_r)))
    _mk('pinc', PMove, 'inc'); _mk('pdec', PMove, 'dec')
    if _s: _mk('aenc', Deref, 'enc')
    else: _mk('aekey', Deref, 'key'); _mk('aevalue', Deref, 'value'); _mk('pair', Pair, 'pair', ('C04',))
    pub(type(_k + '_ctor0', (Zero,), dict(wrap=_k + '_ctor0', tags=_t, n=8*_p, np=_p)))
    pub(type(_k + '_it0', (Zero,), dict(wrap=_k + '_it0', tags=_t, n=8*(_p + (2 if _s else 3)), np=_p)))
@pub
class V_ctor0(Contract):
    public = True; wrap = 'V_ctor0'; tags = ('C02',)
    def entries(s, X, st): return [P(X.region(st, 'out:view', 'cells', 104), 0)]
    def spec(s, X, st, v):
        def post(X, f):
            o, ns, np, h = parts_at(f, P(v[0].r, 8))
            return [(band(*[eq(x, 0) for x in o] + [eq(ns, 0), eq(np, 0), eq(h, X.m.host['none'])]), 'empty', None)]
        return [Out(True, post=post)]
@pub
class S_special(Contract):
    tags = ('C17',); public = True; wrap = 'S_special'
    def entries(s, X, st): return mk_str(X, st)
    def spec(s, X, st, v):
        outs = PB.ToScheme.spec(s, X, st, v); c = bor(*[o.guard for o in outs[:-1]])
        return [Out(c, 1, name='known'), Out(bnot(c), 0, name='unknown')]

# ---------------------------------------------------------------- the storage object and url
@pub
class Storage_dtor(Contract):
    """the buffer is freed exactly once"""
    tags = ('C15', 'C14'); public = True; wrap = 'AS_dtor'
    def entries(s, X, st):
        out = []
        for e in (True, False):
            t = st.copy(); q = PB.mk_storage(X, t, e); out.append((t, [P(q, 0)]))
        return out
    def spec(s, X, st, v):
        N, po, so, co = PB.as_layout(X); b = st.mem[v[0].r.id][po][1]
        return [Out(True, free=[v[0].r] + ([b.r] if b.r else []), post=lambda X, f: [(b.r is None or b.r.id in f.dead, 'buffer freed', None)])]
class W_(Contract):
    """construction of a url: its url_base is as constructed on the storage, which it owns"""
    public = True; tags = ('C01', 'C02', 'C03', 'C08', 'C14')
    def entries(s, X, st):
        N, po, so, co = PB.as_layout(X); out = []
        for a in s.argl(X, st):
            t = a[0]; q = X.region(t, 'out:w', 'cells', N + 112); out.append((t, [P(q, 0)] + a[1]))
        return out
    def argl(s, X, st): return [(st, [])]
    def spec(s, X, st, v):
        N, po, so, co = PB.as_layout(X); q = v[0].r
        n = st.uns(v[2]) if len(v) > 2 else 0; C = X.content(st, v[1].r) if len(v) > 2 and v[1].r else None
        ok = bor(eq(n, 0), U.okurl(st, C, 0, n)) if C is not None else True
        def post(X, f):
            M = f.mem[q.id]; o, ns, np, h = parts_at(f, P(q, N + 8)); d = M[N + 104][1]; T = ('C02', 'C08')
            out = [(veq(X, f, M[N][1], P(q, 0)), 'uses its own storage', T), (veq(X, f, M[po][1], d), 'buffer', T), (band(eq(o[0], 0), eq(o[8], n), eq(f.uns(M[so][1]), n)), 'size', T)]
            if d.r is None: return out + [(band(eq(n, 0), eq(f.uns(M[co][1]), 0), *[eq(x, 0) for x in o] + [eq(ns, 0), eq(np, 0), eq(h, X.m.host['none'])]), 'empty', T)]
            D = X.content(f, d.r); out += [(band(eq(X.off(f, d.o), 0), ge(f.uns(M[co][1]), n), eq(d.r.size, tadd(f.uns(M[co][1]), 1)), d.r.id not in f.dead), 'buffer holds the capacity', T)]
            f.mark(D, n); out.append((eq(D.at(f, n), 0), 'terminator', T))
            t = f.copy(); t.final = f.final; k = X.fresh('K'); t.fact(z3.And(k >= 0, k < tz(n))); t.mark(D, k); t.mark(C, k)
            X.oblige(t, eq(D.at(t, k), C.at(t, k)), T, s.name + ': the given text')
            return out + [(c, 'components: ' + nm, ('C02', 'C03', 'C08')) for nm, c in U.wf(X, f, C, o, ns, np, h)]
        def freed(X, f): return [(band(*[r.id in f.dead for r in f.g.get('new', ())]), 'nothing leaks', ('C14',))]
        outs = [Out(ok, ANY, post=post, name='URI reference', tags=('C01',))]
        if C is not None: outs += [Out(bnot(ok), exc='invalid_part', name='anything else', tags=('C01',), post=freed), Out(True, exc='bad_alloc', maybe=True, tags=('C01',), post=freed)]
        return outs
@pub
class W_ctor(W_):
    wrap = 'W_ctor'
    def argl(s, X, st):
        t = st.copy(); return [(t, mk_str(X, t)), (st, [NULL, 0])]
@pub
class W_ctor0(W_): wrap = 'W_ctor0'
@pub
class W_ctora(W_): wrap = 'W_ctora'
@pub
class W_dtor(Contract):
    """destruction of a url frees the text"""
    tags = ('C14',); public = True; wrap = 'W_dtor'
    def entries(s, X, st):
        N, po, so, co = PB.as_layout(X); out = []
        for e in (True, False):
            t = st.copy(); q = PB.mk_storage(X, t, e); m = t.mem[q.id]; w = X.region(t, 'w', 'cells', N + 112); u = mk_url(X, t, False)
            b = m[po][1]; c = dict(t.mem[u.p.r.id]); c[0] = (8, P(w, 0)); c[104] = (8, b)
            t.mem[w.id] = {**m, **{N + k: x for k, x in c.items()}}; t.g['b'] = b; out.append((t, [P(w, 0)]))
        return out
    def spec(s, X, st, v):
        b = st.g['b']
        return [Out(True, free=[v[0].r] + ([b.r] if b.r else []), post=lambda X, f: [(b.r is None or b.r.id in f.dead, 'text freed', None)])]
