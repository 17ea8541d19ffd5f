"""Loop invariants: havoc what the body changes, guess relations from templates,
keep the inductive ones (Houdini), continue after the loop from the invariant."""
import os, z3
from engine import *
import spec

class Var:
    """a location the loop body changes"""
    def __init__(s, rid, off, w, v):
        s.rid, s.off, s.w, s.v0 = rid, off, w, v
    def get(s, st):
        return st.mem[s.rid][s.off][1]

class Virt:
    """the position a counter stands for, counted from a pointer the loop does not change"""
    def __init__(s, v, p):
        s.v, s.p = v, p; s.v0 = s.mk(v.v0); s.w = 8
    def mk(s, x):
        return P(s.p.r, tadd(s.p.o, x.e if isinstance(x, SI) else x))
    def get(s, st):
        x = s.v.get(st)
        return P(s.p.r, tadd(s.p.o, st.uns(x) if isinstance(x, SI) else x))

def same(a, b):
    if a is b: return True
    if isinstance(a, P) and isinstance(b, P):
        return a.r is b.r and same(a.o, b.o)
    if isinstance(a, SI) and isinstance(b, SI): return a.w == b.w and same(a.e, b.e)
    if isinstance(a, FM) and isinstance(b, FM): return a.t == b.t and same(a.b, b.b) and a.w == b.w
    if isint(a) and isint(b): return a == b
    if isinstance(a, Fn) and isinstance(b, Fn): return a.n == b.n
    if z3.is_expr(a) and z3.is_expr(b): return a.get_id() == b.get_id()
    return False

def changed(st, t):
    """cells and byte regions of st that differ in t"""
    cells, bts = set(), set()
    for rid, m in st.mem.items():
        m2 = t.mem.get(rid)
        if m2 is m: continue
        if isinstance(m, dict):
            for o in set(m) | set(m2):
                a, b = m.get(o), m2.get(o)
                if a is None or b is None:
                    if a is None and isinstance(o, int): cells.add((rid, o)); continue
                    cells.add((rid, o)); continue
                if isinstance(o, str):
                    if not same(a, b): cells.add((rid, o))
                    continue
                if a[0] != b[0] or not same(a[1], b[1]): cells.add((rid, o))
        else: bts.add(rid)
    return cells, bts

class Abstraction:
    pass

def term(st, v):
    """integer term of a value, or None"""
    if isint(v): return v
    if isinstance(v, SI):
        return v.e if v.lo >= 0 and v.hi < (1 << v.w) else st.uns(v)
    if isinstance(v, P): return st.X.off(st, v.o) if v.r is not None else None
    if isinstance(v, FM): return fm_term(v)
    if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return None

def abstract(X, st, h, d, blocks, lvl, backs):
    fr = st.frames[-1]
    if X.m.block(fr.f, h)[0].op == 'phi': raise Unsupported('phi at a loop header')
    cells, bts = set(), set()
    for b in backs:
        c, y = changed(st, b); cells |= c; bts |= y
    for rnd in range(6):
        hv = havoc(X, st, cells, bts, {})
        evs = iterate(X, hv[0].copy(), h, d, blocks, quiet=True)
        nb = [e for k, e in evs if k == 'back']
        c2, b2 = set(), set()
        for b in nb:
            c, y = changed(hv[0], b); c2 |= c; b2 |= y
        if c2 <= cells and b2 <= bts: break
        cells |= c2; bts |= b2
    else: raise Unsupported('modified set')
    # byte contents: try the content templates one after another
    hooks = [None]
    if bts:
        hooks = list(X.hints) + [None]
    best = None
    for hook in hooks:
        r = attempt(X, st, h, d, blocks, cells, bts, hook)
        if r is not None: best = r; break
    if best is None: raise Unsupported('no invariant for the contents written by a loop')
    hv, inv, vars = best
    if os.environ.get('VC_INV'): print([n for n, f in inv])
    X.res.inv.append('%s:%s %d' % (X.m.dem.get(fr.f.name, '')[:80], h, len(inv)))
    where = X.where(hv)
    start = []
    for v in vars:
        if isinstance(v.v0, (P, SI)) or isint(v.v0) and v.w > 1:
            x = term(hv, v.get(hv))
            if x is not None: start.append((v, x))
    evs = iterate(X, hv, h, d, blocks, quiet=False)
    if not X.quiet: variant(X, [e for k, e in evs if k == 'back'], start, where)
    out = []
    for k, e in evs:
        if k == 'back': continue
        e.abst = True
        out.append(e)
    return out

def variant(X, backs, start, where):
    """the loop ends: some variable is strictly larger (or strictly smaller) after
    every iteration, and it is a machine integer or an offset in an object"""
    backs = [e for e in backs if X.feasible(e)]
    X.res.n += 1
    for v, x in start:
        for sg in (1, -1):
            for e in backs:
                try: y = term(e, v.get(e))
                except KeyError: y = None
                if y is None: break
                c = gt(y, x) if sg > 0 else lt(y, x)
                if c is False or not (c is True or X.prove(e, c)): break
            else:
                X.res.ok += 1; return
    X.res.und.append(dict(what='the loop ends', tags=['*'], abst=True, kind='no variant', where=where))

def iterate(X, st, h, d, blocks, quiet):
    X.lvl += 1; L = X.lvl
    st.lctx.append(LCtx(d, h, blocks, L))
    if quiet: X.quiet += 1
    try: evs = X.run([st], L)
    finally:
        if quiet: X.quiet -= 1
    out = []
    for e in evs:
        if e.evq and e.evq[0] == ('back', L):
            e.evq.pop(0); out.append(('back', e))
        else:
            if e.evq and e.evq[0] == ('exit', L): e.evq.pop(0)
            out.append(('exit', e))
    return out

def havoc(X, st, cells, bts, contents):
    t = st.copy(); t.abst = True
    vars = []
    for rid, o in sorted(cells, key=str):
        m = dict(t.mem[rid])
        if o not in m:
            continue
        if isinstance(o, str): raise Unsupported('storage changed in a loop')
        w, v = m[o]
        if v is UNDEF:
            del m[o]; t.mem[rid] = m; continue
        if isinstance(v, P):
            if v.r is None:
                # unknown at the loop head: reading it before it is written is not supported
                del m[o]; t.mem[rid] = m; continue
            e = X.fresh('h'); nv = P(v.r, e); t.fact(z3.And(e >= -MAXOBJ, e <= 2*MAXOBJ))
        elif isinstance(v, SI):
            nv = X.freshsi(t, v.w, 'h')
        elif isint(v):
            nv = X.freshsi(t, 8*w, 'h') if w > 1 else FM(X.fresh('hb'), IDENT, 8)
            if w == 1: t.byte(nv.b)
        elif isinstance(v, FM):
            if v.w == 8:
                nv = FM(X.fresh('hb'), IDENT, 8); t.byte(nv.b)
            else: nv = X.freshsi(t, v.w, 'h')
        elif z3.is_expr(v) and z3.is_bool(v):
            nv = z3.Bool('hb!%d' % X.fresh_n); X.fresh_n += 1
        else: raise Unsupported('havoc %r' % (v,))
        m[o] = (w, nv); t.mem[rid] = m
        vars.append(Var(rid, o, w, v))
    # cells that appear in the body only (uninitialised before): drop
    for rid, o in cells:
        m = t.mem[rid]
        if isinstance(st.mem[rid], dict) and o not in st.mem[rid] and o in m:
            m = dict(m); del m[o]; t.mem[rid] = m
    for rid in bts:
        if rid in contents: t.mem[rid] = contents[rid](t)
        else:
            t.mem[rid] = Base('hv')
    return t, vars

def candidates(X, st, hv, vars):
    """[(name, f)] with f(state) -> condition over that state's variable values"""
    out = []
    ints = []
    for v in vars:
        if isinstance(v.v0, P): ints.append((v, v.v0.r))
        elif isint(v.v0) or isinstance(v.v0, SI): ints.append((v, None))
    def T(v): return lambda s: term(s, v.get(s))
    x0 = {}
    changed_ = {(v.rid, v.off) for v in vars}; seen = set(); virt = []
    for rid, m in st.mem.items():
        if not isinstance(m, dict): continue
        for o, c in m.items():
            if isinstance(o, str) or (rid, o) in changed_: continue
            w, p = c
            if not isinstance(p, P) or p.r is None or isinstance(st.mem[p.r.id], dict): continue
            C = st.mem[p.r.id]
            if not st.steps.get(C.id) and not st.leasts.get(C.id) and not any(D.C is C for D in st.g.get('sp', [])): continue
            k = (p.r.id, p.o if isint(p.o) else p.o.get_id())
            if k in seen: continue
            seen.add(k); virt.append(p)
    virt = [(Virt(v, p), p.r) for v, r in ints if r is None and isint(v.v0) and v.v0 <= 4 and v.w == 8 for p in virt][:6]
    ints = ints + virt; virts = {id(v) for v, r in virt}
    for v, r in ints: x0[id(v)] = term(st, v.v0)
    # a contract that knows the loop's data structure replaces the templates
    own = []
    for c in X.extra_candidates: own.extend(c(X, st, vars, ints, T, x0))
    if own: return own
    # interesting terms
    interest = {}
    def add(r, t, nm):
        k = t if isint(t) else t.get_id()
        interest.setdefault(r.id if r else None, {})[k] = (t, nm)
    prs = [r for v, r in ints if r is not None]
    for r in prs:
        if r is None: continue
        add(r, r.size, 'size')
        C = st.mem[r.id]
        seen = set()
        def visit(C):
            if C.id in seen: return
            seen.add(C.id)
            for L in st.leasts.get(C.id, {}).values():
                if not isint(L.term): add(r, L.term, str(L.key))
            for q in ('prev', 'src'):
                if hasattr(C, q): visit(getattr(C, q))
        if not isinstance(C, dict): visit(C)
    for rid, m in st.mem.items():
        if not isinstance(m, dict): continue
        for o, c in m.items():
            if isinstance(o, str): continue
            w, v = c
            if isinstance(v, P) and v.r is not None and v.r in prs: add(v.r, X.off(st, v.o), 'cell')
            elif w == 8 and (isinstance(v, SI)): add(None, v.e, 'cell')
    for t in st.g.get('bounds', []): add(None, t, 'bound')
    for t in st.g.get('pbounds', []):
        for r in prs: add(r, t, 'pb')
    for v, r in ints:
        g = T(v); a = x0[id(v)]
        out.append(('ge0', lambda s, g=g, a=a: ge(g(s), a)))
        out.append(('le0', lambda s, g=g, a=a: le(g(s), a)))
        for t, nm in interest.get(r.id if r else None, {}).values():
            if isint(t) and isint(a) and t == a: continue
            out.append(('le ' + nm, lambda s, g=g, t=t: le(g(s), t)))
            out.append(('ge ' + nm, lambda s, g=g, t=t: ge(g(s), t)))
            out.append(('ge1 ' + nm, lambda s, g=g, t=t: ge(g(s), tadd(t, 1))))
            out.append(('le1 ' + nm, lambda s, g=g, t=t: le(g(s), tsub(t, 1))))
            if nm == 'cell' or nm == 'bound' or nm == 'pb':
                pass
        if r is None:
            for c in range(0, 12): out.append(('lec', lambda s, g=g, c=c: le(g(s), c)))
            out.append(('gec', lambda s, g=g: ge(g(s), 1)))
        if r is None and not isint(a) :
            pass
    for i, (v, r) in enumerate(ints):
        for j, (u, q) in enumerate(ints):
            if j == i or (id(u) in virts and id(v) in virts): continue
            if (id(u) in virts and u.v is v) or (id(v) in virts and v.v is u): continue
            g, f = T(v), T(u); a, b = x0[id(v)], x0[id(u)]
            if j > i:
                for sg in (1, -1):
                    out.append(('delta', lambda s, g=g, f=f, a=a, b=b, sg=sg: eq(tsub(g(s), a), tmul(tsub(f(s), b), sg))))
            for k in (2, 3):
                out.append(('delta%d' % k, lambda s, g=g, f=f, a=a, b=b, k=k: le(tsub(g(s), a), tmul(tsub(f(s), b), k))))
            out.append(('dle', lambda s, g=g, f=f, a=a, b=b: le(tsub(g(s), a), tsub(f(s), b))))
            if q is not None and not isinstance(st.mem[q.id], dict):
                for tm in X.relations(st, q):
                    # tm(state, x, p0, p): condition relating a change of x to a move p0 -> p
                    out.append((tm.__name__, lambda s, tm=tm, g=g, f=f, a=a, b=b: tm(s, tsub(g(s), a), b, f(s))))
            if r is not None and r is q: 
                out.append(('lex', lambda s, g=g, f=f: le(g(s), f(s))))
    for v, r in ints:
        if r is None or isinstance(st.mem[r.id], dict): continue
        g = T(v); es = [t for t, nm in interest.get(r.id, {}).values() if nm in ('cell', 'size')]
        C = st.mem[r.id]
        for tab in X.tables:
            bad = frozenset(tab | {37})
            for e in es:
                out.append(('stop', lambda s, g=g, e=e, bad=bad, C=C: bor(ge(g(s), e), bnot(inset(mk(s, C, g(s)), bad)))))
    for v in vars:
        if isinstance(v.v0, (FM,)) or (z3.is_expr(v.v0) and z3.is_bool(v.v0)) or (isint(v.v0) and v.w == 1):
            g = T(v)
            for c in (0, 1): out.append(('flag', lambda s, g=g, c=c: eq(g(s), c)))
    return out

def mk(s, C, t):
    s.mark(C, t); return C.at(s, t)

def attempt(X, st, h, d, blocks, cells, bts, hook):
    contents = {}
    hv, vars = None, None
    # scalars first, to know the variables
    base, vars = havoc(X, st, cells, set(), {})
    mk = None
    if bts:
        if hook is None: mk = None
        else:
            mk = hook(X, st, vars, bts)     # (state) -> {rid: content}, or None
            if mk is None: return None
    hv = base
    for rid in bts:
        hv.mem[rid] = mk(hv)[rid] if mk else Base('hv')
    cands = candidates(X, st, hv, vars)
    # initially true
    live = []
    for nm, f in cands:
        try: c = f(st)
        except Unsupported: continue
        if c is True: live.append((nm, f)); continue
        if c is False: continue
        live.append((nm, f))
    X.quiet += 1
    try:
        live = prune(X, st, live)
        for rnd in range(40):
            t = hv.copy()
            for nm, f in live: t.fact(bz(f(t)))
            if not X.feasible(t):
                if X.feasible(st): raise Unsupported('contradictory invariant')
                bk = []; break
            evs = iterate(X, t, h, d, blocks, quiet=True)
            bk = [e for k, e in evs if k == 'back']
            n0 = len(live)
            for b in bk:
                live = prune(X, b, live)
            if len(live) == n0: break
        else: return None
        ok = True
        if bts and mk:
            for b in bk:
                for rid in bts:
                    want = mk(b)[rid]; got = b.mem[rid]
                    t = b.copy(); k = X.fresh('K'); r = X.gregs[rid]
                    t.fact(z3.And(k >= 0, k < tz(r.size)))
                    t.mark(want, k); t.mark(got, k)
                    w = want.at(t, k); g = got.at(t, k)
                    if not X.prove(t, eq(w, g)): return None
    finally: X.quiet -= 1
    t = hv.copy()
    for nm, f in live: t.fact(bz(f(t)))
    return t, live, vars

def prune(X, st, live):
    """the candidates that hold in st"""
    if not X.feasible(st): return live
    conds = []
    for nm, f in live:
        try: conds.append((f(st), nm, f))
        except Unsupported: conds.append((False, nm, f))
    while True:
        todo = [c for c in conds if c[0] is not True]
        if any(c[0] is False for c in todo):
            conds = [c for c in conds if c[0] is not False]; continue
        if not todo: break
        r, m = X.check(st, z3.Not(bz(band(*[c[0] for c in todo]))))
        if r == z3.unsat: break
        if r == z3.sat:
            bad = [c for c in todo if not z3.is_true(m.eval(bz(c[0]), model_completion=True))]
            if bad:
                ids = {id(c) for c in bad}
                conds = [c for c in conds if id(c) not in ids]; continue
        # unknown: one at a time
        keep = []
        for c in conds:
            if c[0] is True or X.check(st, z3.Not(bz(c[0])))[0] == z3.unsat: keep.append(c)
        conds = keep; break
    return [(nm, f) for c, nm, f in conds]
