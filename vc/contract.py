"""Contracts: a specification is a list of guarded outcomes.  The same text is
used to verify a function's body and to replace the function at its call sites."""
import z3, time, traceback, os
from engine import *
import spec as S, loops, models
I8, I32, I64, PTR = ir.I[8], ir.I[32], ir.I[64], ir.PTR

ANY = object()
ANYC = object()      # unconstrained contents
class AnyPtr(Havoc):
    """some position in [a, b] of region r"""
    def __init__(s, r, a, b): s.r, s.a, s.b = r, a, b
class Out:
    """one outcome: under guard, return ret or throw exc, with these writes"""
    def __init__(s, guard=True, ret=None, exc=None, w=(), content=None, name='', facts=(), tags=None, post=None, maybe=False, free=()):
        s.guard, s.ret, s.exc, s.w, s.content, s.name, s.facts, s.tags, s.post = guard, ret, exc, list(w), content or {}, name, list(facts), tags, post
        s.free = {r.id for r in free if r is not None}     # regions that post describes
        s.maybe = maybe     # an outcome the function may choose when guard holds (allocation failure)

def si64(e): return SI(tz(e), 64, 0, mask(64)) if not isint(e) else e

def veq(X, st, a, b):
    """two values are equal"""
    if a is ANY or b is ANY: return True
    if isinstance(b, AnyPtr):
        return isinstance(a, P) and a.r is b.r and band(le(b.a, X.off(st, a.o)), le(X.off(st, a.o), b.b))
    if isinstance(b, Havoc):
        v = st.uns(a)
        return b.f(v) if b.f else True
    if isinstance(a, P) or isinstance(b, P):
        if not (isinstance(a, P) and isinstance(b, P)): return False
        if a.r is not b.r: return False
        if a.r is None: return True
        return eq(X.off(st, a.o), X.off(st, b.o))
    if isinstance(a, Agg) or isinstance(b, Agg):
        return band(*[veq(X, st, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, (Fn,)) or isinstance(b, Fn): return isinstance(a, Fn) and isinstance(b, Fn) and a.n == b.n
    if isinstance(a, VTab) or isinstance(b, VTab): return a is b
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    if a is None or b is None: return a is b
    if a is UNDEF or b is UNDEF: return a is b
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    ea, eb = rawv(a), rawv(b)
    c = eq(ea, eb)
    if c is True: return True
    if not needmod(a) and not needmod(b): return c
    if st.simp(c) is True or X.prove(st, c): return True
    return eq(st.uns(a), st.uns(b))
def needmod(v): return isinstance(v, SI) and not (v.lo >= 0 and v.hi < (1 << v.w))
def rawv(v):
    if isinstance(v, SI): return v.e
    if isinstance(v, FM): return fm_term(v)
    if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def put(st, p, w, v):
    C = dict(st.mem[p.r.id]); C[p.o] = (w, v); st.mem[p.r.id] = C

class Contract:
    """base class; subclasses give entries, pre and spec"""
    split = False; unroll = 0; budget = 300; hints = (); tags = (); public = False; inline = (); weight = 1; slices = None; nomarks = False; reveal = frozenset(); opaque = False; eslices = None; lemma = False
    def __init__(s, fn, name): s.fn, s.name = fn, name
    def parts(s): return range(s.slices or s.eslices) if s.slices or s.eslices else [None]
    def entries(s, X, st):
        """vals, or a list of (state, vals)"""
        raise NotImplementedError
    def pre(s, X, st, v): return []
    def spec(s, X, st, v): raise NotImplementedError
    def finish(s, X, st): pass
    def tagof(s, what, r=None, off=None): return s.tags
    def apply(s, X, st, v):
        for c, what in s.pre(X, st, v):
            X.oblige(st, c, ['C14'], 'precondition of %s: %s' % (s.name, what))
        outs = s.spec(X, st, v); res = []
        cur = st
        for i, o in enumerate(outs):
            if o.guard is False: continue
            last = False
            if cur is None: break
            t = cur.copy(); t.evq = []
            t.fact(bz(o.guard))
            if o.guard is not True and not X.feasible(t): continue
            for f in o.facts: t.fact(bz(f))
            for p, w, val in o.w:
                if isinstance(val, AnyPtr):
                    e = X.fresh('hp'); t.fact(bz(band(le(val.a, e), le(e, val.b)))); val = P(val.r, e)
                elif isinstance(val, Havoc):
                    e = X.fresh('hv'); t.fact(z3.And(e >= val.lo, e <= (val.hi if val.hi is not None else mask(8*w))))
                    if val.f: t.fact(bz(val.f(e)))
                    val = SI(e, 8*w, val.lo, val.hi if val.hi is not None else mask(8*w))
                put(t, p, w, val)
            for rid, c in o.content.items(): t.mem[rid] = c
            r = o.ret
            if isinstance(r, AnyPtr):
                e = X.fresh('rp'); t.fact(bz(band(le(r.a, e), le(e, r.b)))); r = P(r.r, e)
            elif isinstance(r, Havoc):
                w = r.w if hasattr(r, 'w') else 64
                e = X.fresh('rv'); hi = r.hi if r.hi is not None else mask(w)
                t.fact(z3.And(e >= r.lo, e <= hi))
                if r.f: t.fact(bz(r.f(e)))
                r = SI(e, w, r.lo, hi)
            res.append((t, ('throw', o.exc) if o.exc else ('ret', r)))
        return res

def compare(X, ent, o, f, ct):
    """obligations: final state f refines outcome o from entry state ent"""
    kind, v = f.final
    exp = 'throw ' + o.exc if o.exc else 'return'
    got = 'throw ' + v if kind == 'throw' else 'return'
    T = lambda what, r=None, off=None: (o.tags or ct.tagof(what, r, off))
    X.oblige(f, (exp == got) or (o.exc == '*' and kind == 'throw'), T('outcome'), '%s [%s]: %s, not %s' % (ct.name, o.name, exp, got))
    if exp != got and o.exc != '*': return
    for fct in o.facts: X.oblige(f, fct, T('facts'), '%s [%s]: stated consequence' % (ct.name, o.name))
    if kind == 'ret' and o.ret is not None and o.ret is not ANY:
        X.oblige(f, veq(X, f, v, o.ret), T('result'), '%s [%s]: result' % (ct.name, o.name))
    want = {}
    for rid, m in ent.mem.items(): want[rid] = m
    wr = {}
    for p, w, val in o.w:
        m = want[p.r.id]
        if not wr.get(p.r.id): m = dict(m); wr[p.r.id] = True
        m[p.o] = (w, val); want[p.r.id] = m
    for rid, c in o.content.items(): want[rid] = c
    for rid, m in want.items():
        g = f.mem.get(rid); r = X.gregs.get(rid)
        if g is m or r is None or m is ANYC or rid in o.free: continue
        if isinstance(m, dict):
            if r.name.startswith('out:'):
                continue
            for off in sorted(set(m) | set(g), key=str):
                a, b = m.get(off), g.get(off)
                if a is None:
                    if r.name.startswith('o:'): continue
                    X.oblige(f, False, T('frame', r, off), '%s [%s]: unexpected write to %s+%s' % (ct.name, o.name, r.name, off)); continue
                if b is None:
                    X.oblige(f, False, T('frame', r, off), '%s [%s]: %s+%s destroyed' % (ct.name, o.name, r.name, off)); continue
                if isinstance(off, str): c = veq(X, f, b, a) if not (isint(a) and isint(b)) else a == b
                else:
                    if a[0] != b[0]: c = False
                    else: c = veq(X, f, b[1], a[1])
                X.oblige(f, c, T('cell', r, off), '%s [%s]: value of %s+%s' % (ct.name, o.name, r.name, off))
        else:
            cmp_bytes(X, f, m, g, 0, r.size, T('bytes', r), '%s [%s]: contents of %s' % (ct.name, o.name, r.name))
    if o.post:
        for c, what, tags in o.post(X, f): X.oblige(f, c, tags or T('post'), '%s [%s]: %s' % (ct.name, o.name, what))

def cmp_bytes(X, f, want, got, lo, hi, tags, what, goff=0):
    """want and got agree on [lo, hi) (got shifted by goff)"""
    if want is got and isint(goff) and goff == 0: return
    t = f.copy(); k = X.fresh('K')
    t.fact(z3.And(k >= tz(lo), k < tz(hi)))
    t.mark(want, k); t.mark(got, tadd(k, goff))
    X.oblige(t, eq(want.at(t, k), got.at(t, tadd(k, goff))), tags, what)

def new_x(mod, contracts, res, ct):
    X = engine_X(mod, contracts, res, dict(unroll=ct.unroll, budget=ct.budget))
    X.hints = list(ct.hints)
    X.ct = ct; X.nomarks = ct.nomarks
    return X
from engine import X as engine_X

def verify(mod, contracts, ct, budget=None, part=None):
    """verify one function against its contract"""
    res = Result(ct.name); t0 = time.time()
    try:
        X = new_x(mod, contracts, res, ct)
        import leaf
        X.tables = sorted(set(leaf.tables(mod).values()), key=sorted)
        X.part = part
        if budget: X.deadline = time.time() + budget
        X.fid = ct.fn
        st0 = St(X)
        if ct.lemma: ct.prove(X, st0); ents = ()
        else: ents = ct.entries(X, st0)
        if not ct.lemma and not (isinstance(ents, list) and ents and isinstance(ents[0], tuple)): ents = [(st0, ents)]
        if ct.eslices and part is not None: ents = ents[part::ct.eslices]
        for st, vals in ents:
            for c, what in ct.pre(X, st, vals): st.fact(bz(c))
            if not X.feasible(st): res.notes.append('vacuous entry'); res.und.append(dict(what='vacuous entry', tags=list(ct.tags), abst=False, kind='vacuous')); continue
            outs = ct.spec(X, st, vals)
            may = [o for o in outs if o.maybe]; outs = [o for o in outs if not o.maybe]
            X.oblige(st, bor(*[o.guard for o in outs]), ct.tags, ct.name + ': cases cover everything')
            runs = [(o, [o]) for o in outs] if ct.split else [(None, outs)]
            if ct.split and ct.slices and part is not None: runs = runs[part::ct.slices]
            live = 0
            for o, os_ in runs:
                t = st.copy()
                if o is not None:
                    t.fact(bz(o.guard))
                    if not X.feasible(t): continue
                live += 1; hit = set()
                ent = t.copy()
                finals = execute(X, t, ct.fn, vals)
                res.paths += len(finals)
                for f in finals:
                    ct.finish(X, f)
                    if f.final[0] == 'throw' and any(o2.exc == f.final[1] for o2 in may):
                        mo = [o2 for o2 in may if o2.exc == f.final[1]]
                        u = f.copy(); u.final = f.final
                        X.oblige(u, bor(*[o2.guard for o2 in mo]), mo[0].tags or ct.tagof('outcome'), '%s: %s only when allowed' % (ct.name, mo[0].exc))
                        compare(X, ent, mo[0], u, ct)
                        continue
                    for o2 in os_:
                        u = f if len(os_) == 1 else f.copy(); u.final = f.final
                        if o is None and len(os_) > 1:
                            if o2.guard is False: continue
                            u.fact(bz(o2.guard))
                            if not X.feasible(u): continue
                        hit.add(id(o2)); compare(X, ent, o2, u, ct)
                # an outcome that can be required must be reached: guards against contradictory assumptions
                for o2 in os_:
                    if id(o2) not in hit and o2.guard is not False and X.check(ent, bz(o2.guard), timeout=2000)[0] == z3.sat:
                        res.und.append(dict(what='%s [%s]: no execution ends there' % (ct.name, o2.name), tags=list(ct.tags), abst=False, kind='vacuous'))
            if not live: res.und.append(dict(what='no feasible case', tags=list(ct.tags), abst=False, kind='vacuous'))
    except Unsupported as e:
        res.und.append(dict(what='unsupported: %s' % e, tags=['*'], abst=False, kind='unsupported'))
    except Budget as e:
        res.und.append(dict(what='budget: %s' % e, tags=['*'], abst=False, kind='budget'))
    except RecursionError as e:
        res.und.append(dict(what='budget: recursion', tags=['*'], abst=False, kind='budget'))
    except z3.Z3Exception as e:
        res.und.append(dict(what='z3: %s' % e, tags=['*'], abst=False, kind='budget'))
    res.time = time.time() - t0; res.queries = X.queries
    return res

def execute(X, st, fn, vals):
    f = X.m.funcs[fn]
    fr = Frame(f)
    for (ty, pn), v in zip(f.params, vals): fr.env[pn] = v
    st.frames.append(fr)
    if f.entry in X.m.loops(f): st.evq.append(('loop', f.entry))
    return X.run([st], 0)

# ---------------------------------------------------------------- entry shapes
def mk_bytes(X, st, name, n=None, inp=True):
    if n is None:
        n = z3.Int('len_' + name); st.fact(z3.And(n >= 0, n < (int(os.environ.get('VC_SMALL', 1 << 46)))))
    r = X.region(st, name, 'bytes', n)
    if inp:
        st.g['inputs'] = st.g.get('inputs', []) + [r]; st.g['in:%d' % r.id] = st.mem[r.id]
    return r
def mk_str(X, st, name='s'):
    """a string_view argument: exactly n readable bytes"""
    r = mk_bytes(X, st, name)
    return [P(r, 0), si64(r.size)]
def mk_slice(X, st, name='s'):
    """a range [a, e) inside a larger object"""
    r = mk_bytes(X, st, name); a, e = z3.Int(name + '_a'), z3.Int(name + '_e')
    st.fact(z3.And(0 <= a, a <= e, e <= r.size))
    st.g['show'] = dict(st.g.get('show', {}), **{name + '_a': a, name + '_e': e})
    return r, a, e
def mk_ec(X, st, code=0):
    r = X.region(st, 'ec', 'cells', 24); st.mem[r.id] = {0: (4, code)}
    return P(r, 0)
NPARTS = 9
def mk_parts(X, st, name='pt'):
    r = X.region(st, name, 'cells', 96); m = {}
    for i in range(9): m[8*i] = (8, X.freshsi(st, 64, 'off%d' % i))
    m[72] = (8, X.freshsi(st, 64, 'nseg', 0, 1 << 46)); m[80] = (8, X.freshsi(st, 64, 'nparam')); m[88] = (4, X.freshsi(st, 32, 'host'))
    st.mem[r.id] = m
    return P(r, 0)
def mk_parser(X, st):
    r, a, e = mk_slice(X, st); p = z3.Int('p')
    st.fact(z3.And(a <= p, p <= e)); st.g['show'] = dict(st.g.get('show', {}), p=p)
    q = X.region(st, 'parser', 'cells', 24)
    st.mem[q.id] = {0: (8, P(r, a)), 8: (8, P(r, e)), 16: (8, P(r, p))}
    return P(q, 0)
def rd(X, st, ty, p, off=0):
    """specification-level read"""
    return st.mem[p.r.id][tadd(p.o, off)][1]
