"""Function-modular symbolic executor and verification-condition generator for
the LLVM IR that clang -O0 makes from the library's own source.

Machine integers are mathematical integers with exact lazy wrap-around, bytes
are finite maps over an uninterpreted content function, pointers are
(region, offset).  Loops are cut at their header with invariants found by
Houdini over candidate templates; a call to a function under contract uses the
contract, any other defined function is executed in place."""
import z3, time, sys, os
import ir
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Budget(Exception): pass

UNDEF = 'undef'
MAXOBJ = 1 << 48

# ---------------------------------------------------------------- terms
def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def tz(x): return z3.IntVal(x) if isinstance(x, int) else x
def tadd(a, b):
    if isint(a) and isint(b): return a + b
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    return norm(tz(a) + tz(b))
def tsub(a, b):
    if isint(a) and isint(b): return a - b
    if isint(b) and b == 0: return a
    return norm(tz(a) - tz(b))
def tmul(a, k):
    if isint(a): return a * k
    if k == 0: return 0
    if k == 1: return a
    return norm(a * k)
_norm = {}
def norm(e):
    """canonical linear form, so that equal terms are syntactically equal"""
    k = e.get_id(); r = _norm.get(k)
    if r is not None: return r[1]
    s = z3.simplify(e, som=True, arith_lhs=False)
    if z3.is_int_value(s): s2 = s.as_long()
    else: s2 = s
    _norm[k] = (e, s2)
    return s2
def band(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def bor(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def bnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def imp(a, b): return bor(bnot(a), b)
def iff(a, b):
    if isinstance(a, bool): return b if a else bnot(b)
    if isinstance(b, bool): return a if b else bnot(a)
    return a == b
def bz(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def lt(a, b):
    if isint(a) and isint(b): return a < b
    d = tsub(a, b)
    if isint(d): return d < 0
    return tz(a) < tz(b)
def le(a, b):
    if isint(a) and isint(b): return a <= b
    d = tsub(a, b)
    if isint(d): return d <= 0
    return tz(a) <= tz(b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if isint(a) and isint(b): return a == b
    d = tsub(a, b)
    if isint(d): return d == 0
    return tz(a) == tz(b)
def ne(a, b): return bnot(eq(a, b))
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isint(a) and isint(b) and a == b: return a
    if not isint(a) and not isint(b) and a.get_id() == b.get_id(): return a
    return z3.If(c, tz(a), tz(b))
def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(a, b), b, a)

def ranges(s):
    out = []
    for i in sorted(s):
        if out and out[-1][1] == i - 1: out[-1][1] = i
        else: out.append([i, i])
    return out
_inset = {}
def inset(b, s):
    """byte term b is in the set s of octets"""
    if isint(b): return b in s
    n = len(s)
    if n == 0: return False
    if n == 256: return True
    s = s if isinstance(s, frozenset) else frozenset(s)
    k = (b.get_id(), s)
    r = _inset.get(k)
    if r is None:
        neg = len(ranges(s)) > len(ranges(ALLB - s))
        rs = ranges(ALLB - s if neg else s)
        f = bor(*[(b == lo) if lo == hi else (band(b >= lo, b <= hi) if lo > 0 and hi < 255 else (b <= hi if lo == 0 else b >= lo)) for lo, hi in rs])
        r = (b, bnot(f) if neg else f)
        _inset[k] = r
    return r[1]
ALLB = frozenset(range(256))

# ---------------------------------------------------------------- values
class SI:
    """machine integer: e mod 2^w, lo <= e <= hi"""
    __slots__ = ('e', 'w', 'lo', 'hi')
    def __init__(s, e, w, lo, hi): s.e, s.w, s.lo, s.hi = e, w, lo, hi
    def __repr__(s): return 'SI(%s:i%d)' % (s.e, s.w)
class FM:
    """finite map of an octet term"""
    __slots__ = ('b', 't', 'w')
    def __init__(s, b, t, w): s.b, s.t, s.w = b, t, w
    def __repr__(s): return 'FM(%s)' % s.b
IDENT = tuple(range(256))
class P:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r, s.o = r, o
    def __repr__(s): return 'P(%s+%s)' % (s.r.name if s.r else None, s.o)
NULL = P(None, 0)
class Fn:
    def __init__(s, n): s.n = n
class VTab:
    def __init__(s, r, k=0): s.r, s.k = r, k
class VFn:
    def __init__(s, r, k): s.r, s.k = r, k
class Agg:
    def __init__(s, v): s.v = v
class Exc:
    def __init__(s, t): s.t = t
class Havoc:
    """a written cell whose value is only constrained by f(term)"""
    def __init__(s, f=None, lo=0, hi=None): s.f, s.lo, s.hi = f, lo, hi

def fm(b, t, w):
    v = t[0]
    if all(x == v for x in t): return v
    return FM(b, t, w)
def mask(w): return (1 << w) - 1
def s_of(v, w): return v - (1 << w) if v >> (w - 1) else v

_fmz = {}
def fm_term(v, signed=False):
    """z3 term of a finite map"""
    t = tuple(s_of(x, v.w) for x in v.t) if signed else v.t
    k = (v.b.get_id(), t)
    r = _fmz.get(k)
    if r is not None: return r[1]
    if t == IDENT: e = v.b
    else:
        runs = []
        i = 0
        while i < 256:
            j = i
            best = None
            for slope in (0, 1):
                j = i
                while j + 1 < 256 and t[j+1] - t[j] == slope: j += 1
                if best is None or j > best[0]: best = (j, slope)
            runs.append((i, best[0], t[i], best[1])); i = best[0] + 1
        # commonest constant value as the default
        from collections import Counter
        c = Counter()
        for lo, hi, v0, sl in runs:
            if sl == 0 or lo == hi: c[v0] += 1
        dv = c.most_common(1)[0][0] if c else None
        e = None
        rest = []
        for lo, hi, v0, sl in runs:
            if (sl == 0 or lo == hi) and v0 == dv: continue
            rest.append((lo, hi, v0, sl))
        e = z3.IntVal(dv) if dv is not None else None
        # group constant runs of equal value
        g = {}
        for lo, hi, v0, sl in rest:
            if sl == 0 or lo == hi: g.setdefault(('c', v0), []).append((lo, hi))
            else: g.setdefault(('l', v0 - lo), []).append((lo, hi))
        for (kind, q), rs in g.items():
            val = z3.IntVal(q) if kind == 'c' else v.b + q
            if e is None: e = val; continue
            cond = inset(v.b, frozenset(x for lo, hi in rs for x in range(lo, hi + 1)))
            e = z3.If(bz(cond), val, e)
    _fmz[k] = (v, e)
    return e
def fm_bool(v, pred):
    return inset(v.b, frozenset(i for i in range(256) if pred(v.t[i])))

# ---------------------------------------------------------------- regions and contents
class Region:
    n = 0
    def __init__(s, name, kind, size, const=False):
        Region.n += 1
        s.id = Region.n; s.name = name; s.kind = kind; s.size = size; s.const = const
        s.addr = None
    def __repr__(s): return s.name

class Content:
    cnt = 0
    kids = (); transfer = None
    def __init__(s):
        Content.cnt += 1; s.id = Content.cnt
class Base(Content):
    def __init__(s, name):
        Content.__init__(s); s.f = z3.Function('%s_%d' % (name, s.id), z3.IntSort(), z3.IntSort())
    def at(s, st, t):
        e = s.f(tz(t)); st.byte(e); return e
    def prop(s, st, t): pass
class Bytes(Content):
    def __init__(s, data): Content.__init__(s); s.data = data
    def at(s, st, t):
        if isint(t): return s.data[t] if 0 <= t < len(s.data) else 0
        e = tz(0)
        for i, b in enumerate(s.data): e = z3.If(t == i, z3.IntVal(b), e)
        return e
    def prop(s, st, t): pass
class Store(Content):
    def __init__(s, prev, off, val): Content.__init__(s); s.prev, s.off, s.val = prev, off, val
    def at(s, st, t): return ite(st.simp(eq(t, s.off)), s.val, s.prev.at(st, t)) if st.simp(eq(t, s.off)) is not True else s.val
    def prop(s, st, t): st.mark(s.prev, t)
class Copy(Content):
    """prev with [off, off+n) replaced by src from soff"""
    def __init__(s, prev, off, n, src, soff): Content.__init__(s); s.prev, s.off, s.n, s.src, s.soff = prev, off, n, src, soff
    def at(s, st, t):
        c = st.simp(band(le(s.off, t), lt(t, tadd(s.off, s.n))))
        if c is True: return s.src.at(st, tadd(tsub(t, s.off), s.soff))
        if c is False: return s.prev.at(st, t)
        return ite(c, s.src.at(st, tadd(tsub(t, s.off), s.soff)), s.prev.at(st, t))
    def prop(s, st, t):
        st.mark(s.prev, t); st.mark(s.src, tadd(tsub(t, s.off), s.soff))
class Fill(Content):
    def __init__(s, prev, off, n, v): Content.__init__(s); s.prev, s.off, s.n, s.v = prev, off, n, v
    def at(s, st, t):
        return ite(band(le(s.off, t), lt(t, tadd(s.off, s.n))), s.v, s.prev.at(st, t))
    def prop(s, st, t): st.mark(s.prev, t)
class Fun(Content):
    """prev with [off, off+n) given by g(st, t - off)"""
    def __init__(s, prev, off, n, g): Content.__init__(s); s.prev, s.off, s.n, s.g = prev, off, n, g
    def at(s, st, t):
        c = st.simp(band(le(s.off, t), lt(t, tadd(s.off, s.n))))
        if c is False: return s.prev.at(st, t)
        v = s.g(st, tsub(t, s.off), c)
        return v if c is True else ite(c, v, s.prev.at(st, t))
    def prop(s, st, t): st.mark(s.prev, t)
class CellView(Content):
    def __init__(s, cells): Content.__init__(s); s.c = {o: v for o, (w, v) in cells.items() if w == 1 and v is not UNDEF}
    def at(s, st, t):
        if isint(t):
            if t not in s.c: raise Unsupported('uninitialised byte')
            return st.b8(s.c[t])
        e = None
        for o, v in sorted(s.c.items()):
            b = tz(st.b8(v)); e = b if e is None else z3.If(tz(t) == o, b, e)
        if e is None: raise Unsupported('empty cell view')
        return e
    def prop(s, st, t): pass

# ---------------------------------------------------------------- states
class Node:
    __slots__ = ('par', 'f', 'depth')
    def __init__(s, par): s.par = par; s.f = []; s.depth = par.depth + 1 if par else 0

class Frame:
    __slots__ = ('f', 'b', 'i', 'env', 'prev', 'call', 'visits', 'peeled')
    def __init__(s, f): s.peeled = {}; s.f = f; s.b = f.entry; s.i = 0; s.env = {}; s.prev = None; s.call = None; s.visits = {}
    def copy(s):
        r = Frame.__new__(Frame); r.f = s.f; r.b = s.b; r.i = s.i; r.env = dict(s.env); r.prev = s.prev; r.call = s.call; r.visits = dict(s.visits); r.peeled = s.peeled
        return r

class LCtx:
    __slots__ = ('depth', 'h', 'blocks', 'lvl', 'fixed')
    def __init__(s, depth, h, blocks, lvl, fixed=None): s.depth, s.h, s.blocks, s.lvl, s.fixed = depth, h, blocks, lvl, fixed

class St:
    def __init__(s, X):
        s.X = X; s.frames = []; s.mem = {}; s.node = X.root; s.known = set(); s.regs = {}
        s.lctx = []; s.evq = []; s.abst = False; s.dead = set(); s.trace = []
        s.marks = {}; s.leasts = {}; s.counts = {}; s.prefix = {}; s.steps = {};
        s.g = {}; s.done = False; s.final = None
    def copy(s):
        r = St.__new__(St); r.X = s.X
        r.frames = [f.copy() for f in s.frames]
        r.mem = dict(s.mem); n = Node(s.node); r.node = n
        r.known = set(s.known); r.regs = s.regs
        r.lctx = list(s.lctx); r.evq = []; r.abst = s.abst; r.dead = set(s.dead); r.trace = s.trace
        r.marks = {k: dict(v) for k, v in s.marks.items()}; r.leasts = {k: dict(v) for k, v in s.leasts.items()}
        r.counts = {k: dict(v) for k, v in s.counts.items()}; r.prefix = {k: dict(v) for k, v in s.prefix.items()}
        r.steps = {k: dict(v) for k, v in s.steps.items()}
        r.g = dict(s.g); r.done = False; r.final = None
        return r
    def become(s, t):
        for k in ('frames', 'mem', 'node', 'known', 'lctx', 'evq', 'abst', 'dead', 'marks', 'leasts', 'counts', 'prefix', 'steps', 'g'): setattr(s, k, getattr(t, k))
    def fork(s):
        """two children; s must not be used afterwards except as the first"""
        t = s.copy(); s.node = Node(s.node); t.node = Node(s.node.par)
        return t
    # facts
    def fact(s, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        k = c.get_id()
        if k in s.known: return
        s.known.add(k); s.node.f.append(c); s.X.keep.append(c)
    def byte(s, e):
        if isint(e): return
        s.fact(z3.And(e >= 0, e <= 255))
    def simp(s, c):
        if isinstance(c, bool): return c
        r = z3.simplify(c)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return c
    # marks and specification functions (all instances are valid axioms)
    def mark(s, C, t):
        if s.X.nomarks: return
        m = s.marks.setdefault(C.id, {})
        k = t if isint(t) else ('z', t.get_id())
        if k in m: return
        if len(m) > 5000: raise Budget('marks')
        m[k] = t; s.X.keep.append(t)
        for L in list(s.leasts.get(C.id, {}).values()): L.inst(s, t)
        for N in list(s.steps.get(C.id, {}).values()): N.step(s, t)
        C.prop(s, t)
    def addleast(s, L):
        d = s.leasts.setdefault(L.C.id, {})
        k = L.term.get_id() if not isint(L.term) else ('c', L.term)
        if k in d: return
        d[k] = L; s.X.keep.append(L.term)
        L.basic(s)
        for t in list(s.marks.get(L.C.id, {}).values()): L.inst(s, t)
        s.mark(L.C, L.term)
        for N in list(s.steps.get(L.C.id, {}).values()): N.onleast(s, L)
    def addstep(s, N):
        d = s.steps.setdefault(N.C.id, {})
        if N.key in d: return d[N.key]
        d[N.key] = N
        for t in list(s.marks.get(N.C.id, {}).values()): N.step(s, t)
        for L in list(s.leasts.get(N.C.id, {}).values()): N.onleast(s, L)
        return N
    # values
    def uns(s, v):
        """unsigned mathematical value"""
        if isint(v): return v
        if isinstance(v, FM): return fm_term(v)
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, bool): return int(v)
        if not isinstance(v, SI): raise Unsupported('integer value %r' % (v,))
        M = 1 << v.w
        if v.lo >= 0 and v.hi < M: return v.e
        k = ('u', v.w, v.e.get_id())
        if s.X.prove(s, z3.And(v.e >= 0, v.e < M)): return v.e
        if v.lo >= -M and s.X.prove(s, z3.And(v.e < 0, v.e >= -M)): return norm(v.e + M)
        if s.X.prove(s, z3.And(v.e >= M, v.e < 2*M)): return norm(v.e - M)
        return v.e % M
    def sgn(s, v):
        if isinstance(v, FM): return fm_term(v, True)
        if isinstance(v, SI):
            H = 1 << (v.w - 1)
            if v.lo >= -H and v.hi < H: return v.e
            if s.X.prove(s, z3.And(v.e >= -H, v.e < H)): return v.e
            if s.X.prove(s, z3.And(v.e >= H, v.e < 3*H)): return norm(v.e - 2*H)
            u = v.e % (2*H)
            return z3.If(u >= H, u - 2*H, u)
        if isint(v): raise Unsupported('width')
        raise Unsupported('signed value %r' % (v,))
    def sgnw(s, v, w):
        if isint(v): return s_of(v, w)
        return s.sgn(v)
    def b8(s, v):
        """octet term"""
        if isint(v): return v & 255
        if isinstance(v, FM): return fm_term(v)
        return s.uns(v)
    def raw(s, v, w):
        """(e, lo, hi): some integer congruent to v"""
        if isint(v): return (v, v, v)
        if isinstance(v, SI): return (v.e, v.lo, v.hi)
        if isinstance(v, FM):
            sg = any(x >> (w - 1) for x in v.t)
            t = [s_of(x, w) for x in v.t] if sg else v.t
            return (fm_term(v, sg), min(t), max(t))
        if isinstance(v, bool) or z3.is_bool(v): return (s.uns(v), 0, 1)
        raise Unsupported('raw %r' % (v,))

def si(e, w, lo, hi):
    if isint(e): return e & mask(w)
    return SI(e, w, lo, hi)

# ---------------------------------------------------------------- the executor
class Result:
    def __init__(s, name):
        s.name = name; s.n = 0; s.ok = 0; s.fail = []; s.und = []; s.time = 0.0; s.paths = 0; s.notes = []; s.inv = []; s.called = set(); s.inlined = set(); s.smt = 0.0

class X:
    """one verification run of one function"""
    def __init__(s, mod, contracts, res, opts=None):
        s.m = mod; s.contracts = contracts; s.res = res; s.keep = []; s.root = Node(None)
        s.sol = z3.Solver(); s.sol.set('timeout', 15000)
        s.stack = [(s.root, 0)]; s.quiet = 0; s.fresh_n = 0; s.opts = opts or {}
        s.fid = None; s.K = z3.Int('K'); s.cache = {}; s.gregs = {}; s.t0 = time.time()
        s.deadline = s.t0 + s.opts.get('budget', 400); s.addrs = {}
        s.queries = 0; s.tmo = None
        s.wanted = {}; s.loopinv = {}
        s.unroll = s.opts.get('unroll', 0)
        s.hints = []; s.extra_candidates = []; s.tables = []
        s.globals_mem = {}; s.nomarks = False; s.part = None; s.named = {}; s.cut = None
    # ---- solver
    def sync(s, node):
        chain = []; n = node
        while n is not None: chain.append(n); n = n.par
        chain.reverse()
        i = 0
        while i < len(chain) and i < len(s.stack) and s.stack[i][0] is chain[i]: i += 1
        while len(s.stack) > i: s.sol.pop(); s.stack.pop()
        if s.stack:
            n, c = s.stack[-1]
            if len(n.f) > c:
                s.sol.add(*n.f[c:]); s.stack[-1] = (n, len(n.f))
        for n in chain[i:]:
            s.sol.push()
            if n.f: s.sol.add(*n.f)
            s.stack.append((n, len(n.f)))
    def check(s, st, *extra, timeout=None):
        if time.time() > s.deadline: raise Budget('time')
        s.sync(st.node)
        s.queries += 1
        t = time.time()
        s.sol.push()
        for e in extra: s.sol.add(bz(e))
        if timeout != s.tmo: s.sol.set('timeout', timeout or 15000); s.tmo = timeout
        r = s.sol.check()
        m = s.sol.model() if r == z3.sat else None
        s.sol.pop()
        s.res.smt += time.time() - t
        if os.environ.get('VC_SLOW') and time.time() - t > 1.0:
            print('SLOW %.1f %s' % (time.time() - t, r), [str(e)[:300] for e in extra], file=sys.stderr)
        return r, m
    def feasible(s, st, c=True):
        if c is False: return False
        r, m = s.check(st, c, timeout=500) if c is not True else s.check(st, timeout=500)
        return r != z3.unsat
    def prove(s, st, c):
        if isinstance(c, bool): return c
        c2 = st.simp(c)
        if isinstance(c2, bool): return c2
        nf = len(st.node.f)
        k = (id(st.node), nf, c.get_id())
        r = s.cache.get(k)
        if r is None:
            r = s.check(st, z3.Not(c))[0] == z3.unsat
            s.cache[k] = r; s.keep.append((c, st.node))
        return r
    def oblige(s, st, c, tags, what):
        """an obligation: c must hold in st; afterwards it is assumed"""
        if c is True:
            if not s.quiet: s.res.n += 1; s.res.ok += 1
            return True
        if s.quiet:
            if s.quiet_assume: st.fact(bz(c))
            return True
        s.res.n += 1
        if isinstance(c, bool): r, m = s.check(st)
        else:
            r, m = s.check(st, z3.Not(c))
        if r == z3.unsat:
            s.res.ok += 1
            if not isinstance(c, bool): st.fact(c)
            return True
        rec = dict(what=what, tags=list(tags), abst=st.abst, kind='sat' if r == z3.sat else 'unknown', where=s.where(st))
        if m is not None: rec['model'] = s.describe(st, m)
        (s.res.fail if r == z3.sat else s.res.und).append(rec)
        if len(s.res.fail) + len(s.res.und) > 40: raise Budget('too many failures')
        if not isinstance(c, bool): st.fact(c)
        return False
    quiet_assume = True
    def where(s, st):
        return ' < '.join('%s:%s' % (s.m.dem.get(f.f.name, f.f.name).split('(')[0][-60:], f.b) for f in reversed(st.frames))
    def describe(s, st, m):
        """bytes of the inputs in a model"""
        out = {}
        for r in st.g.get('inputs', []):
            try:
                n = m.eval(tz(r.size), model_completion=True).as_long()
                C = st.g['in:%d' % r.id]
                if n > 200: out[r.name] = 'size %d' % n; continue
                bs = bytes(max(0, min(255, m.eval(tz(C.f(z3.IntVal(i))), model_completion=True).as_long())) for i in range(n))
                out[r.name] = bs.hex(); out[r.name + ' '] = repr(bs)
            except Exception as e: out[r.name] = '?'
        for k, t in st.g.get('show', {}).items():
            try: out[k] = str(m.eval(tz(t) if isint(t) else t, model_completion=True))
            except Exception: pass
        return out
    def fresh(s, name='v'):
        s.fresh_n += 1
        return z3.Int('%s!%d' % (name, s.fresh_n))
    def freshsi(s, st, w, name='v', lo=0, hi=None):
        e = s.fresh(name); hi = mask(w) if hi is None else hi
        st.fact(z3.And(e >= lo, e <= hi))
        return SI(e, w, lo, hi)
    def concretize(s, st, e):
        if isint(e): return e
        v = st.simp_int(e) if hasattr(st, 'simp_int') else None
        r, m = s.check(st)
        if r != z3.sat: return None
        v = m.eval(e, model_completion=True)
        if not z3.is_int_value(v): return None
        v = v.as_long()
        return v if s.prove(st, e == v) else None
    # ---- memory
    def region(s, st, name, kind, size, const=False, content=None):
        r = Region(name, kind, size, const)
        st.mem[r.id] = {} if kind in ('cells', 'storage') else (content or Base(name))
        s.gregs[r.id] = r
        return r
    def globreg(s, st, name):
        if name in s.globals_mem:
            r, init = s.globals_mem[name]
        else:
            if name not in s.m.globals: raise Unsupported('global ' + name)
            ty, init, const = s.m.globals[name]
            try: size = s.m.size(ty)
            except Exception: size = 8
            r = Region(name, 'bytes' if init and init[0] in ('bytes',) else 'cells', size, const)
            if init and init[0] == 'bytes': c = Bytes(init[1])
            elif init and init[0] == 'zero' and ty.k == 'a' and ty.el.k == 'i' and ty.el.w == 8:
                r.kind = 'bytes'; c = Bytes(bytes(size))
            elif init and init[0] == 'agg' and ty.k == 'a' and ty.el.k == 'i' and ty.el.w == 8:
                r.kind = 'bytes'; c = Bytes(bytes(x[1][1] & 255 for x in init[1]))
            else:
                c = {}
                if init: s.flatten(ty, init, 0, c)
            init = c; s.globals_mem[name] = (r, c); s.gregs[r.id] = r
        if r.id not in st.mem: st.mem[r.id] = init
        return r
    def flatten(s, ty, c, off, out):
        if ty.k == 'i':
            if c[0] == 'int': out[off] = (s.m.size(ty), c[1] & mask(ty.w))
            elif c[0] == 'zero': out[off] = (s.m.size(ty), 0)
        elif ty.k == 'p':
            if c[0] in ('null', 'zero'): out[off] = (8, NULL)
            elif c[0] == 'glob': out[off] = (8, ('lazyglob', c[1]))
            else: out[off] = (8, UNDEF)
        elif ty.k == 'a':
            for i in range(min(ty.n, 600)):
                x = ('zero',) if c[0] == 'zero' else (c[1][i][1] if c[0] == 'agg' else ('int', c[1][i]) if c[0] == 'bytes' else ('undef',))
                s.flatten(ty.el, x, off + i*s.m.size(ty.el), out)
        elif ty.k == 's':
            for i, e in enumerate(ty.el):
                x = ('zero',) if c[0] == 'zero' else (c[1][i][1] if c[0] == 'agg' else ('undef',))
                s.flatten(e, x, off + s.m.field(ty, i), out)
    def off(s, st, o):
        if isinstance(o, FM): return fm_term(o, True)
        return o
    def inb(s, st, p, n, what):
        """[p, p+n) lies in a live region"""
        if p.r is None:
            s.oblige(st, eq(n, 0) if not isint(n) else n == 0, ['C14'], 'null pointer access in ' + what)
            return
        o = s.off(st, p.o)
        if p.r.id in st.dead:
            s.oblige(st, eq(n, 0), ['C14'], 'access to freed memory in ' + what); return
        c = band(ge(o, 0), le(tadd(o, n), p.r.size))
        if c is True:
            if not s.quiet: s.res.n += 1; s.res.ok += 1
            return
        s.oblige(st, c, ['C14'], '%s within %s' % (what, p.r.name))
    def load(s, st, ty, p):
        if isinstance(p, VTab):
            return VFn(p.r, p.k)
        if not isinstance(p, P): raise Unsupported('load through %r' % (p,))
        r = p.r; n = s.m.size(ty)
        if r is None:
            s.oblige(st, False, ['C14'], 'null pointer read'); raise PathEnd()
        if ty.k == 's' or ty.k == 'a':
            el = ty.el if ty.k == 's' else [ty.el]*ty.n
            return Agg([s.load(st, e, P(r, tadd(p.o, s.m.field(ty, i) if ty.k == 's' else i*s.m.size(ty.el)))) for i, e in enumerate(el)])
        if r.kind == 'storage':
            if p.o == 0: return VTab(r)
            raise Unsupported('storage field')
        if r.kind == 'cells':
            s.inb(st, p, n, 'read')
            o = p.o
            if isinstance(o, FM): o = fm_term(o)
            if not isint(o):
                o2 = s.concretize(st, o)
                if o2 is None:
                    # symbolic index into an array of equal integer cells
                    C = st.mem[r.id]
                    if ty.k == 'i':
                        e = None
                        for oo, (w, v) in sorted(C.items()):
                            if w == n and v is not UNDEF and not isinstance(v, (P, Agg)):
                                b = tz(st.uns(v)); e = b if e is None else z3.If(o == oo, b, e)
                        if e is not None: return SI(e, ty.w, 0, mask(ty.w))
                    raise Unsupported('symbolic offset in %s' % r.name)
                o = o2
            C = st.mem[r.id]
            if o not in C:
                # byte of a wider integer, or uninitialised
                raise Unsupported('uninitialised read %s+%d' % (r.name, o))
            w, v = C[o]
            if isinstance(v, tuple) and v[0] == 'lazyglob':
                g = v[1]
                return Fn(g) if g in s.m.funcs or g in s.m.decls else P(s.globreg(st, g), 0)
            if v is UNDEF: raise Unsupported('uninitialised read %s+%d' % (r.name, o))
            if w != n: raise Unsupported('partial read %s+%d (%d of %d)' % (r.name, o, n, w))
            if ty.k == 'p' and not isinstance(v, (P, Fn, VTab, VFn, Exc)): raise Unsupported('pointer from integer %r at %s+%s' % (v, r.name, o))
            if ty.k == 'i' and isinstance(v, (P,)): raise Unsupported('integer from pointer')
            return v
        if n != 1: raise Unsupported('wide read from bytes')
        C = st.mem[r.id]
        if r.const and isinstance(C, Bytes) and isinstance(p.o, FM):
            t = [s_of(x, 64) for x in p.o.t]
            if all(0 <= x < len(C.data) for x in t):
                if not s.quiet: s.res.n += 1; s.res.ok += 1
                return fm(p.o.b, tuple(C.data[x] for x in t), 8)
            good = frozenset(i for i in range(256) if 0 <= t[i] < len(C.data))
            s.oblige(st, inset(p.o.b, good), ['C14'], 'table read within %s' % r.name)
            return fm(p.o.b, tuple(C.data[x] if 0 <= x < len(C.data) else 0 for x in t), 8)
        o = s.off(st, p.o)
        s.inb(st, P(r, o), 1, 'read')
        if isinstance(C, Bytes) and not isint(o):
            o2 = s.concretize(st, o)
            if o2 is not None: o = o2
            elif len(C.data) <= 32:
                e = s.fresh('tab'); st.fact(z3.And(e >= 0, e <= 255))
                for i, d in enumerate(C.data): st.fact(z3.Implies(o == i, e == d))
                return FM(e, IDENT, 8)
        st.mark(C, o)
        e = C.at(st, o)
        if isint(e): return e
        if z3.is_int_value(e): return e.as_long()
        return FM(e, IDENT, 8)
    def store(s, st, ty, v, p):
        if not isinstance(p, P): raise Unsupported('store through %r' % (p,))
        r = p.r; n = s.m.size(ty)
        if r is None:
            s.oblige(st, False, ['C14'], 'null pointer write'); raise PathEnd()
        if isinstance(v, Agg):
            for i, x in enumerate(v.v):
                e = ty.el[i] if ty.k == 's' else ty.el
                s.store(st, e, x, P(r, tadd(p.o, s.m.field(ty, i) if ty.k == 's' else i*s.m.size(ty.el))))
            return
        if r.const: s.oblige(st, False, ['C14'], 'write to constant ' + r.name); return
        if r.kind == 'storage': raise Unsupported('write to storage')
        s.inb(st, p, n, 'write')
        if r.kind == 'cells':
            o = p.o
            if not isint(o):
                o = s.concretize(st, s.off(st, o))
                if o is None: raise Unsupported('symbolic write offset in %s' % r.name)
            C = dict(st.mem[r.id])
            for q in range(o - 7, o + n):
                if q in C and q != o and q + C[q][0] > o and q < o + n: del C[q]
            C[o] = (n, v); st.mem[r.id] = C
            return
        if n != 1: raise Unsupported('wide write to bytes')
        if v is UNDEF: raise Unsupported('undef byte')
        o = s.off(st, p.o)
        st.mark(st.mem[r.id], o)
        st.mem[r.id] = Store(st.mem[r.id], o, st.b8(v))
    def content(s, st, r):
        C = st.mem[r.id]
        if isinstance(C, dict): return CellView(C)
        return C
    def copy(s, st, d, src, n, move):
        """memcpy, memmove"""
        if not isint(n):
            n2 = None
            if (d.r and d.r.kind == 'cells') or (src.r and src.r.kind == 'cells' and d.r and d.r.kind == 'cells'):
                n2 = s.concretize(st, n)
            if n2 is not None: n = n2
        if isint(n) and n == 0: return
        if d.r is None or src.r is None:
            s.oblige(st, eq(n, 0), ['C14'], 'null pointer in memcpy'); return
        if d.r.kind == 'cells' and src.r.kind == 'cells' and isint(n) and isint(d.o) and isint(src.o):
            s.inb(st, d, n, 'memcpy write'); s.inb(st, src, n, 'memcpy read')
            S = st.mem[src.r.id]; D = dict(st.mem[d.r.id])
            for q in list(D):
                if d.o <= q < d.o + n: del D[q]
            for q, (w, v) in S.items():
                if src.o <= q < src.o + n: D[q - src.o + d.o] = (w, v)
            st.mem[d.r.id] = D
            return
        if d.r.const: s.oblige(st, False, ['C14'], 'memcpy to constant'); return
        if d.r.kind != 'bytes':
            if d.r.kind == 'cells' and isint(n) and isint(d.o) and n <= 64:
                C = s.content(st, src.r); so = s.off(st, src.o)
                s.inb(st, d, n, 'memcpy write'); s.inb(st, src, n, 'memcpy read')
                D = dict(st.mem[d.r.id])
                for i in range(n):
                    e = C.at(st, tadd(so, i)); D[d.o+i] = (1, e if isint(e) else FM(e, IDENT, 8))
                st.mem[d.r.id] = D; return
            raise Unsupported('memcpy to cells')
        do, so = s.off(st, d.o), s.off(st, src.o)
        s.inb(st, P(d.r, do), n, 'memcpy write'); s.inb(st, P(src.r, so), n, 'memcpy read')
        if not move and d.r is src.r:
            s.oblige(st, bor(le(n, 0), le(tadd(do, n), so), le(tadd(so, n), do)), ['C14'], 'memcpy ranges overlap')
        st.mem[d.r.id] = Copy(st.mem[d.r.id], do, n, s.content(st, src.r), so)
    # ---- integer operations
    def val(s, st, fr, ty, c):
        k = c[0]
        if k == 'reg':
            v = fr.env.get(c[1])
            if v is None: raise Unsupported('register ' + c[1])
            return v
        if k == 'int': return c[1] & mask(ty.w)
        if k == 'null': return NULL
        if k == 'glob':
            if c[1] in s.m.globals: return P(s.globreg(st, c[1]), 0)
            return Fn(c[1])
        if k == 'zero':
            return s.zero(ty)
        if k == 'undef':
            if ty.k == 's': return Agg([s.val(st, fr, e, c) for e in ty.el])
            return UNDEF
        if k == 'cgep':
            b = s.val(st, fr, ir.PTR, c[2])
            return s.gep(st, fr, c[1], b, c[3])
        if k == 'agg': return Agg([s.val(st, fr, e, x) for e, x in c[1]])
        raise Unsupported('operand ' + k)
    def zero(s, ty):
        if ty.k == 'i': return 0
        if ty.k == 'p': return NULL
        if ty.k == 's': return Agg([s.zero(e) for e in ty.el])
        if ty.k == 'a': return Agg([s.zero(ty.el)]*ty.n)
        raise Unsupported('zero')
    def gep(s, st, fr, bt, b, idx):
        off = 0; t = bt; first = True; offs = []
        for it, ic in idx:
            v = s.val(st, fr, it, ic)
            if first:
                sz = s.m.size(t); first = False
            elif t.k == 's':
                off += s.m.field(t, v); t = t.el[v]; continue
            elif t.k == 'a':
                sz = s.m.size(t.el); t = t.el
            else: raise Unsupported('gep')
            if isint(v): off += s_of(v, it.w) * sz
            else: offs.append((v, sz, it.w))
        if isinstance(b, VTab):
            if offs: raise Unsupported('vtable gep')
            return VTab(b.r, b.k + off//8)
        if not isinstance(b, P):
            raise Unsupported('gep on %r' % (b,))
        if len(offs) == 1 and isinstance(offs[0][0], FM) and isint(b.o) and offs[0][1] == 1:
            v = offs[0][0]
            return P(b.r, FM(v.b, tuple((s_of(x, v.w) + off + b.o) & mask(64) for x in v.t), 64))
        o = tadd(s.off(st, b.o), off)
        for v, sz, w in offs: o = tadd(o, tmul(s.sgnw(st, v, w) if False else st.sgnw(v, w), sz))
        return P(b.r, o)
    def binop(s, st, op, w, x, y, flags):
        if x is UNDEF or y is UNDEF: raise Unsupported('undef operand')
        if w == 1:
            X_, Y_ = s.bool(x), s.bool(y)
            if op == 'xor': return s.frombool(bnot(iff(X_, Y_)))
            if op == 'and': return s.frombool(band(X_, Y_))
            if op == 'or': return s.frombool(bor(X_, Y_))
            raise Unsupported('i1 ' + op)
        M = mask(w)
        def conc(a, b):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = a >> b if b < w else 0
            elif op == 'ashr': r = s_of(a, w) >> min(b, w-1)
            elif op == 'udiv': r = a // b if b else 0
            elif op == 'urem': r = a % b if b else 0
            elif op in ('sdiv', 'srem'):
                A, B = s_of(a, w), s_of(b, w)
                if B == 0: r = 0
                else:
                    q = abs(A)//abs(B); q = q if (A < 0) == (B < 0) else -q
                    r = q if op == 'sdiv' else A - q*B
            else: raise Unsupported(op)
            return r & M
        def ovf(a, b):
            if 'nsw' in flags and op in ('add', 'sub', 'mul', 'shl'):
                A, B = s_of(a, w), s_of(b, w)
                r = A + B if op == 'add' else A - B if op == 'sub' else A*B if op == 'mul' else A << b
                if not -(1 << w-1) <= r < (1 << w-1): return True
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: return True
            return False
        if isint(x) and isint(y):
            if ovf(x, y): s.oblige(st, False, ['C14'], 'signed overflow in ' + op)
            return conc(x, y)
        if isinstance(x, FM) and (isint(y) or (isinstance(y, FM) and y.b.get_id() == x.b.get_id())):
            yt = y.t if isinstance(y, FM) else (y,)*256
            bad = frozenset(i for i in range(256) if ovf(x.t[i], yt[i]))
            if bad: s.oblige(st, bnot(inset(x.b, bad)), ['C14'], 'overflow in ' + op)
            return fm(x.b, tuple(conc(a, b) for a, b in zip(x.t, yt)), w)
        if isinstance(y, FM) and isint(x):
            bad = frozenset(i for i in range(256) if ovf(x, y.t[i]))
            if bad: s.oblige(st, bnot(inset(y.b, bad)), ['C14'], 'overflow in ' + op)
            return fm(y.b, tuple(conc(x, b) for b in y.t), w)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                a, b = st.sgnw(x, w), st.sgnw(y, w)
                if op == 'mul' and not isint(a) and not isint(b): raise Unsupported('nonlinear')
                e = tadd(a, b) if op == 'add' else tsub(a, b) if op == 'sub' else (tmul(a, b) if isint(b) else tmul(b, a))
                H = 1 << (w-1)
                if not isint(e): s.oblige(st, z3.And(e >= -H, e < H), ['C14'], 'signed overflow in ' + op)
                return si(e, w, -H, H - 1)
            a, la, ha = st.raw(x, w); b, lb, hb = st.raw(y, w)
            if op == 'add': e, lo, hi = tadd(a, b), la + lb, ha + hb
            elif op == 'sub': e, lo, hi = tsub(a, b), la - hb, ha - lb
            else:
                if isint(b): e, c = tmul(a, s_of(b, w) if s_of(b, w) < 0 and w == 64 else b), b
                elif isint(a): e, c = tmul(b, a), a
                else: raise Unsupported('nonlinear')
                q = [la*lb, la*hb, ha*lb, ha*hb]; lo, hi = min(q), max(q)
            if hi - lo > (1 << 80):
                e = st.uns(SI(tz(e), w, lo, hi)); lo, hi = 0, M
            return si(e, w, lo, hi)
        if op == 'shl' and isint(y):
            a, la, ha = st.raw(x, w); k = 1 << y
            return si(tmul(a, k), w, la*k, ha*k)
        u = st.uns(x)
        if op in ('lshr', 'udiv', 'urem') and isint(y):
            k = (1 << y) if op == 'lshr' else y
            if k == 0:
                s.oblige(st, False, ['C14'], 'division by zero'); raise PathEnd()
            if op == 'urem': return SI(u % k, w, 0, k-1)
            return SI(tz(u) / k, w, 0, M // k)
        if op == 'ashr' and isint(y):
            a = st.sgnw(x, w)
            return SI(tz(a) / (1 << y), w, -(1 << w-1) >> y, (1 << w-1) >> y)
        if op == 'and' and isint(y) and (y & (y+1)) == 0:
            if isint(u): return u & y
            return SI(u % (y+1), w, 0, y)
        if op == 'and' and isint(x) and (x & (x+1)) == 0:
            return SI(st.uns(y) % (x+1), w, 0, x)
        if op in ('udiv', 'urem', 'mul') and not isint(y):
            v = s.concretize(st, st.uns(y))
            if v is not None: return s.binop(st, op, w, x, v, flags)
            return s.special(st, op, w, x, y)
        if op in ('or', 'xor', 'and'):
            # operands without a bit in common: one a multiple of 2^k, the other below 2^k
            for a, b in ((x, y), (y, x)):
                k = s.lowbits(a, w)
                if not k: continue
                if isinstance(b, FM): c = inset(b.b, frozenset(i for i in range(256) if b.t[i] < (1 << k)))
                elif isint(b): c = b < (1 << k)
                else:
                    v = st.uns(b); c = band(ge(v, 0), lt(v, 1 << k))
                if c is False or not (c is True or s.prove(st, c)): continue
                return 0 if op == 'and' else s.binop(st, 'add', w, a, b, ())
            # otherwise all that is known is the range
            hi = [max(v.t) if isinstance(v, FM) else v if isint(v) else st.raw(v, w)[2] for v in (x, y)]
            if all(h <= M for h in hi):
                m = min(hi) if op == 'and' else (1 << max(hi).bit_length()) - 1
                e = s.fresh('bits'); st.fact(z3.And(e >= 0, e <= m)); st.abst = True
                return SI(e, w, 0, m)
        raise Unsupported('%s on symbolic operands' % op)
    def lowbits(s, v, w):
        """k such that v is a multiple of 2^k"""
        def low(n): return w if n == 0 else (n & -n).bit_length() - 1
        if isint(v): return low(v)
        if isinstance(v, FM): return min(low(n) for n in v.t)
        e = getattr(v, 'e', None)
        if e is not None and z3.is_expr(e) and z3.is_mul(e) and z3.is_int_value(e.arg(0)): return min(w, low(e.arg(0).as_long()))
        return 0
    def special(s, st, op, w, x, y):
        raise Unsupported('%s on symbolic operands' % op)
    def bool(s, v):
        if isinstance(v, bool): return v
        if isint(v): return bool(v & 1)
        if isinstance(v, FM): return fm_bool(v, lambda t: t & 1)
        if isinstance(v, SI): return bz(True) if False else (v.e % 2 == 1 if not (v.lo >= 0 and v.hi <= 1) else v.e == 1)
        if z3.is_bool(v): return v
        raise Unsupported('bool')
    def frombool(s, c):
        if isinstance(c, bool): return int(c)
        return c
    def icmp(s, st, pred, ty, x, y):
        if ty.k == 'p':
            if isinstance(x, Fn) or isinstance(y, Fn):
                if isinstance(x, Fn) and isinstance(y, Fn): r = x.n == y.n
                else: r = False
                return r if pred == 'eq' else not r
            if not isinstance(x, P) or not isinstance(y, P): raise Unsupported('pointer comparison')
            if x.r is not y.r:
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                s.oblige(st, False, ['C14'], 'comparison of pointers into different objects')
                raise PathEnd()
            a, b = s.off(st, x.o), s.off(st, y.o)
            return {'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge, 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](a, b)
        w = ty.w
        if x is UNDEF or y is UNDEF: raise Unsupported('undef compare')
        if w == 1:
            c = iff(s.bool(x), s.bool(y))
            if pred == 'eq': return c
            if pred == 'ne': return bnot(c)
            raise Unsupported('i1 compare')
        P_ = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
              'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b,
              'slt': lambda a, b: s_of(a, w) < s_of(b, w), 'sle': lambda a, b: s_of(a, w) <= s_of(b, w),
              'sgt': lambda a, b: s_of(a, w) > s_of(b, w), 'sge': lambda a, b: s_of(a, w) >= s_of(b, w)}[pred]
        if isint(x) and isint(y): return P_(x, y)
        if isinstance(x, FM) and isint(y): return fm_bool(x, lambda t: P_(t, y))
        if isinstance(y, FM) and isint(x): return fm_bool(y, lambda t: P_(x, t))
        if isinstance(x, FM) and isinstance(y, FM) and x.b.get_id() == y.b.get_id():
            return inset(x.b, frozenset(i for i in range(256) if P_(x.t[i], y.t[i])))
        if pred in ('eq', 'ne'):
            a, la, ha = st.raw(x, w); b, lb, hb = st.raw(y, w)
            if max(ha, hb) - min(la, lb) < (1 << w): c = eq(a, b)
            else: c = eq(st.uns(x), st.uns(y))
            return c if pred == 'eq' else bnot(c)
        if pred[0] == 'u': a, b = st.uns(x), st.uns(y)
        else: a, b = st.sgnw(x, w), st.sgnw(y, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    def cast(s, st, op, fty, v, tty):
        if op == 'ptrtoint':
            if not isinstance(v, P): raise Unsupported('ptrtoint')
            if v.r is None: return si(v.o, 64, 0, 0)
            a = s.addr(st, v.r); o = s.off(st, v.o)
            return SI(tz(tadd(a, o)), 64, -(1 << 49), (1 << 63) + (1 << 49))
        if op == 'inttoptr':
            if isint(v) and v == 0: return NULL
            e = v.e if isinstance(v, SI) else None
            if e is None: raise Unsupported('inttoptr')
            rs = [r for r in s.addrs.values()]
            u = st.uns(v)
            vs = {d.get_id() for d in consts(u)}
            rs = [r for r in rs if r.addr.get_id() in vs]
            if len(rs) != 1: raise Unsupported('inttoptr')
            return P(rs[0], tsub(u, rs[0].addr))
        if op == 'bitcast': return v
        if v is UNDEF: raise Unsupported('undef cast')
        fw, tw = fty.w, tty.w
        if fw == 1:
            if op == 'trunc': return v
            b = s.bool(v)
            if isinstance(b, bool): return (mask(tw) if op == 'sext' else 1) if b else 0
            return SI(z3.If(b, z3.IntVal(-1 if op == 'sext' else 1), z3.IntVal(0)), tw, -1 if op == 'sext' else 0, 0 if op == 'sext' else 1)
        if isint(v):
            return (s_of(v, fw) & mask(tw)) if op == 'sext' else v & mask(tw)
        if isinstance(v, FM):
            r = fm(v.b, tuple(((s_of(x, fw) if op == 'sext' else x) & mask(tw)) for x in v.t), tw)
            if tw == 1:
                return s.frombool(fm_bool(r, lambda t: t & 1)) if isinstance(r, FM) else r
            return r
        if op == 'trunc':
            if tw == 1: return s.frombool(s.bool(v))
            return SI(v.e, tw, v.lo, v.hi)
        if op == 'zext': return SI(tz(st.uns(v)), tw, 0, mask(fw))
        if op == 'sext': return SI(tz(st.sgn(v)), tw, -(1 << fw-1), (1 << fw-1) - 1)
        raise Unsupported(op)
    def addr(s, st, r):
        if r.addr is None:
            r.addr = z3.Int('addr_%s_%d' % (r.name, r.id)); s.addrs[r.id] = r
        st.fact(z3.And(r.addr > 0, tz(r.addr) + tz(r.size) < (1 << 62)))
        return r.addr
    # ---- control
    def branch(s, st, c):
        """list of (state, truth)"""
        if not isinstance(c, bool): c = st.simp(c)
        if isinstance(c, bool): return [(st, c)]
        rt, _ = s.check(st, c, timeout=500)
        if rt == z3.unsat:
            st.fact(bnot(c)); return [(st, False)]
        rf, _ = s.check(st, bnot(c), timeout=500)
        if rf == z3.unsat:
            st.fact(c); return [(st, True)]
        t = st.fork()
        st.fact(c); t.fact(bnot(c))
        return [(st, True), (t, False)]
    def goto(s, st, b):
        fr = st.frames[-1]; d = len(st.frames)
        fr.prev = fr.b; fr.b = b; fr.i = 0
        loops = s.m.loops(fr.f)
        while st.lctx and st.lctx[-1].depth == d and b not in st.lctx[-1].blocks:
            L = st.lctx.pop()
            if L.lvl: st.evq.append(('exit', L.lvl))
        if b in loops:
            if st.lctx and st.lctx[-1].depth == d and st.lctx[-1].h == b:
                L = st.lctx[-1]
                if L.lvl:
                    st.lctx.pop(); st.evq.append(('back', L.lvl)); return
                # plain unrolling, unless the contract knows how to summarise the state
                if s.cut is not None:
                    t = s.cut(s, st, b)
                    if t is False: raise PathEnd()
                    if t is not None:
                        st.become(t); return
                fr.visits[b] = fr.visits.get(b, 0) + 1
                if fr.visits[b] > s.unroll:
                    s.oblige(st, False, ['unwind'], 'loop bound of %d iterations' % s.unroll)
                    raise PathEnd()
                return
            st.evq.append(('loop', b))
    def leave(s, st, d):
        while st.lctx and st.lctx[-1].depth == d:
            L = st.lctx.pop()
            if L.lvl: st.evq.append(('exit', L.lvl))
    def ret(s, st, v):
        fr = st.frames[-1]; call = fr.call
        s.leave(st, len(st.frames))
        if call is None:
            st.final = ('ret', v); st.done = True; return
        st.frames.pop()
        res, nd = call
        c = st.frames[-1]
        if res is not None: c.env[res] = v
        if nd: s.goto(st, nd[0])
        else: c.i += 1
    def throw(s, st, t, resume=False):
        """raise exception type t from the current instruction of the top frame"""
        while True:
            fr = st.frames[-1]
            x = s.m.block(fr.f, fr.b)[fr.i]
            if x.op == 'invoke' and not resume:
                fr.env['exc'] = Exc(t); s.goto(st, x.a[3][1]); return
            resume = False
            s.leave(st, len(st.frames))
            if fr.call is None:
                st.final = ('throw', t); st.done = True; return
            st.frames.pop()
    def run(s, states, lvl=0):
        """explore to the end, or to the events of loop level lvl"""
        out = []; work = list(states)
        while work:
            st = work.pop()
            try:
                while True:
                    if st.evq:
                        if st.evq[0][0] == 'loop':
                            h = st.evq.pop(0)[1]
                            work.extend(s.loop(st, h, lvl)); break
                        out.append(st); break
                    if st.done: out.append(st); break
                    nxt = s.step(st)
                    if nxt is None: continue
                    if len(nxt) == 1 and nxt[0] is st: continue
                    work.extend(nxt); break
            except PathEnd: pass
            if len(work) > 4000: raise Budget('paths')
        return out
    def step(s, st):
        fr = st.frames[-1]
        blk = s.m.block(fr.f, fr.b)
        x = blk[fr.i]; op = x.op
        if time.time() > s.deadline: raise Budget('time')
        if op == 'alloca':
            ty = x.a[0]; name = '%s.%s' % (x.res, len(st.frames))
            r = s.region(st, name, 'cells', s.m.size(ty)); fr.env[x.res] = P(r, 0)
        elif op == 'load':
            fr.env[x.res] = s.load(st, x.a[0], s.val(st, fr, ir.PTR, x.a[1]))
        elif op == 'store':
            (ty, c), pc = x.a
            v = s.val(st, fr, ty, c)
            s.store(st, ty, v, s.val(st, fr, ir.PTR, pc))
        elif op == 'getelementptr':
            bt, b, idx, fl = x.a
            fr.env[x.res] = s.gep(st, fr, bt, s.val(st, fr, ir.PTR, b), idx)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            ty, a, b, fl = x.a
            fr.env[x.res] = s.binop(st, op, ty.w, s.val(st, fr, ty, a), s.val(st, fr, ty, b), fl)
        elif op == 'icmp':
            pred, ty, a, b = x.a
            fr.env[x.res] = s.frombool(s.icmp(st, pred, ty, s.val(st, fr, ty, a), s.val(st, fr, ty, b)))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            fr.env[x.res] = s.cast(st, op, x.a[0], s.val(st, fr, x.a[0], x.a[1]), x.a[2])
        elif op == 'br':
            if len(x.a) == 1:
                s.goto(st, x.a[0]); return None
            c = s.bool(s.val(st, fr, ir.I[1], x.a[0])); out = []
            if st.lctx:
                lc = st.lctx[-1]
                if lc.fixed is not None and lc.depth == len(st.frames) and lc.h == fr.b and c is True \
                   and (x.a[1] in lc.blocks) and not (x.a[2] in lc.blocks):
                    lc.fixed.append(1)
            for t, tv in s.branch(st, c):
                try:
                    s.goto(t, x.a[1] if tv else x.a[2]); out.append(t)
                except PathEnd: pass
            return out
        elif op == 'switch':
            (ty, vc), dflt, cases = x.a
            v = s.val(st, fr, ty, vc); cur = st; out = []
            for cv, lab in cases:
                rs = s.branch(cur, s.icmp(cur, 'eq', ty, v, cv & mask(ty.w))); cur = None
                for t, tv in rs:
                    if tv:
                        s.goto(t, lab); out.append(t)
                    else: cur = t
                if cur is None: break
            if cur is not None: s.goto(cur, dflt); out.append(cur)
            return out
        elif op == 'phi':
            # evaluate all phis of the block at once
            vals = []; j = fr.i
            while blk[j].op == 'phi':
                ty, inc = blk[j].a
                for v, b in inc:
                    if b == fr.prev: vals.append((blk[j].res, s.val(st, fr, ty, v))); break
                else: raise Unsupported('phi')
                j += 1
            for r, v in vals: fr.env[r] = v
            fr.i = j; return None
        elif op == 'select':
            c, a, b = x.a
            out = []
            for t, tv in s.branch(st, s.bool(s.val(st, fr, ir.I[1], c))):
                f2 = t.frames[-1]; q = a if tv else b
                f2.env[x.res] = s.val(t, f2, q[0], q[1]); f2.i += 1; out.append(t)
            return out
        elif op == 'extractvalue':
            v = s.val(st, fr, None, x.a[0])
            for k in x.a[1]: v = v.v[k] if isinstance(v, Agg) else v
            fr.env[x.res] = v
        elif op == 'insertvalue':
            (ty, a), (ty2, b), idx = x.a
            v = s.val(st, fr, ty, a); w = s.val(st, fr, ty2, b)
            if len(idx) != 1: raise Unsupported('insertvalue')
            if isinstance(v, Exc): pass
            l = list(v.v); l[idx[0]] = w; fr.env[x.res] = Agg(l)
        elif op == 'landingpad':
            fr.env[x.res] = Agg([fr.env['exc'], 0])
        elif op == 'resume':
            t = fr.env['exc']
            s.throw(st, t.t, True); return None
        elif op == 'ret':
            v = None if x.a[0] is None else s.val(st, fr, x.a[0][0], x.a[0][1])
            s.ret(st, v); return None
        elif op == 'unreachable':
            s.oblige(st, False, ['C14'], 'unreachable code reached'); raise PathEnd()
        elif op in ('call', 'invoke'):
            return s.call(st, fr, x)
        else:
            raise Unsupported(op)
        fr.i += 1
        return None
    def after(s, st, x, v):
        """continue after a call that returned v"""
        fr = st.frames[-1]
        if x.res is not None: fr.env[x.res] = v
        if x.a[3]: s.goto(st, x.a[3][0])
        else: fr.i += 1
    def call(s, st, fr, x):
        rt, callee, args, nd = x.a
        if callee[0] == 'reg':
            f = fr.env[callee[1]]
            if isinstance(f, VFn):
                vals = [s.val(st, fr, t, c) for t, c in args]
                return s.finish(st, x, s.vcall(st, f, vals))
            if isinstance(f, Fn): name = f.n
            else: raise Unsupported('indirect call')
        else: name = callee[1]
        dem = s.m.dem.get(name, name)
        vals = [s.val(st, fr, t, c) if not (c[0] == 'undef') else UNDEF for t, c in args]
        mdl = s.models(dem, name)
        if mdl is not None:
            return s.finish(st, x, mdl(s, st, vals, x))
        ct = s.contracts.get(name)
        if ct is not None and name != s.fid:
            try: outs = ct.apply(s, st, vals)
            except Unsupported: outs = None     # outside the contract: executed in place
            if outs is not None:
                s.res.called.add(dem)
                return s.finish(st, x, outs)
        if name not in s.m.funcs: raise Unsupported('call to ' + dem)
        f = s.m.funcs[name]
        if len(st.frames) > 40: raise Unsupported('recursion')
        s.res.inlined.add(dem)
        nf = Frame(f)
        for (ty, pn), v in zip(f.params, vals): nf.env[pn] = v
        nf.call = (x.res, nd)
        st.frames.append(nf)
        if f.entry in s.m.loops(f): st.evq.append(('loop', f.entry))
        return None
    def finish(s, st, x, outs):
        """outs: list of (state, ('ret', v) | ('throw', t))"""
        res = []
        for t, o in outs:
            try:
                if o[0] == 'ret': s.after(t, x, o[1])
                else: s.throw(t, o[1])
                res.append(t)
            except PathEnd: pass
        return res
    def relations(s, st, r):
        """relations between the change of a variable and a pointer's move in region r"""
        import spec
        C = st.mem[r.id]; out = []
        for N in list(st.steps.get(C.id, {}).values()):
            if isinstance(N, spec.Prefix):
                def rel(q, dx, p0, p, N=N): return eq(dx, tsub(N.at(q, p), N.at(q, p0)))
                rel.__name__ = 'sum ' + N.key; out.append(rel)
                if isinstance(N, spec.Cnt) and N.c != 37:
                    # at the head of a loop that steps over a separator first
                    def rel(q, dx, p0, p, N=N): return eq(dx, tsub(N.at(q, tadd(p, 1)), N.at(q, tadd(p0, 1))))
                    rel.__name__ = 'sum+1 ' + N.key; out.append(rel)
                if isinstance(N, spec.Cnt) and N.c == 37:
                    def rel(q, dx, p0, p, N=N): return eq(dx, tsub(tsub(p, p0), tmul(tsub(N.at(q, p), N.at(q, p0)), 2)))
                    rel.__name__ = 'declen'; out.append(rel)
        for D in list(st.g.get('sp', [])):
            if D.C is C:
                def rel(q, dx, p0, p, D=D): return band(eq(p0, D.a), ge(dx, 0), eq(p, D.at(q, dx)))
                rel.__name__ = 'sp'; out.append(rel)
        return out
    def models(s, dem, name):
        import models
        return models.find(dem, name)
    def vcall(s, st, f, vals):
        import models
        return models.vcall(s, st, f, vals)
    # ---- loops
    def loop(s, st, h, lvl):
        fr = st.frames[-1]; d = len(st.frames); blocks = s.m.loops(fr.f)[h]
        fr.visits[h] = 1
        if s.unroll:
            st.lctx.append(LCtx(d, h, blocks, 0)); return [st]
        # does the loop have a decided course?
        s.lvl = getattr(s, 'lvl', 0) + 1; L = s.lvl
        save = (s.res.n, s.res.ok, len(s.res.fail), len(s.res.und))
        fixed = []
        t = st.copy(); t.lctx.append(LCtx(d, h, blocks, L, fixed))
        s.quiet += 1
        try:
            evs = s.run([t], L)
        finally: s.quiet -= 1
        backs = [e for e in evs if e.evq and e.evq[0] == ('back', L)]
        exits = [e for e in evs if not (e.evq and e.evq[0] == ('back', L))]
        # a loop whose test is a comparison of constants (for(i = 0; i < 3; ++i))
        # is run iteration by iteration as well
        fr.peeled = dict(fr.peeled); n = fr.peeled.get(h, 0)
        if fixed and len(backs) <= 2 and n < 16: fr.peeled[h] = n + 1
        else: fixed = []
        if not backs or fixed or (not exits and (len(backs) == 1 or not s.extra_candidates)):
            # run the iteration for real
            s.lvl += 1; L = s.lvl
            st.lctx.append(LCtx(d, h, blocks, L))
            out = []
            for e in s.run([st], L):
                ev = e.evq.pop(0)
                if ev == ('back', L): e.evq.insert(0, ('loop', h))
                elif ev != ('exit', L): e.evq.insert(0, ev)
                out.append(e)
            return out
        import loops
        return loops.abstract(s, st, h, d, blocks, lvl, backs)

class PathEnd(Exception): pass

def consts(e, seen=None, out=None):
    if seen is None: seen, out = set(), []
    if isint(e) or e.get_id() in seen: return out
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(e)
    for c in e.children(): consts(c, seen, out)
    return out
