"""Models (trusted contracts) of what the library calls outside itself:
boost::system::error_code, memory intrinsics, std::string, operator new and
delete, exception machinery, and the abstract storage interface."""
import re, z3
from engine import *
import engine
ir_ = engine.ir

def ret(st, v=None): return [(st, ('ret', v))]

def may_throw(X, st, t):
    u = st.fork()
    return u, (u, ('throw', t))

# ---- error_code: one ghost integer at offset 0, zero when no error
def ec_store(X, st, p, v):
    X.inb(st, p, 24, 'error_code write')
    C = dict(st.mem[p.r.id]); o = p.o
    if not isint(o): raise Unsupported('error_code address')
    for q in list(C):
        if o <= q < o + 24: del C[q]
    C[o] = (4, v); st.mem[p.r.id] = C
def ec_load(X, st, p):
    return X.load(st, ir_.I[32], p)
def ec_default(X, st, v, x):
    ec_store(X, st, v[0], 0); return ret(st)
def ec_from(X, st, v, x):
    ec_store(X, st, v[0], v[1]); return ret(st)
def ec_assign(X, st, v, x):
    ec_store(X, st, v[0], v[1]); return ret(st, v[0])
def ec_bool(X, st, v, x):
    return ret(st, X.frombool(X.icmp(st, 'ne', ir_.I[32], ec_load(X, st, v[0]), 0)))
def ec_eq(neg):
    def f(X, st, v, x):
        return ret(st, X.frombool(X.icmp(st, 'ne' if neg else 'eq', ir_.I[32], ec_load(X, st, v[0]), ec_load(X, st, v[1]))))
    return f
def ec_clear(X, st, v, x):
    ec_store(X, st, v[0], 0); return ret(st)
def ec_value(X, st, v, x): return ret(st, ec_load(X, st, v[0]))

# ---- memory
def m_memcpy(move):
    def f(X, st, v, x):
        X.copy(st, v[0], v[1], st.uns(v[2]), move); return ret(st, v[0])
    return f
def m_memset(X, st, v, x):
    p, b, n = v[0], v[1], st.uns(v[2])
    if isint(n) and n == 0: return ret(st, p)
    X.inb(st, p, n, 'memset')
    if p.r.kind == 'bytes':
        st.mem[p.r.id] = Fill(st.mem[p.r.id], X.off(st, p.o), n, st.b8(b))
    else:
        n = X.concretize(st, n); o = p.o
        if n is None or not isint(o): raise Unsupported('memset')
        C = dict(st.mem[p.r.id])
        for q in list(C):
            if o <= q < o + n: del C[q]
        if isint(b) and b == 0 and n % 8 == 0 and n > 8:
            for i in range(0, n, 8): C[o+i] = (8, 0)
        else:
            for i in range(n): C[o+i] = (1, b)
        st.mem[p.r.id] = C
    return ret(st, p)
def m_memcmp(X, st, v, x):
    a, b, n = v[0], v[1], st.uns(v[2])
    n2 = X.concretize(st, n)
    if n2 is None:
        if x and X.opts.get('memcmp'): return X.opts['memcmp'](X, st, v, x)
        for k in (1, 2, 4, 8):
            if X.prove(st, le(n, k)): break
        else: raise Unsupported('memcmp of symbolic length')
        out = []; cur = st
        for j in range(k + 1):
            rs = X.branch(cur, eq(n, j)); cur = None
            for t, b in rs:
                if b:
                    r = m_memcmp(X, t, [a, v[1], j], x)
                    out.extend(r)
                else: cur = t
            if cur is None: break
        return out
    if n2 == 0: return ret(st, 0)
    X.inb(st, a, n2, 'memcmp'); X.inb(st, b, n2, 'memcmp')
    A, B = X.content(st, a.r), X.content(st, b.r); eqs = []
    ao, bo = X.off(st, a.o), X.off(st, b.o)
    for i in range(n2):
        s, t = tadd(ao, i), tadd(bo, i)
        st.mark(A, s); st.mark(B, t)
        eqs.append(eq(A.at(st, s), B.at(st, t)))
    c = st.simp(band(*eqs))
    if c is True: return ret(st, 0)
    r = X.fresh('cmp'); st.fact(z3.And(r >= -255, r <= 255)); st.fact((r == 0) == bz(c))
    return ret(st, SI(r, 32, -255, 255))
def m_strlen(X, st, v, x):
    p = v[0]; C = X.content(st, p.r)
    if not isint(p.o): raise Unsupported('strlen')
    for i in range(p.o, p.o + 4096):
        if isint(p.r.size) and i >= p.r.size:
            X.oblige(st, False, ['C14'], 'strlen past the end'); raise PathEnd()
        b = C.at(st, i)
        if isint(b) and b == 0: return ret(st, i - p.o)
        if not isint(b): raise Unsupported('strlen')
    raise Unsupported('strlen')
def m_memchr(X, st, v, x):
    p, c, n = v[0], v[1], st.uns(v[2])
    if not isint(c): raise Unsupported('memchr')
    if isint(n) and n == 0: return ret(st, NULL)
    import spec
    X.inb(st, p, n, 'memchr')
    C = X.content(st, p.r); o = X.off(st, p.o)
    L = spec.run(st, C, frozenset(ALLB - {c & 255}), o, tadd(o, n))
    out = []
    for t, b in X.branch(st, lt(L, tadd(o, n))):
        out.append((t, ('ret', P(p.r, L) if b else NULL)))
    return out
def m_new(X, st, v, x):
    n = st.uns(v[0])
    u, th = may_throw(X, st, 'bad_alloc')
    st.fact(bz(le(n, MAXOBJ)))
    r = X.region(st, 'heap', 'bytes', n); st.g = dict(st.g); st.g['new'] = st.g.get('new', ()) + (r,)
    out = [th]
    if X.feasible(st): out.append((st, ('ret', P(r, 0))))
    return out
def m_delete(X, st, v, x):
    p = v[0]
    if p.r is not None:
        X.oblige(st, band(p.r.id not in st.dead, eq(X.off(st, p.o), 0)), ['C14'], 'valid delete')
        st.dead.add(p.r.id)
    return ret(st)
def m_assert(X, st, v, x):
    msg = ''
    try:
        d = st.mem[v[0].r.id].data; msg = d.split(b'\0')[0].decode()
    except Exception: pass
    X.oblige(st, False, ['C14'], 'assertion ' + msg)
    raise PathEnd()
def m_term(X, st, v, x):
    X.oblige(st, False, ['C14'], 'std::terminate'); raise PathEnd()
def m_throw(t):
    def f(X, st, v, x): return [(st, ('throw', t))]
    return f
def noop(X, st, v, x): return ret(st)
def m_catch(X, st, v, x): return ret(st, NULL)

# ---- std::string: data pointer at 0, size at 8
def s_get(X, st, p):
    d = X.load(st, ir_.PTR, p); n = X.load(st, ir_.I[64], P(p.r, tadd(p.o, 8)))
    return d, n
def s_put(X, st, p, data, n):
    X.inb(st, p, 32, 'string object')
    C = dict(st.mem[p.r.id]); o = p.o
    for q in list(C):
        if o <= q < o + 32: del C[q]
    C[o] = (8, data); C[o+8] = (8, n if not z3.is_expr(n) else SI(n, 64, 0, MAXOBJ)); st.mem[p.r.id] = C
def s_new(X, st, n, mk):
    """fresh string data of n characters and a terminator; mk(content) gives the contents"""
    r = X.region(st, 'str', 'bytes', tadd(n, 1))
    C = mk(st.mem[r.id])
    st.mem[r.id] = Store(C, n, 0)
    return P(r, 0)
def s_ctor(X, st, v, x):
    s_put(X, st, v[0], s_new(X, st, 0, lambda c: c), 0); return ret(st)
def s_ctor_n(X, st, v, x):
    p, src, n = v[0], v[1], st.uns(v[2])
    if src.r is None:
        # a null pointer is only allowed with n == 0
        c = eq(n, 0)
        u, th = may_throw(X, st, 'logic_error')
        X.oblige(st, c, ['C04', 'C14'], 'string from null pointer')
        s_put(X, st, p, s_new(X, st, 0, lambda c: c), 0)
        return ret(st)
    out = []
    u, th = may_throw(X, st, 'bad_alloc'); out.append(th)
    X.inb(st, P(src.r, X.off(st, src.o)), n, 'string construction')
    C = X.content(st, src.r); o = X.off(st, src.o)
    s_put(X, st, p, s_new(X, st, n, lambda c: Copy(c, 0, n, C, o)), n)
    out.append((st, ('ret', None)))
    return out
def s_ctor_z(X, st, v, x):
    n = m_strlen(X, st, [v[1]], None)[0][1][1]
    return s_ctor_n(X, st, [v[0], v[1], n], x)
def s_move(X, st, v, x):
    d, n = s_get(X, st, v[1]); s_put(X, st, v[0], d, n)
    s_put(X, st, v[1], s_new(X, st, 0, lambda c: c), 0)
    return ret(st)
def s_resize(X, st, v, x):
    p, n = v[0], st.uns(v[1]); c = v[2] if len(v) > 2 else 0
    d, n0 = s_get(X, st, p); n0 = st.uns(n0)
    u, th = may_throw(X, st, 'bad_alloc')
    st.fact(bz(le(n, MAXOBJ)))
    C0 = X.content(st, d.r)
    data = s_new(X, st, n, lambda base: Copy(Fill(base, 0, n, st.b8(c)), 0, tmin(n0, n), C0, X.off(st, d.o)))
    st.dead.add(d.r.id)
    s_put(X, st, p, data, n)
    out = [th]
    if X.feasible(st): out.append((st, ('ret', None)))
    return out
def s_reserve(X, st, v, x):
    p, n = v[0], st.uns(v[1]); d, n0 = s_get(X, st, p)
    u, th = may_throw(X, st, 'bad_alloc')
    return [th, (st, ('ret', None))]
def s_index(X, st, v, x):
    d, n = s_get(X, st, v[0]); i = st.uns(v[1])
    X.oblige(st, bz(le(i, st.uns(n))), ['C14'], 'string index within size')
    return ret(st, P(d.r, tadd(X.off(st, d.o), i)))
def s_data(X, st, v, x): return ret(st, s_get(X, st, v[0])[0])
def s_size(X, st, v, x): return ret(st, s_get(X, st, v[0])[1])
def s_endp(X, st, v, x):
    d, n = s_get(X, st, v[0]); return ret(st, P(d.r, tadd(d.o, st.uns(n))))
def s_empty(X, st, v, x):
    n = st.uns(s_get(X, st, v[0])[1]); return ret(st, X.frombool(eq(n, 0)))

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
AL = 'std::allocator<char> const&'
EXACT = {
    'boost::system::error_code::error_code()': ec_default,
    'boost::system::error_code::operator bool() const': ec_bool,
    'boost::system::error_code::failed() const': ec_bool,
    'boost::system::error_code::clear()': ec_clear,
    'boost::system::error_code::value() const': ec_value,
    'boost::system::operator==(boost::system::error_code const&, boost::system::error_code const&)': ec_eq(False),
    'boost::system::operator!=(boost::system::error_code const&, boost::system::error_code const&)': ec_eq(True),
    'boost::urls::make_error_code(boost::urls::error)': ec_from,
    'memcmp': m_memcmp, 'strlen': m_strlen, 'memchr': m_memchr,
    'memcpy': m_memcpy(False), 'memmove': m_memcpy(True), 'memset': m_memset,
    '__assert_fail': m_assert,
    '__clang_call_terminate': m_term, 'std::terminate()': m_term, 'abort': m_term,
    'operator new(unsigned long)': m_new,
    'operator delete(void*)': m_delete, 'operator delete(void*, unsigned long)': m_delete,
    '__cxa_begin_catch': m_catch, '__cxa_end_catch': noop,
    'std::__throw_bad_alloc()': m_throw('bad_alloc'), 'std::__throw_bad_array_new_length()': m_throw('bad_alloc'),
    'std::__throw_length_error(char const*)': m_throw('length_error'),
    'std::__throw_logic_error(char const*)': m_throw('logic_error'),
    'std::__throw_out_of_range_fmt(char const*, ...)': m_throw('out_of_range'),
    STR + 'basic_string()': s_ctor,
    STR + 'basic_string(%s)' % AL: s_ctor,
    STR + 'basic_string(char const*, %s)' % AL: s_ctor_z,
    STR + 'basic_string(char const*, unsigned long, %s)' % AL: s_ctor_n,
    STR + 'basic_string(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >&&)': s_move,
    STR + 'resize(unsigned long)': s_resize, STR + 'resize(unsigned long, char)': s_resize,
    STR + 'reserve(unsigned long)': s_reserve,
    STR + 'operator[](unsigned long)': s_index, STR + 'operator[](unsigned long) const': s_index,
    STR + 'data()': s_data, STR + 'data() const': s_data, STR + 'c_str() const': s_data,
    STR + 'begin()': s_data, STR + 'end()': s_endp,
    STR + 'size() const': s_size, STR + 'length() const': s_size, STR + 'empty() const': s_empty,
    STR + '~basic_string()': noop,
    STR + '_Alloc_hider::~_Alloc_hider()': noop,
}
_c = {}
def find(dem, name):
    r = _c.get(dem, 0)
    if r == 0: r = _c[dem] = find_(dem, name)
    return r
def find_(dem, name):
    r = EXACT.get(dem)
    if r: return r
    if dem.startswith('llvm.memcpy'): return m_memcpy(False)
    if dem.startswith('llvm.memmove'): return m_memcpy(True)
    if dem.startswith('llvm.memset'): return m_memset
    if dem.startswith('llvm.') and ('lifetime' in dem or 'dbg' in dem or 'assume' in dem): return noop
    if dem.startswith('boost::system::error_code::error_code<boost::urls::error>('): return ec_from
    if 'boost::system::error_code::operator=<boost::urls::error>(' in dem: return ec_assign
    m = re.match(r'(?:void )?boost::throw_exception<(?:std::|boost::urls::)?(\w+)>\(', dem)
    if m: return m_throw(m.group(1))
    if re.match(r'(std::|boost::urls::)(bad_alloc|invalid_argument|length_error|out_of_range|invalid_part|parse_error|too_large|logic_error|exception)::~?\2\(', dem): return noop
    m = re.match(r'boost::system::system_error|std::out_of_range', dem)
    return None

# ---- the storage interface, as url_base sees it (alloc_storage is checked against it)
def slots(m):
    """slot number -> method of the storage vtable"""
    if hasattr(m, '_slots'): return m._slots
    out = {0: 'capacity', 1: 'reserve', 2: 'size', 3: 'resize'}
    for n, (ty, init, c) in m.globals.items():
        if n.startswith('@_ZTV') and 'alloc_storage' in n and init and init[0] == 'agg':
            arr = init[1][0][1]
            if arr[0] == 'agg':
                fs = [e[1] for e in arr[1]]
                k = -2; o2 = {}
                for e in fs:
                    if k >= 0 and e[0] == 'glob':
                        d = m.dem.get(e[1], e[1])
                        q = re.search(r'::(\w+)\([^()]*\)(?: const)?$', d)
                        if q: o2[k] = q.group(1)
                    k += 1
                if set(o2.values()) >= {'capacity', 'reserve', 'size', 'resize'}: out = o2
    m._slots = out
    return out
def vcall(X, st, f, vals):
    meth = slots(X.m).get(f.k)
    r = f.r; S = st.mem[r.id]
    if meth in ('size', 'capacity'): return ret(st, SI(tz(S['size' if meth == 'size' else 'cap']), 64, 0, MAXOBJ))
    if meth not in ('reserve', 'resize'): raise Unsupported('storage slot %s' % f.k)
    n = st.uns(vals[1]); outs = []
    for t, fits in X.branch(st, le(n, S['cap'])):
        if fits:
            S = dict(t.mem[r.id]); b = S['buf']
            if meth == 'resize' and b.r is not None:
                S['size'] = n; t.mem[r.id] = S
                t.mark(t.mem[b.r.id], n)
                t.mem[b.r.id] = Store(t.mem[b.r.id], n, 0)
            outs.append((t, ('ret', b)))
        else:
            u, th = may_throw(X, t, 'bad_alloc'); outs.append(th)
            S = dict(t.mem[r.id]); b = S['buf']
            cap = X.fresh('cap'); t.fact(z3.And(cap >= tz(n), cap < MAXOBJ))
            nr = X.region(t, 'buf', 'bytes', tadd(cap, 1))
            if b.r is not None:
                t.mem[nr.id] = Copy(t.mem[nr.id], 0, tadd(S['size'], 1), t.mem[b.r.id], 0)
                t.dead.add(b.r.id)
            S['cap'] = cap; S['buf'] = P(nr, 0)
            if meth == 'resize':
                S['size'] = n; t.mem[nr.id] = Store(t.mem[nr.id], n, 0)
            t.mem[r.id] = S
            if X.feasible(t): outs.append((t, ('ret', S['buf'])))
    return outs
