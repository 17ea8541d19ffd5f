"""Parser for the subset of textual LLVM IR that clang -O0 emits."""
import re, subprocess

class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name')
    def __init__(s, k, w=0, el=None, n=0, name=None):
        s.k, s.w, s.el, s.n, s.name = k, w, el, n, name
    def __repr__(s):
        return {'i': 'i%d' % s.w, 'p': 'ptr', 'v': 'void', 's': s.name or '{%s}' % s.el,
                'a': '[%d x %s]' % (s.n, s.el), 'x': '?'}[s.k]
I = {w: Ty('i', w) for w in (1, 8, 16, 32, 64, 128)}
PTR = Ty('p'); VOID = Ty('v'); OTHER = Ty('x')

class Instr:
    __slots__ = ('op', 'res', 'a', 'text')
    def __init__(s, op, res, a, text):
        s.op, s.res, s.a, s.text = op, res, a, text

class Func:
    def __init__(s, name):
        s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = VOID; s.sret = None
        s.noexcept = False; s.loops = None

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*") |
   (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) |
   (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) |
   (?P<num>-?\d+) |
   (?P<id>[A-Za-z_][\w.]*) |
   (?P<meta>![\w.]*(?:\([^)]*\))?) |
   (?P<attr>\#\d+|\$[-\w.$]+) |
   (?P<ell>\.\.\.) |
   (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokens(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].strip().startswith(';'): break
            raise SyntaxError('token at %r' % s[i:i+40])
        k = m.lastgroup; t = m.group(k)
        out.append((k, t)); i = m.end()
    return out

ATTRS = set('''noundef nonnull signext zeroext noalias nocapture writeonly readonly readnone returned inreg
 immarg dso_local linkonce_odr internal private external weak_odr weak unnamed_addr local_unnamed_addr
 hidden constant global comdat tail musttail notail fastcc ccc inbounds nsw nuw exact volatile dead_on_unwind
 writable available_externally appending nneg disjoint'''.split())

class Parser:
    def __init__(s, mod, toks):
        s.m = mod; s.t = toks; s.i = 0
    def peek(s, k=0):
        return s.t[s.i+k] if s.i+k < len(s.t) else (None, None)
    def next(s):
        t = s.t[s.i]; s.i += 1; return t
    def acc(s, v):
        if s.peek()[1] == v and s.peek()[0] != 'str':
            s.i += 1; return True
        return False
    def exp(s, v):
        t = s.next()
        if t[1] != v: raise SyntaxError('expected %s got %s' % (v, t))
    def ty(s):
        k, t = s.next()
        if k == 'id':
            if t == 'ptr': r = PTR
            elif t == 'void': r = VOID
            elif t[0] == 'i' and t[1:].isdigit(): r = I.setdefault(int(t[1:]), Ty('i', int(t[1:])))
            elif t in ('float', 'double', 'x86_fp80', 'metadata', 'label', 'opaque'): r = Ty('x', name=t)
            else: raise SyntaxError('type ' + t)
        elif t == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.ty(); s.exp(']'); r = Ty('a', el=el, n=n)
        elif t == '{':
            el = []
            if not s.acc('}'):
                while True:
                    el.append(s.ty())
                    if s.acc('}'): break
                    s.exp(',')
            r = Ty('s', el=el)
        elif t == '<':
            if s.peek()[1] == '{':
                r = s.ty(); s.exp('>'); r = Ty('s', el=r.el, n=1)
            else:
                n = int(s.next()[1]); s.exp('x'); s.ty(); s.exp('>'); r = OTHER
        elif k == 'loc':
            r = s.m.struct(t)
        else: raise SyntaxError('type %s' % t)
        while s.peek()[1] == '(' and s.fnty_ahead():
            d = 0
            while True:
                t = s.next()[1]
                if t == '(': d += 1
                if t == ')':
                    d -= 1
                    if d == 0: break
            r = Ty('x', name='fn')
        return r
    def fnty_ahead(s):
        # function type "void (ptr, ...)" in a call
        return s.peek(1)[1] in (')', '...') or (s.peek(1)[0] == 'id' and s.peek(1)[1] in ('ptr', 'i32', 'i64', 'i8', 'i1', 'void'))and s.peek(2)[1] in (',', ')')
    def attrs(s):
        while True:
            k, t = s.peek()
            if k == 'id' and t in ATTRS: s.i += 1
            elif k == 'id' and t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                s.i += 1
                if s.acc('('):
                    s.next(); s.exp(')')
                else: s.next()
            elif k == 'id' and t in ('sret', 'byval', 'byref', 'elementtype', 'range', 'captures'):
                s.i += 1; s.exp('('); s.ty(); s.exp(')')
            elif k == 'attr' or k == 'meta': s.i += 1
            else: return
    def const(s, ty):
        """operand of the given type -> ('reg',n) ('int',v) ('null',) ('glob',n) ('undef',) ('cgep',...) ..."""
        k, t = s.next()
        if k == 'loc': return ('reg', t)
        if k == 'glob': return ('glob', t)
        if k == 'num': return ('int', int(t))
        if k == 'str' and t[0] == 'c':
            return ('bytes', unesc(t[2:-1]))
        if k == 'id':
            if t == 'null': return ('null',)
            if t == 'true': return ('int', 1)
            if t == 'false': return ('int', 0)
            if t in ('undef', 'poison'): return ('undef',)
            if t == 'zeroinitializer': return ('zero',)
            if t == 'getelementptr':
                s.attrs()
                while s.peek()[1] == 'inrange': s.next(); s.skip_paren()
                s.exp('('); bt = s.ty(); s.exp(',')
                pt = s.ty(); base = s.const(pt); idx = []
                while s.acc(','):
                    while s.acc('inrange'): pass
                    it = s.ty(); idx.append((it, s.const(it)))
                s.exp(')')
                return ('cgep', bt, base, idx)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add'):
                s.skip_paren(); return ('undef',)
            if t in ('dso_local_equivalent', 'no_cfi'):
                return s.const(ty)
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.peek()[1] == '{':
                r = s.const(ty); s.exp('>'); return r
            el = []
            if not s.acc(close):
                while True:
                    et = s.ty(); el.append((et, s.const(et)))
                    if s.acc(close): break
                    s.exp(',')
            return ('agg', el)
        raise SyntaxError('operand %s %s' % (k, t))
    def skip_paren(s):
        while s.peek()[1] != '(': s.next()
        d = 0
        while True:
            t = s.next()[1]
            if t == '(': d += 1
            if t == ')':
                d -= 1
                if d == 0: return
    def typed(s):
        t = s.ty(); s.attrs(); return (t, s.const(t))

def unesc(t):
    out = bytearray(); i = 0
    while i < len(t):
        if t[i] == '\\':
            out.append(int(t[i+1:i+3], 16)); i += 3
        else:
            out += t[i].encode('latin1'); i += 1
    return bytes(out)

class Module:
    def __init__(s, text):
        s.structs = {}; s.globals = {}; s.funcs = {}; s.lines = {}
        s.decls = set(); s.sizes = {}; s.alias = {}
        lines = text.split('\n'); i = 0
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, b = l.split(' = type ', 1); s.struct(n.strip()).name = n.strip(); s.lines[n.strip()] = b
        for n, b in s.lines.items():
            t = s.structs[n]
            if b.strip() == 'opaque': t.el = []; continue
            u = Parser(s, tokens(b)).ty(); t.el = u.el; t.n = u.n
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                s.glob(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l); s.decls.add('@' + m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                s.func(l, lines[i+1:j]); i = j
            i += 1
        for a, f in s.alias.items():
            if f in s.funcs: s.funcs[a] = s.funcs[f]
        s.dem = demangle([f for f in s.funcs] + list(s.decls))
    def struct(s, n):
        if n not in s.structs: s.structs[n] = Ty('s', el=None, name=n)
        return s.structs[n]
    def glob(s, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l)
        n, r = m.group(1), m.group(2)
        const = bool(re.search(r'\bconstant\b', r.split('"')[0].split('{')[0].split('[')[0])) or ' constant ' in r
        if re.search(r'\balias\b', r):
            q = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', r)
            if q: s.alias[n] = q[-1]
            return
        p = Parser(s, tokens(r))
        ext = False
        while True:
            k, t = p.peek()
            if k == 'id' and t in ('constant', 'global'):
                p.next(); break
            if t == 'external': ext = True
            if t is None: return
            p.next()
        try:
            ty = p.ty(); init = None if ext else p.const(ty)
        except SyntaxError:
            return
        s.globals[n] = (ty, init, const)
    def func(s, head, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', head)
        f = Func(m.group(1))
        # parameters
        t = tokens(head[m.end()-1:])
        p = Parser(s, t); p.exp('(')
        while not p.acc(')'):
            if p.peek()[0] == 'ell': p.next(); f.vararg = True; continue
            ty = p.ty(); sret = False
            while p.peek()[0] == 'id' and p.peek()[1] not in (',', ')'):
                if p.peek()[1] == 'sret':
                    sret = True
                p.attrs()
            name = p.next()[1]
            if sret: f.sret = name
            f.params.append((ty, name)); p.acc(',')
        rt = head[6:m.start()]
        tt = [x for x in tokens(rt)]
        q = Parser(s, tt); q.attrs(); f.ret = q.ty()
        cur = None; k = 0
        while k < len(body):
            l = body[k]; k += 1
            if not l.strip(): continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if mm:
                cur = '%' + mm.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = '%entry0'; f.blocks[cur] = []; f.order.append(cur)
            st = l.strip()
            # multi-line: switch, invoke, landingpad
            if re.match(r'(%\S+ = )?invoke ', st) or st.startswith('switch'):
                while True:
                    if st.startswith('switch'):
                        if st.rstrip().endswith(']') : break
                    elif ' unwind label ' in st: break
                    st += ' ' + body[k].strip(); k += 1
            elif re.match(r'%\S+ = landingpad ', st):
                while k < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[k]):
                    st += ' ' + body[k].strip(); k += 1
            f.blocks[cur].append(s.lazy(st))
        f.entry = f.order[0]
        s.funcs[f.name] = f
    def lazy(s, st):
        return st
    def block(s, f, b):
        L = f.blocks[b]
        if L and isinstance(L[0], str):
            L = [s.instr(x) for x in L]; f.blocks[b] = L
        return L
    def instr(s, st):
        st = re.sub(r', !(llvm\.loop|srcloc|noundef|nosanitize|range|heapallocsite) !\d+', '', st)
        st = re.sub(r', !(noundef|nonnull|align) ![{}\d]+', '', st)
        t = tokens(st); p = Parser(s, t); res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        flags = set()
        while p.peek()[1] in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()[1]
        while p.peek()[1] in ('nsw', 'nuw', 'inbounds', 'exact', 'volatile', 'atomic', 'nneg', 'disjoint'):
            flags.add(p.next()[1])
        if op == 'alloca':
            ty = p.ty(); a = (ty,)
        elif op == 'load':
            ty = p.ty(); p.exp(','); a = (ty, p.typed()[1])
        elif op == 'store':
            v = p.typed(); p.exp(','); a = (v, p.typed()[1])
        elif op == 'getelementptr':
            bt = p.ty(); p.exp(','); base = p.typed()[1]; idx = []
            while p.acc(','):
                idx.append(p.typed())
            a = (bt, base, idx, flags)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            ty = p.ty(); x = p.const(ty); p.exp(','); y = p.const(ty); a = (ty, x, y, flags)
        elif op == 'icmp':
            pred = p.next()[1]; ty = p.ty(); x = p.const(ty); p.exp(','); y = p.const(ty); a = (pred, ty, x, y)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            x = p.typed(); p.exp('to'); a = (x[0], x[1], p.ty())
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next(); a = (p.next()[1],)
            else:
                c = p.typed()[1]; p.exp(','); p.exp('label'); x = p.next()[1]; p.exp(','); p.exp('label'); a = (c, x, p.next()[1])
        elif op == 'switch':
            v = p.typed(); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('['); cs = []
            while not p.acc(']'):
                ct = p.typed(); p.exp(','); p.exp('label'); cs.append((ct[1][1], p.next()[1]))
            a = (v, d, cs)
        elif op == 'ret':
            if p.peek()[1] == 'void': a = (None,)
            else: a = (p.typed(),)
        elif op == 'phi':
            ty = p.ty(); inc = []
            while True:
                p.exp('['); v = p.const(ty); p.exp(','); b = p.next()[1]; p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            a = (ty, inc)
        elif op == 'select':
            c = p.typed()[1]; p.exp(','); x = p.typed(); p.exp(','); y = p.typed(); a = (c, x, y)
        elif op in ('call', 'invoke'):
            p.attrs(); rt = p.ty(); p.attrs()
            if rt.k == 'x' and rt.name == 'fn': rt = VOID
            k, f = p.next(); args = []
            if k == 'id': raise SyntaxError('call target ' + f)
            callee = ('reg', f) if k == 'loc' else ('glob', f)
            p.exp('(')
            while not p.acc(')'):
                at = p.ty()
                if at.k == 'x' and at.name == 'metadata':
                    p.next(); args.append((at, ('undef',)))
                else:
                    p.attrs(); args.append((at, p.const(at)))
                p.acc(',')
            nd = None
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.exp('to'); p.exp('label'); n = p.next()[1]; p.exp('unwind'); p.exp('label'); nd = (n, p.next()[1])
            a = (rt, callee, args, nd)
        elif op == 'extractvalue':
            x = p.typed(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            a = (x[1], idx)
        elif op == 'insertvalue':
            x = p.typed(); p.exp(','); y = p.typed(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            a = (x, y, idx)
        elif op == 'landingpad':
            a = ([x[1] for x in t],)
        elif op == 'resume':
            a = (p.typed()[1],)
        elif op == 'unreachable': a = ()
        else:
            a = ('unsupported',); op = 'unsupported:' + op
        return Instr(op, res, a, st)
    # layout
    def align(s, t):
        if t.k == 'i': return max(1, (t.w + 7)//8)
        if t.k == 'p': return 8
        if t.k == 'a': return s.align(t.el)
        if t.k == 's': return 1 if t.n == 1 else max([1] + [s.align(e) for e in t.el])
        raise SyntaxError('align')
    def size(s, t):
        if t.k == 'i': return max(1, (t.w + 7)//8)
        if t.k == 'p': return 8
        if t.k == 'a': return t.n * s.size(t.el)
        if t.k == 's':
            o = 0
            for e in t.el:
                a = 1 if t.n == 1 else s.align(e); o = -(-o//a)*a + s.size(e)
            a = s.align(t); return -(-o//a)*a
        raise SyntaxError('size')
    def field(s, t, i):
        o = 0
        for j, e in enumerate(t.el):
            a = 1 if t.n == 1 else s.align(e); o = -(-o//a)*a
            if j == i: return o
            o += s.size(e)
        raise SyntaxError('field')
    # control flow
    def succs(s, f, b):
        x = s.block(f, b)[-1]
        if x.op == 'br': return [l for l in x.a if isinstance(l, str)] if len(x.a) == 1 else [x.a[1], x.a[2]]
        if x.op == 'switch': return [x.a[1]] + [l for _, l in x.a[2]]
        if x.op == 'invoke': return list(x.a[3])
        return []
    def loops(s, f):
        """header -> set of blocks (natural loops)"""
        if f.loops is not None: return f.loops
        succ = {}; w = [f.entry]
        while w:
            b = w.pop()
            if b in succ: continue
            succ[b] = s.succs(f, b); w.extend(succ[b])
        order = [b for b in f.order if b in succ]
        pred = {b: [] for b in order}
        for b in succ:
            for c in succ[b]: pred[c].append(b)
        allb = set(order); dom = {b: set(allb) for b in order}; dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == f.entry or not pred[b]: continue
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        L = {}
        for b in order:
            for h in succ[b]:
                if h in dom[b]:
                    body = {h, b}; w = [b]
                    while w:
                        x = w.pop()
                        if x == h: continue
                        for q in pred[x]:
                            if q not in body: body.add(q); w.append(q)
                    L[h] = L.get(h, set()) | body
        f.loops = L
        return L

def demangle(names):
    raw = [n[1:].strip('"') for n in names]
    out = subprocess.run(['c++filt'], input='\n'.join(raw), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))
