"""Invariant preservation: the text that an outcome of a modifier's contract
describes is again a URL with the parts, counts and host type it describes.
Together with the modifiers' own contracts and the constructors', the invariant
U.wf therefore holds after every history of calls."""
import z3
from contract import *
import spec as S
import leaf as L
import url as U
import setters, edits
from leaf import at
from pub import PUB, LEMMA
from objs import *
from setters import *

class Pieces(Content):
    """the text described by a layout"""
    def __init__(s, k, ps): Content.__init__(s); s.k, s.ps, s.define = k, ps, False
    def at(s, st, t):
        e = 0
        for x, n, p in reversed(s.ps):
            c = st.simp(band(le(x, t), lt(t, tadd(x, n))))
            if c is False: continue
            e = ite(c, pchar(s.k, st, p, tsub(t, x), c), e)
        return e
    def prop(s, st, t): s.at(st, t)
    def transfer(s, st, kind, args, v):
        """lemma ext: a range inside one copied piece has the value it had where it was copied from"""
        a, b = args
        for x, n, p in s.ps:
            if p[0] not in ('old', 'arg'): continue
            C = s.k.u.C if p[0] == 'old' else s.k.A
            if C is None or not st.X.prove(st, bz(imp(le(a, b), band(le(x, a), le(b, tadd(x, n)))))): continue
            d = tsub(p[1], x); st.fact(z3.Implies(bz(le(a, b)), v == src(C, kind, v, tadd(a, d), tadd(b, d))))
            return not s.define
        return False
def src(C, kind, v, a, b): return z3.Function('%s_%d' % (kind, C.id), z3.IntSort(), z3.IntSort(), v.sort())(tz(a), tz(b))
def same_count(t, k, D, c, x, n, p):
    """lemma count: equal texts have equally many characters c; encoding keeps a character of the set and adds none outside it"""
    d = tsub(S.cnt(t, D, c, tadd(x, n)), S.cnt(t, D, c, x))
    if p[0] in ('old', 'arg'):
        C = k.u.C if p[0] == 'old' else k.A
        if C is not None: t.fact(bz(eq(d, tsub(S.cnt(t, C, c, p[2]), S.cnt(t, C, c, p[1])))))
    elif p[0] == 'enc':
        t.fact(bz(eq(d, tsub(S.cnt(t, k.A, c, p[2]), S.cnt(t, k.A, c, p[1])) if c in p[3] else 0)))
    else:
        for i in range(len(p[1])): t.mark(D, tadd(x, i))
SECT = dict(scheme={'A'}, slashes={'A'}, authority={'A', 'host', 'auth', 'plain'}, path={'A', 'N'}, query={'A', 'N'}, fragment={'A'})
TAGS = dict.fromkeys(('scheme', 'slashes', 'authority', 'path', 'query', 'fragment'), ('C08',))
class Inv(Contract):
    lemma = True; public = True; budget = 300; tags = ('C08',)
    def prove(s, X, st0):
        s.reveal = set(); b = s.b = s.base('', s.name)
        ents = b.entries(X, st0)
        if s.eslices and X.part is not None: ents = ents[X.part::s.eslices]
        for st, v in ents:
            for c, what in b.pre(X, st, v): st.fact(bz(c))
            k = b.k(X, st, v)
            for i, c in enumerate(b.cases(k)):
                if c[1] is None or c[0] is False: continue
                s.reveal = set()
                t = st.copy(); t.fact(bz(c[0])); k.st = t
                if not X.feasible(t): continue
                s.case(X, t, k, i, c[1], c[-1] if isinstance(c[-1], str) else 'accepted'); X.res.paths += 1
                k.st = st
    def case(s, X, t, k, i, new, name):
        old_ = (k.u.C, k.u.o, k.u.ns, k.u.np, k.u.h)
        if isinstance(new, Parsed):
            o = [0] + [X.fresh('p%d' % i) for i in range(1, 8)] + [k.n]; ns, np, h = X.fresh('pn'), X.fresh('pp'), X.fresh('ph')
            old_ = (k.A, o, ns, np, h)
            for nm, c in U.wf(X, t, *old_): t.fact(bz(c))
            new = New([[arg(o[i], o[i+1])] for i in range(8)], ns, np, h)
        o, ps = layout(k, new)
        for nm in SECT:
            s.reveal = set(); q = t.copy(); k.st = q
            if nm == 'authority': 
                q.fact(bz(gt(o[5], o[1])))
                if not X.feasible(q): continue
            for l in k.lem: q.fact(bz(l))
            D = Pieces(k, ps); what = '%s [%s]: invariant: %s' % (s.name, name, nm)
            goals = [c for m, c in U.wf(X, q, D, o, new.ns, new.np, new.h, only=nm)]
            left = [i for i, c in enumerate(goals) if not X.prove(q, bz(c))]
            X.res.n += len(goals) - len(left); X.res.ok += len(goals) - len(left)
            if not left: continue
            n2 = len(left)
            # once more, with the definitions
            s.reveal = SECT[nm]; q = t.copy(); k.st = q; D = Pieces(k, ps); D.define = True
            if nm == 'authority': q.fact(bz(gt(o[5], o[1])))
            for l in k.lem: q.fact(bz(l))
            if old_[0] is not None: U.wf(X, q, *old_, only=nm)
            s.b.cases(k); x = 0
            for i, part in enumerate(new.parts):
                for p in part:
                    n = plen(k, p)
                    if i == 5 and nm == 'path': same_count(q, k, D, 47, x, n, p)
                    if i == 6 and nm == 'query': same_count(q, k, D, 38, x, n, p)
                    x = tadd(x, n)
            goals = [c for m, c in U.wf(X, q, D, o, new.ns, new.np, new.h, only=nm)]
            if nm == 'authority' and len(new.parts[3]) == 1: s.host(X, t, q, k, D, o[3], o[4], new.parts[3][0], what)
            left = [i for i in left if not X.prove(q, bz(goals[i]))]
            X.res.n += n2 - len(left); X.res.ok += n2 - len(left)
            if not left: continue
            # what is known about the sources, seen in the new text
            for x, n, p in ps:
                C = dict(old=k.u.C, arg=k.A).get(p[0])
                if C is not None:
                    for L_ in list(q.leasts.get(C.id, {}).values()): q.mark(D, tadd(tsub(L_.term, p[1]), x))
                q.mark(D, x)
            for i in left: X.oblige(q, goals[i], TAGS[nm], '%s (%d)' % (what, i + 1))
    def host(s, X, t, q, k, D, x, y, p, what):
        """the type of a host that was given in plain form"""
        A = k.A
        if p[0] == 'arg' and A is not None: U.ht(X, q, A, p[1], p[2]); v4chars(q, A, p[1], p[2])
        if p[0] == 'enc':
            a, b, T = p[1:]; n, m = tsub(b, a), tsub(y, x)
            def facts(r):
                j = S.run(r, A, T, a, b); E = lambda t: S.ep(r, A, T, t)
                # lemma plainrun: characters of the set are not encoded; equal sizes mean that nothing is
                r.fact(bz(eq(tsub(E(j), E(a)), tsub(j, a))))
                r.fact(z3.Implies(bz(eq(j, b)), (S.v4end(r, D, x, y, False) == tz(y)) == (S.v4end(r, A, a, b, False) == tz(b))))
                r.mark(D, tadd(x, tsub(E(j), E(a)))); v4chars(r, D, x, y)
            r = t.copy(); k.st = r; sv = s.reveal; s.reveal = {'plain'}; s.b.cases(k); facts(r)
            c1 = bnot(eq(S.v4end(r, D, x, y, False), y)); X.oblige(r, c1, TAGS['authority'], what + ': no IPv4 address')
            r = t.copy(); k.st = r; s.reveal = set(); c2 = eq(S.fb(r, D, S.REGNAME, x, y), y); X.oblige(r, c2, TAGS['authority'], what + ': characters of a name')
            s.reveal = sv; k.st = q; q.fact(bz(c1)); q.fact(bz(c2))
def v4chars(q, C, a, b):
    """lemma v4chars: an IPv4 address consists of digits and dots"""
    q.fact(z3.Implies(z3.And(bz(le(a, b)), S.v4end(q, C, a, b, False) == tz(b)), bz(eq(S.run(q, C, S.cs('0123456789.'), a, b), b))))
for _C in list(PUB):
    if issubclass(_C, Setter): LEMMA.append(type('Inv_' + _C.__name__, (Inv,), dict(base=_C)))
