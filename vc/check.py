#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. clang compiles the library's own sources (plus tu.cpp's wrappers) to LLVM IR.
2. Every function under contract that the property depends on is verified
   against its contract; an internal contract that no longer fits is dropped and
   the function is verified inside its callers instead.
3. All obligations discharged: exit 0.  Otherwise the counterexample search
   (hunt) runs against the real library: a failing input is a VIOLATION; without
   one, a refuted obligation is reported with no-failing-input-found, and an
   obligation the verifier could not decide falls back to the bounded search,
   labelled bounded."""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PROP = None; T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EARLY = 45             # seconds for the search right after the first refuted or undecided obligation
CROSS = 20             # seconds for the cross-check of a complete proof against the reference model
BUDGET = 420 if TIER == 'quick' else 2400         # seconds for the verifier
M = None; CS = {}; JOBS = {}

def callgraph(m):
    names = re.compile(r'@(?:"[^"]+"|[\w.$]+)')
    g = {}
    for n, f in m.funcs.items():
        out = set()
        for L in f.blocks.values():
            for x in L:
                if isinstance(x, str): out.update(names.findall(x))
                else: raise RuntimeError('parsed block')
        g[n] = {m.alias.get(o, o) for o in out if m.alias.get(o, o) in m.funcs}
    return g
def reach(g, roots):
    seen = set(); w = list(roots)
    while w:
        n = w.pop()
        if n in seen: continue
        seen.add(n); w.extend(g.get(n, ()))
    return seen

def work(job):
    """verify one contract (or one slice of it); runs in a forked child"""
    key, part, drop, budget = job
    import contract, leaf, z3
    cs = {fn: c for fn, c in CS.items() if fn not in drop}
    ct = JOBS[key]
    r = contract.verify(M, cs, ct, budget, part)
    return dict(key=key, part=part, n=r.n, ok=r.ok, fail=r.fail, und=r.und, time=r.time, smt=r.smt, paths=r.paths, inv=r.inv,
                called=sorted(r.called), inlined=sorted(r.inlined), notes=r.notes, queries=r.queries)
def run_one(job, q):
    try: q.put(work(job))
    except BaseException as e:
        import traceback
        q.put(dict(key=job[0], part=job[1], n=0, ok=0, fail=[], und=[dict(what='verifier error: %r' % e, tags=['*'], abst=False, kind='error', trace=traceback.format_exc()[-1500:])],
                   time=0, smt=0, paths=0, inv=[], called=[], inlined=[], notes=[], queries=0))
class Runner:
    """runs jobs in child processes, each with a wall-clock limit"""
    def __init__(s, n, end): s.n, s.end = n, end
    def run(s, jobs):
        ctx = mp.get_context('fork'); todo = list(jobs); live = []; out = []
        while todo or live:
            while todo and len(live) < s.n:
                j = todo.pop(0); q = ctx.SimpleQueue()
                p = ctx.Process(target=run_one, args=(j, q)); p.start(); live.append((p, q, j, time.time()))
            time.sleep(0.005)
            for x in list(live):
                p, q, j, t = x
                if not q.empty():
                    out.append(q.get()); p.join(); live.remove(x)
                elif not p.is_alive() or time.time() > t + j[3] + 60 or time.time() > s.end + 45:
                    if p.is_alive(): p.kill()
                    p.join()
                    if not q.empty(): out.append(q.get())
                    else: out.append(dict(key=j[0], part=j[1], n=0, ok=0, fail=[], und=[dict(what='verifier stopped (time or memory)', tags=['*'], abst=False, kind='budget')], time=time.time()-t, smt=0, paths=0, inv=[], called=[], inlined=[], notes=[], queries=0))
                    live.remove(x)
        return out

def build_hunt(tmp):
    import build
    exe = os.path.join(tmp, 'hunt')
    log = open(os.path.join(tmp, 'hunt.log'), 'w')
    return exe, subprocess.Popen(['clang++-18', '-std=c++14', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
        '-I' + build.REPO + '/include', '-o', exe, ROOT + '/hunt/hunt.cpp'], stdout=log, stderr=log)

def touches(rec, prop, ct):
    t = rec['tags']
    if not ct.public and not ct.lemma: return True      # an internal contract the public ones rest on
    if '*' in t or 'unwind' in t: return prop in ct.tags or prop == 'C14' or not ct.public
    return prop in t

def main():
    global M, PROP
    PROP = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % PROP)
    try: rc = decide(tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def decide(tmp):
    global M
    import build
    ll = os.path.join(tmp, 'v.ll')
    exe, hp = build_hunt(tmp)
    rc, err = build.emit(ll)
    ev = dict(property=PROP, tier=TIER, seed=SEED)
    problems = []
    results = []; dropped = {}; functions = {}
    hunts = []; found = []
    def search(secs, recs):
        """the counterexample search against the real library; True when it found a failing input"""
        hp.wait()
        if not os.path.exists(exe): return None
        cases = os.path.join(tmp, 'cases'); seeds(recs, cases)
        r = subprocess.run([exe, PROP, str(secs), str(SEED + len(hunts)), cases], capture_output=True, text=True, errors='replace', cwd=tmp)
        m = re.search(r'^CASES (\d+)', r.stdout, re.M)
        hunts.append((secs, int(m.group(1)) if m else 0))
        if r.returncode == 1 and 'FOUND' in r.stdout: found.append(r.stdout)
        return bool(found)
    if rc == 0:
        try: results, dropped, functions = prove(ll, lambda recs: search(EARLY, recs))
        except Exception as e:
            import traceback
            problems.append('verifier error: ' + traceback.format_exc()[-800:])
    else: problems.append('the verification unit does not compile: ' + err[:800])
    fails, unds = [], []
    nob = nok = 0
    for r in results:
        ct = JOBS[r['key']]
        nob += r['n'] + sum(1 for u in r['und'] if u['kind'] not in ('unknown',)); nok += r['ok']
        if r['key'] in dropped: continue
        for f in r['fail']:
            if touches(f, PROP, ct): fails.append((r, f))
        for f in r['und']:
            if touches(f, PROP, ct): unds.append((r, f))
    used = [r for r in results if r['key'] not in dropped]
    nob = sum(r['n'] for r in used) + sum(1 for r in used for u in r['und'] if u['kind'] != 'unknown'); nok = sum(r['ok'] for r in used)
    import props
    info = props.INFO[PROP]
    if not used: problems.append('no obligations')
    complete = not fails and not unds and not problems
    hunt = None; violation = None
    secs = 0
    if not complete: secs = (60 if fails else 40) if TIER == 'quick' else 600
    else: secs = CROSS if TIER == 'quick' else 300
    if secs and not found:
        if search(secs, fails + unds) is None:
            print('cannot build the library: ' + open(os.path.join(tmp, 'hunt.log')).read()[:2000])
            return 2
    hunt = dict(seconds=sum(h[0] for h in hunts), cases=sum(h[1] for h in hunts)) if hunts else None
    if found: violation = ('input', found[0])
    hard = [(r, f) for r, f in fails if not f['abst']]
    if violation is None and hard: violation = ('obligation', None)
    for r, f in sorted(fails + unds, key=lambda x: x[1]['kind'] != 'sat')[:40]:
        if not complete: print('%s: %s [%s] %s' % (r['key'], f['what'], f['kind'], f.get('where', '')[:160]))
    for p in problems: print(p)
    ids = sorted(functions)
    cov = dict(obligations=nob, discharged=nok,
        checker_cmd='python3-vt vc/check.py %s  (clang 18 -> LLVM IR of /repo -> vc/engine.py verification conditions -> z3 %s)' % (PROP, z3v()),
        trusted_base=info_trusted(),
        functions_under_contract=[dict(function=functions[k], contract=k, obligations=sum(r['n'] for r in used if r['key'] == k), paths=sum(r['paths'] for r in used if r['key'] == k),
            seconds=round(sum(r['time'] for r in used if r['key'] == k), 2), loop_invariants=sum(len(r['inv']) for r in used if r['key'] == k)) for k in ids if k not in dropped],
        functions_verified_inside_callers=sorted(set(x for r in used for x in r['inlined'] if x.startswith('boost::urls'))),
        internal_contracts_dropped=sorted(dropped), smt_queries=sum(r['queries'] for r in used), solver_s=round(sum(r['smt'] for r in used), 2),
        undecided=[dict(contract=r['key'], what=f['what'], kind=f['kind']) for r, f in (unds + fails)][:40],
        bounded=[] if complete else ['obligations not decided by the verifier: bounded search only'])
    if hunt: cov['bounded_search'] = dict(hunt, purpose='cross-check of the specification, not part of the proof' if complete else 'stands in for the obligations not discharged', rule='random and enumerated inputs and call sequences against the reference model in hunt/model.hpp, with address and undefined-behaviour sanitizers; %d s on 8 cores, seed %d' % (hunt['seconds'], SEED))
    lvl = 'proof' if complete else 'other'
    cov['explanation'] = ('All obligations of the contracts listed were generated from the current source and discharged by z3.' if complete else 'Some obligations were not discharged; see undecided and bounded_search.')
    ev.update(level=lvl, coverage=cov, assumptions=props.ASSUME + info.get('assume', []), wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(ROOT + '/evidence/%s.json' % PROP, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.0f s%s' % (PROP, nob, nok, len(ids) - len(dropped), time.time() - T0, ', bounded search of %d cases' % hunt['cases'] if hunt else ''))
    for l in known(PROP): print('KNOWN-FINDING: property=%s %s' % (PROP, l))
    if violation:
        path = ROOT + '/evidence/%s.replay' % PROP
        with open(path, 'w') as f:
            f.write('# property %s\n' % PROP)
            for r, x in (fails + unds)[:10]: f.write('# obligation: %s [%s] at %s\n#   counterexample of the verifier: %s\n' % (x['what'], x['kind'], x.get('where', ''), x.get('model', '')))
            if violation[0] == 'input':
                f.write('# failing input, found by running the library; replay: hunt --replay %s %s\n' % (PROP, path)); f.write(''.join('# ' + l + '\n' if l.startswith(('FOUND', 'CASES')) else l + '\n' for l in violation[1].split('\n')))
        if violation[0] == 'input': print(violation[1][:1500])
        print('VIOLATION property=%s replay=%s%s' % (PROP, path, '' if violation[0] == 'input' else ' no-failing-input-found'))
        return 1
    return 0

def z3v():
    import z3; return z3.get_version_string()
def info_trusted():
    import props; return props.TRUSTED
def known(p):
    out = []
    try:
        for l in open(ROOT + '/known-findings.txt'):
            if l.startswith('known: property=%s ' % p): out.append(l.split(' ', 2)[2].strip())
    except OSError: pass
    return out
def seeds(recs, path):
    """cases for the search made from the verifier's counterexamples"""
    with open(path, 'w') as f:
        for r, x in recs[:40]:
            m = x.get('model') or {}
            try:
                if r['key'].startswith('Storage_re'):
                    c, z, n = int(m.get('cap', 0)), int(m.get('size', 0)), int(m['n'])
                    if max(c, z, n) < 1 << 24:
                        f.write('case storage -\n' + ('op reserve - %d\nop resize - %d\n' % (c, z) if c else '') + 'op %s - %d\nend\n' % (r['key'][8:], n))
            except Exception: pass
            for k, v in (x.get('model') or {}).items():
                if re.fullmatch(r'([0-9a-f]{2})*', v or '') and k.split('_')[0] in ('s', 'text', 'url'):
                    f.write('case parse %s\nend\n' % (v or '-'))
                    # the same bytes as an authority and as an argument
                    if v: f.write('case parse 2f2f%s\nend\n' % v)
                    name = re.match(r'U_(set_\w+)', r['key'])
                    for b in ('-', b'x://u:p@h:80/a/b?k=v#f'.hex(), b'a/b'.hex()) if name else ():
                        f.write('case ops %s\nop %s %s 0\nend\n' % (b, name.group(1), v or '-'))

def prove(ll, early):
    """verify everything PROP depends on; returns results, dropped, functions"""
    global M
    import build, leaf, url, pub, objs, setters, iters, edits, more, inv, lemmas, contract, props
    M = build.load(ll)
    G = callgraph(M)
    for C in leaf.LEAF:
        fn = M.byname.get(C.fnname)
        if fn is None: continue
        CS[fn] = C(fn, C.__name__); CS[fn].public = False
    functions = {}; roots = []
    miss = []
    for C in pub.PUB:
        if PROP != 'C14' and PROP not in C.tags: continue
        ks = pub.wrappers(M, C.wrap)
        if len(ks) != 1: miss.append(C.__name__); continue
        c = C(M.byname[ks[0]], C.__name__); JOBS[c.name] = c; functions[c.name] = ks[0]; roots.append(c.fn)
    for C in pub.LEMMA:
        if PROP not in C.tags: continue
        c = C('', C.__name__); JOBS[c.name] = c; functions[c.name] = 'lemma: ' + ' '.join((C.__doc__ or 'the new text of the modifier satisfies the invariant the contracts assume').split())
    R = reach(G, roots)
    internal = []
    for fn, c in CS.items():
        if fn in R:
            JOBS[c.name] = c; functions[c.name] = M.dem.get(fn, fn); internal.append(c.name)
    end = T0 + BUDGET; run = Runner(8, end); drop = set(); dropped = {}
    res = {}
    def jobs(names):
        out = []
        for n in names:
            c = JOBS[n]
            for p in c.parts(): out.append((n, p, frozenset(drop), min(c.budget if TIER == 'quick' else 4*c.budget, max(20, end - time.time()))))
        return sorted(out, key=lambda j: -JOBS[j[0]].weight)
    pend = list(internal) + [n for n in JOBS if n not in internal]
    # everything at once; what used a dropped contract is repeated without it
    while pend:
        got = run.run(jobs(pend))
        for n in pend: res[n] = []
        for r in got: res[r['key']].append(r)
        if early:
            recs = [(r, f) for r in got for f in r['fail'] + r['und'] if touches(f, PROP, JOBS[r['key']])]
            if recs and early(recs): break
            if recs: early = None
        bad = [n for n in internal if n not in dropped and any(x['fail'] or x['und'] for x in res[n])]
        if not bad: break
        for n in bad: dropped[n] = True; drop.add(JOBS[n].fn)
        names = {JOBS[n].fn: n for n in bad}
        bd = {M.dem.get(JOBS[n].fn, JOBS[n].fn) for n in bad}
        pend = [n for n in JOBS if n not in dropped and any(bd & set(x['called']) for x in res[n])]
        if time.time() > end:
            for n in pend: res[n] = [dict(key=n, part=None, n=0, ok=0, fail=[], und=[dict(what='not verified again without ' + ', '.join(bad), tags=['*'], abst=False, kind='budget')], time=0, smt=0, paths=0, inv=[], called=[], inlined=[], notes=[], queries=0)]
            break
    out = [r for n in JOBS for r in res.get(n, [])]
    # a callee's contract may be used in place of its body because no function calls itself
    for n in JOBS:
        if not JOBS[n].fn: continue
        rec = JOBS[n].fn in reach(G, G.get(JOBS[n].fn, ()))
        out.append(dict(key=n, part='recursion', n=1, ok=0 if rec else 1, fail=[], und=[dict(what='no recursion', tags=['*'], abst=False, kind='recursive')] if rec else [], time=0, smt=0, paths=0, inv=[], called=[], inlined=[], notes=[], queries=0))
    for n in miss: out.append(dict(key=n, part=None, n=0, ok=0, fail=[], und=[dict(what='wrapper missing', tags=['*'], abst=False, kind='missing')], time=0, smt=0, paths=0, inv=[], called=[], inlined=[], notes=[], queries=0)); JOBS[n] = pub.PUB[0]('', n)
    return out, dropped, functions

if __name__ == '__main__': sys.exit(main())
