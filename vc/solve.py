"""Discharges obligations: z3 (API, pattern-based instantiation) -> z3 4.8 -> cvc5, in parallel processes."""
import os, subprocess, tempfile, time, hashlib, multiprocessing as mp
import z3
from core import axioms_for, ASSUMED

def to_smt2(o):
    used_fs = o.hyps + [o.goal] + list(o.extra)
    ax, used = axioms_for(used_fs)
    s = z3.Solver()
    for a in ax: s.add(a)
    for a in o.extra: s.add(a)
    for h in o.hyps: s.add(h)
    s.add(z3.Not(o.goal))
    return s.to_smt2(), used

def _key(f):
    # two quantified formulas that differ only in the names of the bound variables have the same body (z3 shares terms)
    if z3.is_quantifier(f): return (f.is_forall(), f.is_exists(), tuple(f.var_sort(i).get_id() for i in range(f.num_vars())), f.body().get_id())
    return f.get_id()
def _conjuncts(f):
    if z3.is_and(f):
        for c in f.children(): yield from _conjuncts(c)
    else: yield f
def given(o):
    """every conjunct of the goal is itself one of the hypotheses"""
    hs = set()
    for h in o.hyps:
        for c in _conjuncts(h): hs.add(_key(c))
    return all(z3.is_true(c) or _key(c) in hs for c in _conjuncts(o.goal))

RAW = {'smt.solve_eqs': False}
RAW2 = {'smt.solve_eqs': False, 'smt.elim_unconstrained': False, 'smt.propagate_values': False}
def _z3api(txt, ms, mbqi, seed=0, ext=True, drop=False, opts=None):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', ms); s.set('smt.mbqi', mbqi); s.set('smt.random_seed', seed); s.set('auto_config', False)
    if not ext: s.set('smt.array.extensional', False)
    for k, v in (opts or {}).items(): s.set(k, v)
    if drop:   # without the axioms about products (fewer hypotheses: still sound)
        for f in z3.parse_smt2_string(txt, ctx=ctx):
            if not (z3.is_quantifier(f) and f.var_name(0) == 'x!'): s.add(f)
    else: s.from_string(txt)
    r = s.check()
    why = ''
    if r == z3.unknown: why = s.reason_unknown()
    model = ''
    if r == z3.sat or (r == z3.unknown and 'incomplete' in why):
        try: model = str(s.model())[:3000]
        except Exception: pass
    return str(r), why, model
def _bin(cmd, txt, sec):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=sec + 5)
        o = r.stdout.strip().splitlines()
        return o[0] if o else 'unknown'
    except subprocess.TimeoutExpired: return 'timeout'
    finally: os.unlink(p)
def solve_one(job):
    name, txt, budget = job
    if not txt: return dict(status='proved', backend='hypothesis', time=0.0, reason='the goal is a hypothesis', model='', why='')
    t = time.time(); tried = []
    model = ''; why = ''
    verdict = 'timeout'
    def done(st, be): return dict(status=st, backend=be, time=time.time() - t, reason='; '.join(tried), model=model, why=why)
    try:
        # quick attempts: the preprocessing of z3 5.3 can destroy patterns, so with and without it
        for lab, kw, fr in (('raw', dict(opts=RAW), .15), ('', dict(), .15), ('raw2', dict(opts=RAW2), .15), ('seed 1', dict(seed=1), .25), ('no products', dict(drop=True, opts=RAW), .25)):
            r, why, m = _z3api(txt, int(budget * fr * 1000), False, ext=False, **kw)
            tried.append(f'z3-5.3(e-matching, no extensionality {lab}): {r} {why}')
            if r == 'unsat': return done('proved', 'z3-5.3')
        r = _bin(['z3', '-T:%d' % max(1, int(budget / 4)), 'smt.auto_config=false', 'smt.mbqi=false', 'smt.array.extensional=false'], txt, budget); tried.append(f'z3-4.8(e-matching): {r}')
        if r == 'unsat': return done('proved', 'z3-4.8')
        for lab, kw in (('raw', dict(opts=RAW)), ('', dict())):
            r, why, m = _z3api(txt, int(budget * 600), False, **kw)
            tried.append(f'z3-5.3(e-matching {lab}): {r} {why}')
            if r == 'unsat': return done('proved', 'z3-5.3')
            if r == 'sat': model = m; verdict = 'sat'; break
            elif 'incomplete' in why: model = m; verdict = 'saturated'
        if verdict != 'sat':
            r = _bin(['cvc5', '--tlimit=%d' % int(budget * 1000)], txt, budget); tried.append(f'cvc5-1.1: {r}')
            if r == 'unsat': return done('proved', 'cvc5-1.1')
            if r == 'sat': verdict = 'sat'
        if verdict != 'sat':
            r = _bin(['z3', '-T:%d' % max(1, int(budget))], txt, budget); tried.append(f'z3-4.8: {r}')
            if r == 'unsat': return done('proved', 'z3-4.8')
            if r == 'sat': verdict = 'sat'
        if verdict not in ('sat', 'saturated'):
            r, w, m = _z3api(txt, int(budget * 2000), True, 7); tried.append(f'z3-5.3(mbqi): {r} {w}')
            if r == 'unsat': return done('proved', 'z3-5.3')
            if r == 'sat': model = m; verdict = 'sat'
    except Exception as e:
        tried.append('error: ' + str(e)[:200])
    return done({'sat': 'failed', 'saturated': 'failed'}.get(verdict, 'timeout'), '')
def solve_vac(job):
    name, txt, budget = job
    t = time.time()
    r, why, m = _z3api(txt, int(budget * 1000), False)
    return dict(status='proved' if r == 'unsat' else 'open', backend='z3-5.3', time=time.time() - t, reason=r, model='')
def solve_all(jobs, procs=8, one=solve_one):
    if not jobs: return []
    with mp.get_context('fork').Pool(min(procs, len(jobs))) as p: return p.map(one, jobs, chunksize=1)
def digest(txt): return hashlib.sha256(txt.encode()).hexdigest()[:20]
