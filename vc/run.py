"""vc/run.py <PROP> --tier T --out FILE: proves the contracts of one property against /repo's current tree."""
import sys, os, json, time, argparse, importlib.util, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'contracts'))
sys.setrecursionlimit(20000)
import z3
from core import *
import clangast, engine, solve
from engine import Executor, Detached
from stdmodel import Builtins
GENERAL = ['machine integers are mathematical except that unsigned subtraction, decrement and signed-to-unsigned conversion are checked not to wrap (or modelled exactly where a contract says so); additions and products do not overflow',
           'float and double arithmetic is treated as real arithmetic (no rounding, no NaN)',
           'std:: algorithms and containers behave as modelled in vc/stdmodel.py; allocation succeeds',
           'templates are checked for the instantiation in tu/ (double samples, size_t indices)',
           'the C++ front end is clang 18, the verification condition generator vc/engine.py is trusted']
def load(prop):
    p = os.path.join(ROOT, 'contracts', prop.lower() + '.py')
    sp = importlib.util.spec_from_file_location(prop.lower(), p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m
def loops_rewritten(new, was):
    """other loops, or a loop that carries a variable it did not carry before (no invariant mentions it)"""
    return [h for h, _ in new] != [h for h, _ in was] or any(set(v) - set(w) for (_, v), (_, w) in zip(new, was))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--tmp'); ap.add_argument('--fn'); ap.add_argument('-v', action='store_true'); ap.add_argument('--dump'); ap.add_argument('--baseline', action='store_true'); ap.add_argument('--sigs', action='store_true'); ap.add_argument('--slow', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    m = load(a.prop)
    res = dict(functions=[], trusted=[], assumptions=list(GENERAL), backends={}, solver_s=0, vacuity={}, lemmas=[])
    units = {}
    basef = os.path.join(ROOT, 'contracts', 'baseline', a.prop.lower() + '.json')
    try: baseline = set(json.load(open(basef)))
    except Exception: baseline = set()
    sigf = basef[:-5] + '.loops.json'; newsigs = {}
    try: sigs = json.load(open(sigf))
    except Exception: sigs = {}
    jobs = []; metas = []; vac = []; used_theories = set(); assumed = set()
    verify = [c for c in m.CONTRACTS if not c.inline and not c.trusted]
    for c in m.CONTRACTS:
        if c.trusted: res['trusted'].append(f'{c.name}: {c.trusted}')
    for c in verify:
        if a.fn and a.fn not in c.name: continue
        tu, flt = getattr(c, 'tu', None) or m.TU
        rec = dict(name=c.name, where='', status='proved', obligations=[], reason='')
        res['functions'].append(rec)
        try:
            if (tu, tuple(flt)) not in units: units[(tu, tuple(flt))] = clangast.Unit(os.path.join(ROOT, 'tu', tu), flt)
            u = units[(tu, tuple(flt))]
            fs = u.functions(c.fn, cls=c.cls, nparams=len(c.params), types=c.types, where=c.where)
            if not fs: raise Detached(f'no function {c.name} with {len(c.params)} parameters')
            fn = fs[0]
            sk = f'{c.name}|{c.types or ""}|{getattr(c, "tu", None) or ""}|{len(c.params)}'; rec['_loops'] = newsigs[sk] = Executor.loop_signature(fn); rec['_was'] = sigs.get(sk)
            rec['where'] = f'{fn["_file"].split("/repo/")[-1]}:{fn["_line"]}'
            ex = Executor(u, [x for x in m.CONTRACTS if getattr(x, 'tu', None) in (None, getattr(c, 'tu', None)) or (getattr(c, 'tu', None) or m.TU) in getattr(x, 'also', ())], Builtins())
            ex.extra_axioms = list(getattr(m, 'EXTRA_AXIOMS', []))
            outs = ex.verify(c, fn)
            assumed |= ex.assumptions
            if not outs and not ex.obls: raise Detached('no path reaches the end')
            rec['inlined'] = sorted(ex.inlined); rec['callee_contracts'] = sorted(ex.used_contracts)
            if not ex.obls: raise Detached('no obligations generated')
            for k, o in enumerate(ex.obls):
                txt, used = ('', set()) if solve.given(o) else solve.to_smt2(o); used_theories |= used
                nm = f'{o.name}#{k}'
                jobs.append((nm, txt, 10 if a.tier == 'quick' else 60)); metas.append((rec, o, nm))
            # vacuity: the precondition is satisfiable / not refutable, and some end of the function is reachable
            o = engine.Obligation(c.name + '/vacuity precondition', '', ex.pre_pc, z3.BoolVal(False), '', ex.extra_axioms)
            vac.append((c.name + ': precondition', solve.to_smt2(o)[0]))
            if outs:
                for s, v in outs[:1] + outs[-1:]:
                    o = engine.Obligation(c.name + '/vacuity exit', '', s.pc, z3.BoolVal(False), '', ex.extra_axioms)
                    vac.append((c.name + ': exit', solve.to_smt2(o)[0]))
        except (Unsupported, Detached, clangast.AstError) as e:
            rec['status'] = 'undecided'; rec['reason'] = type(e).__name__ + ': ' + str(e)[:600]
            if a.v: traceback.print_exc()
        except Exception as e:
            rec['status'] = 'undecided'; rec['reason'] = 'internal: ' + repr(e)[:400]
            if a.v: traceback.print_exc()
    if a.sigs: json.dump(newsigs, open(sigf, 'w'), indent=0, sort_keys=True); return
    for name, hyps, goal in getattr(m, 'LEMMAS', lambda: [])():
        if a.fn and a.fn not in 'lemma ' + name: continue
        rec = next((f for f in res['functions'] if f['name'] == 'lemmas'), None)
        if rec is None: rec = dict(name='lemmas', where='contracts/', status='proved', obligations=[], reason=''); res['functions'].append(rec)
        o = engine.Obligation('lemma ' + name, '', hyps, goal, name, list(getattr(m, 'LEMMA_AXIOMS', [])))
        txt, used = solve.to_smt2(o); used_theories |= used
        jobs.append(('lemma ' + name, txt, 10 if a.tier == 'quick' else 60)); metas.append((rec, o, 'lemma ' + name)); res['lemmas'].append(name)
        vac.append(('lemma ' + name + ': precondition', solve.to_smt2(engine.Obligation('', '', hyps, z3.BoolVal(False), '', list(getattr(m, 'LEMMA_AXIOMS', []))))[0]))
    if a.dump:
        os.makedirs(a.dump, exist_ok=True)
        for j, (nm, txt, _) in enumerate(jobs): open(os.path.join(a.dump, f'{j:03d}.smt2'), 'w').write('; ' + nm + '\n' + txt)
    rs = solve.solve_all(jobs)
    good = []
    for (rec, o, nm), (_, txt, _), r in zip(metas, jobs, rs):
        st = r['status']; h = solve.digest(txt)
        if st != 'proved' and h in baseline:
            # the very same formula was discharged when the contract was written: a resource problem, not a verdict
            st = 'timeout'; r['reason'] += ' (identical formula discharged before)'
        ob = dict(name=nm, loc=o.loc, status=st, backend=r['backend'], time=round(r['time'], 3), text=o.text)
        if st != 'proved': ob.update(reason=r['reason'], model=r['model'][:2500], goal=str(o.goal)[:1500])
        else: good.append(h)
        rec['obligations'].append(ob)
        res['backends'][r['backend'] or 'none'] = res['backends'].get(r['backend'] or 'none', 0) + 1; res['solver_s'] += r['time']
        if st == 'failed' and rec['status'] != 'undecided': rec['status'] = 'failed'; rec['reason'] = nm
        elif st == 'timeout' and rec['status'] == 'proved': rec['status'] = 'undecided'; rec['reason'] = 'solver timeout on ' + nm
    vr = solve.solve_all([(n, t, 2) for n, t in vac], one=solve.solve_vac)
    bad = [n for (n, _), r in zip(vac, vr) if r['status'] == 'proved' and 'precondition' in n]
    res['vacuity'] = dict(checked=len(vac), contradictory=bad)
    exits = {}
    for (n, _), r in zip(vac, vr):
        if n.endswith(': exit'): exits.setdefault(n, []).append(r['status'] == 'proved')
    dead = [n for n, v in exits.items() if all(v)]
    for f in res['functions']:
        if f['name'] + ': precondition' in bad or (f['name'] == 'lemmas' and any(n.startswith('lemma ') for n in bad)) or f['name'] + ': exit' in dead: f['status'] = 'undecided'; f['reason'] = 'vacuous: contradictory assumptions'
    for f in res['functions']:
        new, was = f.pop('_loops', None), f.pop('_was', None)
        if f['status'] == 'failed' and was is not None and loops_rewritten(new, was):
            # the loops were rewritten: an invariant written for the old loops that fails says nothing about the new ones
            f['status'] = 'undecided'; f['reason'] = f'the loops were rewritten ({len(was)} -> {len(new)}: {"; ".join(h + " carries " + ",".join(v) for h, v in new if [h, v] not in was)[:160]}) and the invariants written for the old ones do not carry over: {f["reason"]}'
            for o in f['obligations']:
                if o['status'] == 'failed': o['status'] = 'detached'
    res['solver_s'] = round(res['solver_s'], 2)
    res['assumptions'] += [ASSUMED[x] for x in sorted(used_theories) if x in ASSUMED] + sorted(assumed) + getattr(m, 'ASSUMPTIONS', [])
    res['wall'] = time.time() - t0
    if a.baseline:
        os.makedirs(os.path.dirname(basef), exist_ok=True); json.dump(sorted(set(good)), open(basef, 'w'), indent=0); json.dump(newsigs, open(sigf, 'w'), indent=0, sort_keys=True)
    if a.out: json.dump(res, open(a.out, 'w'))
    if a.v or not a.out:
        for f in res['functions']:
            print(f['name'], f['status'], f"{sum(o['status']=='proved' for o in f['obligations'])}/{len(f['obligations'])}", f['where'], f['reason'][:300])
            for o in f['obligations']:
                if o['status'] != 'proved': print('   ', o['status'], o['name'], o['loc'], o['reason'][:160]); print('        ', o.get('goal', '')[:300].replace('\n', ' '))
        if a.slow:
            for ob in sorted((o for f in res['functions'] for o in f['obligations']), key=lambda o: -o['time'])[:12]: print('   slow', ob['time'], ob['backend'], ob['name'], ob['loc'])
        print('vacuity', res['vacuity'], 'backends', res['backends'], 'wall %.1f' % res['wall'])
if __name__ == '__main__': main()
