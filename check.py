#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Decides one property of /repo's current working tree.
  1. proof     : contracts (contracts/<p>.py) are attached to the functions clang sees in /repo right now, verification
                 conditions are generated from their syntax trees (vc/) and discharged by z3 / cvc5.
  2. stand-in  : harness/<p>.cpp is compiled against /repo and run on generated inputs (bounded; never counted as proof).  It is
                 also the replay engine: when an obligation fails, it searches the real code for a failing input.
Exit 0: nothing broken was found.  Exit 1: a VIOLATION line was printed.
"""
import argparse, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
NPROC = min(8, os.cpu_count() or 1)

class Harness:
    def __init__(self, prop, tmp):
        self.prop, self.p, self.tmp = prop, prop.lower(), tmp
        self.ok = None
        self.fail = None
        self.cases = self.evals = 0
        self.distinct = set()
        self.samples = []
        self.log = ''
    def build(self):
        r = subprocess.run(['bash', os.path.join(HERE, 'harness/build.sh'), self.p, self.tmp], capture_output=True, text=True, env=dict(os.environ, REPO=REPO))
        self.ok = r.returncode == 0
        self.log = (r.stdout + r.stderr)[-3000:]
        return self.ok
    def shard(self, seed, cases, wall):
        d = os.path.join(self.tmp, f'd{seed}')
        try:
            r = subprocess.run([os.path.join(self.tmp, self.p), '--seed', str(seed), '--cases', str(cases), '--wall', str(wall), '--distinct-out', d],
                               capture_output=True, text=True, errors='replace', timeout=wall * 4 + 120)
            return seed, r.returncode, r.stdout, r.stderr[-2000:], d
        except subprocess.TimeoutExpired as e:
            return seed, 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), '', d
    def run(self, base_seed, cases, wall, shards=NPROC):
        """returns the first failure (dict) or None"""
        if not self.ok: return None
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda i: self.shard(base_seed * 100 + i, cases, wall), range(shards)))
        for seed, rc, out, err, d in res:
            m = re.search(r'^OK cases=(\d+) evaluations=(\d+) distinct_nontrivial=(\d+)', out, re.M)
            if rc == 0 and m:
                self.cases += int(m[1]); self.evals += int(m[2])
                if os.path.exists(d):
                    b = open(d, 'rb').read(); self.distinct.update(struct.unpack(f'<{len(b)//8}Q', b)); os.unlink(d)
                self.samples += [l[7:] for l in out.splitlines() if l.startswith('SAMPLE ')][:2]
            elif rc == 'timeout':
                self.log += f'shard seed={seed} did not finish in time (machine overloaded?); its cases are not counted\n'
            elif self.fail is None:
                m = re.search(r'^FAIL case=(-?\d+)', out, re.M)
                case = m[1] if m else '?'
                self.fail = dict(seed=seed, case=case, output=out[-6000:], stderr=err)
        return self.fail

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(); prop = a.prop.upper(); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='ffclv-')
    try:
        return decide(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def vc_run(prop, tier, tmp):
    """run the prover in the tooling venv; a crash of the machinery is 'undecided', never an alarm"""
    if not os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py')): return None
    out = os.path.join(tmp, 'vc.json')
    try:
        r = subprocess.run(['python3-vt', os.path.join(HERE, 'vc', 'run.py'), prop, '--tier', tier, '--out', out, '--tmp', tmp],
                           capture_output=True, text=True, timeout=420 if tier == 'quick' else 3000, env=dict(os.environ, REPO=REPO))
    except subprocess.TimeoutExpired:
        return dict(error='proof run timed out', functions=[])
    try: return json.load(open(out))
    except Exception: return dict(error='proof run crashed: ' + (r.stdout + r.stderr)[-3000:], functions=[])

def decide(prop, tier, seed, tmp, t0):
    h = Harness(prop, tmp)
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(h.build); fv = ex.submit(vc_run, prop, tier, tmp)
        fb.result(); vc = fv.result()
    wall = 12 if tier == 'quick' else 180
    h.run(seed, 10**9 if tier == 'thorough' else 20000, wall)
    functions = (vc or {}).get('functions', [])
    failed = [o for f in functions for o in f['obligations'] if o['status'] == 'failed']
    if failed and not h.fail and h.ok:  # replay search on the real code
        h.run(seed + 7919, 10**9, 60 if tier == 'quick' else 240)
    rc, lines = 0, []
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    if h.fail:
        f = h.fail
        path = os.path.join(rdir, f'{prop}-input.txt')
        with open(path, 'w') as o:
            o.write(f'property {prop}\nreplay: bash harness/build.sh {h.p} /tmp && /tmp/{h.p} --seed {f["seed"]} --cases {int(f["case"])+1 if f["case"].isdigit() else 1} --only {f["case"]}\n\n{f["output"]}\n{f["stderr"]}\n')
            for x in failed: o.write(f'\nfailed obligation: {x["name"]} ({x.get("loc","")})\n  {x.get("text","")}\n  {x.get("reason","")}\n{x.get("model","")}\n')
        first = next((l for l in f['output'].splitlines() if l.startswith('FAIL')), 'crash')
        print(first[:400])
        for x in failed: print(f'failed obligation: {x["name"]} {x.get("loc","")}')
        lines.append(f'VIOLATION property={prop} replay={path}'); rc = 1
    elif failed:
        path = os.path.join(rdir, f'{prop}-obligations.txt')
        with open(path, 'w') as o:
            o.write(f'property {prop}: obligations that the prover no longer discharges; no failing input was found in {h.cases} cases on the real code\n')
            for x in failed: o.write(f'\nfailed obligation: {x["name"]} ({x.get("loc","")})\n  {x.get("text","")}\n  verdict: {x.get("reason","")}\n{x.get("model","")}\n')
        for x in failed[:8]: print(f'failed obligation: {x["name"]} {x.get("loc","")}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found'); rc = 1
    write_evidence(prop, tier, seed, vc, h, t0, rc)
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        if l.startswith('known: property=' + prop + ' '): print('KNOWN-FINDING: ' + l[7:].strip())
    if not h.ok: print(f'note: the stand-in harness of {prop} does not compile against this tree; only the proofs were checked')
    obl = [o for f in functions for o in f['obligations']]
    print(f'{prop} {tier}: {sum(o["status"]=="proved" for o in obl)}/{len(obl)} obligations discharged over {len(functions)} functions under contract; '
          f'stand-in: {h.cases} cases, {h.evals} checks; {time.time()-t0:.1f}s')
    und = [f for f in functions if f['status'] == 'undecided']
    for f in und: print(f'undecided (bounded stand-in only): {f["name"]}: {f["reason"][:200]}')
    if vc and vc.get('error'): print('note: ' + vc['error'][:500])
    for l in lines: print(l)
    return rc

def write_evidence(prop, tier, seed, vc, h, t0, rc):
    m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in m['checks'] if c['property'] == prop), 'exploration')
    functions = (vc or {}).get('functions', [])
    obl = [o for f in functions for o in f['obligations']]
    cov = dict(evaluations=h.evals, distinct_nontrivial=len(h.distinct),
               rule='stand-in (bounded): inputs generated by harness/%s.cpp from the seed (small sizes, adversarial ties, duplicates, extreme shapes); evaluations = expectations checked on the real code; a case is non-trivial when its input admits a wrong answer (more than one element / sample), distinct by hash of its input' % h.p,
               samples=h.samples[:6], standin_cases=h.cases, standin_compiled=bool(h.ok))
    if vc is not None:
        cov.update(obligations=len(obl), discharged=sum(o['status'] == 'proved' for o in obl),
            checker_cmd=f'python3-vt vc/run.py {prop} (verification conditions from the clang AST of /repo, discharged by z3-new 5.3 / z3 4.8 / cvc5 1.1)',
            trusted_base=vc.get('trusted', []),
            functions_under_contract=[dict(name=f['name'], where=f.get('where', ''), status=f['status'], obligations=len(f['obligations']),
                 discharged=sum(o['status'] == 'proved' for o in f['obligations']), reason=f.get('reason', ''), solver_s=round(sum(o.get('time', 0) for o in f['obligations']), 2)) for f in functions],
            back_ends=vc.get('backends', {}), solver_s=vc.get('solver_s', 0), vacuity=vc.get('vacuity', {}), lemmas=vc.get('lemmas', []), proof_error=vc.get('error', ''))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(vc or {}).get('assumptions', []) + ['everything outside functions_under_contract with status proved is only covered by the bounded stand-in'],
              wall_s=round(time.time() - t0, 2), violations=rc)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__': sys.exit(main())
