"""P20: silhouettes."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for every labelled dataset (reals for double) on the real code: cluster sizes, cohesion, separation (smallest mean distance to another cluster, attained), silhouette by its definition, range [-1, 1], average. The distance is an abstract function of two rows (P01); floating-point rounding, integer label types other than size_t and unused labels only by the bounded stand-in."
TU = ('p20.cpp', ('ffcl',))
A, AR = AI(Int_), AI(Real_); _0 = IntVal(0)
SZN = named_array('SIL_IND', [A, Int_], Int_, lambda x, q, p: If(x[p] == q, 1, 0))
def dd(s, m, i, o): return DIST(ROW(s, MULI(i, m), m), ROW(s, MULI(o, m), m))
OWN = named_array('SIL_OWN', [AR, Int_, A, Int_], Real_, lambda s, m, x, i, o: If(And(x[o] == x[i], o != i), dd(s, m, i, o), 0))
OTH = named_array('SIL_OTH', [AR, Int_, A, Int_, Int_], Real_, lambda s, m, x, i, q, o: If(x[o] == q, dd(s, m, i, o), 0)); DEPS['SIL_OWN'] = DEPS['SIL_OTH'] = ['DIST', 'MULI']
def size(x, q, n): return SUMI(SZN(x, q), _0, n)
_x, _s, _i, _q, _n, _m = z3.Const('px!', A), z3.Const('ps!', AR), *z3.Ints('pi! pq! pn! pm!')
def l_member(x, i, q, n): return And(size(x, q, n) >= 0, Implies(And(0 <= i, i < n, x[i] == q), size(x, q, n) >= 1))
def l_finite(s, m, x, i, q, n): S, c = SUM(OTH(s, m, x, i, q), _0, n), size(x, q, n); return And(c >= 0, S >= 0, Implies(c == 0, S == 0), Implies(c > 0, S < INF * z3.ToReal(c)))
def l_mean(s, m, x, i, q, n): return Implies(And(n >= 0, size(x, q, n) > 0), And(0 <= mean(s, m, x, i, q, n), mean(s, m, x, i, q, n) < INF))
MEANF = z3.Function('SIL_MEAN', AR, Int_, A, Int_, Int_, Int_, Real_); DEFM = z3.Function('SIL_DEFM', Int_, z3.BoolSort())      # DEFM(q) asks for the definition of the means over cluster q
def mean_def(s, m, x, i, q, n): return SUM(OTH(s, m, x, i, q), _0, n) / z3.ToReal(size(x, q, n))
def mean(s, m, x, i, q, n): return MEANF(s, m, x, i, q, n)
_ma = (_s, _m, _x, _i, _q, _n)
AXIOMS['SIL_MEAN'] = [FA(list(_ma), MEANF(*_ma) == mean_def(*_ma), z3.MultiPattern(MEANF(*_ma), DEFM(_q))), FA([_q], DEFM(_q), DEFM(_q))]; DEPS['SIL_MEAN'] = ['SIL_OTH', 'SIL_IND', 'SUM', 'SUMI']
EXTRA_AXIOMS = [FA([_x, _i, _q, _n], Implies(_n >= 0, l_member(_x, _i, _q, _n)), z3.MultiPattern(size(_x, _q, _n), _x[_i])), FA([_s, _m, _x, _i, _q, _n], l_mean(_s, _m, _x, _i, _q, _n), MEANF(*_ma))]
def LEMMAS():
    a, b = (_x, _i, _q), (_s, _m, _x, _i, _q)
    return [('a cluster with a member is not empty: base', [], l_member(*a, _0)), ('a cluster with a member is not empty: step', [_n >= 0, l_member(*a, _n)], l_member(*a, _n + 1)),
        ('mean distances are finite: base', [], l_finite(*b, _0)), ('mean distances are finite: step', [_n >= 0, l_finite(*b, _n), dd(_s, _m, _i, _n) >= 0, dd(_s, _m, _i, _n) < INF, INF > 0], l_finite(*b, _n + 1)),
        ('mean distances are finite', [_n >= 0, l_finite(*b, _n), DEFM(_q)], l_mean(*b, _n))]
LB = [Itp('x', 0), Itp('x', 'x1')]; S3 = [Itp('s', 0), Itp('s', 's1'), Sc('nf')]; OS = dict(s=VecOf(RE), x=VecOf(SZ)); G = dict(c=Int_, mem=A)
n = lambda e: e.x1
whole = ('one label per row', lambda e: And(e.nf >= 1, e.s1 <= e.s.len, mod(e.s1, e.nf) == 0, div(e.s1, e.nf) == e.x1, mul(e.x1, e.nf) == e.s1))
labels = ('labels 0 to c-1, every label used', lambda e: And(e.c >= 1, e.x1 >= 1, e.x1 <= e.x.len, forall(0, e.x1, lambda i: And(0 <= e.x.el[i], e.x.el[i] < e.c), pat=lambda i: e.x.el[i]), forall(0, e.c, lambda q: And(0 <= e.mem[q], e.mem[q] < e.x1, e.x.el[e.mem[q]] == q), pat=lambda q: e.mem[q]), 0 <= e.mem[e.c - 1], e.mem[e.c - 1] < e.x1, e.x.el[e.mem[e.c - 1]] == e.c - 1))
two = ('at least two clusters', lambda e: e.c >= 2)
def upto(v, f, m): return forall(0, m, f, pat=lambda i: v.el[i])
def sized(e, v, m): return upto(v, lambda q: v.el[q] == size(e.x.el, q, m), e.c)
H = lambda e: e.locv('labels_histogram')
sizes = Contract('get_cluster_sizes', LB, [labels], [('one size per label', lambda e: e.result.len == e.c), ('number of samples with the label', lambda e: sized(e, e.result, n(e)))], objs=dict(x=VecOf(SZ)), ghosts=G, result=VecOf(SZ),
    loops={0: Loop(('cursor', lambda e: And(0 <= e.loc('cluster_labels_range_it'), e.loc('cluster_labels_range_it') <= n(e), H(e).len == e.c)), ('samples so far', lambda e: sized(e, H(e), e.loc('cluster_labels_range_it'))), decreases=lambda e: n(e) - e.loc('cluster_labels_range_it'))})
def coh(e, i): c = size(e.x.el, e.x.el[i], n(e)); S = SUM(OWN(e.s.el, e.nf, e.x.el, i), _0, n(e)); return If(c > 1, S / z3.ToReal(c - 1), S)
V = lambda nm: lambda e: e.locv(nm)
CO, SE, ME, SI = V('samples_cohesion_scores'), V('samples_separation_scores'), V('sample_to_other_cluster_samples_distance_mean'), V('samples_silhouette_scores')
later = lambda v, e, m: forall(m, n(e), lambda i: v.el[i] == 0, pat=lambda i: v.el[i])
cohesion = Contract('cohesion', S3 + LB, [whole, labels], [('one value per sample', lambda e: e.result.len == n(e)), ('mean distance to the other members', lambda e: upto(e.result, lambda i: And(e.result.el[i] == coh(e, i), e.result.el[i] >= 0), n(e)))], objs=OS, ghosts=G, result=VecOf(RE),
    loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(e), CO(e).len == n(e))), ('samples so far', lambda e: upto(CO(e), lambda i: And(CO(e).el[i] == coh(e, i), CO(e).el[i] >= 0), e.i)), ('others still 0', lambda e: later(CO(e), e, e.i)), decreases=lambda e: n(e) - e.i),
        1: Loop(('sample', lambda e: And(0 <= e.j, e.j < n(e), 0 <= e.i, e.i <= n(e), CO(e).len == n(e))), ('samples so far', lambda e: upto(CO(e), lambda i: And(CO(e).el[i] == coh(e, i), CO(e).el[i] >= 0), e.j)), ('others still 0', lambda e: later(CO(e), e, e.j + 1)), ('sum so far', lambda e: And(CO(e).el[e.j] == SUM(OWN(e.s.el, e.nf, e.x.el, e.j), _0, e.i), CO(e).el[e.j] >= 0)), decreases=lambda e: n(e) - e.i)})
def MEAN(e, i, q): return mean(e.s.el, e.nf, e.x.el, i, q, n(e))
def sep3(e, v, i): P = lambda q: [e.mem[q], MEAN(e, i, q)]; return [forall(0, e.c, lambda q: Implies(q != e.x.el[i], v <= MEAN(e, i, q)), pat=P), Not(forall(0, e.c, lambda q: Or(q == e.x.el[i], v != MEAN(e, i, q)), pat=P)), And(0 <= v, v < INF)]
HP = lambda e: lambda q: [ME(e).el[q], e.mem[q], MEAN(e, e.i - 1, q)]
other = lambda e: If(e.x.el[e.i - 1] == 0, IntVal(1), IntVal(0))
SLAB = ('no mean distance to another cluster is smaller', 'it is the mean distance to another cluster', 'finite')
def seps(e, v, m): return [upto(v, lambda i: sep3(e, v.el[i], i)[j], m) for j in range(3)]
def spl(v, m): return [(lab, lambda e, j=j: seps(e, v(e), m(e))[j]) for j, lab in enumerate(SLAB)]
separation = Contract('separation', S3 + LB, [whole, labels, two], [('one value per sample', lambda e: e.result.len == n(e)), *spl(lambda e: e.result, n)], objs=OS, ghosts=G, result=VecOf(RE),
    loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(e), SE(e).len == n(e))), *spl(SE, lambda e: e.i), decreases=lambda e: n(e) - e.i, end_hints=[lambda e: forall(0, e.c, lambda q: And(e.x.el[e.mem[q]] == q, size(e.x.el, q, n(e)) >= 1), pat=HP(e)), lambda e: tuple(forall(0, e.c, lambda q: And(d(q), ME(e).el[q] == If(q == e.x.el[e.i - 1], INF, MEAN(e, e.i - 1, q))), pat=HP(e)) for d in (DEFM, lambda q: z3.BoolVal(True))), lambda e: forall(0, e.c, lambda q: SE(e).el[e.i - 1] <= ME(e).el[q], pat=HP(e)), *[h for k in (0, 1) for h in (lambda e, k=k: And(e.x.el[e.mem[k]] == k, size(e.x.el, k, n(e)) >= 1), lambda e, k=k: And(MEAN(e, e.i - 1, k) < INF, Or(k == e.x.el[e.i - 1], ME(e).el[k] < INF), SE(e).el[e.i - 1] <= ME(e).el[k]))]]),
        1: Loop(('sample', lambda e: And(0 <= e.j, e.j < n(e), 0 <= e.i, e.i <= n(e), ME(e).len == e.c)), ('sums so far', lambda e: upto(ME(e), lambda q: Implies(q != e.x.el[e.j], ME(e).el[q] == SUM(OTH(e.s.el, e.nf, e.x.el, e.j, q), _0, e.i)), e.c)), decreases=lambda e: n(e) - e.i)})
def score(e, i, v):
    a = coh(e, i); c = size(e.x.el, e.x.el[i], n(e))
    def b(bv): return If(c == 1, v == 0, v * If(a < bv, bv, a) == bv - a)
    return b
silh = Contract('silhouette', S3 + LB, [whole, labels, two], [('one value per sample', lambda e: e.result.len == n(e)), ('in [-1, 1]', lambda e: upto(e.result, lambda i: And(-1 <= e.result.el[i], e.result.el[i] <= 1), n(e))),
    *[('b: ' + lab, lambda e, j=j: forall(0, n(e), lambda i: sep3(e, e.b[i], i)[j], pat=lambda i: e.b[i])) for j, lab in enumerate(SLAB)], ('(b - a) / max(a, b), or 0 for the only member of a cluster', lambda e: upto(e.result, lambda i: score(e, i, e.result.el[i])(e.b[i]), n(e))), ('0 where a and b are equal', lambda e: upto(e.result, lambda i: Implies(coh(e, i) == e.b[i], e.result.el[i] == 0), n(e)))],
    objs=OS, ghosts=G, result=VecOf(RE), gres=dict(b=(AR, lambda e: e.locv('separation_values').el)),
    loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(e), SI(e).len == n(e))), ('range', lambda e: upto(SI(e), lambda i: And(-1 <= SI(e).el[i], SI(e).el[i] <= 1), e.i)), ('scores so far', lambda e: upto(SI(e), lambda i: score(e, i, SI(e).el[i])(e.locv('separation_values').el[i]), e.i)), ('ties', lambda e: upto(SI(e), lambda i: Implies(coh(e, i) == e.locv('separation_values').el[i], SI(e).el[i] == 0), e.i)), decreases=lambda e: n(e) - e.i)})
avg = Contract('get_average_silhouette', [Itp('v', 0), Itp('v', 'v1')], [('not empty', lambda e: And(e.v1 >= 1, e.v1 <= e.v.len))], [('average', lambda e: e.result == SUM(e.v.el, _0, e.v1) / z3.ToReal(e.v1))], objs=dict(v=VecOf(RE)), result=RE)
CONTRACTS = [sizes, cohesion, separation, silh, avg, shared.auto_distance, shared.get_n_samples]
shared.get_n_samples.trusted = 'proved in P21'
