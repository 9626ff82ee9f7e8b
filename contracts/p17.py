"""P17: descriptive statistics."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for all ranges, index subsets, feature masks and values (reals for double) on the real code: extremum and second-largest look-ups, means, variances, axis of largest variance (whole range, subset, subset and mask), normalisations, elementwise minimum, single-sequence variance by its closed form. find_nth_smallest_index_and_element (needs a theory of std::sort) and integer element types only by the bounded stand-in; the closed form equals the mean-based definition in exact arithmetic."
TU = ('p17.cpp', ('ffcl',))
IT2 = [Itp('s', 'a'), Itp('s', 'b')]; OS = dict(s=VecOf(RE)); OI = dict(s=VecOf(RE), idx=VecOf(SZ))
N = lambda e: e.b - e.a
rng = ('a range', lambda e: e.a <= e.b); ne = ('not empty', lambda e: e.a < e.b)
def fa(e, f, pat=None): return forall(e.a, e.b, f, pat=pat or (lambda k: e.s.el[k]))
def least(e, i): return And(0 <= i, i < N(e), fa(e, lambda k: e.s.el[e.a + i] <= e.s.el[k]))
def most(e, i): return And(0 <= i, i < N(e), fa(e, lambda k: e.s.el[k] <= e.s.el[e.a + i]))
def first(e, i): return fa(e, lambda k: Implies(k < e.a + i, e.s.el[k] != e.s.el[e.a + i]))
out = [Contract('argmin', IT2, [ne], [('position of the smallest element', lambda e: least(e, e.result))], objs=OS, result=SZ), Contract('argmax', IT2, [ne], [('position of the largest element', lambda e: most(e, e.result))], objs=OS, result=SZ)]
PR = Tup(SZ, RE); ri = lambda e: e.result.f['0']; rv = lambda e: e.result.f['1']; holds = ('the position holds the value', lambda e: And(0 <= ri(e), ri(e) < N(e), rv(e) == e.s.el[e.a + ri(e)]))
out += [Contract('get_min_index_value_pair', IT2, [ne], [holds, ('smallest element', lambda e: least(e, ri(e)))], objs=OS, result=PR), Contract('get_max_index_value_pair', IT2, [ne], [holds, ('largest element', lambda e: most(e, ri(e)))], objs=OS, result=PR),
    Contract('get_second_max_index_value_pair', IT2, [ne], [holds, ('second largest element', lambda e: Implies(N(e) >= 2, exists(e.a, e.b, lambda m: And(m != e.a + ri(e), fa(e, lambda k: And(e.s.el[k] <= e.s.el[m], Implies(k != m, e.s.el[k] <= rv(e)))))))), ('the only element', lambda e: Implies(N(e) == 1, ri(e) == 0))], objs=OS, result=PR)]
# columns: COL(s, nf, k)[p] is feature k of row p, COLX that of the p-th row of an index range
COL = named_array('COL', [AI(Real_), Int_, Int_], Real_, lambda s, m, k, p: s[MULI(p, m) + k])
COLX = named_array('COLX', [AI(Real_), AI(Int_), Int_, Int_, Int_], Real_, lambda s, x, lo, m, k, p: s[MULI(x[lo + p], m) + k])
SQM = named_array('SQM', [AI(Real_), Real_], Real_, lambda c, m, p: (c[p] - m) * (c[p] - m))
def col(e, kind, k): return COL(e.s.el, e.nf, k) if kind == 'all' else COLX(e.s.el, e.idx.el, e.lo, e.nf, k if kind == 'idx' else e.mask.el[k])
def cnt(e, kind): return div(e.s1, e.nf) if kind == 'all' else e.hi - e.lo
def sm(e, kind, k, n): return SUM(col(e, kind, k), IntVal(0), n)
def real(n): return z3.ToReal(n)
def mean(e, kind, k): return sm(e, kind, k, cnt(e, kind)) / real(cnt(e, kind))
def sq(e, kind, k, n, mu=None): return SUM(SQM(col(e, kind, k), mean(e, kind, k) if mu is None else mu), IntVal(0), n)
def nk(e, kind): return e.mask.len if kind == 'mask' else e.nf
KIND = {'all': ('all', [Itp('s', 0), Itp('s', 's1'), Sc('nf')]), 'idx': ('subset', [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf')]), 'mask': ('subset and mask', [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Ob('mask', VecOf(SZ))])}
def req(kind):
    r = [('features', lambda e: e.nf >= 1)]
    if kind == 'all': return r + [('whole rows', lambda e: And(e.s1 > 0, mod(e.s1, e.nf) == 0, mul(div(e.s1, e.nf), e.nf) == e.s1, e.s1 <= e.s.len, div(e.s1, e.nf) >= 1))]
    r += [('not empty', lambda e: e.lo < e.hi), ('indices of rows', lambda e: forall(e.lo, e.hi, lambda p: And(e.idx.el[p] >= 0, MULI(e.idx.el[p], e.nf) >= 0, mul(e.idx.el[p], e.nf) + e.nf <= e.s.len), pat=lambda p: e.idx.el[p]))]
    if kind == 'mask': r += [('mask of features', lambda e: forall(0, e.mask.len, lambda j: And(0 <= e.mask.el[j], e.mask.el[j] < e.nf), pat=lambda j: e.mask.el[j]))]
    return r
SQA = named_array('SQA', [AI(Real_), Int_], Real_, lambda s, a, p: s[a + p] * s[a + p])
M = lambda e, nm: e.locv(nm)
def means(kind):
    lab, args = KIND[kind]; v = lambda e: M(e, 'mean_per_feature')
    def part(e, n, k0, k1): return forall(k0, k1, lambda k: v(e).el[k] == sm(e, kind, k, n), pat=lambda k: v(e).el[k])
    if kind == 'all':
        loops = {0: Loop(('row', lambda e: And(e.i == mul(e.iter(0), e.nf), e.iter(0) <= cnt(e, kind), v(e).len == e.nf)), ('sums so far', lambda e: part(e, e.iter(0), 0, e.nf)), decreases=lambda e: cnt(e, kind) - e.iter(0))}
    else:
        loops = {0: Loop(('sample', lambda e: And(e.lo <= e.i, e.i <= e.hi, v(e).len == nk(e, kind))), ('sums so far', lambda e: part(e, e.i - e.lo, 0, nk(e, kind))), decreases=lambda e: e.hi - e.i),
            1: Loop(('feature', lambda e: And(0 <= e.i, e.i <= nk(e, kind), e.lo <= e.j, e.j < e.hi, v(e).len == nk(e, kind))), ('sums of the first features', lambda e: part(e, e.j - e.lo + 1, 0, e.i)), ('sums of the others', lambda e: part(e, e.j - e.lo, e.i, nk(e, kind))), decreases=lambda e: nk(e, kind) - e.i)}
    return Contract('compute_mean_per_feature', args, req(kind), [('one mean per feature', lambda e: e.result.len == nk(e, kind)), ('mean of the feature', lambda e: forall(0, nk(e, kind), lambda k: e.result.el[k] == mean(e, kind, k), pat=lambda k: e.result.el[k]))],
        objs=OS if kind == 'all' else OI, result=VecOf(RE), name=f'compute_mean_per_feature ({lab})', loops=loops)
def vloops(kind):
    v = lambda e: M(e, 'variance_per_feature')
    def part(e, n, k0, k1): return forall(k0, k1, lambda k: v(e).el[k] == sq(e, kind, k, n), pat=lambda k: [v(e).el[k], e.mask.el[k] if kind == 'mask' else col(e, kind, k)])
    loops = {0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= cnt(e, kind), v(e).len == nk(e, kind))), ('squares so far', lambda e: part(e, e.i, 0, nk(e, kind))), decreases=lambda e: cnt(e, kind) - e.i)}
    if kind == 'mask': loops[1] = Loop(('feature', lambda e: And(0 <= e.i, e.i <= nk(e, kind), 0 <= e.j, e.j < cnt(e, kind), v(e).len == nk(e, kind))), ('squares of the first features', lambda e: part(e, e.j + 1, 0, e.i)), ('squares of the others', lambda e: part(e, e.j, e.i, nk(e, kind))), decreases=lambda e: nk(e, kind) - e.i)
    return loops
def variances(kind):
    lab, args = KIND[kind]
    return Contract('compute_variance_per_feature', args, req(kind) + [('two samples', lambda e: cnt(e, kind) >= 2)], [('one variance per feature', lambda e: e.result.len == nk(e, kind)), ('variance of the feature', lambda e: forall(0, nk(e, kind), lambda k: e.result.el[k] == sq(e, kind, k, cnt(e, kind)) / real(cnt(e, kind) - 1), pat=lambda k: e.result.el[k]))],
        objs=OS if kind == 'all' else OI, result=VecOf(RE), name=f'compute_variance_per_feature ({lab})', loops=vloops(kind))
def argmaxes(kind):
    lab, args = KIND[kind]
    def ens(e):
        n = cnt(e, kind)
        if kind == 'mask': return exists(0, e.mask.len, lambda j: And(e.result == e.mask.el[j], forall(0, e.mask.len, lambda k: sq(e, kind, k, n) <= sq(e, kind, j, n), pat=lambda k: e.mask.el[k])))
        return And(0 <= e.result, e.result < e.nf, forall(0, e.nf, lambda k: sq(e, kind, k, n) <= sq(e, kind, e.result, n), pat=lambda k: col(e, kind, k)))
    return Contract('argmax_variance_per_feature', args, req(kind) + ([('features asked for', lambda e: e.mask.len >= 1)] if kind == 'mask' else []), [('no feature asked for varies more', ens)], objs=OS if kind == 'all' else OI, result=SZ, name=f'argmax_variance_per_feature ({lab})', loops=vloops(kind))
out += [f(k) for f in (means, variances, argmaxes) for k in KIND]
VR = ('one value per element', lambda e: e.result.len == N(e))
def vals(lab, f): return (lab, lambda e: forall(0, N(e), lambda k: e.result.el[k] == f(e, k), pat=lambda k: e.result.el[k]))
def mm(e, f): return exists(e.a, e.b, lambda i: exists(e.a, e.b, lambda j: And(fa(e, lambda k: And(e.s.el[i] <= e.s.el[k], e.s.el[k] <= e.s.el[j])), f(e.s.el[i], e.s.el[j]))))
out += [Contract('normalize_min_max', IT2, [ne], [VR, ('equal weights when all elements are equal, otherwise 1 for the smallest to 0 for the largest', lambda e: mm(e, lambda lo, hi: forall(0, N(e), lambda k: e.result.el[k] == If(lo == hi, 1 / real(N(e)), 1 - (e.s.el[e.a + k] - lo) / (hi - lo)), pat=lambda k: e.result.el[k])))], objs=OS, result=VecOf(RE)),
    Contract('normalize', IT2, [rng, ('a sum to divide by', lambda e: SUM(e.s.el, e.a, e.b) != 0)], [VR, vals('element over the sum', lambda e, k: e.s.el[e.a + k] / SUM(e.s.el, e.a, e.b))], objs=OS, result=VecOf(RE)),
    Contract('min_container_inplace_left', [Ob('l', VecOf(RE)), Ob('r', VecOf(RE))], [('as many on the right', lambda e: e.r.len >= e.l.len)], [('size kept', lambda e: e.l.len == e.old.l.len), ('smaller of the two', lambda e: forall(0, e.l.len, lambda k: e.l.el[k] == If(e.old.l.el[k] <= e.r.el[k], e.old.l.el[k], e.r.el[k]), pat=lambda k: e.l.el[k]))], modifies=['l']),
    Contract('compute_variance', IT2, [('two elements', lambda e: e.b - e.a >= 2)], [('sum of squares minus the squared sum over n, over n - 1', lambda e: e.result == (SUM(SQA(e.s.el, e.a), IntVal(0), N(e)) - SUM(e.s.el, e.a, e.b) * SUM(e.s.el, e.a, e.b) / real(N(e))) / real(N(e) - 1))], objs=OS, result=RE)]
out.append(shared.get_n_samples); shared.get_n_samples.trusted = 'proved in P21'
CONTRACTS = out
