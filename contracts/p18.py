"""P18: pairwise matrices, transposition, translation."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for all shapes: both transpositions, the translation, the triangular index of the stored matrix (construction and look-up, both orders, diagonal) and the on-demand matrix. The distance is an abstract function of two rows (P01); omp pragmas are not modelled (the loop bodies write disjoint cells)."
TU = ('p18.cpp', ('ffcl',))
OB = dict(s=VecOf(RE))
RG = [Itp('s', 'lo'), Itp('s', 'hi'), Sc('nf')]
def N(e): return div(e.hi - e.lo, e.nf)
REQ = [('whole rows', lambda e: And(e.lo <= e.hi, e.nf > 0, mod(e.hi - e.lo, e.nf) == 0))]
get_n = shared.get_n_samples
def tr(e, t, a, b): return t[mul(b, N(e)) + a] == e.s[e.lo + (mul(a, e.nf) + b)]
def block(e, t, a0, a1, b0, b1): return forall2(a0, a1, b0, b1, lambda a, b: tr(e, t, a, b), pat=lambda a, b: z3.MultiPattern(MULI(a, e.nf), MULI(b, N(e))))
TENS = [('dimensions', lambda e: And(e.result.f['1'] == e.nf, e.result.f['2'] == N(e), e.result.f['0'].len == mul(N(e), e.nf))),
        ('element (j, i) of the result is element (i, j) of the input', lambda e: block(e, e.result.f['0'], 0, N(e), 0, e.nf))]
def T(e): return e.locv('transposed')
def tlen(e): return And(T(e).len == mul(N(e), e.nf))
TR = Tup(VecOf(RE), SZ, SZ)
seq = Contract('transpose_sequential', RG, REQ, TENS, objs=OB, result=TR, loops={
    0: Loop(('size', tlen), ('rows so far', lambda e: And(e.i >= 0, e.i <= N(e), block(e, T(e), 0, e.i, 0, e.nf))), decreases=lambda e: N(e) - e.i),
    1: Loop(('size', tlen), ('rows so far', lambda e: And(0 <= e.j, e.j < N(e), 0 <= e.i, e.i <= e.nf, block(e, T(e), 0, e.j, 0, e.nf), forall(0, e.i, lambda b: tr(e, T(e), e.j, b), pat=lambda b: MULI(b, N(e))))), decreases=lambda e: e.nf - e.i)})
def BS(e): return 64
def mn(a, b): return If(a < b, a, b)
par = Contract('transpose_parallel_openmp', RG, REQ, TENS, objs=OB, result=TR, loops={
    0: Loop(('size', tlen), ('rows so far', lambda e: And(0 <= e.i, block(e, T(e), 0, mn(e.i, N(e)), 0, e.nf))), decreases=lambda e: N(e) - e.i),
    1: Loop(('size', tlen), ('rows so far', lambda e: And(0 <= e.j, e.j < N(e), block(e, T(e), 0, e.j, 0, e.nf))), ('blocks so far', lambda e: And(0 <= e.i, block(e, T(e), e.j, mn(e.j + 64, N(e)), 0, mn(e.i, e.nf)))), decreases=lambda e: e.nf - e.i),
    2: Loop(('size', tlen), ('cursors', lambda e: And(0 <= e.ctr(2), e.ctr(2) < N(e), 0 <= e.j, e.j < e.nf, e.ctr(2) <= e.i)), ('rows so far', lambda e: block(e, T(e), 0, e.ctr(2), 0, e.nf)), ('blocks so far', lambda e: block(e, T(e), e.ctr(2), mn(e.ctr(2) + 64, N(e)), 0, e.j)),
            ('rows of the block', lambda e: And(e.i <= mn(e.ctr(2) + 64, N(e)), block(e, T(e), e.ctr(2), e.i, 0, mn(e.j + 64, e.nf)))), decreases=lambda e: N(e) - e.i),
    3: Loop(('size', tlen), ('cursors', lambda e: And(0 <= e.ctr(3), e.ctr(3) < N(e), 0 <= e.ctr(2), e.ctr(2) < e.nf, e.ctr(3) <= e.j, e.j < mn(e.ctr(3) + 64, N(e)), e.ctr(2) <= e.i)), ('rows so far', lambda e: block(e, T(e), 0, e.ctr(3), 0, e.nf)), ('blocks so far', lambda e: block(e, T(e), e.ctr(3), mn(e.ctr(3) + 64, N(e)), 0, e.ctr(2))),
            ('rows of the block', lambda e: block(e, T(e), e.ctr(3), e.j, 0, mn(e.ctr(2) + 64, e.nf))), ('columns of the row', lambda e: And(e.i <= mn(e.ctr(2) + 64, e.nf), forall(0, e.i, lambda b: tr(e, T(e), e.j, b), pat=lambda b: MULI(b, N(e))))), decreases=lambda e: e.nf - e.i)})
tra = Contract('transpose', RG, REQ, TENS, objs=OB, result=TR)
translate = Contract('translate_right_range_to_origin', [Itp('l', 'l0'), Itp('l', 'l1'), Itp('r', 'r0'), Itp('r', 'r1')], [('ranges', lambda e: And(e.r0 <= e.r1, e.l1 - e.l0 == e.r1 - e.r0))],
    [('difference per feature', lambda e: And(e.result.len == e.r1 - e.r0, forall(0, e.r1 - e.r0, lambda k: e.result[k] == e.r[e.r0 + k] - e.l[e.l0 + k], pat=lambda k: e.result.el[k])))], objs=dict(l=VecOf(RE), r=VecOf(RE)), result=VecOf(RE))
def tri(r): return div(mul(r, r - 1), 2)
_x, _w = z3.Ints('x! w!')
EXTRA_AXIOMS = [FA([_x], Implies(_x >= 0, And((MULI(_x, _x) - _x) % 2 == 0, MULI(_x, _x) >= _x)), MULI(_x, _x)),
                FA([_x, _w], Implies(And(0 <= _x, _x < _w), MULI(_w, _w) - _w >= MULI(_x, _x) + _x), z3.MultiPattern(MULI(_x, _x), MULI(_w, _w)))]
def LEMMAS():
    k, w = z3.Ints('k w')
    return [('k(k-1) is even (k even)', [k >= 0], (2 * k * (2 * k - 1)) % 2 == 0), ('k(k-1) is even (k odd)', [k >= 0], ((2 * k + 1) * (2 * k)) % 2 == 0),
            ('triangular numbers grow by their index', [0 <= k, k < w, (w + k) * (w - k - 1) == w * w - w - k * k - k, (w + k) * (w - k - 1) >= 0], w * w - w >= k * k + k),
            ('sign of a product', [0 <= k, k < w], (w + k) * (w - k - 1) >= 0)]
def row(e, r): return ROW(e.s.el, e.lo + mul(r, e.nf), e.nf)
def dist(e, r, c): return DIST(row(e, r), row(e, c))
def filled(e, d, n, last=None): return forall2(0, n, 0, n, lambda r, c: Implies(c < r, d[tri(r) + c] == dist(e, r, c)), pat=lambda r, c: z3.MultiPattern(MULI(r, r), MULI(c, e.nf)))
MD = lambda e: e.locv('low_triangle_distance_matrix')
def compute(name): return Contract(name, RG, REQ, [('size', lambda e: e.result.len == tri(N(e))), ('every cell below the diagonal', lambda e: filled(e, e.result, N(e)))], cls='PairwiseDistanceMatrix', objs=OB, result=VecOf(RE), wrap=True, loops={
    0: Loop(('size', lambda e: MD(e).len == tri(N(e))), ('rows so far', lambda e: And(1 <= e.i, filled(e, MD(e), e.i), Or(e.i <= N(e), e.i == 1))), decreases=lambda e: N(e) - e.i),
    1: Loop(('size', lambda e: MD(e).len == tri(N(e))), ('rows so far', lambda e: And(1 <= e.j, e.j < N(e), filled(e, MD(e), e.j))), ('cells of the row', lambda e: And(0 <= e.i, e.i <= e.j, forall(0, e.i, lambda c: MD(e)[tri(e.j) + c] == dist(e, e.j, c), pat=lambda c: MULI(c, e.nf)))), decreases=lambda e: e.j - e.i)})
cseq, cpar = compute('compute_pairwise_distances_sequential'), compute('compute_pairwise_distances_parallel')
cany = Contract('compute_pairwise_distances', RG, REQ, cseq.ensures, cls='PairwiseDistanceMatrix', objs=OB, result=VecOf(RE))
MATRIX = ('the stored cells', lambda e: And(e.this.data_.len == tri(e.this.n_samples_), filled(e, e.this.data_, e.this.n_samples_)))
ctor = Contract('PairwiseDistanceMatrix', RG, REQ, [('number of rows', lambda e: e.this.n_samples_ == N(e)), MATRIX], cls='PairwiseDistanceMatrix', objs=OB, modifies=['this'], name='PairwiseDistanceMatrix::PairwiseDistanceMatrix')
lookup = Contract('operator()', [Sc('r'), Sc('c')], [('position', lambda e: And(0 <= e.r, 0 <= e.c, e.r < e.this.n_samples_, e.c < e.this.n_samples_)), MATRIX],
    [('distance of the two samples, either order', lambda e: And(Implies(e.r != e.c, e.result == dist(e, e.r, e.c)), Implies(e.r == e.c, And(e.result == 0, e.result == dist(e, e.r, e.r)))))], cls='PairwiseDistanceMatrix', objs=OB, ghosts=dict(lo=SZ, nf=SZ), result=RE, hints=[lambda e: MULI(e.r, e.nf) == MULI(e.r, e.nf)])
dyn = Contract('operator()', [Sc('r'), Sc('c')], [('rows', lambda e: And(e.this.n_features_ > 0, 0 <= e.r, 0 <= e.c, e.lo + mul(e.r, e.this.n_features_) + e.this.n_features_ <= e.hi, e.lo + mul(e.c, e.this.n_features_) + e.this.n_features_ <= e.hi))],
    [('distance of the two samples', lambda e: e.result == DIST(ROW(e.s.el, e.lo + mul(e.r, e.this.n_features_), e.this.n_features_), ROW(e.s.el, e.lo + mul(e.c, e.this.n_features_), e.this.n_features_)))], cls='PairwiseDistanceMatrixDynamic', objs=OB, this=dict(samples_first_=('it', 's', 'lo'), samples_last_=('it', 's', 'hi')), result=RE)
CONTRACTS = [cseq, cpar, cany, ctor, lookup, dyn, get_n, shared.auto_distance, seq, par, tra, translate]
