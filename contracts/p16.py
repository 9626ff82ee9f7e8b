"""P16: k-medoids."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for every dataset, set of medoids and history of steps (reals for double) on the real code: nearest, second, third and nth nearest medoid tables (samples and matrix), removal losses, FasterPAM buffers, best swap, buffer swap, step (a swap strictly lowers the deviation or no swap can), reported deviation, KMedoids predict, forward and fit<FasterPAM> over samples, samples with stored matrix, and matrix. The distance is abstract (P01); FasterMSC and the default initialisers are not covered by the proof (stand-in or not claimed); floating-point rounding not modelled."
TU = ('p16.cpp', ('ffcl', 'pam'))
OS = dict(s=VecOf(RE))
S3 = [Itp('s', 0), Itp('s', 's1'), Sc('nf')]; ME = Ob('md', VecOf(SZ)); MAT = Rec('PairwiseDistanceMatrix', n_samples_=SZ, data_=VecOf(RE)); MA = Ob('m', MAT)
# the distance of two samples, either computed from the samples (0) or looked up in a stored triangle (1)
DM = z3.Function('DM', Int_, AI(Real_), Int_, Int_, Int_, Real_)
_e, _m, _i, _j = z3.Const('de!', AI(Real_)), *z3.Ints('dm! di! dj!')
def R(el, i, nf): return ROW(el, MULI(i, nf), nf)
def tri(r): return div(mul(r, r - 1), 2)
AXIOMS['DM'] = [FA([_e, _m, _i, _j], DM(0, _e, _m, _i, _j) == DIST(R(_e, _i, _m), R(_e, _j, _m)), DM(0, _e, _m, _i, _j)),
    FA([_e, _m, _i, _j], DM(1, _e, _m, _i, _j) == If(_i == _j, 0, If(_i < _j, _e[tri(_j) + _i], _e[tri(_i) + _j])), DM(1, _e, _m, _i, _j))]
DEPS['DM'] = ['DIST', 'INF', 'ROW', 'MULI']
class S:
    """dataset given by its samples"""
    tag = 0
    def __init__(self, e): self.s, self.nf, self.s1, self.md = e.s, e.nf, e.s1, e.md; self.n = div(e.s1, e.nf); self.arr, self.w = e.s.el, e.nf
    def dd(self, i, o): return DM(0, self.s.el, self.nf, i, o)
    def ok(self): return And(self.nf >= 1, 0 <= self.s1, self.s1 <= self.s.len, mod(self.s1, self.nf) == 0, mul(self.n, self.nf) == self.s1)
class P:
    """dataset given by a matrix of distances"""
    tag = 1
    def __init__(self, e): self.m = e.m; self.n = e.m.f['n_samples_']; self.md = e.md; self.arr, self.w = e.m.f['data_'].el, IntVal(0)
    def dd(self, i, o): return DM(1, self.m.f['data_'].el, 0, i, o)
    def ok(self): return And(self.n >= 0, self.m.f['data_'].len == tri(self.n), forall2(0, self.n, 0, self.n, lambda i, o: And(0 <= self.dd(i, o), self.dd(i, o) < INF), pat=lambda i, o: self.dd(i, o)))
def upto(v, f, m): return forall(0, m, f, pat=lambda i: v.el[i])
def D(v, j, o): return v.dd(v.md.el[j], o)
def allm(v, m, f): return forall(0, m, f, pat=lambda j: v.md.el[j])
def isfirst(v, o, a, m): return And(0 <= a, a < m, allm(v, m, lambda j: And(D(v, a, o) <= D(v, j, o), Implies(j < a, D(v, a, o) < D(v, j, o)))))
def issecond(v, o, a, b, m): return And(0 <= b, b < m, b != a, allm(v, m, lambda j: Implies(j != a, D(v, b, o) <= D(v, j, o))))
def isthird(v, o, a, b, c, m): return And(0 <= c, c < m, c != a, c != b, allm(v, m, lambda j: Implies(And(j != a, j != b), D(v, c, o) <= D(v, j, o))))
ok = lambda W: ('dataset', lambda e: W(e).ok()); meds = lambda W: ('medoids are samples', lambda e: And(e.md.len >= 1, allm(W(e), e.md.len, lambda j: And(0 <= e.md.el[j], e.md.el[j] < W(e).n))))
def L(e, nm): return e.loc(nm)
def table(fn, vec, post, inner, res, W, least):
    v = lambda e: e.locv(vec); k = lambda e: e.md.len; nm = fn + (' (samples)' if W is S else ' (matrix)')
    return Contract(fn, (S3 if W is S else [MA]) + [ME], [ok(W), meds(W), ('enough medoids', lambda e: e.md.len >= least)], [('one value per sample', lambda e: e.result.len == W(e).n), ('every sample', lambda e: upto(e.result, lambda i: post(W(e), i, e.result.el[i]), W(e).n))], objs=OS, result=VecOf(res), name=nm,
        loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= W(e).n, v(e).len == W(e).n)), ('samples so far', lambda e: upto(v(e), lambda i: post(W(e), i, v(e).el[i]), e.i)), decreases=lambda e: W(e).n - e.i),
               1: Loop(('sample', lambda e: And(0 <= e.j, e.j < W(e).n, v(e).len == W(e).n, 0 <= e.i, e.i <= k(e))), ('samples so far', lambda e: upto(v(e), lambda i: post(W(e), i, v(e).el[i]), e.j)), ('medoids so far', lambda e: inner(W(e), e)), decreases=lambda e: k(e) - e.i)})
# FST / SND: the first nearest and the first second nearest of the first k medoids, by definition
FST = z3.Function('FST', Int_, AI(Real_), Int_, AI(Int_), Int_, Int_, Int_); SND = z3.Function('SND', Int_, AI(Real_), Int_, AI(Int_), Int_, Int_, Int_)
_t, _k, _o = z3.Ints('dt! dk! do!'); _md = z3.Const('dmd!', AI(Int_)); _ar = (_t, _e, _m, _md, _k, _o)
def _D(j): return DM(_t, _e, _m, _md[j], _o)
_f, _s = FST(*_ar), SND(*_ar)
AXIOMS['FST'] = [FA(_ar, Implies(_k >= 1, And(0 <= _f, _f < _k)), _f), FA(_ar + (_j,), Implies(And(0 <= _j, _j < _k), And(_D(_f) <= _D(_j), Implies(_j < _f, _D(_f) < _D(_j)))), z3.MultiPattern(_f, _md[_j]))]
AXIOMS['SND'] = [FA(_ar, Implies(_k >= 2, And(0 <= _s, _s < _k, _s != _f)), _s), FA(_ar + (_j,), Implies(And(0 <= _j, _j < _k, _j != _f), And(_D(_s) <= _D(_j), Implies(_j < _s, _D(_s) < _D(_j)))), z3.MultiPattern(_s, _md[_j]))]
_h = z3.Function('THD', Int_, AI(Real_), Int_, AI(Int_), Int_, Int_, Int_)(*_ar)
AXIOMS['THD'] = [FA(_ar, Implies(_k >= 3, And(0 <= _h, _h < _k, _h != _f, _h != _s)), _h), FA(_ar + (_j,), Implies(And(0 <= _j, _j < _k, _j != _f, _j != _s), And(_D(_h) <= _D(_j), Implies(_j < _h, _D(_h) < _D(_j)))), z3.MultiPattern(_h, _md[_j]))]
DEPS['THD'] = ['SND', 'FST', 'DM']; DEPS['FST'] = ['DM']; DEPS['SND'] = ['DM', 'FST']
def fst(v, o, m=None): return FST(v.tag, v.arr, v.w, v.md.el, v.md.len if m is None else m, o)
def snd(v, o, m=None): return SND(v.tag, v.arr, v.w, v.md.el, v.md.len if m is None else m, o)
def thd(v, o, m=None): return _h.decl()(v.tag, v.arr, v.w, v.md.el, v.md.len if m is None else m, o)
def pidx3(v, o, x): return x == thd(v, o)
def pd3(v, o, x): return x == D(v, thd(v, o), o)
def jn3(v, e): return And(jn2(v, e), L(e, 'third_min_distance') == If(e.i <= 2, INF, D(v, thd(v, e.j, e.i), e.j)))
def in3(v, e): return And(in2(v, e), jn3(v, e), L(e, 'third_min_index') == If(e.i <= 2, 0, thd(v, e.j, e.i)))
def pidx1(v, o, x): return x == fst(v, o)
def pidx2(v, o, x): return x == snd(v, o)
def pd1(v, o, x): return x == D(v, fst(v, o), o)
def pd2(v, o, x): return x == D(v, snd(v, o), o)
def in1(v, e): return And(jn1(v, e), L(e, 'first_min_index') == If(e.i == 0, 0, fst(v, e.j, e.i)))
def in2(v, e): return And(jn2(v, e), L(e, 'first_min_index') == If(e.i == 0, 0, fst(v, e.j, e.i)), L(e, 'second_min_index') == If(e.i <= 1, 0, snd(v, e.j, e.i)))
def jn1(v, e): return L(e, 'first_min_distance') == If(e.i == 0, INF, D(v, fst(v, e.j, e.i), e.j))
def jn2(v, e): return And(jn1(v, e), L(e, 'second_min_distance') == If(e.i <= 1, INF, D(v, snd(v, e.j, e.i), e.j)))
tabs = [t for W in (S, P) for t in (
    table('samples_to_nearest_medoid_indices', 'nearest_medoid_indices', pidx1, in1, SZ, W, 1),
    table('samples_to_second_nearest_medoid_indices', 'second_nearest_medoid_indices', pidx2, in2, SZ, W, 2),
    table('samples_to_nearest_medoid_distances', 'nearest_medoid_distances', pd1, jn1, RE, W, 1),
    table('samples_to_second_nearest_medoid_distances', 'second_nearest_medoid_distances', pd2, jn2, RE, W, 2),
    table('samples_to_third_nearest_medoid_indices', 'third_nearest_medoid_indices', pidx3, in3, SZ, W, 3),
    table('samples_to_third_nearest_medoid_distances', 'third_nearest_medoid_distances', pd3, jn3, RE, W, 3))]
import p18
EXTRA_AXIOMS = list(p18.EXTRA_AXIOMS)
lookup = Contract('operator()', [Sc('r'), Sc('c')], [('position', lambda e: And(0 <= e.r, e.r < e.this.n_samples_, 0 <= e.c, e.c < e.this.n_samples_, e.this.data_.len == tri(e.this.n_samples_)))], [('entry of the stored triangle', lambda e: e.result == DM(1, e.this.data_.el, 0, e.r, e.c))], cls='PairwiseDistanceMatrix', objs=OS, result=RE)
rows = Contract('n_rows', [], [], [('number of samples', lambda e: e.result == e.this.n_samples_)], cls='PairwiseDistanceMatrix', result=SZ)
def nth(fn, p1, p2, p3, res, W): return Contract(fn, (S3 if W is S else [MA]) + [ME, Sc('nth')], [ok(W), meds(W)], [('one value per sample', lambda e: e.result.len == W(e).n), ('nearest', lambda e: Implies(e.nth == 1, upto(e.result, lambda i: p1(W(e), i, e.result.el[i]), W(e).n))), ('second nearest', lambda e: Implies(e.nth == 2, upto(e.result, lambda i: p2(W(e), i, e.result.el[i]), W(e).n))), ('third nearest', lambda e: Implies(e.nth == 3, upto(e.result, lambda i: p3(W(e), i, e.result.el[i]), W(e).n)))],
    objs=OS, result=VecOf(res), name=fn + (' (samples)' if W is S else ' (matrix)'), throws=lambda e: Or(e.nth == 0, e.nth > e.md.len, e.nth > 3))
nths = [c for W in (S, P) for c in (nth('samples_to_nth_nearest_medoid_indices', pidx1, pidx2, pidx3, SZ, W), nth('samples_to_nth_nearest_medoid_distances', pd1, pd2, pd3, RE, W))]
REM = named_array('REM', [AI(Int_), AI(Real_), AI(Real_), Int_], Real_, lambda x, d1, d2, m, o: If(x[o] == m, d2[o] - d1[o], 0))
def removal(v, x, d1, d2, n, k): return And(v.len == k, upto(v, lambda m: v.el[m] == SUM(REM(x.el, d1.el, d2.el, m), IntVal(0), n), k))
LS = lambda e: e.locv('delta_td_mi')
losses = Contract('compute_losses_with_closest_medoid_removal', [Ob('x', VecOf(SZ)), Ob('d1', VecOf(RE)), Ob('d2', VecOf(RE)), Sc('k')], [('a label and two distances per sample', lambda e: And(e.d1.len == e.x.len, e.d2.len == e.x.len, e.k >= 0, upto(e.x, lambda o: And(0 <= e.x.el[o], e.x.el[o] < e.k), e.x.len)))],
    [('what its samples lose', lambda e: removal(e.result, e.x, e.d1, e.d2, e.x.len, e.k))], result=VecOf(RE), loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= e.x.len)), ('so far', lambda e: removal(LS(e), e.x, e.d1, e.d2, e.i, e.k)), decreases=lambda e: e.x.len - e.i)})
cent = Contract('medoids_to_centroids', S3 + [ME], [ok(S), ('medoids are samples', lambda e: allm(S(e), e.md.len, lambda j: And(0 <= e.md.el[j], e.md.el[j] < S(e).n)))], [('one row per medoid', lambda e: e.result.len == mul(e.md.len, e.nf)), ('the row of each medoid', lambda e: copied(e, e.result, e.md.len))], objs=OS, result=VecOf(RE), loops={
    0: Loop(('medoid', lambda e: And(0 <= e.i, e.i <= e.md.len, e.locv('clusters').len == mul(e.md.len, e.nf))), ('so far', lambda e: copied(e, e.locv('clusters'), e.i)), decreases=lambda e: e.md.len - e.i)})
def copied(e, v, m): return forall2(0, m, 0, e.nf, lambda j, f: v.el[mul(j, e.nf) + f] == e.s.el[mul(e.md.el[j], e.nf) + f], pat=lambda j, f: v.el[MULI(j, e.nf) + f])
utils = tabs + nths + [losses, cent]
lib = [rows, lookup, shared.auto_distance, shared.get_n_samples]
shared.get_n_samples.trusted = 'proved in P21'
# FasterPAM
DESC = Tup(('ptr', 's'), ('ptr', 's'), SZ)
DYN = Rec('PairwiseDistanceMatrixDynamic', samples_first_=('ptr', 's'), samples_last_=('ptr', 's'), n_features_=SZ)
VAR = Rec('variant', index=SZ, **{'0': DYN, '1': MAT})
BUF = ['samples_to_nearest_medoid_indices_', 'samples_to_second_nearest_medoid_indices_', 'samples_to_nearest_medoid_distances_', 'samples_to_second_nearest_medoid_distances_', 'losses_with_closest_medoid_removal_']
class B:
    def __init__(self, f): self.x1, self.x2, self.d1, self.d2, self.rm = [f(n) for n in BUF]
class FS:
    """solver over samples"""
    tag = 0
    def __init__(self, e):
        t = e.this; self.x = x = t.storage_variant_.f['0']; self.nf = x.f['n_features_']; self.s = e.s; self.s1 = x.f['samples_last_'].idx; self.md = t.medoids_; self.n = div(self.s1, self.nf); self.arr, self.w = e.s.el, self.nf; self.b = B(lambda n: t.buffers_ptr_.f[n]); self.e = e
    def dd(self, i, o): return DM(0, self.arr, self.w, i, o)
    def ok(self): return And(self.e.this.storage_variant_.f['index'] == 0, self.x.f['samples_first_'].idx == 0, S.ok(self))
class FP:
    """solver over a matrix"""
    tag = 1
    def __init__(self, e):
        t = e.this; self.m = t.storage_variant_.f['1']; self.n = self.m.f['n_samples_']; self.md = t.medoids_; self.arr, self.w = self.m.f['data_'].el, IntVal(0); self.b = B(lambda n: t.buffers_ptr_.f[n]); self.e = e
    def dd(self, i, o): return DM(1, self.arr, self.w, i, o)
    def ok(self): return And(self.e.this.storage_variant_.f['index'] == 1, P.ok(self))
class With2:
    def __init__(self, v, **k): self.__dict__.update(v.__dict__); self.tag = v.tag; self.__dict__.update(k)
    def dd(self, i, o): return DM(self.tag, self.arr, self.w, i, o)
def distinct(md): return forall2(0, md.len, 0, md.len, lambda a, b: Implies(a != b, md.el[a] != md.el[b]), pat=lambda a, b: z3.MultiPattern(md.el[a], md.el[b]))
def members(v): return And(v.md.len >= 2, allm(v, v.md.len, lambda j: And(0 <= v.md.el[j], v.md.el[j] < v.n)))
def right(v, b, o):
    k = v.md.len
    return And(0 <= b.x1.el[o], b.x1.el[o] < k, 0 <= b.x2.el[o], b.x2.el[o] < k, b.x1.el[o] != b.x2.el[o], b.d1.el[o] == D(v, b.x1.el[o], o), b.d2.el[o] == D(v, b.x2.el[o], o), b.d1.el[o] <= b.d2.el[o], allm(v, k, lambda j: And(b.d1.el[o] <= D(v, j, o), Implies(j != b.x1.el[o], b.d2.el[o] <= D(v, j, o)))))
def pats(b, o): return [b.x1.el[o], b.x2.el[o], b.d1.el[o], b.d2.el[o]]
def blen(v, b): return And(b.x1.len == v.n, b.x2.len == v.n, b.d1.len == v.n, b.d2.len == v.n)
def bufs(v, b, lo=0, hi=None): return forall(lo, v.n if hi is None else hi, lambda o: right(v, b, o), pat=lambda o: pats(b, o))
# the buffers are right except for the medoid at position q, which was replaced
def partly(v, b, q, o):
    k = v.md.len
    return And(0 <= b.x1.el[o], b.x1.el[o] < k, 0 <= b.x2.el[o], b.x2.el[o] < k, b.x1.el[o] != b.x2.el[o], Implies(b.x1.el[o] != q, b.d1.el[o] == D(v, b.x1.el[o], o)), Implies(b.x2.el[o] != q, b.d2.el[o] == D(v, b.x2.el[o], o)), b.d1.el[o] <= b.d2.el[o], allm(v, k, lambda j: Implies(j != q, And(b.d1.el[o] <= D(v, j, o), Implies(j != b.x1.el[o], b.d2.el[o] <= D(v, j, o))))))
MINA = named_array('MINA', [Int_, AI(Real_), Int_, AI(Int_), Int_], Real_, lambda t, a, w, md, k, o: DM(t, a, w, md[FST(t, a, w, md, k, o)], o)); DEPS['MINA'] = ['FST']
def TD(v, md=None): return SUM(MINA(v.tag, v.arr, v.w, v.md.el if md is None else md, v.md.len), IntVal(0), v.n)
XC = named_array('XC', [Int_, AI(Real_), Int_, Int_, AI(Real_)], Real_, lambda t, a, w, c, d1, o: If(DM(t, a, w, c, o) < d1[o], DM(t, a, w, c, o) - d1[o], 0)); DEPS['XC'] = ['DM']
ADJ = named_array('ADJ', [Int_, AI(Real_), Int_, Int_, AI(Int_), AI(Real_), AI(Real_), Int_], Real_, lambda t, a, w, c, x, d1, d2, m, o: If(x[o] == m, If(DM(t, a, w, c, o) < d1[o], d1[o] - d2[o], If(DM(t, a, w, c, o) < d2[o], DM(t, a, w, c, o) - d2[o], 0)), 0)); DEPS['ADJ'] = ['DM']
TOT = named_array('TOT', [Int_, AI(Real_), Int_, Int_, AI(Int_), AI(Real_), AI(Real_), Int_], Real_, lambda t, a, w, c, x, d1, d2, m, o: XC(t, a, w, c, d1)[o] + REM(x, d1, d2, m)[o] + ADJ(t, a, w, c, x, d1, d2, m)[o] + d1[o]); DEPS['TOT'] = ['XC', 'ADJ', 'REM']
_x1, _d1, _d2, _c, _n = z3.Const('bx!', AI(Int_)), z3.Const('bd1!', AI(Real_)), z3.Const('bd2!', AI(Real_)), z3.Int('bc!'), z3.Int('bn!')
def split(t, a, w, c, x, d1, d2, m, n): z = IntVal(0); return SUM(TOT(t, a, w, c, x, d1, d2, m), z, n) == SUM(XC(t, a, w, c, d1), z, n) + SUM(REM(x, d1, d2, m), z, n) + SUM(ADJ(t, a, w, c, x, d1, d2, m), z, n) + SUM(d1, z, n)
_sa = (_t, _e, _m, _c, _x1, _d1, _d2, _j, _n)
EXTRA_AXIOMS += [FA(_sa, Implies(_n >= 0, split(*_sa)), SUM(TOT(*_sa[:-1]), IntVal(0), _n))]
# the nearest medoid after one medoid was replaced
_q = z3.Int('bq!'); _st = z3.Store(_md, _q, _c); _g = FST(_t, _e, _m, _st, _k, _o)
def rep1(t, e, w, md, q, c, k, o): st = z3.Store(md, q, c); g = FST(t, e, w, st, k, o); mn = DM(t, e, w, st[g], o); return Implies(And(0 <= q, q < k), And(0 <= g, g < k, mn <= DM(t, e, w, c, o), If(g == q, mn == DM(t, e, w, c, o), mn == DM(t, e, w, md[g], o))))
def rep2(t, e, w, md, q, c, k, o, j): st = z3.Store(md, q, c); g = FST(t, e, w, st, k, o); return Implies(And(0 <= j, j < k, j != q), DM(t, e, w, st[g], o) <= DM(t, e, w, md[j], o))
_ra = (_t, _e, _m, _md, _q, _c, _k, _o)
EXTRA_AXIOMS += [FA(_ra, rep1(*_ra), _g), FA(_ra + (_j,), rep2(*_ra, _j), z3.MultiPattern(_g, _md[_j]))]
def LEMMAS():
    t, e, w, md, q, c, k, o, j = z3.Int('t'), z3.Const('e', AI(Real_)), z3.Int('w'), z3.Const('md', AI(Int_)), *z3.Ints('q c k o j')
    return [('the nearest after a replacement is the new medoid or an old one', [z3.Store(md, q, c)[q] == c], rep1(t, e, w, md, q, c, k, o)), ('the nearest after a replacement is at most as far as the medoids that stay', [z3.Store(md, q, c)[j] == If(j == q, c, md[j])], rep2(t, e, w, md, q, c, k, o, j)),
        ('sum of the parts of a swap: base', [], split(*_sa[:-1], IntVal(0))), ('sum of the parts of a swap: step', [_n >= 0, split(*_sa)], split(*_sa[:-1], _n + 1))]
def TT(v, c, q): return SUM(TOT(v.tag, v.arr, v.w, c, v.b.x1.el, v.b.d1.el, v.b.d2.el, q), IntVal(0), v.n)
def swapped(v, c, q): return TD(v, z3.Store(v.md.el, q, c))
def pam(V):
    W = S if V is FS else P; nm = lambda f: f"FasterPAM::{f} ({'samples' if V is FS else 'matrix'})"; cls = 'FasterPAM'
    solver = ('solver', lambda e: (lambda v: And(v.ok(), v.n == e.this.n_samples_, members(v)))(V(e)))
    bl = ('buffers', lambda e: And(blen(V(e), V(e).b), bufs(V(e), V(e).b)))
    rem = ('losses of removals', lambda e: removal(V(e).b.rm, V(e).b.x1, V(e).b.d1, V(e).b.d2, V(e).n, V(e).md.len))
    los = ('reported deviation', lambda e: e.this.loss_ == TD(V(e)))
    dis = ('distinct medoids', lambda e: distinct(V(e).md))
    def C(fn, params, req, ens, **k): return Contract(fn, params, req, ens, cls=cls, objs=OS, this={'storage_variant_': VAR}, shapes={'variant': VAR}, name=nm(fn), **k)
    MI = lambda e: e.locv('delta_td_mi')
    def best(e, f): v = V(e); return forall(0, v.md.len, f, pat=lambda q: [swapped(v, e.c, q), TT(v, e.c, q)])
    find = C('find_best_swap', [Sc('c')], [solver, bl, rem, ('candidate', lambda e: And(0 <= e.c, e.c < V(e).n))],
        [('position of a medoid', lambda e: And(0 <= e.result.f['1'], e.result.f['1'] < V(e).md.len)), ('change of the deviation by that swap', lambda e: e.result.f['0'] == swapped(V(e), e.c, e.result.f['1']) - TD(V(e))), ('no swap with the candidate is better', lambda e: best(e, lambda q: e.result.f['0'] <= swapped(V(e), e.c, q) - TD(V(e))))], result=Tup(RE, SZ),
        at_return=[lambda e: SUM(V(e).b.d1.el, IntVal(0), V(e).n) == TD(V(e)), lambda e: best(e, lambda q: TT(V(e), e.c, q) == swapped(V(e), e.c, q)), lambda e: best(e, lambda q: e.loc('delta_td_xc') + MI(e).el[q] == TT(V(e), e.c, q) - SUM(V(e).b.d1.el, IntVal(0), V(e).n))],
        loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= V(e).n, MI(e).len == V(e).md.len)), ('samples moved to the candidate', lambda e: e.loc('delta_td_xc') == SUM(XC(V(e).tag, V(e).arr, V(e).w, e.c, V(e).b.d1.el), IntVal(0), e.i)), ('per medoid', lambda e: upto(MI(e), lambda q: MI(e).el[q] == V(e).b.rm.el[q] + SUM(ADJ(V(e).tag, V(e).arr, V(e).w, e.c, V(e).b.x1.el, V(e).b.d1.el, V(e).b.d2.el, q), IntVal(0), e.i), V(e).md.len)), decreases=lambda e: V(e).n - e.i)})
    def kept(e, *but): a, b = e.this.buffers_ptr_.f, e.old.this.buffers_ptr_.f; return And([equal(a[f], b[f]) for f in BUF if f not in but])
    def inner(e):
        v = V(e); b = v.b; o = e.j; t, d = e.loc('index_tmp'), e.loc('distance_tmp'); f = b.x1.el[o]
        return And(0 <= e.i, e.i <= v.md.len, 0 <= t, t < v.md.len, t != f, d == D(v, t, o), d <= D(v, e.q, o), allm(v, e.i, lambda j: Implies(j != f, d <= D(v, j, o))))
    IN = Loop(('second nearest so far', inner), decreases=lambda e: V(e).md.len - e.i)
    swap = C('swap_buffers', [Sc('c'), Sc('q')], [solver, ('candidate put in', lambda e: And(0 <= e.c, e.c < V(e).n, 0 <= e.q, e.q < V(e).md.len, V(e).md.el[e.q] == e.c)), ('buffers right but for the replaced medoid', lambda e: And(blen(V(e), V(e).b), forall(0, V(e).n, lambda o: partly(V(e), V(e).b, e.q, o), pat=lambda o: pats(V(e).b, o))))],
        [bl, ('sum of the nearest distances', lambda e: e.result == TD(V(e))), ('losses of removals kept', lambda e: kept(e, *BUF[:4]))], modifies=['this.buffers_ptr_'], result=RE, at_return=[lambda e: e.result == SUM(V(e).b.d1.el, IntVal(0), V(e).n)],
        loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= V(e).n, blen(V(e), V(e).b))), ('samples so far', lambda e: bufs(V(e), V(e).b, 0, e.i)), ('samples to come', lambda e: forall(e.i, V(e).n, lambda o: partly(V(e), V(e).b, e.q, o), pat=lambda o: pats(V(e).b, o))), ('sum so far', lambda e: e.loc('loss') == SUM(V(e).b.d1.el, IntVal(0), e.i)), ('losses of removals kept', lambda e: kept(e, *BUF[:4])), decreases=lambda e: V(e).n - e.i), 1: IN, 2: IN})
    def best_known(e, m): v = V(e); return forall2(0, m, 0, v.md.len, lambda c, q: Implies(allm(v, v.md.len, lambda j: v.md.el[j] != c), TD(v) <= swapped(v, c, q)), pat=lambda c, q: swapped(v, c, q))
    def progress(e, m): return Or(e.this.loss_ < e.old.this.loss_, And(equal(e.this.medoids_, e.old.this.medoids_), best_known(e, m)))
    same = ('same dataset', lambda e: And(equal(e.this.storage_variant_, e.old.this.storage_variant_), e.this.n_samples_ == e.old.this.n_samples_))
    size = ('same number of medoids', lambda e: e.this.medoids_.len == e.old.this.medoids_.len)
    step = C('step', [], [solver, bl, rem, los, dis], [same, size, solver, bl, rem, los, dis, ('medoids returned', lambda e: equal(e.result, e.this.medoids_)), ('the deviation decreases, or nothing changes and no swap would decrease it', lambda e: progress(e, V(e).n))], modifies=['this'], result=VecOf(SZ),
        loops={0: Loop(same, size, ('sample', lambda e: And(0 <= e.i, e.i <= V(e).n)), solver, bl, rem, los, dis, ('candidates so far', lambda e: progress(e, e.i)), decreases=lambda e: V(e).n - e.i)})
    td = C('total_deviation', [], [solver, los], [('sum of the distances to the nearest medoids', lambda e: e.result == TD(V(e)))], result=RE)
    upd = Contract('update_losses_with_closest_medoid_removal', [Sc('k')], [('labels', lambda e: (lambda b: And(b.d1.len == b.x1.len, b.d2.len == b.x1.len, e.k >= 0, upto(b.x1, lambda o: And(0 <= b.x1.el[o], b.x1.el[o] < e.k), b.x1.len)))(B(lambda n: getattr(e.this, n))))], [('what its samples lose', lambda e: (lambda b: removal(b.rm, b.x1, b.d1, b.d2, b.x1.len, e.k))(B(lambda n: getattr(e.this, n)))), ('other buffers kept', lambda e: And([equal(getattr(e.this, f), getattr(e.old.this, f)) for f in BUF[:4]]))], cls='Buffers', modifies=['this'], name=nm('Buffers::update_losses'))
    ty = r'DatasetDescriptorType|tuple' if V is FS else r'SecondVariantType|PairwiseDistanceMatrix'
    TB = lambda e: B(lambda n: getattr(e.this, n))
    def made(W): return [('buffers', lambda e: And(blen(W(e), TB(e)), bufs(W(e), TB(e)))), ('losses of removals', lambda e: removal(TB(e).rm, TB(e).x1, TB(e).d1, TB(e).d2, W(e).n, e.md.len))]
    few = dict(throws=lambda e: e.md.len < 2)
    def CB(params, W, n2=''): return Contract('Buffers', params, [ok(W), meds(W)], made(W), cls='Buffers', objs=OS, modifies=['this'], name=nm('Buffers::Buffers') + n2, types=ty if len(params) == 2 else None, **few)
    src = Sc('desc', DESC) if V is FS else MA
    WD = SD if V is FS else P
    bctor = ([CB(S3 + [ME], S)] if V is FS else []) + [CB([src, ME], WD, ' (descriptor)' if V is FS else '')]
    stored = ('dataset and medoids stored', lambda e: And(V(e).ok(), V(e).n == e.this.n_samples_, V(e).n == WD(e).n, V(e).w == WD(e).w, V(e).arr == WD(e).arr, equal(e.this.medoids_, e.md)))
    req = [ok(WD), meds(WD)]
    ctor = [C('FasterPAM', [src, ME, Sc('l', RE)], req, [stored, solver, bl, rem, ('loss stored', lambda e: e.this.loss_ == e.l)], modifies=['this'], types=ty, **few), C('FasterPAM', [src, ME], req, [stored, solver, bl, rem, los], modifies=['this'], at_return=[lambda e: SUM(V(e).b.d1.el, IntVal(0), V(e).n) == TD(V(e))], types=ty, **few)]
    return bctor + ctor + [find, swap, upd, step, td]
class SD(S):
    def __init__(self, e): d = e.desc; self.s, self.nf, self.s1, self.md = e.s, d.f['2'], d.f['1'].idx, e.md; self.n = div(self.s1, self.nf); self.arr, self.w = e.s.el, self.nf; self.d = d
    def ok(self): return And(self.d.f['0'].idx == 0, S.ok(self))
dctor = [Contract('PairwiseDistanceMatrixDynamic', S3, [], [('stored', lambda e: And(e.this.samples_first_.idx == 0, e.this.samples_last_.idx == e.s1, e.this.n_features_ == e.nf))], cls='PairwiseDistanceMatrixDynamic', objs=OS, this=dict(samples_first_=('ptr', 's'), samples_last_=('ptr', 's')), modifies=['this'], name='PairwiseDistanceMatrixDynamic::ctor'),
    Contract('PairwiseDistanceMatrixDynamic', [Sc('desc', DESC)], [('first sample', lambda e: And(e.desc.f['0'].idx == 0, 0 <= e.desc.f['1'].idx, e.desc.f['1'].idx <= e.s.len))], [('stored', lambda e: And(e.this.samples_first_.idx == 0, e.this.samples_last_.idx == e.desc.f['1'].idx, e.this.n_features_ == e.desc.f['2']))], cls='PairwiseDistanceMatrixDynamic', objs=OS, this=dict(samples_first_=('ptr', 's'), samples_last_=('ptr', 's')), modifies=['this'], name='PairwiseDistanceMatrixDynamic::ctor (descriptor)'),
    Contract('n_rows', [], [('dataset', lambda e: And(e.this.samples_first_.idx == 0, e.this.n_features_ >= 1, 0 <= e.this.samples_last_.idx, e.this.samples_last_.idx <= e.s.len, mod(e.this.samples_last_.idx, e.this.n_features_) == 0))], [('number of samples', lambda e: e.result == div(e.this.samples_last_.idx, e.this.n_features_))], cls='PairwiseDistanceMatrixDynamic', objs=OS, this=dict(samples_first_=('ptr', 's'), samples_last_=('ptr', 's')), result=SZ)]
import p17
ext = [c for c in p17.CONTRACTS if c.fn in ('get_min_index_value_pair',)]
for c in ext: c.trusted = 'proved in P17'
dynop = Contract('operator()', [Sc('r'), Sc('c')], [('rows', lambda e: And(e.this.n_features_ >= 1, 0 <= e.r, 0 <= e.c, e.this.samples_first_.idx == 0, mul(e.r, e.this.n_features_) + e.this.n_features_ <= e.this.samples_last_.idx, mul(e.c, e.this.n_features_) + e.this.n_features_ <= e.this.samples_last_.idx, e.this.samples_last_.idx <= e.s.len))],
    [('distance of the two samples', lambda e: e.result == DM(0, e.s.el, e.this.n_features_, e.r, e.c))], cls='PairwiseDistanceMatrixDynamic', objs=OS, this=dict(samples_first_=('ptr', 's'), samples_last_=('ptr', 's')), result=RE)
lib.append(dynop)
samp, matr = pam(FS), pam(FP)
DT, MT = ('p16d.cpp', TU[1]), ('p16m.cpp', TU[1])
for c in samp: c.tu = DT
for c in matr: c.tu = MT
for c in utils + lib: c.also = [DT, MT]
for c in [dynop] + dctor: c.tu = DT; c.also = [MT]
# the estimator
import p19
draw = p19.mk_n; draw.trusted = 'proved in P19'
argmin = next(c for c in p17.CONTRACTS if c.fn == 'argmin'); argmin.trusted = 'proved in P17'
are_eq = Contract('are_containers_equal', [Ob('x', VecOf(SZ)), Ob('y', VecOf(SZ)), Skip()], [], [], result=BO, trusted='only decides when to stop; proved in P21')
K = 'KMedoids'
class KS(S):
    def __init__(self, e, md=None): self.s, self.nf, self.s1 = e.s, e.nf, e.s1; self.md = md if md is not None else e.this.medoids_; self.n = div(e.s1, e.nf); self.arr, self.w = e.s.el, e.nf
class KP(P):
    def __init__(self, e, md=None): self.m = e.m; self.n = e.m.f['n_samples_']; self.md = md if md is not None else e.this.medoids_; self.arr, self.w = e.m.f['data_'].el, IntVal(0)
CA = lambda e: e.locv('medoids_candidates'); PV = lambda e: e.locv('medoids_candidates_prev'); LO = lambda e: e.locv('candidates_losses')
def cand(e, i): return sel(CA(e).el, i)
def valid(Z, e, md): return And(members(Z(e, md)), distinct(md))
def est(Z, W, par, kind):
    nm = lambda f: f'KMedoids::{f} ({kind})'
    fitted = ('fitted', lambda e: And(Z(e).ok(), e.this.medoids_.len >= 1, allm(Z(e), e.this.medoids_.len, lambda j: And(0 <= e.this.medoids_.el[j], e.this.medoids_.el[j] < Z(e).n))))
    def near(e, i, x): v = Z(e); return And(0 <= x, x < v.md.len, allm(v, v.md.len, lambda j: D(v, x, i) <= D(v, j, i)))
    pred = Contract('predict', par, [fitted], [('one label per sample', lambda e: e.result.len == Z(e).n), ('index of a nearest medoid', lambda e: upto(e.result, lambda i: near(e, i, e.result.el[i]), Z(e).n))], cls=K, objs=OS, result=VecOf(SZ), name=nm('predict'))
    fwd = Contract('forward', par, [fitted], [('one distance per sample', lambda e: e.result.len == Z(e).n), ('distance to a nearest medoid', lambda e: upto(e.result, lambda i: And(e.result.el[i] == MINA(Z(e).tag, Z(e).arr, Z(e).w, Z(e).md.el, Z(e).md.len)[i]), Z(e).n))], cls=K, objs=OS, result=VecOf(RE), name=nm('forward'))
    V = FP if kind != 'samples' else FS
    class AE:
        def __init__(self, e): self.s = e.s; f = e.locv('kmedoids_algorithm').f; self.this = type('T', (), {k: v for k, v in f.items()})()
    def alg(e):
        x = AE(e); v = V(x)
        return And(v.ok(), v.n == x.this.n_samples_, members(v), distinct(v.md), v.n == Z(e).n, blen(v, v.b), bufs(v, v.b), removal(v.b.rm, v.b.x1, v.b.d1, v.b.d2, v.n, v.md.len), x.this.loss_ == TD(v), equal(v.md, cand(e, e.j)), TD(v) == TD(Z(e, cand(e, e.j))), *([v.arr == Z(e).arr, v.w == Z(e).w] if V.tag == Z.tag else [dist_same(e, v)]))
    def dist_same(e, v): z = Z(e); return forall2(0, z.n, 0, z.n, lambda i, o: v.dd(i, o) == z.dd(i, o), pat=lambda i, o: [v.dd(i, o), z.dd(i, o)])
    def shaped(e): return forall(0, CA(e).len, lambda i: valid(Z, e, cand(e, i)), pat=lambda i: CA(e).el.len[i])
    def losses(e, m): return upto(LO(e), lambda i: LO(e).el[i] == TD(Z(e, cand(e, i))), m)
    ready = ('number of medoids', lambda e: And(Z(e).ok(), 2 <= e.this.n_medoids_, e.this.n_medoids_ <= Z(e).n, e.this.options_.f['n_init_'] >= 1, Or(e.this.medoids_.len == 0, valid(Z, e, e.this.medoids_))))
    fit = Contract('fit', par, [ready], [('medoids returned', lambda e: equal(e.result, e.this.medoids_)), ('distinct samples', lambda e: valid(Z, e, e.this.medoids_))], cls=K, objs=OS, modifies=['this.medoids_'], result=VecOf(SZ), name=nm('fit<FasterPAM>'),
        at_return=[lambda e: losses(e, CA(e).len), lambda e: forall(0, CA(e).len, lambda i: And(LO(e).el[i] == TD(Z(e, cand(e, i))), TD(Z(e)) <= LO(e).el[i]), pat=lambda i: LO(e).el[i]), lambda e: exists(0, CA(e).len, lambda m: equal(e.this.medoids_, cand(e, m)))],
        loops={0: Loop(('attempts so far', lambda e: And(0 <= e.i, e.i <= e.this.options_.f['n_init_'], CA(e).len == e.i, shaped(e))), decreases=lambda e: e.this.options_.f['n_init_'] - e.i),
            1: Loop(('attempts', lambda e: And(0 <= e.i, e.i <= CA(e).len, CA(e).len >= 1, LO(e).len == CA(e).len, PV(e).len == CA(e).len, shaped(e))), ('deviation of the attempts so far', lambda e: losses(e, e.i)), decreases=lambda e: CA(e).len - e.i),
            2: Loop(('attempts', lambda e: And(0 <= e.j, e.j < CA(e).len, LO(e).len == CA(e).len, PV(e).len == CA(e).len, shaped(e), 0 <= e.i)), ('deviation of the attempts so far', lambda e: losses(e, e.j)), ('solver', lambda e: alg(e)), decreases=lambda e: e.this.options_.f['max_iter_'] - e.i)})
    r = [pred, fwd, fit]
    for c in r: c.tu = (dict(samples='p16ks.cpp', matrix='p16km.cpp').get(kind, 'p16kp.cpp'), TU[1])
    return r
# a matrix built from samples holds their distances
class NM:
    md = None
    def __init__(self, e): self.e = e
    def __getattr__(self, a): return getattr(self.e, a)
def MEQ(g, m, i, o): return DM(1, m.data_.el, 0, i, o) == g.dd(i, o)
def msplit(c, q): return lambda e: (lambda g, m: forall2(0, g.n, 0, g.n, lambda i, o: Implies(c(i, o), q(g, m, i, o)), pat=lambda i, o: [DM(1, m.data_.el, 0, i, o), g.dd(i, o)]))(SD(NM(e)), e.this)
def below(el, g): return forall2(0, g.n, 0, g.n, lambda r, c: Implies(c < r, el[tri(r) + c] == g.dd(r, c)), pat=lambda r, c: g.dd(r, c))
def cells(pr, G, ty, nm): return Contract('compute_pairwise_distances', pr, [('dataset', lambda e: G(NM(e)).ok())], [('size', lambda e: e.result.len == tri(G(NM(e)).n)), ('every cell below the diagonal', lambda e: below(e.result.el, G(NM(e))))], cls='PairwiseDistanceMatrix', objs=OS, result=VecOf(RE), types=ty, name=nm)
p18seq = p18.cseq; p18seq.trusted = 'proved in P18'
mats = [cells(S3, S, None, 'compute_pairwise_distances'), cells([Sc('desc', DESC)], SD, 'DatasetDescriptorType|tuple', 'compute_pairwise_distances (descriptor)'),
    Contract('PairwiseDistanceMatrix', [Sc('desc', DESC)], [('dataset', lambda e: SD(NM(e)).ok())], [('distances of the samples', lambda e: (lambda g, m: And(m.n_samples_ == g.n, m.data_.len == tri(g.n), forall2(0, g.n, 0, g.n, lambda i, o: DM(1, m.data_.el, 0, i, o) == g.dd(i, o), pat=lambda i, o: [DM(1, m.data_.el, 0, i, o), g.dd(i, o)])))(SD(NM(e)), e.this))], cls='PairwiseDistanceMatrix', objs=OS, modifies=['this'], types='DatasetDescriptorType|tuple', name='PairwiseDistanceMatrix::PairwiseDistanceMatrix (descriptor)',
        at_return=[msplit(lambda i, o: True, lambda g, m, i, o: And(g.dd(i, o) == g.dd(o, i), g.dd(i, i) == 0)), msplit(lambda i, o: o < i, MEQ), msplit(lambda i, o: i < o, lambda g, m, i, o: And(m.data_.el[tri(o) + i] == g.dd(o, i), g.dd(o, i) == g.dd(i, o))), msplit(lambda i, o: i < o, MEQ), msplit(lambda i, o: i == o, MEQ)])]
for c in mats: c.tu = ('p16kp.cpp', TU[1])
kmed = est(KS, S, S3, 'samples with matrix') + est(KS, S, S3, 'samples') + est(KP, P, [MA], 'matrix')
for c in samp: c.also = [('p16ks.cpp', TU[1])]
for c in matr: c.also = [('p16km.cpp', TU[1]), ('p16kp.cpp', TU[1])]
for c in utils + lib + dctor: c.also = c.also + [(f'p16k{x}.cpp', TU[1]) for x in 'smp']
CONTRACTS = utils + lib + dctor + ext + samp + matr + [draw, argmin, are_eq, p18seq] + mats + kmed
