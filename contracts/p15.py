"""P15: k-means."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for every dataset, set of centroids and history of steps (reals for double) on the real helper functions, Lloyd, Hamerly (bounds invariant included) and KMeans::predict, forward and fit<Lloyd / Hamerly>: nearest assignments, cluster sizes and sums, means, empty clusters stay, reported deviation, best attempt returned. The distance is abstract with the triangle inequality assumed; k-means++ and the overloads that choose it only by the bounded stand-in; floating-point rounding not modelled."
TU = ('p15.cpp', ('ffcl', 'kmeans'))
OS = dict(s=VecOf(RE))
S3 = [Itp('s', 0), Itp('s', 's1'), Sc('nf')]; CE = Ob('c', VecOf(RE))
def R(el, i, nf): return ROW(el, MULI(i, nf), nf)
def D(e, i, j, c=None): return DIST(R(e.s.el, i, e.nf), R((c if c is not None else e.c).el, j, e.nf))
n = lambda e: div(e.s1, e.nf)
k = lambda e: div(e.c.len, e.nf)
whole = ('whole rows', lambda e: And(e.nf >= 1, 0 <= e.s1, e.s1 <= e.s.len, mod(e.s1, e.nf) == 0, mul(n(e), e.nf) == e.s1))
cents = ('at least one centroid', lambda e: And(mod(e.c.len, e.nf) == 0, k(e) >= 1, mul(k(e), e.nf) == e.c.len))
DP = lambda e, i, c=None: lambda j: MULI(j, e.nf)
def near(e, i, x, j1): return And(0 <= x, forall(0, j1, lambda j: D(e, i, x) <= D(e, i, j), pat=DP(e, i)))
def upto(v, f, m): return forall(0, m, f, pat=lambda i: v.el[i])
def table(fn, vec, post, inner, res, extra=(), start=0, cond=None):
    v = lambda e: e.locv(vec)
    return Contract(fn, S3 + [CE], [whole, cents], [('one value per sample', lambda e: e.result.len == n(e)), ('every sample', lambda e: upto(e.result, lambda i: post(e, i, e.result.el[i]), n(e)))], objs=OS, result=VecOf(res),
        loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(e), v(e).len == n(e))), ('samples so far', lambda e: upto(v(e), lambda i: post(e, i, v(e).el[i]), e.i)), decreases=lambda e: n(e) - e.i),
               1: Loop(('sample', lambda e: And(0 <= e.j, e.j < n(e), v(e).len == n(e), 0 <= e.i, e.i <= k(e))), ('samples so far', lambda e: upto(v(e), lambda i: post(e, i, v(e).el[i]), e.j)), ('centroids so far', lambda e: inner(e)), decreases=lambda e: k(e) - e.i)})
def attained(e, i, d, m): return exists(0, m, lambda j: D(e, i, j) == d)
def lower(e, i, d, m): return forall(0, m, lambda j: d <= D(e, i, j), pat=DP(e, i))
idx = table('samples_to_nearest_centroid_indices', 'nearest_centroid_indices', lambda e, i, x: And(0 <= x, x < k(e), near(e, i, x, k(e))),
    lambda e: And(0 <= e.loc('min_index'), e.loc('min_index') < k(e), lower(e, e.j, e.loc('min_distance'), e.i), If(e.i == 0, e.loc('min_distance') == INF, e.loc('min_distance') == D(e, e.j, e.loc('min_index')))), SZ)
ds = table('samples_to_nearest_centroid_distances', 'nearest_centroid_distances', lambda e, i, x: And(lower(e, i, x, k(e)), attained(e, i, x, k(e))),
    lambda e: And(lower(e, e.j, e.loc('min_distance'), e.i), If(e.i == 0, e.loc('min_distance') == INF, attained(e, e.j, e.loc('min_distance'), e.i))), RE)
F1 = lambda e: e.loc('first_min_distance'); F2 = lambda e: e.loc('second_min_distance')
def second(e, i, x, m): return If(m <= 1, x == INF, exists(0, m, lambda a: And(lower(e, i, D(e, i, a), m), forall(0, m, lambda j: Implies(j != a, x <= D(e, i, j)), pat=DP(e, i)), exists(0, m, lambda b: And(b != a, x == D(e, i, b))))))
sec = table('samples_to_second_nearest_centroid_distances', 'second_nearest_centroid_distances', lambda e, i, x: second(e, i, x, k(e)),
    lambda e: And(Implies(e.i == 0, F1(e) == INF), Implies(e.i <= 1, F2(e) == INF), Implies(e.i >= 1, exists(0, e.i, lambda a: And(F1(e) == D(e, e.j, a), lower(e, e.j, F1(e), e.i), forall(0, e.i, lambda j: Implies(j != a, F2(e) <= D(e, e.j, j)), pat=DP(e, e.j)), Implies(e.i >= 2, exists(0, e.i, lambda b: And(b != a, F2(e) == D(e, e.j, b)))))))), RE)
# clusters
IND = named_array('IND', [AI(Int_), Int_, Int_], Int_, lambda x, lo, q, p: If(x[lo + p] == q, 1, 0))
MEMB = named_array('MEMB', [AI(Real_), AI(Int_), Int_, Int_, Int_], Real_, lambda s, x, lo, m, t, p: If(x[lo + p] == DIVI(t, m), s[MULI(p, m) + MODI(t, m)], 0))
def labels(e, hi): return ('labels of clusters', lambda e: forall(e.lo, hi(e), lambda p: And(0 <= e.x.el[p], e.x.el[p] < e.k), pat=lambda p: e.x.el[p]))
CS = lambda e: e.locv('cluster_sizes')
sizes = Contract('compute_cluster_sizes', [Itp('x', 'lo'), Itp('x', 'hi'), Sc('k')], [('range', lambda e: And(e.lo <= e.hi, e.k >= 0)), labels(None, lambda e: e.hi)],
    [('one size per cluster', lambda e: e.result.len == e.k), ('number of its members', lambda e: upto(e.result, lambda q: e.result.el[q] == SUMI(IND(e.x.el, e.lo, q), IntVal(0), e.hi - e.lo), e.k))], objs=dict(x=VecOf(SZ)), result=VecOf(SZ),
    loops={0: Loop(('cursor', lambda e: And(e.lo <= e.i, e.i <= e.hi, CS(e).len == e.k)), ('members so far', lambda e: upto(CS(e), lambda q: CS(e).el[q] == SUMI(IND(e.x.el, e.lo, q), IntVal(0), e.i - e.lo), e.k)), decreases=lambda e: e.hi - e.i)})
CP = lambda e: e.locv('cluster_positions_sum')
sums = Contract('compute_cluster_positions_sum', S3 + [Itp('x', 'lo'), Sc('k')], [whole, ('a label per sample', lambda e: And(e.k >= 0, e.lo + n(e) <= e.x.len)), labels(None, lambda e: e.lo + n(e))],
    [('one sum per cluster and feature', lambda e: e.result.len == mul(e.k, e.nf)), ('sum over its members', lambda e: upto(e.result, lambda t: e.result.el[t] == SUM(MEMB(e.s.el, e.x.el, e.lo, e.nf, t), IntVal(0), n(e)), mul(e.k, e.nf)))], objs=dict(s=VecOf(RE), x=VecOf(SZ)), result=VecOf(RE),
    loops={0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(e), CP(e).len == mul(e.k, e.nf))), ('members so far', lambda e: upto(CP(e), lambda t: CP(e).el[t] == SUM(MEMB(e.s.el, e.x.el, e.lo, e.nf, t), IntVal(0), e.i), mul(e.k, e.nf))), decreases=lambda e: n(e) - e.i)})
ND = lambda e: e.locv('neighbor_distances')
def DD(e, i, j): return DIST(R(e.s.el, i, e.nf), R(e.s.el, j, e.nf))
def nnd(e, i, x, m): return And(forall(0, m, lambda j: Implies(j != i, x <= DD(e, i, j)), pat=DP(e, i)), Or(And(x == INF, Or(m == 0, And(m == 1, i == 0))), exists(0, m, lambda j: And(j != i, x == DD(e, i, j)))))
nn = Contract('nearest_neighbor_distances', S3, [whole], [('one value per row', lambda e: e.result.len == n(e)), ('distance to the nearest other row', lambda e: upto(e.result, lambda i: nnd(e, i, e.result.el[i], n(e)), n(e)))], objs=OS, result=VecOf(RE),
    loops={0: Loop(('row', lambda e: And(0 <= e.i, e.i <= n(e), ND(e).len == n(e))), ('rows so far', lambda e: upto(ND(e), lambda i: nnd(e, i, ND(e).el[i], n(e)), e.i)), decreases=lambda e: n(e) - e.i),
        1: Loop(('row', lambda e: And(0 <= e.j, e.j < n(e), ND(e).len == n(e), 0 <= e.i, e.i <= n(e))), ('rows so far', lambda e: upto(ND(e), lambda i: nnd(e, i, ND(e).el[i], n(e)), e.j)), ('others so far', lambda e: nnd(e, e.j, e.loc('min_distance'), e.i)), decreases=lambda e: n(e) - e.i)})
# solvers
DESC = Tup(('ptr', 's'), ('ptr', 's'), SZ)
class B:
    def __init__(self, v): self.v = v
    def __getattr__(self, a): return self.v.f[a]
class V:
    """the same view of a solver as the helper functions have of their arguments"""
    def __init__(self, e, c=None):
        t = e.this; d = t.dataset_descriptor_
        self.s = e.s; self.nf = d.f['2']; self.s1 = d.f['1'].idx; self.s0 = d.f['0'].idx; self.c = c if c is not None else t.centroids_; self.b = B(t.buffers_ptr_)
MIN = z3.Function('MIN', AI(Real_), AI(Real_), Int_, Int_, AI(Real_)); ARGM = z3.Function('ARGM', AI(Real_), AI(Real_), Int_, Int_, Int_, Int_)
_s, _c = z3.Consts('ms! mc!', AI(Real_)); _m, _k, _i, _j = z3.Ints('mm! mk! mi! mj!')
def _d(i, j): return DIST(R(_s, i, _m), R(_c, j, _m))
# MIN(s, c, nf, k)[i] is by definition the distance from row i of s to the nearest of the k rows of c
EXTRA_AXIOMS = [FA([_s, _c, _m, _k, _i], Implies(_k >= 1, And(0 <= ARGM(_s, _c, _m, _k, _i), ARGM(_s, _c, _m, _k, _i) < _k, MIN(_s, _c, _m, _k)[_i] == _d(_i, ARGM(_s, _c, _m, _k, _i)))), MIN(_s, _c, _m, _k)[_i]),
    FA([_s, _c, _m, _k, _i, _j], Implies(And(0 <= _j, _j < _k), MIN(_s, _c, _m, _k)[_i] <= _d(_i, _j)), z3.MultiPattern(MIN(_s, _c, _m, _k)[_i], MULI(_j, _m)))]
def dev(e): return SUM(MIN(e.s.el, e.c.el, e.nf, k(e)), IntVal(0), n(e))
well = ('dataset and centroids', lambda e: (lambda v: And(v.s0 == 0, whole[1](v), cents[1](v)))(V(e)))
well0 = ('dataset and centroids', lambda e: And(e.desc.f['0'].idx == 0, (lambda v: And(whole[1](v), cents[1](v)))(A(e))))
class A:
    def __init__(self, e): d = e.desc; self.s = e.s; self.nf = d.f['2']; self.s1 = d.f['1'].idx; self.c = e.c
def nearest(e, b, m=None): return And(b.len == n(e), upto(b, lambda i: And(0 <= b.el[i], b.el[i] < k(e), near(e, i, b.el[i], k(e))), n(e)))
def nearest_d(e, b): return And(b.len == n(e), upto(b, lambda i: And(lower(e, i, b.el[i], k(e)), attained(e, i, b.el[i], k(e))), n(e)))
def labelled(e, x): return And(x.len == n(e), forall(0, n(e), lambda p: And(0 <= x.el[p], x.el[p] < k(e)), pat=lambda p: x.el[p]))
def size_of(e, x, q): return SUMI(IND(x.el, 0, q), IntVal(0), n(e))
def sum_of(e, x, t): return SUM(MEMB(e.s.el, x.el, 0, e.nf, t), IntVal(0), n(e))
def clusters(e, b): return And(b.cluster_sizes_.len == k(e), upto(b.cluster_sizes_, lambda q: b.cluster_sizes_.el[q] == size_of(e, b.samples_to_nearest_centroid_indices_, q), k(e)),
    b.cluster_position_sums_.len == e.c.len, upto(b.cluster_position_sums_, lambda t: b.cluster_position_sums_.el[t] == sum_of(e, b.samples_to_nearest_centroid_indices_, t), e.c.len))
def moved(e, x, new, hi=None, lo=0): return forall(lo, e.c.len if hi is None else hi, lambda t: new.el[t] == (lambda q: If(size_of(e, x, q) != 0, sum_of(e, x, t) / z3.ToReal(size_of(e, x, q)), e.c.el[t]))(DIVI(t, e.nf)), pat=lambda t: new.el[t])
same_desc = ('dataset kept', lambda e: equal(e.this.dataset_descriptor_, e.old.this.dataset_descriptor_))
def LC(fn, params, req, ens, cls, **kw): return Contract(fn, params, req, ens, cls=cls, objs=OS, this=kw.pop('this', {'dataset_descriptor_': DESC}), name=f'{cls}::{fn}', **kw)
BI = lambda e: V(e).b.samples_to_nearest_centroid_indices_
frame = lambda fs: ('everything else kept', lambda e: And([equal(getattr(e.this, f), getattr(e.old.this, f)) for f in fs]))
inv = ('assigned to nearest centroids', lambda e: And(nearest(V(e), BI(e)), nearest_d(V(e), V(e).b.samples_to_nearest_centroid_distances_)))
ini = [Contract('Buffers', S3 + [CE], [whole, cents], [('nearest centroids', lambda e: And(nearest(e, e.this.samples_to_nearest_centroid_indices_), nearest_d(e, e.this.samples_to_nearest_centroid_distances_)))], cls='Buffers', objs=OS, modifies=['this'], name='Lloyd::Buffers::Buffers'),
       Contract('Buffers', [Sc('desc', DESC), CE], [well0], [('nearest centroids', lambda e: And(nearest(A(e), e.this.samples_to_nearest_centroid_indices_), nearest_d(A(e), e.this.samples_to_nearest_centroid_distances_)))], cls='Buffers', objs=OS, modifies=['this'], name='Lloyd::Buffers::Buffers (descriptor)')]
loss = ('reported deviation', lambda e: e.this.loss_ == dev(V(e)))
stored = ('dataset and centroids stored', lambda e: And(equal(e.this.dataset_descriptor_, e.desc), equal(e.this.centroids_, e.c)))
Ll = 'Lloyd'
lloyd = ini + [LC('Lloyd', [Sc('desc', DESC), CE, Sc('l', RE)], [well0], [stored, inv, ('loss stored', lambda e: e.this.loss_ == e.l)], Ll, modifies=['this']),
    LC('Lloyd', [Sc('desc', DESC), CE], [well0], [stored, inv, loss], Ll, modifies=['this']),
    LC('total_deviation', [], [well, inv, loss], [('sum of the distances to the nearest centroids', lambda e: e.result == dev(V(e)))], Ll, result=RE),
    LC('update_clusters', [], [well, ('labels', lambda e: labelled(V(e), BI(e)))], [('sizes and sums of the clusters', lambda e: clusters(V(e), V(e).b)), ('labels kept', lambda e: equal(BI(e), BI(e.old)))], Ll, modifies=['this.buffers_ptr_']),
    LC('update_centroids', [], [well, ('labels', lambda e: labelled(V(e), BI(e))), ('sizes and sums of the clusters', lambda e: clusters(V(e), V(e).b))], [('size kept', lambda e: e.this.centroids_.len == e.old.this.centroids_.len), ('means of the clusters, empty ones stay', lambda e: moved(V(e.old), BI(e), e.this.centroids_))], Ll, modifies=['this.centroids_'],
        loops={0: Loop(('centroid', lambda e: And(0 <= e.i, e.i <= k(V(e.old)), e.this.centroids_.len == e.old.this.centroids_.len)), ('centroids so far', lambda e: moved(V(e.old), BI(e), e.this.centroids_, mul(e.i, V(e).nf))), ('others kept', lambda e: forall(mul(e.i, V(e).nf), e.this.centroids_.len, lambda t: e.this.centroids_.el[t] == e.old.this.centroids_.el[t], pat=lambda t: e.this.centroids_.el[t])), decreases=lambda e: k(V(e.old)) - e.i)}),
    LC('update_buffers', [], [well], [inv, ('sum of the distances to the nearest centroids', lambda e: e.result == dev(V(e)))], Ll, modifies=['this.buffers_ptr_'], result=RE),
    LC('step', [], [well, inv], [same_desc, ('centroids returned', lambda e: equal(e.result, e.this.centroids_)), ('size kept', lambda e: e.this.centroids_.len == e.old.this.centroids_.len), ('means of the clusters of the nearest centroids', lambda e: moved(V(e.old), BI(e.old), e.this.centroids_)), inv, loss], Ll, modifies=['this'], result=VecOf(RE))]
# Hamerly: bounds on the distances
H = 'Hamerly'
_x, _v, _q, _t, _n = z3.Const('hx!', AI(Int_)), *z3.Ints('hv! hq! ht! hn!'); _r1, _r2, _r3 = z3.Consts('r1! r2! r3!', Row)
def ind_upd(x, i, v, q, n): return SUMI(IND(z3.Store(x, i, v), 0, q), IntVal(0), n) == SUMI(IND(x, 0, q), IntVal(0), n) + (If(And(0 <= i, i < n), If(v == q, 1, 0) - If(x[i] == q, 1, 0), 0))
def memb_upd(s, x, i, v, m, t, n): return SUM(MEMB(s, z3.Store(x, i, v), 0, m, t), IntVal(0), n) == SUM(MEMB(s, x, 0, m, t), IntVal(0), n) + (If(And(0 <= i, i < n), (If(v == DIVI(t, m), z3.ToReal(IntVal(1)), 0) - If(x[i] == DIVI(t, m), z3.ToReal(IntVal(1)), 0)) * s[MULI(i, m) + MODI(t, m)], 0))
def ind_pos(x, i, q, n): return And(SUMI(IND(x, 0, q), IntVal(0), n) >= 0, Implies(And(0 <= i, i < n, x[i] == q), SUMI(IND(x, 0, q), IntVal(0), n) >= 1))
EXTRA_AXIOMS += [FA([_x, _i, _q, _n], Implies(_n >= 0, ind_pos(_x, _i, _q, _n)), z3.MultiPattern(SUMI(IND(_x, 0, _q), IntVal(0), _n), _x[_i])), FA([_x, _i, _v, _q, _n], Implies(_n >= 0, ind_upd(_x, _i, _v, _q, _n)), SUMI(IND(z3.Store(_x, _i, _v), 0, _q), IntVal(0), _n)),
    FA([_s, _x, _i, _v, _m, _t, _n], Implies(_n >= 0, memb_upd(_s, _x, _i, _v, _m, _t, _n)), SUM(MEMB(_s, z3.Store(_x, _i, _v), 0, _m, _t), IntVal(0), _n)),
    # the Euclidean distance satisfies the triangle inequality
    FA([_r1, _r2, _r3], DIST(_r1, _r3) <= DIST(_r1, _r2) + DIST(_r2, _r3), z3.MultiPattern(DIST(_r1, _r2), DIST(_r2, _r3)))]
def up(b): return b.samples_to_nearest_centroid_distances_
def lo(b): return b.samples_to_second_nearest_centroid_distances_
def cc(b): return b.centroid_to_nearest_centroid_distances_
def ix(b): return b.samples_to_nearest_centroid_indices_
def vel(b): return b.centroid_velocities_
def lens(e, b): return And(up(b).len == n(e), lo(b).len == n(e), vel(b).len == k(e))
def upper_ok(e, b): return forall(0, n(e), lambda i: D(e, i, ix(b).el[i]) <= up(b).el[i], pat=lambda i: [ix(b).el[i], up(b).el[i]])
def lower_ok(e, b): return forall(0, n(e), lambda i: forall(0, k(e), lambda j: Implies(j != ix(b).el[i], lo(b).el[i] <= D(e, i, j)), pat=lambda j: MULI(j, e.nf)), pat=lambda i: [ix(b).el[i], lo(b).el[i]])
def gaps_ok(e, b): return And(cc(b).len == k(e), forall(0, k(e), lambda a: forall(0, k(e), lambda j: Implies(j != a, cc(b).el[a] <= DIST(R(e.c.el, a, e.nf), R(e.c.el, j, e.nf))), pat=lambda j: MULI(j, e.nf)), pat=lambda a: cc(b).el[a]))
hl = ('labels', lambda e: And(labelled(V(e), BI(e)), lens(V(e), V(e).b))); hu = ('upper bounds', lambda e: upper_ok(V(e), V(e).b)); hlo = ('lower bounds', lambda e: lower_ok(V(e), V(e).b)); hg = ('gaps between centroids', lambda e: gaps_ok(V(e), V(e).b)); hc = ('sizes and sums of the clusters', lambda e: clusters(V(e), V(e).b))
hinv = [hl, hu, hlo, hg, hc]
hb = lambda E: [('labels', lambda e: And(labelled(E(e), ix(e.this)), lens(E(e), e.this))), ('upper bounds', lambda e: upper_ok(E(e), e.this)), ('lower bounds', lambda e: lower_ok(E(e), e.this)), ('gaps between centroids', lambda e: gaps_ok(E(e), e.this)), ('sizes and sums of the clusters', lambda e: clusters(E(e), e.this))]
def near_upto(e, b, m): return upto(ix(b), lambda i: near(e, i, ix(b).el[i], k(e)), m)
cpos = lambda e: e.this.centroids_
hamerly = [Contract('Buffers', S3 + [CE], [whole, cents], hb(lambda e: e), cls='Buffers', objs=OS, modifies=['this'], name='Hamerly::Buffers::Buffers'), Contract('Buffers', [Sc('desc', DESC), CE], [well0], hb(A), cls='Buffers', objs=OS, modifies=['this'], name='Hamerly::Buffers::Buffers (descriptor)'),
    LC(H, [Sc('desc', DESC), CE], [well0], [stored] + hinv, H, modifies=['this']),
    LC('total_deviation', [], [well], [('sum of the distances to the nearest centroids', lambda e: e.result == dev(V(e)))], H, result=RE),
    LC('update_centroids', [], [well, hl, hc], [('size kept', lambda e: e.this.centroids_.len == e.old.this.centroids_.len), ('means of the clusters, empty ones stay', lambda e: moved(V(e.old), BI(e), e.this.centroids_))], H, modifies=['this.centroids_'],
        loops={0: Loop(('centroid', lambda e: And(0 <= e.i, e.i <= k(V(e.old)), e.this.centroids_.len == e.old.this.centroids_.len)), ('centroids so far', lambda e: moved(V(e.old), BI(e), e.this.centroids_, mul(e.i, V(e).nf))), ('others kept', lambda e: forall(mul(e.i, V(e).nf), e.this.centroids_.len, lambda t: e.this.centroids_.el[t] == e.old.this.centroids_.el[t], pat=lambda t: e.this.centroids_.el[t])), decreases=lambda e: k(V(e.old)) - e.i)}),
    LC('update_centroids_velocities', [Ob('pc', VecOf(RE))], [well, ('same number of centroids', lambda e: e.pc.len == e.this.centroids_.len), ('a velocity per centroid', lambda e: vel(V(e).b).len == k(V(e)))], [('how far each centroid moved', lambda e: moves(e, k(V(e)))), ('other buffers kept', lambda e: kept(e, 'centroid_velocities_'))], H, modifies=['this.buffers_ptr_'],
        loops={0: Loop(('centroid', lambda e: And(0 <= e.i, e.i <= k(V(e)))), ('so far', lambda e: moves(e, e.i)), ('other buffers kept', lambda e: kept(e, 'centroid_velocities_')), decreases=lambda e: k(V(e)) - e.i)}),
    LC('step', [], [well] + hinv, [same_desc, ('centroids returned', lambda e: equal(e.result, e.this.centroids_)), ('size kept', lambda e: e.this.centroids_.len == e.old.this.centroids_.len), ('assigned to the nearest centroids', lambda e: near_upto(V(e.old), V(e).b, n(V(e.old)))), ('means of the clusters of the nearest centroids', lambda e: moved(V(e.old), BI(e), e.this.centroids_))] + hinv, H, modifies=['this'], result=VecOf(RE))]
def moves(e, m): v = V(e); return And(vel(v.b).len == k(v), upto(vel(v.b), lambda j: vel(v.b).el[j] == DIST(R(e.pc.el, j, v.nf), R(v.c.el, j, v.nf)), m))
def kept(e, *but):
    a, b = V(e).b.v.f, V(e.old).b.v.f; return And([equal(a[f], b[f]) for f in a if f not in but])
keep = ('gaps and velocities kept', lambda e: And(equal(cc(V(e).b), cc(V(e.old).b)), equal(vel(V(e).b), vel(V(e.old).b))))
def seen(e, f):
    v = V(e); p = ix(v.b).el[e.j]; return forall(0, k(v), lambda c: Implies(Or(c < e.i, c == p), f(v, c)), pat=lambda c: MULI(c, v.nf))
AC = lambda e: e.loc('assigned_centroid_index'); UB = lambda e: e.loc('upper_bound'); LB = lambda e: e.loc('lower_bound')
swap = LC('swap_bounds', [], [well] + hinv, hinv + [('assigned to the nearest centroids', lambda e: near_upto(V(e), V(e).b, n(V(e)))), keep], H, modifies=['this.buffers_ptr_'], loops={
    0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(V(e)))), *hinv, ('assigned to the nearest centroids so far', lambda e: near_upto(V(e), V(e).b, e.i)), keep, decreases=lambda e: n(V(e)) - e.i),
    1: Loop(('sample', lambda e: And(0 <= e.j, e.j < n(V(e)), 0 <= e.i, e.i <= k(V(e)))), *hinv, ('assigned to the nearest centroids so far', lambda e: near_upto(V(e), V(e).b, e.j)), keep,
        ('best so far', lambda e: And(0 <= AC(e), AC(e) < k(V(e)), UB(e) == D(V(e), e.j, AC(e)), Or(AC(e) < e.i, AC(e) == ix(V(e).b).el[e.j]), up(V(e).b).el[e.j] == D(V(e), e.j, ix(V(e).b).el[e.j]))),
        ('none closer so far', lambda e: seen(e, lambda v, c: UB(e) <= D(v, e.j, c))), ('second so far', lambda e: seen(e, lambda v, c: Implies(c != AC(e), LB(e) <= D(v, e.j, c)))), decreases=lambda e: k(V(e)) - e.i)})
def bmoved(e, b, which, lo_, hi_):
    if which == 'u': return forall(lo_, hi_, lambda i: D(e, i, ix(b).el[i]) <= up(b).el[i] + vel(b).el[ix(b).el[i]], pat=lambda i: [ix(b).el[i], up(b).el[i]])
    return forall(lo_, hi_, lambda i: forall(0, k(e), lambda j: Implies(j != ix(b).el[i], lo(b).el[i] - vel(b).el[j] <= D(e, i, j)), pat=lambda j: [MULI(j, e.nf), vel(b).el[j]]), pat=lambda i: [ix(b).el[i], lo(b).el[i]])
def bnow(e, b, m): return And(forall(0, m, lambda i: D(e, i, ix(b).el[i]) <= up(b).el[i], pat=lambda i: [ix(b).el[i], up(b).el[i]]), forall(0, m, lambda i: forall(0, k(e), lambda j: Implies(j != ix(b).el[i], lo(b).el[i] <= D(e, i, j)), pat=lambda j: [MULI(j, e.nf), vel(b).el[j]]), pat=lambda i: [ix(b).el[i], lo(b).el[i]]))
kb = ('other buffers kept', lambda e: kept(e, 'samples_to_nearest_centroid_distances_', 'samples_to_second_nearest_centroid_distances_', 'centroid_to_nearest_centroid_distances_'))
bounds = LC('update_bounds', [], [well, hl, ('upper bounds before the move', lambda e: bmoved(V(e), V(e).b, 'u', 0, n(V(e)))), ('lower bounds before the move', lambda e: bmoved(V(e), V(e).b, 'l', 0, n(V(e))))], [hl, hu, hlo, hg, kb], H, modifies=['this.buffers_ptr_'], loops={
    0: Loop(('sample', lambda e: And(0 <= e.i, e.i <= n(V(e)))), hl, kb, ('moved bounds', lambda e: bnow(V(e), V(e).b, e.i)), ('upper bounds to move', lambda e: bmoved(V(e), V(e).b, 'u', e.i, n(V(e)))), ('lower bounds to move', lambda e: bmoved(V(e), V(e).b, 'l', e.i, n(V(e)))), decreases=lambda e: n(V(e)) - e.i)})
hamerly[-1:-1] = [swap, bounds]
import p17
ext = [c for c in p17.CONTRACTS if c.fn in ('get_max_index_value_pair', 'get_second_max_index_value_pair')]
for c in ext: c.trusted = 'proved in P17'
# the estimator
K = 'KMeans'
class KV:
    def __init__(self, e, c=None): self.s = e.s; self.nf = e.nf; self.s1 = e.s1; self.c = c if c is not None else e.this.centroids_
nonempty = ('at least one sample', lambda e: n(e) >= 1)
fitted = ('fitted', lambda e: And(cents[1](KV(e)), KV(e).c.len == mul(e.this.n_centroids_, e.nf)))
init = Contract('centroids_initializer', S3 + [Sc('k')], [whole], [('as many centroids as asked for', lambda e: e.result.len == mul(e.k, e.nf))], objs=OS, result=VecOf(RE), name='centroids initialiser')
CA = lambda e: e.locv('centroids_candidates'); PV = lambda e: e.locv('centroids_candidates_prev'); LO = lambda e: e.locv('candidates_losses')
def cand(e, i): return sel(CA(e).el, i)
def shaped(e, v=None): v = v or CA(e); return forall(0, v.len, lambda i: sel(v.el, i).len == mul(e.this.n_centroids_, e.nf), pat=lambda i: v.el.len[i])
def losses(e, m): return upto(LO(e), lambda i: LO(e).el[i] == dev(KV(e, cand(e, i))), m)
ready = ('number of centroids', lambda e: And(e.this.n_centroids_ >= 1, Or(e.this.centroids_.len == 0, e.this.centroids_.len == mul(e.this.n_centroids_, e.nf)), e.this.options_.f['n_init_'] >= 1))
RECO = {}
class AE:
    def __init__(self, e): self.s = e.s; self.this = B(e.locv('kmeans_algorithm'))
def alg_inv(e, a):
    x = AE(e); d = x.this.dataset_descriptor_; own = [inv, loss] if a == 'Lloyd' else hinv
    return And(d.f['0'].idx == 0, d.f['1'].idx == e.s1, d.f['2'] == e.nf, equal(x.this.centroids_, cand(e, e.j)), *[c[1](x) for c in own])
def fit(alg, par, nm, a=None): return Contract('fit', S3 + par, [whole, nonempty, ready], [('as many centroids as asked for', lambda e: And(e.result.len == mul(e.this.n_centroids_, e.nf), equal(e.result, e.this.centroids_)))], cls=K, objs=OS, modifies=['this.centroids_'], result=VecOf(RE), name=nm, types=alg,
    at_return=[lambda e: losses(e, CA(e).len), lambda e: forall(0, CA(e).len, lambda i: And(LO(e).el[i] == dev(KV(e, cand(e, i))), dev(KV(e)) <= LO(e).el[i]), pat=lambda i: LO(e).el[i]), lambda e: exists(0, CA(e).len, lambda m: equal(e.this.centroids_, cand(e, m)))] if par else [],
    loops={0: Loop(('attempts so far', lambda e: And(0 <= e.i, e.i <= e.this.options_.f['n_init_'], CA(e).len == e.i, shaped(e))), decreases=lambda e: e.this.options_.f['n_init_'] - e.i),
        1: Loop(('attempts', lambda e: And(0 <= e.i, e.i <= CA(e).len, CA(e).len >= 1, LO(e).len == CA(e).len, PV(e).len == CA(e).len, shaped(e))), ('deviation of the attempts so far', lambda e: losses(e, e.i)), decreases=lambda e: CA(e).len - e.i),
        2: Loop(('attempts', lambda e: And(0 <= e.j, e.j < CA(e).len, LO(e).len == CA(e).len, PV(e).len == CA(e).len, shaped(e), 0 <= e.i)), ('deviation of the attempts so far', lambda e: losses(e, e.j)), ('solver', lambda e: alg_inv(e, a)), decreases=lambda e: e.this.options_.f['max_iter_'] - e.i)} if par else {})
kmeans = [Contract('predict', S3, [whole, fitted], [('one label per sample', lambda e: e.result.len == n(e)), ('index of a nearest centroid', lambda e: nearest(KV(e), e.result))], cls=K, objs=OS, result=VecOf(SZ)),
    Contract('forward', S3, [whole, fitted], [('distance to the nearest centroid', lambda e: nearest_d(KV(e), e.result))], cls=K, objs=OS, result=VecOf(RE)),
    ] + [fit(None, [Fnp(init)], f'KMeans::fit<{a}>', a) for a in ('Lloyd', 'Hamerly')]
KL, KH = ('p15kl.cpp', TU[1]), ('p15kh.cpp', TU[1]); kmeans[-2].tu = KL; kmeans[-1].tu = KH
def LEMMAS():
    x = z3.Const('x', AI(Int_)); s = z3.Const('s', AI(Real_)); i, v, q, m, t, n = z3.Ints('i v q m t n'); I1, M1 = IND(z3.Store(x, i, v), 0, q), MEMB(s, z3.Store(x, i, v), 0, m, t)
    return [('a cluster with a member is not empty: base', [], ind_pos(x, i, q, IntVal(0))), ('a cluster with a member is not empty: step', [n >= 0, ind_pos(x, i, q, n)], ind_pos(x, i, q, n + 1)), ('changing one label changes the size of two clusters: base', [], ind_upd(x, i, v, q, IntVal(0))), ('changing one label changes the size of two clusters: step', [n >= 0, ind_upd(x, i, v, q, n)], ind_upd(x, i, v, q, n + 1)),
            ('changing one label changes the sum of two clusters: base', [], memb_upd(s, x, i, v, m, t, IntVal(0))), ('changing one label changes the sum of two clusters: step', [n >= 0, memb_upd(s, x, i, v, m, t, n)], memb_upd(s, x, i, v, m, t, n + 1))]
for c in hamerly: c.tu = ('p15h.cpp', TU[1])
for c in lloyd: c.also = [KL]
for c in hamerly: c.also = [KH]
for c in lloyd: c.tu = ('p15l.cpp', TU[1])
are_eq = Contract('are_containers_equal', [Ob('x', VecOf(RE)), Ob('y', VecOf(RE)), Sc('t', RE)], [], [], result=BO, trusted='only decides when to stop; proved in P21')
argmin = next(c for c in p17.CONTRACTS if c.fn == 'argmin'); argmin.trusted = 'proved in P17'
CONTRACTS = [are_eq, argmin, idx, ds, sec, sizes, sums, nn, shared.auto_distance, shared.get_n_samples] + lloyd + hamerly + ext + kmeans
shared.get_n_samples.trusted = 'proved in P21'
