"""P14: DBSCAN.  Ghosts: nb[i][j] (sample j lies strictly within the radius of sample i), card[i] (how many do), comp (any labelling that is constant on
neighbouring core samples: 'same label implies same comp' for every such labelling says that equally labelled core samples are connected by a chain)."""
from search import *
LEVEL_NOTE = "Proved for every dataset, radius and minimum count on the real predict and predict_inner: neighbouring core samples share a positive label, equally labelled core samples lie in one chain-connected component, a non-core sample has the label of a core sample within the radius or 0 if there is none. Assumed: what a ball search returns (proved in P05 as distinct samples, exactly those in the ball; that their number is the cardinality of the ball is assumed), termination of the expansion queue, the tree indexes the whole dataset."
TU = ('p14.cpp', ('ffcl',))
PS = ('ptr', 's')
BV = Rec('BallView', centroid_features_range_first_=PS, centroid_features_range_last_=PS, radius_=RE)
BUF = Rec('Unsorted', bound_=BV, indices_=VecOf(SZ), distances_=VecOf(RE), closest_index_=SZ, closest_distance_=RE, buffer_index_of_furthest_index_=SZ, furthest_distance_=RE, max_capacity_=SZ)
KDT = Rec('KDTree', options_=('opaque',), samples_range_first_=PS, samples_range_last_=PS, n_samples_=SZ, n_features_=SZ, bound_=('opaque',), root_=('opaque',))
SEARCHER = Rec('Searcher', tree_traverser_=Rec('TreeTraverser', reference_indexer_=KDT))
OPT = Rec('Options', min_samples_=SZ, radius_=RE)
SHP = {'BallView.centroid_features_range_first_': PS, 'BallView.centroid_features_range_last_': PS, 'KDTree.samples_range_first_': PS, 'KDTree.samples_range_last_': PS, 'KDTree.root_': ('opaque',)}
G = dict(nb=AI(AB), card=AI(Int_), comp=AI(Int_), nf=Int_, n=Int_, rad=Real_, ms=Int_)
OB = dict(s=VecOf(RE))
def kd(o): return o.f['tree_traverser_'].f['reference_indexer_']
def over(k, e): return And(k.f['samples_range_first_'].idx == 0, k.f['samples_range_last_'].idx == e.s.len, k.f['n_features_'] == e.nf, k.f['n_samples_'] == e.n)
def core(e, x): return e.card[x] > e.ms
DATA = [('samples', lambda e: And(e.nf >= 1, e.n >= 0, e.s.len == mul(e.n, e.nf), e.n <= 2 ** 64 - 1)),
        ('rows lie in the data', lambda e: forall(0, e.n, lambda i: And(0 <= mul(i, e.nf), mul(i, e.nf) + e.nf <= e.s.len), pat=lambda i: mul(i, e.nf))),
        ('neighbours', lambda e: forall_raw([Int_, Int_], lambda i, j: e.nb[i][j] == (DIST(ROW(e.s.el, mul(i, e.nf), e.nf), ROW(e.s.el, mul(j, e.nf), e.nf)) < e.rad), pat=lambda i, j: e.nb[i][j])),
        ('neighbourhood is symmetric', lambda e: forall_raw([Int_, Int_], lambda i, j: e.nb[i][j] == e.nb[j][i], pat=lambda i, j: e.nb[i][j])),
        ('comp is constant on neighbouring core samples', lambda e: forall2(0, e.n, 0, e.n, lambda i, j: Implies(And(core(e, i), core(e, j), e.nb[i][j]), e.comp[i] == e.comp[j]), pat=lambda i, j: e.nb[i][j]))]
# ball search, as proved in P05
def ball(e):
    R = e.result; I, k = R.f['indices_'].el, R.f['indices_'].len; c0 = e.old.b.f['bound_'].f['centroid_features_range_first_'].idx
    return forall(0, e.n, lambda i: Implies(mul(i, e.nf) == c0, And(k == e.card[i], forall(0, k, lambda j: And(0 <= I[j], I[j] < e.n, e.nb[i][I[j]]), pat=lambda j: I[j]),
        forall(0, e.n, lambda x: Implies(e.nb[i][x], exists(0, k, lambda j: I[j] == x, pat=lambda j: I[j])), pat=lambda x: e.nb[i][x]))), pat=lambda i: e.card[i])
def fresh_ball(e):
    b = e.b; v = b.f['bound_'].f
    return And(b.f['indices_'].len == 0, b.f['distances_'].len == 0, b.f['max_capacity_'] >= e.n, b.f['furthest_distance_'] == INF, v['radius_'] == e.rad, v['centroid_features_range_last_'].idx == v['centroid_features_range_first_'].idx + e.nf,
        0 <= v['centroid_features_range_first_'].idx, v['centroid_features_range_last_'].idx <= e.s.len)
search = Contract('operator()', [Ob('b', BUF)], DATA[:3] + [('a searcher over the samples', lambda e: over(e.this.tree_traverser_.f['reference_indexer_'], e)), ('an empty unlimited buffer around a sample', fresh_ball)],
    [('exactly the samples in the ball', ball)], cls='Searcher', this=dict(tree_traverser_=Rec('TreeTraverser', reference_indexer_=KDT)), objs=OB, ghosts=G, result=BUF, modifies=['b'], shapes=SHP, trusted='proved in P05: the answer of an unlimited ball search is exactly the samples in the ball, each once; their number is the cardinality card')
# state: labels L, visited V, queue
def I_labels(L, V, c): return lambda e: And(L(e).len == e.n, V(e).len == e.n, c(e) >= 0, forall(0, e.n, lambda x: And(0 <= L(e)[x], L(e)[x] <= c(e), Implies(L(e)[x] > 0, V(e)[x])), pat=lambda x: L(e).el[x]))
def I_core(L, V): return lambda e: forall(0, e.n, lambda x: Implies(And(V(e)[x], core(e, x)), L(e)[x] > 0), pat=lambda x: [V(e).el[x], e.card[x]])
def I_full(L, V, lim=None): return lambda e: forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(V(e)[x], core(e, x), e.nb[x][y], L(e)[x] < lim(e) if lim else True), And(L(e)[y] > 0, Implies(core(e, y), L(e)[y] == L(e)[x]))), pat=lambda x, y: e.nb[x][y])
def I_comp(L): return lambda e: forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(core(e, x), core(e, y), L(e)[x] > 0, L(e)[x] == L(e)[y]), e.comp[x] == e.comp[y]), pat=lambda x, y: z3.MultiPattern(e.comp[x], e.comp[y]))
def I_bord(L): return lambda e: forall(0, e.n, lambda x: Implies(And(Not(core(e, x)), L(e)[x] > 0), exists(0, e.n, lambda z: And(core(e, z), e.nb[z][x], L(e)[z] == L(e)[x]), pat=lambda z: e.card[z])), pat=lambda x: L(e).el[x])
def STATE(L, V, c): return [('labels up to the number of clusters, only on visited samples', I_labels(L, V, c)), ('visited core samples are labelled', I_core(L, V)), ('neighbours of visited core samples are labelled, the core ones alike', I_full(L, V)),
    ('equally labelled core samples are connected', I_comp(L)), ('labelled border samples are next to a core sample of that label', I_bord(L))]
Lp, Vp = (lambda e: e.L), (lambda e: e.V)
cl_ = lambda e: e.c
def old0(f): return lambda e: f(e.old)
# predict_inner
def queue(e, m): return forall(0, m, lambda u: And(0 <= e.Q[u], e.Q[u] < e.n), pat=lambda u: e.Q.el[u])
def reached(e, m): return forall(0, m, lambda u: exists(0, e.n, lambda z: And(core(e, z), e.nb[z][e.Q[u]], e.L[z] == e.c, e.V[z]), pat=lambda z: e.card[z]), pat=lambda u: e.Q.el[u])
def pending(e, t): return forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(core(e, x), e.L[x] == e.c, e.nb[x][y]), Or(e.L[y] > 0, exists(t, e.Q.len, lambda u: e.Q[u] == y, pat=lambda u: e.Q.el[u]))), pat=lambda x, y: e.nb[x][y])
def before(e): return forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(e.V[x], core(e, x), e.nb[x][y], e.L[x] != e.c), And(e.L[y] > 0, Implies(core(e, y), e.L[y] == e.L[x]))), pat=lambda x, y: e.nb[x][y])
def grow(e, o): return forall(0, e.n, lambda x: And(Implies(o.L[x] > 0, e.L[x] == o.L[x]), Implies(o.V[x], e.V[x])), pat=lambda x: [e.L.el[x], e.V.el[x]])
BASE = [('labels up to the number of clusters, only on visited samples', I_labels(Lp, Vp, cl_)), ('visited core samples are labelled', I_core(Lp, Vp)), ('earlier clusters are complete', before), ('equally labelled core samples are connected', I_comp(Lp)),
        ('labelled border samples are next to a core sample of that label', I_bord(Lp)), ('the label is not noise', lambda e: e.c >= 1), ('the queue holds samples', lambda e: queue(e, e.Q.len)), ('everything queued is within the radius of a core sample of the cluster', lambda e: reached(e, e.Q.len))]
nbi = lambda e: e.loc('neighbor_index')
inner = Contract('predict_inner', [Ob('Q', VecOf(SZ)), Ob('V', VecOf(BO)), Ob('L', VecOf(SZ)), Sc('c'), Ob('sr', SEARCHER)],
    DATA + [('options', lambda e: And(e.this.options_.f['min_samples_'] == e.ms, e.this.options_.f['radius_'] == e.rad)), ('a searcher over the samples', lambda e: over(kd(e.sr), e))] + BASE + [('the queue holds what is left of the neighbours of the cluster', lambda e: pending(e, IntVal(0)))],
    STATE(Lp, Vp, cl_) + [('labels and visits are kept', lambda e: grow(e, e.old))], cls='DBSCAN', this=dict(options_=OPT), objs=OB, ghosts=G, modifies=['Q', 'V', 'L'], shapes=SHP,
    loops={0: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.Q.len)), *BASE, ('the rest of the queue holds what is left of the neighbours of the cluster', lambda e: pending(e, e.i)), ('labels and visits are kept', lambda e: grow(e, e.old)))})
# predict
LL = lambda e: e.locv('predictions'); VV_ = lambda e: e.locv('visited_indices'); CC = lambda e: e.loc('cluster_label')
def R(e): return e.result
FIN = [('one label per sample', lambda e: And(R(e).len == e.n, forall(0, e.n, lambda x: R(e)[x] >= 0, pat=lambda x: R(e).el[x]))),
       ('core samples have a positive label', lambda e: forall(0, e.n, lambda x: Implies(core(e, x), R(e)[x] > 0), pat=lambda x: e.card[x])),
       ('core samples within the radius of each other share their label', lambda e: forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(core(e, x), core(e, y), e.nb[x][y]), R(e)[x] == R(e)[y]), pat=lambda x, y: e.nb[x][y])),
       ('core samples with the same label are connected', I_comp(R)),
       ('a labelled non-core sample is within the radius of a core sample of that label', I_bord(R)),
       ('a non-core sample within the radius of a core sample is labelled', lambda e: forall2(0, e.n, 0, e.n, lambda x, y: Implies(And(core(e, x), e.nb[x][y]), R(e)[y] > 0), pat=lambda x, y: e.nb[x][y]))]
predict = Contract('predict', [Ob('t', KDT)], DATA + [('options', lambda e: And(e.this.options_.f['min_samples_'] == e.ms, e.this.options_.f['radius_'] == e.rad)), ('a tree over the samples', lambda e: over(e.t, e))], FIN,
    cls='DBSCAN', this=dict(options_=OPT), objs=OB, ghosts=G, result=VecOf(SZ), shapes=SHP, modifies=['t'],
    loops={0: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.n, e.loc('n_samples') == e.n)), *STATE(LL, VV_, CC), ('samples so far are visited', lambda e: forall(0, e.i, lambda x: VV_(e)[x], pat=lambda x: VV_(e).el[x])), decreases=lambda e: e.n - e.i)})
CONTRACTS = [search, inner, predict]
