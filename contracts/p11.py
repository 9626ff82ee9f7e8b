"""P11: Boruvka's algorithm.  Ghosts: rep (representative of every sample), pos (where a sample stands in its component), lab (any labelling of the samples)."""
from core import *
from engine import *
LEVEL_NOTE = "Proved on the real code of BoruvkasAlgorithm::make_tree, its rounds, Forest and the core distances, for every data set, number of neighbors and number of rounds: n-1 edges, each at its true (mutual-reachability) distance, connecting all samples (any labelling that is constant on the edges is constant), core distances are those of the k-th nearest sample, and Boruvka's certificate of minimality: every edge is a lightest one leaving a component of its round, one per component, earlier edges lie inside the components. Termination is proved except for the walk over the map in the lambda. Trusted: UnionFind (P10) and Searcher (P04, P06) by their proved contracts; that the certificate implies minimal total weight is the textbook cut argument (DESIGN.md), checked on the built program against Prim's algorithm by the harness. Assumed: the tree indexes every row once, finite distances. make_tree_2: bounded stand-in."
TU = ('p11.cpp', ('ffcl', 'rapidjson'))
A = AI(Int_); AB = AI(Bool_)
EDGE = Tup(SZ, SZ, RE)
UF = ('opaque',)
FOREST = Rec('Forest', minimum_spanning_tree_=VecOf(EDGE), representatives_to_components_map_=MapOf(VecOf(SZ)), union_find_=UF)
FT = dict(minimum_spanning_tree_=VecOf(EDGE), representatives_to_components_map_=MapOf(VecOf(SZ)), union_find_=UF)
GH = dict(rep=A, pos=A, lab=A, ns=Int_)
def reps(e): return And(e.ns >= 1, forall(0, e.ns, lambda x: And(0 <= e.rep[x], e.rep[x] < e.ns, e.rep[e.rep[x]] == e.rep[x]), pat=lambda x: e.rep[x]))
# union-find by its P10 contracts, representation hidden
def inr(e, *xs): return And(*[And(0 <= x, x < e.ns) for x in xs])
find = Contract('find', [Sc('i_')], [('index in range', lambda e: inr(e, e.i_))], [('representative', lambda e: e.result == e.rep[e.i_])], cls='UnionFind', ghosts=dict(rep=A, ns=Int_), result=SZ, trusted='proved in P10')
def lose(e): return If(e.result == e.old.rep[e.i1], e.old.rep[e.i2], e.old.rep[e.i1])
merge = Contract('merge', [Sc('i1'), Sc('i2')], [('indices in range', lambda e: inr(e, e.i1, e.i2))], [('one of the two representatives', lambda e: Or(e.result == e.old.rep[e.i1], e.result == e.old.rep[e.i2]))],
    cls='UnionFind', ghosts=dict(rep=A, ns=Int_), ghost_update=dict(rep=lambda e: Def(lambda x: If(e.old.rep[x] == lose(e), e.result, e.old.rep[x]))), result=SZ, trusted='proved in P10')
ufc = Contract('UnionFind', [Sc('n')], [], [], cls='UnionFind', ghosts=dict(rep=A), ghost_update=dict(rep=lambda e: Def(lambda x: x)), modifies=['this'], trusted='proved in P10')
# the forest
class F:
    def __init__(self, f):
        m = f['representatives_to_components_map_'].f; self.has, self.cl, self.cc = m['has'], m['val'].el.len, m['val'].el.el; v = f['minimum_spanning_tree_']; self.a, self.b, self.w, self.k = v.el.f['0'], v.el.f['1'], v.el.f['2'], v.len
def ft(e): return F({n: getattr(e.this, n) for n in FT if n != 'union_find_'})
def fp(e): return F(e.forest.f)
def K1(e, f): return forall_raw([Int_], lambda r: f.has[r] == And(0 <= r, r < e.ns, e.rep[r] == r), pat=lambda r: [f.has[r]])
def K2(e, f): return forall_raw([Int_, Int_], lambda r, j: Implies(And(0 <= r, r < e.ns, e.rep[r] == r, 0 <= j, j < f.cl[r]), And(0 <= f.cc[r][j], f.cc[r][j] < e.ns, e.rep[f.cc[r][j]] == r)), pat=lambda r, j: f.cc[r][j])
def K3(e, f): return forall(0, e.ns, lambda x: And(0 <= e.pos[x], e.pos[x] < f.cl[e.rep[x]], f.cc[e.rep[x]][e.pos[x]] == x), pat=lambda x: [e.pos[x], e.rep[x]])
def K4(e, f): return f.k + MSIZE(f.has) == e.ns
def K5(e, f): return forall(0, f.k, lambda j: And(0 <= f.a[j], f.a[j] < e.ns, 0 <= f.b[j], f.b[j] < e.ns, e.rep[f.a[j]] == e.rep[f.b[j]]), pat=lambda j: [f.a[j], f.b[j], f.w[j]])
def K6(e, f): return Implies(forall(0, f.k, lambda j: e.lab[f.a[j]] == e.lab[f.b[j]], pat=lambda j: f.a[j]), forall(0, e.ns, lambda x: e.lab[x] == e.lab[e.rep[x]], pat=lambda x: [e.rep[x]]))
def FI(g): return [('representatives', reps), ('one component per representative', lambda e: K1(e, g(e))), ('the samples of a component', lambda e: K2(e, g(e))), ('every sample is in its component', lambda e: K3(e, g(e))), ('one edge less per component', lambda e: K4(e, g(e))),
    ('edges lie within components', lambda e: K5(e, g(e))), ('components are connected by the edges', lambda e: K6(e, g(e)))]
ctor = Contract('Forest', [Sc('n')], [('samples', lambda e: And(e.n >= 1, e.n == e.ns))], FI(ft) + [('no edges', lambda e: ft(e).k == 0), ('every sample alone', lambda e: forall(0, e.ns, lambda x: e.rep[x] == x, pat=lambda x: e.rep[x]))], cls='Forest', this=FT, ghosts=GH, ghost_mod=['rep'], ghost_update=dict(pos=lambda e: Def(lambda x: IntVal(0))), modifies=['this'],
    loops={0: Loop(('samples so far', lambda e: And(0 <= e.i, e.i <= e.n, MSIZE(ft(e).has) == e.i, ft(e).k == 0)), ('alone', lambda e: And(forall_raw([Int_], lambda x: e.rep[x] == x, pat=lambda x: e.rep[x]), forall_raw([Int_], lambda r: ft(e).has[r] == And(0 <= r, r < e.i), pat=lambda r: ft(e).has[r]), forall(0, e.i, lambda r: And(ft(e).cl[r] == 1, ft(e).cc[r][0] == r), pat=lambda r: [ft(e).cl[r], ft(e).cc[r]]))), decreases=lambda e: e.n - e.i)})
nc = Contract('n_components', [], FI(ft)[:2], [('the number of components', lambda e: And(e.result == MSIZE(ft(e).has), e.result >= 1)), ('more than one: two different representatives', lambda e: Implies(e.result >= 2, two(e))), ('one: a single representative', lambda e: Implies(e.result <= 1, forall(0, e.ns, lambda x: e.rep[x] == e.rep[0], pat=lambda x: e.rep[x])))],
    cls='Forest', this=FT, ghosts=GH, result=SZ, at_return=[lambda e: And(ft(e).has[e.rep[0]], forall(0, e.ns, lambda x: ft(e).has[e.rep[x]], pat=lambda x: e.rep[x]))])
def merged(e, r0, r1, a, b):
    """r1 is r0 with the classes of a and b united under one of their representatives"""
    return Or(forall(0, e.ns, lambda x: r1[x] == If(r0[x] == r0[b], r0[a], r0[x]), pat=lambda x: r1[x]), forall(0, e.ns, lambda x: r1[x] == If(r0[x] == r0[a], r0[b], r0[x]), pat=lambda x: r1[x]))
def keepedges(f, o): return forall(0, o.k, lambda j: And(f.a[j] == o.a[j], f.b[j] == o.b[j], f.w[j] == o.w[j]), pat=lambda j: [f.a[j], f.b[j], f.w[j]])
def eg(e): return e.edge.f['0'], e.edge.f['1'], e.edge.f['2']
def mc(e):
    f, o = ft(e), ft(e.old); a, b, w = eg(e); same = e.old.rep[a] == e.old.rep[b]
    return And(keepedges(f, o), f.k == If(same, o.k, o.k + 1), Implies(Not(same), And(f.a[o.k] == a, f.b[o.k] == b, f.w[o.k] == w)))
def mr(e): a, b, w = eg(e); return If(e.old.rep[a] == e.old.rep[b], e.rep == e.old.rep, merged(e, e.old.rep, e.rep, a, b))
def newpos(e):
    a, b, w = eg(e); r0 = e.old.rep; win = e.rep[a]; lose = If(win == r0[a], r0[b], r0[a]); o = ft(e.old)
    return Def(lambda x: If(And(r0[a] != r0[b], r0[x] == lose), o.cl[win] + e.old.pos[x], e.old.pos[x]))
mcs = Contract('merge_components', [Ob('edge', EDGE)], FI(ft) + [('end points', lambda e: inr(e, *eg(e)[:2]))], FI(ft) + [('the edge is added unless its end points are connected', mc), ('the components of the end points are united', mr)],
    cls='Forest', this=FT, ghosts=GH, ghost_mod=['rep'], ghost_update=dict(pos=newpos), modifies=['this'])
# nearest samples outside a component: what P06 proves of Searcher::operator() on a buffer with a union-find
KD = Rec('KDTree', options_=('opaque',), samples_range_first_=('ptr', 's'), samples_range_last_=('ptr', 's'), n_samples_=SZ, n_features_=SZ, bound_=('opaque',), root_=('opaque',))
SEA = Rec('Searcher', tree_traverser_=Rec('TreeTraverser', reference_indexer_=KD))
OB = dict(s=VecOf(RE)); SG = dict(GH, nf=Int_)
BF = dict(indices_=VecOf(SZ), distances_=VecOf(RE), closest_index_=SZ, closest_distance_=RE, buffer_index_of_furthest_index_=SZ, furthest_distance_=RE, max_capacity_=SZ, query_representative_=SZ, bound_=('opaque',), union_find_const_reference_=('opaque',))
BF['q0!'] = SZ
BUF = Rec('WithUnionFind', **BF)
def D0(e, q0, y): return DIST(ROW(e.s.el, mul(y, e.nf), e.nf), ROW(e.s.el, q0, e.nf))
def DD(e, x, y): return D0(e, mul(x, e.nf), y)
bctor = Contract('WithUnionFind', [Itp('s', 'q0'), Itp('s', 'q1'), Skip(), Sc('rq'), Sc('c')], [('a row of the data', lambda e: And(0 <= e.q0, e.q1 == e.q0 + e.nf, e.q1 <= e.s.len)), ('capacity', lambda e: e.c >= 1)],
    [('query, component and capacity', lambda e: And(getattr(e.this, 'q0!') == e.q0, e.this.query_representative_ == e.rq, e.this.max_capacity_ == e.c))], cls='WithUnionFind', this=BF, objs=OB, ghosts=SG, modifies=['this'], trusted='proved in P06')
def A1(e): r = e.result.f; I, d, k = r['indices_'].el, r['distances_'].el, r['indices_'].len; return And(k == r['distances_'].len, forall(0, k, lambda j: And(0 <= I[j], I[j] < e.ns, e.rep[I[j]] != e.rep[e.b.f['query_representative_']], d[j] == D0(e, e.b.f['q0!'], I[j])), pat=lambda j: [I[j], d[j]]))
def A3(e):
    r = e.result.f; I, d, k = r['indices_'].el, r['distances_'].el, r['indices_'].len; D = lambda y: D0(e, e.b.f['q0!'], y)
    return forall(0, e.ns, lambda y: Or(e.rep[y] == e.rep[e.b.f['query_representative_']], And(0 <= e.at[y], e.at[y] < k, I[e.at[y]] == y), And(k == r['max_capacity_'], r['furthest_distance_'] <= D(y))), pat=lambda y: [e.rep[y]])
def A4(e): r = e.result.f; return And(r['indices_'].len <= r['max_capacity_'], r['max_capacity_'] == e.b.f['max_capacity_'])
def A5(e): r = e.result.f; d, k, b = r['distances_'].el, r['indices_'].len, r['buffer_index_of_furthest_index_']; return Implies(k > 0, And(0 <= b, b < k, r['furthest_distance_'] == d[b], forall(0, k, lambda j: d[j] <= d[b], pat=lambda j: d[j])))
sop = Contract('operator()', [Ob('b', BUF)], [('representatives', reps), ('a component', lambda e: inr(e, e.b.f['query_representative_'])), ('capacity', lambda e: e.b.f['max_capacity_'] >= 1)],
    [('every answer is a sample of another component at its distance', A1), ('answers are distinct, hence at most as many as samples', lambda e: e.result.f['indices_'].len <= e.ns), ('every sample of another component is returned unless the answer is full of samples at least as close', A3), ('never more than requested', A4), ('furthest', A5)],
    cls='Searcher', objs=OB, ghosts=SG, result=BUF, gres=dict(at=(A, None)), trusted='proved in P06')
def KDf(e): return e.searcher.f['tree_traverser_'].f['reference_indexer_'].f
DATA = [('the searcher indexes the rows of the data', lambda e: And(KDf(e)['samples_range_first_'].idx == 0, KDf(e)['samples_range_last_'].idx == e.s.len, KDf(e)['n_features_'] == e.nf, e.nf >= 1, e.s.len == mul(e.ns, e.nf))),
        ('rows lie within the data', lambda e: forall(0, e.ns, lambda x: And(0 <= mul(x, e.nf), mul(x, e.nf) + e.nf <= e.s.len), pat=lambda x: e.rep[x]))]
def finite(W): return lambda e: forall_raw([Int_, Int_], lambda x, y: Implies(inr(e, x, y), W(e)(x, y) < INF), pat=lambda x, y: z3.MultiPattern(e.rep[x], e.rep[y]))
W1 = lambda e: lambda x, y: DD(e, x, y)
# a round: every component adds a lightest edge that leaves it
def leaves(e, W, r0, a, b, w): return And(inr(e, a, b), r0[a] != r0[b], w == W(a, b))
def rnd1(e, W): f, o = fp(e), fp(e.old); return forall(o.k, f.k, lambda j: leaves(e, W(e), e.old.rep, f.a[j], f.b[j], f.w[j]), pat=lambda j: [f.a[j], f.b[j], f.w[j]])
def rnd2(e, W): f, o = fp(e), fp(e.old); r0 = e.old.rep; return forall_raw([Int_] * 3, lambda j, x, y: Implies(And(o.k <= j, j < f.k, inr(e, x, y), r0[x] == r0[f.a[j]], r0[y] != r0[x]), f.w[j] <= W(e)(x, y)), pat=lambda j, x, y: z3.MultiPattern(f.a[j], r0[x], r0[y]))
def rnd3(e): f, o = fp(e), fp(e.old); r0 = e.old.rep; return forall2(o.k, f.k, o.k, f.k, lambda i, j: Implies(i != j, r0[f.a[i]] != r0[f.a[j]]), pat=lambda i, j: z3.MultiPattern(f.a[i], f.a[j]))
def coarser(e): return forall_raw([Int_, Int_], lambda x, y: Implies(And(inr(e, x, y), e.old.rep[x] == e.old.rep[y]), e.rep[x] == e.rep[y]), pat=lambda x, y: z3.MultiPattern(e.rep[x], e.rep[y]))
CE = lambda e: e.locv('components_closest_edge').f
def ce(e): v = CE(e)['val'].el.f; return v['0'], v['1'], v['2']
def two(e): return exists(0, e.ns, lambda x: e.rep[x] != e.rep[0])
def two_(e): return [lambda e: exists(0, e.ns, lambda x: e.rep[x] != e.rep[e.r])]
def ROUND(W): return [('earlier edges are kept', lambda e: keepedges(fp(e), fp(e.old))), ('every new edge leaves a component', lambda e: rnd1(e, W)), ('no edge leaving that component is lighter', lambda e: rnd2(e, W)), ('components only grow', coarser), ('a component adds one edge', rnd3)]
def progress(e): return fp(e).k > fp(e.old).k
# the closest edges of the components looked at so far
def chas(e, i=None):
    i = e.i if i is None else i; return forall_raw([Int_], lambda r: CE(e)['has'][r] == And(fp(e).has[r], e.locv('__pos0')[r] < i), pat=lambda r: CE(e)['has'][r])
def cbest1(e, W, r): a, b, w = ce(e); return And(inr(e, a[r], b[r]), e.rep[a[r]] == r, e.rep[b[r]] != r, w[r] == W(e)(a[r], b[r]))
def closed(ix, W): return [('closest edges leave their components', lambda e: forall_raw([Int_], lambda r: Implies(And(fp(e).has[r], e.locv('__pos0')[r] < ix(e)), cbest1(e, W, r)), pat=lambda r: [CE(e)['has'][r], ce(e)[0][r]])),
    ('and no other edge that leaves them is lighter', lambda e: forall_raw([Int_, Int_], lambda x, y: Implies(And(inr(e, x, y), e.locv('__pos0')[e.rep[x]] < ix(e), e.rep[y] != e.rep[x]), ce(e)[2][e.rep[x]] <= W(e)(x, y)), pat=lambda x, y: z3.MultiPattern(e.rep[x], e.rep[y])))]
kk = lambda e: e.locv('__keys0')[e.j]      # e.j: position among the components, e.i: position in the component
def inner1(W): return lambda e: And(0 <= e.i, e.i <= fp(e).cl[kk(e)], If(e.i == 0, ce(e)[2][kk(e)] == INF, cbest1(e, W, kk(e))))
def inner2(W): return lambda e: forall_raw([Int_, Int_], lambda t, y: Implies(And(0 <= t, t < e.i, inr(e, y), e.rep[y] != kk(e)), ce(e)[2][kk(e)] <= W(e)(fp(e).cc[kk(e)][t], y)), pat=lambda t, y: z3.MultiPattern(fp(e).cc[kk(e)][t], e.rep[y]))
def SREQ(W): return FI(fp) + DATA + [('distances are finite', finite(W)), ('two components or more', two)]
def k2(e, d=0): return e.locv('__keys2')[e.i - d]
def more(e): return e.i < e.locv('__keys2').len
def h2a(e): k = k2(e); return Implies(more(e), And(CE(e)['has'][k], fp(e.old).has[k], e.old.rep[k] == k))
def chosen(e): f, o = fp(e), fp(e.old); r0 = e.old.rep; return forall(o.k, f.k, lambda j: And(CE(e)['has'][r0[f.a[j]]], e.locv('__pos2')[r0[f.a[j]]] < e.i, f.w[j] == ce(e)[2][r0[f.a[j]]]), pat=lambda j: [f.a[j], f.w[j]])
def LOOPS(W): return {0: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.locv('__keys0').len)), ('closest edges of the components so far', chas), *closed(lambda e: e.i, W), decreases=lambda e: e.locv('__keys0').len - e.i),
    1: Loop(('position', lambda e: And(0 <= e.j, e.j < e.locv('__keys0').len)), ('closest edges of the components so far', lambda e: chas(e, e.j + 1)), *closed(lambda e: e.j, W), ('the closest edge of this component so far', inner1(W)), ('no lighter edge from the samples so far', inner2(W)), decreases=lambda e: fp(e).cl[kk(e)] - e.i),
    2: Loop(*FI(fp), *[x for x in ROUND(W) if 'lighter' not in x[0]], ('new edges are the closest edges of components', chosen), ('progress after the first', lambda e: And(0 <= e.i, e.i <= e.locv('__keys2').len, If(e.i == 0, And(e.rep == e.old.rep, fp(e).k == fp(e.old).k), progress(e)))), decreases=lambda e: e.locv('__keys2').len - e.i, exit_hints=[lambda e: CE(e)['has'][e.old.rep[0]]], hints=[h2a])}
step = Contract('step_sequential', [Ob('searcher', SEA), Ob('forest', FOREST)], SREQ(W1), FI(fp) + ROUND(W1) + [('progress', progress)], cls='BoruvkasAlgorithm', objs=OB, ghosts=SG, ghost_mod=['rep', 'pos'], modifies=['forest'], loops=LOOPS(W1), types=r'^(?!.*CoreDistances)', name='BoruvkasAlgorithm::step_sequential(searcher, forest)')
# mutual reachability
CORE = Rec('CoreDistancesArray', data_=VecOf(RE), size_=SZ)
def cd(e): return e.core_distances.f['data_'].el
def mx(*v):
    m = v[0]
    for x in v[1:]: m = If(x > m, x, m)
    return m
W2 = lambda e: lambda x, y: mx(cd(e)[x], cd(e)[y], DD(e, x, y))
CREQ = [('a core distance per sample', lambda e: e.core_distances.f['data_'].len == e.ns)]
P3 = [Ob('searcher', SEA), Ob('core_distances', CORE), Ob('forest', FOREST)]
def E3(e): return e.closest_edge.f['0'], e.closest_edge.f['1'], e.closest_edge.f['2']
def okedge(e): a, b, w = E3(e); a0, b0, w0 = E3(e.old); return And(w <= w0, Or(And(a == a0, b == b0, w == w0), And(a == e.q, inr(e, b), e.rep[b] != e.r, w == W2(e)(a, b))))
ans = lambda e: e.locv('nn_buffer_query').f
uce = Contract('update_closest_edge', P3 + [Sc('r'), Sc('q'), Ob('closest_edge', EDGE)], [('representatives', reps)] + DATA + CREQ + [('a sample of the component', lambda e: And(inr(e, e.q, e.r), e.rep[e.r] == e.r, e.rep[e.q] == e.r)), ('another component', lambda e: exists(0, e.ns, lambda x: e.rep[x] != e.r))],
    [('the edge is kept or replaced by one that leaves the component from the sample', okedge), ('no edge that leaves the component from the sample is lighter', lambda e: forall(0, e.ns, lambda y: Implies(e.rep[y] != e.r, E3(e)[2] <= W2(e)(e.q, y)), pat=lambda y: e.rep[y]))],
    cls='BoruvkasAlgorithm', objs=OB, ghosts=SG, modifies=['closest_edge'],
    loops={0: Loop(('capacity', lambda e: And(1 <= e.i, e.i <= 2 * e.ns)), ('edge', okedge), decreases=lambda e: 2 * e.ns - e.i),
           1: Loop(('neighbor', lambda e: And(0 <= e.i, e.i <= ans(e)['indices_'].len)), ('edge', okedge), ('no lighter edge to the neighbors so far', lambda e: forall(0, e.i, lambda t: E3(e)[2] <= W2(e)(e.q, ans(e)['indices_'].el[t]), pat=lambda t: ans(e)['indices_'].el[t])), decreases=lambda e: ans(e)['indices_'].len - e.i)})
HB = dict(hints=[lambda e: fp(e).has[e.rep[0]]])
KW = dict(cls='BoruvkasAlgorithm', objs=OB, ghosts=SG, ghost_mod=['rep', 'pos'], modifies=['forest'])
step2 = Contract('step_sequential', P3, SREQ(W2) + CREQ, FI(fp) + ROUND(W2) + [('progress', progress)], loops=LOOPS(W2), types=r'CoreDistances', name='BoruvkasAlgorithm::step_sequential(searcher, core distances, forest)', **KW)
SR_ = lambda e: e.loc('smallest_component_representative')
def dual1(W):
    def g(e):
        c = e.locv('closest_edge').f; a, b, w = c['0'], c['1'], c['2']; r = SR_(e); return And(0 <= e.i, e.i <= fp(e).cl[r], If(e.i == 0, w == INF, And(inr(e, a, b), e.rep[a] == r, e.rep[b] != r, w == W(e)(a, b))))
    return g
def dual2(W): return lambda e: forall_raw([Int_, Int_], lambda t, y: Implies(And(0 <= t, t < e.i, inr(e, y), e.rep[y] != SR_(e)), e.locv('closest_edge').f['2'] <= W(e)(fp(e).cc[SR_(e)][t], y)), pat=lambda t, y: z3.MultiPattern(fp(e).cc[SR_(e)][t], e.rep[y]))
def DL(W): return {100: Loop(('a component', lambda e: And(fp(e).has[e.locv('found_it').idx], Or(e.locv('it').idx == -1, fp(e).has[e.locv('it').idx])))),
    0: Loop(('the lightest edge so far', dual1(W)), ('no lighter edge from the samples so far', dual2(W)), decreases=lambda e: fp(e).cl[SR_(e)] - e.i)}
dual = Contract('dual_component_step_sequential', [Ob('searcher', SEA), Ob('forest', FOREST)], SREQ(W1), FI(fp) + ROUND(W1) + [('progress', progress)], loops=DL(W1), types=r'^(?!.*CoreDistances)', name='BoruvkasAlgorithm::dual_component_step_sequential(searcher, forest)', **KW, **HB)
dualc = Contract('dual_component_step_sequential', P3, SREQ(W2) + CREQ, FI(fp) + ROUND(W2) + [('progress', progress)], loops=DL(W2), types=r'CoreDistances', name='BoruvkasAlgorithm::dual_component_step_sequential(searcher, core distances, forest)', **KW, **HB)
# core distances: what P04 proves of Searcher::operator() on a plain buffer
BU = {k: v for k, v in BF.items() if k not in ('query_representative_', 'union_find_const_reference_')}
UNS = Rec('Unsorted', **BU)
uctor = Contract('Unsorted', [Itp('s', 'q0'), Itp('s', 'q1'), Sc('c')], bctor.requires, [('query and capacity', lambda e: And(getattr(e.this, 'q0!') == e.q0, e.this.max_capacity_ == e.c))], cls='Unsorted', this=BU, objs=OB, ghosts=SG, modifies=['this'], trusted='proved in P07')
def kn1(e, q0, c, w, se, k): return And(0 < k, k <= c, forall(0, k, lambda j: And(inr(e, se[j]), D0(e, q0, se[j]) <= w), pat=lambda j: se[j]))
def kn2(e, se, k, at): return forall(0, k, lambda j: at[se[j]] == j, pat=lambda j: se[j])
def kn3(e, q0, c, w, se, k, at): return forall(0, e.ns, lambda y: Or(And(0 <= at[y], at[y] < k, se[at[y]] == y), And(k == c, w <= D0(e, q0, y))), pat=lambda y: at[y])
def kn4(e, q0, w, se, far): return And(0 <= far, w == D0(e, q0, se[far]))
rr = lambda e: (e.b.f['q0!'], e.b.f['max_capacity_'], e.result.f['furthest_distance_'])
uop = Contract('operator()', [Ob('b', UNS)], [('samples', lambda e: e.ns >= 1), ('capacity', lambda e: e.b.f['max_capacity_'] >= 1)],
    [('at most as many as requested', lambda e: kn1(e, *rr(e), e.se, e.sk)), ('distinct samples', lambda e: kn2(e, e.se, e.sk, e.at)), ('no sample left out is closer', lambda e: kn3(e, *rr(e), e.se, e.sk, e.at)), ('attained', lambda e: And(e.far < e.sk, kn4(e, rr(e)[0], rr(e)[2], e.se, e.far)))],
    cls='Searcher', objs=OB, ghosts=SG, result=UNS, gres=dict(at=(A, None), se=(A, None), sk=(Int_, None), far=(Int_, None)), types='Unsorted', trusted='proved in P04')
sop.types = 'WithUnionFind'
AA = AI(A)
def core_ok(e, core, i, g, c):
    """core[x], x < i, is the distance from x of its c-th nearest sample: the samples g.se[x], all others at least as far"""
    se, sk, at, far = g; q = lambda x: mul(x, e.nf)
    return [('selected samples', forall_raw([Int_, Int_], lambda x, j: Implies(And(0 <= x, x < i, 0 <= j, j < sk[x]), And(inr(e, se[x][j]), D0(e, q(x), se[x][j]) <= core[x], at[x][se[x][j]] == j)), pat=lambda x, j: se[x][j])),
            ('sizes', forall(0, i, lambda x: And(0 < sk[x], sk[x] <= c, 0 <= far[x], far[x] < sk[x], core[x] == D0(e, q(x), se[x][far[x]])), pat=lambda x: [sk[x], core[x]])),
            ('others', forall_raw([Int_, Int_], lambda x, y: Implies(And(0 <= x, x < i, inr(e, y)), Or(And(0 <= at[x][y], at[x][y] < sk[x], se[x][at[x][y]] == y), And(sk[x] == c, core[x] <= D0(e, q(x), y)))), pat=lambda x, y: at[x][y]))]
G4 = ('se', 'sk', 'at', 'far'); S4 = dict(se=AA, sk=A, at=AA, far=A)
lgs = lambda e: tuple(e.lg(g) for g in G4)
def gl(g): return (S4[g], (lambda e: fresh('g.' + g, S4[g])), lambda e: z3.Store(e.lg(g), e.head(0).i, e._st.vars['gh:' + g]))
CL = ['selected samples', 'sizes', 'others']
def cok(j, core, i, g, c): return lambda e: core_ok(e, core(e), i(e), g(e), c(e))[j][1]
DC = lambda e: e.locv('core_distances').f['data_']
core = Contract('make_static_core_distances', [Ob('searcher', SEA), Sc('k')], [('samples', lambda e: e.ns >= 1)] + DATA[:1] + [('rows lie within the data', lambda e: forall(0, e.ns, lambda x: And(0 <= mul(x, e.nf), mul(x, e.nf) + e.nf <= e.s.len), pat=lambda x: mul(x, e.nf))), ('a number of neighbors', lambda e: e.k >= 1)],
    [('one per sample', lambda e: e.result.f['data_'].len == e.ns)] + [('distance of the k-th nearest sample: ' + n, cok(j, lambda e: e.result.f['data_'].el, lambda e: e.ns, lambda e: tuple(e._st.vars['gh:' + g] for g in G4), lambda e: e.k)) for j, n in enumerate(CL)],
    cls=None, objs=OB, ghosts=SG, result=CORE, gres={g: (S4[g], (lambda g: lambda e: e.lg(g))(g)) for g in G4},
    loops={0: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.ns, DC(e).len == e.ns)), *[(n, cok(j, lambda e: DC(e).el, lambda e: e.i, lgs, lambda e: e.k)) for j, n in enumerate(CL)], decreases=lambda e: e.ns - e.i, ghost={g: gl(g) for g in G4})})
# the whole algorithm.  RR[p]: the components when round p began; rd[j]: the round that added edge j; nr: rounds so far
FO = lambda e: F(e.locv('forest').f)
OPT = Rec('Options', k_nearest_neighbors_=SZ)
def cert(W, f, RR, rd, nr):
    """Boruvka's certificate of minimality"""
    return [('weights', lambda e: forall(0, f(e).k, lambda j: And(inr(e, f(e).a[j], f(e).b[j]), f(e).w[j] == W(e)(f(e).a[j], f(e).b[j])), pat=lambda j: [f(e).a[j], f(e).b[j], f(e).w[j]])),
            ('every edge joins two components of its round', lambda e: forall(0, f(e).k, lambda j: And(0 <= rd(e)[j], rd(e)[j] < nr(e), RR(e)[rd(e)[j]][f(e).a[j]] != RR(e)[rd(e)[j]][f(e).b[j]]), pat=lambda j: [rd(e)[j], f(e).a[j]])),
            ('every edge is a lightest one leaving a component of its round', lambda e: forall_raw([Int_] * 3, lambda j, x, y: Implies(And(0 <= j, j < f(e).k, inr(e, x, y), RR(e)[rd(e)[j]][x] == RR(e)[rd(e)[j]][f(e).a[j]], RR(e)[rd(e)[j]][y] != RR(e)[rd(e)[j]][x]), f(e).w[j] <= W(e)(x, y)), pat=lambda j, x, y: z3.MultiPattern(RR(e)[rd(e)[j]][x], RR(e)[rd(e)[j]][y]))),
            ('no two edges of a round leave the same component', lambda e: forall2(0, f(e).k, 0, f(e).k, lambda i, j: Implies(And(i != j, rd(e)[i] == rd(e)[j]), RR(e)[rd(e)[i]][f(e).a[i]] != RR(e)[rd(e)[j]][f(e).a[j]]), pat=lambda i, j: z3.MultiPattern(rd(e)[i], rd(e)[j]))),
            ('edges of earlier rounds lie within components', lambda e: forall_raw([Int_, Int_], lambda i, p: Implies(And(0 <= i, i < f(e).k, rd(e)[i] < p, p < nr(e)), RR(e)[p][f(e).a[i]] == RR(e)[p][f(e).b[i]]), pat=lambda i, p: z3.MultiPattern(rd(e)[i], RR(e)[p])))]
lR = lambda e: e.lg('RR'); lr = lambda e: e.lg('rd'); ln = lambda e: e.lg('nr')
def rest(e): f = FO(e); return forall(0, f.k, lambda j: lr(e)[j] < ln(e), pat=lambda j: lr(e)[j])
def LG(o): return dict(RR=(AA, lambda e: fresh('RR', AA), lambda e: z3.Store(lR(e), ln(e), e.head(o).rep)), rd=(A, lambda e: fresh('rd', A), lambda e: Def(lambda j: If(j < FO(e.head(o)).k, lr(e)[j], ln(e)))), nr=(Int_, lambda e: IntVal(0), lambda e: ln(e) + 1))
def ML(o, W): return Loop(*FI(FO), *cert(W, FO, lR, lr, ln), ('rounds', lambda e: And(ln(e) >= 0)), decreases=lambda e: e.ns - FO(e).k, ghost=LG(o))
W3 = lambda e: lambda x, y: (lambda c: mx(c[x], c[y], DD(e, x, y)))(e.locv('core_distances').f['data_'].el)
def cw(e):
    try: return e.locv('core_distances').f['data_'].el
    except Detached: return fresh('core', AI(Real_))
def via(g): return lambda e: e._st.vars['gh:' + g] if 'gh:' + g in e._st.vars else fresh(g, S4[g])
KN = lambda e: e.old.this.options_.f['k_nearest_neighbors_']
WR = lambda e: lambda x, y: If(e.old.this.options_.f['k_nearest_neighbors_'] > 1, mx(e.core[x], e.core[y], DD(e, x, y)), DD(e, x, y))
RES = lambda e: F(dict(minimum_spanning_tree_=e.result, representatives_to_components_map_=mk(MapOf(VecOf(SZ)), 'x', [])))
mt = Contract('make_tree', [Ob('indexer', KD)], [('the indexer indexes the rows of the data', lambda e: And(e.ns >= 1, e.indexer.f['samples_range_first_'].idx == 0, e.indexer.f['samples_range_last_'].idx == e.s.len, e.indexer.f['n_features_'] == e.nf, e.nf >= 1, e.s.len == mul(e.ns, e.nf))),
      ('rows lie within the data', lambda e: forall_raw([Int_], lambda x: Implies(inr(e, x), And(0 <= mul(x, e.nf), mul(x, e.nf) + e.nf <= e.s.len)), pat=lambda x: mul(x, e.nf))), ('distances are finite', lambda e: forall_raw([Int_, Int_], lambda x, y: Implies(inr(e, x, y), DD(e, x, y) < INF), pat=lambda x, y: DD(e, x, y)))],
    [('one edge less than samples', lambda e: e.result.len == e.ns - 1), ('the edges connect all samples', lambda e: Implies(forall(0, e.result.len, lambda j: e.lab[e.result.el.f['0'][j]] == e.lab[e.result.el.f['1'][j]], pat=lambda j: e.result.el.f['0'][j]), forall(0, e.ns, lambda x: e.lab[x] == e.lab[0], pat=lambda x: e.lab[x])))] + cert(WR, RES, lambda e: e.RR, lambda e: e.rd, lambda e: e.nr)
    + [('core distances are those of the k-th nearest sample: ' + n, (lambda j: lambda e: Implies(KN(e) > 1, core_ok(e, e.core, e.ns, (e.se, e.sk, e.at, e.far), KN(e))[j][1]))(j)) for j, n in enumerate(CL)],
    cls='BoruvkasAlgorithm', this=dict(options_=OPT), objs=OB, ghosts=SG, ghost_mod=['rep', 'pos'], result=VecOf(EDGE), gres=dict(RR=(AA, lR), rd=(A, lr), nr=(Int_, ln), core=(AI(Real_), cw), **{g: (S4[g], via(g)) for g in G4}), modifies=['indexer'], loops={0: ML(0, W3), 1: ML(1, W1)})
kopt = Contract('k_nearest_neighbors', [Sc('k')], [], [('kept', lambda e: e.this.k_nearest_neighbors_ == e.k)], cls='Options', this=dict(k_nearest_neighbors_=SZ), modifies=['this'], result=('opaque',))
oeq = Contract('operator=', [Ob('o', OPT)], [], [('copied', lambda e: e.this.k_nearest_neighbors_ == e.o.f['k_nearest_neighbors_'])], cls='Options', this=dict(k_nearest_neighbors_=SZ), modifies=['this'], result=('opaque',))
opt_ok = [('options kept', lambda e: e.this.options_.f['k_nearest_neighbors_'] == e.o.f['k_nearest_neighbors_'])]
bct = Contract('BoruvkasAlgorithm', [Ob('o', OPT)], [], opt_ok, cls='BoruvkasAlgorithm', this=dict(options_=OPT), modifies=['this'])
sopt = Contract('set_options', [Ob('o', OPT)], [], opt_ok, cls='BoruvkasAlgorithm', this=dict(options_=OPT), modifies=['this'], result=('opaque',))
CONTRACTS = [kopt, oeq, bct, sopt, find, merge, ufc, ctor, nc, mcs, bctor, sop, step, uce, step2, dual, dualc, uctor, uop, core, mt]
