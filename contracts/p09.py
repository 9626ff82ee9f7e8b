"""P09: closest pair of two sets of samples."""
from core import *
from engine import *
from shared import *
LEVEL_NOTE = 'Direct search between two index sets and the dual-tree search (Searcher, traversal, pruning, buffers, queue of the k shortest edges) proved for all inputs, given well-formed trees (P03) and box distances that bound the distances of the samples below (P08); variants with union-find, memory or core distances are bounded.'
TU = ('p09.cpp', ('ffcl',))
EDGE = Tup(SZ, SZ, RE)
def row(v, i, f): return ROW(v.el, mul(i, f), f)
def dd(e, x, y): return DIST(row(e.s, x, e.n), row(e.t, y, e.n))
def edge(t): return t.f['0'], t.f['1'], t.f['2']
def in_rows(e): return And(forall(0, e.a.len, lambda k: And(e.a.el[k] >= 0, mul(e.a.el[k], e.n) + e.n <= e.s.len), pat=lambda k: e.a.el[k]), forall(0, e.b.len, lambda k: And(e.b.el[k] >= 0, mul(e.b.el[k], e.n) + e.n <= e.t.len), pat=lambda k: e.b.el[k]))
# done(i, j): every pair of rows before i, and of row i before j, has been compared
def best(e, r, done):
    def f(x, y): d = dd(e, e.a.el[x], e.b.el[y]); return Implies(And(done(x, y), d > 0), edge(r)[2] <= d)
    return forall2(0, e.a.len, 0, e.b.len, f, pat=lambda x, y: z3.MultiPattern(e.a.el[x], e.b.el[y]))
def source(e, r):
    i, j, d = edge(r); i0, j0, d0 = edge(e.init)
    return Or(And(i == i0, j == j0, d == d0), And(e.ina[i], e.inb[j], d == dd(e, i, j), d > 0, d < d0))
cur = lambda e: e.locv('shortest_edge')
upto = lambda i, j: lambda x, y: Or(x < i, And(x == i, y < j))
simple = Contract('simple_dual_set_shortest_edge', [Itp('a', 0), Itp('a', 'a1'), Itp('s', 0), Itp('s', 's1'), Sc('n'), Itp('b', 0), Itp('b', 'b1'), Itp('t', 0), Itp('t', 't1'), Sc('m'), Ob('init', EDGE)],
    [('whole sets', lambda e: And(e.a1 == e.a.len, e.b1 == e.b.len, e.n == e.m, e.n >= 1)), ('indices are rows', in_rows),
     ('the two sets', lambda e: And(forall(0, e.a.len, lambda k: e.ina[e.a.el[k]], pat=lambda k: e.a.el[k]), forall(0, e.b.len, lambda k: e.inb[e.b.el[k]], pat=lambda k: e.b.el[k])))],
    [('the initial edge, or an edge between a sample of the first and a sample of the second set at its true distance above zero', lambda e: source(e, e.result)),
     ('no pair of samples at a distance above zero is closer', lambda e: best(e, e.result, lambda x, y: True)), ('never longer than the initial edge', lambda e: edge(e.result)[2] <= edge(e.init)[2])],
    objs=dict(a=VecOf(SZ), b=VecOf(SZ), s=VecOf(RE), t=VecOf(RE)), ghosts=dict(ina=AI(Bool_), inb=AI(Bool_)), result=EDGE,
    loops={0: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.a1)), ('source of the edge', lambda e: source(e, cur(e))), ('best so far', lambda e: best(e, cur(e), lambda x, y: x < e.i)), ('never longer', lambda e: edge(cur(e))[2] <= edge(e.init)[2]), decreases=lambda e: e.a1 - e.i),
           1: Loop(('position', lambda e: And(0 <= e.i, e.i <= e.b1)), ('source of the edge', lambda e: source(e, cur(e))), ('best so far', lambda e: best(e, cur(e), upto(e.j, e.i))), ('never longer', lambda e: edge(cur(e))[2] <= edge(e.init)[2]), decreases=lambda e: e.b1 - e.i)})
# ---------------------------------------------------------------- dual tree
import p07
from search import node_shape, N
p07.maxpair.trusted = 'proved in P07'
# x occurs among the first n elements of I; WH is where
HAS = z3.Function('HAS', AI(Int_), Int_, Int_, Bool_); WH = z3.Function('WH', AI(Int_), Int_, Int_, Int_)
# pigeonhole: k positions mapped one to one into n <= k ones reach every one of them
PIG = z3.Function('PIG', AI(Int_), Int_, Int_, Bool_); PGOOD = z3.Function('PGOOD', AI(Int_), Int_, Int_, Bool_); PINV = z3.Function('PINV', AI(Int_), Int_, Int_, Int_, Int_); PB = [z3.Function(f'PB{i}', AI(Int_), Int_, Int_, Int_) for i in range(3)]
def _ax():
    I = z3.Const('hI!', AI(Int_)); n, x, j, k, t = z3.Ints('hn! hx! hj! hk! ht!'); w = WH(I, n, x); b = [f(I, k, n) for f in PB]; v = PINV(I, k, n, t)
    AXIOMS['HAS'] = [FA([I, n, x], Implies(HAS(I, n, x), And(0 <= w, w < n, I[w] == x)), HAS(I, n, x)), FA([I, n, x, j], Implies(And(0 <= j, j < n, I[j] == x), HAS(I, n, x)), z3.MultiPattern(HAS(I, n, x), I[j]))]
    AXIOMS['PIG'] = [FA([I, k, n], PIG(I, k, n), PIG(I, k, n)), FA([I, k, n], Or(And(0 <= b[0], b[0] < k, Or(I[b[0]] < 0, I[b[0]] >= n)), And(0 <= b[1], b[1] < b[2], b[2] < k, I[b[1]] == I[b[2]]), k < 0, n < 0, n > k, And(n == k, PGOOD(I, k, n))), PIG(I, k, n)),
                     FA([I, k, n, t], Implies(And(PGOOD(I, k, n), 0 <= t, t < n), And(0 <= v, v < k, I[v] == t)), v)]
_ax()
ASSUMED['PIG'] = 'pigeonhole principle: its induction step and its consequence are discharged as lemmas, the induction itself is on paper'
MAP = 'queries_to_buffers_map_'
VIEW = Rec('UnboundedBallView', centroid_features_range_first_=('ptr', 's'), centroid_features_range_last_=('ptr', 's'))
SHAPES = {'UnboundedBallView.centroid_features_range_first_': ('ptr', 's'), 'UnboundedBallView.centroid_features_range_last_': ('ptr', 's')}
BUF = Rec('Unsorted', bound_=VIEW, indices_=VecOf(SZ), distances_=VecOf(RE), closest_index_=SZ, closest_distance_=RE, buffer_index_of_furthest_index_=SZ, furthest_distance_=RE, max_capacity_=SZ)
OBJS = dict(nodes=VecOf(node_shape(SZ)), idx=VecOf(SZ), s=VecOf(RE), t=VecOf(RE))
# one buffer: this
class B:
    def __init__(self, o): g = (lambda n: o.f[n]) if isinstance(o, SV) else (lambda n: getattr(o, n)); self.I, self.D, self.n, self.dn, self.fi, self.fd, self.cd, self.cap = g('indices_').el, g('distances_').el, g('indices_').len, g('distances_').len, g('buffer_index_of_furthest_index_'), g('furthest_distance_'), g('closest_distance_'), g('max_capacity_'); self.c0, self.c1 = (g('bound_').f['centroid_features_range_%s_' % x].idx for x in ('first', 'last'))
def tb(e): return B(e.this)
def W1(e): b = tb(e); return And(0 <= b.n, b.n <= b.cap, b.cap >= 1, b.dn == b.n, Implies(b.n > 0, And(0 <= b.fi, b.fi < b.n, b.D[b.fi] == b.fd)), Implies(b.n == 0, b.fi == 0))
def W2(e): b = tb(e); return forall(0, b.n, lambda j: And(b.D[j] <= b.fd, b.cd <= b.D[j]), pat=lambda j: b.D[j])
def W3(e): b = tb(e); return forall2(0, b.n, 0, b.n, lambda i, j: Implies(i != j, b.I[i] != b.I[j]), pat=lambda i, j: z3.MultiPattern(b.I[i], b.I[j]))
WB = [('sizes and the furthest position', W1), ('furthest and closest distance', W2), ('no index twice', W3)]
def exact(e):
    b, o = tb(e), tb(e.old)
    return And(b.cap == o.cap, If(o.n < o.cap, And(b.n == o.n + 1, b.I == z3.Store(o.I, o.n, e.i_), b.D == z3.Store(o.D, o.n, e.d)), If(e.d < o.fd, And(b.n == o.n, b.I == z3.Store(o.I, o.fi, e.i_), b.D == z3.Store(o.D, o.fi, e.d)), And(b.n == o.n, b.I == o.I, b.D == o.D, b.fd == o.fd))),
        Implies(o.n == o.cap, b.fd <= o.fd))
BF = ['indices_', 'distances_', 'closest_index_', 'closest_distance_', 'buffer_index_of_furthest_index_', 'furthest_distance_']
TB = {f: BUF[1][f] for f in BUF[1]}
upd = Contract('update_impl', [Sc('i_'), Sc('d', RE)], WB + [('not held yet', lambda e: forall(0, tb(e).n, lambda j: tb(e).I[j] != e.i_, pat=lambda j: tb(e).I[j]))], WB + [('added when there is room, put in place of the furthest when closer, ignored otherwise', exact)],
    cls='Unsorted', this=TB, modifies=['this.' + f for f in BF], shapes=SHAPES, objs=dict(s=VecOf(RE)))
def rowt(e, x): return ROW(e.t.el, mul(x, e.nf), e.nf)
def bd(e, x): return DIST(rowt(e, x), ROW(e.s.el, tb(e).c0, e.nf))
def P1(e): b = tb(e); return forall(0, b.n, lambda j: And(b.D[j] == bd(e, b.I[j]), b.D[j] < INF), pat=lambda j: [b.I[j], b.D[j]])
def P0(e): b = tb(e); return And(0 <= b.c0, b.c1 == b.c0 + e.nf, b.c1 <= e.s.len, e.nf >= 1)
REFS = lambda e, a, z: forall(a, z, lambda p: And(e.idx.el[p] >= 0, mul(e.idx.el[p], e.nf) + e.nf <= e.t.len, e.rinv[e.idx.el[p]] == p), pat=lambda p: e.idx.el[p])
def cov(e, a, z): b = tb(e); return forall(a, z, lambda p: Or(HAS(b.I, b.n, e.idx.el[p]), And(b.n == b.cap, b.fd <= bd(e, e.idx.el[p]))), pat=lambda p: e.idx.el[p])
def src(e, a, z): b, o = tb(e), tb(e.old); return forall(0, b.n, lambda j: Or(HAS(o.I, o.n, b.I[j]), And(a <= e.rinv[b.I[j]], e.rinv[b.I[j]] < z, e.idx.el[e.rinv[b.I[j]]] == b.I[j])), pat=lambda j: b.I[j])
def kept(e): b, o = tb(e), tb(e.old); return And(b.cap == o.cap, Implies(o.n == o.cap, And(b.n == b.cap, b.fd <= o.fd)), forall(0, o.n, lambda j: Or(HAS(b.I, b.n, o.I[j]), And(b.n == b.cap, b.fd <= o.D[j])), pat=lambda j: o.I[j]))
def absent(e, a, z): b = tb(e); return forall2(0, b.n, a, z, lambda j, p: b.I[j] != e.idx.el[p], pat=lambda j, p: z3.MultiPattern(b.I[j], e.idx.el[p]))
def ps(fn, cls): return Contract(fn, [Itp('idx', 'a'), Itp('idx', 'z'), Itp('t', 0), Itp('t', 't1'), Sc('n')],
    [('a range', lambda e: And(e.a <= e.z, e.n == e.nf, e.t1 == e.t.len)), ('the query', P0), ('reference indices are distinct rows', lambda e: REFS(e, e.a, e.z))] + WB + [('distances to the query', P1), ('none of the range is held', lambda e: absent(e, e.a, e.z))],
    WB + [('distances to the query', P1), ('every sample of the range is held, or the buffer is full of ones at most as far', lambda e: cov(e, e.a, e.z)), ('every held sample was held before or is of the range', lambda e: src(e, e.a, e.z)), ('a held sample leaves only a buffer that is full of ones at most as far', kept)],
    cls=cls, derived='Unsorted' if cls == 'StaticBuffer' else None, this=TB, modifies=['this.' + f for f in BF], shapes=SHAPES, objs=dict(idx=VecOf(SZ), s=VecOf(RE), t=VecOf(RE)), ghosts=dict(nf=Int_, rinv=AI(Int_)),
    loops={0: Loop(('position', lambda e: And(e.a <= e.i, e.i <= e.z)), *WB, ('distances', P1), ('covered so far', lambda e: cov(e, e.a, e.i)), ('source', lambda e: src(e, e.a, e.i)), ('kept', kept), ('the rest is not held', lambda e: absent(e, e.i, e.z)), decreases=lambda e: e.z - e.i,
        end_hints=[step])} if fn.endswith('impl') else {})
def step(e):
    # where the samples held at the head of the iteration are now
    b, o = tb(e), tb(e.head(0)); x = e.idx.el[e.i - 1]
    return And(HAS(b.I, b.n, x) == HAS(b.I, b.n, x), True)
psi, psb = ps('partial_search_impl', 'Unsorted'), ps('partial_search', 'StaticBuffer')
# ---- the map of buffers, the queue of the k shortest edges, the limits of the query nodes
LIM = 'query_nodes_to_bounds_limits_map_'
TH = {MAP: MapOf(BUF), 'kth_closest_edge_priority_queue_': PqOf(EDGE, 'kth_shortest_edge_less_than_comparator_'), 'priority_queue_visited_combinations_set_': SET2, 'visited_nodes_combinations_': SET2, LIM: MapOf(Rec('BoundsLimits', closest_limit=RE, furthest_limit=RE)),
      'query_samples_range_first_': ('ptr', 's'), 'query_samples_range_last_': ('ptr', 's'), 'query_n_features_': SZ, 'reference_samples_range_first_': ('ptr', 't'), 'reference_samples_range_last_': ('ptr', 't'), 'reference_n_features_': SZ}
# Q0, Q1, R0, R1: the positions of the query and of the reference indices; qinv, rinv: inverses; k: the number of edges asked for
GH = dict(k=Int_, nf=Int_, qinv=AI(Int_), rinv=AI(Int_), Q0=Int_, Q1=Int_, R0=Int_, R1=Int_)
def mo(e): return p07.Obj(e.map) if 'map' in e._b else e.this
def g(e, a, b): return DIST(rowt(e, b), ROW(e.s.el, mul(a, e.nf), e.nf))
def qp(e, a): return And(e.Q0 <= e.qinv[a], e.qinv[a] < e.Q1, e.idx.el[e.qinv[a]] == a)
def rp(e, b): return And(e.R0 <= e.rinv[b], e.rinv[b] < e.R1, e.idx.el[e.rinv[b]] == b)
def D1(e):
    m = mo(e)
    return And(m.query_samples_range_first_.idx == 0, m.query_n_features_ == e.nf, m.reference_samples_range_first_.idx == 0, m.reference_samples_range_last_.idx == e.t.len, m.reference_n_features_ == e.nf, e.nf >= 1, e.k >= 1, e.k < 2 ** 64, 0 <= e.Q0, e.Q0 <= e.Q1, e.Q1 <= e.idx.len, 0 <= e.R0, e.R0 <= e.R1, e.R1 <= e.idx.len)
def D2(e): return forall(e.Q0, e.Q1, lambda p: And(e.idx.el[p] >= 0, mul(e.idx.el[p], e.nf) + e.nf <= e.s.len, e.qinv[e.idx.el[p]] == p), pat=lambda p: e.idx.el[p])
def D3(e): return REFS(e, e.R0, e.R1)
DATA = [('indexers over the data', D1), ('query indices are distinct rows', D2), ('reference indices are distinct rows', D3)]
class Q:
    """the priority queue of the k shortest edges"""
    def __init__(self, e):
        m = mo(e); p = m.kth_closest_edge_priority_queue_.f; v = p['v#']; self.n, self.top, self.pos = v.len, p['top#'], p['pos#']; self.a, self.b, self.d = (v.el.f[c] for c in '012'); self.vis = m.priority_queue_visited_combinations_set_.f['mem']
        self.dtop = self.d[self.top]; self.full = self.n == e.k
    def drop(self, d): return And(self.full, self.dtop <= d)      # k edges at most as long are in the queue
def Q1(e): q = Q(e); return And(0 <= q.n, q.n <= e.k, Implies(q.n > 0, And(0 <= q.top, q.top < q.n)), forall(0, q.n, lambda j: q.d[j] <= q.dtop, pat=lambda j: q.d[j]))
def Q2(e): q = Q(e); return forall(0, q.n, lambda j: And(q.vis[q.a[j]][q.b[j]], q.pos[q.a[j]][q.b[j]] == j, q.d[j] == g(e, q.a[j], q.b[j]), qp(e, q.a[j]), rp(e, q.b[j])), pat=lambda j: [q.a[j], q.b[j], q.d[j]])
def Q3(e): q = Q(e); return forall_raw([Int_, Int_], lambda a, b: Implies(q.vis[a][b], And(0 <= q.pos[a][b], q.pos[a][b] < q.n, q.a[q.pos[a][b]] == a, q.b[q.pos[a][b]] == b)), pat=lambda a, b: q.vis[a][b])
def mono(e, o):
    q, p = Q(e), Q(o)
    return And(Implies(p.full, And(q.full, q.dtop <= p.dtop)), forall_raw([Int_, Int_], lambda a, b: Implies(p.vis[a][b], Or(q.vis[a][b], q.drop(g(e, a, b)))), pat=lambda a, b: p.vis[a][b]))
QI = [('the queue holds at most k edges, its top the longest', Q1), ('every edge in the queue is a pair at its true distance, recorded once', Q2), ('every recorded pair is in the queue', Q3)]
MONO = [('an edge leaves the queue only when k edges at most as long stay', lambda e: mono(e, e.old))]
def C(e, a, b): q = Q(e); return Or(q.vis[a][b], q.drop(g(e, a, b)))
def has(e): return getattr(mo(e), MAP).f['has']
def buf(e, i): return B(sel(getattr(mo(e), MAP).f['val'].el, i))
# invariant of the buffers, without the query x (None: all)
def one(e, i, full=True):
    b = buf(e, i); q = Q(e)
    return And(i >= 0, qp(e, i), 0 <= b.n, b.n <= e.k, b.dn == b.n, b.cap == e.k, b.c0 == mul(i, e.nf), b.c1 == b.c0 + e.nf, Implies(b.n > 0, And(0 <= b.fi, b.fi < b.n, b.D[b.fi] == b.fd)), Implies(b.n == 0, b.fi == 0), Implies(b.n == e.k, q.drop(b.fd)) if full else True)
def B1(e): return forall_raw([Int_], lambda i: Implies(has(e)[i], one(e, i)), pat=lambda i: has(e)[i])
def oneB2(e, i, j): b = buf(e, i); return And(b.D[j] <= b.fd, b.cd <= b.D[j], b.D[j] == g(e, i, b.I[j]), b.D[j] < INF, rp(e, b.I[j]))
def B2(e): return forall_raw([Int_, Int_], lambda i, j: Implies(And(has(e)[i], 0 <= j, j < buf(e, i).n), oneB2(e, i, j)), pat=lambda i, j: [buf(e, i).I[j], buf(e, i).D[j]])
def B3(e): return forall_raw([Int_, Int_, Int_], lambda i, j, l: Implies(And(has(e)[i], 0 <= j, j < buf(e, i).n, 0 <= l, l < buf(e, i).n, j != l), buf(e, i).I[j] != buf(e, i).I[l]), pat=lambda i, j, l: z3.MultiPattern(buf(e, i).I[j], buf(e, i).I[l]))
BI = [('every buffer belongs to a query, and a full one means a full queue of edges at most as long as its furthest', B1), ('a buffer holds references at their true distance', B2), ('a buffer holds no reference twice', B3)]
def L1(e): l = getattr(mo(e), LIM).f; c, f = l['val'].el.f['closest_limit'], l['val'].el.f['furthest_limit']; q = Q(e); return forall_raw([Int_], lambda m: Implies(And(l['has'][m], c[m] < INF), And(f[m] >= c[m], q.drop(c[m]))), pat=lambda m: [l['has'][m], c[m]])
LI = [('a finite closest limit of a node means a full queue of edges at most as long', L1)]
INV = DATA + QI + BI + LI
QF = ['kth_closest_edge_priority_queue_', 'priority_queue_visited_combinations_set_']
KW = dict(cls='IndicesToBuffersMap', this=TH, shapes=SHAPES, objs=OBJS, heaps={'KDNodeView': 'nodes'})
POSOF = named_array('POSOF', [AI(Int_), AI(Int_)], Int_, lambda p, I, j: p[I[j]])
def held(e, upto=None): b, q = buf(e, e.i_), Q(e); return forall(0, b.n if upto is None else upto, lambda j: Or(q.vis[e.i_][b.I[j]], q.drop(b.D[j])), pat=lambda j: [b.I[j], b.D[j]])
def pig(e): b, q = buf(e, e.i_), Q(e); return PIG(POSOF(q.pos[e.i_], b.I), e.k, q.n)
def pig2(e): b, q = buf(e, e.i_), Q(e); P = POSOF(q.pos[e.i_], b.I); v = PINV(P, e.k, q.n, q.top); return Implies(And(b.n == e.k, PGOOD(P, e.k, q.n), q.n == e.k), And(0 <= v, v < e.k, P[v] == q.top, Or(q.drop(b.D[v]), q.d[q.top] == b.D[v])))
ll = lambda e: buf(e, e.i_).n
THIS1 = [('the buffer of a query', lambda e: And(has(e)[e.i_], one(e, e.i_, False))), ('references at their true distance', lambda e: forall(0, ll(e), lambda j: oneB2(e, e.i_, j), pat=lambda j: [buf(e, e.i_).I[j], buf(e, e.i_).D[j]])),
         ('no reference twice', lambda e: forall2(0, ll(e), 0, ll(e), lambda j, l: Implies(j != l, buf(e, e.i_).I[j] != buf(e, e.i_).I[l]), pat=lambda j, l: z3.MultiPattern(buf(e, e.i_).I[j], buf(e, e.i_).I[l])))]
upq = Contract('update_priority_queue', [Mit(MAP, 'i_')], DATA + QI + THIS1,
    QI + [('every edge of the buffer is in the queue, or k edges at most as long are', held)] + MONO + [('a full buffer means a full queue of edges at most as long', lambda e: Implies(ll(e) == e.k, Q(e).drop(buf(e, e.i_).fd)))],
    modifies=['this.' + f for f in QF], ghosts=GH, at_return=[pig, pig2],
    loops={0: Loop(*QI, ('nothing to drop', lambda e: And(mono(e, e.old), Q(e).n == Q(e.old).n)), decreases=lambda e: Q(e).n),
           1: Loop(('position', lambda e: And(0 <= e.i, e.i <= ll(e), Q(e).n <= Q(e.old).n + e.i)), *QI, ('offered so far', lambda e: held(e, e.i)), ('monotone', lambda e: mono(e, e.old)), decreases=lambda e: ll(e) - e.i),
           2: Loop(('position', lambda e: And(0 <= e.i, e.i <= ll(e))), *QI, ('offered so far', lambda e: held(e, e.i)), ('monotone', lambda e: mono(e, e.old)), decreases=lambda e: ll(e) - e.i)}, **KW)
def covQ(e, a, z): return forall2(a, z, e.ra, e.rz, lambda p, r: C(e, e.idx.el[p], e.idx.el[r]), pat=lambda p, r: z3.MultiPattern(e.idx.el[p], e.idx.el[r]))
def fresh_pairs(e, a, z): return forall_raw([Int_, Int_], lambda p, j: Implies(And(a <= p, p < z, has(e)[e.idx.el[p]], 0 <= j, j < buf(e, e.idx.el[p]).n), Or(e.rinv[buf(e, e.idx.el[p]).I[j]] < e.ra, e.rinv[buf(e, e.idx.el[p]).I[j]] >= e.rz)), pat=lambda p, j: buf(e, e.idx.el[p]).I[j])
def bsrc(e, o, a, z):
    """a sample in a buffer was there before, or pairs a query of [a, z) with a reference of the range"""
    def f(i, j): b, c = buf(e, i), buf(o, i); x = b.I[j]; return Implies(And(has(e)[i], 0 <= j, j < b.n), Or(And(has(o)[i], HAS(c.I, c.n, x)), And(a <= e.qinv[i], e.qinv[i] < z, e.ra <= e.rinv[x], e.rinv[x] < e.rz)))
    return forall_raw([Int_, Int_], f, pat=lambda i, j: buf(e, i).I[j])
psq = Contract('partial_search_for_each_query', [Itp('idx', 'qa'), Itp('idx', 'qz'), Itp('idx', 'ra'), Itp('idx', 'rz'), Sc('c')],
    INV + [('ranges of queries and references', lambda e: And(e.c == e.k, e.Q0 <= e.qa, e.qa <= e.qz, e.qz <= e.Q1, e.R0 <= e.ra, e.ra <= e.rz, e.rz <= e.R1)), ('these pairs are new', lambda e: fresh_pairs(e, e.qa, e.qz))],
    INV + MONO + [('every pair of the ranges is in the queue, or k edges at most as long are', lambda e: covQ(e, e.qa, e.qz)), ('only pairs of the ranges entered a buffer', lambda e: bsrc(e, e.old, e.qa, e.qz))],
    modifies=['this.' + f for f in QF + [MAP]], ghosts=GH,
    loops={0: Loop(('position', lambda e: And(e.qa <= e.i, e.i <= e.qz)), *INV, ('monotone', lambda e: mono(e, e.old)), ('covered so far', lambda e: covQ(e, e.qa, e.i)), ('only new pairs entered a buffer', lambda e: bsrc(e, e.old, e.qa, e.i)), ('the others are new', lambda e: fresh_pairs(e, e.i, e.qz)), decreases=lambda e: e.qz - e.i)}, **KW)
# ---- pruning: md is the distance of two bounds
MDG = dict(md=AI(AI(Real_)))
def nd(e): return N(e)
def bnd(e, m): return e.nodes.el.f['bound_'][m]
mind = Contract('min_distance', [Sc('x'), Sc('y')], [], [('the distance of the two bounds', lambda e: e.result == e.md[e.x][e.y])], ghosts=MDG, result=RE, trusted='the distance of two bounds is at most that of any two points in them (P08); the bounds of a node contain its samples (P03)')
diam = Contract('diameter', [], [], [('not negative', lambda e: e.result >= 0)], cls='KDNodeView', this_in=('nodes', 'self'), objs=dict(nodes=VecOf(node_shape(SZ))), result=RE, heaps={'KDNodeView': 'nodes'}, trusted='the diameter of a box is not negative (P08)')
def lim(e): l = getattr(mo(e), LIM).f; return l['has'], l['val'].el.f['closest_limit'], l['val'].el.f['furthest_limit']
def qnode(e, m): t = nd(e); return And(t.valid(m), e.Q0 <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= e.Q1)
KIDS = ('children of a node', lambda e: forall(0, nd(e).len, lambda m: Or(nd(e).leaf(m), And(nd(e).valid(nd(e).L[m]), nd(e).valid(nd(e).R[m]))), pat=lambda m: nd(e).L[m]))
NQ = [('a query node', lambda e: qnode(e, e.q)), KIDS]
ubl = Contract('update_bounds_limits', [Pt('nodes', 'q')], INV + NQ[:1], LI + [('the node has limits', lambda e: And(lim(e)[0][e.q], e.result.idx == e.q)), ('no other node gets limits', lambda e: forall_raw([Int_], lambda m: Implies(lim(e)[0][m], Or(m == e.q, lim(e.old)[0][m])), pat=lambda m: lim(e)[0][m]))],
    modifies=['this.' + LIM], ghosts=GH, result=lambda e: It(LV(e._b['this'].root, tuple(e._b['this'].path) + (('f', LIM), ('f', '[map]'))), fresh('limits', Int_)),
    loops={0: Loop(('position', lambda e: And(nd(e).lo[e.q] <= e.i, e.i <= nd(e).hi[e.q])), *LI, ('limits of the node', lambda e: lim(e)[0][e.q]), ('no other node', lambda e: forall_raw([Int_], lambda m: Implies(lim(e)[0][m], Or(m == e.q, lim(e.old)[0][m])), pat=lambda m: lim(e)[0][m])), decreases=lambda e: nd(e).hi[e.q] - e.i)}, **KW)
def safe(e, r): q = Q(e); return Or(r >= INF, q.drop(r))
qfb = Contract('query_node_furthest_bound', [Pt('nodes', 'q')], INV + NQ, LI + [('infinite, or k edges at most as long are in the queue', lambda e: safe(e, e.result))], modifies=['this.' + LIM], ghosts=GH, result=RE, **KW)
def rnode(e, m): t = nd(e); return And(t.valid(m), e.R0 <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= e.R1)
def mdn(e, a, b): return e.md[bnd(e, a)][bnd(e, b)]
GM = dict(GH, **MDG)
cst = Contract('cost', [Pt('nodes', 'q'), Pt('nodes', 'r')], INV + NQ + [('a reference node', lambda e: rnode(e, e.r)), ('finite distance', lambda e: mdn(e, e.q, e.r) < INF)], LI + [('the distance of the two bounds, none only when k edges at most as long are in the queue', lambda e: If(e.result.has, e.result.val == mdn(e, e.q, e.r), Q(e).drop(mdn(e, e.q, e.r))))], modifies=['this.' + LIM], ghosts=GM, result=OptOf(RE), **KW)
ucs = Contract('update_cost', [Pt('nodes', 'q'), Pt('nodes', 'r'), Sc('c', RE)], INV + NQ + [('finite distance', lambda e: e.c < INF)], LI + [('the given cost, none only when k edges at most as long are in the queue', lambda e: If(e.result.has, e.result.val == e.c, Q(e).drop(e.c)))], modifies=['this.' + LIM], ghosts=GM, result=OptOf(RE), **KW)
def vn(e): return mo(e).visited_nodes_combinations_.f['mem']
enc = Contract('emplace_nodes_combination_if_not_found', [Pt('nodes', 'q'), Pt('nodes', 'r')], [], [('true exactly for a new combination', lambda e: e.result == Not(vn(e.old)[e.q][e.r])), ('the combination is recorded', lambda e: vn(e) == z3.Store(vn(e.old), e.q, z3.Store(vn(e.old)[e.q], e.r, True)))], modifies=['this.visited_nodes_combinations_'], result=BO, **KW)
# ---- the traversal. slo/shi: the positions below a node; isq/isr: nodes of the query and of the reference tree; own: the node that owns a position
TG = dict(slo=AI(Int_), shi=AI(Int_), isq=AI(Bool_), isr=AI(Bool_), oq=AI(Int_), orr=AI(Int_))
GT = dict(GM, **TG)
def tree(e, is_, lo, hi, own):
    t = nd(e); i = getattr(e, is_)
    def f(m):
        L, R = t.L[m], t.R[m]
        return Implies(i[m], And(t.valid(m), getattr(e, lo) <= e.slo[m], e.slo[m] <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= e.shi[m], e.shi[m] <= getattr(e, hi), If(t.leaf(m), And(e.slo[m] == t.lo[m], e.shi[m] == t.hi[m]),
            And(t.valid(L), t.valid(R), i[L], i[R], e.slo[L] == e.slo[m], e.shi[L] == t.lo[m], e.slo[R] == t.hi[m], e.shi[R] == e.shi[m], e.slo[L] <= e.shi[L], e.slo[R] <= e.shi[R], t.lo[m] < t.hi[m]))))
    return forall(0, t.len, f, pat=lambda m: [i[m], t.L[m]])
def owns(e, is_, own): t = nd(e); i = getattr(e, is_); return forall_raw([Int_, Int_], lambda m, p: Implies(And(i[m], t.lo[m] <= p, p < t.hi[m]), getattr(e, own)[p] == m), pat=lambda m, p: z3.MultiPattern(i[m], getattr(e, own)[p]))
def bounds(e): return forall_raw([Int_] * 4, lambda a, b, p, r: Implies(And(e.isq[a], e.isr[b], e.slo[a] <= p, p < e.shi[a], e.slo[b] <= r, r < e.shi[b]), mdn(e, a, b) <= g(e, e.idx.el[p], e.idx.el[r])), pat=lambda a, b, p, r: z3.MultiPattern(bnd(e, a), bnd(e, b), e.idx.el[p], e.idx.el[r]))
TREES = [('query tree: node ranges nest', lambda e: tree(e, 'isq', 'Q0', 'Q1', 'oq')), ('reference tree: node ranges nest', lambda e: tree(e, 'isr', 'R0', 'R1', 'orr')), ('query tree: a position has one owner', lambda e: owns(e, 'isq', 'oq')), ('reference tree: a position has one owner', lambda e: owns(e, 'isr', 'orr')),
         ('the distance of two bounds is at most that of the samples below', bounds), ('distances of bounds are finite', lambda e: forall_raw([Int_, Int_], lambda x, y: e.md[x][y] < INF, pat=lambda x, y: e.md[x][y])), KIDS]
def V1(e): return forall_raw([Int_, Int_], lambda i, j: Implies(And(has(e)[i], 0 <= j, j < buf(e, i).n), vn(e)[e.oq[e.qinv[i]]][e.orr[e.rinv[buf(e, i).I[j]]]]), pat=lambda i, j: buf(e, i).I[j])
VI = [('a pair is in a buffer only if the combination of its nodes was visited', V1)]
def rank(e, a, b): return e.shi[a] - e.slo[a] + e.shi[b] - e.slo[b]
def below(e, a, b, p, r): return And(e.slo[a] <= p, p < e.shi[a], e.slo[b] <= r, r < e.shi[b])
def covN(e, a, b): return forall_raw([Int_, Int_], lambda p, r: Implies(below(e, a, b, p, r), C(e, e.idx.el[p], e.idx.el[r])), pat=lambda p, r: z3.MultiPattern(e.idx.el[p], e.idx.el[r]))
def VC(e, bound): return forall_raw([Int_] * 4, lambda a, b, p, r: Implies(And(vn(e)[a][b], bound(a, b), below(e, a, b, p, r)), C(e, e.idx.el[p], e.idx.el[r])), pat=lambda a, b, p, r: z3.MultiPattern(vn(e)[a][b], e.idx.el[p], e.idx.el[r]))
small = lambda e: lambda a, b: rank(e, a, b) <= rank(e, e.q, e.r)
less = lambda e: lambda a, b: rank(e, a, b) < rank(e, e.q, e.r)
newv = lambda e, o: lambda a, b: And(Not(vn(o)[a][b]), Or(a != e.q, b != e.r))
MAPREC = Rec('IndicesToBuffersMap', **TH)
NODES = [('a query node and a reference node', lambda e: And(nd(e).valid(e.q), nd(e).valid(e.r), e.isq[e.q], e.isr[e.r]))]
cpq = lambda e: e.locv('children_priority_queue').f['v#']
def PQ(e):
    v = cpq(e); x = v.el.f; t = nd(e); m = x['1'].idx[0]
    return And(0 <= v.len, v.len <= 1, Implies(v.len == 1, And(e.locv('children_priority_queue').f['top#'] == 0, x['0'].idx[0] == e.q, Or(m == t.L[e.r], m == t.R[e.r]), x['2'][0] == mdn(e, e.q, m))))
def PC(e):
    v = cpq(e); m = v.el.f['1'].idx[0]; t = nd(e)
    return And([Or(And(v.len == 1, m == c), covN(e, e.q, c)) for c in (t.L[e.r], t.R[e.r])])
TMOD = ['map.' + f for f in QF + [MAP, LIM, 'visited_nodes_combinations_']]
def part(pa, pz, ra, rz):
    def f(e):
        t = nd(e); P = dict(a=lambda m: e.slo[m], b=lambda m: t.lo[m], c=lambda m: t.hi[m], d=lambda m: e.shi[m])
        return forall_raw([Int_, Int_], lambda p, r: Implies(And(P[pa](e.q) <= p, p < P[pz](e.q), P[ra](e.r) <= r, r < P[rz](e.r)), C(e, e.idx.el[p], e.idx.el[r])), pat=lambda p, r: z3.MultiPattern(e.idx.el[p], e.idx.el[r]))
    return f
PARTS = [part('a', 'b', 'a', 'd'), part('c', 'd', 'a', 'd'), part('a', 'd', 'a', 'b'), part('a', 'd', 'c', 'd'), part('b', 'c', 'b', 'c')]
trav = Contract('dual_tree_traversal', [Pt('nodes', 'q'), Pt('nodes', 'r'), Ob('map', MAPREC), Sc('oc', OptOf(RE)), Sc('by', BO), Sc('c')],
    INV + TREES + VI + NODES + [('k', lambda e: e.c == e.k), ('a cost is the distance of the two bounds', lambda e: Implies(e.oc.has, e.oc.val == mdn(e, e.q, e.r))), ('smaller combinations that were visited are done', lambda e: VC(e, small(e)))],
    INV + VI + MONO + [('every pair below the two nodes is in the queue, or k edges at most as long are', lambda e: covN(e, e.q, e.r)), ('every combination visited meanwhile is done', lambda e: VC(e, newv(e, e.old)))],
    cls='TreeTraverser', shapes=SHAPES, objs=OBJS, heaps={'KDNodeView': 'nodes'}, ghosts=GT, modifies=TMOD, at_return=PARTS, decreases=lambda e: rank(e, e.q, e.r),
    loops={0: Loop(('children that wait', PQ), ('children that do not wait are done', PC), *INV, *VI, ('monotone', lambda e: mono(e, e.old)), ('monotone since the loop began', lambda e: mono(e, e.entry(0))), ('smaller combinations that were visited are done', lambda e: VC(e, less(e))), ('visited meanwhile: done', lambda e: VC(e, newv(e, e.old))), decreases=lambda e: cpq(e).len)})
# the keys of the sets of combinations: equal exactly when both parts are
def key(cls, a, b, sh, v): return Contract('operator==', [Ob('other', Rec(cls, **{a: sh, b: sh}))], [], [('equal exactly when both parts are equal', lambda e: e.result == And(v(getattr(e.this, a)) == v(e.other.f[a]), v(getattr(e.this, b)) == v(e.other.f[b])))], cls=cls, this={a: sh, b: sh}, objs=dict(nodes=VecOf(node_shape(SZ))), heaps={'KDNodeView': 'nodes'}, result=BO)
eqn, eqi = key('NodesCombinationKey', 'query_node', 'reference_node', ('ptr', 'nodes'), lambda x: x.idx), key('IndicesCombinationKey', 'query_index', 'reference_index', SZ, lambda x: x)
# ---- the search from the two roots
def kd(s): return Rec('KDTree', options_=('opaque',), samples_range_first_=('ptr', s), samples_range_last_=('ptr', s), n_samples_=SZ, n_features_=SZ, bound_=('opaque',), root_=('ptr', 'nodes'))
SHT = dict(SHAPES, **{'IndicesToBuffersMap.' + f: TH[f] for f in TH}); SHT['IndicesToBuffersMap'] = MAPREC
def setup(e):
    q, r = p07.Obj(e.qi), p07.Obj(e.this.reference_indexer_)
    return And(q.samples_range_first_.idx == 0, q.samples_range_last_.idx == e.s.len, q.n_features_ == e.nf, r.samples_range_first_.idx == 0, r.samples_range_last_.idx == e.t.len, r.n_features_ == e.nf, e.nf >= 1, e.k >= 1, e.k < 2 ** 64, e.c == e.k, 0 <= e.Q0, e.Q0 < e.Q1, e.Q1 <= e.idx.len, 0 <= e.R0, e.R0 < e.R1, e.R1 <= e.idx.len,
               e.isq[q.root_.idx], e.isr[r.root_.idx], e.slo[q.root_.idx] == e.Q0, e.shi[q.root_.idx] == e.Q1, e.slo[r.root_.idx] == e.R0, e.shi[r.root_.idx] == e.R1, nd(e).valid(q.root_.idx), nd(e).valid(r.root_.idx))
def pairs(e, f): return forall2(e.Q0, e.Q1, e.R0, e.R1, lambda p, r: f(e.idx.el[p], e.idx.el[r]), pat=lambda p, r: z3.MultiPattern(e.idx.el[p], e.idx.el[r]))
class E2:
    """the environment with the local map of buffers in place of the parameter"""
    def __init__(self, e): self.e = e; self._b = {'map': 1}; self.map = e.locv('queries_to_buffers_map')
    def __getattr__(self, n): return getattr(self.e, n)
def shorter(e):
    q = Q(E2(e)); d = edge(e.result)[2]
    return And(0 <= q.top, q.top < q.n, q.n <= e.k, pairs(e, lambda a, b: Implies(g(e, a, b) < d, And(q.vis[a][b], 0 <= q.pos[a][b], q.pos[a][b] < q.n, q.pos[a][b] != q.top, q.a[q.pos[a][b]] == a, q.b[q.pos[a][b]] == b))))
def fewer(e): q = Q(E2(e)); d = edge(e.result)[2]; return Implies(q.n < e.k, pairs(e, lambda a, b: And(q.vis[a][b], g(e, a, b) <= d)))
sdt = Contract('dual_tree_shortest_edge', [Ob('qi', kd('s')), Sc('c')], [('two trees over two sets of samples', setup), ('query indices are distinct rows', D2), ('reference indices are distinct rows', D3)] + TREES,
    [('a sample of the query set and a sample of the reference set at their true distance', lambda e: And(qp(e, edge(e.result)[0]), rp(e, edge(e.result)[1]), edge(e.result)[2] == g(e, edge(e.result)[0], edge(e.result)[1]))),
     ('asked for the shortest: no pair of samples is closer', lambda e: Implies(e.k == 1, pairs(e, lambda a, b: edge(e.result)[2] <= g(e, a, b))))],
    at_return=[shorter, fewer], cls='TreeTraverser', this=dict(reference_indexer_=kd('t')), shapes=SHT, objs=OBJS, heaps={'KDNodeView': 'nodes'}, ghosts=GT, result=EDGE)
tig = Contract('tightest_edge', [], [('the queue is not empty', lambda e: Q(e).n > 0)] , [('the top of the queue', lambda e: And([edge(e.result)[i] == (Q(e).a, Q(e).b, Q(e).d)[i][Q(e).top] for i in range(3)]))], result=EDGE, ghosts=GH, **KW)
fwd = Contract('dual_tree_shortest_edge', [Ob('qi', kd('s')), Sc('c')], [('two trees over two sets of samples', lambda e: setup(E3(e))), ('query indices are distinct rows', D2), ('reference indices are distinct rows', D3)] + TREES, sdt.ensures, cls='Searcher', this=dict(tree_traverser_=Rec('TreeTraverser', reference_indexer_=kd('t'))), shapes=SHT, objs=OBJS, heaps={'KDNodeView': 'nodes'}, ghosts=GT, result=EDGE)
class E3:
    def __init__(self, e): self.e = e; self.this = p07.Obj(e.this.tree_traverser_)
    def __getattr__(self, n): return getattr(self.e, n)
def LEMMAS():
    # pigeonhole. one(I, k, n): I maps [0, k) one to one into [0, n); count(k): then k <= n, for every I and n
    I, J = z3.Consts('pI pJ', AI(Int_)); k, n, v = z3.Ints('pk pn pv')
    def one(I, k, n): return And(forall(0, k, lambda j: And(0 <= I[j], I[j] < n), pat=lambda j: I[j]), forall2(0, k, 0, k, lambda i, j: Implies(i != j, I[i] != I[j]), pat=lambda i, j: z3.MultiPattern(I[i], I[j])))
    def moved(t, k): return forall(0, k, lambda j: J[j] == If(I[j] == n - 1, t, I[j]), pat=lambda j: [J[j], I[j]])
    return [('pigeonhole, no position', [k == 0, n >= 0], k <= n),
            ('pigeonhole, one position more: the map that sends it elsewhere is one to one into one place fewer', [k >= 0, n >= 0, one(I, k + 1, n), moved(I[k], k)], And(n >= 1, one(J, k, n - 1))),
            ('pigeonhole, one position more', [k >= 0, one(J, k, n - 1), Implies(one(J, k, n - 1), k <= n - 1)], k + 1 <= n),
            ('pigeonhole, a place that is not reached: the map that uses it instead of the last is one to one into one place fewer', [k >= 1, one(I, k, n), 0 <= v, v < n, forall(0, k, lambda j: I[j] != v, pat=lambda j: I[j]), moved(v, k)], one(J, k, n - 1)),
            ('pigeonhole, every place is reached', [n <= k, Implies(one(J, k, n - 1), k <= n - 1)], Not(one(J, k, n - 1))), ('pigeonhole, as many places as positions', [Implies(one(I, k, n), k <= n), one(I, k, n), n <= k], n == k)]
CONTRACTS = [simple, upd, psi, psb, upq, psq, ubl, qfb, cst, ucs, enc, trav, tig, sdt, fwd, eqn, eqi, mind, diam, p07.maxpair, auto_distance]
