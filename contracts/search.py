"""Single-tree search: what a well-formed k-d tree is, what a search has covered, and the contracts of the traversal, for one kind of buffer and bound.
Ghosts: slo/shi (the positions of the index sequence below a node), inv (inverse of the index sequence), acc (which samples the buffer accepts),
onp[r][m] (m is on the descent from r that always takes the closest child), opr[r][p] (position p is owned by a node of that descent)."""
from core import *
from engine import *
import p07
from p07 import Obj, GH, WF, n, cap, bf
from shared import *
P = ('ptr', 'idx')
def node_shape(bound=('opaque',)): return Rec('KDNodeView', indices_range_=Tup(P, P), cut_axis_feature_index_=SI, bound_=bound, left_=('ptr', 'nodes'), right_=('ptr', 'nodes'), parent_=('ptr', 'nodes'))
OBJS = dict(nodes=VecOf(node_shape()), idx=VecOf(SZ), s=VecOf(RE), q=VecOf(RE))
AB = AI(Bool_)
TG = dict(slo=AI(Int_), shi=AI(Int_), inv=AI(Int_), acc=AB, onp=AI(AB), opr=AI(AB), nf=Int_)
FEAT = z3.Function('FEAT', Row, Int_, Real_)
def _feat():
    a = z3.Const('fa!', AI(Real_)); i, m, k = z3.Ints('fi! fm! fk!'); p, r = z3.Const('fp!', Row), z3.Const('fr!', Row)
    return [FA([a, i, m, k], Implies(And(0 <= k, k < m), FEAT(ROW(a, i, m), k) == a[i + k]), FEAT(ROW(a, i, m), k)),
            FA([p, r, k], DIST(p, r) >= zabs(FEAT(p, k) - FEAT(r, k)), z3.MultiPattern(DIST(p, r), FEAT(p, k), FEAT(r, k)))]
AXIOMS['FEAT'] = _feat(); DEPS['FEAT'] = ['DIST']
ASSUMED['FEAT'] = 'the distance of two rows is at least the difference of any one feature (a lemma of P01 for the Euclidean distance)'
class N:
    """field access of the node heap"""
    def __init__(self, e):
        f = e.nodes.el.f
        self.L, self.R, self.P, self.cut = f['left_'].idx, f['right_'].idx, f['parent_'].idx, f['cut_axis_feature_index_']
        self.lo, self.hi = f['indices_range_'].f['0'].idx, f['indices_range_'].f['1'].idx; self.len = e.nodes.len
    def leaf(self, m): return And(self.L[m] == -1, self.R[m] == -1)
    def valid(self, m): return And(0 <= m, m < self.len)
def feat(e, x, k): return e.s.el[mul(x, e.nf) + k]
def D(e, x): return DIST(ROW(e.s.el, mul(x, e.nf), e.nf), ROW(e.q.el, IntVal(0), e.nf))
def cl(e, m):
    t = N(e); return If(e.q.el[t.cut[m]] < feat(e, e.idx.el[t.lo[m]], t.cut[m]), t.L[m], t.R[m])
def T1(e):
    t = N(e); I = e.idx.el
    def body(m):
        return And(0 <= e.slo[m], e.slo[m] <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= e.shi[m], e.shi[m] <= e.idx.len, Or(t.leaf(m), And(t.valid(t.L[m]), t.valid(t.R[m]))), Or(t.P[m] == -1, t.valid(t.P[m])),
            Implies(t.leaf(m), And(e.slo[m] == t.lo[m], e.shi[m] == t.hi[m])),
            Implies(Not(t.leaf(m)), And(t.L[m] != t.R[m], t.P[t.L[m]] == m, t.P[t.R[m]] == m, e.slo[t.L[m]] == e.slo[m], e.shi[t.L[m]] == t.lo[m], e.slo[t.R[m]] == t.hi[m], e.shi[t.R[m]] == e.shi[m],
                    e.slo[t.L[m]] <= e.shi[t.L[m]], e.slo[t.R[m]] <= e.shi[t.R[m]], t.hi[m] == t.lo[m] + 1, 0 <= t.cut[m], t.cut[m] < e.nf)))
    return forall(0, t.len, body, pat=lambda m: t.L[m])
def T2(e):
    t = N(e); I = e.idx.el
    return forall_raw([Int_, Int_], lambda m, p: Implies(And(t.valid(m), Not(t.leaf(m))), And(Implies(And(e.slo[m] <= p, p < t.lo[m]), feat(e, I[p], t.cut[m]) <= feat(e, I[t.lo[m]], t.cut[m])),
        Implies(And(t.hi[m] <= p, p < e.shi[m]), feat(e, I[p], t.cut[m]) >= feat(e, I[t.lo[m]], t.cut[m])))), pat=lambda m, p: z3.MultiPattern(t.L[m], I[p]))
def T3(e): I = e.idx.el; return forall(0, e.idx.len, lambda p: And(I[p] >= 0, mul(I[p], e.nf) + e.nf <= e.s.len, e.inv[I[p]] == p), pat=lambda p: I[p])
def T4(e): return And(e.nf >= 1, e.q.len == e.nf)
def T5(e): t = N(e); return forall(0, t.len, lambda m: Implies(t.P[m] >= 0, And(t.valid(t.P[m]), Not(t.leaf(t.P[m])), Or(t.L[t.P[m]] == m, t.R[t.P[m]] == m))), pat=lambda m: t.P[m])
TREE = [('node ranges nest', T1), ('the pivot separates the two sides along the cut axis', T2), ('indices are distinct rows of the data', T3), ('query has as many features as the data', T4), ('parent links', T5)]
# ghost definitions: the descent towards the query
def G1(e):
    t = N(e); return forall_raw([Int_, Int_], lambda r, m: Implies(t.valid(r), e.onp[r][m] == Or(m == r, And(Not(t.leaf(r)), e.onp[cl(e, r)][m]))), pat=lambda r, m: z3.MultiPattern(t.L[r], e.onp[r][m]))
def G2(e):
    t = N(e); return forall_raw([Int_, Int_], lambda r, p: Implies(t.valid(r), e.opr[r][p] == Or(And(t.lo[r] <= p, p < t.hi[r]), And(Not(t.leaf(r)), e.opr[cl(e, r)][p]))), pat=lambda r, p: z3.MultiPattern(t.L[r], e.opr[r][p]))
def inl(e, r, m):
    """what holds for every node m of the descent from r"""
    t = N(e); pm = t.P[m]
    return And(t.valid(m), e.slo[r] <= e.slo[m], e.shi[m] <= e.shi[r], Implies(m != r, And(t.valid(pm), Not(t.leaf(pm)), e.onp[r][pm], m == cl(e, pm), e.slo[r] <= e.slo[pm], e.shi[pm] <= e.shi[r])))
def inp(e, r, m, p):
    t = N(e); pm = t.P[m]
    return Implies(m != r, And(Implies(And(t.lo[pm] <= p, p < t.hi[pm]), e.opr[r][p]), Implies(Or(And(e.slo[pm] <= p, p < t.lo[pm], m == t.R[pm]), And(t.hi[pm] <= p, p < e.shi[pm], m == t.L[pm])), Not(e.opr[r][p]))))
def L1(e): t = N(e); return forall_raw([Int_, Int_], lambda r, m: Implies(And(t.valid(r), e.onp[r][m]), inl(e, r, m)), pat=lambda r, m: z3.MultiPattern(e.onp[r][m], t.P[m]))
def L2(e): t = N(e); return forall_raw([Int_, Int_, Int_], lambda r, m, p: Implies(And(t.valid(r), e.onp[r][m]), inp(e, r, m, p)), pat=lambda r, m, p: z3.MultiPattern(e.onp[r][m], t.P[m], e.opr[r][p]))
def L3(e): t = N(e); return forall_raw([Int_, Int_], lambda r, p: Implies(And(t.valid(r), e.opr[r][p]), And(e.slo[r] <= p, p < e.shi[r])), pat=lambda r, p: e.opr[r][p])
GD = [('definition of the descent', G1), ('definition of the positions on the descent', G2)]
GL = [('lemma: nodes of the descent', L1), ('lemma: positions beside the descent', L2), ('lemma: the descent stays below its start', L3)]
# what the buffer knows
def covered(e, x): return Or(e.tm[x] >= 0, Not(e.acc[x]), And(n(e) == cap(e), D(e, x) >= bf(e).furthest_distance_))
def O1(e): return forall(0, e.on, lambda t: And(e.tm[e.oi[t]] == t, e.acc[e.oi[t]], e.od[t] == D(e, e.oi[t])), pat=lambda t: e.oi[t])
def O2(e): return forall_raw([Int_], lambda x: And(-1 <= e.tm[x], e.tm[x] < e.on, Implies(e.tm[x] >= 0, e.oi[e.tm[x]] == x)), pat=lambda x: e.tm[x])
OFF = [('every offer is an acceptable sample at its distance, offered once', O1), ('offer times', O2)]
def unseen(e, a, b): return forall(a, b, lambda p: e.tm[e.idx.el[p]] == -1, pat=lambda p: e.idx.el[p])
def seen(e, a, b): return forall(a, b, lambda p: covered(e, e.idx.el[p]), pat=lambda p: e.idx.el[p])
def mono(e, o, a, b):
    """from o to e: only samples at positions [a,b) were offered, nothing offered is forgotten, a full buffer only tightens"""
    return And(cap(e) == cap(o), e.on >= o.on, Implies(n(o) == cap(o), And(n(e) == cap(e), bf(e).furthest_distance_ <= bf(o).furthest_distance_)),
        forall_raw([Int_], lambda x: Or(e.tm[x] == o.tm[x], And(o.tm[x] == -1, a <= e.inv[x], e.inv[x] < b, e.idx.el[e.inv[x]] == x)), pat=lambda x: e.tm[x]))
BMOD = ['indices_', 'distances_', 'closest_index_', 'closest_distance_', 'buffer_index_of_furthest_index_', 'furthest_distance_']
KD = Rec('KDTree', options_=('opaque',), samples_range_first_=('ptr', 's'), samples_range_last_=('ptr', 's'), n_samples_=SZ, n_features_=SZ, bound_=('opaque',), root_=('ptr', 'nodes'))
def centroid_qview(b): return And(b.f['centroid_features_range_first_'].idx == 0, b.f['centroid_features_range_last_'].idx == 1)
def make(buf, bound, tu, shapes, bshape, bok, extra_fields=None, acc=None, extra_objs=None, types='', accdef=None, extra_contracts=(), extra_inv=(), extra_mod=(), extra_ghosts=None):
    """contracts of the traversal with buffer class buf holding a bound of shape bshape; bok(e, bound) says that the bound's centroid is the query"""
    BUF = Rec(buf, bound_=bshape, indices_=VecOf(SZ), distances_=VecOf(RE), closest_index_=SZ, closest_distance_=RE, buffer_index_of_furthest_index_=SZ, furthest_distance_=RE, max_capacity_=SZ, **(extra_fields or {}))
    objs = dict(OBJS, **(extra_objs or {})); ghosts = dict(GH, **TG, **(extra_ghosts or {})); heaps = {'KDNodeView': 'nodes'}
    gm = list(GH)
    B0 = WF + OFF + [('the bound is centred on the query', lambda e: bok(e, bf(e).bound_))] + list(extra_inv) + ([('acceptable samples', accdef)] if accdef else [])
    kw = dict(heaps=heaps, shapes=shapes, objs=objs, ghosts=ghosts, tu=(tu, ('ffcl',)))
    C = lambda *a, **k: mkc(*a, **dict(kw, **k))
    def mkc(*a, tu=None, **k):
        c = Contract(*a, **dict(k, name=f"{k.get('cls')}::{a[0]}<{buf}<{bound}>>")); c.tu = tu; return c
    rows = lambda e: And(e.n == e.nf, e.s1 == e.s.len)
    def ps(fn, cls, leaf=False): return C(fn, [Itp('idx', 'a'), Itp('idx', 'z'), Itp('s', 0), Itp('s', 's1'), Sc('n')],
        [('a range', lambda e: e.a <= e.z), ('rows', rows), TREE[2], TREE[3]] + B0 + [('samples of the range not offered before', lambda e: unseen(e, e.a, e.z))],
        B0 + [('every sample of the range is covered', lambda e: seen(e, e.a, e.z)), ('only samples of the range are offered', lambda e: mono(e, e.old, e.a, e.z))],
        cls=cls, derived=buf if cls == 'StaticBuffer' else None, this=dict(bound_=bshape, indices_=VecOf(SZ), distances_=VecOf(RE), **(extra_fields or {})), modifies=['this.' + f for f in BMOD] + list(extra_mod), ghost_mod=gm,
        loops={0: Loop(('position in range', lambda e: And(e.a <= e.i, e.i <= e.z)), *B0, ('covered so far', lambda e: seen(e, e.a, e.i)), ('the rest not offered', lambda e: unseen(e, e.i, e.z)),
                ('only samples of the range are offered', lambda e: mono(e, e.old, e.a, e.z)), ('frame', lambda e: cap(e) == cap(e.old)), decreases=lambda e: e.z - e.i)} if fn.endswith('impl') else {})
    psi = ps('partial_search_impl', buf)
    psb = ps('partial_search', 'StaticBuffer')
    T = dict(cls='TreeTraverser', this=dict(reference_indexer_=KD))
    TT = lambda e: And(e.this.reference_indexer_.f['samples_range_first_'].idx == 0, e.this.reference_indexer_.f['samples_range_last_'].idx == e.s.len, e.this.reference_indexer_.f['n_features_'] == e.nf)
    W = [('indexer over the data', TT)] + TREE + GD + GL + B0
    def nn(e): return N(e)
    leaf = C('recursive_search_to_leaf_node', [Pt('nodes', 'r'), Ob('b', BUF)], W + [('a node', lambda e: nn(e).valid(e.r)), ('subtree not searched before', lambda e: unseen(e, e.slo[e.r], e.shi[e.r]))],
        B0 + [('a leaf of the descent', lambda e: And(nn(e).valid(e.result.idx), nn(e).leaf(e.result.idx), e.onp[e.r][e.result.idx])),
              ('the leaf is on the descent', lambda e: forall(e.slo[e.result.idx], e.shi[e.result.idx], lambda p: e.opr[e.r][p], pat=lambda p: e.opr[e.r][p])),
              ('the samples of the descent are covered, the others of the subtree untouched', lambda e: forall(e.slo[e.r], e.shi[e.r], lambda p: And(Implies(e.opr[e.r][p], covered(e, e.idx.el[p])), Implies(Not(e.opr[e.r][p]), e.tm[e.idx.el[p]] == -1)), pat=lambda p: [e.idx.el[p], e.opr[e.r][p]])),
              ('only samples of the subtree are offered', lambda e: mono(e, e.old, e.slo[e.r], e.shi[e.r]))],
        modifies=['b.' + f for f in BMOD] + list(extra_mod), ghost_mod=gm, result=('ptr', 'nodes'), decreases=lambda e: e.shi[e.r] - e.slo[e.r], hints=[lambda e: nn(e).L[e.r] >= -1], **T)
    SZ_ = lambda e, m: e.shi[m] - e.slo[m]
    def sib(e, m): t = nn(e); return If(t.L[t.P[m]] == m, t.R[t.P[m]], t.L[t.P[m]])
    def fd(e):
        k = nn(e).cut[nn(e).P[e.m]]
        def f(p):
            a, b = ROW(e.s.el, mul(e.idx.el[p], e.nf), e.nf), ROW(e.q.el, IntVal(0), e.nf)
            return And(FEAT(a, k) == feat(e, e.idx.el[p], k), FEAT(b, k) == e.q.el[k], D(e, e.idx.el[p]) >= zabs(feat(e, e.idx.el[p], k) - e.q.el[k]))
        return forall(0, e.idx.len, f, pat=lambda p: e.idx.el[p])
    up = C('get_parent_node_after_sibling_traversal', [Pt('nodes', 'm'), Ob('b', BUF)], W + [('the closest child of its parent', lambda e: And(nn(e).valid(e.m), nn(e).valid(nn(e).P[e.m]), e.m == cl(e, nn(e).P[e.m]))),
            ('sibling not searched before', lambda e: unseen(e, e.slo[sib(e, e.m)], e.shi[sib(e, e.m)]))],
        B0 + [('returns the parent', lambda e: e.result.idx == nn(e).P[e.m]), ('the sibling subtree is covered', lambda e: seen(e, e.slo[sib(e, e.m)], e.shi[sib(e, e.m)])),
              ('only samples of the sibling are offered', lambda e: mono(e, e.old, e.slo[sib(e, e.m)], e.shi[sib(e, e.m)]))],
        modifies=['b.' + f for f in BMOD] + list(extra_mod), ghost_mod=gm, result=('ptr', 'nodes'), decreases=lambda e: 2 * SZ_(e, nn(e).P[e.m]) - 1, hints=[lambda e: nn(e).L[nn(e).P[e.m]] >= -1, fd], group='traverse', **T)
    cur = lambda e: e.loc('current_reference_node')
    trav = C('single_tree_traversal', [Pt('nodes', 'r'), Ob('b', BUF)], W + [('a node', lambda e: nn(e).valid(e.r)), ('subtree not searched before', lambda e: unseen(e, e.slo[e.r], e.shi[e.r]))],
        B0 + [('the subtree is covered', lambda e: seen(e, e.slo[e.r], e.shi[e.r])), ('only samples of the subtree are offered', lambda e: mono(e, e.old, e.slo[e.r], e.shi[e.r]))],
        modifies=['b.' + f for f in BMOD] + list(extra_mod), ghost_mod=gm, decreases=lambda e: 2 * SZ_(e, e.r), group='traverse',
        loops={0: Loop(('on the descent', lambda e: And(nn(e).valid(cur(e)), e.onp[e.r][cur(e)], e.slo[e.r] <= e.slo[cur(e)], e.slo[cur(e)] <= e.shi[cur(e)], e.shi[cur(e)] <= e.shi[e.r])), *B0, ('subtree of the current node covered', lambda e: seen(e, e.slo[cur(e)], e.shi[cur(e)])),
            ('beside the current node only the descent was searched', lambda e: forall(e.slo[e.r], e.shi[e.r], lambda p: Implies(Or(p < e.slo[cur(e)], p >= e.shi[cur(e)]), And(Implies(e.opr[e.r][p], covered(e, e.idx.el[p])), Implies(Not(e.opr[e.r][p]), e.tm[e.idx.el[p]] == -1))), pat=lambda p: [e.idx.el[p], e.opr[e.r][p]])),
            ('only samples of the subtree are offered', lambda e: mono(e, e.old, e.slo[e.r], e.shi[e.r])), decreases=lambda e: SZ_(e, e.r) - SZ_(e, cur(e)))}, **T)
    KR = lambda e, root: And(nn(e).valid(root), e.slo[root] == 0, e.shi[root] == e.idx.len)
    FRESH = [('nothing offered yet', lambda e: And(e.on == 0, forall_raw([Int_], lambda x: e.tm[x] == -1, pat=lambda x: e.tm[x])))]
    def answer(e):
        R = Obj(e.result); I, Dd, k = R.indices_.el, R.distances_.el, R.indices_.len
        return I, Dd, k
    def A1(e):
        I, Dd, k = answer(e); J = e.idx.el
        return And(k == Obj(e.result).distances_.len, forall(0, k, lambda j: And(0 <= e.inv[I[j]], e.inv[I[j]] < e.idx.len, J[e.inv[I[j]]] == I[j], e.acc[I[j]], Dd[j] == D(e, I[j])), pat=lambda j: I[j]))
    def A2(e): I, Dd, k = answer(e); return forall2(0, k, 0, k, lambda a, b: Implies(a != b, I[a] != I[b]), pat=lambda a, b: z3.MultiPattern(I[a], I[b]))
    def A3(e):
        I, Dd, k = answer(e); J = e.idx.el
        return forall(0, e.idx.len, lambda p: Or(Not(e.acc[J[p]]), exists(0, k, lambda j: I[j] == J[p]), And(k == Obj(e.result).max_capacity_, forall(0, k, lambda j: Dd[j] <= D(e, J[p]), pat=lambda j: Dd[j]))), pat=lambda p: J[p])
    def A5(e):
        I, Dd, k = answer(e); b, w = Obj(e.result).buffer_index_of_furthest_index_, Obj(e.result).furthest_distance_
        return Implies(k > 0, And(0 <= b, b < k, w == Dd[b], forall(0, k, lambda j: Dd[j] <= w, pat=lambda j: Dd[j])))
    ANS = [('every answer is an acceptable indexed sample at its true distance', A1), ('no sample is returned twice', A2), ('every acceptable indexed sample is returned unless the answer is full of samples at least as close', A3),
           ('never more than the requested number', lambda e: And(answer(e)[2] <= Obj(e.result).max_capacity_, Obj(e.result).max_capacity_ == cap(e.old))), ('the furthest neighbor is the furthest one returned', A5)]
    def inst(e):
        p = lambda p: e.pos[e.tm[e.idx.el[p]]]
        R = Obj(e.result)
        return forall(0, e.idx.len, lambda x: And(e.inv[e.idx.el[x]] == x, Or(Not(e.acc[e.idx.el[x]]), And(e.tm[e.idx.el[x]] >= 0, p(x) >= 0, p(x) < R.indices_.len, R.indices_.el[p(x)] == e.idx.el[x]), And(R.indices_.len == R.max_capacity_, D(e, e.idx.el[x]) >= R.furthest_distance_))), pat=lambda p: e.idx.el[p])
    op = C('operator()', [Ob('b', BUF)], W + FRESH + [('root', lambda e: KR(e, e.this.reference_indexer_.f['root_'].idx))], ANS, ghost_mod=gm, result=BUF, modifies=['b'] + list(extra_mod), at_return=[inst], **T)
    opS = C('operator()', [Ob('b', BUF)], [('indexer over the data', lambda e: TTS(e))] + TREE + GD + GL + B0 + FRESH + [('root', lambda e: KR(e, e.this.tree_traverser_.f['reference_indexer_'].f['root_'].idx))], ANS, ghost_mod=gm, result=BUF, modifies=['b'] + list(extra_mod), cls='Searcher', this=dict(tree_traverser_=Rec('TreeTraverser', reference_indexer_=KD)))
    def TTS(e): k = e.this.tree_traverser_.f['reference_indexer_'].f; return And(k['samples_range_first_'].idx == 0, k['samples_range_last_'].idx == e.s.len, k['n_features_'] == e.nf)
    return [psi, psb, leaf, up, trav, op, opS] + list(extra_contracts) + [auto_distance]
class LemEnv:
    """a state without program variables, for lemmas about the ghosts"""
    def __init__(self):
        facts = []
        for k, sh in OBJS.items(): setattr(self, k, mk(sh, 'L' + k, facts))
        for k, so in TG.items(): setattr(self, k, z3.Const('L' + k, so))
        self.facts = facts
def tree_lemmas():
    """L1 to L3 by induction on the size of the subtree: the hypotheses are the lemma for the child of the descent"""
    e = LemEnv(); t = N(e); r, m, p, x, c = z3.Ints('r m p x c'); B = [T1(e), T5(e), G1(e), G2(e), t.valid(r), c == cl(e, r), Or(t.L[r] == c, t.R[r] == c), t.P[m] == t.P[m]] + e.facts
    ih1 = z3.ForAll([x], Implies(e.onp[c][x], inl(e, c, x)), patterns=[e.onp[c][x]])
    ih2 = z3.ForAll([x], Implies(e.onp[c][x], inp(e, c, x, p)), patterns=[e.onp[c][x]])
    ih3 = z3.ForAll([x], Implies(e.opr[c][x], And(e.slo[c] <= x, x < e.shi[c])), patterns=[e.opr[c][x]])
    IH = [Implies(Not(t.leaf(r)), And(ih1, ih2, ih3))]
    return [('the descent shrinks (measure of the induction)', B + [Not(t.leaf(r))], And(e.shi[c] - e.slo[c] < e.shi[r] - e.slo[r], e.shi[c] >= e.slo[c], t.valid(c))),
            ('nodes of the descent: step', B + IH + [e.onp[r][m]], inl(e, r, m)),
            ('positions beside the descent: step', B + IH + [e.onp[r][m]], inp(e, r, m, p)),
            ('the descent stays below its start: step', B + IH + [e.opr[r][p]], And(e.slo[r] <= p, p < e.shi[r]))]
