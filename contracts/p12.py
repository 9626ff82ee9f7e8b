"""P12: single-linkage tree.  Ghosts: mem[m][x] (sample x lies below node m), bel[m][k] (node k lies below node m), f (any labelling of the samples)."""
from core import *
from engine import *
LEVEL_NOTE = "Proved for every connected weighted edge list, cut level and minimum size on the real sort, build, constructors, set_options, traversal, extract_flat_clusters and predict: leaves, levels, sizes and parent links of the tree, members of a node connected by edges up to its level (for any labelling constant on the edges below a level), both ends of an edge below a node of at most its weight, labels alike exactly on components below the cut, noise below the minimum size. Union-find by its P10 contracts. Weights not negative; the node heap starts empty (nodes of other trees left out); the label of a cluster whose representative is sample 0 equals the noise label. Printing and serialisation not covered."
TU = ('p12.cpp', ('ffcl', 'rapidjson'))
NODE = Rec('SingleLinkageClusterNode', representative_=SZ, level_=RE, cluster_size_=SZ, parent_=('ptr', 'nodes'), left_=('ptr', 'nodes'), right_=('ptr', 'nodes'))
EDGE = Tup(SZ, SZ, RE)
OPT = Rec('Options', cut_level_=RE, min_cluster_size_=SZ)
THIS = dict(sorted_mst_=VecOf(EDGE), root_=('ptr', 'nodes'), options_=OPT)
OB = dict(nodes=VecOf(NODE)); ABB = AI(AI(Bool_)); GH = dict(mem=ABB, bel=ABB, f=AI(Int_)); HP = {'SingleLinkageClusterNode': 'nodes'}
class N:
    def __init__(self, e):
        f = e.nodes.el.f; self.rep, self.lev, self.size, self.P, self.L, self.R = f['representative_'], f['level_'], f['cluster_size_'], f['parent_'].idx, f['left_'].idx, f['right_'].idx; self.len = e.nodes.len
    def leaf(self, m): return And(self.L[m] < 0, self.R[m] < 0)
def T1(e, lo=0):
    """shape: a node is a leaf for its representative, or has two earlier nodes as children"""
    t = N(e)
    return forall(lo, t.len, lambda m: And(t.rep[m] >= 0, e.mem[m][t.rep[m]], e.bel[m][m], t.size[m] >= 1, Or(t.leaf(m), And(lo <= t.L[m], t.L[m] < m, lo <= t.R[m], t.R[m] < m, t.lev[t.L[m]] <= t.lev[m], t.lev[t.R[m]] <= t.lev[m], t.size[m] == t.size[t.L[m]] + t.size[t.R[m]]))), pat=lambda m: [t.L[m], t.lev[m], e.bel[m]])
def T2(e, lo=0):
    """the samples below a node are its representative (leaf) or those of its children, which share none"""
    t = N(e)
    return forall_raw([Int_, Int_], lambda m, x: Implies(And(lo <= m, m < t.len), And(Implies(t.leaf(m), e.mem[m][x] == (x == t.rep[m])), Implies(Not(t.leaf(m)), And(e.mem[m][x] == Or(e.mem[t.L[m]][x], e.mem[t.R[m]][x]), Not(And(e.mem[t.L[m]][x], e.mem[t.R[m]][x])))))), pat=lambda m, x: [e.mem[m][x], e.mem[t.L[m]][x], e.mem[t.R[m]][x]])
def T3(e, lo=0):
    """the nodes below a node are itself and those below its children"""
    t = N(e)
    return forall_raw([Int_, Int_], lambda m, k: Implies(And(lo <= m, m < t.len), And(Implies(t.leaf(m), e.bel[m][k] == (k == m)), Implies(Not(t.leaf(m)), e.bel[m][k] == Or(k == m, e.bel[t.L[m]][k], e.bel[t.R[m]][k])))), pat=lambda m, k: e.bel[m][k])
def T4(e, lo=0):
    """the samples below a node lie below every node above it"""
    t = N(e)
    return forall_raw([Int_, Int_, Int_], lambda m, k, x: Implies(And(lo <= m, m < t.len, e.bel[m][k]), And(lo <= k, k <= m, Implies(e.mem[k][x], e.mem[m][x]))), pat=lambda m, k, x: z3.MultiPattern(e.bel[m][k], e.mem[k][x]))
def TREE(e): return And(T1(e), T2(e), T3(e), T4(e))
def kids(q):
    """proved child by child"""
    def g(k): return lambda e: Implies(Not(N(e).leaf(e.node)), q(e, e.flat.el, N(e).L[e.node] if k == 0 else N(e).R[e.node]))
    return [g(0), g(1)]
def cutl(e): return e.this.options_.f['cut_level_']
def mins(e): return e.this.options_.f['min_cluster_size_']
def one(e, m): t = N(e); return Or(t.leaf(m), t.lev[m] < cutl(e))        # not cut: one cluster below m
def inside(e, n): t = N(e); return forall_raw([Int_, Int_], lambda m, x: Implies(And(0 <= m, m < t.len, e.mem[m][x]), And(0 <= x, x < n)), pat=lambda m, x: e.mem[m][x])
def FC(e):
    """f is constant on the samples below any node that is not cut"""
    t = N(e); return forall_raw([Int_, Int_], lambda m, x: Implies(And(0 <= m, m < t.len, one(e, m), e.mem[m][x]), e.f[x] == e.f[t.rep[m]]), pat=lambda m, x: e.mem[m][x])
def lab(e, c): t = N(e); return If(t.size[c] < mins(e), IntVal(0), t.rep[c])
def QB(e, F, r, l): return Implies(one(e, r), forall_raw([Int_], lambda x: Implies(e.mem[r][x], F[x] == l), pat=lambda x: [e.mem[r][x], F[x]]))
def QA(e, F, r):
    t = N(e); b = lambda m, c, x: Implies(And(e.bel[r][m], Not(t.leaf(m)), t.lev[m] >= cutl(e), one(e, c), e.mem[c][x], e.mem[m][x]), F[x] == lab(e, c))
    return And(*[forall_raw([Int_, Int_], lambda m, x: b(m, g(m), x), pat=lambda m, x: z3.MultiPattern(e.bel[r][m], e.mem[g(m)][x])) for g in (lambda m: t.L[m], lambda m: t.R[m])])
def QC(e, F, r): t = N(e); return forall_raw([Int_, Int_], lambda m, x: Implies(And(e.bel[r][m], one(e, m), e.mem[m][x]), F[x] == F[t.rep[m]]), pat=lambda m, x: z3.MultiPattern(e.bel[r][m], e.mem[m][x]))
def QD(e, F, r): return Implies(Not(one(e, r)), forall_raw([Int_], lambda x: Implies(e.mem[r][x], Or(F[x] == 0, And(e.mem[r][F[x]], e.f[F[x]] == e.f[x]))), pat=lambda x: [e.mem[r][x], F[x]]))
def QE(e, F, r): t = N(e); return forall_raw([Int_, Int_, Int_], lambda m, x, y: Implies(And(e.bel[r][m], Not(t.leaf(m)), t.lev[m] >= cutl(e), e.mem[t.L[m]][x], e.mem[t.R[m]][y], e.mem[m][x], e.mem[m][y], F[x] == F[y]), F[x] == 0), pat=lambda m, x, y: z3.MultiPattern(e.bel[r][m], e.mem[t.L[m]][x], e.mem[t.R[m]][y]))
LB = [('noise below the minimum size, otherwise the representative', lambda e: QA(e, e.flat.el, e.node)), ('below a node that is not cut, the given label', lambda e: QB(e, e.flat.el, e.node, e.label)), ('samples of a component below the cut are labelled alike', lambda e: QC(e, e.flat.el, e.node)),
      ('samples labelled alike are connected below the cut', lambda e: QD(e, e.flat.el, e.node)), ('samples on both sides of a cut are labelled differently, unless noise', lambda e: QE(e, e.flat.el, e.node)),
      ('no other sample is labelled', lambda e: And(e.flat.len == e.old.flat.len, forall_raw([Int_], lambda x: Implies(Not(e.mem[e.node][x]), e.flat.el[x] == e.old.flat.el[x]), pat=lambda x: e.flat.el[x])))]
pre = Contract('preorder_traversal_single_linkage_clustering', [Sc('label'), Pt('nodes', 'node'), Ob('flat', VecOf(SZ))],
    [('a tree', TREE), ('a node', lambda e: e.node >= 0), ('the labels of all samples', lambda e: inside(e, e.flat.len)), ('any labelling constant below uncut nodes', FC)], LB,
    cls='SingleLinkageClusterTree', this=THIS, objs=OB, ghosts=GH, modifies=['flat'], heaps=HP, at_return=kids(QA) + kids(QC) + kids(QE), decreases=lambda e: e.node)
ext = Contract('extract_flat_clusters', [], [('a tree', TREE), ('a root', lambda e: And(0 <= e.this.root_.idx, e.this.root_.idx < e.nodes.len)), ('the samples are 0 to the size of the root', lambda e: And(inside(e, N(e).size[e.this.root_.idx]), forall(0, N(e).size[e.this.root_.idx], lambda x: e.mem[e.this.root_.idx][x], pat=lambda x: e.mem[e.this.root_.idx][x]))), ('any labelling constant below uncut nodes', FC)],
    [('one label per sample', lambda e: e.result.len == N(e).size[e.this.root_.idx]), ('noise below the minimum size, otherwise the representative', lambda e: QA(e, e.result.el, e.this.root_.idx)), ('an uncut tree is one cluster', lambda e: QB(e, e.result.el, e.this.root_.idx, N(e).rep[e.this.root_.idx])),
     ('samples of a component below the cut are labelled alike', lambda e: QC(e, e.result.el, e.this.root_.idx)), ('samples on both sides of a cut are labelled differently, unless noise', lambda e: QE(e, e.result.el, e.this.root_.idx)),
     ('samples labelled alike are connected below the cut', lambda e: forall2(0, e.result.len, 0, e.result.len, lambda x, y: Implies(And(e.result.el[x] == e.result.el[y], e.result.el[x] != 0), e.f[x] == e.f[y]), pat=lambda x, y: z3.MultiPattern(e.result.el[x], e.result.el[y])))],
    cls='SingleLinkageClusterTree', this=THIS, objs=OB, ghosts=GH, result=VecOf(SZ), heaps=HP)

# construction
import p10
A = AI(Int_); AB = AI(Bool_)
SING = named_array('SING', [Int_], Bool_, lambda m, k: k == m)
UNI = named_array('UNI', [AB, AB], Bool_, lambda a, b, k: Or(a[k], b[k]))
UNI1 = named_array('UNI1', [Int_, AB, AB], Bool_, lambda m, a, b, k: Or(k == m, a[k], b[k]))
MARK = z3.Function('LABELLING', A, Bool_)      # asks for one instance of the precondition over all labellings
AXIOMS['LABELLING'] = [FA([p10_l := z3.Const('lb!', A)], MARK(p10_l), MARK(p10_l))]
# counting (proved by induction as lemmas)
_r, _q = z3.Consts('r! q!', A); _y, _k, _w, _l = z3.Ints('y! k! w! l!'); _0 = IntVal(0)
DM = z3.Function('CNT_MERGED', A, A, Int_, Int_, Int_, Int_); DI = z3.Function('CNT_IDENT', A, Int_, Int_, Int_); DF = z3.Function('CNT_FULL', A, Int_, Int_, Int_)
def merged(r, q, y, w, l): return Or(CNT(q, _0, y, w) == CNT(r, _0, y, w) + CNT(r, _0, y, l), And(0 <= DM(r, q, y, w, l), DM(r, q, y, w, l) < y, q[DM(r, q, y, w, l)] != If(r[DM(r, q, y, w, l)] == l, w, r[DM(r, q, y, w, l)])))
def ident(r, y, k): return Or(CNT(r, _0, y, k) == If(And(0 <= k, k < y), 1, 0), And(0 <= DI(r, y, k), DI(r, y, k) < y, r[DI(r, y, k)] != DI(r, y, k)))
def full(r, y, k): return Or(CNT(r, _0, y, k) == y, And(0 <= DF(r, y, k), DF(r, y, k) < y, r[DF(r, y, k)] != k))
EXTRA_AXIOMS = [FA([_r, _q, _y, _w, _l], Implies(And(_y >= 0, _w != _l), merged(_r, _q, _y, _w, _l)), z3.MultiPattern(CNT(_q, _0, _y, _w), CNT(_r, _0, _y, _w), CNT(_r, _0, _y, _l))),
    FA([_r, _y, _k], Implies(_y >= 0, And(ident(_r, _y, _k), full(_r, _y, _k))), CNT(_r, _0, _y, _k))]
def LEMMAS():
    x = z3.Int('x!')
    hyp = lambda y, P: forall(0, y, P)
    M = lambda y: Implies(forall(0, y, lambda x: _q[x] == If(_r[x] == _l, _w, _r[x]), pat=lambda x: _q[x]), CNT(_q, _0, y, _w) == CNT(_r, _0, y, _w) + CNT(_r, _0, y, _l))
    I = lambda y: Implies(forall(0, y, lambda x: _r[x] == x, pat=lambda x: _r[x]), CNT(_r, _0, y, _k) == If(And(0 <= _k, _k < y), 1, 0))
    F = lambda y: Implies(forall(0, y, lambda x: _r[x] == _k, pat=lambda x: _r[x]), CNT(_r, _0, y, _k) == y)
    out = []
    for nm, P, h in (('members of two components joined', M, [_w != _l]), ('members of single elements', I, []), ('members of a component of all', F, [])):
        out += [(nm + ': base', h, P(_0)), (nm + ': step', h + [_y >= 0, P(_y)], P(_y + 1))]
    return out
def ed(v): return v.el.f['0'], v.el.f['1'], v.el.f['2'], v.len
def mst(e): return ed(e.this.sorted_mst_)
def ns(e): return mst(e)[3] + 1
def uf(e): return e.locv('union_find').f
def UF(e): u = uf(e); return And(u['n_samples_'] == ns(e), u['parents_'].len == ns(e), u['ranks_'].len == ns(e), p10.inv(u['parents_'], e.rep, e.dep, ns(e)))
class G:
    """the environment with the ghosts of the loop"""
    def __init__(self, e): self.__dict__.update(_e=e, mem=e.lg('mem'), bel=e.lg('bel'))
    def __getattr__(self, n): return getattr(self._e, n)
def ends(v): a, b, w, k = ed(v); return forall(0, k, lambda j: And(0 <= a[j], a[j] <= k, 0 <= b[j], b[j] <= k, w[j] >= 0), pat=lambda j: [a[j], b[j], w[j]])
def incr(v): a, b, w, k = ed(v); return forall2(0, k, 0, k, lambda i, j: Implies(i <= j, w[i] <= w[j]), pat=lambda i, j: z3.MultiPattern(w[i], w[j]))
def sorted_(e): return And(ends(e.this.sorted_mst_), incr(e.this.sorted_mst_))
def conn(v): a, b, w, k = ed(v); return forall_raw([A], lambda l: Implies(MARK(l), Or(exists(0, k, lambda j: l[a[j]] != l[b[j]], pat=lambda j: a[j]), forall(0, k + 1, lambda x: l[x] == l[0], pat=lambda x: l[x]))), pat=lambda l: MARK(l))
def connected(e): return conn(e.this.sorted_mst_)
def flab(e, v): a, b, w, k = ed(v); return forall(0, k, lambda j: Implies(w[j] < e.c, e.f[a[j]] == e.f[b[j]]), pat=lambda j: w[j])
def fedges(e): return flab(e, e.this.sorted_mst_)
def MP(e): m = e.locv('nodes').f; return m['has'], m['val'].el.idx
def M2(e):
    e = G(e); t = N(e); has, val = MP(e); n = ns(e); a, b, w, k = mst(e)
    return And(forall_raw([Int_], lambda r: has[r] == And(0 <= r, r < n, e.rep[r] == r), pat=lambda r: [has[r], e.rep[r]]),
        forall(0, n, lambda r: Implies(e.rep[r] == r, And(0 <= val[r], val[r] < t.len, t.rep[val[r]] == r, t.P[val[r]] == -1, t.size[val[r]] == CNT(e.rep, _0, n, r))), pat=lambda r: [val[r], e.rep[r]]))
def M2m(e):
    e = G(e); has, val = MP(e); n = ns(e)
    return forall_raw([Int_, Int_], lambda r, x: Implies(And(0 <= r, r < n, e.rep[r] == r), e.mem[val[r]][x] == And(0 <= x, x < n, e.rep[x] == r)), pat=lambda r, x: e.mem[val[r]][x])
def M2w(e):
    has, val = MP(e); n = ns(e); a, b, w, k = mst(e); t = N(e)
    return forall2(0, n, e.i, k, lambda r, j: Implies(e.rep[r] == r, t.lev[val[r]] <= w[j]), pat=lambda r, j: z3.MultiPattern(val[r], w[j]))
def M3(e, eg, done):
    t = N(e); n = ns(e); a, b, w, k = mst(e)
    return And(t.len >= n, forall(0, t.len, lambda m: And(-1 <= t.P[m], t.P[m] < t.len), pat=lambda m: t.P[m]), forall(0, n, lambda m: And(t.leaf(m), t.rep[m] == m, t.lev[m] == 0, t.size[m] == 1), pat=lambda m: t.rep[m]),
        forall(n, t.len, lambda m: And(Not(t.leaf(m)), 0 <= eg[m], eg[m] < done, t.lev[m] == w[eg[m]], e.mem[t.L[m]][a[eg[m]]], e.mem[t.R[m]][b[eg[m]]], t.P[t.L[m]] == m, t.P[t.R[m]] == m), pat=lambda m: [t.L[m], eg[m]]),
        forall2(n, t.len, n, t.len, lambda m, q: Implies(m < q, eg[m] < eg[q]), pat=lambda m, q: z3.MultiPattern(eg[m], eg[q])))
def M4(e, en, done):
    t = N(e); a, b, w, k = mst(e); return forall(0, done, lambda j: And(0 <= en[j], en[j] < t.len, e.mem[en[j]][a[j]], e.mem[en[j]][b[j]], t.lev[en[j]] <= w[j]), pat=lambda j: [en[j], w[j]])
def joined(e): a, b, w, k = mst(e); return forall(0, e.i, lambda j: e.rep[a[j]] == e.rep[b[j]], pat=lambda j: w[j])
def FB(e): t = N(e); return forall_raw([Int_, Int_], lambda m, x: Implies(And(0 <= m, m < t.len, Or(t.leaf(m), t.lev[m] < e.c), e.mem[m][x]), e.f[x] == e.f[t.rep[m]]), pat=lambda m, x: e.mem[m][x])
def grown(e): return not z3.simplify(e.nodes.len == e.head(1).nodes.len).eq(z3.BoolVal(True))
def nw(e): return e.nodes.len - 1
def gmem(e): t = N(e); m = e.lg('mem'); k = e.head(1).nodes.len; return z3.Store(m, k, UNI(m[t.L[k]], m[t.R[k]])) if grown(e) else m
def gbel(e): t = N(e); m = e.lg('bel'); k = e.head(1).nodes.len; return z3.Store(m, k, UNI1(k, m[t.L[k]], m[t.R[k]])) if grown(e) else m
def geg(e): return z3.Store(e.lg('eg'), e.head(1).nodes.len, e.head(1).i) if grown(e) else e.lg('eg')
def gen(e): i = e.head(1).i; return z3.Store(e.lg('en'), i, e.head(1).nodes.len if grown(e) else MP(e)[1][e.rep[mst(e)[0][i]]])
def below_new(e):
    if not grown(e): return BoolVal(True)
    e = G(e); t = N(e); m = e.head(1).nodes.len
    return And(forall_raw([Int_, Int_], lambda k, x: Implies(e.bel[m][k], And(0 <= k, k <= m, Implies(e.mem[k][x], e.mem[m][x]))), pat=lambda k, x: z3.MultiPattern(e.bel[m][k], e.mem[k][x])))
def below_old(e):
    if not grown(e): return BoolVal(True)
    h = G(e.head(1)); g = G(e); m = e.head(1).nodes.len
    return And(forall_raw([Int_, Int_], lambda k, x: Implies(And(0 <= k, k < m), And(g.bel[k][x] == h.bel[k][x], g.mem[k][x] == h.mem[k][x])), pat=lambda k, x: [g.bel[k][x], g.mem[k][x], h.bel[k][x], h.mem[k][x]]))
def lgs(f): return lambda e: f(G(e))
def inr(e): return lambda: None
def init0(e):
    t = N(e); has, val = MP(e)
    return And(0 <= e.i, e.i <= e.loc('n_samples'), t.len == e.i, forall_raw([Int_], lambda r: has[r] == And(0 <= r, r < e.i), pat=lambda r: has[r]), forall(0, e.i, lambda m: And(val[m] == m, t.leaf(m), t.L[m] == -1, t.R[m] == -1, t.P[m] == -1, t.rep[m] == m, t.lev[m] == 0, t.size[m] == 1), pat=lambda m: [val[m], t.rep[m], t.L[m], t.P[m]]))
GB = dict(rep=A, dep=A, f=A, c=Real_)
def rt(e): return e.result.idx
def whole(e, r): t = N(e); n = ns(e); return And(0 <= r, r < t.len, t.size[r] == n, t.P[r] == -1, forall_raw([Int_], lambda x: e.mem[r][x] == And(0 <= x, x < n), pat=lambda x: e.mem[r][x]))
BE = [('a tree of nodes', lambda e: TREE(e)), ('over the samples', lambda e: inside(e, ns(e))), ('one leaf per sample, one node per joining edge, in order', lambda e: M3(e, e.eg, mst(e)[3])), ('both ends of an edge lie below a node at most at its weight', lambda e: M4(e, e.en, mst(e)[3])), ('below a node, samples are connected by edges up to its level', FB)]
build = Contract('build', [], [('no other nodes', lambda e: e.nodes.len == 0), ('edges of the samples by increasing weight', sorted_), ('the edges connect all samples', connected), ('any labelling constant on the edges below c', fedges)],
    BE + [('the root holds all samples', lambda e: whole(e, rt(e)))],
    cls='SingleLinkageClusterTree', this=THIS, objs=OB, ghosts=GB, ghost_mod=['rep', 'dep'], modifies=['nodes'], result=('ptr', 'nodes'), heaps=HP,
    gres=dict(mem=(ABB, lambda e: e.lg('mem')), bel=(ABB, lambda e: e.lg('bel')), eg=(A, lambda e: e.lg('eg')), en=(A, lambda e: e.lg('en'))),
    loops={0: Loop(('every sample so far alone', init0), decreases=lambda e: e.loc('n_samples') - e.i),
        1: Loop(('edge', lambda e: And(0 <= e.i, e.i <= mst(e)[3])), ('valid structure', UF), ('shape', lgs(T1)), ('members', lgs(T2)), ('descendants', lgs(T3)), ('members of descendants', lgs(T4)), ('one node per component', M2), ('members of a component', M2m), ('components below the next edges', M2w),
            ('leaves and joins', lambda e: M3(G(e), e.lg('eg'), e.i)), ('edges so far', lambda e: M4(G(e), e.lg('en'), e.i)), ('edges so far are inside a component', joined), ('labelling', lgs(FB)), ('over the samples', lambda e: inside(G(e), ns(e))),
            ghost=dict(mem=(ABB, lambda e: Def(lambda m: SING(m)), gmem), bel=(ABB, lambda e: Def(lambda m: SING(m)), gbel), eg=(A, lambda e: Def(lambda m: _0), geg), en=(A, lambda e: Def(lambda m: _0), gen)), end_hints=[below_old, below_new], decreases=lambda e: mst(e)[3] - e.i)},
    at_return=[lambda e: Implies(MARK(e.rep), forall(0, ns(e), lambda x: e.rep[x] == e.rep[0], pat=lambda x: e.rep[x]))])
# sorting and constructors
def same(e, v, o):
    a, b, w, k = ed(v); a2, b2, w2, k2 = ed(o)
    return And(k == k2, forall(0, k, lambda j: And(0 <= e.frm[j], e.frm[j] < k, a[j] == a2[e.frm[j]], b[j] == b2[e.frm[j]], w[j] == w2[e.frm[j]]), pat=lambda j: [a[j], b[j], w[j]]), forall(0, k, lambda j: And(0 <= e.to[j], e.to[j] < k, e.frm[e.to[j]] == j, e.to[e.frm[j]] == j, a2[j] == a[e.to[j]], b2[j] == b[e.to[j]], w2[j] == w[e.to[j]]), pat=lambda j: [e.to[j], a2[j], w2[j]]))
SP = [('the same edges', lambda e: same(e, e.result, e.old.m)), ('by increasing weight', lambda e: incr(e.result))]
SG = dict(frm=(A, lambda e: e.sort_from), to=(A, lambda e: e.sort_to))
srt = Contract('sort', [Ob('m', VecOf(EDGE))], [], SP, modifies=['m'], result=VecOf(EDGE), gres=SG); src = Contract('sort_copy', [Ob('m', VecOf(EDGE))], [], SP, result=VecOf(EDGE), gres=SG)
RQ = [('no other nodes', lambda e: e.nodes.len == 0), ('edges of the samples', lambda e: ends(e.m)), ('the edges connect all samples', lambda e: conn(e.m)), ('any labelling constant on the edges below c', lambda e: flab(e, e.m))]
def ctor(move, opt):
    c = Contract('SingleLinkageClusterTree', [Ob('m', VecOf(EDGE))] + ([Ob('o', OPT)] if opt else []), RQ, [('the given edges by increasing weight', lambda e: And(same(e, e.this.sorted_mst_, e.old.m), incr(e.this.sorted_mst_)))] + BE + [('the root holds all samples', lambda e: whole(e, e.this.root_.idx))] + [('options', (lambda e: equal(e.this.options_, e.old.o)) if opt else (lambda e: And(cutl(e) == INF, mins(e) == 1)))],
        cls='SingleLinkageClusterTree', this=THIS, objs=OB, ghosts=GB, ghost_mod=['rep', 'dep'], gres={g: (sh, via(g)) for g, sh in dict(frm=A, to=A, mem=ABB, bel=ABB, eg=A, en=A).items()}, modifies=['this', 'nodes'] + (['m'] if move else []), heaps=HP, types=r'EdgesList|MinimumSpanningTreeType' if 0 else (r'&&' if move else r'^[^&]*&(?!&)'), name='SingleLinkageClusterTree::SingleLinkageClusterTree(' + ('&&' if move else 'const&') + (', options)' if opt else ')'))
    return c
via = lambda g: lambda e: e._st.vars['gh:' + g]
CT = [ctor(m, o) for m in (False, True) for o in (False, True)]
seto = Contract('set_options', [Ob('o', OPT)], [], [('the given options', lambda e: equal(e.this.options_, e.old.o))], cls='SingleLinkageClusterTree', this=THIS, modifies=['this.options_'])
prd = Contract('predict', [], ext.requires, ext.ensures, cls='SingleLinkageClusterTree', this=THIS, objs=OB, ghosts=GH, result=VecOf(SZ), heaps=HP)
for c in p10.CONTRACTS: c.trusted = 'proved in P10'; c.tu = None
CONTRACTS = [pre, ext, build, srt, src, seto, prd] + CT + p10.CONTRACTS
