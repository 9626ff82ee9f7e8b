"""P13: condensed cluster tree.  Ghosts: mem, bel (p12), en[s] (where the cluster that starts at the single-linkage node s ends), eom[s][l] (excess of mass below s over the inverse level l),
ce[m] (the condensed nodes below m are m to ce[m]-1), best[m] (largest total stability below m), tot[m] (total of any other choice below m)."""
from core import *
from engine import *
import p12
from p12 import TREE, ABB, A, N
LEVEL_NOTE = "Proved for every single-linkage tree and option set on the real condensation, excess of mass, selection, constructors, label extraction, predict and HDBSCAN::predict: where clusters split, end and what their stability is; selected exactly where nothing below is more stable (root exception, leaf mode); the topmost selected clusters are disjoint, reach the largest total stability of any non-nested choice, and label exactly their samples 1..k, noise 0. HDBSCAN::predict composes these for its options; make_tree trusted there (P11), the single-linkage constructor by its P12 contract, 1/level by P21. Real arithmetic; optimality for non-negative stabilities; heaps of other trees left out."
TU = ('p13.cpp', ('ffcl', 'rapidjson'))
CN = Rec('CondensedClusterNode', single_linkage_cluster_node_root_=('ptr', 'nodes'), lambda_min_=RE, stability_=RE, is_selected_=BO, parent_=('ptr', 'cn'), left_=('ptr', 'cn'), right_=('ptr', 'cn'))
OPT = Rec('Options', min_cluster_size_=SZ, allow_single_cluster_=BO, return_leaf_nodes_=BO)
THIS = dict(options_=OPT, root_=('ptr', 'cn')); OB = dict(nodes=VecOf(p12.NODE), cn=VecOf(CN)); HP = {'SingleLinkageClusterNode': 'nodes', 'CondensedClusterNode': 'cn'}; CLS = 'CondensedClusterTree'
AR = AI(Real_); ARR = AI(z3.ArraySort(Real_, Real_))
LAM = z3.Function('LAM', Real_, Real_)
class C:
    def __init__(self, e):
        f = e.cn.el.f; self.root, self.lmin, self.stab, self.sel, self.P, self.L, self.R = f['single_linkage_cluster_node_root_'].idx, f['lambda_min_'], f['stability_'], f['is_selected_'], f['parent_'].idx, f['left_'].idx, f['right_'].idx; self.len = e.cn.len
    def leaf(self, m): return And(self.L[m] < 0, self.R[m] < 0)
inv = Contract('division', [Sc('x', RE), Sc('y', RE), Sc('z', RE)], [], [('inverse, 0 for 0', lambda e: Implies(And(e.x == 1, e.z == 0), e.result == LAM(e.y)))], result=RE, trusted='LAM(y) stands for 1 / y, or 0 if y is 0: common::division is proved to compute it in P21')
class With:
    """the environment with the minimum size the constructor is given"""
    def __init__(self, e, ms): self.__dict__.update(_e=e, ms=ms)
    def __getattr__(self, n): return getattr(self._e, n)
def mins(e): return e.ms if isinstance(e, With) else e.this.options_.f['min_cluster_size_']
def inside(e, n): return p12.inside(e, n)
def lev0(e): t = N(e); return forall(0, t.len, lambda m: Implies(t.leaf(m), t.lev[m] == 0), pat=lambda m: t.lev[m])
# labels of a cluster
lbl = Contract('preorder_traversal_single_linkage_clustering', [Sc('label'), Pt('nodes', 'node'), Ob('flat', VecOf(SZ))], [('a tree', TREE), ('leaves at level 0', lev0), ('a node', lambda e: e.node >= 0), ('the labels of all samples', lambda e: inside(e, e.flat.len))],
    [('exactly the samples of the cluster are labelled', lambda e: And(e.flat.len == e.old.flat.len, forall_raw([Int_], lambda x: e.flat.el[x] == If(e.mem[e.node][x], e.label, e.old.flat.el[x]), pat=lambda x: [e.flat.el[x], e.old.flat.el[x]])))],
    cls=CLS, this=THIS, objs=OB, ghosts=dict(mem=ABB, bel=ABB), modifies=['flat'], heaps=HP, decreases=lambda e: e.node)
# condensation
def split(e, d): t = N(e); return And(Not(t.leaf(d)), t.size[t.L[d]] >= mins(e), t.size[t.R[d]] >= mins(e))
# where the cluster that goes on at s ends (it goes on into the only child that is large enough), and the excess of mass of the samples below s that belong to a cluster which appeared at the inverse level l:
# defined by recursion over a tree whose children come before their parent
EN = z3.Function('EN', A, A, A, Int_, Int_, A); EOM = z3.Function('EOM', A, A, A, AR, Int_, Int_, ARR)
_s, _L, _R, _Z, _v, _b = z3.Const('st!', AR), z3.Const('L!', A), z3.Const('R!', A), z3.Const('Z!', A), z3.Const('lv!', AR), z3.Const('b!', AI(Bool_)); _n, _m, _h = z3.Ints('n! m! h!'); _l = z3.Real('l!')
def lf(m): return And(_L[m] < 0, _R[m] < 0)
def oks(m): return And(0 <= m, m < _n, Or(lf(m), And(0 <= _L[m], _L[m] < m, 0 <= _R[m], _R[m] < m)))
def sdefs():
    X, M, s, l = EN(_L, _R, _Z, _h, _n), EOM(_L, _R, _Z, _v, _h, _n), _m, _l; x, y = _Z[_L[s]] >= _h, _Z[_R[s]] >= _h; g = LAM(_v[s]) - l; Z = lambda k: z3.ToReal(_Z[k])
    return [FA([_L, _R, _Z, _h, _n, _m], Implies(oks(s), And(0 <= X[s], X[s] < _n, X[s] == If(Or(lf(s), x == y), s, If(x, X[_L[s]], X[_R[s]])))), X[s]),
        FA([_L, _R, _Z, _v, _h, _n, _m, _l], Implies(oks(s), M[s][l] == If(lf(s), RealVal(0), If(x == y, Z(s) * g, If(x, Z(_R[s]) * g + M[_L[s]][l], Z(_L[s]) * g + M[_R[s]][l])))), M[s][l])]
def en(e): t = N(e); return EN(t.L, t.R, t.size, mins(e), t.len)
def eom(e): t = N(e); return EOM(t.L, t.R, t.size, t.lev, mins(e), t.len)
def par(e): t = N(e); return forall(0, t.len, lambda m: And(-1 <= t.P[m], t.P[m] < t.len, Implies(Not(t.leaf(m)), And(t.P[t.L[m]] == m, t.P[t.R[m]] == m))), pat=lambda m: [t.L[m], t.P[m]])
def born(e, s): t = N(e); return If(t.P[s] >= 0, LAM(t.lev[t.P[s]]), RealVal(0))
def cw(e, m, s):
    """the children of the condensed node m, whose cluster has been followed from s on"""
    t, c = N(e), C(e)
    return And(c.leaf(m) == Not(split(e, en(e)[s])), c.sel[m] == c.leaf(m), m < e.ce[m], e.ce[m] <= c.len,
        If(c.leaf(m), e.ce[m] == m + 1, And(c.L[m] == m + 1, c.R[m] == e.ce[c.L[m]], e.ce[m] == e.ce[c.R[m]], c.R[m] > c.L[m], c.R[m] < c.len, c.P[c.L[m]] == m, c.P[c.R[m]] == m, c.root[c.L[m]] == t.L[en(e)[s]], c.root[c.R[m]] == t.R[en(e)[s]])))
def full(e, m): t, c = N(e), C(e); return And(cw(e, m, c.root[m]), 0 <= c.root[m], c.root[m] < t.len, c.lmin[m] == born(e, c.root[m]), c.stab[m] == eom(e)[c.root[m]][c.lmin[m]])
def deeper(e, lo, hi): t, c = N(e), C(e); return forall(lo, hi, lambda m: And(full(e, m), t.size[c.root[m]] >= mins(e)), pat=lambda m: [c.L[m], c.sel[m], c.root[m], c.stab[m]])
def nested(e, lo, top=None):
    """the samples of a condensed node belong to every condensed node above it"""
    c = C(e); return forall_raw([Int_, Int_, Int_], lambda m, k, x: Implies(And(lo <= m, m < c.len, m <= k, k < e.ce[m], e.mem[c.root[k]][x]), e.mem[c.root[m]][x]), pat=lambda m, k, x: z3.MultiPattern(e.ce[m], e.mem[c.root[k]][x]))
def TR(e): t = N(e); return And(TREE(e), par(e))
GB = dict(mem=ABB, bel=ABB, ce=A)
def sub(e): c = C(e); return forall_raw([Int_, Int_], lambda k, x: Implies(And(e.c < k, k < c.len, e.mem[c.root[k]][x]), e.mem[e.s][x]), pat=lambda k, x: e.mem[c.root[k]][x])
def keep(e):
    o = e.old; a, b = leaves(o.cn.el), leaves(e.cn.el); c, d = C(e), C(o)
    return And(e.cn.len >= o.cn.len, forall(0, e.c, lambda m: And(*[y[m] == x[m] for x, y in zip(a, b)], e.ce[m] == o.ce[m]), pat=lambda m: [y[m] for y in b] + [e.ce[m]]), c.root[e.c] == d.root[e.c], c.lmin[e.c] == d.lmin[e.c], c.P[e.c] == d.P[e.c])
ptb = Contract('preorder_traversal_build', [Pt('cn', 'c'), Pt('nodes', 's')], [('a tree', TR), ('a node', lambda e: And(e.s >= 0, e.c >= 0)), ('the newest condensed node, without children', lambda e: And(e.c == e.cn.len - 1, C(e).L[e.c] == -1, C(e).R[e.c] == -1, Not(C(e).sel[e.c])))],
    [('earlier condensed nodes are untouched', keep), ('children and selection of the condensed node', lambda e: And(cw(e, e.c, e.s), e.ce[e.c] == e.cn.len)), ('the stability grows by the excess of mass', lambda e: C(e).stab[e.c] == C(e.old).stab[e.c] + eom(e)[e.s][C(e).lmin[e.c]]),
     ('the new condensed nodes', lambda e: deeper(e, e.c + 1, e.cn.len)), ('their samples are those below the node', sub), ('nested', lambda e: nested(e, e.c + 1))],
    cls=CLS, this=THIS, objs=OB, ghosts=GB, ghost_mod=['ce'], ghost_update=dict(ce=lambda e: z3.Store(e.ce, e.c, e.cn.len)), modifies=['cn'], heaps=HP, decreases=lambda e: e.s)
_a = z3.Const('a!', AR); _i, _j, _k = z3.Ints('i! j! k!')
def additive(a, i, j, k): return SUM(a, i, k) == SUM(a, i, j) + SUM(a, j, k)
SR = ('ptr', 'cn')
def hull(e, r): t, c = N(e), C(e); return And(r == e.old.cn.len, r < c.len, full(e, r), e.ce[r] == c.len, deeper(e, r + 1, c.len), nested(e, r))
bld = Contract('build', [Pt('nodes', 's')], [('a tree', TR), ('a node', lambda e: e.s >= 0)], [('the condensed tree', lambda e: hull(e, e.result.idx)), ('of the given node', lambda e: C(e).root[e.result.idx] == e.s)],
    cls=CLS, this=THIS, objs=OB, ghosts=GB, ghost_mod=['ce'], modifies=['cn'], result=SR, heaps=HP)
# selection
def shape(e):
    c = C(e); return forall(0, c.len, lambda m: And(m < e.ce[m], e.ce[m] <= c.len, If(c.leaf(m), e.ce[m] == m + 1, And(c.L[m] == m + 1, c.R[m] == e.ce[c.L[m]], e.ce[m] == e.ce[c.R[m]], c.R[m] > c.L[m], c.R[m] < c.len))), pat=lambda m: [c.L[m], e.ce[m]])
# defined by recursion over a tree whose children come after their parent and before n:
# BEST (largest total stability below m), TOT (that of any choice of clusters that are not nested: a cluster itself, or choices below its children, or none), CTOT (that of the topmost marked clusters)
BEST = z3.Function('BEST', AR, A, A, Int_, AR); TOT = z3.Function('TOT', AR, A, A, AI(Bool_), Int_, AR); CTOT = z3.Function('CTOT', AR, A, A, AI(Bool_), Int_, AR)
def okc(m): return And(0 <= m, m < _n, Or(lf(m), And(m < _L[m], _L[m] < _n, m < _R[m], _R[m] < _n)))
def defs():
    B, T, Q = BEST(_s, _L, _R, _n), TOT(_s, _L, _R, _b, _n), CTOT(_s, _L, _R, _b, _n)
    return [FA([_s, _L, _R, _n, _m], Implies(okc(_m), B[_m] == If(lf(_m), _s[_m], If(B[_L[_m]] + B[_R[_m]] > _s[_m], B[_L[_m]] + B[_R[_m]], _s[_m]))), B[_m]),
        FA([_s, _L, _R, _b, _n, _m], Implies(okc(_m), T[_m] == If(_b[_m], _s[_m], If(lf(_m), RealVal(0), T[_L[_m]] + T[_R[_m]]))), T[_m]),
        FA([_s, _L, _R, _b, _n, _m], Implies(okc(_m), Q[_m] == If(Or(_b[_m], lf(_m)), _s[_m], Q[_L[_m]] + Q[_R[_m]])), Q[_m])]
LEMMA_AXIOMS = defs()
def same_total(m):
    """marked exactly where nothing below is more stable: the topmost marked clusters reach the best total"""
    B, Q = BEST(_s, _L, _R, _n), CTOT(_s, _L, _R, _b, _n); d = DIFF(_s, _L, _R, _b, _n, m)
    bad = And(m <= d, d < _n, Or(Not(okc(d)), _b[d] != Or(lf(d), B[_L[d]] + B[_R[d]] <= _s[d])))
    return Or(Q[m] == B[m], bad)
DIFF = z3.Function('DIFF', AR, A, A, AI(Bool_), Int_, Int_, Int_)
def best(e): c = C(e); return BEST(c.stab, c.L, c.R, c.len)
def tot(e): c = C(e); return TOT(c.stab, c.L, c.R, e.pick, c.len)
def ctot(e): c = C(e); return CTOT(c.stab, c.L, c.R, c.sel, c.len)
def chosen(e, m): c = C(e); return Or(c.leaf(m), best(e)[c.L[m]] + best(e)[c.R[m]] <= c.stab[m])
def gain(e): return forall(0, e.cn.len, lambda m: C(e).stab[m] >= 0, pat=lambda m: C(e).stab[m])
def beats(e, lo, hi): return Implies(gain(e), forall(lo, hi, lambda m: tot(e)[m] <= best(e)[m], pat=lambda m: tot(e)[m]))
def only_sel(e): o = e.old; return And(e.cn.len == o.cn.len, *[x == y for k in CN[1] if k != 'is_selected_' for x, y in zip(leaves(o.cn.el.f[k]), leaves(e.cn.el.f[k]))])
SG = dict(ce=A, pick=AI(Bool_))
sel_ = Contract('select_subtree', [Pt('cn', 'c')], [('condensed tree', shape), ('a node', lambda e: e.c >= 0), ('only clusters to be chosen are marked', lambda e: forall(e.c, e.ce[e.c], lambda m: Implies(C(e).sel[m], chosen(e, m)), pat=lambda m: C(e).sel[m])), ('leaves are marked', lambda e: forall(e.c, e.ce[e.c], lambda m: Implies(C(e).leaf(m), C(e).sel[m]), pat=lambda m: C(e).sel[m]))],
    [('only the selection changes', only_sel), ('a cluster is chosen if nothing below it is more stable', lambda e: forall(0, e.cn.len, lambda m: C(e).sel[m] == If(And(e.c <= m, m < e.ce[e.c]), chosen(e, m), C(e.old).sel[m]), pat=lambda m: C(e).sel[m])),
     ('total stability of the best choice', lambda e: e.result == best(e)[e.c]), ('no other choice is more stable', lambda e: beats(e, e.c, e.ce[e.c]))],
    cls=CLS, this=THIS, objs=OB, ghosts=SG, modifies=['cn'], result=RE, heaps=HP, decreases=lambda e: e.cn.len - e.c)
AT = named_array('STAB_AT', [AR, A], Real_, lambda s, o, k: s[o[k]])
def marks(e):
    """leaves are marked"""
    c = C(e); return And(forall(0, c.len, lambda m: Implies(c.leaf(m), c.sel[m]), pat=lambda m: [c.sel[m], c.L[m]]))
def apart(e):
    """the two children of a condensed node share no sample"""
    c = C(e); return forall_raw([Int_, Int_], lambda m, x: Implies(And(0 <= m, m < c.len, Not(c.leaf(m)), e.mem[c.root[c.L[m]]][x]), Not(e.mem[c.root[c.R[m]]][x])), pat=lambda m, x: [e.mem[c.root[c.L[m]]][x], e.mem[c.root[c.R[m]]][x]])
def fills(e, O, lo, hi, m0): c = C(e); return forall(lo, hi, lambda j: And(m0 <= O[j], O[j] < e.ce[m0], 0 <= O[j], O[j] < c.len, c.sel[O[j]]), pat=lambda j: O[j])
def disjoint(e, O, lo, hi): c = C(e); return forall_raw([Int_, Int_, Int_], lambda i, j, x: Implies(And(lo <= i, i < j, j < hi, e.mem[c.root[O[i]]][x]), Not(e.mem[c.root[O[j]]][x])), pat=lambda i, j, x: z3.MultiPattern(e.mem[c.root[O[i]]][x], O[j]))
FG = dict(mem=ABB, ce=A)
FR = [('condensed tree', shape), ('marks', marks), ('nested samples', lambda e: nested(e, 0)), ('children share no sample', apart)]
fill = Contract('preorder_traversal_fill_shallowest_selected_nodes', [Pt('cn', 'c'), Ob('out', VecOf(SR))], FR + [('a node', lambda e: e.c >= 0)],
    [('appends', lambda e: And(e.out.len >= e.old.out.len, forall(0, e.old.out.len, lambda j: e.out.el.idx[j] == e.old.out.el.idx[j], pat=lambda j: e.out.el.idx[j]))), ('marked clusters', lambda e: fills(e, e.out.el.idx, e.old.out.len, e.out.len, e.c)), ('not nested', lambda e: disjoint(e, e.out.el.idx, e.old.out.len, e.out.len)),
     ('their total stability', lambda e: SUM(AT(C(e).stab, e.out.el.idx), e.old.out.len, e.out.len) == ctot(e)[e.c])],
    cls=CLS, this=THIS, objs=OB, ghosts=FG, modifies=['out'], heaps=HP, at_return=[lambda e: SUM(AT(C(e).stab, e.out.el.idx), e.old.out.len, e.old.out.len) == 0], decreases=lambda e: e.cn.len - e.c)
ssel = Contract('return_shallowest_cluster_selection', [], FR + [('a root', lambda e: And(0 <= e.this.root_.idx, e.this.root_.idx < e.cn.len))],
    [('marked clusters', lambda e: fills(e, e.result.el.idx, 0, e.result.len, e.this.root_.idx)), ('not nested', lambda e: disjoint(e, e.result.el.idx, 0, e.result.len)), ('their total stability', lambda e: SUM(AT(C(e).stab, e.result.el.idx), 0, e.result.len) == ctot(e)[e.this.root_.idx])],
    cls=CLS, this=THIS, objs=OB, ghosts=FG, result=VecOf(SR), heaps=HP)
def top(e): return C(e).root[e.this.root_.idx]
def count(e): return N(e).size[top(e)]
def roots(e): t, c = N(e), C(e); return forall(0, c.len, lambda m: And(0 <= c.root[m], c.root[m] < t.len), pat=lambda m: c.root[m])
def labelled(e, F, O, k, n):
    c = C(e)
    return And(F.len == n, forall_raw([Int_, Int_], lambda j, x: Implies(And(0 <= j, j < k, e.mem[c.root[O[j]]][x]), F.el[x] == j + 1), pat=lambda j, x: e.mem[c.root[O[j]]][x]),
        forall(0, n, lambda x: Or(F.el[x] == 0, And(1 <= F.el[x], F.el[x] <= k, e.mem[c.root[O[F.el[x] - 1]]][x])), pat=lambda x: F.el[x]))
def SELE(e): return e.sel
ER = FR + [('a root', lambda e: And(0 <= e.this.root_.idx, e.this.root_.idx < e.cn.len)), ('a tree', TREE), ('leaves at level 0', lev0), ('clusters of the tree', roots), ('the samples are 0 to the size of the root', lambda e: inside(e, count(e)))]
EE = [('one label per sample', lambda e: e.result.len == count(e)), ('marked clusters', lambda e: fills(e, e.out.el.idx, 0, e.out.len, e.this.root_.idx)), ('not nested', lambda e: disjoint(e, e.out.el.idx, 0, e.out.len)), ('their total stability', lambda e: SUM(AT(C(e).stab, e.out.el.idx), 0, e.out.len) == ctot(e)[e.this.root_.idx]),
      ('samples of the k-th cluster are labelled k, all others 0', lambda e: labelled(e, e.result, e.out.el.idx, e.out.len, count(e)))]
ext = Contract('extract_flat_clusters', [], ER, EE, cls=CLS, this=THIS, objs=OB, ghosts=dict(FG, bel=ABB), result=VecOf(SZ), heaps=HP, gres=dict(out=(VecOf(SR), lambda e: e.locv('__range'))),
    loops={0: Loop(('clusters so far', lambda e: And(0 <= e.i, e.i <= e.locv('__range').len, e.loc('cluster_label') == e.i + 1)), ('labels so far', lambda e: labelled(e, e.locv('flat_cluster'), e.locv('__range').el.idx, e.i, count(e))), decreases=lambda e: e.locv('__range').len - e.i)})
# construction
def start(ms): return [('a tree', lambda e: TR(With(e, ms(e)))), ('leaves at level 0', lev0), ('a node', lambda e: e.s >= 0), ('no condensed node yet', lambda e: e.cn.len == 0)]
def leafmode(e): return e.this.options_.f['return_leaf_nodes_']
def single(e): return e.this.options_.f['allow_single_cluster_']
def marked(e): c = C(e); return forall(0, c.len, lambda m: c.sel[m] == If(leafmode(e), c.leaf(m), And(chosen(e, m), Or(m > 0, c.leaf(0), single(e)))), pat=lambda m: c.sel[m])
def total(e): c = C(e); return Implies(Not(leafmode(e)), ctot(e)[0] == If(Or(c.leaf(0), single(e)), best(e)[0], best(e)[c.L[0]] + best(e)[c.R[0]]))
def fulls(e): t, c = N(e), C(e); return forall(0, c.len, lambda m: And(0 <= c.root[m], c.root[m] < t.len, Implies(m > 0, t.size[c.root[m]] >= mins(e)), c.lmin[m] == born(e, c.root[m]), c.stab[m] == eom(e)[c.root[m]][c.lmin[m]], c.leaf(m) == Not(split(e, en(e)[c.root[m]])), Implies(Not(c.leaf(m)), And(c.root[c.L[m]] == t.L[en(e)[c.root[m]]], c.root[c.R[m]] == t.R[en(e)[c.root[m]]]))), pat=lambda m: [c.root[m], c.stab[m], c.L[m]])
CE = [('the condensed tree of the given node', lambda e: And(e.this.root_.idx == 0, e.cn.len > 0, C(e).root[0] == e.s, e.ce[0] == e.cn.len)), ('a cluster ends where both branches are large enough, or in no large enough branch; its stability is its excess of mass', fulls), ('shape', shape), ('nested samples', lambda e: nested(e, 0)), ('children share no sample', apart), ('clusters of the tree', roots),
      ('selection', marked), ('leaves are marked', marks), ('total stability of the selection is the largest possible', total), ('no other choice is more stable', lambda e: Implies(Not(leafmode(e)), beats(e, 0, e.cn.len)))]
ctor2 = Contract('CondensedClusterTree', [Pt('nodes', 's'), Ob('o', OPT)], start(lambda e: e.o.f['min_cluster_size_']), [('options', lambda e: equal(e.this.options_, e.o))] + CE, cls=CLS, this=THIS, objs=OB, ghosts=dict(GB, pick=AI(Bool_)), ghost_mod=['ce'], modifies=['cn', 'this.options_', 'this.root_'], heaps=HP, name='CondensedClusterTree(root, options)')
ctor1 = Contract('CondensedClusterTree', [Pt('nodes', 's')], start(lambda e: IntVal(1)), [('default options', lambda e: And(mins(e) == 1, Not(single(e)), Not(leafmode(e))))] + CE, cls=CLS, this=THIS, objs=OB, ghosts=dict(GB, pick=AI(Bool_)), ghost_mod=['ce'], modifies=['cn', 'this.options_', 'this.root_'], heaps=HP, name='CondensedClusterTree(root)')
prd = Contract('predict', [], ER, EE, cls=CLS, this=THIS, objs=OB, ghosts=dict(FG, bel=ABB), result=VecOf(SZ), heaps=HP, gres=dict(out=(VecOf(SR), lambda e: e._st.vars['gh:out'])))
EXTRA_AXIOMS = [z3.Const('EPS', Real_) > 0, FA([_a, _i, _j, _k], Implies(And(_i <= _j, _j <= _k), additive(_a, _i, _j, _k)), z3.MultiPattern(SUM(_a, _i, _k), SUM(_a, _j, _k)))] + defs() + sdefs()
EXTRA_AXIOMS += [FA([_s, _L, _R, _b, _n, _m], Implies(And(0 <= _m, _m < _n), same_total(_m)), CTOT(_s, _L, _R, _b, _n)[_m])]
def LEMMAS():
    B, Q = BEST(_s, _L, _R, _n), CTOT(_s, _L, _R, _b, _n)
    hyp = lambda m: forall(m, _n, lambda d: And(okc(d), _b[d] == Or(lf(d), B[_L[d]] + B[_R[d]] <= _s[d])), pat=lambda d: [_b[d], _L[d]])
    return [('sums are additive: base', [_i <= _j], additive(_a, _i, _j, _j)), ('sums are additive: step', [_i <= _j, _j <= _k, additive(_a, _i, _j, _k)], additive(_a, _i, _j, _k + 1)),
        ('marks of the best choice: from all later clusters to this one', [0 <= _m, _m < _n, hyp(_m), forall(_m + 1, _n, lambda d: Implies(hyp(d), Q[d] == B[d]), pat=lambda d: Q[d])], Q[_m] == B[_m])]
CONTRACTS = [inv, lbl, ptb, bld, sel_, fill, ssel, ext, ctor2, ctor1, prd]
# the whole pipeline
HOPT = Rec('Options', k_nearest_neighbors_=SZ, min_cluster_size_=SZ, return_leaf_nodes_=BO, allow_single_cluster_=BO); HTHIS = dict(options_=HOPT)
KOPT = Rec('Options', k_nearest_neighbors_=SZ); BTHIS = dict(options_=KOPT)
MST = z3.Function('MST', A, A, AR, Int_, Int_, Bool_)      # the edges are a minimum spanning tree under the mutual reachability distance of k neighbours
HTU = ('p13h.cpp', ('ffcl', 'rapidjson'))
mt = Contract('make_tree', [Skip()], [], [('edges of the samples', lambda e: p12.ends(e.result)), ('the edges connect all samples', lambda e: p12.conn(e.result)), ('minimum spanning tree', lambda e: MST(*p12.ed(e.result), e.this.options_.f['k_nearest_neighbors_']))],
    cls='BoruvkasAlgorithm', this=BTHIS, result=VecOf(p12.EDGE), trusted='a minimum spanning tree over the samples: property P11')
bo = Contract('BoruvkasAlgorithm', [Ob('o', KOPT)], [], [('options', lambda e: equal(e.this.options_, e.old.o))], cls='BoruvkasAlgorithm', this=BTHIS, modifies=['this'])
def hopt(n): return lambda e: e.this.options_.f[n]
hso = Contract('set_options', [Ob('o', HOPT)], [], [('the given options', lambda e: equal(e.this.options_, e.old.o))], cls='HDBSCAN', this=HTHIS, modifies=['this.options_'], result=('opaque',))
hct = Contract('HDBSCAN', [Ob('o', HOPT)], [], [('the given options', lambda e: equal(e.this.options_, e.old.o))], cls='HDBSCAN', this=HTHIS, modifies=['this'])
def cnt0(e): return N(e).size[C(e).root[0]]
via = lambda g: lambda e: e._st.vars['gh:' + g]
hpr = Contract('predict', [Skip()], [('no nodes yet', lambda e: And(e.nodes.len == 0, e.cn.len == 0, e.c == 0))],
    [('minimum spanning tree for the number of neighbours', lambda e: MST(*p12.ed(e.edges), e.this.options_.f['k_nearest_neighbors_'])), ('one label per sample', lambda e: And(e.result.len == e.edges.len + 1, cnt0(e) == e.edges.len + 1, e.mem[C(e).root[0]][0])),
     ('the given options', lambda e: And(*[e.opts.f[k] == e.this.options_.f[k] for k in OPT[1]])),
     ('single-linkage tree of its edges', lambda e: And(TREE(e), p12.M4(Sl(e), e.en, e.edges.len), forall(e.edges.len + 1, e.nodes.len, lambda m: And(0 <= e.eg[m], e.eg[m] < e.edges.len, N(e).lev[m] == p12.ed(e.sorted)[2][e.eg[m]]), pat=lambda m: e.eg[m]), p12.same(e, e.sorted, e.edges))),
     ('clusters of at least the minimum size; stability is the excess of mass', fulls), ('shape', shape), ('selection', marked), ('total stability of the selection is the largest possible', total), ('no other choice is more stable', lambda e: Implies(Not(leafmode(e)), beats(e, 0, e.cn.len))),
     ('marked clusters', lambda e: fills(e, e.out.el.idx, 0, e.out.len, IntVal(0))), ('not nested', lambda e: disjoint(e, e.out.el.idx, 0, e.out.len)), ('their total stability', lambda e: SUM(AT(C(e).stab, e.out.el.idx), 0, e.out.len) == ctot(e)[0]),
     ('samples of the k-th cluster are labelled k, all others 0', lambda e: labelled(e, e.result, e.out.el.idx, e.out.len, e.edges.len + 1))],
    cls='HDBSCAN', this=HTHIS, objs=OB, ghosts=dict(p12.GB, ce=A, pick=AI(Bool_)), ghost_mod=['rep', 'dep', 'ce'], modifies=['nodes', 'cn'], result=VecOf(SZ), heaps=HP,
    gres=dict({g: (sh, via(g)) for g, sh in dict(frm=A, to=A, mem=ABB, bel=ABB, eg=A, en=A, out=VecOf(SR)).items()}, opts=(OPT, lambda e: e.locv('condensed_cluster_tree').f['options_']), edges=(VecOf(p12.EDGE), lambda e: e.locv('minimum_spanning_tree')), sorted=(VecOf(p12.EDGE), lambda e: e.locv('single_linkage_cluster_tree').f['sorted_mst_'])))
class Sl:
    """the environment with the sorted edges as those of this tree"""
    def __init__(self, e): self.__dict__.update(_e=e, this=type('T', (), dict(sorted_mst_=e.sorted)))
    def __getattr__(self, n): return getattr(self._e, n)
for c in (bo, hso, hct, hpr): c.tu = HTU
CONTRACTS += [mt, bo, hso, hct, hpr] + p12.CT
for c in p12.CT: c.trusted = 'proved in P12'; c.tu = None
EXTRA_AXIOMS += p12.EXTRA_AXIOMS
