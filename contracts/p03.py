"""P03: construction of a k-d tree.  Ghosts: slo/shi (positions of the index sequence below a node), dep (depth of a node)."""
from core import *
from engine import *
import p02
LEVEL_NOTE = "Proved for every dataset, bucket size, maximum depth and feature mask on the real constructor, build, quickselect_median, shift, make_tight_bound and the cyclic and maximum-spread policies over double: the nodes partition the index range, the indices are permuted and the data untouched, every pivot separates its sides, every box encloses its samples, the limits are respected. The highest-variance policy (random) is assumed to return a feature of the data; integral features and serialisation are covered by the bounded stand-in only."
TU = ('p03.cpp', ('ffcl',))
PI = ('ptr', 'idx'); PR = Tup(PI, PI)
OB = dict(idx=VecOf(SZ), s=VecOf(RE))
def key(e, I, p, fi=None): return e.s.el[mul(I.el[p], e.nf) + (e.fi if fi is None else fi)]
def rng(v): return v.f['0'].idx, v.f['1'].idx
def valid(e, I, a, b): return forall(a, b, lambda p: And(I.el[p] >= 0, MULI(I.el[p], e.nf) >= 0, mul(I.el[p], e.nf) + e.nf <= e.s.len), pat=lambda p: I.el[p])
def le(e, I, a, b, v): return forall(a, b, lambda p: key(e, I, p) <= v, pat=lambda p: I.el[p])
def ge(e, I, a, b, v): return forall(a, b, lambda p: key(e, I, p) >= v, pat=lambda p: I.el[p])
FI = ('feature of the data', lambda e: And(0 <= e.fi, e.fi < e.nf))
def split(e, lo, hi):
    """the three ranges of the result are [lo,c), [c,c+1), [c+1,hi)"""
    r = e.result; l, m, h = rng(r.f['1']), rng(r.f['2']), rng(r.f['3']); c = m[0]
    return And(r.f['0'] == c - lo, l[0] == lo, l[1] == c, m[1] == c + 1, h[0] == c + 1, h[1] == hi, lo <= c, c < hi)
def sep(e, lo, hi): c = rng(e.result.f['2'])[0]; return And(le(e, e.idx, lo, c, key(e, e.idx, c)), ge(e, e.idx, c + 1, hi, key(e, e.idx, c)))
RES = Tup(SZ, PR, PR, PR)
shift = Contract('shift_median_to_leftmost_equal_value', [Sc('mi'), Ob('l', PR), Ob('m', PR), Ob('r', PR), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Sc('fi')],
    [('adjacent ranges', lambda e: And(0 <= rng(e.l)[0], rng(e.l)[0] <= rng(e.l)[1], rng(e.l)[1] == rng(e.m)[0], rng(e.m)[1] == rng(e.m)[0] + 1, rng(e.r)[0] == rng(e.m)[1], rng(e.r)[0] <= rng(e.r)[1], rng(e.r)[1] <= e.idx.len, e.mi == rng(e.m)[0] - rng(e.l)[0])), FI,
     ('indices of rows', lambda e: valid(e, e.idx, rng(e.l)[0], rng(e.r)[1])), ('no larger key before the pivot', lambda e: le(e, e.idx, rng(e.l)[0], rng(e.m)[0], key(e, e.idx, rng(e.m)[0]))), ('no smaller key after the pivot', lambda e: ge(e, e.idx, rng(e.m)[0], rng(e.r)[1], key(e, e.idx, rng(e.m)[0])))],
    [('adjacent ranges', lambda e: split(e, rng(e.old.l)[0], rng(e.old.r)[1])), ('no larger key before the pivot, no smaller one after it', lambda e: sep(e, rng(e.old.l)[0], rng(e.old.r)[1]))],
    objs=OB, result=RES, modifies=['l', 'm', 'r'],
    loops={0: Loop(('equal keys down to the pivot', lambda e: And(rng(e.old.l)[0] - 1 <= e.loc('left_neighbor_it'), e.loc('left_neighbor_it') < rng(e.old.m)[0], forall(e.loc('left_neighbor_it') + 1, rng(e.old.m)[0], lambda p: key(e, e.idx, p) == e.loc('cut_value'), pat=lambda p: e.idx.el[p]))), decreases=lambda e: e.loc('left_neighbor_it') + 1)})
def RG(e): return And(0 <= e.lo, e.lo < e.hi, e.hi <= e.idx.len)
def perm(e): return And(PERM(e.old.idx.el, e.idx.el, e.lo, e.hi), e.idx.len == e.old.idx.len)
A6 = [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Sc('fi')]
def cut(fn, cls=None): return Contract(fn, A6, [('not empty', RG), FI, ('indices of rows', lambda e: valid(e, e.idx, e.lo, e.hi))],
    [('permutation of the range', perm), ('indices of rows', lambda e: valid(e, e.idx, e.lo, e.hi)), ('adjacent ranges', lambda e: split(e, e.lo, e.hi)), ('no larger key before the pivot, no smaller one after it', lambda e: sep(e, e.lo, e.hi))], objs=OB, modifies=['idx'], result=RES, cls=cls)
med = cut('quickselect_median'); qmr = cut('operator()', 'QuickselectMedianRange'); rule = cut('operator()', 'SplittingRulePolicy')
rule.trusted = 'contract of the virtual splitting rule; its only implementation QuickselectMedianRange is proved to satisfy it'

# the tree
from search import node_shape, N
from p05 import BOX, SEG, FV, ub
NODE = node_shape(BOX(SEG)); BX = BOX(SEG)
OBT = dict(OB, nodes=VecOf(NODE)); TGB = dict(slo=AI(Int_), shi=AI(Int_), dep=AI(Int_))
OPT = Rec('Options', bucket_size_=SZ, max_depth_=SZ, axis_selection_policy_ptr_=('opaque',), splitting_rule_policy_ptr_=('opaque',))
THIS = dict(options_=OPT, samples_range_first_=('ptr', 's'), samples_range_last_=('ptr', 's'), n_features_=SZ, bound_=BX, root_=('ptr', 'nodes'))
def nf(e): return e.this.n_features_
def ft(e, x, k): return e.s.el[mul(x, nf(e)) + k]
def segs(b): v = b.f['segments_'].f['values_']; return v.el.f['segment_representation_'].f['0'], v.el.f['segment_representation_'].f['1'], v.len
def inb(e, lo, hi, I, a, b):
    """every sample at a position of [a,b) lies between lo and hi in every feature"""
    return forall_raw([Int_, Int_], lambda p, k: Implies(And(a <= p, p < b, 0 <= k, k < nf(e)), And(lo[k] <= ft(e, I[p], k), ft(e, I[p], k) <= hi[k])), pat=lambda p, k: z3.MultiPattern(I[p], lo[k]))
def nbox(e): return segs(e.nodes.el.f['bound_'])
def bwf(e): l, h, n = segs(e.b); return n == nf(e)
def W3(e): t = e.this; return And(nf(e) >= 1, t.samples_range_first_.idx == 0, t.samples_range_last_.idx == e.s.len)
def vrows(e, a, b): return forall(a, b, lambda p: And(e.idx.el[p] >= 0, MULI(e.idx.el[p], nf(e)) >= 0, mul(e.idx.el[p], nf(e)) + nf(e) <= e.s.len), pat=lambda p: e.idx.el[p])
def new(e, m): return And(e.old.nodes.len <= m, m < e.nodes.len)
def ranges(e):
    """the new nodes: the result, the nodes of the left and those of the right subtree (built in this order)"""
    t = N(e); r = e.result.idx; return [(r, r + 1), (r + 1, t.R[r]), (If(t.R[r] < 0, t.len, t.R[r]), t.len)]
def B1(e, rg=None):
    rg = rg or [(e.old.nodes.len, e.nodes.len)]
    """the new nodes form a tree below the result; its ranges nest inside [lo,hi)"""
    t = N(e); r = e.result.idx
    def body(m):
        return And(e.lo <= e.slo[m], e.slo[m] <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= e.shi[m], e.shi[m] <= e.hi, Or(t.leaf(m), And(new(e, t.L[m]), new(e, t.R[m]))),
            Implies(t.leaf(m), And(e.slo[m] == t.lo[m], e.shi[m] == t.hi[m])),
            Implies(Not(t.leaf(m)), And(t.L[m] != t.R[m], t.P[t.L[m]] == m, t.P[t.R[m]] == m, e.slo[t.L[m]] == e.slo[m], e.shi[t.L[m]] == t.lo[m], e.slo[t.R[m]] == t.hi[m], e.shi[t.R[m]] == e.shi[m],
                t.hi[m] == t.lo[m] + 1, 0 <= t.cut[m], t.cut[m] < nf(e), e.dep[t.L[m]] == e.dep[m] + 1, e.dep[t.R[m]] == e.dep[m] + 1)))
    return And(r == e.old.nodes.len, new(e, r), t.P[r] == -1, e.slo[r] == e.lo, e.shi[r] == e.hi, e.dep[r] == e.depth, *[forall(a, b, body, pat=lambda m: [t.L[m], e.slo[m]]) for a, b in rg])
def inr(m, a): return And(a[0] <= m, m < a[1])
def B2(e, rg=None):
    rg = rg or [(e.old.nodes.len, e.nodes.len)]
    t = N(e); I = e.idx.el
    return And(*[forall_raw([Int_, Int_], lambda m, p: Implies(And(inr(m, a), Not(t.leaf(m))), And(Implies(And(e.slo[m] <= p, p < t.lo[m]), ft(e, I[p], t.cut[m]) <= ft(e, I[t.lo[m]], t.cut[m])),
        Implies(And(t.hi[m] <= p, p < e.shi[m]), ft(e, I[p], t.cut[m]) >= ft(e, I[t.lo[m]], t.cut[m])))), pat=lambda m, p: z3.MultiPattern(t.L[m], I[p])) for a in rg])
def B3(e, rg=None):
    rg = rg or [(e.old.nodes.len, e.nodes.len)]
    """boxes"""
    lo, hi, n = nbox(e); I = e.idx.el
    return And(forall(e.old.nodes.len, e.nodes.len, lambda m: n[m] == nf(e), pat=lambda m: n[m]),
        *[forall_raw([Int_, Int_, Int_], lambda m, p, k: Implies(And(inr(m, a), e.slo[m] <= p, p < e.shi[m], 0 <= k, k < nf(e)), And(lo[m][k] <= ft(e, I[p], k), ft(e, I[p], k) <= hi[m][k])), pat=lambda m, p, k: z3.MultiPattern(lo[m][k], I[p])) for a in rg])
def B4(e):
    t = N(e); o = e.this.options_.f
    return forall(e.old.nodes.len, e.nodes.len, lambda m: And(Implies(t.leaf(m), Or(e.shi[m] - e.slo[m] <= o['bucket_size_'], e.dep[m] >= o['max_depth_'])), Implies(Not(t.leaf(m)), And(e.dep[m] < o['max_depth_'], e.shi[m] - e.slo[m] > o['bucket_size_']))), pat=lambda m: t.L[m])
def B5(e):
    t = N(e); return forall(e.old.nodes.len, e.nodes.len, lambda m: Implies(m != e.result.idx, And(new(e, t.P[m]), Not(t.leaf(t.P[m])), Or(t.L[t.P[m]] == m, t.R[t.P[m]] == m))), pat=lambda m: t.P[m])
def FR(e):
    o = e.old; a, b = leaves(o.nodes.el), leaves(e.nodes.el)
    return And(e.nodes.len >= o.nodes.len, *[forall_raw([Int_, Int_], lambda m, k: Implies(And(0 <= m, m < o.nodes.len), y[m][k] == x[m][k]), pat=lambda m, k: y[m][k]) if z3.is_array(y[0]) else forall(0, o.nodes.len, lambda m: y[m] == x[m], pat=lambda m: y[m]) for x, y in zip(a, b)], *[forall(0, o.nodes.len, lambda m: getattr(e, g)[m] == getattr(o, g)[m], pat=lambda m: getattr(e, g)[m]) for g in TGB])
axis = Contract('operator()', [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Sc('depth'), Ob('b', BX)], [('features', lambda e: e.nf >= 1), ('box of all features', lambda e: segs(e.b)[2] == e.nf)],
    [('a feature of the data', lambda e: And(0 <= e.result, e.result < e.nf))], objs=OB, result=SZ, cls='AxisSelectionPolicy', trusted='the axis selection policies return a feature of the data')
build = Contract('build', [Itp('idx', 'lo'), Itp('idx', 'hi'), Sc('fc'), Sc('depth'), Ob('b', BX)],
    [('a range', lambda e: e.lo <= e.hi), ('tree over the data', W3), ('box of all features', bwf), ('indices of rows', lambda e: vrows(e, e.lo, e.hi)), ('the box encloses the samples', lambda e: inb(e, segs(e.b)[0], segs(e.b)[1], e.idx.el, e.lo, e.hi))],
    [('permutation of the range', perm), ('nodes built before are untouched', FR), ('the new nodes partition the range', B1), ('parent links', B5), ('the pivot separates the two sides along the cut axis', B2), ('the box of a node encloses the samples below it', B3), ('depth and bucket limits', B4), ('the box is handed back unchanged', lambda e: equal(e.b, e.old.b))],
    cls='KDTree', this=THIS, objs=OBT, ghosts=TGB, ghost_mod=list(TGB), ghost_update=dict(slo=lambda e: z3.Store(e.slo, e.result.idx, e.lo), shi=lambda e: z3.Store(e.shi, e.result.idx, e.hi), dep=lambda e: z3.Store(e.dep, e.result.idx, e.depth)),
    modifies=['idx', 'nodes', 'b'], result=('ptr', 'nodes'), heaps={'KDNodeView': 'nodes'}, at_return=[lambda e: B1(e, ranges(e)), lambda e: B2(e, ranges(e)), lambda e: B3(e, ranges(e))], decreases=lambda e: e.hi - e.lo)

def fin(e): return forall(0, e.s.len, lambda q: And(-INF <= e.s.el[q], e.s.el[q] <= INF), pat=lambda q: e.s.el[q])
def sl(e): v = e.locv('segments'); return v.el.f['segment_representation_'].f['0'], v.el.f['segment_representation_'].f['1'], v.len
def within(e, lo, hi, I, a, b, k0, k1): return forall_raw([Int_, Int_], lambda p, k: Implies(And(a <= p, p < b, k0 <= k, k < k1), And(lo[k] <= e.s.el[mul(I[p], e.nf) + k], e.s.el[mul(I[p], e.nf) + k] <= hi[k])), pat=lambda p, k: z3.MultiPattern(I[p], lo[k]))
tight = Contract('make_tight_bound', [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf')], [('a range', lambda e: e.lo <= e.hi), ('features', lambda e: e.nf >= 1), ('indices of rows', lambda e: valid(e, e.idx, e.lo, e.hi)), ('finite features', fin)],
    [('one segment per feature', lambda e: segs(e.result)[2] == e.nf), ('the box encloses the samples', lambda e: within(e, segs(e.result)[0], segs(e.result)[1], e.idx.el, e.lo, e.hi, 0, e.nf))], objs=OB, result=BX,
    loops={0: Loop(('position', lambda e: And(e.lo <= e.i, e.i <= e.hi, sl(e)[2] == e.nf)), ('encloses the samples so far', lambda e: within(e, *sl(e)[:2], e.idx.el, e.lo, e.i, 0, e.nf)), decreases=lambda e: e.hi - e.i),
           1: Loop(('feature', lambda e: And(0 <= e.i, e.i <= e.nf, e.lo <= e.j, e.j < e.hi, sl(e)[2] == e.nf)), ('encloses the samples so far', lambda e: within(e, *sl(e)[:2], e.idx.el, e.lo, e.j, 0, e.nf)),
               ('encloses the first features of the sample', lambda e: within(e, *sl(e)[:2], e.idx.el, e.j, e.j + 1, 0, e.i)), decreases=lambda e: e.nf - e.i)})
tight.ensures = [tight.ensures[0], tight.ensures[1]]

class With:
    """the environment e with some names replaced"""
    def __init__(self, e, **kw): self.__dict__.update(_e=e, **kw)
    def __getattr__(self, n): return getattr(self._e, n)
def root(f): return lambda e: f(With(e, result=e.this.root_, depth=IntVal(0)))
ctor = Contract('KDTree', [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Ob('o', OPT)],
    [('a range', lambda e: e.lo <= e.hi), ('features', lambda e: And(e.nf >= 1, e.s1 == e.s.len)), ('indices of rows', lambda e: valid(e, e.idx, e.lo, e.hi)), ('finite features', fin)],
    [('permutation of the indices', perm), ('nodes built before are untouched', FR), ('the nodes partition the indices', root(B1)), ('parent links', root(B5)), ('the pivot separates the two sides along the cut axis', root(B2)), ('the box of a node encloses the samples below it', root(B3)), ('depth and bucket limits', root(B4)),
     ('options kept', lambda e: equal(e.this.options_, e.old.o)), ('members describe the data', lambda e: And(e.this.n_features_ == e.nf, e.this.n_samples_ == e.hi - e.lo, e.this.samples_range_first_.idx == 0, e.this.samples_range_last_.idx == e.s.len)),
     ('the box of the tree encloses the samples', lambda e: And(segs(e.this.bound_)[2] == e.nf, inb(e, segs(e.this.bound_)[0], segs(e.this.bound_)[1], e.idx.el, e.lo, e.hi)))],
    cls='KDTree', this=THIS, objs=OBT, ghosts=TGB, ghost_mod=list(TGB), modifies=['idx', 'nodes', 'this'], heaps={'KDNodeView': 'nodes'})
# axis selection
AX = [Itp('idx', 'lo'), Itp('idx', 'hi'), Itp('s', 0), Itp('s', 's1'), Sc('nf'), Sc('depth'), Ob('b', BX)]
MASK = ('mask of features of the data', lambda e: forall(0, e.this.feature_mask_.len, lambda j: And(0 <= e.this.feature_mask_.el[j], e.this.feature_mask_.el[j] < e.nf), pat=lambda j: e.this.feature_mask_.el[j]))
def policy(cls): return Contract('operator()', AX, axis.requires + [MASK], axis.ensures, objs=OB, result=SZ, cls=cls, this=dict(feature_mask_=VecOf(SZ)))
cyc = policy('CycleThroughAxesBuild'); cyc.ensures = cyc.ensures + [('the features of the mask in turn', lambda e: If(e.this.feature_mask_.len == 0, e.result == mod(e.depth, e.nf), e.result == e.this.feature_mask_.el[mod(e.depth, e.this.feature_mask_.len)]))]
spr = policy('MaximumSpreadBuild')
def ext(b, k): l, h, n = segs(b); return zabs(h[k] - l[k])
longest = Contract('select_longest_axis', [Ob('b', BX)], [('not empty', lambda e: segs(e.b)[2] >= 1)], [('a feature', lambda e: And(0 <= e.result, e.result < segs(e.b)[2])), ('no feature spreads wider', lambda e: forall(0, segs(e.b)[2], lambda k: ext(e.b, k) <= ext(e.b, e.result), pat=lambda k: segs(e.b)[0][k]))], result=SZ)
longm = Contract('select_longest_axis', [Ob('b', BX), Ob('mask', VecOf(SZ))], [('not empty', lambda e: segs(e.b)[2] >= 1), ('mask of features', lambda e: forall(0, e.mask.len, lambda j: And(0 <= e.mask.el[j], e.mask.el[j] < segs(e.b)[2]), pat=lambda j: e.mask.el[j]))],
    [('a feature', lambda e: And(0 <= e.result, e.result < segs(e.b)[2])), ('no feature of the mask spreads wider', lambda e: forall(0, e.mask.len, lambda j: ext(e.b, e.mask.el[j]) <= ext(e.b, e.result), pat=lambda j: e.mask.el[j]))], result=SZ,
    loops={0: Loop(('widest so far', lambda e: And(0 <= e.loc('current_max_range_feature_index'), e.loc('current_max_range_feature_index') < segs(e.b)[2], e.loc('current_max_range') >= 0, e.loc('current_max_range') <= ext(e.b, e.loc('current_max_range_feature_index')),
        forall(0, e.i, lambda j: ext(e.b, e.mask.el[j]) <= e.loc('current_max_range'), pat=lambda j: e.mask.el[j]), e.i <= e.mask.len)), decreases=lambda e: e.mask.len - e.i)})
from p08 import box_ctors
BCT = box_ctors('LowerBoundAndUpperBound')
p02.quickselect.trusted = 'proved in P02'
CONTRACTS = [shift, med, qmr, rule, axis, build, tight, ctor, cyc, spr, longest, longm, p02.quickselect] + BCT
for c in BCT: c.trusted = 'proved in P08'
