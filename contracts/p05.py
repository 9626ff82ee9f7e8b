"""P05: range searches: the traversal of P04 with bounds."""
from search import *
LEVEL_NOTE = "Proved for every well-formed k-d tree, bound and capacity on the real code, for BallView, Ball and AABBWithCentroid with both segment types over double: the answer holds only samples within the bound, at their true distances, each once, and every sample within the bound unless the answer is full of samples at least as close. Integral features are covered by the bounded stand-in only."
TU = ('p05a.cpp', ('ffcl',))
PQ = ('ptr', 'q')
BV = Rec('BallView', centroid_features_range_first_=PQ, centroid_features_range_last_=PQ, radius_=RE)
def bvok(e, b): return And(b.f['centroid_features_range_first_'].idx == 0, b.f['centroid_features_range_last_'].idx == e.nf)
def inball(rad): return lambda e: forall_raw([Int_], lambda x: e.acc[x] == (D(e, x) < rad(bf(e).bound_)), pat=lambda x: e.acc[x])
UP = [p07.impl, p07.upd_any]
p07.impl.trusted = p07.upd_any.trusted = 'proved in P07'
CONTRACTS = make('Unsorted', 'BallView', 'p05a.cpp', {'BallView.centroid_features_range_first_': PQ, 'BallView.centroid_features_range_last_': PQ}, BV, bvok, accdef=inball(lambda b: b.f['radius_']), extra_contracts=UP)
FV = lambda sh: Rec('FeaturesVector', values_=VecOf(sh))
BALL = Rec('Ball', centroid_=FV(RE), radius_=RE)
def owned(e, b): v = b.f['centroid_'].f['values_']; return And(v.len == e.nf, v.el == e.q.el)
CONTRACTS += make('Unsorted', 'Ball', 'p05b.cpp', {}, BALL, owned, accdef=inball(lambda b: b.f['radius_']))
SEG = Rec('LowerBoundAndUpperBound', segment_representation_=Tup(RE, RE)); LEN = Rec('LowerBoundAndLength', segment_representation_=Tup(RE, RE))
BOX = lambda seg: Rec('AABBWithCentroid', centroid_=FV(RE), segments_=FV(seg))
def ub(x): return x.f['segment_representation_'].f['0'], x.f['segment_representation_'].f['1']
def ul(x): a, l = x.f['segment_representation_'].f['0'], x.f['segment_representation_'].f['1']; return a, a + l
def inseg(cv, segs, k, v):
    lo, hi = cv(sel(segs.el, k)); return And(lo <= v, v <= hi)
def boxok(e, b): return And(owned(e, b), b.f['segments_'].f['values_'].len == e.nf)
def inbox(cv): return lambda e: forall_raw([Int_], lambda x: e.acc[x] == forall(0, e.nf, lambda k: inseg(cv, bf(e).bound_.f['segments_'].f['values_'], k, feat(e, x, k))), pat=lambda x: e.acc[x])
def boxes(name, seg, cv, tu):
    segs = lambda e: e.this.segments_.f['values_']
    inb = Contract('is_in_bounds_impl', [Itp('s', 'p0'), Itp('s', 'p1')], [('one value per segment', lambda e: And(e.p0 <= e.p1, segs(e).len == e.p1 - e.p0))],
        [('inside exactly when every feature is inside its segment', lambda e: e.result == forall(0, e.p1 - e.p0, lambda k: inseg(cv, segs(e), k, e.s[e.p0 + k])))],
        cls='AABBWithCentroid', this=dict(centroid_=FV(RE), segments_=FV(seg)), objs=dict(s=VecOf(RE)), result=BO, name=f'AABBWithCentroid<{name}>::is_in_bounds_impl', loops={0: Loop(('inside so far', lambda e: And(0 <= e.i, e.i <= e.p1 - e.p0, forall(0, e.i, lambda k: inseg(cv, segs(e), k, e.s[e.p0 + k]), pat=lambda k: e.s.el[e.p0 + k]))), decreases=lambda e: e.p1 - e.p0 - e.i)})
    inb.tu = (tu, ('ffcl',))
    return [inb] + make('Unsorted', name, tu, {}, BOX(seg), boxok, accdef=inbox(cv))
CONTRACTS += boxes('AABB<LowerBoundAndUpperBound>', SEG, ub, 'p05c.cpp') + boxes('AABB<LowerBoundAndLength>', LEN, ul, 'p05d.cpp')
LEMMAS = tree_lemmas
