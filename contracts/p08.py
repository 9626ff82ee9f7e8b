"""P08: bounds and segments."""
from core import *
from engine import *
LEVEL_NOTE = "Proved for all segments, boxes, balls and sample sets on the real code (double, and int for segments, boxes and tight bounds): membership, centre, extents, diameter, box / ball distances by their defining formulas, tight bounds enclose every sample and attain both bounds; as lemmas over these formulas: distances never exceed those of contained pairs (triangle inequality of the metric assumed for balls), are attained for boxes. Balls over integers and fixed-size feature arrays: bounded stand-in. Tight bounds over LowerBoundAndLength: known finding."
TU = ('p08a.cpp', ('ffcl',))
def SEGC(n, T=RE): return Rec(n, segment_representation_=Tup(T, T))
SEGS = {n: SEGC(n) for n in ('LowerBoundAndUpperBound', 'LowerBoundAndLength')}
FV = lambda sh: Rec('FeaturesVector', values_=VecOf(sh))
def rep(v): r = v.el.f['segment_representation_']; return r.f['0'], r.f['1']
def half(x, T): return x / 2 if T is RE else div2(x)
def div2(x): return z3.ToInt(z3.ToReal(x) / 2) if False else x / 2          # SMT integer division rounds down
def bnds(kind, T, a, b):
    """lower bound, upper bound, largest contained value"""
    if kind == 'LowerBoundAndUpperBound': return a, b, b
    return a, a + b, (a + b if T is RE else a + b - 1)
def mid(kind, v, k, T=RE):
    """the centre of segment k"""
    a, b = rep(v); lo, _, top = bnds(kind, T, a[k], b[k]); return half(lo + top, T)
def vals(x): return x.f['values_']
def box_ctors(kind, T=RE):
    seg = SEGC(kind, T); out = []
    for lab, ty in (('copy', r'const [^&]*&(?!&)'), ('move', r'&&')):
        S = lambda e: vals(e.sg)
        C = lambda e: vals(e.this.centroid_)
        out.append(Contract('AABBWithCentroid', [Ob('sg', FV(seg))], [], [('keeps the segments', lambda e: equal(e.this.segments_, e.old.sg)), ('one centre per segment', lambda e: C(e).len == vals(e.old.sg).len),
            ('the centroid is the centre of every segment', lambda e: forall(0, C(e).len, lambda k: C(e).el[k] == mid(kind, vals(e.old.sg), k, T), pat=lambda k: C(e).el[k]))],
            cls='AABBWithCentroid', this=dict(centroid_=FV(T), segments_=FV(seg)), modifies=['this'] + (['sg'] if lab == 'move' else []), types=ty, name=f'AABBWithCentroid<{kind}> ({lab})',
            loops={0: Loop(('features', lambda e: And(0 <= e.i, e.i <= vals(e.this.segments_).len, C(e).len == vals(e.old.sg).len)), ('segments kept', lambda e: equal(e.this.segments_, e.old.sg)), ('centres so far', lambda e: forall(0, e.i, lambda k: C(e).el[k] == mid(kind, vals(e.old.sg), k, T), pat=lambda k: C(e).el[k])), decreases=lambda e: vals(e.this.segments_).len - e.i)}))
    return out
def segment(kind, T):
    th = dict(segment_representation_=Tup(T, T))
    def r(x): q = x.segment_representation_.f; return bnds(kind, T, q['0'], q['1'])
    name = lambda f: f'{kind}<{"double" if T is RE else "int"}>::{f}'
    M = lambda f, params, ens, req=(), **kw: Contract(f, params, list(req), ens, cls=kind, this=th, name=name(f), **kw)
    ok = ('not empty', lambda e: r(e.this)[0] <= r(e.this)[2])
    return [M('contains_value_impl', [Sc('x', T)], [('exactly the values within the bounds', lambda e: e.result == And(r(e.this)[0] <= e.x, e.x <= r(e.this)[2]))], result=BO),
        M('lower_bound_impl', [], [('lower bound', lambda e: e.result == r(e.this)[0])], result=T), M('upper_bound_impl', [], [('upper bound', lambda e: e.result == r(e.this)[1])], result=T),
        M('centroid_impl', [], [('centre of the segment', lambda e: e.result == half(r(e.this)[0] + r(e.this)[2], T)), ('inside the segment', lambda e: Implies(r(e.this)[0] <= r(e.this)[2], And(r(e.this)[0] <= e.result, e.result <= r(e.this)[2])))], result=T),
        M('centroid_to_bound_distance_impl', [], [('no contained value is further from the centre', lambda e: And(e.result >= r(e.this)[2] - half(r(e.this)[0] + r(e.this)[2], T), e.result >= half(r(e.this)[0] + r(e.this)[2], T) - r(e.this)[0])),
            ('at most one unit of rounding', lambda e: e.result <= (r(e.this)[2] - r(e.this)[0]) / 2 if T is RE else 2 * e.result <= r(e.this)[2] - r(e.this)[0] + 3)], [ok], result=T),
        M('update_upper_bound_impl', [Sc('x', T)], [('upper bound moved, lower kept', lambda e: And(r(e.this)[1] == e.x, r(e.this)[0] == r(e.old.this)[0]))], modifies=['this']),
        M('update_lower_bound_impl', [Sc('x', T)], [('lower bound moved', lambda e: r(e.this)[0] == e.x)] + ([('upper bound kept', lambda e: r(e.this)[1] == r(e.old.this)[1])] if kind == 'LowerBoundAndUpperBound' else []), modifies=['this'])]
# ------------------------------------------------------------------------------------------------ distances of boxes
def tot(T): return SUM if T is RE else SUMI
def srt(T): return Real_ if T is RE else Int_
def gapv(l1, h1, l2, h2): return If(h1 < l2, l2 - h1, If(h2 < l1, l1 - h2, 0))
def arr(kind, T):
    t = AI(srt(T)); nm = f'{kind[-5:]}{"D" if T is RE else "I"}'
    def gap(a, b, c, d, k): l1, h1, _ = bnds(kind, T, a[k], b[k]); l2, h2, _ = bnds(kind, T, c[k], d[k]); g = gapv(l1, h1, l2, h2); return g * g if T is RE else MULI(g, g)
    def ext(a, b, k): l, h, _ = bnds(kind, T, a[k], b[k]); return (h - l) * (h - l) if T is RE else MULI(h, h) - MULI(h, l) - MULI(l, h) + MULI(l, l)
    return named_array('GAP' + nm, [t] * 4, srt(T), gap), named_array('EXT' + nm, [t] * 2, srt(T), ext)
ARR = {(k, T is RE): arr(k, T) for k in SEGS for T in (RE, SI)}
def root(T, x): return SQRT(x if T is RE else z3.ToReal(x))
def boxes(kind, T):
    seg = SEGC(kind, T); GAP, EXT = ARR[kind, T is RE]; S = tot(T); tn = 'double' if T is RE else 'int'
    smin = Contract('min_distance', [Ob('x', seg), Ob('y', seg)], [], [('gap between the two segments', lambda e: e.result == gapv(*bnds(kind, T, *[e.x.f['segment_representation_'].f[i] for i in '01'])[:2], *bnds(kind, T, *[e.y.f['segment_representation_'].f[i] for i in '01'])[:2]))],
        types=r'^(?!.*(AABB|Ball)).*LowerBoundAnd', result=T, name=f'min_distance({kind}<{tn}>)')
    out = [smin]
    for cls in ('AABB', 'AABBWithCentroid'):
        bx = Rec(cls, segments_=FV(seg)) if cls == 'AABB' else Rec(cls, centroid_=FV(T), segments_=FV(seg))
        th = bx[2] if isinstance(bx, tuple) else bx.f
        th = dict(segments_=FV(seg)) if cls == 'AABB' else dict(centroid_=FV(T), segments_=FV(seg))
        def sv(b): return vals(b.f['segments_'])
        def gsum(e, hi): return S(GAP(*rep(sv(e.x)), *rep(sv(e.y))), IntVal(0), hi)
        ln = lambda e: sv(e.y).len
        out.append(Contract('min_distance', [Ob('x', bx), Ob('y', bx)], [('boxes of equal dimension', lambda e: sv(e.x).len == sv(e.y).len)], [('root of the sum of the squared gaps', lambda e: e.result == root(T, gsum(e, ln(e))))], types=cls + '<', result=RE, name=f'min_distance({cls}<{kind}<{tn}>>)',
            loops={0: Loop(('features', lambda e: And(0 <= e.i, e.i <= ln(e))), ('sum so far', lambda e: e.loc('inner_lengths_sum') == gsum(e, e.i)), decreases=lambda e: ln(e) - e.i)}))
        ts = lambda e: vals(e.this.segments_)
        M = lambda f, params, req, ens, **kw: Contract(f, params, req, ens, cls=cls, this=th, name=f'{cls}<{kind}<{tn}>>::{f}', **kw)
        out.append(M('diameter_impl', [], [], [('root of the sum of the squared extents', lambda e: e.result == root(T, S(EXT(*rep(ts(e))), IntVal(0), ts(e).len)))], result=RE,
            loops={0: Loop(('features', lambda e: And(0 <= e.i, e.i <= ts(e).len)), ('sum so far', lambda e: e.loc('diameter') == S(EXT(*rep(ts(e))), IntVal(0), e.i)), decreases=lambda e: ts(e).len - e.i)}))
        def inside(e, k): a, b = rep(ts(e)); lo, _, top = bnds(kind, T, a[k], b[k]); return And(lo <= e.s[e.p0 + k], e.s[e.p0 + k] <= top)
        out.append(M('is_in_bounds_impl', [Itp('s', 'p0'), Itp('s', 'p1')], [('one value per segment', lambda e: And(e.p0 <= e.p1, ts(e).len == e.p1 - e.p0))], [('inside exactly when every feature is inside its segment', lambda e, inside=inside: e.result == forall(0, e.p1 - e.p0, lambda k: inside(e, k)))], objs=dict(s=VecOf(T)), result=BO,
            loops={0: Loop(('inside so far', lambda e, inside=inside: And(0 <= e.i, e.i <= e.p1 - e.p0, forall(0, e.i, lambda k: inside(e, k), pat=lambda k: e.s.el[e.p0 + k]))), decreases=lambda e: e.p1 - e.p0 - e.i)}))
        out.append(M('n_features_impl', [], [], [('number of segments', lambda e: e.result == ts(e).len)], result=SZ))
        def dev(e, k, v): a, b = rep(ts(e)); lo, _, top = bnds(kind, T, a[k], b[k]); c = half(lo + top, T); return Implies(lo <= top, And(v >= c - lo, v >= top - c))
        if cls == 'AABBWithCentroid':
            out.append(M('centroid_to_furthest_bound_distance_impl', [], [('segments are not empty', lambda e: forall(0, ts(e).len, lambda k: bnds(kind, T, rep(ts(e))[0][k], rep(ts(e))[1][k])[0] <= bnds(kind, T, rep(ts(e))[0][k], rep(ts(e))[1][k])[2], pat=lambda k: rep(ts(e))[0][k]))],
                [('no feature of a contained point is further from the centre', lambda e, dev=dev: And(e.result >= 0, forall(0, ts(e).len, lambda k: dev(e, k, e.result), pat=lambda k: rep(ts(e))[0][k])))], result=T,
                loops={0: Loop(('furthest so far', lambda e, dev=dev: And(0 <= e.i, e.i <= ts(e).len, e.loc('furthest_distance') >= 0, forall(0, e.i, lambda k: dev(e, k, e.loc('furthest_distance')), pat=lambda k: rep(ts(e))[0][k]))), decreases=lambda e: ts(e).len - e.i)}))
            out.append(M('centroid_to_bound_distance_impl', [Sc('fi')], [('a feature', lambda e: And(0 <= e.fi, e.fi < ts(e).len)), ('segment is not empty', lambda e: bnds(kind, T, rep(ts(e))[0][e.fi], rep(ts(e))[1][e.fi])[0] <= bnds(kind, T, rep(ts(e))[0][e.fi], rep(ts(e))[1][e.fi])[2])], [('no contained value is further from the centre', lambda e, dev=dev: dev(e, e.fi, e.result))], result=T))
        else: out.append(M('centroid_at', [Sc('fi')], [('a feature', lambda e: And(0 <= e.fi, e.fi < ts(e).len))], [('centre of the segment', lambda e: e.result == mid(kind, ts(e), e.fi, T))], result=T))
    return out
# ------------------------------------------------------------------------------------------------ balls
adist = Contract('auto_distance', [Itp('p', 'p0'), Itp('p', 'p1'), Itp('q', 'q0'), Itp('q', 'q1')], [('as many elements in the second sequence', lambda e: And(e.p0 <= e.p1, e.q0 + (e.p1 - e.p0) <= e.q.len))],
    [('distance of the two rows', lambda e: e.result == DIST(ROW(e.p.el, e.p0, e.p1 - e.p0), ROW(e.q.el, e.q0, e.p1 - e.p0)))], objs=dict(p=VecOf(RE), q=VecOf(RE)), result=RE, trusted='proved in P01')
def ball(cls):
    view, bounded = cls.endswith('View'), not cls.startswith('Un'); out = []
    def shape(o): return Rec(cls, **dict(dict(centroid_features_range_first_=('ptr', o), centroid_features_range_last_=('ptr', o)) if view else dict(centroid_=FV(RE)), **(dict(radius_=RE) if bounded else {})))
    def cen(e, b, o):
        """the sequence that holds the centre, its first position and its length"""
        g = (lambda n: b.f[n]) if isinstance(b, SV) else (lambda n: getattr(b, n))
        if view: return getattr(e, o).el, g('centroid_features_range_first_').idx, g('centroid_features_range_last_').idx - g('centroid_features_range_first_').idx
        return vals(g('centroid_')).el, IntVal(0), vals(g('centroid_')).len
    th = dict(dict(centroid_features_range_first_=('ptr', 'c'), centroid_features_range_last_=('ptr', 'c')) if view else dict(centroid_=FV(RE)), **(dict(radius_=RE) if bounded else {}))
    ob = dict(c=VecOf(RE)) if view else {}
    okv = [('the centre is a range', lambda e: And(0 <= e.this.centroid_features_range_first_.idx, e.this.centroid_features_range_first_.idx <= e.this.centroid_features_range_last_.idx, e.this.centroid_features_range_last_.idx <= e.c.len))] if view else []
    M = lambda f, params, req, ens, objs={}, **kw: Contract(f, params, (okv if params and params[0][0] == 'it' or f == 'n_features_impl' else []) + req, ens, cls=cls, this=th, objs=dict(ob, **objs), name=f'{cls}::{f}', **kw)
    def C(e): return cen(e, e.this, 'c')
    P2 = [Itp('s', 'p0'), Itp('s', 'p1')]; so = dict(s=VecOf(RE))
    same = [('as many features as the centre', lambda e: And(e.p0 <= e.p1, e.p1 - e.p0 == C(e)[2]))]
    def d(e): a, i, n = C(e); return DIST(ROW(e.s.el, e.p0, n), ROW(a, i, n))
    out.append(M('n_features_impl', [], [], [('features of the centre', lambda e: e.result == C(e)[2])], result=SZ))
    out.append(M('distance_to_centroid_impl', P2, same, [('distance to the centre', lambda e: e.result == d(e))], objs=so, result=RE))
    out.append(M('is_in_bounds_impl', P2, same, [('strictly closer than the radius' if bounded else 'always', lambda e: e.result == (d(e) < e.this.radius_ if bounded else z3.BoolVal(True)))], objs=so, result=BO))
    out.append(M('compute_distance_to_centroid_if_within_bounds_impl', P2, same, [('the distance, exactly for points within the bounds', lambda e: And(e.result.has == (d(e) < e.this.radius_ if bounded else z3.BoolVal(True)), Implies(e.result.has, e.result.val == d(e))))], objs=so, result=OptOf(RE)))
    far = (lambda e: e.this.radius_) if bounded else (lambda e: INF)
    out.append(M('centroid_to_furthest_bound_distance_impl', [], [], [('radius', lambda e: e.result == far(e))], result=RE))
    out.append(M('centroid_to_bound_distance_impl', [Sc('fi')], [], [('radius', lambda e: e.result == far(e))], result=RE))
    if cls != 'UnboundedBallView': out.append(M('diameter_impl', [], [], [('twice the radius', lambda e: e.result == (2 * e.this.radius_ if bounded else INF))], result=RE))
    if not view:
        for lab, ty in (('copy', r'const (Cent|[^&]*FeaturesV)[^&]*&(?!&)'), ('move', r'&&')):
            out.append(Contract(cls, [Ob('cc', FV(RE))] + ([Sc('r', RE)] if bounded else []), [], [('keeps the centre', lambda e: equal(e.this.centroid_, e.old.cc))] + ([('keeps the radius', lambda e: e.this.radius_ == e.r)] if bounded else []), cls=cls, this=th, modifies=['this'] + (['cc'] if lab == 'move' else []), types=ty, name=f'{cls} ({lab})'))
    else:
        out.append(Contract(cls, [Itp('c', 'a'), Itp('c', 'b')] + ([Sc('r', RE)] if bounded else []), [], [('keeps the centre', lambda e: And(e.this.centroid_features_range_first_.idx == e.a, e.this.centroid_features_range_last_.idx == e.b))] + ([('keeps the radius', lambda e: e.this.radius_ == e.r)] if bounded else []), cls=cls, this=th, objs=ob, modifies=['this'], name=cls + ' (ctor)'))
    def okb(e, x, o): a, i, n = cen(e, getattr(e, x), o); return And(0 <= i, 0 <= n, *([i + n <= getattr(e, o).len] if view else []))
    def md(e):
        if not bounded: return e.result == 0
        a, i, n = cen(e, e.x, 'c'); b, j, _ = cen(e, e.y, 'c2'); v = DIST(ROW(a, i, n), ROW(b, j, n)) - (e.x.f['radius_'] + e.y.f['radius_'])
        return e.result == If(v > 0, v, 0)
    out.append(Contract('min_distance', [Ob('x', shape('c')), Ob('y', shape('c2'))], [('balls of equal dimension', lambda e: And(okb(e, 'x', 'c'), okb(e, 'y', 'c2'), cen(e, e.x, 'c')[2] == cen(e, e.y, 'c2')[2]))], [('distance of the centres less the radii', md)], objs=dict(c=VecOf(RE), c2=VecOf(RE)) if view else {}, types=r'(?<![a-z])' + cls + '<', result=RE, name=f'min_distance({cls})'))
    return out
# ------------------------------------------------------------------------------------------------ tight bounds
def fin(T):
    lo, hi = (-INF, INF) if T is RE else (IntVal(-2**31), IntVal(2**31 - 1))
    return ('finite features', lambda e: forall(0, e.s.len, lambda q: And(lo <= e.s.el[q], e.s.el[q] <= hi), pat=lambda q: e.s.el[q]))
def tights(T):
    """tight segments and boxes: every sample is enclosed and both bounds are attained (unless there is no sample)"""
    kind = 'LowerBoundAndUpperBound'; seg = SEGC(kind, T); tn = 'double' if T is RE else 'int'; out = []
    BX = Rec('AABBWithCentroid', centroid_=FV(T), segments_=FV(seg))
    def val(e, p, k, indexed): return e.s.el[mul(e.idx.el[p] if indexed else p, e.nf) + k]
    def base(e, indexed): return e.lo if indexed else 0
    for indexed in (False, True):
        trig = (lambda e, p: e.idx.el[p]) if indexed else (lambda e, p: MULI(p, e.nf))
        N = (lambda e: e.hi - e.lo) if indexed else (lambda e: div(e.s1, e.nf))
        args = ([Itp('idx', 'lo'), Itp('idx', 'hi')] if indexed else []) + [Itp('s', 0), Itp('s', 's1'), Sc('nf')]
        req = [('features', lambda e: e.nf >= 1), fin(T)] + ([('a range', lambda e: e.lo <= e.hi), ('indices of rows', lambda e: forall(e.lo, e.hi, lambda p: And(e.idx.el[p] >= 0, MULI(e.idx.el[p], e.nf) >= 0, mul(e.idx.el[p], e.nf) + e.nf <= e.s.len), pat=lambda p: e.idx.el[p]))] if indexed else [('whole rows', lambda e: And(mod(e.s1, e.nf) == 0, mul(div(e.s1, e.nf), e.nf) == e.s1, e.s1 <= e.s.len))])
        objs = dict(dict(idx=VecOf(SZ)) if indexed else {}, s=VecOf(T))
        def enc(e, lo, hi, n, k, indexed=indexed, trig=trig): return forall(base(e, indexed), base(e, indexed) + n, lambda p: And(lo <= val(e, p, k, indexed), val(e, p, k, indexed) <= hi), pat=lambda p: trig(e, p))
        def att(e, v, n, k, indexed=indexed, trig=trig): return Not(forall(base(e, indexed), base(e, indexed) + n, lambda p: val(e, p, k, indexed) != v, pat=lambda p: trig(e, p)))
        MX, MN = (INF, -INF) if T is RE else (IntVal(2**31 - 1), IntVal(-2**31))
        def state(e, lo, hi, n, k, enc=enc, att=att): return And(enc(e, lo, hi, n, k), Or(lo == MX, att(e, lo, n, k)), Or(hi == MN, att(e, hi, n, k)), Implies(n == 0, And(lo == MX, hi == MN)))
        def final(e, lo, hi, n, k, enc=enc, att=att): return And(enc(e, lo, hi, n, k), Implies(n > 0, And(att(e, lo, n, k), att(e, hi, n, k))))
        def sg(x): q = x.f['segment_representation_'].f; return q['0'], q['1']
        nm = 'indices' if indexed else 'all samples'
        out.append(Contract('make_tight_segment', args + [Sc('fi')], req + [('a feature', lambda e: And(0 <= e.fi, e.fi < e.nf))], [('encloses the samples', lambda e, N=N, enc=enc: enc(e, *sg(e.result), N(e), e.fi)), ('both bounds are attained', lambda e, N=N, att=att: Implies(N(e) > 0, And(att(e, sg(e.result)[0], N(e), e.fi), att(e, sg(e.result)[1], N(e), e.fi))))],
            objs=objs, result=seg, name=f'make_tight_segment<{tn}>({nm})', loops={0: Loop(('samples', lambda e, N=N: And(0 <= e.i, e.i <= N(e))), ('encloses the samples so far', lambda e, enc=enc: enc(e, *sg(e.locv('segment')), e.i, e.fi)),
                ('lower bound attained', lambda e, att=att: Or(sg(e.locv('segment'))[0] == MX, att(e, sg(e.locv('segment'))[0], e.i, e.fi))), ('upper bound attained', lambda e, att=att: Or(sg(e.locv('segment'))[1] == MN, att(e, sg(e.locv('segment'))[1], e.i, e.fi))), decreases=lambda e, N=N: N(e) - e.i)}))
        def ens(x): return vals(x.f['segments_'])
        def encs(e, v, n, k0, k1, indexed=indexed, trig=trig):
            lo, hi = rep(v); b = base(e, indexed)
            return forall_raw([Int_, Int_], lambda p, k: Implies(And(b <= p, p < b + n, k0 <= k, k < k1), And(lo[k] <= val(e, p, k, indexed), val(e, p, k, indexed) <= hi[k])), pat=lambda p, k: [z3.MultiPattern(trig(e, p), lo[k]), z3.MultiPattern(trig(e, p), hi[k])])
        def atts(e, a, mx, n, k0, k1, att=att): return forall(k0, k1, lambda k: Or(a[k] == mx, att(e, a[k], n, k)), pat=lambda k: a[k])
        def inv(e, v, n, k0, k1, encs=encs, atts=atts): return [encs(e, v, n, k0, k1), atts(e, rep(v)[0], MX, n, k0, k1), atts(e, rep(v)[1], MN, n, k0, k1)]
        L = lambda e: e.locv('segments')
        off = (lambda e, x: x - e.lo) if indexed else (lambda e, x: x)
        out.append(Contract('make_tight_bound', args, req, [('one segment per feature', lambda e: ens(e.result).len == e.nf), ('encloses the samples', lambda e, N=N, encs=encs: encs(e, ens(e.result), N(e), 0, e.nf)),
              ('every lower bound is attained', lambda e, N=N, att=att: Implies(N(e) > 0, forall(0, e.nf, lambda k: att(e, rep(ens(e.result))[0][k], N(e), k), pat=lambda k: rep(ens(e.result))[0][k]))),
              ('every upper bound is attained', lambda e, N=N, att=att: Implies(N(e) > 0, forall(0, e.nf, lambda k: att(e, rep(ens(e.result))[1][k], N(e), k), pat=lambda k: rep(ens(e.result))[1][k]))),
              ('the centroid is the centre', lambda e: And(vals(e.result.f['centroid_']).len == e.nf, forall(0, e.nf, lambda k: vals(e.result.f['centroid_']).el[k] == mid(kind, ens(e.result), k, T), pat=lambda k: vals(e.result.f['centroid_']).el[k])))],
            objs=objs, result=BX, name=f'make_tight_bound<{tn}>({nm})', loops={
            0: Loop(('samples', lambda e, N=N, off=off: And(0 <= off(e, e.i), off(e, e.i) <= N(e), L(e).len == e.nf)), *[(lb, lambda e, j=j, inv=inv, off=off: inv(e, L(e), off(e, e.i), 0, e.nf)[j]) for j, lb in enumerate(('encloses the samples so far', 'lower bounds attained', 'upper bounds attained'))], decreases=lambda e, N=N, off=off: N(e) - off(e, e.i)),
            1: Loop(('features', lambda e, N=N, off=off: And(0 <= e.i, e.i <= e.nf, 0 <= off(e, e.j), off(e, e.j) < N(e), L(e).len == e.nf)), *[(lb + ' (first features)', lambda e, j=j, inv=inv, off=off: inv(e, L(e), off(e, e.j) + 1, 0, e.i)[j]) for j, lb in enumerate(('encloses the samples so far', 'lower bounds attained', 'upper bounds attained'))],
                    *[(lb, lambda e, j=j, inv=inv, off=off: inv(e, L(e), off(e, e.j), e.i, e.nf)[j]) for j, lb in enumerate(('encloses the samples so far', 'lower bounds attained', 'upper bounds attained'))], decreases=lambda e: e.nf - e.i)}))
    return out
CONTRACTS = []
for tu, kind, T in (('p08a.cpp', 'LowerBoundAndUpperBound', RE), ('p08b.cpp', 'LowerBoundAndLength', RE), ('p08c.cpp', 'LowerBoundAndUpperBound', SI), ('p08d.cpp', 'LowerBoundAndLength', SI)):
    cs = segment(kind, T) + box_ctors(kind, T) + boxes(kind, T)
    if kind == 'LowerBoundAndUpperBound': cs += tights(T)
    if tu == 'p08a.cpp': cs += [adist] + [c for b in ('Ball', 'BallView', 'UnboundedBall', 'UnboundedBallView') for c in ball(b)]
    for c in cs: c.tu = (tu, ('ffcl',)); c.group = tu
    CONTRACTS += cs

def LEMMAS():
    x, y, l1, h1, l2, h2, a, b = z3.Consts('x y l1 h1 l2 h2 a b', AI(Real_)); k, n = z3.Ints('k n'); Z = IntVal(0)
    GAP, EXT = ARR['LowerBoundAndUpperBound', True]; D2 = SQDA(x, Z, y, Z); G = GAP(l1, h1, l2, h2); E = EXT(l1, h1)
    def inb(p, l, h): return And(l[k] <= p[k], p[k] <= h[k])
    s, t = z3.Reals('s t'); u, v = z3.Reals('u v')
    clos = If(h1[k] < l2[k], And(x[k] == h1[k], y[k] == l2[k]), If(h2[k] < l1[k], And(x[k] == l1[k], y[k] == h2[k]), And(x[k] == y[k], x[k] == If(l1[k] < l2[k], l2[k], l1[k]))))
    d, c1, c2, p, q, r1, r2 = z3.Reals('d c1 c2 p q r1 r2')
    return [('boxes: the squared gap of a feature is at most the squared difference of contained values', [inb(x, l1, h1), inb(y, l2, h2)], G[k] <= D2[Z + k] if False else G[k] <= SQDA(x, Z, y, Z)[k]),
        ('boxes: the closest values of a feature are contained', [clos, l1[k] <= h1[k], l2[k] <= h2[k]], And(inb(x, l1, h1), inb(y, l2, h2))),
        ('boxes: the closest values of a feature attain the gap', [clos, l1[k] <= h1[k], l2[k] <= h2[k]], SQDA(x, Z, y, Z)[k] == G[k]),
        ('boxes: the squared difference of two contained values is at most the squared extent', [inb(x, l1, h1), inb(y, l1, h1)], SQDA(x, Z, y, Z)[k] <= E[k]),
        ('a sum of smaller terms is smaller: step', [n >= 0, SUM(a, Z, n) <= SUM(b, Z, n), a[n] <= b[n]], SUM(a, Z, n + 1) <= SUM(b, Z, n + 1)),
        ('a sum of smaller terms is smaller: base', [], SUM(a, Z, Z) <= SUM(b, Z, Z)),
        ('the root is monotone', [0 <= s, s <= t], SQRT(s) <= SQRT(t)),
        ('balls: by the triangle inequality the distance of two balls is at most that of contained points', [d <= p + t + q, p < r1, q < r2, t >= 0], If(d - (r1 + r2) > 0, d - (r1 + r2), 0) <= t),
        ('balls: by the triangle inequality two contained points are at most a diameter apart', [t <= p + q, p < r1, q < r1], t <= 2 * r1)]
