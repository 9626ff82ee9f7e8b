"""P19: sampling."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for all inputs, counts and weights and every outcome of the draws (reals for double) on the real code: the partial shuffle keeps a permutation and draws every position from all remaining ones, distinct elements / rows of the input in the requested number, n of n is a permutation, positions inside the bounding box; alias tables: every index gets exactly the mass of its weight, a sample uses one draw for the column and one for the coin and never returns an index of zero weight. Uniformity and independence of the standard generators are assumed; observed frequencies only by the bounded stand-in."
TU = ('p19.cpp', ('ffcl',))
OS = dict(s=VecOf(RE)); OX = dict(x=VecOf(SZ))
S3 = [Itp('s', 0), Itp('s', 's1'), Sc('nf')]
n = lambda e: div(e.s1, e.nf)
whole = ('whole rows', lambda e: And(e.nf >= 1, 0 <= e.s1, e.s1 <= e.s.len, mod(e.s1, e.nf) == 0, mul(n(e), e.nf) == e.s1))
def upto(v, f, m, lo=0): return forall(lo, m, f, pat=lambda i: v.el[i])
def distinct(el, lo, hi): return forall2(lo, hi, lo, hi, lambda a, b: Implies(a != b, el[a] != el[b]), pat=lambda a, b: z3.MultiPattern(el[a], el[b]))
SE = lambda e: e.locv('selected_elements')
# ghost of the shuffle: perm[i] is the input position of the element now at i, pos its inverse
def swp(i): return (AI(Int_), lambda e: Def(lambda k: k), (lambda e: Def(lambda k: If(k == e.i - 1, e.lg('perm')[e.random], If(k == e.random, e.lg('perm')[e.i - 1], e.lg('perm')[k])))) if i else (lambda e: Def(lambda k: If(e.lg('pos')[k] == e.i - 1, e.random, If(e.lg('pos')[k] == e.random, e.i - 1, e.lg('pos')[k])))))
def perm_ok(e, v, p, q):
    N = e.hi - e.lo
    return And(forall(0, N, lambda i: And(0 <= p[i], p[i] < N, q[p[i]] == i, v.el[i] == e.x.el[e.lo + p[i]]), pat=lambda i: [p[i], v.el[i]]), forall(0, N, lambda k: And(0 <= q[k], q[k] < N, p[q[k]] == k), pat=lambda k: q[k]))
sel_n = Contract('select_n_elements', [Itp('x', 'lo'), Itp('x', 'hi'), Sc('k')], [('range', lambda e: And(0 <= e.lo, e.lo <= e.hi, e.hi <= e.x.len, 0 <= e.k, e.k <= e.hi - e.lo))],
    [('as many as asked for', lambda e: e.result.len == e.k), ('distinct positions of the input', lambda e: And(forall(0, e.k, lambda i: And(0 <= e.perm[i], e.perm[i] < e.hi - e.lo, e.pos[e.perm[i]] == i, e.result.el[i] == e.x.el[e.lo + e.perm[i]]), pat=lambda i: [e.perm[i], e.result.el[i]]))),
     ('all of them if all are asked for', lambda e: Implies(e.k == e.hi - e.lo, forall(0, e.k, lambda j: And(0 <= e.pos[j], e.pos[j] < e.k, e.result.el[e.pos[j]] == e.x.el[e.lo + j]), pat=lambda j: [e.pos[j], e.x.el[e.lo + j]])))], objs=OX, result=VecOf(SZ), gres=dict(perm=(AI(Int_), lambda e: e.lg('perm')), pos=(AI(Int_), lambda e: e.lg('pos'))),
    loops={0: Loop(('cursor', lambda e: And(0 <= e.i, e.i <= e.k, SE(e).len == e.hi - e.lo)), ('a permutation of the input', lambda e: perm_ok(e, SE(e), e.lg('perm'), e.lg('pos'))), ('every remaining element can be drawn', lambda e: Or(e.iter(0) == 0, e.drawn_from(e.i - 1, e.hi - e.lo - 1))), decreases=lambda e: e.k - e.i, ghost=dict(perm=swp(1), pos=swp(0)))})
mk_n = Contract('make_n_elements_from_interval', [Sc('k'), Ob('iv', Tup(SZ, SZ))], [('interval long enough', lambda e: And(0 <= e.k, 0 <= e.iv.f['0'], e.iv.f['0'] + e.k <= e.iv.f['1']))],
    [('as many as asked for', lambda e: e.result.len == e.k), ('elements of the interval', lambda e: upto(e.result, lambda i: And(e.iv.f['0'] <= e.result.el[i], e.result.el[i] < e.iv.f['1']), e.k)), ('distinct', lambda e: distinct(e.result.el, 0, e.k))], result=VecOf(SZ))

# rows
def rowof(el, m, r, t, i): return el[mul(r, m) + t]
def isrow(e, r, j): return forall(0, e.nf, lambda t: e.result.el[mul(j, e.nf) + t] == e.s.el[mul(r, e.nf) + t], pat=lambda t: [e.result.el[mul(j, e.nf) + t], e.s.el[mul(r, e.nf) + t]])
one = Contract('select_random_sample', S3, [whole, ('at least one row', lambda e: n(e) >= 1)], [('one row', lambda e: e.result.len == e.nf), ('a row of the input', lambda e: And(0 <= e.pick, e.pick < n(e), forall(0, e.nf, lambda t: e.result.el[t] == e.s.el[mul(e.pick, e.nf) + t], pat=lambda t: e.result.el[t])))],
    objs=OS, result=VecOf(RE), gres=dict(pick=(Int_, lambda e: e.loc('random_index'))), at_return=[lambda e: e.drawn_from(0, n(e) - 1)])
PICK = dict(pick=(AI(Int_), lambda e: e.locv('random_distinct_indices').el)); PICKU = dict(pick=(AI(Int_), lambda e: e.locv('indices').el))
cnt = lambda e: If(e.k <= n(e), e.k, n(e))
def rowsof(e, v, c): return forall2(0, c, 0, e.nf, lambda j, t: v.el[mul(j, e.nf) + t] == e.s.el[mul(e.pick[j], e.nf) + t], pat=lambda j, t: v.el[mul(j, e.nf) + t])
def picks(e, c): return And(forall(0, c, lambda j: And(0 <= e.pick[j], e.pick[j] < n(e)), pat=lambda j: e.pick[j]), distinct(e.pick, 0, c))
RS = lambda e: e.locv('random_samples'); CE = lambda e: e.locv('centroids')
class W:
    def __init__(self, e, v): self.e = e; self.pick = e.locv(v).el
    def __getattr__(self, a): return getattr(self.e, a)
many = Contract('select_n_random_samples', S3 + [Sc('k')], [whole, ('count', lambda e: e.k >= 0)], [('as many rows as asked for or present', lambda e: e.result.len == mul(cnt(e), e.nf)), ('distinct rows of the input', lambda e: picks(e, cnt(e))), ('their values', lambda e: rowsof(e, e.result, cnt(e)))],
    objs=OS, result=VecOf(RE), gres=PICK, loops={0: Loop(('rows', lambda e: And(0 <= e.i, e.i <= e.loc('n_choices'), e.loc('n_choices') == cnt(e), RS(e).len == mul(cnt(e), e.nf))), ('rows so far', lambda e: rowsof(W(e, 'random_distinct_indices'), RS(e), e.i)), decreases=lambda e: e.loc('n_choices') - e.i)})
uni = Contract('init_uniform', S3 + [Sc('k')], [whole, ('count', lambda e: And(e.k >= 0, e.k <= n(e)))], [('as many rows as asked for', lambda e: e.result.len == mul(e.k, e.nf)), ('distinct rows of the input', lambda e: picks(e, e.k)), ('their values', lambda e: rowsof(e, e.result, e.k))],
    objs=OS, result=VecOf(RE), gres=PICKU, loops={0: Loop(('rows', lambda e: And(0 <= e.i, e.i <= e.k, CE(e).len == mul(e.k, e.nf))), ('rows so far', lambda e: rowsof(W(e, 'indices'), CE(e), e.i)), decreases=lambda e: e.k - e.i),
        1: Loop(('cell', lambda e: And(0 <= e.j, e.j < e.k, 0 <= e.i, e.i <= e.nf, CE(e).len == mul(e.k, e.nf))), ('rows so far', lambda e: rowsof(W(e, 'indices'), CE(e), e.j)), ('cells so far', lambda e: forall(mul(e.j, e.nf), mul(e.j, e.nf) + e.i, lambda p: CE(e).el[p] == e.s.el[mul(e.locv('indices').el[e.j], e.nf) + p - mul(e.j, e.nf)], pat=lambda p: CE(e).el[p])), decreases=lambda e: e.nf - e.i)})
MN = lambda e: e.locv('min_buffer'); MX = lambda e: e.locv('max_buffer'); RB = lambda e: e.locv('random_buffer')
cell = lambda e, r, k: e.s.el[k + mul(r, e.nf)]
trig = lambda e, r: MULI(r, e.nf)
def encs(e, lo, hi, m, k0, k1): return forall_raw([Int_, Int_], lambda r, k: Implies(And(0 <= r, r < m, k0 <= k, k < k1), And(lo[k] <= cell(e, r, k), cell(e, r, k) <= hi[k])), pat=lambda r, k: [z3.MultiPattern(trig(e, r), lo[k]), z3.MultiPattern(trig(e, r), hi[k])])
def att(e, v, m, k): return Not(forall(0, m, lambda r: cell(e, r, k) != v, pat=lambda r: trig(e, r)))
def atts(e, a, mx, m, k0, k1): return forall(k0, k1, lambda k: Or(a[k] == mx, att(e, a[k], m, k)), pat=lambda k: a[k])
def boxinv(m, k0, k1): return [('encloses the samples so far', lambda e: encs(e, MN(e).el, MX(e).el, m(e), k0(e), k1(e))), ('lower bounds attained', lambda e: atts(e, MN(e).el, INF, m(e), k0(e), k1(e))), ('upper bounds attained', lambda e: atts(e, MX(e).el, -INF, m(e), k0(e), k1(e)))]
def within(e, v, k): return And(Not(forall(0, n(e), lambda r: cell(e, r, k) > v, pat=lambda r: trig(e, r))), Not(forall(0, n(e), lambda r: cell(e, r, k) < v, pat=lambda r: trig(e, r))))
sizes = ('buffers', lambda e: And(MN(e).len == e.nf, MX(e).len == e.nf, CE(e).len == mul(e.k, e.nf)))
def dist(e, k): d = RB(e).el.f['distribution_'].f; return And(d['lo'][k] == MN(e).el[k], d['hi'][k] == MX(e).el[k])
def dists(e, m): return forall(0, m, lambda k: dist(e, k), pat=lambda k: [RB(e).el.f['distribution_'].f['lo'][k], RB(e).el.f['distribution_'].f['hi'][k]])
def inbox(e, v, k): return And(MN(e).el[k] <= v, v <= MX(e).el[k])
def filled(e, c): return forall2(0, c, 0, e.nf, lambda j, t: inbox(e, CE(e).el[t + mul(j, e.nf)], t), pat=lambda j, t: CE(e).el[t + mul(j, e.nf)])
Z = lambda e: IntVal(0); NF = lambda e: e.nf
fin = ('finite features', lambda e: forall(0, e.s.len, lambda q: And(-INF < e.s.el[q], e.s.el[q] < INF), pat=lambda q: e.s.el[q]))
spat = Contract('init_spatial_uniform', S3 + [Sc('k')], [whole, fin, ('at least one row', lambda e: And(n(e) >= 1, e.k >= 0))], [('as many rows as asked for', lambda e: e.result.len == mul(e.k, e.nf)), ('positions in the bounding box of the samples', lambda e: forall2(0, e.k, 0, e.nf, lambda j, t: within(e, e.result.el[t + mul(j, e.nf)], t), pat=lambda j, t: e.result.el[t + mul(j, e.nf)]))],
    objs=OS, result=VecOf(RE),
    loops={0: Loop(('samples', lambda e: And(0 <= e.i, e.i <= n(e))), sizes, *boxinv(lambda e: e.i, Z, NF), decreases=lambda e: n(e) - e.i, exit_hints=[lambda e: forall(0, e.nf, lambda k: And(MN(e).el[k] <= e.s.el[k + MULI(n(e) - 1, e.nf)], e.s.el[k + MULI(n(e) - 1, e.nf)] <= MX(e).el[k]), pat=lambda k: [MN(e).el[k], MX(e).el[k]])]),
        1: Loop(('features', lambda e: And(0 <= e.j, e.j < n(e), 0 <= e.i, e.i <= e.nf)), sizes, *boxinv(lambda e: e.j + 1, Z, lambda e: e.i), *boxinv(lambda e: e.j, lambda e: e.i, NF), decreases=lambda e: e.nf - e.i),
        2: Loop(('features', lambda e: And(0 <= e.i, e.i <= e.nf, RB(e).len == e.nf)), ('one distribution per feature', lambda e: dists(e, e.i)), decreases=lambda e: e.nf - e.i),
        3: Loop(('centroids', lambda e: And(0 <= e.i, e.i <= e.k, CE(e).len == mul(e.k, e.nf))), ('in the box so far', lambda e: filled(e, e.i)), decreases=lambda e: e.k - e.i),
        4: Loop(('features', lambda e: And(0 <= e.j, e.j < e.k, 0 <= e.i, e.i <= e.nf, CE(e).len == mul(e.k, e.nf))), ('in the box so far', lambda e: filled(e, e.j)), ('row so far', lambda e: forall(mul(e.j, e.nf), mul(e.j, e.nf) + e.i, lambda p: inbox(e, CE(e).el[p], p - mul(e.j, e.nf)), pat=lambda p: CE(e).el[p])), decreases=lambda e: e.nf - e.i)})
# ---------------------------------------------------------------------------- alias tables
VA = 'VosesAliasMethod'; AR, AN = AI(Real_), AI(Int_)
MASS = named_array('MASS', [AN, AR, Int_], Real_, lambda a, p, w, i: If(a[i] == w, 1 - p[i], 0))      # what column i gives to w
GIV = named_array('GIV', [AR, AN, Int_], Real_, lambda c, t, w, i: If(t[i] == w, c[i], 0))
MARK = z3.Function('MARK', AR, z3.BoolSort())      # asks for the facts about sums of terms of one sign
SCL = named_array('SCL', [AR, Real_], Real_, lambda w, c, i: w[i] * c - 1)
_w, _c, _ct, _tt, _p = z3.Const('vw!', AR), z3.Real('vc!'), z3.Const('vct!', AR), z3.Const('vtt!', AN), z3.Const('vp!', AR); _n, _i, _q, _j = z3.Ints('vn! vi! vq! vj!'); _v = z3.Real('vv!'); _0 = IntVal(0)
def l_scale(w, c, n): return SUM(SCL(w, c), _0, n) == c * SUM(w, _0, n) - z3.ToReal(n)
def l_upd(a, i, v, n): return SUM(z3.Store(a, i, v), _0, n) == SUM(a, _0, n) + If(And(0 <= i, i < n), v - a[i], 0)
def l_giv(c, t, i, v, q, w, n): return SUM(GIV(z3.Store(c, i, v), z3.Store(t, i, q), w), _0, n) == SUM(GIV(c, t, w), _0, n) + If(And(0 <= i, i < n), If(q == w, v, 0) - If(t[i] == w, c[i], 0), 0)
NIL = z3.K(Int_, z3.RealVal(0))
def l_nil(t, w, n): return SUM(GIV(NIL, t, w), _0, n) == 0
def l_pos(a, i, n): return Implies(And(0 <= i, i < n, forall(0, n, lambda k: a[k] >= 0, pat=lambda k: a[k])), a[i] <= SUM(a, _0, n))
def l_neg(a, i, n): return Implies(forall(0, n, lambda k: a[k] <= 0, pat=lambda k: a[k]), And(SUM(a, _0, n) <= 0, Implies(And(0 <= i, i < n), a[i] >= SUM(a, _0, n))))
EXTRA_AXIOMS = [FA([_w, _c, _n], Implies(_n >= 0, l_scale(_w, _c, _n)), SUM(SCL(_w, _c), _0, _n)), FA([_w, _i, _v, _n], Implies(_n >= 0, l_upd(_w, _i, _v, _n)), SUM(z3.Store(_w, _i, _v), _0, _n)),
    FA([_ct, _tt, _i, _v, _q, _j, _n], Implies(_n >= 0, l_giv(_ct, _tt, _i, _v, _q, _j, _n)), SUM(GIV(z3.Store(_ct, _i, _v), z3.Store(_tt, _i, _q), _j), _0, _n)),
    FA([_w, _i, _n], Implies(_n >= 0, And(l_pos(_w, _i, _n), l_neg(_w, _i, _n))), z3.MultiPattern(MARK(_w), SUM(_w, _0, _n), _w[_i])), FA([_w], MARK(_w), MARK(_w)), FA([_tt, _j, _n], Implies(_n >= 0, l_nil(_tt, _j, _n)), SUM(GIV(NIL, _tt, _j), _0, _n))]
def LEMMAS():
    L = []
    for lab, f, ar in (('sum of scaled weights', l_scale, (_w, _c)), ('sum after one change', l_upd, (_w, _i, _v)), ('mass after one change', l_giv, (_ct, _tt, _i, _v, _q, _j)), ('no mass', l_nil, (_tt, _j)), ('an element of non-negative terms is at most the sum', l_pos, (_w, _i)), ('an element of non-positive terms is at least the sum', l_neg, (_w, _i))):
        L += [(lab + ': base', [], f(*ar, IntVal(0))), (lab + ': step', [_n >= 0, f(*ar, _n)], f(*ar, _n + 1))]
    return L
VF = dict(n_weights_=SZ, alias_=VecOf(SZ), probabilities_=VecOf(RE))
total = lambda e: SUM(e.w.el, _0, e.w.len)
weights = ('non-negative weights, not all zero', lambda e: And(e.w.len >= 1, forall(0, e.w.len, lambda i: e.w.el[i] >= 0, pat=lambda i: e.w.el[i]), total(e) > 0))
def table(T, w, N):
    """column i keeps i with probability p[i] and gives the rest to alias[i]; together every index has mass proportional to its weight"""
    a, p = T.alias_.el, T.probabilities_.el
    return And(T.alias_.len == N, T.probabilities_.len == N, forall(0, N, lambda i: And(0 <= a[i], a[i] < N, 0 <= p[i], p[i] <= 1), pat=lambda i: [a[i], p[i]]))
def masses(T, w, N):
    a, p = T.alias_.el, T.probabilities_.el
    return forall(0, N, lambda x: p[x] + SUM(MASS(a, p, x), _0, N) == w[x] * (z3.ToReal(N) / SUM(w, _0, N)), pat=lambda x: [p[x], w[x]])
def never(T, w, N):
    a, p = T.alias_.el, T.probabilities_.el
    return forall(0, N, lambda i: And(Implies(w[i] == 0, p[i] == 0), Implies(w[a[i]] == 0, p[i] == 1)), pat=lambda i: [a[i], p[i]])
FK = lambda e: e.locv('fake_probabilities'); SM = lambda e: e.locv('small'); LG = lambda e: e.locv('large'); NS = lambda e: e.loc('n_small'); NL = lambda e: e.loc('n_large'); NORM = lambda e: e.loc('norm_fact')
K = lambda e: e.lg('K'); PO = lambda e: e.lg('POS'); EX = lambda e: e.lg('EX'); CC = lambda e: e.lg('C'); TT = lambda e: e.lg('T')
N = lambda e: e.this.n_weights_
lens = ('buffers', lambda e: And(N(e) == e.w.len, e.this.alias_.len == N(e), e.this.probabilities_.len == N(e), FK(e).len == N(e), SM(e).len == N(e), LG(e).len == N(e), 0 <= NS(e), 0 <= NL(e), NS(e) <= N(e), NL(e) <= N(e)))
def stacks(e, lo):
    f = FK(e).el
    return (forall(0, NS(e), lambda j: And(lo <= SM(e).el[j], SM(e).el[j] < N(e), K(e)[SM(e).el[j]] == 0, PO(e)[SM(e).el[j]] == j), pat=lambda j: SM(e).el[j]),
               forall(0, NL(e), lambda j: And(lo <= LG(e).el[j], LG(e).el[j] < N(e), K(e)[LG(e).el[j]] == 1, PO(e)[LG(e).el[j]] == j), pat=lambda j: LG(e).el[j]),
               forall(lo, N(e), lambda x: And(0 <= K(e)[x], K(e)[x] <= 2, f[x] >= 0), pat=lambda x: [K(e)[x], f[x]]),
               forall(lo, N(e), lambda x: Implies(K(e)[x] == 0, And(0 <= PO(e)[x], PO(e)[x] < NS(e), SM(e).el[PO(e)[x]] == x)), pat=lambda x: K(e)[x]),
               forall(lo, N(e), lambda x: Implies(K(e)[x] == 1, And(0 <= PO(e)[x], PO(e)[x] < NL(e), LG(e).el[PO(e)[x]] == x)), pat=lambda x: K(e)[x]))
def stk(lo=lambda e: 0): return [(lab, lambda e, j=j: stacks(e, lo(e))[j]) for j, lab in enumerate(('small stack', 'large stack', 'kinds', 'small ones are stacked', 'large ones are stacked'))]
def sides(e, lo): f = FK(e).el; return forall(lo, N(e), lambda x: And(Implies(K(e)[x] == 0, f[x] < 1), Implies(K(e)[x] == 1, f[x] >= 1)), pat=lambda x: [K(e)[x], f[x]])
fac = ('normalised weights', lambda e: NORM(e) == z3.ToReal(N(e)) / total(e))
def excess(e): return (SUM(EX(e), _0, N(e)) == 0, forall(0, N(e), lambda x: EX(e)[x] == If(K(e)[x] == 2, 0, FK(e).el[x] - 1), pat=lambda x: [EX(e)[x], K(e)[x]]))
def done(e):
    a, p = e.this.alias_.el, e.this.probabilities_.el
    return forall(0, N(e), lambda x: And(0 <= a[x], a[x] < N(e), If(K(e)[x] == 2, And(0 <= p[x], p[x] <= 1, CC(e)[x] == 1 - p[x], Implies(CC(e)[x] != 0, TT(e)[x] == a[x])), CC(e)[x] == 0)), pat=lambda x: [a[x], p[x], CC(e)[x]])
def mass(e): return forall(0, N(e), lambda x: If(K(e)[x] == 2, e.this.probabilities_.el[x], FK(e).el[x]) + SUM(GIV(CC(e), TT(e), x), _0, N(e)) == e.lg('F0')[x], pat=lambda x: e.lg('F0')[x])
shares = ('shares', lambda e: forall(0, N(e), lambda x: e.lg('F0')[x] == e.w.el[x] * NORM(e), pat=lambda x: e.w.el[x]))
S_ = lambda e: e.loc('small_index'); L_ = lambda e: e.loc('large_index')
ones = ('what is left weighs one', lambda e: forall(0, N(e), lambda x: Implies(K(e)[x] != 2, FK(e).el[x] == 1), pat=lambda x: [K(e)[x], FK(e).el[x]]))
def keep(g, so): return (so, lambda e: e.lg(g), lambda e: e.lg(g))
def rest(v, cnt): return Loop(lens, *stk(), ones, ('tables', lambda e: done(e)), ('mass is conserved', lambda e: mass(e)), shares, decreases=cnt, ghost=dict(K=(AN, lambda e: e.lg('K'), lambda e: z3.Store(K(e), v(e).el[cnt(e)], 2)), POS=keep('POS', AN), C=keep('C', AR), T=keep('T', AN), F0=keep('F0', AR)))
init = Contract('init', [Ob('w', VecOf(RE))], [weights, ('fresh tables', lambda e: And(N(e) == e.w.len, e.this.alias_.len == N(e), e.this.probabilities_.len == N(e), forall(0, N(e), lambda i: And(0 <= e.this.alias_.el[i], e.this.alias_.el[i] < N(e)), pat=lambda i: e.this.alias_.el[i])))],
    [('table', lambda e: table(e.this, e.w.el, N(e))), ('mass of every index proportional to its weight', lambda e: masses(e.this, e.w.el, N(e))), ('indices of zero weight are never returned', lambda e: never(e.this, e.w.el, N(e)))], cls=VA, this=VF, modifies=['this.alias_', 'this.probabilities_'],
    at_return=[lambda e: forall(0, N(e), lambda x: K(e)[x] == 2, pat=lambda x: K(e)[x]),
        lambda e: forall(0, N(e), lambda x: SUM(MASS(e.this.alias_.el, e.this.probabilities_.el, x), _0, N(e)) == SUM(GIV(CC(e), TT(e), x), _0, N(e)), pat=lambda x: SUM(MASS(e.this.alias_.el, e.this.probabilities_.el, x), _0, N(e))),
        lambda e: forall(0, N(e), lambda x: And(SUM(MASS(e.this.alias_.el, e.this.probabilities_.el, x), _0, N(e)) >= 0, e.this.probabilities_.el[x] + SUM(MASS(e.this.alias_.el, e.this.probabilities_.el, x), _0, N(e)) == e.lg('F0')[x], Implies(e.w.el[x] == 0, e.lg('F0')[x] == 0)), pat=lambda x: [e.lg('F0')[x], e.w.el[x]]),
        lambda e: forall2(0, N(e), 0, N(e), lambda x, i: And(MARK(MASS(e.this.alias_.el, e.this.probabilities_.el, x)), MASS(e.this.alias_.el, e.this.probabilities_.el, x)[i] <= SUM(MASS(e.this.alias_.el, e.this.probabilities_.el, x), _0, N(e))), pat=lambda x, i: MASS(e.this.alias_.el, e.this.probabilities_.el, x)[i]),
        lambda e: forall(0, N(e), lambda i: And(1 - e.this.probabilities_.el[i] == MASS(e.this.alias_.el, e.this.probabilities_.el, e.this.alias_.el[i])[i], 1 - e.this.probabilities_.el[i] <= e.lg('F0')[e.this.alias_.el[i]]), pat=lambda i: [e.this.alias_.el[i], e.this.probabilities_.el[i]])],
    loops={0: Loop(lens, ('cursor', lambda e: And(0 <= e.i, e.i <= N(e), NS(e) + NL(e) == N(e) - e.i)), *stk(lambda e: e.i), ('sides', lambda e: sides(e, e.i)), ('none is done', lambda e: forall(e.i, N(e), lambda x: K(e)[x] != 2, pat=lambda x: K(e)[x])), decreases=lambda e: e.i,
            ghost=dict(K=(AN, lambda e: Def(lambda k: IntVal(2)), lambda e: z3.Store(K(e), e.i, If(FK(e).el[e.i] < 1, 0, 1))), POS=(AN, lambda e: Def(lambda k: k), lambda e: z3.Store(PO(e), e.i, If(FK(e).el[e.i] < 1, NS(e) - 1, NL(e) - 1))))),
        1: Loop(lens, *stk(), ('sides', lambda e: sides(e, 0)), ('excess of what is left', lambda e: excess(e)[1]), ('total excess', lambda e: excess(e)[0]), ('tables', lambda e: done(e)), ('mass is conserved', lambda e: mass(e)), shares, decreases=lambda e: NS(e) + NL(e), exit_hints=[lambda e: And(MARK(EX(e)), SUM(EX(e), _0, N(e)) == 0), lambda e: forall(0, N(e), lambda x: EX(e)[x] == 0, pat=lambda x: EX(e)[x]), ones[1]],
            ghost=dict(K=(AN, lambda e: K(e), lambda e: z3.Store(z3.Store(K(e), S_(e), 2), L_(e), If(FK(e).el[L_(e)] < 1, 0, 1))), POS=(AN, lambda e: PO(e), lambda e: z3.Store(PO(e), L_(e), If(FK(e).el[L_(e)] < 1, NS(e) - 1, NL(e) - 1))),
                EX=(AR, lambda e: SCL(e.w.el, NORM(e)), lambda e: z3.Store(z3.Store(EX(e), S_(e), 0), L_(e), FK(e).el[L_(e)] - 1)), C=(AR, lambda e: z3.K(Int_, z3.RealVal(0)), lambda e: z3.Store(CC(e), S_(e), 1 - e.this.probabilities_.el[S_(e)])), T=(AN, lambda e: Def(lambda k: k), lambda e: z3.Store(TT(e), S_(e), L_(e))), F0=(AR, lambda e: FK(e).el, lambda e: e.lg('F0')))),
        2: rest(LG, NL), 3: rest(SM, NS)})
class TW:
    def __init__(self, e): self.el = e.gw; self.len = e.this.n_weights_
ready = ('tables of the weights', lambda e: And(N(e) >= 1, table(e.this, e.gw, N(e)), never(e.this, e.gw, N(e)), forall(0, N(e), lambda i: e.gw[i] >= 0, pat=lambda i: e.gw[i]), RD(e)['lo'] == 0, RD(e)['hi'] == 1))
RD = lambda e: e.this.rand_.f['distribution_'].f
inrange = ('an index', lambda e: And(0 <= e.result, e.result < N(e))); pos = ('never an index of zero weight', lambda e: e.gw[e.result] > 0)
GW = dict(gw=AR)
def two(e):
    """one draw picks the column, the other one decides between the column and its alias"""
    d = e.draws
    if len(d) != 2: return z3.BoolVal(False)
    def by(c, u): x = z3.ToInt(z3.ToReal(N(e)) * c); return e.result == If(u < e.this.probabilities_.el[x], x, e.this.alias_.el[x])
    return Or(by(*d), by(d[1], d[0]))
smp = [Contract(f, [], [ready], [inrange, pos], cls=VA, this=dict(VF), ghosts=GW, result=SZ, at_return=[two] if f == 'sample' else []) for f in ('sample', 'operator()')]
ctor = Contract(VA, [Ob('w', VecOf(RE))], [('non-negative weights, not all zero', lambda e: And(forall(0, e.w.len, lambda i: e.w.el[i] >= 0, pat=lambda i: e.w.el[i]), Implies(e.w.len >= 1, total(e) > 0)))],
    [('number of weights', lambda e: N(e) == e.w.len), ('table', lambda e: table(e.this, e.w.el, N(e))), ('mass of every index proportional to its weight', lambda e: masses(e.this, e.w.el, N(e))), ('indices of zero weight are never returned', lambda e: never(e.this, e.w.el, N(e))), ('ready', ready[1])], cls=VA, ghosts=GW, ghost_update=dict(gw=lambda e: e.w.el), modifies=['this'], throws=lambda e: e.w.len == 0)
CONTRACTS = [sel_n, mk_n, one, many, uni, spat, init, ctor] + smp + [shared.get_n_samples]
shared.get_n_samples.trusted = 'proved in P21'
