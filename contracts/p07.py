"""P07: bounded search buffers.  Ghosts: the history of offers (oi, od, on), which offer each slot holds (slot) and where each offer is held (pos, -1: not held), the first closest offer (ct)."""
from core import *
from engine import *
LEVEL_NOTE = "Proved for every sequence of offers on the real update path (update, update_impl, update_static_buffers), the constructors and every accessor: ghost history of offers, one slot per held offer, offers not held are no closer than the furthest held one. Partial searches are proved in P04 to P06 on top of it. Any capacity (0 or none given: unlimited)."
TU = ('p07.cpp', ('ffcl',))
class Obj:
    def __init__(self, o): self.__dict__['o'] = o
    def __getattr__(self, n):
        if n not in self.o.f: raise Detached('no field ' + n)
        return self.o.f[n]
def bf(e): return Obj(e.b) if 'b' in e._b else e.this      # the buffer: this, or the parameter b of a search function
GH = dict(tm=AI(Int_), oi=AI(Int_), od=AI(Real_), on=SZ, slot=AI(Int_), pos=AI(Int_), ct=SZ)
FLD = dict(indices_=VecOf(SZ), distances_=VecOf(RE))
def n(e): return bf(e).indices_.len
def cap(e): return bf(e).max_capacity_
def W1(e):
    t = bf(e)
    return And(t.distances_.len == n(e), n(e) >= 0, e.on >= 0, cap(e) >= 1, n(e) == If(e.on < cap(e), e.on, cap(e)))
def W2(e):
    I, D = bf(e).indices_.el, bf(e).distances_.el
    return forall(0, n(e), lambda j: And(0 <= e.slot[j], e.slot[j] < e.on, e.pos[e.slot[j]] == j, I[j] == e.oi[e.slot[j]], D[j] == e.od[e.slot[j]]), pat=lambda j: [e.slot[j], I[j], D[j]])
def W3(e): return forall(0, e.on, lambda t: And(-1 <= e.pos[t], e.pos[t] < n(e), Implies(e.pos[t] >= 0, e.slot[e.pos[t]] == t)), pat=lambda t: e.pos[t])
def W4(e): return forall(0, e.on, lambda t: Implies(e.pos[t] == -1, And(n(e) == cap(e), e.od[t] >= bf(e).furthest_distance_)), pat=lambda t: [e.pos[t], e.od[t]])
def W5(e):
    t = bf(e); D = t.distances_.el; b = t.buffer_index_of_furthest_index_
    return And(Implies(n(e) > 0, And(0 <= b, b < n(e), t.furthest_distance_ == D[b])), forall(0, n(e), lambda j: D[j] <= t.furthest_distance_, pat=lambda j: D[j]), Implies(n(e) == 0, b == 0))
def W6(e): return And(forall(0, e.on, lambda t: bf(e).closest_distance_ <= e.od[t], pat=lambda t: e.od[t]), Implies(e.on > 0, And(0 <= e.ct, e.ct < e.on, e.od[e.ct] == bf(e).closest_distance_, e.oi[e.ct] == bf(e).closest_index_)))
WF = [('sizes: the buffer holds min(capacity, offered) candidates', W1), ('every held candidate was offered, once', W2), ('every offer is held at most once', W3),
      ('offers that are not held are no closer than the furthest held one, and the buffer is full', W4), ('furthest distance is the largest held one', W5), ('closest distance is the smallest offered', W6)]
def full_closer(e): return e.d < e.old.this.furthest_distance_
def b_(e): return e.old.this.buffer_index_of_furthest_index_
def notfull(e): return n(e.old) < cap(e.old)
GU = dict(tm=lambda e: z3.Store(e.old.tm, e.i_, e.old.on), ct=lambda e: If(Or(e.old.on == 0, e.d < e.old.this.closest_distance_), e.old.on, e.old.ct), on=lambda e: e.old.on + 1, oi=lambda e: z3.Store(e.old.oi, e.old.on, e.i_), od=lambda e: z3.Store(e.old.od, e.old.on, e.d),
          slot=lambda e: If(notfull(e), z3.Store(e.old.slot, n(e.old), e.old.on), If(full_closer(e), z3.Store(e.old.slot, b_(e), e.old.on), e.old.slot)),
          pos=lambda e: If(notfull(e), z3.Store(e.old.pos, e.old.on, n(e.old)), If(full_closer(e), z3.Store(z3.Store(e.old.pos, e.old.slot[b_(e)], -1), e.old.on, b_(e)), z3.Store(e.old.pos, e.old.on, -1))))
MOD = ['this.' + f for f in ('indices_', 'distances_', 'closest_index_', 'closest_distance_', 'buffer_index_of_furthest_index_', 'furthest_distance_')]
def upd(fn, cls): return Contract(fn, [Sc('i_'), Sc('d', RE)], WF, WF + [('a full buffer stays full and its furthest distance never grows', lambda e: And(cap(e) == cap(e.old), Implies(n(e.old) == cap(e.old), And(n(e) == cap(e), bf(e).furthest_distance_ <= bf(e.old).furthest_distance_)))), ('accepted exactly when not full or strictly closer than the furthest', lambda e: (e.pos[e.old.on] >= 0) == Or(notfull(e), full_closer(e)))],
    cls=cls, this=FLD, ghosts=GH, ghost_update=GU, modifies=MOD)
maxpair = Contract('get_max_index_value_pair', [Itp('d', 'a'), Itp('d', 'b')], [('not empty', lambda e: e.a < e.b)],
    [('a position in range', lambda e: And(0 <= e.result.f['0'], e.result.f['0'] < e.b - e.a)), ('the value at that position', lambda e: e.result.f['1'] == e.d[e.a + e.result.f['0']]),
     ('the largest', lambda e: forall(e.a, e.b, lambda k: e.d[k] <= e.result.f['1'], pat=lambda k: e.d.el[k]))], objs=dict(d=VecOf(RE)), result=Tup(SZ, RE))
base = upd('update_static_buffers', 'StaticBuffer')
impl = upd('update_impl', 'Unsorted')
upd_any = upd('update', 'StaticBuffer')
def acc(fn, lab, f, result, nparams=0, cls='StaticBuffer', req=WF): return Contract(fn, [Sc('p%d' % k) for k in range(nparams)], req, [(lab, f)], cls=cls, this=FLD, ghosts=GH, result=result, leaf=True)
def held_max(e, v): return And(forall(0, n(e), lambda j: e.this.distances_[j] <= v, pat=lambda j: e.this.distances_.el[j]), exists(0, n(e), lambda j: e.this.distances_[j] == v))
NE = WF + [('not empty', lambda e: n(e) > 0)]
def same(v, w): return And(v.len == w.len, forall(0, w.len, lambda k: v[k] == w[k], pat=lambda k: v.el[k]))
ACC = [acc('size', 'number of held candidates', lambda e: e.result == n(e), SZ), acc('empty', 'nothing is held', lambda e: e.result == (e.on == 0), BO),
       acc('remaining_capacity', 'capacity minus held', lambda e: And(e.result == cap(e) - n(e), (e.result == 0) == (n(e) == cap(e))), SZ), acc('max_capacity', 'capacity', lambda e: e.result == cap(e), SZ),
       acc('furthest_distance', 'largest held distance', lambda e: held_max(e, e.result), RE, req=NE), acc('furthest_distance', 'largest held distance', lambda e: held_max(e, e.result), RE, 1, req=NE),
       acc('furthest_index', 'index of a candidate at the largest held distance', lambda e: exists(0, n(e), lambda j: And(e.this.indices_[j] == e.result, e.this.distances_[j] == e.this.furthest_distance_)), SZ, req=NE),
       acc('closest_distance', 'smallest offered distance', lambda e: And(forall(0, e.on, lambda t: e.result <= e.od[t], pat=lambda t: e.od[t]), exists(0, e.on, lambda t: e.od[t] == e.result)), RE, req=NE),
       acc('indices', 'the held indices', lambda e: same(e.result, e.this.indices_), VecOf(SZ)), acc('distances', 'the held distances', lambda e: same(e.result, e.this.distances_), VecOf(RE)),
       acc('indices_const_ref', 'the held indices', lambda e: same(e.result, e.this.indices_), VecOf(SZ)), acc('distances_const_ref', 'the held distances', lambda e: same(e.result, e.this.distances_), VecOf(RE))]
NEW = [('nothing offered yet', lambda e: And(e.on == 0, n(e) == 0, e.this.furthest_distance_ == INF)), ('capacity, 0 (infinity<IndexType>()) for unlimited', lambda e: cap(e) == If(e.c == 0, IntVal(2 ** 64 - 1), e.c))] + WF
CAP = [('capacity', lambda e: And(e.c >= 0, e.c < 2 ** 64))]
ZERO = dict(on=lambda e: IntVal(0))
ctor0 = Contract('StaticBuffer', [Skip(), Sc('c')], CAP, NEW, cls='StaticBuffer', this=FLD, ghosts=GH, ghost_update=ZERO, modifies=['this'])
ctor1 = Contract('Unsorted', [Skip(), Sc('c')], CAP, NEW, cls='Unsorted', this=FLD, ghosts=GH, ghost_update=ZERO, modifies=['this'])
ctor2 = Contract('Unsorted', [Itp('q', 'q0'), Itp('q', 'q1'), Sc('c')], CAP, NEW, cls='Unsorted', objs=dict(q=VecOf(RE)), this=FLD, ghosts=GH, ghost_update=ZERO, modifies=['this'])
CONTRACTS = [base, maxpair, impl, upd_any, ctor0, ctor1, ctor2] + ACC
