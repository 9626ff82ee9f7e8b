"""P10: union-find.  Ghosts: rep (representative of every element), dep (distance measure towards the representative)."""
from core import *
from engine import *
LEVEL_NOTE = "Proved for all inputs and histories on the real find/merge/constructor: ghost representative map and a well-founded depth measure; termination of find included. Assumes mathematical integers; destructor/print not covered."
TU = ('p10.cpp', ('ffcl',))
A = AI(Int_)
def inv(p, rep, dep, n):
    P = p.el
    return And(
        forall(0, n, lambda x: And(P[x] >= 0, P[x] < n, rep[P[x]] == rep[x], (P[x] == x) == (rep[x] == x), dep[x] >= 0, Implies(P[x] != x, dep[P[x]] < dep[x])), pat=lambda x: P[x]),
        forall(0, n, lambda x: And(rep[x] >= 0, rep[x] < n, rep[rep[x]] == rep[x]), pat=lambda x: rep[x]))
FLD = dict(n_samples_=SZ, parents_=VecOf(SZ), ranks_=VecOf(SZ))
def wf(e): return And(e.this.parents_.len == e.this.n_samples_, e.this.ranks_.len == e.this.n_samples_, inv(e.this.parents_, e.rep, e.dep, e.this.n_samples_))
find = Contract('find', [Sc('index')], cls='UnionFind', this=FLD, ghosts=dict(rep=A, dep=A),
    requires=[('valid structure', wf), ('index in range', lambda e: And(0 <= e.index, e.index < e.this.n_samples_))],
    modifies=['this.parents_'], result=SZ,
    ensures=[('returns the representative', lambda e: e.result == e.rep[e.index]), ('valid structure', wf), ('representative is its own parent', lambda e: e.this.parents_[e.result] == e.result)],
    loops={0: Loop(('index in range', lambda e: And(0 <= e.loc('index'), e.loc('index') < e.this.n_samples_)), ('same component', lambda e: e.rep[e.loc('index')] == e.rep[e.index]), ('valid structure', wf),
                   decreases=lambda e: e.dep[e.loc('index')])})
def win(e): return e.result
def lose(e): return If(e.result == e.old.rep[e.i1], e.old.rep[e.i2], e.old.rep[e.i1])
def newrep(e):
    r = e.old.rep
    return Def(lambda x: If(r[x] == lose(e), win(e), r[x]))
def newdep(e):
    r = e.old.rep; d = e.old.dep
    return Def(lambda x: If(And(r[x] == lose(e), win(e) != lose(e)), d[x] + d[win(e)] + 1, d[x]))
merge = Contract('merge', [Sc('i1'), Sc('i2')], cls='UnionFind', this=FLD, ghosts=dict(rep=A, dep=A), ghost_update=dict(rep=newrep, dep=newdep),
    requires=[('valid structure', wf), ('indices in range', lambda e: And(0 <= e.i1, e.i1 < e.this.n_samples_, 0 <= e.i2, e.i2 < e.this.n_samples_))],
    modifies=['this.parents_', 'this.ranks_'], result=SZ,
    ensures=[('returns one of the two representatives', lambda e: Or(e.result == e.old.rep[e.i1], e.result == e.old.rep[e.i2])),
             ('the two elements share a representative', lambda e: And(e.rep[e.i1] == e.result, e.rep[e.i2] == e.result)),
             ('exactly the two components are joined', lambda e: forall2(0, e.this.n_samples_, 0, e.this.n_samples_, lambda x, y: (e.rep[x] == e.rep[y]) == Or(e.old.rep[x] == e.old.rep[y],
                    And(e.old.rep[x] == e.old.rep[e.i1], e.old.rep[y] == e.old.rep[e.i2]), And(e.old.rep[x] == e.old.rep[e.i2], e.old.rep[y] == e.old.rep[e.i1])))),
             ('valid structure', wf)])
def ident(e): return Def(lambda x: x)
ctor = Contract('UnionFind', [Sc('n')], cls='UnionFind', ghosts=dict(rep=A, dep=A), ghost_update=dict(rep=ident, dep=lambda e: Def(lambda x: IntVal(0))), modifies=['this'],
    ensures=[('every element is alone', wf), ('size', lambda e: e.this.n_samples_ == e.n)])
CONTRACTS = [find, merge, ctor]
