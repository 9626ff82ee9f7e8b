"""P06: searches with exclusions: the traversal of P04 with buffers that refuse some samples."""
from search import *
import p10
from p04 import VIEW, bok
LEVEL_NOTE = "Proved for every well-formed k-d tree, query, capacity, exclusion set (owned or referred to) and every valid union-find on the real code: the answer contains no excluded sample, no duplicates, true distances, and every other sample unless it is full of samples at least as close; constructors keep the exclusions. Iterator-range constructor and copy/move of buffers: bounded stand-in."
TU = ('p06a.cpp', ('ffcl',))
VS = {'UnboundedBallView.centroid_features_range_first_': ('ptr', 'q'), 'UnboundedBallView.centroid_features_range_last_': ('ptr', 'q')}
def visited(e): b = bf(e); p = b.external_visited_indices_ptr_.idx; return If(p == -1, b.visited_indices_.f['mem'], e.ext.el.f['mem'][p])
def macc(e): return forall_raw([Int_], lambda x: e.acc[x] == Not(visited(e)[x]), pat=lambda x: e.acc[x])
def mptr(e): p = bf(e).external_visited_indices_ptr_.idx; return Or(p == -1, And(0 <= p, p < e.ext.len))
p07.base.trusted = 'proved in P07'
CONTRACTS = make('WithMemory', 'UnboundedBallView', 'p06a.cpp', dict(VS, **{'WithMemory.external_visited_indices_ptr_': ('ptr', 'ext')}), VIEW, bok, extra_fields=dict(visited_indices_=SET, external_visited_indices_ptr_=('ptr', 'ext')),
    extra_objs=dict(ext=VecOf(SET)), accdef=macc, extra_inv=[('exclusions of the buffer or of the caller', mptr)], extra_contracts=[p07.base])
UF = Rec('UnionFind', n_samples_=SZ, parents_=VecOf(SZ), ranks_=VecOf(SZ))
def uf(e): return sel(e.ufs.el, bf(e).union_find_const_reference_.idx)
def ufok(e):
    u = uf(e); k = bf(e).union_find_const_reference_.idx; n = u.f['n_samples_']
    return And(0 <= k, k < e.ufs.len, n >= 0, u.f['parents_'].len == n, u.f['ranks_'].len == n, p10.inv(u.f['parents_'], e.rep, e.dep, n), 0 <= bf(e).query_representative_, bf(e).query_representative_ < n,
        forall(0, e.idx.len, lambda p: And(e.idx.el[p] >= 0, e.idx.el[p] < n), pat=lambda p: e.idx.el[p]))
def uacc(e): return forall_raw([Int_], lambda x: e.acc[x] == (e.rep[x] != e.rep[bf(e).query_representative_]), pat=lambda x: e.acc[x])
p10.find.trusted = 'proved in P10'
CONTRACTS += make('WithUnionFind', 'UnboundedBallView', 'p06b.cpp', dict(VS, **{'WithUnionFind.union_find_const_reference_': ('ptr', 'ufs')}), VIEW, bok, extra_fields=dict(union_find_const_reference_=('ptr', 'ufs'), query_representative_=SZ),
    extra_objs=dict(ufs=VecOf(UF)), accdef=uacc, extra_inv=[('valid union-find over the samples', ufok)], extra_contracts=[p10.find], extra_mod=['ufs'], extra_ghosts=dict(rep=AI(Int_), dep=AI(Int_)))
NEW = [('nothing offered yet', lambda e: And(e.on == 0, n(e) == 0, e.this.furthest_distance_ == INF)), ('capacity, 0 (infinity<IndexType>()) for unlimited', lambda e: cap(e) == If(e.c == 0, IntVal(2 ** 64 - 1), e.c))] + WF
def ctor(cls, params, ens, types=None, this=None, tu=None, extra_ens=(), name='', shapes=None, objs=None, req=()):
    fi = lambda o: (o.f['centroid_features_range_first_'].idx, o.f['centroid_features_range_last_'].idx)
    if params[0][0] == 'ob': ens = ens + [('keeps the bound', lambda e: And(fi(e.this.bound_)[0] == fi(e.bb)[0], fi(e.this.bound_)[1] == fi(e.bb)[1]))]; this = dict(this or {}, bound_=VIEW); shapes = dict(VS, **(shapes or {})); objs = dict(dict(q=VecOf(RE)), **(objs or {}))
    if params[0][0] == 'it': this = dict(this or {}, bound_=VIEW); shapes = dict(VS, **(shapes or {})); ens = ens + [('centred on the query', lambda e: And(e.this.bound_.f['centroid_features_range_first_'].idx == e.q0, e.this.bound_.f['centroid_features_range_last_'].idx == e.q1))]
    c = Contract(cls, params, p07.CAP + list(req), NEW + ens, cls=cls, this=dict(p07.FLD, **(this or {})), ghosts=GH, ghost_update=p07.ZERO, modifies=['this'], types=types, name=f'{cls}::{cls}({name})', shapes=shapes, objs=objs or {})
    c.tu = (tu, ('ffcl',)); return c
MT = dict(visited_indices_=SET, external_visited_indices_ptr_=('ptr', 'ext'))
def owns(e): return And(e.this.external_visited_indices_ptr_.idx == -1, e.this.visited_indices_.f['mem'] == e.v.f['mem'])
CT = [ctor('WithMemory', [Ob('bb', VIEW), Ob('v', SET), Sc('c')], [('the exclusions handed over', owns)], types=r'unordered_set<.*> *&&', this=MT, tu='p06a.cpp', name='bound, exclusions moved, capacity', shapes={'WithMemory.external_visited_indices_ptr_': ('ptr', 'ext')}, objs=dict(ext=VecOf(SET)))]
def empty(e): return And(e.this.external_visited_indices_ptr_.idx == -1, forall_raw([Int_], lambda x: Not(e.this.visited_indices_.f['mem'][x]), pat=lambda x: e.this.visited_indices_.f['mem'][x]))
def refers(e): return e.this.external_visited_indices_ptr_.idx == e.k
SHP = dict(shapes={'WithMemory.external_visited_indices_ptr_': ('ptr', 'ext')}, this=MT, tu='p06a.cpp')
Q2 = [Itp('q', 'q0'), Itp('q', 'q1')]; OO = dict(ext=VecOf(SET), q=VecOf(RE))
CT += [ctor('WithMemory', [Ob('bb', VIEW), El('ext', 'k'), Sc('c')], [('the exclusions of the caller', refers)], types=r'const VisitedIndices &|const std::unordered_set<.*> *&,|const unordered_set<', name='bound, exclusions referred to, capacity', objs=OO, **SHP),
       ctor('WithMemory', [Ob('bb', VIEW), Sc('c')], [('no exclusions', empty)], name='bound, capacity', objs=OO, **SHP), ctor('WithMemory', Q2 + [Sc('c')], [('no exclusions', empty)], name='query, capacity', types=r'DistancesIterator|normal_iterator', objs=OO, **SHP),
       ctor('WithMemory', Q2 + [El('ext', 'k'), Sc('c')], [('the exclusions of the caller', refers)], types=r'const VisitedIndices &|const std::unordered_set<.*> *&,|const unordered_set<', name='query, exclusions referred to, capacity', objs=OO, **SHP),
       ctor('WithMemory', Q2 + [Ob('v', SET), Sc('c')], [('the exclusions handed over', owns)], types=r'unordered_set<.*> *&&', name='query, exclusions moved, capacity', objs=OO, **SHP)]
UT = dict(this=dict(union_find_const_reference_=('ptr', 'ufs'), query_representative_=SZ), tu='p06b.cpp', shapes={'WithUnionFind.union_find_const_reference_': ('ptr', 'ufs')}, objs=dict(ufs=VecOf(UF), q=VecOf(RE)))
def knows(e): return And(e.this.union_find_const_reference_.idx == e.k, e.this.query_representative_ == e.rq)
CT += [ctor('WithUnionFind', [Ob('bb', VIEW), El('ufs', 'k'), Sc('rq'), Sc('c')], [('the component of the query', knows)], name='bound, union-find, representative, capacity', **UT),
       ctor('WithUnionFind', Q2 + [El('ufs', 'k'), Sc('rq'), Sc('c')], [('the component of the query', knows)], name='query, union-find, representative, capacity', **UT)]
CONTRACTS += CT
LEMMAS = tree_lemmas
