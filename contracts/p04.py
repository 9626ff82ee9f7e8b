"""P04: k nearest neighbours by single-tree search."""
from search import *
LEVEL_NOTE = "Proved for every well-formed k-d tree, query, k and traversal history on the real Searcher/TreeTraverser/KDNodeView/buffer code: the answer has no duplicates, true distances, and every indexed sample is returned unless the answer is full of samples at least as close. Well-formedness of the tree is P03; the buffer update is P07; distance >= difference of one feature is a lemma of P01. Real arithmetic; floating-point features."
TU = ('p04.cpp', ('ffcl',))
VIEW = Rec('UnboundedBallView', centroid_features_range_first_=('ptr', 'q'), centroid_features_range_last_=('ptr', 'q'))
def bok(e, b): return And(b.f['centroid_features_range_first_'].idx == 0, b.f['centroid_features_range_last_'].idx == e.nf)
CONTRACTS = make('Unsorted', 'UnboundedBallView', 'p04.cpp', {'UnboundedBallView.centroid_features_range_first_': ('ptr', 'q'), 'UnboundedBallView.centroid_features_range_last_': ('ptr', 'q')}, VIEW, bok,
    accdef=lambda e: forall_raw([Int_], lambda x: e.acc[x], pat=lambda x: e.acc[x]), extra_contracts=[p07.impl, p07.upd_any])
p07.impl.trusted = p07.upd_any.trusted = 'proved in P07'
LEMMAS = tree_lemmas
