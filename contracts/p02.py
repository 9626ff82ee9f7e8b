"""P02: partition / selection / sorting of an index sequence by one feature of the samples it addresses."""
from core import *
from engine import *
LEVEL_NOTE = "Proved for all ranges, keys (ties included) and pivots on the real partition, median of three, quickselect and quicksort: permutation, order, bounds and termination. Permutation facts are axioms; element type double, index type size_t."
TU = ('p02.cpp', ('ffcl',))
OB = dict(ix=VecOf(SZ), s=VecOf(RE))
def P(*extra): return [Itp('ix', 'lo'), Itp('ix', 'hi'), Itp('s', 'slo'), Itp('s', 'shi'), Sc('nf'), *extra, Sc('fi')]
def key(e, ix, k): return e.s[e.slo + (mul(ix[k], e.nf) + e.fi)]
def valid(e, ix): return forall(e.lo, e.hi, lambda k: And(ix[k] >= 0, MULI(ix[k], e.nf) >= 0, e.slo + (mul(ix[k], e.nf) + e.fi) < e.s.len), pat=lambda k: ix.el[k])
REQ = [('range', lambda e: And(e.lo <= e.hi, e.nf >= 0)), ('indices address samples', lambda e: valid(e, e.ix))]
def perm(e): return And(PERM(e.old.ix.el, e.ix.el, e.lo, e.hi), e.ix.len == e.old.ix.len)
def size(e): return e.hi - e.lo
def med3(x, y, z): return If(x < y, If(y < z, y, If(x < z, z, x)), If(x < z, x, If(y < z, z, y)))
median = Contract('median_index_of_three', P(), REQ, objs=OB, result=SZ, ensures=[
    ('position within the range', lambda e: And(e.result >= 0, Or(e.result < size(e), e.result == 0))),
    ('median of the first, middle and last key', lambda e: Implies(size(e) >= 3, And(
        Or(e.result == 0, e.result == (size(e) - 1) / 2, e.result == size(e) - 1),
        key(e, e.ix, e.lo + e.result) == med3(key(e, e.ix, e.lo), key(e, e.ix, e.lo + (size(e) - 1) / 2), key(e, e.ix, e.lo + (size(e) - 1))))))])
def below(e, ix, a, b, v): return forall(a, b, lambda k: key(e, ix, k) <= v, pat=lambda k: ix.el[k])
def above(e, ix, a, b, v): return forall(a, b, lambda k: key(e, ix, k) >= v, pat=lambda k: ix.el[k])
def L(e): return e.loc('left_index')
def R(e): return e.loc('right_index')
def PV(e): return e.loc('pivot_value')
def PI(e): return e.loc('pivot_index')
part_common = [
    ('valid', lambda e: valid(e, e.ix)), ('permutation', perm)]
partition = Contract('partition_around_pivot_index', P(Sc('pivot')), REQ + [('pivot in range', lambda e: And(0 <= e.pivot, e.pivot < size(e)))], objs=OB, modifies=['ix'], result=SZ,
    ensures=[('position within the range', lambda e: And(e.result >= 0, e.result < size(e))), ('permutation', perm), ('valid', lambda e: valid(e, e.ix)),
             ('the pivot value is at the returned position', lambda e: key(e, e.ix, e.lo + e.result) == key(e, e.old.ix, e.lo + e.pivot)),
             ('smaller keys before', lambda e: below(e, e.ix, e.lo, e.lo + e.result, key(e, e.ix, e.lo + e.result))),
             ('larger keys after', lambda e: above(e, e.ix, e.lo + e.result, e.hi, key(e, e.ix, e.lo + e.result)))],
    loops={0: Loop(*part_common, ('pivot between the cursors', lambda e: And(-1 <= L(e), L(e) < PI(e), PI(e) < R(e), R(e) <= size(e))), ('pivot value', lambda e: And(key(e, e.ix, e.lo + PI(e)) == PV(e), PV(e) == key(e, e.old.ix, e.lo + e.pivot))),
                   ('left part', lambda e: below(e, e.ix, e.lo, e.lo + L(e) + 1, PV(e))), ('right part', lambda e: above(e, e.ix, e.lo + R(e), e.hi, PV(e))), decreases=lambda e: R(e) - L(e)),
           1: Loop(('left cursor', lambda e: And(-1 <= L(e), L(e) < PI(e), L(e) >= L(e.entry(1)))), ('left part', lambda e: below(e, e.ix, e.lo, e.lo + L(e) + 1, PV(e))), decreases=lambda e: PI(e) - L(e)),
           2: Loop(('right cursor', lambda e: And(PI(e) < R(e), R(e) <= size(e), R(e) <= R(e.entry(2)))), ('right part', lambda e: above(e, e.ix, e.lo + R(e), e.hi, PV(e))), decreases=lambda e: R(e))})
def split(e, ix, m): return And(below(e, ix, e.lo, m, key(e, ix, m)), above(e, ix, m, e.hi, key(e, ix, m)))
quickselect = Contract('quickselect', P(Sc('kth')), REQ + [('position in range', lambda e: And(0 <= e.kth, e.kth < size(e)))], objs=OB, modifies=['ix'], result=('its', ('ix', 'ix')),
    ensures=[('the returned range is the requested position', lambda e: And(e.result.f['0'].idx == e.lo + e.kth, e.result.f['1'].idx == e.lo + e.kth + 1)), ('permutation', perm), ('valid', lambda e: valid(e, e.ix)),
             ('ordered around the position', lambda e: split(e, e.ix, e.lo + e.kth))],
    loops={0: Loop(*part_common, ('bracket', lambda e: And(0 <= L(e), L(e) <= e.kth, e.kth <= R(e), R(e) < size(e))),
                   ('left of the bracket', lambda e: forall2(e.lo, e.lo + L(e), e.lo + L(e), e.hi, lambda a, b: key(e, e.ix, a) <= key(e, e.ix, b), pat=lambda a, b: z3.MultiPattern(e.ix.el[a], e.ix.el[b]))),
                   ('right of the bracket', lambda e: forall2(e.lo, e.lo + R(e) + 1, e.lo + R(e) + 1, e.hi, lambda a, b: key(e, e.ix, a) <= key(e, e.ix, b), pat=lambda a, b: z3.MultiPattern(e.ix.el[a], e.ix.el[b]))), decreases=lambda e: R(e) - L(e))})
quicksort = Contract('quicksort', P(Sc('pivot')), REQ + [('pivot in range', lambda e: And(0 <= e.pivot, Or(e.pivot < size(e), size(e) < 2)))], objs=OB, modifies=['ix'], result=SZ, decreases=size,
    ensures=[('permutation', perm), ('valid', lambda e: valid(e, e.ix)), ('split around the returned position', lambda e: Implies(size(e) >= 2, split(e, e.ix, e.lo + e.result))), ('sorted', lambda e: forall2(e.lo, e.hi, e.lo, e.hi, lambda a, b: Implies(a <= b, key(e, e.ix, a) <= key(e, e.ix, b)), pat=lambda a, b: z3.MultiPattern(e.ix.el[a], e.ix.el[b]))),
             ('pivot position', lambda e: And(e.result >= 0, Or(e.result < size(e), e.result == e.pivot)))])
CONTRACTS = [median, partition, quickselect, quicksort]
