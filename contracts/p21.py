"""P21: common helpers."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for all lengths and values on the real code (reals for double, mathematical integers for int): permutation and row remapping with their refusal of wrong sizes, conversion, matching, membership, container equality, absolute value, tolerance equality, division default, floor centre (lemmas: it is the floor and lies between the bounds), number of rows. Assumed: no integer overflow, standard algorithms as specified."
TU = ('p21.cpp', ('ffcl',))
EPS = z3.Const('EPS', Real_)
DD = r'double'; II = r'\bint\b'
def C(fn, params, ens, types=None, res=None, req=(), **kw): return Contract(fn, params, list(req), ens, types=types, result=res, name=kw.pop('name', fn), **kw)
X, Y = Sc('x', RE), Sc('y', RE); A, B = Sc('x', SI), Sc('y', SI)
RD, RI = r'const double|\(const T', r'const int'
def both(fn, f, params=(X, Y), iparams=(A, B), res=(RE, SI), **kw):
    return [C(fn, list(params), [('value', lambda e: e.result == f(e, RE))], types='double', res=res[0], name=fn + '(double)', **kw), C(fn, list(iparams), [('value', lambda e: e.result == f(e, SI))], types=r'\bint\b', res=res[1], name=fn + '(int)', **kw)]
def eq(e, T): return zabs(e.y - e.x) <= EPS if T is RE else e.x == e.y
def flo(x): return x / 2                     # SMT division of integers rounds down for a positive divisor
out = both('abs', lambda e, T: zabs(e.x), (X,), (A,))
out += both('equality', eq, res=(BO, BO)) + both('inequality', lambda e, T: Not(eq(e, T)), res=(BO, BO))
out += [C('division', [X, Y, Sc('z', RE)], [('quotient', lambda e: Implies(zabs(e.y) > EPS, e.result == e.x / e.y)), ('default for a zero denominator', lambda e: Implies(zabs(e.y) <= EPS, e.result == e.z))], types='double', res=RE)]
out += both('compute_center_with_left_rounding', lambda e, T: (e.x + e.y) / 2 if T is RE else flo(e.x + e.y)) + both('compute_size_from_center_with_left_rounding', lambda e, T: (e.y - e.x) / 2 if T is RE else 1 + e.y - flo(e.x + e.y))
def LEMMAS():
    a, b, m = z3.Ints('a b m')
    return [('the floor of the midpoint lies between the bounds', [a <= b], And(a <= (a + b) / 2, (a + b) / 2 <= b)), ('the floor of the midpoint is the largest integer not above it', [2 * m <= a + b], m <= (a + b) / 2), ('the floor of the midpoint is not above it', [], 2 * ((a + b) / 2) <= a + b)]
IT2 = [Itp('p', 'p0'), Itp('p', 'p1')]
n = lambda e: e.p1 - e.p0
rng = ('a range', lambda e: e.p0 <= e.p1)
for lab, T, ty, f in (('double to double', RE, r'vector<double>.*__normal_iterator<double', lambda v: v), ('int to double', SI, r'vector<double>.*__normal_iterator<int', z3.ToReal), ('double to int', RE, r'vector<int>.*__normal_iterator<double', lambda v: If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))):
    out.append(C('to_type', IT2, [('as many elements', lambda e: e.result.len == n(e)), ('element k is the converted element k', lambda e, f=f: forall(0, n(e), lambda k: e.result.el[k] == f(e.p.el[e.p0 + k]), pat=lambda k: e.result.el[k]))], types=ty, req=[rng], objs=dict(p=VecOf(T)), res=VecOf(SI if lab.endswith('int') else RE), name=f'to_type ({lab})'))
def close(T): return (lambda a, b, t: zabs(a - b) <= t) if T is RE else (lambda a, b, t: a == b)
for T, ty in ((RE, 'double'), (SI, r'\bint\b')):
    g = close(T); nm = 'double' if T is RE else 'int'
    same = lambda e, m, g=g: forall(0, m, lambda k: g(e.p.el[e.p0 + k], e.q.el[e.q0 + k], e.t), pat=lambda k: e.p.el[e.p0 + k])
    exact = lambda e, m, g=g: forall(e.p0, e.p0 + m, lambda k: g(e.p.el[k], e.q.el[e.q0 + (k - e.p0)], e.t), pat=lambda k: e.p.el[k])
    out.append(C('are_containers_equal', IT2 + [Itp('q', 'q0'), Sc('t', T)], [('equal exactly when every element is', lambda e, exact=exact: e.result == exact(e, n(e)))], types=ty, req=[('ranges', lambda e: And(e.p0 <= e.p1, e.q0 + n(e) <= e.q.len))], objs=dict(p=VecOf(T), q=VecOf(T)), res=BO, name=f'are_containers_equal({nm}, ranges)',
        loops={0: Loop(('in step', lambda e: And(e.p0 <= e.loc('left_data_range_first'), e.loc('left_data_range_first') <= e.p1, e.loc('right_data_range_first') - e.q0 == e.loc('left_data_range_first') - e.p0)), ('equal so far', lambda e, exact=exact: exact(e, e.loc('left_data_range_first') - e.p0)), decreases=lambda e: e.p1 - e.loc('left_data_range_first'))}))
    out.append(C('are_containers_equal', [Ob('x', VecOf(T)), Ob('y', VecOf(T)), Sc('t', T)], [('equal exactly when sizes and every element are', lambda e, g=g: e.result == And(e.x.len == e.y.len, forall(0, e.x.len, lambda k: g(e.x.el[k], e.y.el[k], e.t), pat=lambda k: e.x.el[k])))], types=f'vector<{nm}>', res=BO, name=f'are_containers_equal({nm}, containers)'))
MATCH = named_array('MATCH', [AI(Int_), Int_, AI(Int_), Int_], Int_, lambda p, i, q, j, k: If(p[i + k] == q[j + k], 1, 0))
MATCHV = named_array('MATCHV', [AI(Int_), Int_, AI(Int_), Int_, Int_], Int_, lambda p, i, q, j, v, k: If(And(p[i + k] == q[j + k], q[j + k] == v), 1, 0))
for fn, extra, arr in (('count_matches', [], lambda e: MATCH(e.p.el, e.p0, e.q.el, e.q0)), ('count_matches_for_value', [Sc('v', SI)], lambda e: MATCHV(e.p.el, e.p0, e.q.el, e.q0, e.v))):
    out.append(C(fn, IT2 + [Itp('q', 'q0')] + extra, [('number of matching positions', lambda e, arr=arr: e.result == SUMI(arr(e), IntVal(0), n(e)))], req=[('ranges', lambda e: And(e.p0 <= e.p1, e.q0 + n(e) <= e.q.len))], objs=dict(p=VecOf(SI), q=VecOf(SI)), res=SZ,
        loops={0: Loop(('in step', lambda e: And(e.p0 <= e.loc('left_data_range_first'), e.loc('left_data_range_first') <= e.p1, e.loc('right_data_range_first') - e.q0 == e.loc('left_data_range_first') - e.p0)), ('matches so far', lambda e, arr=arr: e.loc('count') == SUMI(arr(e), IntVal(0), e.loc('left_data_range_first') - e.p0)), decreases=lambda e: e.p1 - e.loc('left_data_range_first'))}))
CO = [Ob('ix', VecOf(SZ)), Ob('v', VecOf(RE))]
out.append(C('permutation_from_indices', CO, [('as many elements', lambda e: e.result.len == e.v.len), ('element k of the result is element index[k] of the input', lambda e: forall(0, e.v.len, lambda k: e.result.el[k] == e.v.el[e.ix.el[k]], pat=lambda k: e.result.el[k]))],
    req=[('indices of elements', lambda e: forall(0, e.ix.len, lambda k: And(0 <= e.ix.el[k], e.ix.el[k] < e.v.len), pat=lambda k: e.ix.el[k]))], throws=lambda e: e.ix.len != e.v.len, res=VecOf(RE),
    loops={0: Loop(('positions', lambda e: And(0 <= e.i, e.i <= e.ix.len, e.ix.len == e.v.len, e.locv('swapped').len == e.v.len)), ('so far', lambda e: forall(0, e.i, lambda k: e.locv('swapped').el[k] == e.v.el[e.ix.el[k]], pat=lambda k: e.locv('swapped').el[k])), decreases=lambda e: e.ix.len - e.i)}))
def row(e, r, k, i): return e.v.el[mul(i, e.nf) + k]
def rows(e, R, m): return forall_raw([Int_, Int_], lambda i, k: Implies(And(0 <= i, i < m, 0 <= k, k < e.nf), R.el[mul(i, e.nf) + k] == e.v.el[mul(e.ix.el[i], e.nf) + k]), pat=lambda i, k: z3.MultiPattern(MULI(i, e.nf), R.el[mul(i, e.nf) + k]))
def rest(e, R, m): return forall_raw([Int_], lambda q: Implies(And(mul(m, e.nf) <= q, q < e.v.len), R.el[q] == e.v.el[q]), pat=lambda q: R.el[q])
out.append(C('remap_ranges_from_indices', CO + [Sc('nf')], [('as many elements', lambda e: e.result.len == e.v.len), ('row i of the result is row index[i] of the input', lambda e: rows(e, e.result, e.ix.len))],
    req=[('whole rows', lambda e: And(e.nf >= 1, mod(e.v.len, e.nf) == 0)), ('indices of rows', lambda e: forall(0, e.ix.len, lambda k: And(0 <= e.ix.el[k], MULI(e.ix.el[k], e.nf) >= 0, mul(e.ix.el[k], e.nf) + e.nf <= e.v.len), pat=lambda k: e.ix.el[k]))], throws=lambda e: div(e.v.len, e.nf) != e.ix.len, res=VecOf(RE),
    loops={0: Loop(('rows', lambda e: And(0 <= e.i, e.i <= e.ix.len, e.ix.len == div(e.v.len, e.nf), mul(e.ix.len, e.nf) == e.v.len, e.locv('swapped').len == e.v.len)), ('rows so far', lambda e: rows(e, e.locv('swapped'), e.i)), ('the rest is as in the input', lambda e: rest(e, e.locv('swapped'), e.i)), decreases=lambda e: e.ix.len - e.i)}))
out.append(shared.get_n_samples)
PV = Rec('pair', first=SZ, second=RE)
mem = lambda e: exists(e.p0, e.p1, lambda k: e.p.el[k] == e.x)
memf = lambda e: exists(e.p0, e.p1, lambda k: e.p.el.f['0'][k] == e.x)
for fn, f, T, xs in (('is_element_in', mem, SI, SI), ('is_element_not_in', lambda e: Not(mem(e)), SI, SI), ('is_element_in_first', memf, Tup(SZ, RE), SZ), ('is_element_not_in_first', lambda e: Not(memf(e)), Tup(SZ, RE), SZ)):
    out.append(C(fn, IT2 + [Sc('x', xs)], [('membership', lambda e, f=f: e.result == f(e))], req=[rng], objs=dict(p=VecOf(T)), res=BO))
CONTRACTS = out
