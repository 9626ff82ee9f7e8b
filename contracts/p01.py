"""P01: distances."""
from core import *
from engine import *
import shared
LEVEL_NOTE = "Proved for all lengths and values (reals for double, mathematical integers for int/unsigned): each distance equals its defining sum, the dispatcher picks the right one, Levenshtein equals the edit-distance recurrence; symmetry, non-negativity and zero-on-equal as lemmas. Not proved: floating-point rounding, that the recurrence is the minimum over edit scripts (textbook)."
TU = ('p01.cpp', ('ffcl',))
D4 = [Itp('p', 'p0'), Itp('p', 'p1'), Itp('q', 'q0'), Itp('q', 'q1')]; D2 = [Itp('p', 'p0'), Itp('p', 'p1')]
DO = dict(p=VecOf(RE), q=VecOf(RE)); IO = dict(p=VecOf(SI), q=VecOf(SI))
R4 = [('ranges of equal length within their sequences', lambda e: And(e.p0 <= e.p1, e.q1 - e.q0 == e.p1 - e.p0))]; W4 = [('as many elements in the second sequence', lambda e: And(e.p0 <= e.p1, e.q0 + (e.p1 - e.p0) <= e.q.len))]; R2 = [('range', lambda e: e.p0 <= e.p1)]
def n(e): return e.p1 - e.p0
def sq(e): return SUM(SQDA(e.p.el, e.p0, e.q.el, e.q0), IntVal(0), n(e))
def sq0(e): return SUM(SQA(e.p.el, e.p0), IntVal(0), n(e))
def mh(e): return SUM(ABDA(e.p.el, e.p0, e.q.el, e.q0), IntVal(0), n(e))
def mh0(e): return SUM(ABA(e.p.el, e.p0), IntVal(0), n(e))
def mi(e): return SUMI(ABDI(e.p.el, e.p0, e.q.el, e.q0), IntVal(0), n(e))
def mi0(e): return SUMI(ABI(e.p.el, e.p0), IntVal(0), n(e))
def nonneg(e): return And(forall(e.p0, e.p1, lambda k: e.p.el[k] >= 0, pat=lambda k: e.p.el[k]), forall(e.q0, e.q1, lambda k: e.q.el[k] >= 0, pat=lambda k: e.q.el[k]) if 'q' in e._b else z3.BoolVal(True))
def C(fn, params, f, objs, types, res=RE, req=None, **kw): return Contract(fn, params, req or (R4 if len(params) == 4 else R2), [('value', lambda e: e.result == f(e))], objs=objs if len(params) == 4 else {'p': objs['p']}, types=types, result=res, name=f'{fn}({types})', **kw)
UREQ4 = R4 + [('unsigned elements', nonneg)]; UREQ2 = R2 + [('unsigned elements', nonneg)]
DD = 'double \\*|vector<double>'; II = '<int \\*|vector<int>'; UU = 'unsigned int \\*|vector<unsigned int>'
dist = Contract('auto_distance', D4, W4, [('distance of the two rows', lambda e: e.result == DIST(ROW(e.p.el, e.p0, n(e)), ROW(e.q.el, e.q0, n(e)))), ('value', lambda e: e.result == SQRT(sq(e)))], objs=DO, types=DD, result=RE, name='auto_distance(double)')
_p, _q = z3.Consts('rp! rq!', AI(Real_)); _i, _j, _n = z3.Ints('ri! rj! rn!')
# DIST is by definition the Euclidean distance of two rows
EXTRA_AXIOMS = [FA([_p, _i, _q, _j, _n], DIST(ROW(_p, _i, _n), ROW(_q, _j, _n)) == SQRT(SUM(SQDA(_p, _i, _q, _j), IntVal(0), _n)), DIST(ROW(_p, _i, _n), ROW(_q, _j, _n)))]
def mag(e, which): return SQRT(SUM(DOTA(e.p.el, e.p0, e.p.el, e.p0) if which == 'p' else DOTA(e.q.el, e.q0, e.q.el, e.q0), IntVal(0), n(e)))
def cosine(e):
    dot = SUM(DOTA(e.p.el, e.p0, e.q.el, e.q0), IntVal(0), n(e)); m = mag(e, 'p') * mag(e, 'q'); eps = z3.Const('EPS', Real_)
    return If(zabs(m) <= eps, INF, dot / m)
LEV = z3.Function('LEV', AI(Int_), Int_, AI(Int_), Int_, Int_, Int_, Int_)   # edit distance of the first i and the first j elements
_ip, _iq = z3.Consts('lp! lq!', AI(Int_)); _a, _b = z3.Ints('la! lb!'); _u, _w = z3.Ints('lu! lw!')
def lev(i, j): return LEV(_ip, _a, _iq, _b, i, j)
def min3(a, b, c): return If(a < b, If(a < c, a, c), If(b < c, b, c))
AXIOMS['LEV'] = [FA([_ip, _a, _iq, _b, _u], Implies(_u >= 0, And(lev(_u, IntVal(0)) == _u)), lev(_u, IntVal(0))), FA([_ip, _a, _iq, _b, _u], Implies(_u >= 0, And(lev(IntVal(0), _u) == _u)), lev(IntVal(0), _u)),
    FA([_ip, _a, _iq, _b, _u, _w], Implies(And(_u >= 0, _w >= 0), lev(_u + 1, _w + 1) == min3(lev(_u, _w + 1) + 1, lev(_u + 1, _w) + 1, lev(_u, _w) + If(_ip[_a + _u] == _iq[_b + _w], 0, 1))), lev(_u + 1, _w + 1))]
def L(e, i, j): return LEV(e.p.el, e.p0, e.q.el, e.q0, i, j)
def PR(e): return e.locv('previous_buffer')
def CU(e): return e.locv('current_buffer')
def m(e): return e.q1 - e.q0
def bufs(e): return And(PR(e).len == m(e) + 1, CU(e).len == m(e) + 1)
leven = Contract('levenshtein_distance', D4, [('ranges', lambda e: And(e.p0 <= e.p1, e.q0 <= e.q1))], [('edit distance', lambda e: e.result == L(e, e.p1 - e.p0, m(e)))], objs=IO, result=SI, wrap=True, loops={
    0: Loop(('buffers', bufs), ('row', lambda e: And(0 <= e.i, e.i <= n(e), forall(0, m(e) + 1, lambda j: PR(e)[j] == L(e, e.i, j), pat=lambda j: PR(e).el[j]))), decreases=lambda e: n(e) - e.i),
    1: Loop(('buffers', bufs), ('rows', lambda e: And(0 <= e.j, e.j < n(e), 0 <= e.i, e.i <= m(e), forall(0, m(e) + 1, lambda j: PR(e)[j] == L(e, e.j, j), pat=lambda j: PR(e).el[j]), forall(0, e.i + 1, lambda j: CU(e)[j] == L(e, e.j + 1, j), pat=lambda j: CU(e).el[j]))), decreases=lambda e: m(e) - e.i)})
def LEMMAS():
    p, q = z3.Consts('p q', AI(Real_)); i, j, n, k = z3.Ints('i j n k')
    d, r = SUM(SQDA(p, i, q, j), IntVal(0), n), SUM(SQDA(q, j, p, i), IntVal(0), n)
    eq = z3.ForAll([k], Implies(And(0 <= k, k < n), p[i + k] == q[j + k]), patterns=[SQDA(p, i, q, j)[k]])
    Z = z3.Const('Z', AI(Real_)); zero = z3.ForAll([k], Z[k] == 0, patterns=[Z[k]])
    f = z3.Const('f', AI(Real_)); t = z3.Int('t')
    return [('squared distance is symmetric', [n >= 0], d == r), ('squared distance is non-negative', [n >= 0, z3.ForAll([k], SQDA(p, i, q, j)[k] >= 0, patterns=[SQDA(p, i, q, j)[k]])], d >= 0),
            ('squares are non-negative', [], (p[i + k] - q[j + k]) * (p[i + k] - q[j + k]) >= 0),
            ('distance of equal rows is zero', [n >= 0, eq, zero, SUM(Z, IntVal(0), n) == 0], d == 0),
            ('a sum of non-negative terms is at least each term: step', [n >= 0, t >= 0, t < n + 1, f[n] >= 0, SUM(f, IntVal(0), n) >= 0, Implies(t < n, SUM(f, IntVal(0), n) >= f[t])], SUM(f, IntVal(0), n + 1) >= f[t]),
            ('a sum of non-negative terms: base', [], SUM(f, IntVal(0), IntVal(0)) >= 0),
            ('the distance is at least the difference of any one feature', [n >= 0, 0 <= t, t < n, d >= SQDA(p, i, q, j)[t]], SQRT(d) >= zabs(p[i + t] - q[j + t])),
            ('a sum of zeros is zero: step', [n >= 0, zero, SUM(Z, IntVal(0), n) == 0], SUM(Z, IntVal(0), n + 1) == 0)]
CONTRACTS = [C('squared_euclidean_distance', D4, sq, DO, DD, req=W4), C('squared_euclidean_distance_from_origin', D2, sq0, DO, DD), C('euclidean_distance', D4, lambda e: SQRT(sq(e)), DO, DD, req=W4), C('euclidean_distance_from_origin', D2, lambda e: SQRT(sq0(e)), DO, DD),
    C('manhattan_distance', D4, mi, IO, II, SI), C('manhattan_distance', D4, mh, DO, DD), C('manhattan_distance_from_origin', D2, mi0, IO, II, SI), C('manhattan_distance_from_origin', D2, mh0, DO, DD),
    C('unsigned_manhattan_distance', D4, mi, IO, UU, SZ, req=UREQ4), C('unsigned_manhattan_distance_from_origin', D2, mi0, IO, UU, SZ, req=UREQ2),
    dist, C('auto_distance', D4, mi, IO, UU, SZ, req=UREQ4), C('auto_distance', D4, mi, IO, II, SI), C('auto_distance_from_origin', D2, lambda e: SQRT(sq0(e)), DO, DD), C('auto_distance_from_origin', D2, mi0, IO, UU, SZ, req=UREQ2), C('auto_distance_from_origin', D2, mi0, IO, II, SI),
    C('cosine_similarity', D4, cosine, DO, DD), leven]
