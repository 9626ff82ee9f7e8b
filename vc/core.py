"""Symbolic values, terms and the background theories."""
import z3, itertools
from z3 import *
_MP = z3.MultiPattern
_KEEP = []
def MultiPattern(*a):
    """z3py does not own the pattern object it returns: take a reference, or it can be freed before it is used"""
    p = _MP(*a); z3.Z3_inc_ref(p.ctx_ref(), z3.Z3_pattern_to_ast(p.ctx_ref(), p.ast)); _KEEP.append((p, a)); return p
z3.MultiPattern = MultiPattern; z3.z3.MultiPattern = MultiPattern
Int_, Real_, Bool_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TWO64 = 2**64
class Unsupported(Exception): pass
class Detached(Exception):
    """the contract does not fit the code any more (renamed locals, other loops, other signature)"""

# ---------------------------------------------------------------- fresh names (reset per function: deterministic text)
class Names:
    n = 0
def fresh(base, sort):
    Names.n += 1
    return z3.Const(f'{base}!{Names.n}', sort)
def AI(s): return z3.ArraySort(Int_, s)

# ---------------------------------------------------------------- values
class SV:
    """struct / pair / tuple"""
    def __init__(self, f, cls=None): self.f = f; self.cls = cls
class VV:
    """sequence: el = tree whose leaves are arrays Int->leaf, len = Int"""
    def __init__(self, el, len): self.el = el; self.len = len
    def __getitem__(self, i): return sel(self.el, i)
class Opt:
    def __init__(self, has, val): self.has = has; self.val = val
class It:
    """iterator / pointer into a sequence: container lvalue + offset"""
    def __init__(self, lv, idx): self.lv = lv; self.idx = idx
class Ptr:
    """pointer to one object"""
    def __init__(self, lv): self.lv = lv
class Lam:
    def __init__(self, node, frame, this): self.node = node; self.frame = frame; self.this = this
class Fn:
    """function object such as std::plus<>"""
    def __init__(self, name): self.name = name
class Opaque:
    def __init__(self, what): self.what = what
class Null: pass
NULL = Null()
class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def f(self, n): return LV(self.root, self.path + (('f', n),))
    def i(self, x): return LV(self.root, self.path + (('i', x),))
    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path): return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]: return False
            if a[0] == 'f' and a[1] != b[1]: return False
            if a[0] == 'i' and not a[1].eq(b[1]): return False
        return True

def is_t(v): return isinstance(v, z3.ExprRef)
def tmap(f, v):
    if is_t(v): return f(v)
    if isinstance(v, SV): return SV({k: tmap(f, x) for k, x in v.f.items()}, v.cls)
    if isinstance(v, VV): return VV(tmap(f, v.el), f(v.len))
    if isinstance(v, Opt): return Opt(f(v.has), tmap(f, v.val))
    if isinstance(v, It): return It(v.lv, f(v.idx))
    return v
def tmap2(f, a, b):
    if is_t(a) and is_t(b): return f(a, b)
    if isinstance(a, SV) and isinstance(b, SV): return SV({k: tmap2(f, a.f[k], b.f[k]) for k in a.f}, a.cls)
    if isinstance(a, VV) and isinstance(b, VV): return VV(tmap2(f, a.el, b.el), f(a.len, b.len))
    if isinstance(a, Opt) and isinstance(b, Opt): return Opt(f(a.has, b.has), tmap2(f, a.val, b.val))
    if isinstance(a, It) and isinstance(b, It) and a.lv.same(b.lv): return It(a.lv, f(a.idx, b.idx))
    if isinstance(a, It) and isinstance(b, Null): return It(a.lv, f(a.idx, z3.IntVal(-1)))
    if isinstance(b, It) and isinstance(a, Null): return It(b.lv, f(z3.IntVal(-1), b.idx))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv): return a
    if type(a) is type(b) and isinstance(a, (Lam, Fn, Opaque, Null)): return a
    raise Unsupported(f'values of different shape {type(a).__name__}/{type(b).__name__}')
def _sel(a, i):
    return a.arg(2) if z3.is_store(a) and a.arg(1).eq(i) else z3.Select(a, i)
def sel(t, i): return tmap(lambda a: _sel(a, i), t)
def coerce(x, sort):
    if x.sort() == sort: return x
    if sort == Real_ and x.sort() == Int_: return z3.ToReal(x)
    if sort == Int_ and x.sort() == Bool_: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if sort == Real_ and x.sort() == Bool_: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if sort == Bool_ and x.sort() == Int_: return x != 0
    raise Unsupported(f'cannot use a {x.sort()} as {sort}')
def _sto(a, i, x):
    return a if z3.is_select(x) and x.arg(0).eq(a) and x.arg(1).eq(i) else z3.Store(a, i, x)
def sto(t, i, v): return tmap2(lambda a, x: _sto(a, i, coerce(x, a.sort().range())), t, v)
def teq(a, b):
    """structural identity of two values"""
    if is_t(a) and is_t(b): return a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, SV): return a.f.keys() == b.f.keys() and all(teq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VV): return a.len.eq(b.len) and teq(a.el, b.el)
    if isinstance(a, Opt): return a.has.eq(b.has) and teq(a.val, b.val)
    if isinstance(a, It): return a.lv.same(b.lv) and a.idx.eq(b.idx)
    if isinstance(a, Ptr): return a.lv.same(b.lv)
    return a is b or isinstance(a, (Null, Fn)) or (isinstance(a, Lam) and a.node is b.node) or isinstance(a, Opaque)
def leaves(v):
    out = []; tmap(lambda x: (out.append(x), x)[1], v); return out
def equal(a, b):
    """formula: the two values are equal (sequences: same length and same elements within it is up to the caller)"""
    return z3.And([x == y for x, y in zip(leaves(a), leaves(b))])

# ---------------------------------------------------------------- shapes
def ShInt(u=True): return ('int', u)
SZ = ('int', True); SI = ('int', False); RE = ('real',); BO = ('bool',)
def VecOf(e): return ('vec', e)
def Rec(cls=None, **f): return ('rec', f, cls)
def Tup(*e): return ('rec', {str(i): x for i, x in enumerate(e)}, None)
def OptOf(e): return ('opt', e)
SET2 = ('set2',)    # std::(unordered_)set of pairs of integers (or of node pointers)
def PqOf(e, cmp): return ('pq', e, cmp)   # std::priority_queue: its elements in an unspecified order, which of them is the top, and (bookkeeping) where a pair was last put
def pq_value(v, top, pos, cmp): return SV({'v#': v, 'top#': top, 'pos#': pos, 'cmp#': cmp}, 'pq')
SET = ('set',)      # std::(unordered_)set of integers: its members
def MapOf(v): return ('map', v)   # std::unordered_map of non-negative integers: the keys it has, the value of each
def wrap0(wrap, v):
    s = wrap(Int_); ws = []
    while s.kind() == z3.Z3_ARRAY_SORT: s = s.range(); ws.append(1)
    t = z3.IntVal(v)
    for _ in ws: t = z3.K(Int_, t)
    return t
def mk(shape, name, facts, wrap=lambda s: s, depth=0):
    k = shape[0]
    if k == 'int':
        c = fresh(name, wrap(Int_))
        if depth == 0 and shape[1]: facts.append(c >= 0)
        return c
    if k == 'real': return fresh(name, wrap(Real_))
    if k == 'bool': return fresh(name, wrap(Bool_))
    if k == 'vec':
        ln = fresh(name + '.len', wrap(Int_))
        if depth == 0: facts.append(ln >= 0)
        return VV(mk(shape[1], name, facts, lambda s: wrap(AI(s)), depth + 1), ln)
    if k == 'rec': return SV({f: mk(x, name + '.' + f, facts, wrap, depth) for f, x in shape[1].items()}, shape[2])
    if k == 'opt': return Opt(fresh(name + '.has', wrap(Bool_)), mk(shape[1], name + '.val', facts, wrap, depth))
    if k == 'opaque': return Opaque(name)
    if k == 'set': return SV({'mem': fresh(name + '.mem', wrap(AI(Bool_)))}, 'set')
    if k == 'set2': return SV({'mem': fresh(name + '.mem', wrap(AI(AI(Bool_))))}, 'set2')
    if k == 'pq': return pq_value(mk(VecOf(shape[1]), name, facts, wrap, depth), fresh(name + '.top', wrap(Int_)), fresh(name + '.pos', wrap(AI(AI(Int_)))), Opaque(shape[2]))
    if k == 'map': return SV({'has': fresh(name + '.has', wrap(AI(Bool_))), 'val': VV(mk(shape[1], name, facts, lambda s: wrap(AI(s)), depth + 1), wrap0(wrap, 0))}, 'map')
    if k == 'ptr':   # pointer / iterator into the object shape[1]; -1: null
        c = fresh(name, wrap(Int_))
        return It(LV('ob:' + shape[1]), c)
    raise Unsupported('shape ' + k)
def const_el(shape, wrap=lambda x: x):
    """value-initialised element lifted into a constant array"""
    k = shape[0]
    if k == 'int': return wrap(z3.IntVal(0))
    if k == 'real': return wrap(z3.RealVal(0))
    if k == 'bool': return wrap(z3.BoolVal(False))
    if k == 'vec': return VV(const_el(shape[1], lambda x: wrap(z3.K(Int_, x))), wrap(z3.IntVal(0)))
    if k == 'rec': return SV({f: const_el(x, wrap) for f, x in shape[1].items()}, shape[2])
    if k == 'opt': return Opt(wrap(z3.BoolVal(False)), const_el(shape[1], wrap))
    if k == 'opaque': return Opaque('default')
    if k == 'set': return SV({'mem': wrap(z3.K(Int_, z3.BoolVal(False)))}, 'set')
    if k == 'set2': return SV({'mem': wrap(z3.K(Int_, z3.K(Int_, z3.BoolVal(False))))}, 'set2')
    if k == 'pq': return pq_value(const_el(VecOf(shape[1]), wrap), wrap(z3.IntVal(0)), wrap(z3.K(Int_, z3.K(Int_, z3.IntVal(-1)))), Opaque(shape[2]))
    if k == 'map': return SV({'has': wrap(z3.K(Int_, z3.BoolVal(False))), 'val': VV(const_el(shape[1], lambda x: wrap(z3.K(Int_, x))), wrap(z3.IntVal(0)))}, 'map')
    if k == 'ptr': return It(LV('ob:' + shape[1]), wrap(z3.IntVal(-1)))
    raise Unsupported('default ' + k)
def default(shape): return const_el(shape)
def lift(v):
    """constant sequence of v"""
    return tmap(lambda x: z3.K(Int_, x), v)

# ---------------------------------------------------------------- theories
MULI = z3.Function('MULI', Int_, Int_, Int_)
DIVI = z3.Function('DIVI', Int_, Int_, Int_)
MODI = z3.Function('MODI', Int_, Int_, Int_)
Row = z3.DeclareSort('Row')
ROW = z3.Function('ROW', AI(Real_), Int_, Int_, Row)          # the n features from an offset on
DIST = z3.Function('DIST', Row, Row, Real_)
SUM = z3.Function('SUM', AI(Real_), Int_, Int_, Real_)       # sum of a[lo..hi)
SUMI = z3.Function('SUMI', AI(Int_), Int_, Int_, Int_)
CNT = z3.Function('CNT', AI(Int_), Int_, Int_, Int_, Int_)   # number of k in [lo,hi) with a[k]==v
SQRT = z3.Function('SQRT', Real_, Real_)
F32 = z3.Function('F32', Real_, Real_)
INF = z3.Const('INF', Real_)
TRUNC = z3.Function('TRUNC', Real_, Int_)

_x, _y, _w, _z = z3.Ints('x! y! w! z!')
_r, _s = z3.Reals('r! s!')
_p, _q = z3.Const('p!', Row), z3.Const('q!', Row)
def FA(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
AXIOMS = {
 'MULI': [FA([_x, _y], MULI(_x, _y) == MULI(_y, _x), MULI(_x, _y)),
          FA([_x, _y], Implies(And(_x >= 0, _y >= 0), MULI(_x, _y) >= 0), MULI(_x, _y)),
          FA([_x, _y, _w], Implies(And(_x < _w, _y >= 0), MULI(_x, _y) + _y <= MULI(_w, _y)), z3.MultiPattern(MULI(_x, _y), MULI(_w, _y))),
          FA([_x], And(MULI(_x, 0) == 0, MULI(_x, 1) == _x), MULI(_x, 0), MULI(_x, 1))],
 'DIVI': [FA([_x, _y], Implies(_y > 0, DIVI(MULI(_x, _y), _y) == _x), DIVI(MULI(_x, _y), _y)),
          FA([_x, _y], Implies(And(_y > 0, _x >= 0), And(DIVI(_x, _y) >= 0, MULI(DIVI(_x, _y), _y) <= _x, _x < MULI(DIVI(_x, _y), _y) + _y)), DIVI(_x, _y))],
 'MODI': [FA([_x, _y], Implies(And(_y > 0, _x >= 0), And(MODI(_x, _y) >= 0, MODI(_x, _y) < _y, _x == MULI(DIVI(_x, _y), _y) + MODI(_x, _y))), MODI(_x, _y))],
 'DIST': [FA([_p, _q], And(DIST(_p, _q) >= 0, DIST(_p, _q) < INF, DIST(_p, _q) == DIST(_q, _p)), DIST(_p, _q)),
          FA([_p], DIST(_p, _p) == 0, DIST(_p, _p))],
 'F32': [FA([_r], F32(F32(_r)) == F32(_r), F32(F32(_r))), FA([_r, _s], Implies(_r <= _s, F32(_r) <= F32(_s)), z3.MultiPattern(F32(_r), F32(_s))), F32(0) == 0, F32(1) == 1],
 'SQRT': [FA([_r], Implies(_r >= 0, And(SQRT(_r) >= 0, SQRT(_r) * SQRT(_r) == _r)), SQRT(_r))],
 'INF':  [INF > 1000000],
}
DEPS = {'DIVI': ['MULI'], 'MODI': ['MULI', 'DIVI'], 'DIST': ['INF']}
ASSUMED = {
 'MULI': 'index products are mathematical integers (no overflow of size_t products)',
 'DIST': 'proofs that compare distances treat the distance of two rows as an abstract function that is non-negative, finite (below infinity), symmetric and zero on identical rows (the distance functions themselves are under contract in P01)',
 'F32': 'a conversion to a narrower floating-point type is some monotone, idempotent function of the value that keeps 0 and 1',
 'SQRT': 'std::sqrt is the real square root',
 'SUM': 'floating-point summation is treated as real summation, in any order',
 'INF': 'infinity() / numeric_limits::max() compare above every finite value that occurs',
}
_a, _b = z3.Const('sa!', AI(Real_)), z3.Const('sb!', AI(Real_))
_ai, _bi = z3.Const('ia!', AI(Int_)), z3.Const('ib!', AI(Int_))
_v = z3.Int('v!')
SDIF = z3.Function('SDIF', AI(Real_), AI(Real_), Int_, Int_, Int_)      # a position where two sequences with different sums differ
SDIFI = z3.Function('SDIFI', AI(Int_), AI(Int_), Int_, Int_, Int_)
SNEG = z3.Function('SNEG', AI(Real_), Int_, Int_, Int_)               # a negative element of a sequence with a negative sum
CDIF = z3.Function('CDIF', AI(Int_), AI(Int_), Int_, Int_, Int_, Int_)
def _sum_axioms(F, D, a, b, N, zero):
    ax = [FA([a, _x], F(a, _x, _x) == zero, F(a, _x, _x)),
          FA([a, _x, _y, _w], Implies(And(_x <= _y, _w == _y + 1), F(a, _x, _w) == F(a, _x, _y) + a[_y]), z3.MultiPattern(F(a, _x, _w), F(a, _x, _y))),
          FA([a, b, _x, _y], Or(F(a, _x, _y) == F(b, _x, _y), And(_x <= D(a, b, _x, _y), D(a, b, _x, _y) < _y, a[D(a, b, _x, _y)] != b[D(a, b, _x, _y)])), z3.MultiPattern(F(a, _x, _y), F(b, _x, _y)))]
    return ax
AXIOMS['SUM'] = _sum_axioms(SUM, SDIF, _a, _b, None, z3.RealVal(0)) + [
    FA([_a, _x, _y], Or(SUM(_a, _x, _y) >= 0, And(_x <= SNEG(_a, _x, _y), SNEG(_a, _x, _y) < _y, _a[SNEG(_a, _x, _y)] < 0)), SUM(_a, _x, _y))]
AXIOMS['SUMI'] = _sum_axioms(SUMI, SDIFI, _ai, _bi, None, z3.IntVal(0))
AXIOMS['CNT'] = [FA([_ai, _x, _v], CNT(_ai, _x, _x, _v) == 0, CNT(_ai, _x, _x, _v)),
    FA([_ai, _x, _y, _w, _v], Implies(And(_x <= _y, _w == _y + 1), CNT(_ai, _x, _w, _v) == CNT(_ai, _x, _y, _v) + If(_ai[_y] == _v, 1, 0)), z3.MultiPattern(CNT(_ai, _x, _w, _v), CNT(_ai, _x, _y, _v))),
    FA([_ai, _x, _y, _v], Implies(_x <= _y, And(CNT(_ai, _x, _y, _v) >= 0, CNT(_ai, _x, _y, _v) <= _y - _x)), CNT(_ai, _x, _y, _v)),
    FA([_ai, _bi, _x, _y, _v], Or(CNT(_ai, _x, _y, _v) == CNT(_bi, _x, _y, _v), And(_x <= CDIF(_ai, _bi, _x, _y, _v), CDIF(_ai, _bi, _x, _y, _v) < _y, (_ai[CDIF(_ai, _bi, _x, _y, _v)] == _v) != (_bi[CDIF(_ai, _bi, _x, _y, _v)] == _v))), z3.MultiPattern(CNT(_ai, _x, _y, _v), CNT(_bi, _x, _y, _v)))]
# number of keys of a finite map or set
MSIZE = z3.Function('MSIZE', AI(Bool_), Int_)
_hs = z3.Const('h!ms', AI(Bool_)); _bs = z3.Bool('b!ms')
AXIOMS['MSIZE'] = [MSIZE(z3.K(Int_, z3.BoolVal(False))) == 0, FA([_hs, _x, _bs], MSIZE(z3.Store(_hs, _x, _bs)) == MSIZE(_hs) + If(_bs, 1, 0) - If(_hs[_x], 1, 0), MSIZE(z3.Store(_hs, _x, _bs)))]
# named pointwise arrays: the value of NAME(args)[k] is a definition
def named_array(name, sorts, rng, f):
    """a sequence defined pointwise: NAME(args)[k] = f(args, k); returns the constructor"""
    F = z3.Function(name, *sorts, AI(rng)); vs = [z3.Const(f'na{i}!', t) for i, t in enumerate(sorts)]; k = z3.Int('nk!')
    AXIOMS[name] = [FA(vs + [k], F(*vs)[k] == f(*vs, k), F(*vs)[k])]
    return F
SQDA = named_array('SQDA', [AI(Real_), Int_, AI(Real_), Int_], Real_, lambda p, i, q, j, k: (p[i + k] - q[j + k]) * (p[i + k] - q[j + k]))
SQA = named_array('SQA', [AI(Real_), Int_], Real_, lambda p, i, k: p[i + k] * p[i + k])
def zabs(x): return If(x < 0, -x, x)
ABDA = named_array('ABDA', [AI(Real_), Int_, AI(Real_), Int_], Real_, lambda p, i, q, j, k: zabs(p[i + k] - q[j + k]))
ABA = named_array('ABA', [AI(Real_), Int_], Real_, lambda p, i, k: zabs(p[i + k]))
ABDI = named_array('ABDI', [AI(Int_), Int_, AI(Int_), Int_], Int_, lambda p, i, q, j, k: zabs(p[i + k] - q[j + k]))
ABI = named_array('ABI', [AI(Int_), Int_], Int_, lambda p, i, k: zabs(p[i + k]))
DOTA = named_array('DOTA', [AI(Real_), Int_, AI(Real_), Int_], Real_, lambda p, i, q, j, k: p[i + k] * q[j + k])
def mul(a, b):
    a, b = z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b
    if z3.is_int_value(a): return b if a.as_long() == 1 else a if a.as_long() == 0 else a * b
    if z3.is_int_value(b): return a if b.as_long() == 1 else b if b.as_long() == 0 else b * a
    for p, q in ((a, b), (b, a)):
        if z3.is_add(p):
            r = mul(p.arg(0), q)
            for k in range(1, p.num_args()): r = r + mul(p.arg(k), q)
            return r
        if z3.is_sub(p):
            r = mul(p.arg(0), q)
            for k in range(1, p.num_args()): r = r - mul(p.arg(k), q)
            return r
        if z3.is_app_of(p, z3.Z3_OP_UMINUS): return -mul(p.arg(0), q)
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)): return p.arg(0) * mul(p.arg(1), q)
    if z3.is_app_of(a, z3.Z3_OP_ITE): return z3.If(a.arg(0), mul(a.arg(1), b), mul(a.arg(2), b))
    if z3.is_app_of(b, z3.Z3_OP_ITE): return z3.If(b.arg(0), mul(a, b.arg(1)), mul(a, b.arg(2)))
    if a.sexpr() > b.sexpr(): a, b = b, a
    return MULI(a, b)
def div(a, b):
    a, b = z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b
    return a / b if z3.is_int_value(b) and b.as_long() > 0 else DIVI(a, b)
def mod(a, b): return a % b if z3.is_int_value(b) and b.as_long() > 0 else MODI(a, b)
_SYM = {}
def _symbols1(f):
    k = f.get_id(); c = _SYM.get(k)
    if c is not None: return c[1]
    seen, out, st = set(), set(), [f]
    while st:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            st += e.children()
    _SYM[k] = (f, out)     # keeps f alive, so that its id is not reused
    return out
def symbols(fs):
    out = set()
    for f in fs: out |= _symbols1(f)
    return out
def axioms_for(fs, extra=()):
    s = symbols(fs); todo = list(s); used = set()
    while todo:
        n = todo.pop()
        if n in used or n not in AXIOMS: continue
        used.add(n); todo += DEPS.get(n, [])
    return [a for n in sorted(used) for a in AXIOMS[n]], used

# ---------------------------------------------------------------- specification helpers
def FAP(vs, body, pats):
    try: return z3.ForAll(vs, body, patterns=list(pats))
    except z3.Z3Exception: return z3.ForAll(vs, body)
class _Q:
    n = 0
def forall(lo, hi, f, pat=None, name='k'):
    """forall lo <= k < hi: f(k)"""
    _Q.n += 1
    k = z3.Int(f'{name}?{_Q.n}')
    b = f(k)
    body = Implies(And(lo <= k, k < hi), b)
    if pat is not None:
        p = pat(k); p = p if isinstance(p, (list, tuple)) else [p]
        return FAP([k], body, p)
    return z3.ForAll([k], body)
def exists(lo, hi, f, name='k', pat=None):
    _Q.n += 1
    k = z3.Int(f'{name}?{_Q.n}')
    return z3.Exists([k], And(lo <= k, k < hi, f(k)), **({'patterns': [pat(k)]} if pat else {}))
def forall2(lo, hi, lo2, hi2, f, pat=None):
    _Q.n += 1
    a, b = z3.Ints(f'a?{_Q.n} b?{_Q.n}')
    body = Implies(And(lo <= a, a < hi, lo2 <= b, b < hi2), f(a, b))
    if pat:
        p = pat(a, b); return FAP([a, b], body, p if isinstance(p, (list, tuple)) else [p])
    return z3.ForAll([a, b], body)
def forall_raw(sorts, f, pat=None):
    _Q.n += 1
    vs = [z3.Const(f'v{i}?{_Q.n}', s) for i, s in enumerate(sorts)]
    if pat:
        p = pat(*vs); return FAP(vs, f(*vs), p if isinstance(p, (list, tuple)) else [p])
    return z3.ForAll(vs, f(*vs))
class Def:
    """value of a ghost array given pointwise"""
    def __init__(self, f): self.f = f

# ---------------------------------------------------------------- permutations of an index sequence within [lo,hi), identical outside
PERM = z3.Function('PERM', AI(Int_), AI(Int_), Int_, Int_, Bool_)
PSRC = z3.Function('PSRC', AI(Int_), AI(Int_), Int_, Int_, Int_, Int_)   # where the k-th element came from
PDST = z3.Function('PDST', AI(Int_), AI(Int_), Int_, Int_, Int_, Int_)   # where the k-th element went
def _perm_axioms():
    a, b, c = z3.Consts('pa! pb! pc!', AI(Int_)); lo, hi, lo2, hi2, i, j, k = z3.Ints('lo! hi! lo2! hi2! i! j! k!')
    sw = z3.Store(z3.Store(a, i, a[j]), j, a[i])
    inr = And(lo <= k, k < hi)
    return [FA([a, lo, hi], PERM(a, a, lo, hi), PERM(a, a, lo, hi)),
        FA([b, a, i, j, lo, hi], Implies(And(PERM(b, a, lo, hi), lo <= i, i < hi, lo <= j, j < hi), PERM(b, sw, lo, hi)), z3.MultiPattern(PERM(b, a, lo, hi), sw)),
        FA([a, b, c, lo, hi, lo2, hi2], Implies(And(PERM(a, b, lo, hi), PERM(b, c, lo2, hi2), lo <= lo2, hi2 <= hi), PERM(a, c, lo, hi)), z3.MultiPattern(PERM(a, b, lo, hi), PERM(b, c, lo2, hi2))),
        FA([a, b, lo, hi, k], Implies(PERM(a, b, lo, hi), And(Implies(inr, And(lo <= PSRC(a, b, lo, hi, k), PSRC(a, b, lo, hi, k) < hi, b[k] == a[PSRC(a, b, lo, hi, k)])),
            Implies(Not(inr), b[k] == a[k]))), z3.MultiPattern(PERM(a, b, lo, hi), b[k])),
        ]
AXIOMS['PERM'] = _perm_axioms()
ASSUMED['PERM'] = 'facts about permutations of a range are axioms: reflexive, closed under swapping two elements of the range and under composition with a permutation of a sub-range, every element comes from the range, elements outside are untouched'
