"""Models of the C++ standard library used by the code under contract (trusted)."""
import re, z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
from core import *
from core import _sto
import clangast
from engine import strip, tstr, targs, int_type, REALS, INTS, THROW

def same_container(a, b):
    if not a.lv.same(b.lv): raise Unsupported('iterators of different containers')
FLT = {'infinity': lambda: INF, 'max': lambda: INF, 'lowest': lambda: -INF, 'epsilon': lambda: z3.Const('EPS', Real_)}

class Builtins:
    def constant(self, name, t):
        if name == 'nullopt': return Opt(BoolVal(False), None)
        return None
    # ------------------------------------------------------------- iterators
    def iter_op(self, ex, s, op, a, b, n):
        if a is NULL or b is NULL:
            x = b if a is NULL else a; e = x.idx < 0
            return e if op == '==' else Not(e)
        if isinstance(a, It) and isinstance(b, It):
            same_container(a, b)
            return {'-': lambda: a.idx - b.idx, '==': lambda: a.idx == b.idx, '!=': lambda: a.idx != b.idx, '<': lambda: a.idx < b.idx, '<=': lambda: a.idx <= b.idx, '>': lambda: a.idx > b.idx, '>=': lambda: a.idx >= b.idx}[op]()
        if isinstance(a, It) and is_t(b): return It(a.lv, self.simp(a.idx + b if op == '+' else a.idx - b))
        if isinstance(b, It) and is_t(a) and op == '+': return It(b.lv, self.simp(b.idx + a))
        raise Unsupported('iterator operator ' + op)
    def simp(self, e):
        # 0 + x
        if z3.is_add(e) and e.num_args() == 2:
            for k in (0, 1):
                if z3.is_int_value(e.arg(k)) and e.arg(k).as_long() == 0: return e.arg(1 - k)
        return e
    def operator(self, ex, s, name, vs, n, fr):
        v0 = vs[0]; a = ex.rv(s, v0); op = name[8:]
        if name == 'operator=':
            b = ex.rv(s, vs[1])
            if isinstance(a, tuple) and a[0] == 'tie' and isinstance(b, SV):
                for lv, x in zip(a[1], list(b.f.values())): ex.store(s, lv, x)
                return [(s, None)]
            if isinstance(b, tuple) and b[0] == 'initlist': return NotImplemented
            if isinstance(a, Opt) and not isinstance(b, Opt): b = Opt(BoolVal(True), b)
            if isinstance(a, (It, VV, SV, Opt, Opaque, Lam, Null)) or is_t(a):
                ex.store(s, v0, b); return [(s, v0)]
        if isinstance(a, tuple) and a[0] == 'set2it' and op in ('==', '!='):
            b = ex.rv(s, vs[1]); e = a[1] == b[1]
            if not (z3.is_false(a[1]) or z3.is_false(b[1])): raise Unsupported('comparison of set iterators')
            return [(s, e if op == '==' else Not(e))]
        if isinstance(a, It):
            if op in ('*', '->') and len(vs) == 1 and '[map]' in a.lv.root + str(a.lv.path):
                m = a.lv; m = LV(m.root, m.path[:-1]); ex.check(s, 'access within bounds', n, a.idx >= 0, 'the iterator points to an element of the map')
                return [(s, ex.temp(s, SV({'0': a.idx, '1': m.f('val').i(a.idx)}, 'mapelement')))]
            if op == '++' and len(vs) == 1 and '[map]' in a.lv.root + str(a.lv.path):      # another element or the end, in an unspecified order
                k = fresh('next key', Int_); has = ex.load(s, LV(a.lv.root, a.lv.path[:-1])).f['has']
                ex.check(s, 'access within bounds', n, a.idx >= 0, 'the iterator points to an element of the map'); s.assume(Or(k == -1, And(k >= 0, k != a.idx, has[k]))); ex.store(s, v0, It(a.lv, k)); return [(s, v0)]
            if op in ('++', '--', '+', '-', '+=', '-=', '[]', '<', '>', '<=', '>=') and '[map]' in a.lv.root + str(a.lv.path): raise Unsupported('iterator arithmetic over a map')
            if op in ('++', '--'):
                b = It(a.lv, a.idx + (1 if op == '++' else -1)); ex.store(s, v0, b)
                return [(s, a if len(vs) > 1 else v0)]
            if op in ('+=', '-='):
                b = ex.rv(s, vs[1]); ex.store(s, v0, It(a.lv, a.idx + b if op == '+=' else a.idx - b)); return [(s, v0)]
            if op == '*' and len(vs) == 1: ex.in_bounds(s, a, a.idx, n); return [(s, a.lv.i(a.idx))]
            if op == '->': ex.in_bounds(s, a, a.idx, n); return [(s, a.lv.i(a.idx))]
            if op == '[]': return [(s, ex.index(s, a, ex.rv(s, vs[1]), n))]
            return [(s, self.iter_op(ex, s, op, a, ex.rv(s, vs[1]), n))]
        if is_t(a) and len(vs) > 1 and isinstance(ex.rv(s, vs[1]), It): return [(s, self.iter_op(ex, s, op, a, ex.rv(s, vs[1]), n))]
        if isinstance(a, VV) and op == '[]': return [(s, ex.index(s, v0, ex.rv(s, vs[1]), n))]
        if isinstance(a, SV) and a.cls == 'map' and op == '[]': return [(s, self.map_at(ex, s, v0, ex.rv(s, vs[1])))]
        if isinstance(a, Opt):
            if op == '*': return [(s, v0.f('val') if isinstance(v0, LV) else a.val)]
            if op == '->': return [(s, v0.f('val') if isinstance(v0, LV) else a.val)]
        if isinstance(a, SV) and a.cls is None and op in ('==', '!=', '<'):
            b = ex.rv(s, vs[1])
            if op == '==': return [(s, equal(a, b))]
            if op == '!=': return [(s, Not(equal(a, b)))]
            ks = list(a.f); e = BoolVal(False)
            for k in reversed(ks): e = Or(a.f[k] < b.f[k], And(a.f[k] == b.f[k], e))
            return [(s, e)]
        if isinstance(a, SV) and a.cls in ('uniform_int_distribution', 'uniform_real_distribution') and op == '()':
            # std::uniform_*_distribution: some value of the closed (integers) or half-open (reals) interval
            lo, hi = a.f['lo'], a.f['hi']; ex.check(s, 'distribution over a non-empty interval', n, lo <= hi)
            r = fresh('random', lo.sort()); s.assume(And(lo <= r, r <= hi) if a.cls == 'uniform_int_distribution' else And(lo <= r, Implies(lo < hi, r < hi), r <= hi))
            s.vars['random:last'], s.vars['random:lo'], s.vars['random:hi'] = r, lo, hi
            s.vars[f'random:#{sum(str(k).startswith("random:#") for k in s.vars)}'] = r
            return [(s, r)]
        if isinstance(a, SV) and op == '->' : return [(s, v0)]
        if isinstance(a, SV) and op == '*' and len(vs) == 1: return [(s, v0)]
        return NotImplemented
    # ------------------------------------------------------------- free functions and methods
    def call(self, ex, s, name, obj, vs, n, fr, d, ref):
        if obj is not None:
            o = ex.rv(s, obj)
            m = None
            if isinstance(o, VV): m = getattr(self, 'v_' + name, None)
            elif isinstance(o, SV) and o.cls == 'set':
                mem = o.f['mem']; lv = LV('ob:#set')
                if name in ('end', 'cend'): return [(s, It(lv, IntVal(-1)))]
                if name == 'find': x = ex.rv(s, vs[0]); return [(s, It(lv, If(mem[x], x, IntVal(-1))))]
                if name in ('count', 'contains'): x = ex.rv(s, vs[0]); return [(s, mem[x] if name == 'contains' else If(mem[x], IntVal(1), IntVal(0)))]
                if name in ('insert', 'emplace') and len(vs) == 1: x = ex.rv(s, vs[0]); ex.store(s, obj, SV({'mem': z3.Store(mem, x, BoolVal(True))}, 'set')); return [(s, Opaque('insert'))]
                if name == 'clear': ex.store(s, obj, SV({'mem': z3.K(Int_, BoolVal(False))}, 'set')); return [(s, None)]
            elif isinstance(o, SV) and o.cls == 'set2': return self.set2_call(ex, s, name, obj, o, vs, n)
            elif isinstance(o, SV) and o.cls == 'pq': return self.pq_call(ex, s, name, ex.lv_of(s, obj), o, vs, n, fr)
            elif isinstance(o, SV) and o.cls == 'map': return self.map_call(ex, s, name, ex.lv_of(s, obj), o, vs, n, fr)
            elif isinstance(o, Opt) and name == 'operator bool': return [(s, o.has)]
            elif isinstance(o, Opt): m = getattr(self, 'o_' + name, None)
            elif isinstance(o, (It, Null)) and name in ('base', 'get', 'lock'): return [(s, o)]
            elif isinstance(o, (It, Null)) and name == 'operator bool': return [(s, ex.cond(s, o))]
            elif isinstance(o, It) and name == 'reset' and not vs: ex.store(s, obj, NULL); return [(s, None)]
            if m is not None: return m(ex, s, obj, o, vs, n, fr)
            return NotImplemented
        if d is not None and 'ffcl' in d.get('_file', '') and clangast.body(d) and name != 'thread_local_mersenne_engine': return NotImplemented
        m = getattr(self, 'f_' + name, None)
        if m is None: return NotImplemented
        r = m(ex, s, vs, n, fr)
        return r
    # sets of pairs
    def set2_call(self, ex, s, name, obj, o, vs, n):
        mem = o.f['mem']; vs = self.rvs(ex, s, vs)
        if name in ('end', 'cend'): return [(s, ('set2it', BoolVal(False)))]
        if name == 'clear': ex.store(s, obj, SV({'mem': z3.K(Int_, z3.K(Int_, BoolVal(False)))}, 'set2')); return [(s, None)]
        if len(vs) == 2: vs = [SV(dict(zip('01', vs)))]
        if len(vs) != 1: return NotImplemented
        if isinstance(vs[0], tuple) and vs[0][0] == 'initlist': x = self.rvs(ex, s, vs[0][1])
        elif isinstance(vs[0], SV) and len(vs[0].f) == 2: x = list(vs[0].f.values())
        else: return NotImplemented
        a, b = [v.idx if isinstance(v, It) else v for v in x]
        if name == 'find': return [(s, ('set2it', mem[a][b]))]
        if name in ('count', 'contains'): return [(s, mem[a][b] if name == 'contains' else If(mem[a][b], IntVal(1), IntVal(0)))]
        put = lambda v: ex.store(s, obj, SV({'mem': z3.Store(mem, a, z3.Store(mem[a], b, BoolVal(v)))}, 'set2'))
        if name in ('insert', 'emplace'): put(True); return [(s, SV({'0': Opaque('iterator'), '1': Not(mem[a][b])}))]
        if name == 'erase': put(False); return [(s, If(mem[a][b], IntVal(1), IntVal(0)))]
        return NotImplemented
    # priority queues
    def pq_cmp(self, ex, s, o, fr):
        c = o.f['cmp#']
        if isinstance(c, Lam): return c
        for rs in ex.u.records.values():
            for r in rs:
                if r['kind'] == 'ClassTemplateDecl': continue
                for x in r.get('inner', []):
                    if x.get('kind') == 'VarDecl' and x.get('name') == c.what:
                        init = [y for y in x.get('inner', []) if y.get('kind') and not y['kind'].endswith('Attr')]
                        if init and any(y.get('kind') == 'CXXMethodDecl' and y.get('name') == 'operator()' and any(z.get('kind') == 'TemplateArgument' for z in y.get('inner', [])) for y in clangast.walk(init[0])): return ex.rv(s, ex.expr(init[0], s, fr)[0][1])
        raise Detached('no comparator ' + str(c.what))
    def pq_put(self, ex, s, lv, o, v, pos, fr, n):
        t = fresh('top', Int_); k = z3.Int('k?pq' + str(Names.n)); Names.n += 1
        ex.assumptions.add('std::priority_queue: top() is an element that no other one beats, pop() removes exactly that element; its comparator is a strict weak order')
        cmp = self.pq_cmp(ex, s, o, fr); x = sel(v.el, k)
        lt = coerce(self.pure(ex, s, cmp, [sel(v.el, t), x], fr, n), Bool_)
        s.assume(Implies(v.len > 0, And(0 <= t, t < v.len))); s.assume(z3.ForAll([k], Implies(And(0 <= k, k < v.len), Not(lt)), patterns=leaves(x)))
        ex.store(s, lv, pq_value(v, t, pos, o.f['cmp#']))
    def pq_call(self, ex, s, name, lv, o, vs, n, fr):
        v, t, pos = o.f['v#'], o.f['top#'], o.f['pos#']; ints = lambda x: all(is_t(y) and y.sort() == Int_ for y in list(x.f.values())[:2])
        if name == 'size': return [(s, v.len)]
        if name == 'empty': return [(s, v.len == 0)]
        if name == 'top': ex.check(s, 'access within bounds', n, v.len > 0, 'the queue is not empty'); return [(s, lv.f('v#').i(t))]
        if name in ('emplace', 'push'):
            vs = self.rvs(ex, s, vs); x = SV({str(i): y for i, y in enumerate(vs)}) if len(vs) > 1 else vs[0]
            x = tmap2(lambda a, b: coerce(b, a.sort()), sel(v.el, v.len), x)
            if ints(x): a, b = list(x.f.values())[:2]; pos = z3.Store(pos, a, z3.Store(pos[a], b, v.len))
            self.pq_put(ex, s, lv, o, VV(sto(v.el, v.len, x), v.len + 1), pos, fr, n); return [(s, None)]
        if name == 'pop':
            ex.check(s, 'access within bounds', n, v.len > 0, 'the queue is not empty'); x = sel(v.el, v.len - 1)
            if ints(x): a, b = list(x.f.values())[:2]; pos = z3.Store(pos, a, z3.Store(pos[a], b, t))
            self.pq_put(ex, s, lv, o, VV(sto(v.el, t, x), v.len - 1), pos, fr, n); return [(s, None)]
        return NotImplemented
    # maps with integer keys
    def map_at(self, ex, s, lv, k):
        o = ex.load(s, lv); has = o.f['has']; has2 = _sto(has, k, BoolVal(True)) if not z3.is_true(z3.simplify(sel(has, k))) else has
        if has2 is not has:
            cur = sel(o.f['val'].el, k); d = tmap(lambda x: {Int_: IntVal(0), Real_: RealVal(0), Bool_: BoolVal(False)}.get(x.sort(), x), cur) if not isinstance(cur, It) else It(cur.lv, IntVal(-1))
            if any(x is None for x in leaves(cur) if not is_t(x)): raise Unsupported('default value of a map element')
            ex.store(s, lv, SV({'has': has2, 'val': VV(sto(o.f['val'].el, k, tmap2(lambda x, y: self.name_term(s, If(sel(has, k), x, y)), cur, d)), o.f['val'].len)}, 'map'))
        return lv.f('val').i(k)
    def name_term(self, s, t): v = fresh('elem', t.sort()); s.assume(v == t); return v
    def map_it(self, lv, k): return It(LV(lv.root, tuple(lv.path) + (('f', '[map]'),)), k)
    def map_call(self, ex, s, name, lv, o, vs, n, fr):
        has, val = o.f['has'], o.f['val']; vs = self.rvs(ex, s, vs)
        if vs and isinstance(vs[0], It) and vs[0].lv.path[-1:] != (('f', '[map]'),): vs[0] = vs[0].idx      # a map keyed by node pointers
        if name in ('end', 'cend'): return [(s, self.map_it(lv, IntVal(-1)))]
        if name in ('begin', 'cbegin'):
            k = fresh('first key', Int_); j = z3.Int('j?mb')
            s.assume(And(k >= -1, Implies(k >= 0, has[k]), Implies(k < 0, z3.ForAll([j], Not(has[j]), patterns=[has[j]])))); it = self.map_it(lv, k); it.first = True; return [(s, it)]
        if name == 'find': return [(s, self.map_it(lv, If(has[vs[0]], vs[0], IntVal(-1))))]
        if name in ('count', 'contains'): return [(s, has[vs[0]] if name == 'contains' else If(has[vs[0]], IntVal(1), IntVal(0)))]
        if name == 'at': ex.check(s, 'access within bounds', n, has[vs[0]], 'the key exists'); return [(s, lv.f('val').i(vs[0]))]
        if name == 'erase':
            k = vs[0].idx if isinstance(vs[0], It) else vs[0]
            ex.store(s, lv, SV({'has': z3.Store(has, k, BoolVal(False)), 'val': val}, 'map')); return [(s, Opaque('erase'))]
        if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if len(vs) == 1 and isinstance(vs[0], SV) and set(vs[0].f) == {'0', '1'}: vs = [vs[0].f['0'], vs[0].f['1']]
            if len(vs) != 2: return NotImplemented
            k, x = vs; cur = sel(val.el, k); x = ex.adapt(cur, x)
            new = x if name == 'insert_or_assign' else tmap2(lambda a, b: self.name_term(s, If(has[k], a, b)), cur, x)
            ex.store(s, lv, SV({'has': z3.Store(has, k, BoolVal(True)), 'val': VV(sto(val.el, k, new), val.len)}, 'map'))
            return [(s, SV({'0': self.map_it(lv, k), '1': Not(has[k])}))]
        if name == 'clear': ex.store(s, lv, SV({'has': z3.K(Int_, BoolVal(False)), 'val': val}, 'map')); return [(s, None)]
        if name == 'empty':
            b = fresh('empty', Bool_); k = fresh('some key', Int_); j = z3.Int('j?me')
            s.assume(And(Implies(Not(b), And(k >= 0, has[k])), Implies(b, z3.ForAll([j], Not(has[j]), patterns=[has[j]])))); return [(s, b)]
        if name == 'size':
            c = MSIZE(has); i = z3.Int('i?ms'); K, P = fresh('keys', AI(Int_)), fresh('position', AI(Int_)); s.assume(c >= 0)
            s.assume(z3.ForAll([i], Implies(And(0 <= i, i < c), And(has[K[i]], P[K[i]] == i)), patterns=[K[i]]))
            s.assume(z3.ForAll([i], Implies(has[i], And(0 <= P[i], P[i] < c, K[P[i]] == i)), patterns=[has[i]]))
            s.assume(And(Implies(c >= 1, has[K[0]]), Implies(c >= 2, And(has[K[1]], K[0] != K[1]))))      # two instances of the above
            return [(s, c)]
        return NotImplemented
    def callable(self, ex, s, f, vs, n, fr): return NotImplemented
    def rvs(self, ex, s, vs): return [ex.rv(s, v) for v in vs]
    # vectors
    def v_size(self, ex, s, obj, o, vs, n, fr): return [(s, o.len)]
    def v_empty(self, ex, s, obj, o, vs, n, fr): return [(s, o.len == 0)]
    def v_begin(self, ex, s, obj, o, vs, n, fr): return [(s, It(ex.lv_of(s, obj), IntVal(0)))]
    v_cbegin = v_data = v_get = v_begin
    def v_end(self, ex, s, obj, o, vs, n, fr): return [(s, It(ex.lv_of(s, obj), o.len))]
    v_cend = v_end
    def v_back(self, ex, s, obj, o, vs, n, fr): return [(s, ex.index(s, ex.lv_of(s, obj), o.len - 1, n))]
    def v_front(self, ex, s, obj, o, vs, n, fr): return [(s, ex.index(s, ex.lv_of(s, obj), IntVal(0), n))]
    def v_at(self, ex, s, obj, o, vs, n, fr): return [(s, ex.index(s, ex.lv_of(s, obj), ex.rv(s, vs[0]), n))]
    def v_reserve(self, ex, s, obj, o, vs, n, fr): return [(s, None)]
    v_shrink_to_fit = v_reserve
    def v_clear(self, ex, s, obj, o, vs, n, fr): ex.store(s, obj, VV(o.el, IntVal(0))); return [(s, None)]
    def v_insert(self, ex, s, obj, o, vs, n, fr):
        vs = self.rvs(ex, s, vs)
        if len(vs) != 3 or not all(isinstance(v, It) for v in vs) or not z3.is_expr(o.el): return NotImplemented
        p, a, b = vs; c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n); src = ex.load(s, a.lv)
        ex.check(s, 'access within bounds', n, And(0 <= p.idx, p.idx <= o.len), 'insert position')
        new = fresh('ins', o.el.sort()); k = z3.Int('k?ins' + str(Names.n))
        s.assume(z3.ForAll([k], new[k] == If(k < p.idx, o.el[k], If(k < p.idx + c, sel(src.el, self.simp(a.idx + (k - p.idx))), o.el[k - c])), patterns=[new[k]]))
        ex.store(s, obj, VV(new, o.len + c)); return [(s, It(ex.lv_of(s, obj), p.idx))]
    def v_push_back(self, ex, s, obj, o, vs, n, fr):
        v = ex.rv(s, vs[0]); ex.store(s, obj, VV(sto(o.el, o.len, v), o.len + 1)); return [(s, None)]
    def v_emplace_back(self, ex, s, obj, o, vs, n, fr):
        vs = self.rvs(ex, s, vs)
        proto = sel(o.el, IntVal(0))
        if len(vs) == 1 and not (isinstance(proto, SV) and not isinstance(vs[0], SV)): v = vs[0]
        elif isinstance(proto, SV): v = SV(dict(zip(proto.f, vs)), proto.cls)
        else: raise Unsupported('emplace_back')
        ex.store(s, obj, VV(sto(o.el, o.len, v), o.len + 1)); return [(s, None)]
    def v_pop_back(self, ex, s, obj, o, vs, n, fr):
        ex.check(s, 'pop of a non-empty sequence', n, o.len > 0); ex.store(s, obj, VV(o.el, o.len - 1)); return [(s, None)]
    def v_resize(self, ex, s, obj, o, vs, n, fr):
        m = ex.rv(s, vs[0])
        new = tmap(lambda x: fresh('resized', x.sort()), o.el)
        for a, b in zip(leaves(new), leaves(o.el)):
            k = z3.Int('k?rs'); s.assume(z3.ForAll([k], Implies(And(0 <= k, k < o.len), a[k] == b[k]), patterns=[a[k]]))
        ex.store(s, obj, VV(new, m)); return [(s, None)]
    # optional
    def o_has_value(self, ex, s, obj, o, vs, n, fr): return [(s, o.has)]
    def o_value(self, ex, s, obj, o, vs, n, fr): return [(s, obj.f('val') if isinstance(obj, LV) else o.val)]
    # numeric limits & co (static member functions appear as plain calls)
    def limit(self, name, n):
        t = strip(tstr(n))
        if t in REALS:
            if name == 'min': raise Unsupported('numeric_limits<float>::min')
            return FLT[name]()
        it = int_type(t)
        if it is None: raise Unsupported('numeric_limits of ' + t)
        w, u = it
        if name in ('infinity', 'epsilon'): return IntVal(0)
        if name == 'max': return IntVal(2**w - 1 if u else 2**(w - 1) - 1)
        return IntVal(0 if u else -2**(w - 1))
    def f_infinity(self, ex, s, vs, n, fr): return [(s, self.limit('infinity', n))]
    def f_lowest(self, ex, s, vs, n, fr): return [(s, self.limit('lowest', n))]
    def f_epsilon(self, ex, s, vs, n, fr): return [(s, self.limit('epsilon', n))]
    def f_max(self, ex, s, vs, n, fr):
        if not vs: return [(s, self.limit('max', n))]
        return self.minmax(ex, s, vs, lambda a, b: If(a < b, b, a))
    def f_min(self, ex, s, vs, n, fr):
        if not vs: return [(s, self.limit('min', n))]
        return self.minmax(ex, s, vs, lambda a, b: If(b < a, b, a))
    def minmax(self, ex, s, vs, f):
        vs = self.rvs(ex, s, vs)
        if len(vs) == 1 and isinstance(vs[0], tuple): vs = vs[0][1]
        if not all(is_t(v) for v in vs): raise Unsupported('min/max of ' + type(vs[0]).__name__)
        if len({v.sort() for v in vs}) > 1: vs = [coerce(v, Real_) for v in vs]
        r = vs[0]
        for v in vs[1:]: r = f(r, v)
        return [(s, r)]
    def f_abs(self, ex, s, vs, n, fr): v = ex.rv(s, vs[0]); return [(s, If(v < 0, -v, v))]
    f_fabs = f_abs
    def f_sqrt(self, ex, s, vs, n, fr): return [(s, SQRT(coerce(ex.rv(s, vs[0]), Real_)))]
    def f_distance(self, ex, s, vs, n, fr):
        a, b = self.rvs(ex, s, vs); same_container(a, b)
        if '[map]' in a.lv.root + str(a.lv.path):
            if not (getattr(a, 'first', False) and b.idx.eq(IntVal(-1))): raise Unsupported('distance over a part of a map')
            m = LV(a.lv.root, a.lv.path[:-1]); return self.map_call(ex, s, 'size', m, ex.load(s, m), [], n, fr)
        return [(s, self.minus(b.idx, a.idx))]
    def minus(self, a, b):
        if z3.is_int_value(b) and b.as_long() == 0: return a
        return a - b
    def f_next(self, ex, s, vs, n, fr): v = self.rvs(ex, s, vs); return [(s, It(v[0].lv, v[0].idx + (v[1] if len(v) > 1 else 1)))]
    def f_prev(self, ex, s, vs, n, fr): v = self.rvs(ex, s, vs); return [(s, It(v[0].lv, v[0].idx - (v[1] if len(v) > 1 else 1)))]
    def f_advance(self, ex, s, vs, n, fr): v = self.rvs(ex, s, vs); ex.store(s, vs[0], It(v[0].lv, v[0].idx + v[1])); return [(s, None)]
    def f_bind(self, ex, s, vs, n, fr):
        from engine import Bound
        v = [ex.rv(s, x) for x in vs]
        return [(s, Bound(v[0], v[1:]))]
    def f_move(self, ex, s, vs, n, fr): return [(s, vs[0])]
    f_forward = f_as_const = f_addressof = f_move
    def f_swap(self, ex, s, vs, n, fr):
        a, b = self.rvs(ex, s, vs); ex.store(s, vs[0], b); ex.store(s, vs[1], a); return [(s, None)]
    def f_exchange(self, ex, s, vs, n, fr):
        a, b = self.rvs(ex, s, vs); ex.store(s, vs[0], b); return [(s, a)]
    def f_iter_swap(self, ex, s, vs, n, fr):
        a, b = self.rvs(ex, s, vs)
        ex.in_bounds(s, a, a.idx, n); ex.in_bounds(s, b, b.idx, n)
        x, y = ex.load(s, a.lv.i(a.idx)), ex.load(s, b.lv.i(b.idx)); ex.store(s, a.lv.i(a.idx), y); ex.store(s, b.lv.i(b.idx), x); return [(s, None)]
    def f_make_pair(self, ex, s, vs, n, fr): return [(s, SV({str(i): v for i, v in enumerate(self.rvs(ex, s, vs))}))]
    f_make_tuple = f_make_pair
    def f_tie(self, ex, s, vs, n, fr): return [(s, ('tie', vs))]
    def alternative(self, o, t):
        nm = targs(strip(t))[0].split('::')[-1]
        for k, v in o.f.items():
            if isinstance(v, SV) and v.cls == nm: return k
        raise Unsupported('alternative of std::variant: ' + t)
    def f_holds_alternative(self, ex, s, vs, n, fr):
        o = ex.rv(s, vs[0])
        if not (isinstance(o, SV) and o.cls == 'variant'): raise Unsupported('holds_alternative')
        m = re.search(r'holds_alternative\s*<(.*)>\s*$', ex.text(n['inner'][0], fr) or '', re.S)
        if not m: raise Unsupported('holds_alternative')
        return [(s, o.f['index'] == int(self.alternative(o, ex.alias(m[1].strip(), fr))))]
    def f_get(self, ex, s, vs, n, fr):
        t = n['type'].get('qualType', '')
        o = ex.rv(s, vs[0])
        if isinstance(o, SV) and o.cls == 'variant':
            k = self.alternative(o, tstr(n)); ex.check(s, 'variant holds the requested alternative', n, o.f['index'] == int(k))
            return [(s, vs[0].f(k) if isinstance(vs[0], LV) else o.f[k])]
        m = re.search(r'tuple_element<(\d+)', t) or re.search(r'tuple_element_t<(\d+)', t)
        o = ex.rv(s, vs[0])
        if not isinstance(o, SV): raise Unsupported('std::get')
        if m: k = m[1]
        else:
            m2 = re.search(r'__tuple_element_t<(\d+)', json_callee_type(n))
            if not m2: raise Unsupported('std::get index')
            k = m2[1]
        return [(s, vs[0].f(k) if isinstance(vs[0], LV) else o.f[k])]
    def f_thread_local_mersenne_engine(self, ex, s, vs, n, fr): return [(s, Opaque('random engine'))]
    def f_make_unique(self, ex, s, vs, n, fr):
        t = strip(tstr(n)); b, a = targs(t)
        if a and a[0].endswith('[]'):
            return [(s, VV(lift(default(ex.shape_of(a[0][:-2]))), ex.rv(s, vs[0])))]
        rec = ex.find_record(a[0]) if a else None
        if rec is None: return NotImplemented
        sig = None
        if len(vs) == 1 and isinstance(ex.rv(s, vs[0]), SV) and ex.rv(s, vs[0]).cls == rec.get('name'): return [(s, ex.rv(s, vs[0]))]
        decl = [x for x in rec.get('inner', []) if x.get('kind') == 'CXXConstructorDecl' and len(clangast.params(x)) == len(vs) and not x.get('isImplicit') and not x.get('explicitlyDeleted')]
        cs = [x for x in decl if clangast.body(x)] or [x for x in ex.u.functions(rec.get('name')) if x['kind'] == 'CXXConstructorDecl' and (x.get('_rec') is rec or any(x.get('previousDecl') == y['id'] for y in decl))]
        if not cs: raise Unsupported('constructor for make_unique')
        if len(cs) > 1:     # overloads: by the class of the arguments
            def fits(c):
                for p, v in zip(clangast.params(c), vs):
                    v = ex.rv(s, v); b = targs(strip(ex.alias(strip(tstr(p)), fr)))[0].split('::')[-1]
                    if isinstance(v, SV) and v.cls and b != v.cls: return False
                    if isinstance(v, SV) and not v.cls and b not in ('tuple', 'pair'): return False
                return True
            ok = [c for c in cs if fits(c)]
            if ok: cs = ok
        lv = ex.temp(s, SV({x['name']: ex.default_field(x, s, fr) for x in ex.fields(rec)}, rec.get('name')), 'obj')
        return [(s2, ex.load(s2, lv)) for s2, _ in ex.invoke(cs[0], lv, vs, s, fr, n)]
    def f_make_shared(self, ex, s, vs, n, fr):
        sh = ex.shape_of(tstr(n))
        if sh[0] != 'ptr': return [(s, Opaque('shared'))]
        rec = ex.find_record(targs(strip(tstr(n)))[1][0])
        if rec is None: raise Unsupported('make_shared')
        cs = [c for c in ex.u.by_name.get(rec.get('name'), []) + rec.get('inner', []) if c.get('kind') == 'CXXConstructorDecl' and clangast.body(c) and not c.get('_dep') and len(clangast.params(c)) >= len(vs) and not c.get('isImplicit')]
        cs = [c for c in cs if all(x.get('inner') or x.get('init') for x in clangast.params(c)[len(vs):])]
        if not cs: raise Unsupported('constructor for make_shared')
        cs.sort(key=lambda c: len(clangast.params(c)))
        vs = list(vs)
        for x in clangast.params(cs[0])[len(vs):]:
            (s, v), = ex.expr(x['inner'][0], s, fr); vs.append(v)
        lv = ex.temp(s, SV({x['name']: ex.default_field(x, s, fr) for x in ex.fields(rec)}, rec.get('name')), 'obj'); hp = LV('ob:' + sh[1]); out = []
        for s2, _ in ex.invoke(cs[0], lv, vs, s, fr, n):
            h = ex.load(s2, hp); ex.store(s2, hp, VV(sto(h.el, h.len, ex.load(s2, lv)), h.len + 1)); out.append((s2, It(hp, h.len)))
        return out
    def f_make_optional(self, ex, s, vs, n, fr): return [(s, Opt(BoolVal(True), ex.rv(s, vs[0])))]
    def f_isinf(self, ex, s, vs, n, fr): v = ex.rv(s, vs[0]); return [(s, Or(v == INF, v == -INF))]
    # ------------------------------------------------------------- algorithms
    def fill_range(self, ex, s, first, cnt, f, n, base='wr'):
        """container[first.idx .. +cnt) := f(k) (k offset from first); quantified definition of a fresh array"""
        o = ex.load(s, first.lv)
        new = tmap(lambda x: fresh(base, x.sort()), o.el)
        k = z3.Int('k?' + base + str(Names.n))
        lo = first.idx
        val = f(k - lo if not (z3.is_int_value(lo) and lo.as_long() == 0) else k)
        inr = And(lo <= k, k < lo + cnt)
        for a, b, v in zip(leaves(new), leaves(o.el), leaves(val)):
            s.assume(z3.ForAll([k], a[k] == If(inr, coerce(v, a.sort().range()), b[k]), patterns=[a[k]]))
        ex.store(s, first.lv, VV(new, o.len))
    def rng(self, ex, s, a, b, n):
        same_container(a, b)
        return self.minus(b.idx, a.idx)
    def need(self, ex, s, it, cnt, n, what='algorithm range'):
        if not ex.root.c.bounds: return
        o = ex.load(s, it.lv)
        ex.check(s, what + ' within bounds', n, And(cnt >= 0, Implies(cnt > 0, And(it.idx >= 0, it.idx + cnt <= o.len))))
    def f_iota(self, ex, s, vs, n, fr):
        a, b, v = self.rvs(ex, s, vs); c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n)
        self.fill_range(ex, s, a, c, lambda k: v + k, n, 'iota'); return [(s, None)]
    def f_fill(self, ex, s, vs, n, fr):
        a, b, v = self.rvs(ex, s, vs); c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n)
        self.fill_range(ex, s, a, c, lambda k: v, n, 'fill'); return [(s, None)]
    def f_copy(self, ex, s, vs, n, fr):
        a, b, o = self.rvs(ex, s, vs); c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n); self.need(ex, s, o, c, n)
        src = ex.load(s, a.lv)
        self.fill_range(ex, s, o, c, lambda k: sel(src.el, self.simp(a.idx + k)), n, 'copy'); return [(s, It(o.lv, o.idx + c))]
    def f_make_move_iterator(self, ex, s, vs, n, fr):
        v = ex.rv(s, vs[0])
        if not (isinstance(v, It) and z3.is_expr(ex.load(s, v.lv).el)): raise Unsupported('move iterator over objects')      # moving from a number leaves it as it was
        return [(s, v)]
    def f_back_inserter(self, ex, s, vs, n, fr): return [(s, ('back_inserter', vs[0]))]
    def f_copy_if(self, ex, s, vs, n, fr):
        """appends the elements that satisfy a pure predicate: at[j] is where the element at j went, fr_[u] is where the appended u came from"""
        a, b, o, f = vs[0], vs[1], vs[2], ex.rv(s, vs[3]); a, b = ex.rv(s, a), ex.rv(s, b)
        if not (isinstance(o, tuple) and o[0] == 'back_inserter'): raise Unsupported('copy_if without back_inserter')
        c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n); src, dst = ex.load(s, a.lv), ex.load(s, o[1])
        arg = lambda k: [sel(src.el, self.simp(a.idx + k))]
        self.pure_oblige(ex, s, f, arg, c, fr, n)
        at, frm, new, cnt = fresh('at', AI(Int_)), fresh('from', AI(Int_)), fresh('appended', dst.el.sort()), fresh('kept', Int_)
        j, u = z3.Int('j?ci%d' % Names.n), z3.Int('u?ci%d' % Names.n); Names.n += 1
        pj = self.pure(ex, s, f, [src.el[j]], fr, n); pu = self.pure(ex, s, f, [src.el[frm[u]]], fr, n)
        s.assume(And(0 <= cnt, cnt <= c))
        s.assume(z3.ForAll([u], Implies(Or(u < dst.len, u >= dst.len + cnt), new[u] == dst.el[u]), patterns=[new[u], dst.el[u]]))
        s.assume(z3.ForAll([u], Implies(And(dst.len <= u, u < dst.len + cnt), And(a.idx <= frm[u], frm[u] < b.idx, new[u] == src.el[frm[u]], pu, at[frm[u]] == u)), patterns=[new[u]]))
        s.assume(z3.ForAll([j], Implies(And(a.idx <= j, j < b.idx, pj), And(dst.len <= at[j], at[j] < dst.len + cnt, frm[at[j]] == j, new[at[j]] == src.el[j])), patterns=[src.el[j]]))
        u2 = z3.Int('u2?ci'); s.assume(z3.ForAll([u, u2], Implies(And(dst.len <= u, u < u2, u2 < dst.len + cnt), frm[u] < frm[u2]), patterns=[z3.MultiPattern(frm[u], frm[u2])]))
        ex.store(s, o[1], VV(new, dst.len + cnt)); return [(s, o)]
    def f_sort(self, ex, s, vs, n, fr):
        """some permutation in which no element compares less than an earlier one; from[k]: where the k-th element was, to[k]: where it went"""
        a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1]); c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n); o = ex.load(s, a.lv)
        if len(vs) > 2: f = ex.rv(s, vs[2]); less = lambda x, y: self.pure(ex, s, f, [x, y], fr, n)
        elif is_t(o.el): less = lambda x, y: x < y
        else: raise Unsupported('sort without a comparator')
        new = tmap(lambda x: fresh('sorted', x.sort()), o.el); frm, to = fresh('from', AI(Int_)), fresh('to', AI(Int_)); Names.n += 1
        k, j = z3.Ints('k?so%d j?so%d' % (Names.n, Names.n)); inr = lambda q: And(a.idx <= q, q < b.idx)
        nl, ol = leaves(new), leaves(o.el)
        s.assume(z3.ForAll([k], If(inr(k), And(inr(frm[k]), to[frm[k]] == k, *[x[k] == y[frm[k]] for x, y in zip(nl, ol)]), And(*[x[k] == y[k] for x, y in zip(nl, ol)])), patterns=[x[k] for x in nl]))
        s.assume(z3.ForAll([k], Implies(inr(k), And(inr(to[k]), frm[to[k]] == k, *[x[to[k]] == y[k] for x, y in zip(nl, ol)])), patterns=[y[k] for y in ol if z3.is_const(y)] + [to[k]]))
        s.assume(z3.ForAll([k, j], Implies(And(a.idx <= k, k < j, j < b.idx), Not(less(sel(new, j), sel(new, k)))), patterns=[z3.MultiPattern(nl[-1][k], nl[-1][j])]))
        s.vars['sort:from'], s.vars['sort:to'] = frm, to
        ex.store(s, a.lv, VV(new, o.len)); return [(s, None)]
    f_stable_sort = f_sort
    def pure(self, ex, s, f, args, fr, n):
        """evaluate a callable on symbolic arguments, requiring purity; returns the result term (paths merged with If)"""
        s2 = s.copy(); base = len(s2.pc)
        ex.muted += 1
        try: rs = ex.apply(f, args, s2, fr, n)
        finally: ex.muted -= 1
        for st, v in rs:
            for k in s.vars:
                if st.vars.get(k) is not s.vars[k] and not teq(st.vars[k], s.vars[k]): raise Unsupported('callable with side effects in an algorithm')
        res = ex.rv(rs[-1][0], rs[-1][1])
        for st, v in reversed(rs[:-1]):
            g = And([f_ for f_ in st.pc[base:]] or [BoolVal(True)])
            res = tmap2(lambda p, q: If(g, p, q), ex.rv(st, v), res)
        return res
    def pure_oblige(self, ex, s, f, mk_args, cnt, fr, n):
        """the obligations inside a callable, for an arbitrary position of the range"""
        s2 = s.copy(); k = fresh('pos', Int_); s2.assume(And(0 <= k, k < cnt))
        ex.apply(f, mk_args(k), s2, fr, n)
    def mapped(self, ex, s, ins, c, f, fr, n):
        """fresh array m with m[k] = f(in0[k], ..)"""
        srcs = [(ex.load(s, x.lv), x.idx) for x in ins]
        def args(k): return [sel(src.el, self.simp(i + k)) for src, i in srcs]
        self.pure_oblige(ex, s, f, args, c, fr, n)
        k = z3.Int('k?mp' + str(Names.n)); Names.n += 1
        v = self.pure(ex, s, f, args(k), fr, n)
        m = fresh('mapped', AI(v.sort())); s.assume(z3.ForAll([k], m[k] == v, patterns=[m[k]]))
        return m
    def summed(self, s, m, c, init):
        F = SUM if m.sort().range() == Real_ else SUMI
        r = F(m, IntVal(0), c)
        if init.sort() == Real_ and F is SUMI: r = z3.ToReal(r)
        if init.sort() == Int_ and F is SUM: raise Unsupported('sum of reals into an integer')
        if z3.is_rational_value(init) and init.as_fraction() == 0 or z3.is_int_value(init) and init.as_long() == 0: return r
        return init + r
    def f_transform_reduce(self, ex, s, vs, n, fr):
        v = self.rvs(ex, s, vs)
        if len(v) == 5: a, b, init, op, f = v; ins = [a]
        elif len(v) == 6: a, b, a2, init, op, f = v; ins = [a, a2]
        elif len(v) == 4: a, b, a2, init = v; op = Fn('plus'); f = Fn('multiplies'); ins = [a, a2]
        else: raise Unsupported('transform_reduce')
        if not (isinstance(op, Fn) and op.name == 'plus'): raise Unsupported('reduction other than a sum')
        c = self.rng(ex, s, a, b, n)
        for x in ins: self.need(ex, s, x, c, n)
        return [(s, self.summed(s, self.mapped(ex, s, ins, c, f, fr, n), c, init))]
    def f_inner_product(self, ex, s, vs, n, fr):
        v = self.rvs(ex, s, vs)
        if len(v) == 4: a, b, a2, init = v; op = Fn('plus'); f = Fn('multiplies')
        else: a, b, a2, init, op, f = v
        if not (isinstance(op, Fn) and op.name == 'plus'): raise Unsupported('reduction other than a sum')
        c = self.rng(ex, s, a, b, n)
        for x in (a, a2): self.need(ex, s, x, c, n)
        return [(s, self.summed(s, self.mapped(ex, s, [a, a2], c, f, fr, n), c, init))]
    def f_transform(self, ex, s, vs, n, fr):
        v = self.rvs(ex, s, vs)
        if len(v) == 4: a, b, o, f = v; ins = [a]
        else: a, b, a2, o, f = v; ins = [a, a2]
        c = self.rng(ex, s, a, b, n)
        for x in ins + [o]: self.need(ex, s, x, c, n)
        srcs = [(ex.load(s, x.lv), x.idx) for x in ins]
        self.pure_oblige(ex, s, f, lambda k: [sel(src.el, self.simp(i + k)) for src, i in srcs], c, fr, n)
        def val(k): return self.pure(ex, s, f, [sel(src.el, self.simp(i + k)) for src, i in srcs], fr, n)
        self.fill_range(ex, s, o, c, val, n, 'map'); return [(s, It(o.lv, o.idx + c))]
    def f_accumulate(self, ex, s, vs, n, fr):
        v = self.rvs(ex, s, vs); a, b, init = v[:3]
        if len(v) > 3 and not (isinstance(v[3], Fn) and v[3].name == 'plus'): raise Unsupported('accumulate with a custom operation')
        c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n)
        o = ex.load(s, a.lv)
        if not is_t(o.el): raise Unsupported('accumulate')
        F = SUM if o.el.sort().range() == Real_ else SUMI
        r = F(o.el, a.idx, b.idx)
        if init.sort() == Real_ and F is SUMI: r = z3.ToReal(r)
        if init.sort() == Int_ and F is SUM: raise Unsupported('accumulate of reals into an integer')
        if z3.is_rational_value(init) and init.as_fraction() == 0 or z3.is_int_value(init) and init.as_long() == 0: return [(s, r)]
        return [(s, init + r)]
    f_reduce = f_accumulate
    def extremum(self, ex, s, vs, n, lt, fr=None, mn=False):
        v = self.rvs(ex, s, vs)
        if len(v) == 3:
            cmp = v[2]; v = v[:2]; o = ex.load(s, v[0].lv)
            # the comparator must be a strict weak order (assumed); lt(x, y): x beats y
            ex.assumptions.add('comparators handed to std::min_element and std::max_element are strict weak orders')
            c0 = lambda x, y: coerce(self.pure(ex, s, cmp, [x, y], fr, n), Bool_)
            a, b = v; same_container(a, b); r = fresh('ext', Int_); self.need(ex, s, a, b.idx - a.idx, n)
            s.assume(Implies(a.idx < b.idx, And(a.idx <= r, r < b.idx))); s.assume(Implies(a.idx >= b.idx, r == b.idx))
            k = z3.Int('k?ext' + str(Names.n)); Names.n += 1
            x, y = sel(o.el, k), sel(o.el, r)
            s.assume(z3.ForAll([k], Implies(And(a.idx <= k, k < b.idx), Not(c0(x, y) if mn else c0(y, x))), patterns=[leaves(x)[0]]))
            return [(s, It(a.lv, r))]
        if len(v) != 2: raise Unsupported('extremum with comparator')
        a, b = v; same_container(a, b); o = ex.load(s, a.lv); r = fresh('ext', Int_)
        self.need(ex, s, a, b.idx - a.idx, n)
        s.assume(Implies(a.idx < b.idx, And(a.idx <= r, r < b.idx))); s.assume(Implies(a.idx >= b.idx, r == b.idx))
        k = z3.Int('k?ext' + str(Names.n))
        if not is_t(o.el): raise Unsupported('extremum of structs')
        s.assume(z3.ForAll([k], Implies(And(a.idx <= k, k < b.idx), And(Not(lt(o.el[k], o.el[r])), Implies(k < r, lt(o.el[r], o.el[k])))), patterns=[o.el[k]]))
        return [(s, It(a.lv, r))]
    def f_min_element(self, ex, s, vs, n, fr): return self.extremum(ex, s, vs, n, lambda x, y: x < y, fr, True)
    def f_max_element(self, ex, s, vs, n, fr): return self.extremum(ex, s, vs, n, lambda x, y: x > y, fr)
    def f_minmax_element(self, ex, s, vs, n, fr):
        lo = self.f_min_element(ex, s, vs, n, fr)[0][1]
        v = self.rvs(ex, s, vs); a, b = v; o = ex.load(s, a.lv); r = fresh('ext', Int_)
        s.assume(Implies(a.idx < b.idx, And(a.idx <= r, r < b.idx))); s.assume(Implies(a.idx >= b.idx, r == b.idx))
        k = z3.Int('k?ext' + str(Names.n)); s.assume(z3.ForAll([k], Implies(And(a.idx <= k, k < b.idx), o.el[k] <= o.el[r]), patterns=[o.el[k]]))
        return [(s, SV({'0': lo, '1': It(a.lv, r)}))]
    def f_find(self, ex, s, vs, n, fr):
        a, b, x = self.rvs(ex, s, vs); same_container(a, b); o = ex.load(s, a.lv); r = fresh('found', Int_); x = coerce(x, o.el.sort().range())
        s.assume(And(Implies(a.idx <= b.idx, And(a.idx <= r, r <= b.idx)), Implies(r < b.idx, o.el[r] == x)))
        k = z3.Int('k?find' + str(Names.n)); s.assume(z3.ForAll([k], Implies(And(a.idx <= k, k < r), o.el[k] != x), patterns=[o.el[k]]))
        return [(s, It(a.lv, r))]
    def f_find_if(self, ex, s, vs, n, fr, neg=False):
        a, b, f = self.rvs(ex, s, vs); same_container(a, b); o = ex.load(s, a.lv); r = fresh('found', Int_); self.need(ex, s, a, b.idx - a.idx, n)
        def p(i): x = coerce(self.pure(ex, s, f, [sel(o.el, i)], fr, n), Bool_); return Not(x) if neg else x
        s.assume(And(Implies(a.idx <= b.idx, And(a.idx <= r, r <= b.idx)), Implies(r < b.idx, p(r))))
        k = z3.Int('k?find' + str(Names.n)); Names.n += 1; s.assume(z3.ForAll([k], Implies(And(a.idx <= k, k < r), Not(p(k))), patterns=[leaves(o.el)[0][k]]))
        return [(s, It(a.lv, r))]
    def f_find_if_not(self, ex, s, vs, n, fr): return self.f_find_if(ex, s, vs, n, fr, True)
    def counted(self, ex, s, a, b, p, n):
        c = self.rng(ex, s, a, b, n); k = z3.Int('k?cn' + str(Names.n)); A = fresh('ind', AI(Int_)); o = ex.load(s, a.lv)
        s.assume(z3.ForAll([k], A[k] == If(p(sel(o.el, self.simp(a.idx + k))), 1, 0), patterns=[A[k]]))
        return [(s, SUMI(A, IntVal(0), c))]
    def f_count(self, ex, s, vs, n, fr):
        a, b, x = self.rvs(ex, s, vs); self.need(ex, s, a, b.idx - a.idx, n); return self.counted(ex, s, a, b, lambda y: y == coerce(x, y.sort()), n)
    def f_count_if(self, ex, s, vs, n, fr):
        a, b, f = self.rvs(ex, s, vs); self.need(ex, s, a, b.idx - a.idx, n); return self.counted(ex, s, a, b, lambda y: coerce(self.pure(ex, s, f, [y], fr, n), Bool_), n)
    def f_equal(self, ex, s, vs, n, fr):
        v = self.rvs(ex, s, vs)
        f = None
        if not isinstance(v[-1], It): f = v[-1]; v = v[:-1]
        a, b, a2 = v[:3]; c = self.rng(ex, s, a, b, n); self.need(ex, s, a, c, n)
        x, y = ex.load(s, a.lv), ex.load(s, a2.lv); k = z3.Int('k?eq' + str(Names.n)); Names.n += 1
        u, w = sel(x.el, self.simp(a.idx + k)), sel(y.el, self.simp(a2.idx + k))
        r = z3.ForAll([k], Implies(And(0 <= k, k < c), coerce(self.pure(ex, s, f, [u, w], fr, n), Bool_) if f is not None else u == w))
        if len(v) == 4: return [(s, And(v[3].idx - a2.idx == c, r))]
        self.need(ex, s, a2, c, n); return [(s, r)]
    def logical(self, ex, s, vs, n, fr, q):
        a, b, f = self.rvs(ex, s, vs); same_container(a, b); o = ex.load(s, a.lv)
        k = z3.Int('k?lq' + str(Names.n)); Names.n += 1
        p = coerce(self.pure(ex, s, f, [sel(o.el, k)], fr, n), Bool_); r = And(a.idx <= k, k < b.idx)
        return [(s, {'all': lambda: z3.ForAll([k], Implies(r, p)), 'any': lambda: z3.Exists([k], And(r, p)), 'none': lambda: z3.ForAll([k], Implies(r, Not(p)))}[q]())]
    def f_all_of(self, ex, s, vs, n, fr): return self.logical(ex, s, vs, n, fr, 'all')
    def f_any_of(self, ex, s, vs, n, fr): return self.logical(ex, s, vs, n, fr, 'any')
    def f_none_of(self, ex, s, vs, n, fr): return self.logical(ex, s, vs, n, fr, 'none')
    # ------------------------------------------------------------- construction
    def construct(self, ex, s, t, vs, n, fr):
        b, args = targs(t); b0 = b.split('::')[-1]
        rv = [ex.rv(s, v) for v in vs]
        if b0 in ('uniform_int_distribution', 'uniform_real_distribution') and b.startswith('std') and len(rv) == 2:
            return [(s, SV({'lo': coerce(rv[0], Real_) if 'real' in b0 else rv[0], 'hi': coerce(rv[1], Real_) if 'real' in b0 else rv[1]}, b0))]
        if '_iterator' in b0 and len(rv) == 1 and isinstance(rv[0], It): return [(s, rv[0])]
        if b0 == 'priority_queue' and b.startswith('std') and len(rv) == 1:
            if isinstance(rv[0], SV) and rv[0].cls == 'pq': return [(s, rv[0])]
            if isinstance(rv[0], Lam): o = default(('pq', ex.shape_of(args[0]), '')); o.f['cmp#'] = rv[0]; return [(s, o)]
        if b0 == 'variant' and len(rv) == 1 and isinstance(rv[0], SV):
            if rv[0].cls == 'variant': return [(s, rv[0])]
            sh = ex.root.c.shapes.get('variant') if ex.root.c else None
            if sh is None: raise Unsupported('std::variant')
            o = default(sh); k = self.alternative(o, rv[0].cls)
            return [(s, SV({'index': IntVal(int(k)), **{j: rv[0] if j == k else v for j, v in o.f.items() if j != 'index'}}, 'variant'))]
        if b0 in ('vector', 'deque') and (b.startswith('std') or b == b0):
            if len(rv) == 1 and isinstance(rv[0], VV): return [(s, rv[0])]
            sh = ex.shape_of(args[0])
            el = lift(default(sh))
            if not rv: return [(s, VV(el, IntVal(0)))]
            if len(rv) == 1 and isinstance(rv[0], tuple) and rv[0][0] == 'initlist':
                v = VV(el, IntVal(len(rv[0][1])))
                for j, x in enumerate(rv[0][1]): v = VV(sto(v.el, IntVal(j), ex.rv(s, x)), v.len)
                return [(s, v)]
            if n['kind'] == 'InitListExpr': return NotImplemented
            if len(rv) == 1 and is_t(rv[0]): return [(s, VV(el, rv[0]))]
            if len(rv) == 2 and isinstance(rv[0], It):
                same_container(rv[0], rv[1]); o = ex.load(s, rv[0].lv); c = self.minus(rv[1].idx, rv[0].idx)
                if z3.is_int_value(rv[0].idx) and rv[0].idx.as_long() == 0: return [(s, VV(o.el, c))]
                new = tmap(lambda x: fresh('slice', x.sort()), o.el)
                k = z3.Int('k?sl' + str(Names.n))
                for a, q in zip(leaves(new), leaves(o.el)): s.assume(z3.ForAll([k], a[k] == q[rv[0].idx + k], patterns=[a[k]]))
                return [(s, VV(new, c))]
            if len(rv) == 2 and is_t(rv[0]):
                x = rv[1]
                if is_t(x) and sh == RE: x = coerce(x, Real_)
                return [(s, VV(lift(x), rv[0]))]
            raise Unsupported('vector constructor')
        if b0 == 'unique_ptr' and len(rv) == 1: return [(s, rv[0])]
        if b0 == 'unique_ptr' and not rv: return [(s, default(ex.shape_of(t)))]     # empty; using it before it is set is not modelled
        if b0 in ('shared_ptr', 'weak_ptr', '__shared_ptr', '__weak_ptr') and b.startswith('std'):
            if not rv: return [(s, default(ex.shape_of(t)))]
            if len(rv) == 1 and isinstance(rv[0], (It, Null, Opaque)): return [(s, rv[0])]
        if b0 in ('pair', 'tuple') and b.startswith('std'):
            if len(rv) == 1 and isinstance(rv[0], SV) and len(args) != 1: return [(s, rv[0])]
            if not rv: return [(s, default(ex.shape_of(t)))]
            if len(rv) != len(args): return NotImplemented
            out = []
            for x, a in zip(rv, args):
                if is_t(x) and strip(a) in REALS: x = coerce(x, Real_)
                out.append(x)
            return [(s, SV({str(i): x for i, x in enumerate(out)}))]
        if b0 in ('unordered_map', 'map') and b.startswith('std'):
            if not rv: return [(s, default(ex.shape_of(t)))]
            if len(rv) == 1 and isinstance(rv[0], SV): return [(s, rv[0])]
        if b0 in ('unordered_set', 'set'):
            if not rv: return [(s, default(SET))]
            if len(rv) == 1 and isinstance(rv[0], SV): return [(s, rv[0])]
        if b0 == 'nullopt_t': return [(s, Opt(BoolVal(False), None))]
        if b0 == 'optional':
            if not rv: return [(s, Opt(BoolVal(False), default(ex.shape_of(args[0]))))]
            if isinstance(rv[0], Opt):
                if rv[0].val is None: return [(s, Opt(BoolVal(False), default(ex.shape_of(args[0]))))]
                return [(s, rv[0])]
            return [(s, Opt(BoolVal(True), rv[0]))]
        if b0 in ('plus', 'minus', 'multiplies', 'divides', 'less', 'greater', 'equal_to'): return [(s, Fn(b0))]
        if '__normal_iterator' in b or t.endswith('*'):
            if len(rv) == 1 and isinstance(rv[0], (It, Null)): return [(s, rv[0])]
        if (b0.startswith('basic_string') or b0 in ('string', 'invalid_argument', 'runtime_error', 'out_of_range')): return [(s, Opaque(b0))]
        if '(lambda' in t and len(rv) == 1: return [(s, rv[0])]
        return NotImplemented
def json_callee_type(n):
    for x in clangast.walk(n['inner'][0]):
        if x.get('kind') == 'DeclRefExpr': return x['type'].get('qualType', '')
    return ''
