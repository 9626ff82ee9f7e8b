"""Forward symbolic execution of clang AST function bodies against contracts; emits verification conditions."""
import re, z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
import clangast
from core import *

# ------------------------------------------------------------------------------------------------ types
INTS = {'unsigned long': (64, True), 'unsigned long long': (64, True), 'size_t': (64, True), 'std::size_t': (64, True), 'unsigned int': (32, True), 'unsigned short': (16, True), 'unsigned char': (8, True),
        'long': (64, False), 'long long': (64, False), 'int': (32, False), 'short': (16, False), 'char': (8, False), 'signed char': (8, False), 'std::ptrdiff_t': (64, False), 'ptrdiff_t': (64, False), 'ssize_t': (64, False), 'uint8_t': (8, True), 'uint32_t': (32, True), 'int32_t': (32, False), 'uint64_t': (64, True), 'int64_t': (64, False)}
REALS = {'double', 'float', 'long double'}
def tstr(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def strip(t):
    t = t.strip()
    while True:
        o = t
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'typename '):
            if t.startswith(w): t = t[len(w):]
        for w in (' const', '&', '*const'):
            if t.endswith(w): t = t[:-len(w)] + ('*' if w == '*const' else '')
        t = t.strip()
        if t == o: return t
def targs(t):
    """'a<b, c<d>>' -> ('a', ['b','c<d>'])"""
    i = t.find('<')
    if i < 0: return t, []
    d = 0; out = []; cur = ''
    for ch in t[i:]:
        if ch == '<':
            d += 1
            if d == 1: continue
        if ch == '>':
            d -= 1
            if d == 0: break
        if ch == ',' and d == 1: out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return t[:i], out
def int_type(t):
    return INTS.get(strip(t))
def is_ref(n): return (n.get('type') or {}).get('qualType', '').rstrip().endswith('&')

# ------------------------------------------------------------------------------------------------ contracts
def Itp(obj, off): return ('it', obj, off)
def Sc(name, shape=SZ): return ('sc', name, shape)
def Ob(name, shape=None): return ('ob', name, shape)
def Skip(): return ('skip',)
def Fnp(contract): return ('fnp', contract)     # a callable known only by its contract
def Pt(obj, name): return ('pt', obj, name)     # pointer into the heap object obj, -1: null
def Mit(field, name): return ('mit', field, name)   # iterator into the map this.field, at the key name (-1: end)
def El(obj, name): return ('el', obj, name)     # reference to an element of the heap object obj
class Contract:
    def __init__(self, fn, params=(), requires=(), ensures=(), modifies=(), loops=None, result=None, cls=None, this=None, objs=None, ghosts=None, ghost_update=None,
                 types=None, where=None, inline=False, trusted=None, wrap=False, bounds=True, decreases=None, name=None, hints=(), aliases=None, rec=True, ctor=False, at_return=(), heaps=None, shapes=None, this_in=None, leaf=False, gres=None, group=None, ghost_mod=(), derived=None, throws=None):
        self.throws = throws
        self.derived = derived      # CRTP: this is an object of that derived class
        self.fn, self.params, self.requires, self.ensures, self.modifies = fn, list(params), list(requires), list(ensures), list(modifies)
        self.loops = loops or {}; self.result = result; self.cls = cls; self.this = this or {}; self.objs = objs or {}; self.ghosts = ghosts or {}; self.ghost_update = ghost_update or {}
        self.types, self.where, self.inline, self.trusted, self.wrap, self.bounds = types, where, inline, trusted, wrap, bounds
        self.decreases = decreases; self.name = name or ((cls + '::') if cls else '') + fn; self.hints = list(hints); self.aliases = aliases or {}; self.ctor = ctor; self.at_return = list(at_return)
        self.heaps = heaps or {}; self.shapes = shapes or {}; self.this_in = this_in; self.leaf = leaf; self.gres = gres or {}; self.group = group; self.ghost_mod = list(ghost_mod)
class Loop:
    def __init__(self, *inv, decreases=None, hints=(), entry_hints=(), exit_hints=(), end_hints=(), ghost=None):
        self.inv = list(inv); self.decreases = decreases; self.ghost = ghost; self.end_hints = list(end_hints); self.hints = list(hints); self.exit_hints = list(exit_hints)

class Obligation:
    def __init__(self, name, loc, hyps, goal, text, extra): self.name, self.loc, self.hyps, self.goal, self.text, self.extra = name, loc, hyps, goal, text, extra

class State:
    __slots__ = ('vars', 'pc', 'bind', 'names', 'known')
    def __init__(self): self.vars = {}; self.pc = []; self.bind = {}; self.names = {}; self.known = set()
    def copy(self):
        s = State(); s.vars = dict(self.vars); s.pc = list(self.pc); s.bind = dict(self.bind); s.names = dict(self.names); s.known = set(self.known); return s
    def assume(self, f):
        if z3.is_true(f): return
        i = f.get_id()
        if i in self.known: return
        self.known.add(i); self.pc.append(f)

class Frame:
    cnt = 0
    def __init__(self, fn, contract, this):
        Frame.cnt += 1; self.id = Frame.cnt; self.fn = fn; self.c = contract; self.this = this; self.loops = {}; self.env = {}; self.pre = None; self.loopstack = []

class Env:
    """what specification lambdas see"""
    def __init__(self, ex, st, binds, frame=None, old=None, result=None, counters=None):
        self.__dict__.update(_ex=ex, _st=st, _b=binds, _fr=frame, _old=old, _res=result, _ctr=counters or [])
    def __getattr__(self, n):
        if n == 'old': return self._old
        if n == 'result': return self._res
        if n == 'this': return ThisEnv(self)
        if n not in self._b: raise Detached(f'no {n} in the contract environment')
        v = self._b[n]
        return self._ex.load(self._st, v) if isinstance(v, LV) else v
    def loc(self, n):
        lv = self._st.names.get((self._fr.id, n)) if self._fr else None
        if lv is None: raise Detached(f'local variable {n} does not exist')
        v = self._ex.load(self._st, lv)
        return v.idx if isinstance(v, It) else v
    def locv(self, n):
        lv = self._st.names.get((self._fr.id, n))
        if lv is None: raise Detached(f'local variable {n} does not exist')
        return self._ex.load(self._st, lv)
    def entry(self, ordn):
        """the environment when loop ordn was last entered"""
        s = getattr(self._fr, 'entries', {}).get(ordn)
        if s is None: raise Detached(f'loop {ordn} was not entered')
        return Env(self._ex, s, self._b, self._fr, self._old, self._res, self._ctr)
    def head(self, ordn):
        """the environment at the start of the current iteration of loop ordn"""
        s = (getattr(self._fr, 'heads', None) or {}).get(ordn)
        if s is None: raise Detached(f'loop {ordn} was not entered')
        return Env(self._ex, s, self._b, self._fr, self._old, self._res, self._ctr)
    def lg(self, g):
        """a ghost variable of a loop"""
        v = self._st.vars.get('lg:' + g)
        if v is None: raise Detached(f'the loop of ghost {g} was not entered')
        return v
    @property
    def sort_from(self):
        """where the elements sorted last came from"""
        if 'sort:from' not in self._st.vars: raise Detached('nothing was sorted')
        return self._st.vars['sort:from']
    @property
    def sort_to(self):
        if 'sort:to' not in self._st.vars: raise Detached('nothing was sorted')
        return self._st.vars['sort:to']
    @property
    def random(self):
        """the value drawn last"""
        v = self._st.vars.get('random:last')
        if v is None: raise Detached('nothing was drawn')
        return v
    @property
    def draws(self):
        """everything drawn so far, outside loops"""
        return [self._st.vars[f'random:#{k}'] for k in range(sum(str(k).startswith('random:#') for k in self._st.vars))]
    def drawn_from(self, lo, hi):
        """the last draw, if any, was from exactly this interval"""
        if 'random:lo' not in self._st.vars: return z3.BoolVal(True)
        return And(self._st.vars['random:lo'] == lo, self._st.vars['random:hi'] == hi)
    def iter(self, ordn):
        """ghost: the number of completed iterations of loop ordn"""
        v = self._st.vars.get(f'it:{self._fr.id}:{ordn}') if self._fr else None
        if v is None: raise Detached(f'loop {ordn} was not entered')
        return v
    def ctr(self, d=0):
        """the counter of the d-th enclosing loop (0: innermost)"""
        if d >= len(self._ctr): raise Detached('no such enclosing loop counter')
        lv = self._ctr[-1 - d]
        if lv is None: raise Detached('the loop has no counter')
        v = self._ex.load(self._st, lv)
        return v.idx if isinstance(v, It) else v
    @property
    def i(self): return self.ctr(0)
    @property
    def j(self): return self.ctr(1)
class ThisEnv:
    def __init__(self, e): self.__dict__['_e'] = e
    def __getattr__(self, n):
        t = self._e._b.get('this')
        if t is None: raise Detached('no this')
        o = self._e._ex.load(self._e._st, t)
        if n not in o.f: raise Detached(f'no field {n}')
        v = o.f[n]
        if isinstance(v, LV): v = self._e._ex.load(self._e._st, v)
        return v

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')

def literal_range(n):
    """for (x : {a, b, c}): executed element by element"""
    if n.get('kind') != 'CXXForRangeStmt': return False
    try: r = n['inner'][1]['inner'][0]['inner'][0]
    except Exception: return False
    while r.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr') and r.get('inner'): r = r['inner'][0]
    return r.get('kind') == 'CXXStdInitializerListExpr'
class Executor:
    def __init__(self, unit, contracts, builtins):
        self.u = unit; self.contracts = contracts; self.builtins = builtins
        self.obls = []; self.muted = 0; self.unsigned = set(); self.depth = 0; self.root = None; self.assumptions = set(); self.inlined = set(); self.used_contracts = set(); self.extra_axioms = []
        self.keyn = 0

    # ------------------------------------------------------------------ contracts lookup
    def contract_for(self, fn):
        for c in self.contracts:
            if c.fn != fn.get('name') or c.leaf: continue
            if c.cls is not None and (not fn.get('_rec') or fn['_rec'].get('name') != c.cls): continue
            if c.params is not None and not c.inline and len(c.params) != len(clangast.params(fn)): continue
            if c.types is not None and not re.search(c.types, ' '.join((p['type'].get('desugaredQualType', '') + ' ' + p['type'].get('qualType', '')) for p in clangast.params(fn))): continue
            return c
        return None

    # ------------------------------------------------------------------ shapes from types
    def shape_of(self, t, aliases=None):
        t = strip(t)
        al = {}
        for fr in (self.root,): 
            if fr and fr.c: al.update(fr.c.aliases)
        if t in al: return al[t] if not isinstance(al[t], str) else self.shape_of(al[t])
        if t == 'bool': return BO
        if t in INTS: return ('int', INTS[t][1])
        if t in REALS: return RE
        hp = self.root.c.heaps if self.root and self.root.c else {}
        base, args = targs(t)
        if base.split('::')[-1] in ('shared_ptr', 'weak_ptr') and args or t.endswith('*'):
            tgt = strip(t[:-1]) if t.endswith('*') else strip(args[0])
            tn = targs(tgt)[0].split('::')[-1] if '>::' not in tgt else tgt.rsplit('>::', 1)[1]
            if tn in hp: return ('ptr', hp[tn])
        if t.endswith('*'): return ('opaque',)
        b = base.split('::')[-1] if base.startswith('std') or base.startswith('__gnu') or '::' not in base else base
        if b in ('vector', 'unique_ptr', 'deque', 'array', 'initializer_list') and args:
            a = args[0]
            if b == 'unique_ptr':
                if not a.endswith('[]'): return self.shape_of(a)   # sole owner: the object itself
                a = a[:-2].strip()
            return VecOf(self.shape_of(a))
        if b in ('pair', 'tuple'): return Tup(*[self.shape_of(a) for a in args])
        if b == 'uniform_real_distribution' and not args: args = ['double']
        if b == 'uniform_int_distribution' and not args: args = ['int']
        if b in ('uniform_int_distribution', 'uniform_real_distribution'): return Rec(b, lo=self.shape_of(args[0]), hi=self.shape_of(args[0]))
        if b == 'optional': return OptOf(self.shape_of(args[0]))
        if b in ('unordered_set', 'set') and args and strip(args[0]) in INTS: return SET
        if b in ('unordered_map', 'map') and len(args) > 1 and INTS.get(strip(args[0]), (0, False))[1]: return MapOf(self.shape_of(args[1]))
        rec = self.find_record(t)
        if rec is not None: return self.rec_shape(rec)
        if b in ('string', 'basic_string', 'random_device', 'mt19937', 'function'): return ('opaque',)
        raise Unsupported('type ' + t)
    def find_record(self, t):
        t = strip(t)
        base, args = targs(t)
        nm = base.split('::')[-1] if not t.endswith('>') else base.split('::')[-1]
        outer = None
        if '>::' in t: outer = targs(t.rsplit('>::', 1)[0] + '>')[0].split('::')[-1]; nm = t.rsplit('>::', 1)[1]; args = []
        cands = [r for r in self.u.records.get(nm, []) if not any(x.get('kind') == 'FieldDecl' and ('<dependent' in tstr(x) or 'type-parameter' in tstr(x)) for x in r.get('inner', []))]
        spec = [r for r in cands if r['kind'] == 'ClassTemplateSpecializationDecl']
        if spec: cands = spec
        if outer is not None:
            inn = [r for r in cands if (r.get('_outer') or {}).get('name') == outer]
            if inn: cands = [r for r in inn if r['_outer'].get('kind') == 'ClassTemplateSpecializationDecl'] or inn
        if len(cands) > 1 and args:
            def a_of(r): return [x.get('type', {}).get('qualType', '') for x in r.get('inner', []) if x.get('kind') == 'TemplateArgument']
            canon = lambda a: re.sub(r'\b(std::)?size_t\b', 'unsigned long', a).replace(' ', '')
            ex = [r for r in cands if [canon(a) for a in a_of(r)][:len(args)] == [canon(a) for a in args][:len(a_of(r))]]
            if ex: cands = ex
        return cands[0] if cands else None
    def fields(self, rec):
        out = []
        for b in rec.get('bases', []) or []:
            r = self.find_record((b.get('type') or {}).get('desugaredQualType') or (b.get('type') or {}).get('qualType', ''))
            if r is not None: out += self.fields(r)
        out += [x for x in rec.get('inner', []) if x.get('kind') == 'FieldDecl']
        return out
    def rec_shape(self, rec):
        f = {}
        sh = self.root.c.shapes if self.root and self.root.c else {}
        for x in self.fields(rec):
            k = (rec.get('name') or '') + '.' + x['name']
            f[x['name']] = sh[k] if k in sh else self.shape_of(tstr(x))
        return ('rec', f, rec.get('name'))

    # ------------------------------------------------------------------ store
    def newkey(self, base): self.keyn += 1; return f'{base}#{self.keyn}'
    def load(self, st, lv):
        if not isinstance(lv, LV): return lv
        v = st.vars.get(lv.root)
        if v is None: raise Unsupported(f'read of unknown object {lv.root}')
        for k, x in lv.path:
            if k == 'f':
                if isinstance(v, Opt) and x == 'val': v = v.val; continue
                if not isinstance(v, SV) or x not in v.f: raise Unsupported(f'no member {x}')
                v = v.f[x]
                while isinstance(v, LV): v = self.load(st, v)
            else:
                if not isinstance(v, VV): raise Unsupported('index into a non-sequence')
                v = sel(v.el, x)
        return v
    def store(self, st, lv, val):
        def upd(v, path):
            if not path: return self.adapt(v, val)
            (k, x), rest = path[0], path[1:]
            if k == 'f':
                if isinstance(v, Opt) and x == 'val': return Opt(v.has, upd(v.val, rest))
                if not isinstance(v, SV) or x not in v.f: raise Unsupported(f'no member {x}')
                if isinstance(v.f[x], LV):   # member reference: write through
                    self.store(st, LV(v.f[x].root, v.f[x].path + tuple(rest)), val); return v
                f = dict(v.f); f[x] = upd(v.f[x], rest); return SV(f, v.cls)
            return VV(sto(v.el, x, upd(sel(v.el, x), rest)), v.len)
        if lv.root not in st.vars and lv.path: raise Unsupported('write to unknown object')
        cur = st.vars.get(lv.root)
        if lv.path: new = upd(cur, lv.path)
        else: new = self.adapt(cur, val) if cur is not None else val
        st.vars[lv.root] = new
    def adapt(self, old, val):
        if is_t(old) and is_t(val) and old.sort() != val.sort(): return coerce(val, old.sort())
        if isinstance(old, It) and val is NULL: return It(old.lv, IntVal(-1))
        return val
    def temp(self, st, v, base='tmp'):
        k = self.newkey(base); st.vars[k] = v; return LV(k)
    def lv_of(self, st, v):
        return v if isinstance(v, LV) else self.temp(st, v)
    def rv(self, st, v): return self.load(st, v) if isinstance(v, LV) else v

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, kind, node, goal, text=''):
        if self.muted: return
        triv = z3.is_true(z3.simplify(goal))
        if triv and not kind.startswith('ensures'): return
        line = (node or {}).get('_line', 0); f = (node or {}).get('_file', '')
        loc = f'{f.split("/include/")[-1]}:{line}' if f else ''
        if not triv and z3.is_and(goal):
            for k in range(goal.num_args()): self.oblige(st, kind, node, goal.arg(k), text)
            return
        self.obls.append(Obligation(f'{self.root.c.name}/{kind}', loc, list(st.pc), goal, text, list(self.extra_axioms)))
    def check(self, st, kind, node, goal, text=''):
        # a pair (marked, fact): both are proved, only the fact is kept (the marks ask for definitions in this one obligation)
        if isinstance(goal, tuple):
            self.oblige(st, kind, node, goal[0], text)
            s2 = st.copy(); s2.assume(goal[0]); self.oblige(s2, kind, node, goal[1], text); st.assume(goal[1]); return
        self.oblige(st, kind, node, goal, text); st.assume(goal)

    # ------------------------------------------------------------------ verification of one function
    def verify(self, c, fn):
        Names.n = 0; Frame.cnt = 0; self.keyn = 0
        import core; core._Q.n = 0
        fr = Frame(fn, c, None); self.root = fr
        st = State(); ps = clangast.params(fn)
        if len(ps) != len(c.params): raise Detached(f'{c.name} has {len(ps)} parameters, the contract expects {len(c.params)}')
        binds = {}; facts = []
        for o, sh in c.objs.items():
            st.vars['ob:' + o] = mk(sh, o, facts); binds[o] = LV('ob:' + o)
        rec = fn.get('_rec')
        if c.this_in:
            o, nm = c.this_in; off = fresh(nm, Int_); binds[nm] = off; facts += [off >= 0, off < self.load(st, binds[o]).len]
            fr.this = binds[o].i(off); binds['this'] = fr.this
        elif rec is not None and fn.get('kind') != 'FunctionDecl' and fn.get('storageClass') != 'static':
            f = {}
            if c.derived: rec = self.find_record(c.derived)
            if rec is None: raise Detached(f'no class {c.derived}')
            for x in self.fields(rec):
                nm = x['name']
                sh = c.this.get(nm)
                if isinstance(sh, tuple) and sh[0] == 'it':  # member iterator into a contract object
                    off = binds.get(sh[2]) if isinstance(sh[2], str) else IntVal(sh[2])
                    if off is None: off = fresh(sh[2], Int_); binds[sh[2]] = off; facts += [off >= 0, off <= self.load(st, binds[sh[1]]).len]
                    f[nm] = It(binds[sh[1]], off); continue
                if isinstance(sh, tuple) and sh[0] == 'refto': f[nm] = binds[sh[1]]; continue
                try: f[nm] = mk(sh or self.shape_of(tstr(x)), 'this.' + nm, facts)
                except Unsupported: f[nm] = Opaque(nm)
            for nm, sh in c.this.items():
                if nm not in f: raise Detached(f'{rec.get("name")} has no member {nm}')
            st.vars['this'] = SV(f, rec.get('name')); fr.this = LV('this'); binds['this'] = LV('this')
        for p, d in zip(c.params, ps):
            key = (fr.id, d['id'])
            if p[0] == 'it':
                off = binds.get(p[2]) if isinstance(p[2], str) else IntVal(p[2])
                if off is None:
                    off = fresh(p[2], Int_); binds[p[2]] = off; facts += [off >= 0, off <= self.load(st, binds[p[1]]).len]
                v = It(binds[p[1]], off)
            elif p[0] == 'pt':
                off = fresh(p[2], Int_); binds[p[2]] = off; facts += [off >= -1, off < self.load(st, binds[p[1]]).len]
                v = It(binds[p[1]], off)
            elif p[0] == 'sc':
                v = mk(p[2], p[1], facts); binds[p[1]] = v
            elif p[0] == 'ob':
                sh = p[2] or self.shape_of(d['type'].get('desugaredQualType', d['type']['qualType']))
                k = 'ob:' + p[1]
                if k not in st.vars: st.vars[k] = mk(sh, p[1], facts)
                binds[p[1]] = LV(k); st.bind[key] = LV(k); st.names[(fr.id, d.get('name'))] = LV(k); continue
            elif p[0] == 'el':
                off = fresh(p[2], Int_); binds[p[2]] = off; facts += [off >= 0, off < self.load(st, binds[p[1]]).len]
                st.bind[key] = binds[p[1]].i(off); st.names[(fr.id, d.get('name'))] = st.bind[key]; continue
            elif p[0] == 'mit':
                off = fresh(p[2], Int_); binds[p[2]] = off; v = It(LV('this', (('f', p[1]), ('f', '[map]'))), off)
            elif p[0] == 'lv':
                st.bind[key] = binds[p[1]]; st.names[(fr.id, d.get('name'))] = binds[p[1]]; continue
            elif p[0] == 'fnp': v = FnC(p[1])
            else: v = Opaque(d.get('name'))
            k = self.newkey(d.get('name') or 'p'); st.vars[k] = v; st.bind[key] = LV(k); st.names[(fr.id, d.get('name'))] = LV(k)
            if int_type(tstr(d)) and int_type(tstr(d))[1]: self.unsigned.add(k)
        for g, sh in c.ghosts.items():
            st.vars['gh:' + g] = mk(sh, g, facts) if isinstance(sh, tuple) else fresh(g, sh); binds[g] = LV('gh:' + g)
        for f in facts: st.assume(f)
        fr.pre = st.copy(); fr.binds = binds
        e = Env(self, st, binds, fr, Env(self, fr.pre, binds, fr))
        for r in c.requires:
            lab, r = r if isinstance(r, tuple) else ('requires', r)
            st.assume(r(e))
        for h in c.hints: self.check(st, 'hint', fn, h(e), 'intermediate assertion')
        fr.pre.pc = list(st.pc)
        self.pre_pc = list(st.pc)
        self.measure0 = c.decreases(e) if c.decreases else None
        self.number_loops(fr, fn)
        n_exp = len(fr.loops)
        if any(n_exp <= k < 100 for k in c.loops): raise Detached(f"{c.name}: the contract describes loop {max(k for k in c.loops if k < 100)}, the function has {n_exp} loops")
        outs = []
        starts = [st]; fr.vbinds = binds
        if fn['kind'] == 'CXXConstructorDecl':
            starts = self.ctor_inits(fn, st, fr)
        for s0 in starts:
            for s, sig in self.stmt(clangast.body(fn), s0, fr):
                if sig is None or sig == 'next': outs.append((s, None))
                elif isinstance(sig, tuple) and sig[0] == 'ret': outs.append((s, sig[1]))
                elif sig == 'throw':
                    # an exception leaves the function: only where the contract says so
                    e1 = Env(self, fr.pre, binds, fr)
                    self.check(s, 'throws only where documented', fn, c.throws(e1) if c.throws else z3.BoolVal(False), 'the function does not throw' if not c.throws else 'throws only on the documented condition')
                else: raise Unsupported('stray ' + str(sig))
        for s, v in outs:
            res = v
            if isinstance(v, LV): res = self.load(s, v)
            e = Env(self, s, binds, fr, Env(self, fr.pre, binds, fr), res)
            for g, (sh, w) in c.gres.items():     # witnesses: named values of the body that the postcondition speaks about
                s.vars['gh:' + g] = w(e); binds[g] = LV('gh:' + g)
            self.ghost_set(s, c, e)
            for h in c.at_return: self.check(s, 'assertion at return', fn, h(e), 'intermediate assertion')
            if c.throws: self.check(s, 'ensures refuses the documented inputs', fn, Not(c.throws(Env(self, fr.pre, binds, fr))), 'the documented inputs are refused')
            for lab, q in c.ensures: self.check(s, 'ensures ' + lab, fn, q(e), lab)
            # frame: ghosts and objects that are not declared as changed keep their value
            for g in c.ghosts:
                if g in c.ghost_update or g in c.ghost_mod: continue
                a, b = fr.pre.vars['gh:' + g], s.vars['gh:' + g]
                if not teq(a, b): self.oblige(s, f'frame ghost {g} unchanged', fn, equal(a, b), f'ghost {g} is not modified')
            for o in list(c.objs) + [p[1] for p in c.params if p[0] == 'ob']:
                if o in c.modifies: continue
                a, b = fr.pre.vars['ob:' + o], s.vars['ob:' + o]
                fm = [m.split('.')[1] for m in c.modifies if m.startswith(o + '.')]
                if fm:
                    for k in a.f:
                        if k not in fm and not teq(a.f[k], b.f[k]): self.oblige(s, f'frame {o}.{k} unchanged', fn, equal(a.f[k], b.f[k]), f'{o}.{k} is not modified')
                    continue
                if not teq(a, b): self.oblige(s, f'frame {o} unchanged', fn, equal(a, b), f'{o} is not modified')
            if fr.this is not None and 'this' not in c.modifies and not c.this_in:
                a, b = fr.pre.vars['this'], s.vars['this']
                for k in a.f:
                    if 'this.' + k in c.modifies: continue
                    if not teq(a.f[k], b.f[k]): self.oblige(s, f'frame this.{k} unchanged', fn, equal(a.f[k], b.f[k]), f'member {k} is not modified')
        return outs
    def ghost_set(self, s, c, e):
        new = []
        for g, f in c.ghost_update.items():
            x = f(e)
            if isinstance(x, Def):
                old = s.vars['gh:' + g]; a = fresh('gh.' + g, old.sort()); k = z3.Int('k?gh' + str(Names.n))
                v = x.f(k)
                s.assume(z3.ForAll([k], a[k] == v, patterns=[a[k]])); x = a
            elif is_t(x) and z3.is_array(x) and not z3.is_const(x): a = fresh('gh.' + g, x.sort()); s.assume(a == x); x = a
            new.append((g, x))
        for g, x in new: s.vars['gh:' + g] = x
    def ctor_inits(self, fn, st, fr):
        cur = [st]
        for n in fn.get('inner', []):
            if n.get('kind') != 'CXXCtorInitializer': continue
            a = n.get('anyInit')
            nxt = []
            if a is None:   # base or delegating constructor: runs on this object
                x = n['inner'][0]
                while x.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'): x = x['inner'][0]
                if x.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): raise Unsupported('base initialiser')
                for s in cur: nxt += [s2 for s2, _ in self.x_CXXConstructExpr(x, s, fr, into=fr.this)]
                cur = nxt; continue
            for s in cur:
                isr = any(a.get('type', {}).get(k, '').rstrip().endswith('&') for k in ('qualType', 'desugaredQualType')); x0 = n['inner'][0]
                while isr and x0.get('kind') in ('InitListExpr', 'ExprWithCleanups') and len(x0.get('inner', [])) == 1: x0 = x0['inner'][0]
                if x0.get('kind') == 'CXXDefaultInitExpr':     # the default initialiser of the member
                    fd = [x for x in self.fields(fn.get('_rec') or {}) if x['name'] == a['name'] and x.get('inner')]
                    if not fd: raise Unsupported('default member initialiser')
                    x0 = fd[0]['inner'][0]
                sh = (self.root.c.shapes if self.root and self.root.c else {}).get(((fn.get('_rec') or {}).get('name') or '') + '.' + a['name'])
                if sh is not None and sh[0] in ('map', 'set', 'set2', 'pq') and self.default_constructed(x0): self.store(s, LV('this' if fr.this is None else fr.this.root, (fr.this.path if fr.this else ()) + (('f', a['name']),)), default(sh)); nxt.append(s); continue
                for s2, v in self.expr(x0, s, fr):
                    if isr and isinstance(v, LV) and v.path and v.path[-1][0] == 'i': v = It(LV(v.root, v.path[:-1]), v.path[-1][1])   # a member of reference type
                    self.store(s2, LV('this' if fr.this is None else fr.this.root, (fr.this.path if fr.this else ()) + (('f', a['name']),)), self.rv(s2, v)); nxt.append(s2)
            cur = nxt
        return cur
    @staticmethod
    def default_constructed(x):
        """a container constructed from nothing (or, a queue, from its comparator)"""
        while x.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'InitListExpr') and len(x.get('inner', [])) == 1: x = x['inner'][0]
        if x.get('kind') == 'InitListExpr': return not x.get('inner')
        if x.get('kind') != 'CXXConstructExpr': return False
        a = [y for y in x.get('inner', []) if y.get('kind') != 'CXXDefaultArgExpr']
        return not a or (len(a) == 1 and any(y.get('kind') == 'DeclRefExpr' and 'comparator' in (y.get('referencedDecl') or {}).get('name', '') for y in clangast.walk(a[0])))
    def number_loops(self, fr, fn, k=0):
        def rec(n):
            nonlocal k
            if not isinstance(n, dict) or n.get('kind') == 'LambdaExpr': return
            if n.get('kind') in LOOPS and not literal_range(n): fr.loops[n['id']] = k; k += 1
            for c in n.get('inner', []): rec(c)
        rec(clangast.body(fn) or {})

    @staticmethod
    def loop_signature(fn):
        """the shape of the loops of a function: kind, declared counter, direction, nesting -- not their bodies, bounds or guards"""
        out = []
        def op_name(x): return next((y['referencedDecl'].get('name') for y in clangast.walk(x) if y.get('kind') == 'DeclRefExpr'), '')
        def base(x):
            while isinstance(x, dict):
                if x.get('kind') == 'DeclRefExpr': return x['referencedDecl'] if x['referencedDecl'].get('kind') == 'VarDecl' else None
                ins = [y for y in x.get('inner', []) if isinstance(y, dict) and y.get('kind')]
                if not ins: return None
                x = ins[1] if x['kind'] == 'CXXOperatorCallExpr' and len(ins) > 1 else ins[0]
            return None
        def carried(n):
            """the local variables declared outside the loop that it writes"""
            own = {x['id'] for x in clangast.walk(n) if x.get('kind') == 'VarDecl'}; got = set()
            for x in clangast.walk(n):
                k = x.get('kind'); ins = [y for y in x.get('inner', []) if isinstance(y, dict) and y.get('kind')]; t = None
                if k in ('BinaryOperator', 'CompoundAssignOperator') and x.get('opcode', '').endswith('=') and x.get('opcode') not in ('==', '!=', '<=', '>='): t = ins[0]
                elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'): t = ins[0]
                elif k == 'CXXOperatorCallExpr' and len(ins) > 1 and op_name(ins[0]) in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--'): t = ins[1]
                elif k == 'CXXMemberCallExpr' and ins and ins[0].get('name') in ('emplace_back', 'push_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'assign', 'update'): t = ins[0]
                d = base(t) if t else None
                if d is not None and d.get('id') not in own: got.add(d.get('name', ''))
            return got
        def rec(n, depth):
            if not isinstance(n, dict) or n.get('kind') == 'LambdaExpr': return
            if n.get('kind') in LOOPS and not literal_range(n):
                inner = n.get('inner', []); ctr = ''; down = ''
                if n['kind'] == 'ForStmt':
                    if inner[0] and inner[0].get('kind') == 'DeclStmt': ctr = inner[0]['inner'][0].get('name', '')
                    for part in (inner[2], inner[3]):
                        if part and any(x.get('opcode') in ('--', '-=') for x in clangast.walk(part)): down = ' down'
                out.append([f"{depth}:{n['kind']} {ctr}{down}", sorted(carried(n))]); depth += 1
            for c in n.get('inner', []): rec(c, depth)
        rec(clangast.body(fn) or {}, 0)
        return out

    # ------------------------------------------------------------------ statements: [(state, signal)]
    def stmts(self, nodes, st, fr):
        cur = [st]; done = []
        for n in nodes:
            nxt = []
            for s in cur:
                for s2, sig in self.stmt(n, s, fr):
                    (nxt if sig == 'next' else done).append(s2 if sig == 'next' else (s2, sig))
            cur = nxt
            if len(cur) > 400: raise Unsupported('too many paths')
        return [(s, 'next') for s in cur] + done
    def stmt(self, n, st, fr):
        if not n or 'kind' not in n: return [(st, 'next')]
        k = n['kind']
        if k == 'CompoundStmt': return self.stmts(n.get('inner', []), st, fr)
        if k == 'DeclStmt':
            cur = [st]
            for d in n.get('inner', []):
                nxt = []
                for s in cur: nxt += self.decl(d, s, fr)
                cur = nxt
            return [(s, 'next') for s in cur]
        if k == 'IfStmt': return self.if_(n, st, fr)
        if k in LOOPS: return self.loop(n, st, fr)
        if k == 'ReturnStmt':
            if not n.get('inner'): return [(st, ('ret', None))]
            return [(s, ('ret', v)) for s, v in self.expr(n['inner'][0], st, fr)]
        if k == 'BreakStmt': return [(st, 'break')]
        if k == 'ContinueStmt': return [(st, 'continue')]
        if k in ('NullStmt',): return [(st, 'next')]
        if k == 'AttributedStmt': return self.stmt(n['inner'][-1], st, fr)
        out = []
        for s, v in self.expr(n, st, fr): out.append((s, 'throw' if v is THROW else 'next'))
        return out
    def decl(self, d, st, fr):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'CXXRecordDecl', 'NamespaceAliasDecl'): return [st]
        if k == 'VarDecl':
            init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
            key = (fr.id, d['id'])
            if not init:
                v = mk(self.shape_of(tstr(d)), d.get('name', 'v'), [])
                kk = self.newkey(d.get('name', 'v')); st.vars[kk] = v; st.bind[key] = LV(kk); st.names[(fr.id, d.get('name'))] = LV(kk)
                return [st]
            out = []
            for s, v in self.expr(init[0], st, fr):
                if is_ref(d) and isinstance(v, LV): lv = v
                else:
                    v = self.rv(s, v)
                    kk = self.newkey(d.get('name', 'v')); s.vars[kk] = v; lv = LV(kk)
                    it = int_type(tstr(d))
                    if it and it[1]: self.unsigned.add(kk)
                s.bind[key] = lv; s.names[(fr.id, d.get('name'))] = lv; out.append(s)
            return out
        if k == 'DecompositionDecl':
            inner = d.get('inner', []); binds = [c for c in inner if c.get('kind') == 'BindingDecl']; init = [c for c in inner if c.get('kind') not in ('BindingDecl',) and not c['kind'].endswith('Attr')]
            out = []
            for s, v in self.expr(init[0], st, fr):
                if is_ref(d) and isinstance(v, LV): lv = v
                else: kk = self.newkey('decomp'); s.vars[kk] = self.rv(s, v); lv = LV(kk)
                o = self.load(s, lv)
                if not isinstance(o, SV): raise Unsupported('structured binding')
                fs = list(o.f)
                for b, f in zip(binds, fs): s.bind[(fr.id, b['id'])] = lv.f(f); s.names[(fr.id, b.get('name'))] = lv.f(f)
                out.append(s)
            return out
        raise Unsupported('declaration ' + k)
    def if_(self, n, st, fr):
        inner = [c for c in n.get('inner', [])]
        pre = []
        if n.get('hasInit'): pre.append(inner.pop(0))
        if n.get('hasVar'): pre.append(inner.pop(0))
        cur = [st]
        for p in pre: cur = [s2 for s in cur for s2, _ in self.stmt(p, s, fr)]
        cond, then = inner[0], inner[1] if len(inner) > 1 else None
        els = inner[2] if len(inner) > 2 else None
        out = []
        for s in cur:
            for s2, c in self.expr(cond, s, fr):
                c = self.cond(s2, c)
                for s3, br in self.branch(s2, c):
                    body = then if br else els
                    out += self.stmt(body, s3, fr) if body else [(s3, 'next')]
        return out
    def cond(self, st, v):
        v = self.rv(st, v)
        if isinstance(v, Opt): return v.has
        if v is NULL: return BoolVal(False)
        if isinstance(v, It): return v.idx >= 0
        if isinstance(v, Ptr): return BoolVal(True)
        if is_t(v): return coerce(v, Bool_)
        raise Unsupported('condition of kind ' + type(v).__name__)
    def branch(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        nc = z3.simplify(Not(c))
        ids = {z3.simplify(f).get_id() for f in st.pc[-40:] if not z3.is_quantifier(f)}
        if c.get_id() in ids: return [(st, True)]
        if nc.get_id() in ids: return [(st, False)]
        a, b = st, st.copy()
        a.assume(c); b.assume(nc)
        return [(a, True), (b, False)]

    # ------------------------------------------------------------------ loops
    def loop(self, n, st, fr):
        k = n['kind']; ordn = fr.loops.get(n['id'])
        if literal_range(n): return self.literal_for(n, st, fr)
        spec = fr.c.loops.get(ordn) if fr.c else None
        if spec is None: raise Detached(f'loop {ordn} of {fr.fn.get("name")} has no invariant')
        inner = n.get('inner', [])
        ctr = None
        if k == 'ForStmt':
            init, condvar, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
            starts = [s for s, _ in self.stmt(init, st, fr)] if init and 'kind' in init else [st]
            def counter(s):
                d = None
                if init and init.get('kind') == 'DeclStmt': d = init['inner'][0]['id']
                elif inc and 'kind' in inc:
                    for x in clangast.walk(inc):
                        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'): d = x['referencedDecl']['id']; break
                return s.bind.get((fr.id, d))
        elif k == 'WhileStmt':
            cond, body, inc = inner[-2], inner[-1], None; starts = [st]; counter = lambda s: None
        elif k == 'DoStmt':
            body, cond, inc = inner[0], inner[1], None; starts = [st]; counter = lambda s: None
        else:
            return self.range_for(n, st, fr, spec, ordn)
        out = []
        for s in starts:
            out += self.cut_loop(n, s, fr, spec, ordn, counter(s), cond if cond and 'kind' in cond else None, body, inc if inc and 'kind' in inc else None, k == 'DoStmt')
        return out
    def literal_for(self, n, st, fr):
        inner = n['inner']; rinit = inner[1]['inner'][0]['inner'][0]; var = inner[6]['inner'][0]; body = inner[7]; done = []; cur = []
        for s, r in self.expr(rinit, st, fr):
            if not (isinstance(r, tuple) and r[0] == 'initlist'): raise Unsupported('range-for over ' + str(type(r)))
            cur.append((s, [self.rv(s, x) for x in r[1]]))
        for s, vs in cur:
            live = [s]
            for v in vs:
                nx = []
                for s2 in live:
                    lv = self.temp(s2, v, var.get('name', 'v')); s2.bind[(fr.id, var['id'])] = lv; s2.names[(fr.id, var.get('name'))] = lv
                    for s3, sig in self.stmt(body, s2, fr):
                        if sig in ('next', 'continue'): nx.append(s3)
                        elif sig == 'break': done.append((s3, 'next'))
                        else: done.append((s3, sig))
                live = nx
            done += [(s2, 'next') for s2 in live]
        return done
    def range_for(self, n, st, fr, spec, ordn):
        inner = n['inner']
        rng = inner[1]['inner'][0]; var = inner[6]['inner'][0]; body = inner[7]
        rinit = rng['inner'][0]
        out = []
        for s, r in self.expr(rinit, st, fr):
            r = self.lv_of(s, r); s.names[(fr.id, '__range')] = r
            first, last = IntVal(0), None
            keys = None
            if isinstance(self.load(s, r), SV) and self.load(s, r).cls != 'map':
                # a class with begin() and end()
                s.bind[(fr.id, rng['id'])] = r
                ends = []
                for d in (inner[2], inner[3]):
                    vs = self.expr(d['inner'][0]['inner'][0], s, fr)
                    if len(vs) != 1: raise Unsupported('range-for: begin() or end() branches')
                    s, v = vs[0]
                    ends.append(v if isinstance(v, It) else self.load(s, v))
                if not all(isinstance(v, It) for v in ends): raise Unsupported('range-for over a class without sequence iterators')
                if ends[0].lv.path and ends[0].lv.path[-1] == ('f', '[map]'):
                    if not (getattr(ends[0], 'first', False) and ends[1].idx.eq(IntVal(-1))): raise Unsupported('range-for over a part of a map')
                    r = LV(ends[0].lv.root, ends[0].lv.path[:-1]); s.names[(fr.id, '__range')] = r
                else: r, first, last = ends[0].lv, ends[0].idx, ends[1].idx
            if isinstance(self.load(s, r), SV) and self.load(s, r).cls == 'map':
                # the keys in some order
                has = self.load(s, r).f['has']; K, pos, cnt = fresh('keys', AI(Int_)), fresh('position', AI(Int_)), fresh('count', Int_)
                i = z3.Int('i?mk'); s.assume(cnt >= 0)
                s.assume(z3.ForAll([i], Implies(And(0 <= i, i < cnt), And(has[K[i]], pos[K[i]] == i)), patterns=[K[i]]))
                s.assume(z3.ForAll([i], Implies(has[i], And(0 <= pos[i], pos[i] < cnt, K[pos[i]] == i)), patterns=[has[i], pos[i]]))
                keys, last = K, cnt
                k2 = self.newkey('mk'); s.vars[k2] = VV(K, cnt); s.names[(fr.id, f'__keys{ordn}')] = LV(k2)
                k2 = self.newkey('mk'); s.vars[k2] = VV(pos, cnt); s.names[(fr.id, f'__pos{ordn}')] = LV(k2)
            if keys is None and not isinstance(self.load(s, r), VV): raise Unsupported('range-for over a ' + type(self.load(s, r)).__name__)
            kk = self.newkey('__ctr'); s.vars[kk] = first; clv = LV(kk); self.unsigned.add(kk)
            def cond(s2, r=r, kk=kk, last=last): return s2.vars[kk] < (self.load(s2, r).len if last is None else last)
            def pre(s2, r=r, keys=keys, kk=kk):
                if keys is not None: el = self.temp(s2, SV({'0': keys[s2.vars[kk]], '1': r.f('val').i(keys[s2.vars[kk]])}, 'mapelement'))
                else: el = r.i(s2.vars[kk])
                if is_ref(var) or var['kind'] == 'DecompositionDecl' and is_ref(var): lv = el
                else: q = self.newkey(var.get('name', 'v')); s2.vars[q] = self.load(s2, el); lv = LV(q)
                if var['kind'] == 'DecompositionDecl':
                    o = self.load(s2, lv); bs = [c for c in var.get('inner', []) if c.get('kind') == 'BindingDecl']
                    for b, f in zip(bs, list(o.f)): s2.bind[(fr.id, b['id'])] = lv.f(f); s2.names[(fr.id, b.get('name'))] = lv.f(f)
                else: s2.bind[(fr.id, var['id'])] = lv; s2.names[(fr.id, var.get('name'))] = lv
            def inc(s2): s2.vars[kk] = s2.vars[kk] + 1
            out += self.cut_loop(n, s, fr, spec, ordn, clv, cond, body, inc, False, pre)
        return out
    def env(self, st, fr):
        b = getattr(fr, 'binds', {})
        return Env(self, st, b, fr, Env(self, fr.pre, b, fr) if fr.pre else None, None, list(fr.loopstack))
    def invs(self, spec, st, fr):
        e = self.env(st, fr)
        for j, f in enumerate(spec.inv):
            lab, f = f if isinstance(f, tuple) else (f'invariant {j}', f)
            yield lab, f(e)
    def cut_loop(self, n, st, fr, spec, ordn, ctr, cond, body, inc, do, pre=None):
        fr.loopstack.append(ctr)
        try:
            itk = f'it:{fr.id}:{ordn}'; st.vars[itk] = IntVal(0)      # ghost: number of completed iterations
            for g, (sort, init, upd) in (spec.ghost or {}).items(): st.vars['lg:' + g] = self.ghost_value(st, sort, init(self.env(st, fr)))
            entry = st.copy()
            fr_entry = getattr(fr, 'entries', None)
            if fr_entry is None: fr.entries = {}
            fr.entries[ordn] = entry
            for lab, f in self.invs(spec, st, fr): self.check(st, f'loop {ordn} {lab} on entry', n, f, lab)
            # what one iteration may write, to a fixpoint
            mod = self.modified(n, st, fr, cond, body, inc, do, pre)
            h = st.copy()
            self.havoc(h, mod, st)
            h.vars[itk] = fresh('iteration', Int_); h.assume(h.vars[itk] >= 0)
            for g, (sort, init, upd) in (spec.ghost or {}).items(): h.vars['lg:' + g] = fresh('h.' + g, sort)
            for lab, f in self.invs(spec, h, fr): h.assume(f)
            if getattr(fr, 'heads', None) is None: fr.heads = {}
            fr.heads[ordn] = h.copy()
            for q in spec.hints: self.check(h, f'loop {ordn} assertion', n, q(self.env(h, fr)), 'intermediate assertion')
            m0 = spec.decreases(self.env(h, fr)) if spec.decreases else None
            out = []
            def check_inv(s):
                s.vars[itk] = s.vars[itk] + 1
                new = {g: self.ghost_value(s, sort, upd(self.env(s, fr))) for g, (sort, init, upd) in (spec.ghost or {}).items()}
                for g, v in new.items(): s.vars['lg:' + g] = v
                for q in spec.end_hints: self.check(s, f'loop {ordn} assertion at the end of the body', n, q(self.env(s, fr)), 'intermediate assertion')
                for lab, f in self.invs(spec, s, fr): self.check(s, f'loop {ordn} {lab} preserved', n, f, lab)
                if m0 is not None:
                    m1 = spec.decreases(self.env(s, fr))
                    self.oblige(s, f'loop {ordn} variant', n, And(m0 >= 0, m1 < m0), 'the loop terminates')
            def run_body(s):
                """-> normal-continuation states; pushes the others to out"""
                nx = []
                if pre: pre(s)
                for s2, sig in self.stmt(body, s, fr):
                    if sig in ('next', 'continue'):
                        if callable(inc): inc(s2); nx.append(s2)
                        elif inc is not None: nx += [s3 for s3, _ in self.expr(inc, s2, fr)]
                        else: nx.append(s2)
                    elif sig == 'break': out.append((s2, 'next'))
                    else: out.append((s2, sig))
                return nx
            def test(s):
                if cond is None: return [(s, True)]
                if callable(cond): return self.branch(s, cond(s))
                r = []
                for s2, c in self.expr(cond, s, fr): r += self.branch(s2, self.cond(s2, c))
                return r
            if do:
                # invariant holds at the start of the body
                for s in run_body(h):
                    for s2, go in test(s):
                        if go: check_inv(s2)
                        else: out.append((s2, 'next'))
            else:
                for s, go in test(h):
                    if go:
                        for s2 in run_body(s): check_inv(s2)
                    else: out.append((s, 'next'))
        finally:
            fr.loopstack.pop()
        for s, sig in out:
            if sig == 'next':
                for q in spec.exit_hints: self.check(s, f'loop {ordn} assertion at exit', n, q(self.env(s, fr)), 'intermediate assertion')
        return out
    def ghost_value(self, s, sort, x):
        if not isinstance(x, Def): return x
        a = fresh('lg', sort); k = z3.Int('k?lg' + str(Names.n))
        s.assume(z3.ForAll([k], a[k] == x.f(k), patterns=[a[k]]))
        return a
    def modified(self, n, st, fr, cond, body, inc, do, pre):
        """set of (root, leafpath) that an iteration changes"""
        mod = set()
        for _ in range(8):
            h = st.copy(); self.havoc(h, mod, st)
            base = dict(h.vars)
            self.muted += 1
            saved = Names.n
            try:
                res = []
                ss = [h]
                def tst(s):
                    if cond is None: return [s]
                    if callable(cond): s.assume(cond(s)); return [s]
                    r = []
                    for s2, c in self.expr(cond, s, fr):
                        r += [s3 for s3, b in self.branch(s2, self.cond(s2, c)) if b]
                    return r
                if not do: ss = tst(h)
                for s in ss:
                    if pre: pre(s)
                    for s2, sig in self.stmt(body, s, fr):
                        if sig in ('next', 'continue'):
                            if callable(inc): inc(s2); res.append(s2)
                            elif inc is not None: res += [x for x, _ in self.expr(inc, s2, fr)]
                            else: res.append(s2)
                        else: res.append(s2)
                if do: res += [x for s in list(res) for x in tst(s.copy())]
            finally:
                self.muted -= 1
            new = set()
            for s in res:
                for root, v in base.items():
                    if root in s.vars and s.vars[root] is not v: self.diff(root, (), v, s.vars[root], new)
            if new <= mod: return mod
            mod |= new
        raise Unsupported('loop write set does not stabilise')
    def diff(self, root, path, a, b, out):
        if is_t(a) and is_t(b):
            if not a.eq(b): out.add((root, path))
        elif isinstance(a, SV) and isinstance(b, SV):
            for k in a.f: self.diff(root, path + (k,), a.f[k], b.f[k], out)
        elif isinstance(a, VV) and isinstance(b, VV):
            self.diff(root, path + ('#el',), a.el, b.el, out); self.diff(root, path + ('#len',), a.len, b.len, out)
        elif isinstance(a, Opt) and isinstance(b, Opt):
            self.diff(root, path + ('#has',), a.has, b.has, out); self.diff(root, path + ('#val',), a.val, b.val, out)
        elif isinstance(a, It) and isinstance(b, It):
            if not a.lv.same(b.lv): raise Unsupported('iterator moved to another container in a loop')
            self.diff(root, path + ('#idx',), a.idx, b.idx, out)
        elif teq(a, b): return
        else: raise Unsupported('object changes its kind in a loop')
    def havoc(self, st, mod, orig):
        for root, path in sorted(mod, key=str):
            def rec(v, p):
                if not p:
                    if is_t(v):
                        c = fresh('h.' + str(root).split('#')[0].replace('ob:', '') + '.'.join(str(x) for x in path).replace('#', ''), v.sort())
                        if root in self.unsigned and v.sort() == Int_: st.assume(c >= 0)
                        if path and path[-1] == '#len' and v.sort() == Int_: st.assume(c >= 0)
                        return c
                    raise Unsupported('havoc')
                k = p[0]
                if isinstance(v, SV): f = dict(v.f); f[k] = rec(v.f[k], p[1:]); return SV(f, v.cls)
                if isinstance(v, VV): return VV(rec(v.el, p[1:]), v.len) if k == '#el' else VV(v.el, rec(v.len, p[1:]))
                if isinstance(v, Opt): return Opt(rec(v.has, p[1:]), v.val) if k == '#has' else Opt(v.has, rec(v.val, p[1:]))
                if isinstance(v, It): return It(v.lv, rec(v.idx, p[1:]))
                raise Unsupported('havoc')
            st.vars[root] = rec(st.vars[root], path)

    # ------------------------------------------------------------------ expressions: [(state, value)], value may be an LV
    def exprs(self, nodes, st, fr):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.expr(n, s, fr): nxt.append((s2, vs + [v]))
            cur = nxt
        return cur
    def expr(self, n, st, fr):
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, st, fr)
    def _pass(self, n, st, fr): return self.expr(n['inner'][0], st, fr)
    x_ParenExpr = x_MaterializeTemporaryExpr = x_ExprWithCleanups = x_CXXBindTemporaryExpr = _pass
    def x_ConstantExpr(self, n, st, fr):
        v = n.get('value')
        if v in ('true', 'false'): return [(st, BoolVal(v == 'true'))]
        if v is not None and re.fullmatch(r'-?\d+', str(v)): return [(st, IntVal(int(v)))]
        return self._pass(n, st, fr)
    def x_SubstNonTypeTemplateParmExpr(self, n, st, fr): return self.expr(n['inner'][-1], st, fr)
    def x_IntegerLiteral(self, n, st, fr): return [(st, IntVal(int(n['value'])))]
    def x_FloatingLiteral(self, n, st, fr): return [(st, RealVal(n['value']))]
    def x_CXXBoolLiteralExpr(self, n, st, fr): return [(st, BoolVal(bool(n['value'])))]
    def x_CharacterLiteral(self, n, st, fr): return [(st, IntVal(int(n['value'])))]
    def x_StringLiteral(self, n, st, fr): return [(st, Opaque('str'))]
    def x_PredefinedExpr(self, n, st, fr): return [(st, Opaque('str'))]
    def x_CXXNullPtrLiteralExpr(self, n, st, fr): return [(st, NULL)]
    def x_CXXThisExpr(self, n, st, fr):
        if fr.this is None: raise Unsupported('this')
        return [(st, self.addr(fr.this))]
    def addr(self, lv):
        if lv.path and lv.path[-1][0] == 'i': return It(LV(lv.root, lv.path[:-1]), lv.path[-1][1])
        return Ptr(lv)
    def x_CXXThrowExpr(self, n, st, fr): return [(st, THROW)]
    def x_UnaryExprOrTypeTraitExpr(self, n, st, fr): return [(st, fresh('sizeof', Int_))]
    def x_TypeTraitExpr(self, n, st, fr): return [(st, BoolVal(bool(n.get('value'))))]
    def x_CXXScalarValueInitExpr(self, n, st, fr): return [(st, default(self.shape_of(tstr(n))))]
    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr
    def x_LambdaExpr(self, n, st, fr):
        lam = Lam(n, fr, fr.this); lam.caps = {}
        rec = next((c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl'), None)
        fs = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl'] if rec else []
        inits = [c for c in n['inner'] if c.get('kind') not in ('CXXRecordDecl', 'CompoundStmt')]
        if len(fs) != len(inits): return [(st, lam)]
        for f, i in zip(fs, inits):
            x = i
            while x.get('kind') in ('ImplicitCastExpr', 'InitListExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and x.get('inner'): x = x['inner'][0]
            ref = tstr(f).rstrip().endswith('&')
            if x.get('kind') == 'CXXThisExpr': continue
            name = self.token(n['_file'], f.get('loc') or {})
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('name') == name:
                if ref: continue          # by reference: resolved through the enclosing frame
                rid = x['referencedDecl']['id']
            else:
                ids = {y['referencedDecl']['id'] for y in clangast.walk(n) if y.get('kind') == 'DeclRefExpr' and y['referencedDecl'].get('kind') == 'VarDecl' and y['referencedDecl'].get('name') == name}
                if not ids: continue
                if len(ids) > 1 or not name: raise Unsupported('lambda capture')
                rid = ids.pop()
            rs = self.expr(i, st, fr)
            if len(rs) != 1: raise Unsupported('branching lambda capture')
            st, v = rs[0]
            lam.caps[rid] = v if ref and isinstance(v, LV) else self.temp(st, self.rv(st, v), 'cap')
        return [(st, lam)]
    def token(self, file, loc):
        loc = loc.get('spellingLoc', loc)
        try:
            with open(file, 'rb') as h: b = h.read()
            return b[loc['offset']:loc['offset'] + loc['tokLen']].decode()
        except Exception: return None
    def text(self, n, fr):
        """the source text of an expression"""
        try:
            b, e = (n['range'][k].get('spellingLoc', n['range'][k]) for k in ('begin', 'end'))
            with open(fr.fn['_file'], 'rb') as h: t = h.read()
            return t[b['offset']:e['offset'] + e['tokLen']].decode()
        except Exception: return None
    def alias(self, nm, fr):
        """the type a name stands for in the class of the function"""
        r = fr.fn.get('_rec') or {}
        for x in r.get('inner', []):
            if x.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and x.get('name') == nm: return tstr(x)
        return nm
    def x_DeclRefExpr(self, n, st, fr):
        r = n['referencedDecl']
        f = fr
        while f is not None:
            lv = st.bind.get((f.id, r['id']))
            if lv is not None: return [(st, lv)]
            f = getattr(f, 'parent', None)
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return [(st, ('fn', r))]
        if '_Placeholder' in tstr(n): return [(st, Placeholder(int(r['name'][1:])))]
        d = n['_map'].get(r['id'])
        if d is not None and d.get('kind') == 'VarDecl':
            init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
            if init: return self.expr(init[0], st, fr)
        if r['kind'] == 'EnumConstantDecl' and d is not None:
            for x in clangast.walk(d):
                if x.get('kind') == 'ConstantExpr' and 'value' in x: return [(st, IntVal(int(x['value'])))]
        b = self.builtins.constant(r.get('name'), tstr(n))
        if b is not None: return [(st, b)]
        if r['kind'] == 'VarDecl' and r.get('name') in ('cout', 'cerr', 'clog') and 'ostream' in str(r.get('type', {})): return [(st, Opaque('ostream'))]      # text output: no effect on the program's state
        raise Unsupported(f'reference to {r["kind"]} {r.get("name")}')
    def x_MemberExpr(self, n, st, fr):
        out = []
        base = n.get('inner', [None])[0]
        for s, b in self.expr(base, st, fr):
            d = n['_map'].get(n.get('referencedMemberDecl'))
            if d is not None and d.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'CXXConversionDecl'):
                if n.get('isArrow'):
                    v = self.rv(s, b)
                    if isinstance(v, Ptr): b = v.lv
                    elif isinstance(v, It): b = v.lv.i(v.idx)
                out.append((s, ('method', d, b))); continue
            nm = n['name']
            if n.get('isArrow'):
                v = self.rv(s, b)
                if isinstance(v, Ptr): b = v.lv
                elif isinstance(v, It): b = v.lv.i(v.idx)
                elif isinstance(v, LV): b = v
                elif isinstance(v, SV): pass
                elif isinstance(b, LV) and isinstance(v, SV): pass
            if isinstance(b, LV):
                v = self.load(s, b)
                if isinstance(v, Opt) and n.get('isArrow'): b = b.f('val'); v = v.val
                if isinstance(v, SV):
                    nm2 = {'first': '0', 'second': '1'}.get(nm, nm) if nm not in v.f else nm
                    if nm2 in v.f:
                        x = v.f[nm2]
                        if isinstance(x, It) and d is not None and is_ref(d): x = x.lv.i(x.idx)     # a member of reference type
                        out.append((s, x if isinstance(x, LV) else b.f(nm2))); continue
                out.append((s, ('method', {'name': nm}, b))); continue
            if isinstance(b, SV):
                nm2 = {'first': '0', 'second': '1'}.get(nm, nm) if nm not in b.f else nm
                if nm2 in b.f: out.append((s, b.f[nm2])); continue
            out.append((s, ('method', {'name': nm}, b)))
        return out
    def x_ImplicitCastExpr(self, n, st, fr):
        ck = n['castKind']; t = tstr(n)
        out = []
        for s, v in self.expr(n['inner'][0], st, fr):
            if ck == 'LValueToRValue':
                v = self.rv(s, v); it = int_type(t)
                if it and it[1] and is_t(v) and v.sort() == Int_ and not z3.is_int_value(v): s.assume(v >= 0)
                out.append((s, v))
            elif ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'FunctionToPointer', 'NonAtomicToAtomic'):
                out.append((s, v))
            elif ck == 'NullToPointer': out.append((s, NULL))
            elif ck == 'ToVoid': out.append((s, None))
            elif ck == 'PointerToBoolean':
                v = self.rv(s, v); out.append((s, self.cond(s, v) if not isinstance(v, Opaque) else BoolVal(True)))
            elif ck == 'BitCast': out.append((s, v))
            else:
                v = self.rv(s, v)
                if not is_t(v): raise Unsupported(f'cast {ck} of {type(v).__name__}')
                out.append((s, self.numcast(s, ck, v, n)))
        return out
    def numcast(self, s, ck, v, n):
        t = tstr(n)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return v != 0 if v.sort() != Bool_ else v
        if ck == 'IntegralToFloating': return coerce(v, Real_)
        if ck == 'FloatingCast':
            fw = {'float': 1, 'double': 2, 'long double': 3}; a, b = fw.get(strip(tstr(n['inner'][0]))), fw.get(strip(t))
            if a is None or b is None or b >= a: return v
            if z3.is_rational_value(v):
                q = v.as_fraction()
                if abs(q) <= 2**24 and q.denominator <= 2**24 and q.denominator & (q.denominator - 1) == 0 and abs(q.numerator) <= 2**24: return v
            return F32(v)
        if ck == 'FloatingToIntegral':
            w, u = int_type(t)
            if z3.is_rational_value(v) and v.denominator_as_long() == 1: return IntVal(v.numerator_as_long())
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
            return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == 'IntegralCast':
            src = int_type(tstr(n['inner'][0])) or ((1, True) if strip(tstr(n['inner'][0])) == 'bool' else None); dst = int_type(t)
            v = coerce(v, Int_)
            if dst is None or src is None: return v
            if z3.is_int_value(v) and v.as_long() >= 0: return v
            if dst[1] and not src[1]:   # signed to unsigned
                if self.root.c.wrap: return If(v >= 0, v, v + IntVal(2**dst[0]))
                self.check(s, 'no negative value converted to unsigned', n, v >= 0, 'conversion to an unsigned type preserves the value')
                return v
            if dst[0] < src[0]:
                self.assumptions.add(f'narrowing conversions to {strip(t)} do not truncate')
            return v
        raise Unsupported('cast ' + ck)
    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr
    def x_ConditionalOperator(self, n, st, fr):
        a, b, c = n['inner']
        # assert(): cond ? (void)0 : __assert_fail(...)
        fails = [x for x in (b, c) if any(y.get('kind') == 'DeclRefExpr' and (y.get('referencedDecl') or {}).get('name') == '__assert_fail' for y in clangast.walk(x))]
        out = []
        a0 = a
        while a0.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): a0 = a0['inner'][0]
        if a0.get('kind') == 'DeclRefExpr' and a0['referencedDecl'].get('name') == 'has_infinity':
            return self.expr(b if strip(tstr(n)) in REALS else c, st, fr)
        for s, v in self.expr(a, st, fr):
            v = self.cond(s, v)
            if fails:
                self.check(s, 'assertion in the code', n, v if fails[0] is c else Not(v), 'assert() holds'); out.append((s, None)); continue
            v = z3.simplify(v)
            if z3.is_true(v): out += self.expr(b, s, fr); continue
            if z3.is_false(v): out += self.expr(c, s, fr); continue
            s1, s2 = s.copy(), s.copy(); s1.assume(v); s2.assume(Not(v))
            r1, r2 = self.expr(b, s1, fr), self.expr(c, s2, fr)
            if len(r1) == 1 and len(r2) == 1 and self.same_store(s, r1[0][0]) and self.same_store(s, r2[0][0]) and r1[0][1] is not THROW and r2[0][1] is not THROW:
                x, y = self.rv(r1[0][0], r1[0][1]), self.rv(r2[0][0], r2[0][1])
                try:
                    if is_t(x) and is_t(y) and x.sort() != y.sort():
                        sort = Real_ if Real_ in (x.sort(), y.sort()) else Int_; x, y = coerce(x, sort), coerce(y, sort)
                    m = tmap2(lambda p, q: If(v, p, q), x, y)
                    for f in r1[0][0].pc[len(s.pc) + 1:]: s.assume(Implies(v, f))
                    for f in r2[0][0].pc[len(s.pc) + 1:]: s.assume(Implies(Not(v), f))
                    out.append((s, m)); continue
                except Unsupported: pass
            out += r1 + r2
        return out
    def same_store(self, a, b): return all(k in b.vars and b.vars[k] is v for k, v in a.vars.items())
    def x_BinaryOperator(self, n, st, fr):
        op = n['opcode']; L, R = n['inner']
        if op in ('&&', '||'):
            out = []
            for s, a in self.expr(L, st, fr):
                a = self.cond(s, a)
                sr = s.copy(); sr.assume(a if op == '&&' else Not(a))
                rr = self.expr(R, sr, fr)
                if len(rr) == 1 and self.same_store(s, rr[0][0]):
                    b = self.cond(rr[0][0], rr[0][1])
                    g = a if op == '&&' else Not(a)
                    base = len(s.pc) + (0 if z3.is_true(g) else 1)
                    for f in rr[0][0].pc[len(s.pc):]:
                        if f.eq(g): continue
                        s.assume(Implies(g, f))
                    out.append((s, And(a, b) if op == '&&' else Or(a, b)))
                else:
                    s2 = s.copy(); s2.assume(Not(a) if op == '&&' else a)
                    out.append((s2, BoolVal(op == '||')))
                    out += [(x, self.cond(x, y)) for x, y in rr]
            return out
        out = []
        if op == ',':
            return [(s, vs[1]) for s, vs in self.exprs([L, R], st, fr)]
        if op == '=':
            for s, (r, l) in self.exprs([R, L], st, fr):
                if not isinstance(l, LV): raise Unsupported('assignment to a non-lvalue')
                self.store(s, l, self.rv(s, r)); out.append((s, l))
            return out
        for s, (a, b) in self.exprs([L, R], st, fr):
            a, b = self.rv(s, a), self.rv(s, b)
            out.append((s, self.arith(s, op, a, b, n)))
        return out
    def arith(self, s, op, a, b, n):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('==', '!='): return BoolVal(a.lv.same(b.lv) == (op == '=='))
        if isinstance(a, It) or isinstance(b, It): return self.builtins.iter_op(self, s, op, a, b, n)
        if a is NULL or b is NULL:
            if op in ('==', '!='):
                o = b if a is NULL else a
                e = BoolVal(o is NULL) if not isinstance(o, Opt) else Not(o.has)
                return e if op == '==' else Not(e)
        if not (is_t(a) and is_t(b)): raise Unsupported(f'operator {op} on {type(a).__name__},{type(b).__name__}')
        if op in ('&', '|', '^') and a.sort() == Bool_: a, b = coerce(a, Bool_), coerce(b, Bool_); return {'&': And, '|': Or, '^': z3.Xor}[op](a, b)
        if a.sort() == Bool_ and b.sort() == Bool_ and op in ('==', '!='): return a == b if op == '==' else a != b
        if a.sort() == Bool_: a = coerce(a, Int_)
        if b.sort() == Bool_: b = coerce(b, Int_)
        if a.sort() != b.sort(): a, b = coerce(a, Real_), coerce(b, Real_)
        isint = a.sort() == Int_
        if op == '+': return a + b
        if op == '-':
            it = int_type(tstr(n))
            if isint and it and it[1] and not (z3.is_int_value(a) and z3.is_int_value(b)):
                if self.root.c.wrap: return If(a >= b, a - b, a - b + IntVal(2**it[0]))
                self.check(s, 'no unsigned wrap-around', n, a >= b, 'unsigned subtraction does not wrap around')
            return a - b
        if op == '*': return mul(a, b) if isint else a * b
        if op == '/':
            self.check(s, 'no division by zero', n, b != 0, 'divisor is not zero') if isint else None
            if not isint: return a / b
            it = int_type(tstr(n))
            if it and not it[1]: return If(a >= 0, div(a, b), -div(-a, b))
            return div(a, b)
        if op == '%':
            self.check(s, 'no division by zero', n, b != 0, 'divisor is not zero')
            return mod(a, b)
        c = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}.get(op)
        if c: return c()
        if op == '<<' and z3.is_int_value(b): return a * (2 ** b.as_long())
        if op == '>>' and z3.is_int_value(b): return a / (2 ** b.as_long())
        raise Unsupported('operator ' + op)
    def x_CompoundAssignOperator(self, n, st, fr):
        op = n['opcode'][:-1]; out = []
        for s, (l, r) in self.exprs(n['inner'], st, fr):
            a, b = self.rv(s, l), self.rv(s, r)
            v = self.arith(s, op, a, b, n)
            if is_t(v) and is_t(a) and a.sort() == Int_ and v.sort() == Real_: v = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            self.store(s, l, v); out.append((s, l))
        return out
    def x_UnaryOperator(self, n, st, fr):
        op = n['opcode']; out = []
        for s, v in self.expr(n['inner'][0], st, fr):
            if op in ('++', '--'):
                a = self.rv(s, v)
                one = RealVal(1) if is_t(a) and a.sort() == Real_ else IntVal(1)
                if isinstance(a, It): b = It(a.lv, a.idx + (1 if op == '++' else -1))
                else:
                    it = int_type(tstr(n))
                    if op == '--' and it and it[1] and not self.root.c.wrap: self.check(s, 'no unsigned wrap-around', n, a >= 1, 'unsigned decrement does not wrap around')
                    b = a + one if op == '++' else a - one
                self.store(s, v, b); out.append((s, a if n.get('isPostfix') else v))
            elif op == '!': out.append((s, Not(self.cond(s, v))))
            elif op == '-': out.append((s, -self.rv(s, v)))
            elif op == '+': out.append((s, self.rv(s, v)))
            elif op == '*':
                x = self.rv(s, v) if isinstance(v, LV) else v
                if isinstance(x, Ptr): out.append((s, x.lv))
                elif isinstance(x, It): self.in_bounds(s, x, x.idx, n); out.append((s, x.lv.i(x.idx)))
                elif isinstance(v, LV) and isinstance(x, SV): out.append((s, v))
                elif isinstance(x, Opt): out.append((s, v.f('val') if isinstance(v, LV) else x.val))
                else: raise Unsupported('dereference of ' + type(x).__name__)
            elif op == '&':
                out.append((s, self.addr(v) if isinstance(v, LV) else v))
            else: raise Unsupported('unary ' + op)
        return out
    def in_bounds(self, s, it_or_vec, idx, n):
        if not self.root.c.bounds: return
        v = self.load(s, it_or_vec.lv) if isinstance(it_or_vec, It) else it_or_vec
        if not isinstance(v, VV): return
        self.check(s, 'access within bounds', n, And(idx >= 0, idx < v.len), 'element access stays within the sequence')
    def x_ArraySubscriptExpr(self, n, st, fr):
        out = []
        for s, (b, i) in self.exprs(n['inner'], st, fr):
            out.append((s, self.index(s, b, self.rv(s, i), n)))
        return out
    def index(self, s, b, i, n):
        v = self.rv(s, b)
        if isinstance(v, It):
            self.in_bounds(s, v, v.idx + i, n)
            return v.lv.i(z3.simplify(v.idx + i) if z3.is_int_value(v.idx) else v.idx + i)
        if isinstance(v, VV):
            self.in_bounds(s, v, i, n)
            return b.i(i) if isinstance(b, LV) else sel(v.el, i)
        raise Unsupported('subscript of ' + type(v).__name__)

    # ------------------------------------------------------------------ calls
    def x_CallExpr(self, n, st, fr):
        callee = n['inner'][0]; args = n['inner'][1:]
        ref = callee
        while ref.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): ref = ref['inner'][0]
        if ref.get('kind') == 'DeclRefExpr':
            r = ref['referencedDecl']; name = r.get('name')
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                if name == 'ignore_parameters': return [(st, None)]
                d = self.u.resolve(r, n)
                return self.call(name, d, None, args, n, st, fr, ref)
            out = []
            for s, f in self.expr(callee, st, fr):
                for s2, vs in self.exprs(args, s, fr): out += self.apply(f, vs, s2, fr, n)
            return out
        if ref.get('kind') == 'MemberExpr': return self.x_CXXMemberCallExpr(n, st, fr)
        out = []
        for s, f in self.expr(callee, st, fr):
            for s2, vs in self.exprs(args, s, fr): out += self.apply(f, vs, s2, fr, n)
        return out
    def x_CXXMemberCallExpr(self, n, st, fr):
        callee = n['inner'][0]; args = n['inner'][1:]
        while callee.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): callee = callee['inner'][0]
        out = []
        for s, m in self.expr(callee, st, fr):
            if not (isinstance(m, tuple) and m[0] == 'method'): raise Unsupported('member call')
            _, d, obj = m
            out += self.call(d.get('name'), d if 'kind' in d else None, obj, args, n, s, fr, callee)
        return out
    def x_CXXOperatorCallExpr(self, n, st, fr):
        callee = n['inner'][0]; args = n['inner'][1:]
        ref = callee
        while ref.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): ref = ref['inner'][0]
        r = ref['referencedDecl']; name = r.get('name')
        out = []
        for s, vs in self.exprs(args, st, fr):
            a0 = self.rv(s, vs[0])
            if isinstance(a0, Lam) or isinstance(a0, Fn): out += self.apply(a0, vs[1:], s, fr, n); continue
            if isinstance(a0, Opaque) and a0.what == 'ostream' and name == 'operator<<': out.append((s, a0)); continue
            h = self.builtins.operator(self, s, name, vs, n, fr)
            if h is not NotImplemented: out += h; continue
            if isinstance(a0, Opaque) and name in ('operator*', 'operator->') and len(vs) == 1: out.append((s, a0)); continue
            d = self.u.resolve(r, n)
            if d is None and r.get('id') in n['_map']: d = n['_map'][r['id']]
            if d is not None and (clangast.body(d) or self.contract_for(d) is not None):
                if d['kind'] == 'CXXMethodDecl': out += self.invoke(d, vs[0], vs[1:], s, fr, n)
                else: out += self.invoke(d, None, vs, s, fr, n)
                continue
            raise Unsupported(f'operator {name} on {type(a0).__name__}')
        return out
    def call(self, name, d, obj, args, n, st, fr, ref):
        out = []
        # default arguments
        args = list(args)
        if d is not None and 'kind' in d:
            ps = clangast.params(d)
            for j, a in enumerate(args):
                if a.get('kind') == 'CXXDefaultArgExpr':
                    src = a.get('inner') or (ps[j].get('inner') if j < len(ps) else None)
                    if not src and name in ('next', 'prev', 'advance'): args[j] = None; continue
                    if not src: raise Unsupported('default argument')
                    args[j] = src[0]
        args = [a for a in args if a is not None and not (a.get('kind') == 'CXXDefaultArgExpr' and name in ('next', 'prev'))]
        for s, vs in self.exprs(args, st, fr):
            c = self.contract_for(d) if d is not None and 'kind' in d else None
            if c is None or c.inline:
                h = self.builtins.call(self, s, name, obj, vs, n, fr, d, ref)
                if h is not NotImplemented: out += h; continue
            if d is not None and 'kind' in d and not clangast.body(d) and (c is None or c.inline):
                # a declaration: look for its definition (same name, type and class)
                alt = [f for f in self.u.by_name.get(name, []) if f['type']['qualType'] == d['type']['qualType'] and not f.get('_dep')]
                if alt: d = alt[0]
            if (d is None or 'kind' not in d) and obj is not None:
                # the declaration is in another part of the syntax tree: by class, name and number of parameters
                o = self.rv(s, obj)
                if isinstance(o, SV) and o.cls:
                    alt = [f for f in self.u.by_name.get(name, []) if not f.get('_dep') and (f.get('_rec') or {}).get('name') == o.cls and len(clangast.params(f)) == len(vs)]
                    alt = [f for f in alt if clangast.body(f)] or alt
                    if alt: d = alt[0]
            if d is None or 'kind' not in d: raise Unsupported(f'call of {name}')
            out += self.invoke(d, obj, vs, s, fr, n)
        return out
    def invoke(self, d, obj, vs, s, fr, n):
        c = self.contract_for(d)
        if c is not None and not c.inline: return self.apply_contract(c, d, obj, vs, s, fr, n)
        return self.inline(d, obj, vs, s, fr, n, c)
    def inline(self, d, obj, vs, s, fr, n, c=None):
        if clangast.body(d) is None: raise Unsupported('no body for ' + str(d.get('name')))
        self.depth += 1
        if self.depth > 24: raise Unsupported('recursion without contract: ' + str(d.get('name')))
        try:
            f2 = Frame(d, c, self.lv_of(s, obj) if obj is not None else None)
            f2.binds = {'this': f2.this} if f2.this else {}
            self.inlined.add(d.get('name'))
            self.number_loops(f2, d)
            for p, v in zip(clangast.params(d), vs):
                self.bind_param(p, v, s, f2)
            f2.pre = s.copy()
            for g in s.vars:
                if isinstance(g, str) and g.startswith('gh:'): f2.binds[g[3:]] = LV(g)
            out = []
            starts = [s]
            if d['kind'] == 'CXXConstructorDecl': starts = self.ctor_inits(d, s, f2)
            for s0 in starts:
                for s2, sig in self.stmt(clangast.body(d), s0, f2):
                    if sig == 'next': out.append((s2, None))
                    elif sig == 'throw': out.append((s2, THROW))
                    else:
                        v = sig[1]
                        if isinstance(v, LV) and not (d['type']['qualType'].split('(')[0].rstrip().endswith('&')): v = self.load(s2, v)
                        out.append((s2, v))
            return out
        finally: self.depth -= 1
    def bind_param(self, p, v, s, f2):
        if is_ref(p) and isinstance(v, LV): lv = v
        else:
            v = self.rv(s, v); kk = self.newkey(p.get('name', 'arg')); s.vars[kk] = v; lv = LV(kk)
            it = int_type(tstr(p))
            if it and it[1]: self.unsigned.add(kk)
            if is_t(v) and v.sort() == Int_ and strip(tstr(p)) in REALS: s.vars[kk] = coerce(v, Real_)
        s.bind[(f2.id, p['id'])] = lv
        if p.get('name'): s.names[(f2.id, p['name'])] = lv
    def apply(self, f, vs, s, fr, n):
        """call a callable value"""
        f = self.rv(s, f)
        if isinstance(f, Lam):
            rec = next(c for c in f.node['inner'] if c.get('kind') == 'CXXRecordDecl')
            ops = []
            for c in rec.get('inner', []):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': ops.append(c)
                if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                    ops += [x for x in c.get('inner', []) if x.get('kind') == 'CXXMethodDecl' and any(y.get('kind') == 'TemplateArgument' for y in x.get('inner', []))]
            op = ops[0]
            f2 = Frame(op, f.frame.c, f.this); self.number_loops(f2, op, 100); f2.parent = f.frame; f2.binds = getattr(f.frame, 'binds', {}); f2.pre = f.frame.pre
            # variables captured by reference resolve through the parent frame, the others are copies made at creation
            for rid, lv in getattr(f, 'caps', {}).items(): s.bind[(f2.id, rid)] = lv
            for p, v in zip(clangast.params(op), vs): self.bind_param(p, v, s, f2)
            out = []
            for s2, sig in self.stmt(clangast.body(op), s, f2):
                if sig == 'next': out.append((s2, None))
                elif isinstance(sig, tuple): out.append((s2, self.rv(s2, sig[1]) if isinstance(sig[1], LV) else sig[1]))
                else: raise Unsupported('signal in lambda')
            return out
        if isinstance(f, Bound): return self.apply(f.f, [vs[x.k - 1] if isinstance(x, Placeholder) else x for x in f.args], s, fr, n)
        if isinstance(f, FnC): return self.apply_contract(f.c, None, None, vs, s, fr, n)
        if isinstance(f, Fn):
            a = [self.rv(s, v) for v in vs]
            op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'less': '<', 'greater': '>', 'equal_to': '=='}.get(f.name)
            if op is None: raise Unsupported('function object ' + f.name)
            return [(s, self.arith(s, op, a[0], a[1], n))]
        if isinstance(f, tuple) and f[0] == 'fn':
            d = self.u.resolve(f[1], n)
            if d is not None: return self.invoke(d, None, vs, s, fr, n)
        h = self.builtins.callable(self, s, f, vs, n, fr)
        if h is not NotImplemented: return h
        raise Unsupported('call of ' + type(f).__name__)
    def apply_contract(self, c, d, obj, vs, s, fr, n):
        self.used_contracts.add(c.name)
        binds = {}; lvs = {}
        if len(vs) != len(c.params): raise Detached(f'call of {c.name} with {len(vs)} arguments')
        for p, v in zip(c.params, vs):
            if p[0] == 'it':
                v = self.rv(s, v)
                if not isinstance(v, It): raise Unsupported(f'{c.name}: iterator expected, got {type(v).__name__}')
                if p[1] in lvs:
                    if not lvs[p[1]].same(v.lv): raise Unsupported(f'{c.name}: iterators of different containers')
                lvs[p[1]] = v.lv; binds[p[1]] = v.lv
                if isinstance(p[2], str):
                    if p[2] in binds: self.oblige(s, f'call {c.name}: same position', n, binds[p[2]] == v.idx, '')
                    binds[p[2]] = v.idx
                    if c.bounds: self.check(s, f'call {c.name}: range within the sequence', n, And(v.idx >= 0, v.idx <= self.load(s, v.lv).len), 'iterator within its sequence')
                else: self.oblige(s, f'call {c.name}: range starts at {p[2]}', n, v.idx == p[2], '')
            elif p[0] == 'pt':
                v = self.rv(s, v)
                if v is NULL: v = It(LV('ob:' + p[1]), IntVal(-1))
                if not isinstance(v, It): raise Unsupported(f'{c.name}: pointer expected')
                if p[1] in lvs and not lvs[p[1]].same(v.lv): raise Unsupported(f'{c.name}: pointers into different heaps')
                lvs[p[1]] = binds[p[1]] = v.lv; binds[p[2]] = v.idx
            elif p[0] == 'sc':
                v = self.rv(s, v)
                if p[2] == RE and is_t(v): v = coerce(v, Real_)
                binds[p[1]] = v
            elif p[0] == 'mit':
                v = self.rv(s, v)
                if not (isinstance(v, It) and v.lv.path[-2:] == (('f', p[1]), ('f', '[map]'))): raise Unsupported(f'{c.name}: iterator into {p[1]} expected')
                binds[p[2]] = v.idx
            elif p[0] == 'el':
                if not (isinstance(v, LV) and v.path and v.path[-1][0] == 'i'): raise Unsupported(f'{c.name}: element of {p[1]} expected')
                lvs[p[1]] = binds[p[1]] = LV(v.root, v.path[:-1]); binds[p[2]] = v.path[-1][1]
            elif p[0] in ('ob', 'lv'): binds[p[1]] = lvs[p[1]] = self.lv_of(s, v)
        if obj is not None and c.cls:
            t = self.lv_of(s, obj); tv = self.rv(s, t)
            if isinstance(tv, It): t = tv.lv.i(tv.idx)
            binds['this'] = t
            if c.this_in:
                if not (t.path and t.path[-1][0] == 'i'): raise Unsupported(f'{c.name}: object outside its heap')
                binds[c.this_in[0]] = lvs[c.this_in[0]] = LV(t.root, t.path[:-1]); binds[c.this_in[1]] = t.path[-1][1]
            o = self.load(s, t)
            for nm, sh in c.this.items():
                if isinstance(sh, tuple) and sh[0] == 'it':
                    x = o.f[nm]; binds[sh[1]] = lvs[sh[1]] = x.lv; binds[sh[2]] = x.idx
                if isinstance(sh, tuple) and sh[0] == 'refto': binds[sh[1]] = lvs[sh[1]] = o.f[nm]
        for o in c.objs:   # heaps and sequences that only pointers refer to are global by name
            if o not in binds:
                if 'ob:' + o not in s.vars: raise Unsupported(f'{c.name} needs object {o}')
                binds[o] = LV('ob:' + o)
        for g in c.ghosts:
            if 'gh:' + g not in s.vars: raise Unsupported(f'{c.name} needs ghost {g}')
            binds[g] = LV('gh:' + g)
        pre = s.copy()
        epre = Env(self, pre, binds)
        e0 = Env(self, s, binds, None, epre)
        for r in c.requires:
            lab, r = r if isinstance(r, tuple) else ('requires', r)
            self.check(s, f'call {c.name}: {lab}', n, r(e0), lab)
        if c.throws:
            # an exception leaves the function under verification too (the code has no handlers): only where its contract says so
            t = c.throws(e0); rc = self.root.c
            self.check(s, f'call {c.name}: throws only where documented', n, Implies(t, rc.throws(Env(self, self.root.pre, self.root.vbinds, self.root)) if rc.throws else z3.BoolVal(False)), 'exceptions of a callee only on the documented condition')
            s.assume(Not(t))
        if c.decreases and self.root.c.decreases and (c is self.root.c or c.group is not None and c.group == self.root.c.group):
            m = c.decreases(e0); self.oblige(s, f'call {c.name}: recursion variant', n, And(self.measure0 >= 0, m < self.measure0), 'the recursion terminates')
        pre = s.copy(); epre = Env(self, pre, binds)
        facts = []
        for m in c.modifies:
            if m == 'this': lv = binds['this']
            elif '.' in m: lv = binds[m.split('.')[0]].f(m.split('.')[1])
            else: lv = binds[m]
            old = self.load(s, lv)
            def hv(x): return fresh('post.' + m, x.sort())
            new = tmap(hv, old)
            if isinstance(new, VV): facts.append(new.len >= 0)
            self.store(s, lv, new)
        for g in c.ghost_mod: s.vars['gh:' + g] = tmap(lambda x: fresh('post.' + g, x.sort()), s.vars['gh:' + g])
        res = None
        if c.result is not None:
            if callable(c.result): res = c.result(Env(self, s, binds, None, epre))
            elif isinstance(c.result, tuple) and c.result[0] == 'it':
                res = It(binds[c.result[1]], fresh('ret', Int_))
            elif isinstance(c.result, tuple) and c.result[0] == 'its':
                res = SV({str(j): It(binds[o], fresh('ret', Int_)) for j, o in enumerate(c.result[1])})
            else: res = mk(c.result, 'ret.' + c.fn, facts)
        for f in facts: s.assume(f)
        e1 = Env(self, s, binds, None, epre, res)
        for g, (sh, w) in c.gres.items():
            gf = []; s.vars['gh:' + g] = mk(sh, 'wit.' + g, gf) if isinstance(sh, tuple) else fresh('wit.' + g, sh); binds[g] = LV('gh:' + g)
            for f in gf: s.assume(f)
        self.ghost_set(s, c, e1)
        for lab, q in c.ensures: s.assume(q(e1))
        return [(s, res)]
    # ------------------------------------------------------------------ construction
    def x_CXXConstructExpr(self, n, st, fr, into=None):
        t = strip(tstr(n)); args = list(n.get('inner', []))
        rec0 = self.find_record(t)
        if any(a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner') for a in args):
            if rec0 is None: args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            else:
                c0 = self.ctors(rec0, n)
                ps = clangast.params(c0[0]) if c0 else []
                for j, a in enumerate(args):
                    if a.get('kind') == 'CXXDefaultArgExpr':
                        src = ps[j].get('inner') if j < len(ps) else None
                        if not src: raise Unsupported('default argument of a constructor')
                        args[j] = src[0]
        else: args = [a['inner'][0] if a.get('kind') == 'CXXDefaultArgExpr' else a for a in args]
        out = []
        for s, vs in self.exprs(args, st, fr):
            h = self.builtins.construct(self, s, t, vs, n, fr) if into is None else NotImplemented
            if h is not NotImplemented: out += h; continue
            rec = rec0
            if rec is None: raise Unsupported('construction of ' + t)
            if len(vs) == 1 and into is None:
                v = self.rv(s, vs[0])
                if isinstance(v, SV) and v.cls == rec.get('name') or isinstance(v, Opaque): out.append((s, v)); continue
            c = self.ctors(rec, n)
            if not c: raise Unsupported('constructor of ' + t)
            c = c[0]
            if into is not None:
                if clangast.body(c) is None: out.append((s, None)); continue
                for s2, _ in self.invoke(c, into, vs, s, fr, n): out.append((s2, None))
                continue
            cc = self.contract_for(c); th = cc.this if cc is not None and not cc.inline else {}
            obj = SV({x['name']: default(th[x['name']]) if x['name'] in th and th[x['name']][0] not in ('it', 'refto') else self.default_field(x, s, fr) for x in self.fields(rec)}, rec.get('name'))
            if cc is not None and cc.trusted: obj.f.update({k: default(sh) for k, sh in th.items() if k.endswith('!')})      # specification-only fields of a class whose constructor is trusted
            lv = self.temp(s, obj, 'obj')
            if clangast.body(c) is None:
                out.append((s, self.load(s, lv))); continue
            for s2, _ in self.invoke(c, lv, vs, s, fr, n): out.append((s2, self.load(s2, lv)))
        return out
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def ctors(self, rec, n):
        ct = (n.get('ctorType') or {}).get('qualType')
        cs = [x for x in rec.get('inner', []) if x.get('kind') == 'CXXConstructorDecl']
        for x in rec.get('inner', []):
            if x.get('kind') == 'FunctionTemplateDecl': cs += [y for y in x.get('inner', []) if y.get('kind') == 'CXXConstructorDecl' and any(z.get('kind') == 'TemplateArgument' for z in y.get('inner', []))]
        c = [x for x in cs if x['type']['qualType'] == ct and (clangast.body(x) or x.get('explicitlyDefaulted') or x.get('isImplicit'))]
        if not c:   # defined outside the class
            c = [x for x in self.u.by_name.get(rec.get('name'), []) if x['kind'] == 'CXXConstructorDecl' and x['type']['qualType'] == ct and not x.get('_dep')]
        return c or [x for x in cs if x['type']['qualType'] == ct]
    def default_field(self, x, s, fr):
        try: return default(self.shape_of(tstr(x)))
        except Unsupported: return Opaque(x['name'])
    def x_InitListExpr(self, n, st, fr):
        out = []; ins = n.get('inner', [])
        if any(x.get('kind') == 'CXXDefaultInitExpr' for x in ins):     # default initialisers of the members of an aggregate
            fs = self.fields(self.find_record(strip(tstr(n))) or {})
            if len(fs) != len(ins): raise Unsupported('default member initialiser')
            ins = [[y for y in f['inner'] if isinstance(y, dict) and y.get('kind')][-1] if x.get('kind') == 'CXXDefaultInitExpr' and f.get('inner') else x for f, x in zip(fs, ins)]
        for s, vs in self.exprs(ins, st, fr):
            t = strip(tstr(n))
            vs = [self.rv(s, v) for v in vs]
            h = self.builtins.construct(self, s, t, vs, n, fr)
            if h is not NotImplemented: out += h; continue
            if len(vs) == 1 and is_t(vs[0]) and (t in INTS or t in REALS or t == 'bool'): out.append((s, vs[0])); continue
            if not vs and (t in INTS or t in REALS or t == 'bool'): out.append((s, default(self.shape_of(t)))); continue
            rec = self.find_record(t)
            if rec is not None and len(vs) == 1 and isinstance(vs[0], SV) and vs[0].cls == rec.get('name'): out.append((s, vs[0])); continue
            if rec is not None:
                fs = self.fields(rec); f = {}
                for j, x in enumerate(fs): f[x['name']] = vs[j] if j < len(vs) else self.default_field(x, s, fr)
                out.append((s, SV(f, rec.get('name')))); continue
            out.append((s, ('initlist', vs)))
        return out
    def x_CXXStdInitializerListExpr(self, n, st, fr): return self.expr(n['inner'][0], st, fr)
    def x_CXXDefaultInitExpr(self, n, st, fr):
        raise Unsupported('default member initialiser')
class Placeholder:
    def __init__(self, k): self.k = k
class Bound:
    """std::bind(f, args...)"""
    def __init__(self, f, args): self.f, self.args = f, args
class FnC:
    def __init__(self, c): self.c = c
class _T: pass
THROW = _T()
