"""Loads the clang AST (JSON) of a translation unit built from /repo's current headers and indexes the declarations."""
import json, os, subprocess, re
REPO = os.environ.get('REPO', '/repo')

class AstError(Exception): pass

def _docs(s):
    d = json.JSONDecoder(); i = 0; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: return
        o, i = d.raw_decode(s, i)
        yield o

class Unit:
    """one TU: declarations by id, function definitions by name"""
    def __init__(self, tu, filters=('ffcl',)):
        self.tu = tu
        self.maps = []          # one id->node map per clang run
        self.by_name = {}       # name -> [function nodes with a body]
        self.records = {}       # name -> [record nodes]
        self.comp = {}
        for f in filters:
            cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-fno-access-control', '-w', '-I' + REPO + '/include', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + f, tu]
            r = subprocess.run(cmd, capture_output=True, text=True)
            errs = [l for l in r.stderr.splitlines() if ': error:' in l or ': fatal error:' in l]
            # gcc, which builds the library, accepts deduction guides with a parameter that cannot be deduced; clang drops the guide
            if r.returncode and not (errs and all('deduction guide template contains a template parameter that cannot be deduced' in l or "use 'template' keyword to treat 'from_signature'" in l for l in errs)): raise AstError('clang: ' + r.stderr[:1500])
            m = {}
            self.maps.append(m)
            self.cur = dict(line=0, file='')
            for doc in _docs(r.stdout): self._index(doc, m, None, False)
    def _loc(self, l):
        if not isinstance(l, dict): return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l: self._loc(l[k])
        if 'file' in l: self.cur['file'] = l['file']
        if 'line' in l: self.cur['line'] = l['line']
    def _index(self, n, m, rec, dep):
        stack_kind = n.get('kind')
        self._loc(n.get('loc'))
        rg = n.get('range') or {}
        self._loc(rg.get('begin')); n['_line'] = self.cur['line']; n['_file'] = self.cur['file']; self._loc(rg.get('end'))
        n['_map'] = m
        k = stack_kind
        if 'id' in n and k and (k.endswith('Decl')):
            if n['id'] not in m or 'inner' in n: m[n['id']] = n
        isrec = k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            n['_rec'] = rec
            if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', [])):
                n['_dep'] = dep
                self.by_name.setdefault(n.get('name'), []).append(n)
        if isrec and n.get('completeDefinition'):
            n['_outer'] = rec
            self.records.setdefault(n.get('name'), []).append(n)
        tmpl = k in ('FunctionTemplateDecl', 'ClassTemplateDecl')
        first_fn = True
        for c in n.get('inner', []):
            if not isinstance(c, dict) or not c: continue
            d = dep
            ck = c.get('kind')
            if tmpl:
                # the pattern of a template is dependent; instantiations carry TemplateArgument children
                if ck in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
                    d = dep or not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', []))
                elif ck == 'CXXRecordDecl': d = True
            if ck == 'ClassTemplateSpecializationDecl': d = False
            if ck == 'ClassTemplatePartialSpecializationDecl': d = True
            self._index(c, m, n if isrec else rec, d)
    # -- lookups
    def functions(self, name, cls=None, nparams=None, types=None, where=None):
        out = []
        for f in self.by_name.get(name, []):
            if f.get('_dep') or '<dependent' in f['type']['qualType'] or 'type-parameter' in f['type']['qualType']: continue
            if cls is not None and (not f.get('_rec') or f['_rec'].get('name') != cls): continue
            if nparams is not None and len(params(f)) != nparams: continue
            if types is not None and not re.search(types, f['type'].get('desugaredQualType', '') + ' ## ' + f['type']['qualType'] + ' ## ' + ' '.join(p['type'].get('desugaredQualType','')+p['type'].get('qualType','') for p in params(f))): continue
            if where is not None and where not in f['_file']: continue
            if f not in out: out.append(f)
        return out
    def resolve(self, ref, frm):
        """ref: {'id','name','type'} node stub; frm: node whose map to use first"""
        n = frm['_map'].get(ref['id'])
        if n is not None: return n
        t = (ref.get('type') or {}).get('qualType')
        for m in self.maps:
            if m is frm['_map']: continue
        c = [f for f in self.by_name.get(ref.get('name'), []) if f['type']['qualType'] == t]
        return c[0] if c else None

def params(f): return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
def body(f):
    for c in f.get('inner', []):
        if c.get('kind') == 'CompoundStmt': return c
    return None
def walk(n):
    yield n
    for c in n.get('inner', []):
        if isinstance(c, dict) and c: yield from walk(c)
def show(n, ind=0, out=None):
    if not n or 'kind' not in n: print(' ' * ind + '<null>'); return
    x = []
    for f in ('name', 'opcode', 'value', 'castKind', 'isPostfix', 'isConstexpr', 'isArrow'):
        if f in n: x.append(f'{f}={n[f]}')
    if 'type' in n: x.append('T=' + n['type'].get('qualType', '')[:60] + ('~' + n['type']['desugaredQualType'][:40] if 'desugaredQualType' in n['type'] else ''))
    if 'referencedDecl' in n: r = n['referencedDecl']; x.append(f"ref={r['kind']}:{r.get('name')}")
    if 'referencedMemberDecl' in n: x.append('mem')
    print(' ' * ind + n['kind'], ' '.join(x))
    for c in n.get('inner', []): show(c, ind + 1)
