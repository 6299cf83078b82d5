"""Access to the code under verification: every run parses /repo's current source."""
import ast, os, functools
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'acoular')

class Module:
    def __init__(self, name, path):
        self.name = name; self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.functions = {}; self.classes = {}; self.assigns = {}; self.imports = {}
        for n in self.tree.body: self._top(n)
    def _top(self, n):
        if isinstance(n, (ast.FunctionDef,)): self.functions[n.name] = n
        elif isinstance(n, ast.ClassDef): self.classes[n.name] = n
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): self.assigns[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.assigns[n.target.id] = n.value
        elif isinstance(n, ast.Import):
            for a in n.names: self.imports[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                parts = self.name.split('.')[:-1] if not self.path.endswith('__init__.py') else self.name.split('.')
                parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names: self.imports[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(n, ast.If):
            for x in n.body + n.orelse: self._top(x)
        elif isinstance(n, ast.Try):
            for x in n.body: self._top(x)

_mods = {}
@functools.lru_cache(None)
def module(name):
    if name in _mods: return _mods[name]
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p): p = os.path.join(p, '__init__.py')
    else: p += '.py'
    if not os.path.exists(p): return None
    return Module(name, p)

@functools.lru_cache(None)
def all_modules():
    out = []
    for root, d, fs in os.walk(PKG):
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'): rel = rel[:-9]
                out.append(rel)
    return sorted(out)

def resolve(modname, name, depth=0):
    """resolve a global name -> ('func', mod, node) | ('class', mod, node) | ('ext', dotted) | ('assign', mod, node) | None"""
    m = module(modname)
    if m is None or depth > 6: return None
    if name in m.functions: return ('func', m, m.functions[name])
    if name in m.classes: return ('class', m, m.classes[name])
    if name in m.assigns: return ('assign', m, m.assigns[name])
    if name in m.imports:
        i = m.imports[name]
        if i[0] == 'module':
            return ('mod', i[1])
        if i[1].startswith('acoular'):
            r = resolve(i[1], i[2], depth + 1)
            if r: return r
            if module(i[1] + '.' + i[2]): return ('mod', i[1] + '.' + i[2])
            return None
        return ('ext', i[1] + '.' + i[2])
    return None

class ClassInfo:
    def __init__(self, mod, node):
        self.mod = mod; self.node = node; self.name = node.name
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}
        self.traits = {}
        for n in node.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): self.traits[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.traits[n.target.id] = n.value
    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Name):
                c = find_class(b.id, self.mod.name)
                if c: out.append(c)
        return out
    def __repr__(self): return f'<class {self.name}>'

@functools.lru_cache(None)
def _class(modname, name):
    r = resolve(modname, name)
    if r and r[0] == 'class':
        return ClassInfo(r[1], r[2])
    return None
def find_class(name, modname=None):
    if modname:
        r = resolve(modname, name)
        if r and r[0] == 'class': return _class(r[1].name, r[2].name)
        return None
    for m in all_modules():
        if module(m) and name in module(m).classes: return _class(m, name)
    return None

@functools.lru_cache(None)
def mro(ci):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs): break
            else: raise ValueError('mro')
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    bs = ci.bases
    return [ci] + merge([mro(b) for b in bs] + [bs]) if bs else [ci]

def find_method(ci, name):
    for c in mro(ci):
        if name in c.methods: return c, c.methods[name]
    return None
def find_trait(ci, name):
    for c in mro(ci):
        if name in c.traits: return c, c.traits[name]
    return None
