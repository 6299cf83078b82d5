"""Reads-clauses of the classes of /repo, decided on the AST.

`reads(cls, method)` over-approximates the set of settings (paths from self, through properties, delegates, helper
methods and local aliases) that a method can read; `covers(cls, entries)` is the set of paths whose change reaches a
`depends_on` declaration.  The contract of a part (`source`, `steer`, ...) is used instead of its body: whatever is
read of a part is covered by `part.digest`."""
import ast, functools
from . import source as src

class K:
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return f'{self.kind}{self.__dict__}'

HAS_TRAITS = {'trait', 'traits', 'trait_names', 'clone_traits', 'copy_traits', 'trait_set', 'trait_get', 'on_trait_change', 'observe', 'add_trait', 'set', 'get', 'trait_view', 'configure_traits', 'edit_traits'}

def fname(n):
    while isinstance(n, ast.Attribute): return n.attr
    return n.id if isinstance(n, ast.Name) else ''

def strs(n, mod=None):
    """strings of a depends_on expression"""
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add): return strs(n.left, mod) + strs(n.right, mod)
    if isinstance(n, ast.Name) and mod is not None:
        r = src.resolve(mod.name, n.id)
        if r and r[0] == 'assign': return strs(r[2], r[1])
    if isinstance(n, ast.Constant) and isinstance(n.value, str): return [x.strip() for x in n.value.split(',')]
    if isinstance(n, (ast.List, ast.Tuple)): return [s for x in n.elts for s in strs(x.value if isinstance(x, ast.Starred) else x, mod)]
    return ['?']

def listens(entries, node, arg='depends_on'):
    """traits listens to the items of a list or dict named without [] as well, unless the name stands alone in a list
    (or the pattern is one for observe)"""
    if arg == 'observe' or len(entries) < 2 and not (isinstance(node, ast.Constant) and isinstance(node.value, str)): return entries
    return [Entry(e) for e in entries]

class Entry(str): pass

def deco(node, name):
    for d in node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        if fname(f) == name: return d
    return None

@functools.lru_cache(None)
def kind(ci, name):
    for c in src.mro(ci):
        v = c.traits.get(name)
        if v is not None: return _kind(ci, c, name, v)
        if name in c.methods:
            m = c.methods[name]
            if deco(m, 'property'): return K('prop', deps=None, cached=False, getter=(c, m))
            return K('method', cls=c, node=m)
    # properties declared only by their getter
    g = src.find_method(ci, '_get_' + name)
    if g: return K('prop', deps=None, cached=False, getter=g)
    if name.endswith('_') and len(name) > 1: return kind(ci, name[:-1])          # mapped shadow trait
    return None

def inst_cls(c, call):
    if not call.args: return None
    a = call.args[0]
    if isinstance(a, ast.Call): a = a.func
    if isinstance(a, ast.Name): return src.find_class(a.id, c.mod.name)
    if isinstance(a, ast.Constant) and isinstance(a.value, str): return src.find_class(a.value.split('.')[-1])
    return None

def _kind(ci, c, name, v):
    f = fname(v.func) if isinstance(v, ast.Call) else fname(v)
    if f == 'Property':
        deps = None; getter = src.find_method(ci, '_get_' + name); desc = ''
        if isinstance(v, ast.Call):
            for k in v.keywords:
                if k.arg in ('depends_on', 'observe'): deps = listens(strs(k.value, c.mod), k.value, k.arg)
            if v.args and isinstance(v.args[0], ast.Name): getter = src.find_method(ci, v.args[0].id) or getter
        cached = False
        if getter:
            d = deco(getter[1], 'property_depends_on')
            if d is not None: deps = listens([s for a in d.args for s in strs(a, getter[0].mod)], d.args[0] if d.args else None); cached = True
            if deco(getter[1], 'cached_property'): cached = True
        return K('prop', deps=deps, cached=cached, getter=getter)
    if f in ('Delegate', 'DelegatesTo'):
        o = v.args[0].value; a = name
        for k in v.keywords:
            if k.arg == 'prefix': a = k.value.value
        if len(v.args) > 1 and isinstance(v.args[1], ast.Constant): a = v.args[1].value
        return K('delegate', obj=o, attr=a)
    if f == 'Instance':
        return K('inst', cls=inst_cls(c, v))
    if f in ('List', 'Dict', 'ListFloat', 'Set'):
        el = None
        if isinstance(v, ast.Call):
            for a in list(v.args) + [k.value for k in v.keywords if k.arg == 'trait']:
                if isinstance(a, ast.Call) and fname(a.func) == 'Instance': el = inst_cls(c, a)
        return K('list', elem=el)
    if f in ('Constant', 'ReadOnly'): return K('const')
    if f == 'Enum' and isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], ast.Constant): return K('const')      # one value only
    if isinstance(v, ast.Constant): return K('const')
    return K('plain', trait=f)

class Reads:
    def __init__(self, ci, stop=()):
        self.ci = ci; self.stop = set(stop); self.leaves = {}; self.escapes = set(); self.done = set(); self.rets = {}
    def add(self, leaf, where): self.leaves.setdefault(leaf, where)

    # ---- one method
    def method(self, c, node):
        key = (c.name, node.name)
        if key in self.done: return self.rets.get(key, set())
        self.done.add(key); self.rets[key] = set()
        w = Walk(self, c, node)
        w.run()
        self.rets[key] = w.ret
        return w.ret
    def resolve(self, path, where, inner=False):
        """records what reading the path depends on; returns the canonical aliases of its value"""
        ci = self.ci; name, rest = path[0], path[1:]
        k = kind(ci, name)
        if k is None:
            if name.startswith('__') or name in HAS_TRAITS or name.startswith('trait_') or name.startswith('_trait'): return set()
            self.add((name,), where); return set()
        if k.kind == 'const': return set()
        if k.kind == 'method':
            self.method(k.cls, k.node); return set()
        if k.kind == 'prop':
            if name in self.stop: self.add((name,) if not rest else (name, '*'), where)        # its value is part of the identifier
            if name in self.stop and not rest: return set()
            if not k.getter:
                self.add((name,), where); return set()
            al = self.method(*k.getter)
            out = set()
            if rest and len(al) > 1:           # one of several objects: read through the property
                self.add((name, rest[0]), where)
            elif rest:
                for p in al: out |= self.resolve(p + rest, where)
            else: out = set(al) if len(al) < 2 else {path}       # one of several objects
            return out
        if k.kind == 'delegate': return self.resolve((k.obj, k.attr) + rest, where)
        if k.kind == 'list':
            if rest[:1] == ('[]',):
                if len(rest) > 1 and k.elem is not None: self.add((name, '[]') + self.trim(k.elem, rest[1:]), where)
                else: self.add((name, '[]'), where)
            else: self.add((name, '[]'), where)
            return {path}
        if k.kind == 'inst':
            if not rest: return {path}             # the part itself: read when something of it is read, or when it is handed on
            t = self.trim(k.cls, rest)
            if not (inner and t[-1] == '*' and t[:-1] == rest): self.add((name,) + t, where)
            return {path} if t[-1] == '*' and t[:-1] == rest else set()
        if name not in [n for c in src.mro(ci) for n in c.traits] and name.endswith('_'): name = name[:-1]       # mapped shadow trait
        self.add((name,), where)
        return set()
    def trim(self, cls, rest):
        if cls is None: return rest[:1] if rest[0] != '[]' else ('*',)
        k = kind(cls, rest[0])
        if k is None: return rest[:1]
        if k.kind == 'method': return (rest[0] + '()',)
        if k.kind == 'inst' and len(rest) > 1: return rest[:1] + self.trim(k.cls, rest[1:])
        if k.kind == 'inst': return rest[:1] + ('*',)
        if k.kind == 'delegate': return self.trim2(k, cls, rest)
        return rest[:1]
    def trim2(self, k, cls, rest): return rest[:1]
    def whole(self, path, where):
        """the object at the path is handed to other code"""
        k = kind(self.ci, path[0])
        if k and k.kind == 'inst': self.add(path + ('*',), where)
        if k and k.kind == 'list': self.add((path[0], '[]') + (('*',) if k.elem is not None else ()), where)

class Walk:
    def __init__(self, R, c, node):
        self.R = R; self.c = c; self.node = node; self.ret = set(); self.inner = False
        a = node.args.args
        self.env = {a[0].arg: {()}} if a and not deco(node, 'staticmethod') else {}
        self.selfname = a[0].arg if a else None
    def run(self):
        for _ in range(2):
            for s in self.node.body: self.stmt(s)
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for b in s.body: self.stmt(b)
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets: self.bind(t, v, s.value)
            return
        if isinstance(s, ast.AugAssign): self.ev(s.target); self.ev(s.value); return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None: self.bind(s.target, self.ev(s.value), s.value)
            return
        if isinstance(s, (ast.For,)):
            v = self.ev(s.iter)
            self.bind(s.target, self.elems(v), None)
            for b in s.body + s.orelse: self.stmt(b)
            return
        if isinstance(s, ast.Return):
            if s.value is not None: self.ret |= self.ev(s.value)
            return
        if isinstance(s, (ast.If, ast.While)):
            self.ev(s.test)
            for b in s.body + s.orelse: self.stmt(b)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None: self.bind(i.optional_vars, v, None)
            for b in s.body: self.stmt(b)
            return
        if isinstance(s, ast.Try):
            for b in s.body + s.orelse + s.finalbody: self.stmt(b)
            for h in s.handlers:
                for b in h.body: self.stmt(b)
            return
        if isinstance(s, ast.Expr): self.ev(s.value); return
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr): self.ev(n)
            elif isinstance(n, ast.stmt): self.stmt(n)
    def elems(self, v):
        out = set()
        for p in v:
            k = kind(self.R.ci, p[0]) if p else None
            if k and k.kind == 'list' and len(p) == 1: out.add(p + ('[]',))
            else: out.add(p)
        return out
    def bind(self, t, v, node):
        if isinstance(t, ast.Name): self.env[t.id] = self.env.get(t.id, set()) | v
        elif isinstance(t, (ast.Tuple, ast.List)):
            es = node.elts if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts) else [None] * len(t.elts)
            for x, e in zip(t.elts, es): self.bind(x, self.ev(e) if e is not None else v, e)
        elif isinstance(t, ast.Starred): self.bind(t.value, v, None)
        elif isinstance(t, ast.Subscript): self.ev(t.value); self.ev(t.slice)
        elif isinstance(t, ast.Attribute): self.ev(t.value)          # writing is not reading
    def where(self, n): return f'{self.c.name}.{self.node.name}:{n.lineno}'
    def hand(self, n, v, callee):
        for p in v:
            if p == (): self.R.escapes.add((callee, self.where(n)))
            else: self.R.whole(p, self.where(n))
    def ev(self, n):
        R = self.R
        if n is None: return set()
        if isinstance(n, ast.Name): return set(self.env.get(n.id, set()))
        if isinstance(n, ast.Attribute):
            inner, self.inner = self.inner, True
            v = self.ev(n.value); out = set()
            self.inner = False
            for p in v:
                if p == () and n.attr in HAS_TRAITS: continue
                q = p + (n.attr,)
                out |= R.resolve(q, self.where(n), inner)
            return out
        self.inner = False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and fname(f.value.func) == 'super':
                m = src.mro(R.ci); i = [x.name for x in m].index(self.c.name)
                for c in m[i + 1:]:
                    if f.attr in c.methods:
                        r = R.method(c, c.methods[f.attr]); break
                else: r = set()
                for a in list(n.args) + [k.value for k in n.keywords]: self.hand(n, self.ev(a), f.attr)
                return r
            callee = fname(f); r = set()
            if isinstance(f, ast.Attribute):
                base = self.ev(f.value)
                for p in base:
                    if p == ():
                        k = kind(R.ci, f.attr)
                        if k and k.kind == 'method': r |= R.method(k.cls, k.node)
                        elif f.attr in HAS_TRAITS: R.escapes.add((f.attr, self.where(n)))
                        else: R.resolve((f.attr,), self.where(n))
                    else: r |= R.resolve(p + (f.attr,), self.where(n))
            else: r |= self.ev(f) if not isinstance(f, ast.Name) else set()
            neutral = callee in ('isinstance', 'len', 'bool', 'type', 'hasattr', 'getattr', 'warn', 'id', 'list', 'enumerate', 'zip', 'reversed', 'iter', 'tuple')
            vals = [(a, self.ev(a)) for a in list(n.args) + [k.value for k in n.keywords]]
            for a, v in vals:
                if not neutral: self.hand(n, v, callee)
                elif callee in ('list', 'enumerate', 'zip', 'reversed', 'iter', 'tuple'): r |= v
            return set() if not neutral and not isinstance(f, ast.Attribute) else r
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value); self.ev(n.slice)
            return self.elems(v) if not isinstance(n.slice, ast.Slice) else v
        if isinstance(n, ast.IfExp): self.ev(n.test); return self.ev(n.body) | self.ev(n.orelse)
        if isinstance(n, ast.BoolOp):
            out = set()
            for x in n.values: out |= self.ev(x)
            return out
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                self.bind(g.target, self.elems(self.ev(g.iter)), None)
                for i in g.ifs: self.ev(i)
            if isinstance(n, ast.DictComp): self.ev(n.key); return self.ev(n.value)
            return self.ev(n.elt)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in n.elts: out |= self.ev(x.value if isinstance(x, ast.Starred) else x)
            return out
        if isinstance(n, ast.Lambda): return self.ev(n.body)
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)): return self.ev(n.value) and set()
        if isinstance(n, ast.NamedExpr): v = self.ev(n.value); self.bind(n.target, v, n.value); return v
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr): self.ev(x)
            elif isinstance(x, ast.FormattedValue): self.ev(x.value)
        return set()

@functools.lru_cache(None)
def summaries(ci):
    """traits that an observer keeps equal to a digest of the parts in a list: {trait: list trait}"""
    out = {}
    for c in src.mro(ci):
        for m in c.methods.values():
            d = deco(m, 'observe') or deco(m, 'on_trait_change')
            if d is None: continue
            pats = [s for a in d.args for s in strs(a, c.mod)]
            for s in ast.walk(m):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and fname(s.value.func) == 'ldigest':
                    a = s.value.args[0]
                    if isinstance(a, ast.Attribute) and any(p.startswith(a.attr + '.') and p.endswith('digest') for p in pats):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute): out[t.attr] = a.attr
    return out

def covers(ci, entries, seen=(), values=False):
    """values: the entries are put into an identifier (their values count, not what they depend on)"""
    out = set()
    for e in entries or []:
        parts = []
        if '.' in e and isinstance(e, Entry): out.add(tuple(e.replace('[]', '').replace('_items', '').split('.')) + ('[]',))
        for x in e.replace('_items', '[]').split('.'):
            if x == 'items': parts.append('[]')
            elif x.endswith('[]'): parts += [x[:-2], '[]']
            else: parts.append(x)
        name = parts[0]; k = kind(ci, name)
        if k is None: out.add(tuple(parts)); continue
        if len(parts) == 1 or parts[1:] == ['[]']:
            out.add((name,))
            if k.kind == 'list' and (values and k.elem is None or isinstance(e, Entry)): out.add((name, '[]'))
            if values and k.kind == 'prop': continue
            if k.kind == 'prop' and name not in seen: out |= covers(ci, k.deps, seen + (name,))
            if k.kind == 'delegate': out |= covers(ci, [k.obj + '.' + k.attr], seen)
            if parts[1:] == ['[]']: out.add((name, '[]'))
            if name in summaries(ci): x = summaries(ci)[name]; out |= {(x, '[]'), (x, '[]', '*')}
            continue
        if k.kind == 'prop' and k.getter:
            R = Reads(ci)
            al = R.method(*k.getter)
            if len(al) > 1 or values and name in seen: out.add((name, '*') if parts[-1] == 'digest' else tuple(parts)); al = ()
            for p in al:
                if p != (name,): out |= covers(ci, ['.'.join(p + tuple(parts[1:])).replace('.[]', '[]')], seen)
        if parts[-1] == 'digest': out.add(tuple(parts[:-1]) + ('*',))
        elif parts[-1].endswith('digest') and k.kind == 'inst' and len(parts) == 2 and k.cls:
            k2 = kind(k.cls, parts[1])
            if k2 and k2.kind == 'prop': out |= {(name,) + c for c in covers(k.cls, k2.deps)}
            out.add(tuple(parts))
        else: out.add(tuple(parts))
    return out

@functools.lru_cache(None)
def subclasses(ci):
    out = []
    for mn in src.all_modules():
        for cn in src.module(mn).classes:
            c = src.find_class(cn, mn)
            if c is not None and ci in src.mro(c): out.append(c)
    return out

@functools.lru_cache(None)
def tells(ci, name):
    """a change of the value of the attribute is announced by every object of the class: not delegated to a part that
    may be replaced, and not computed without declared dependencies"""
    for c in subclasses(ci):
        k = kind(c, name)
        if k is None: continue
        if k.kind == 'delegate': return False
        if k.kind == 'prop' and k.deps is None and k.getter:
            R = Reads(c); R.method(*k.getter)
            if R.leaves: return False
    return True

@functools.lru_cache(None)
def parts_read(ci, name):
    """what a method or property of a part (of any class it may have) reads of the part; None: everything"""
    out = set()
    for c in subclasses(ci):
        k = kind(c, name)
        if k is None: continue
        g = (k.cls, k.node) if k.kind == 'method' else k.getter if k.kind == 'prop' else None
        if g is None: return None
        R = Reads(c); R.method(*g)
        if R.escapes: return None
        out |= set(R.leaves)
    return frozenset(out)

def covered(leaf, cov, ci=None, depth=0):
    """a change of what is read at the path reaches the declaration"""
    for c in cov:
        if c[-1] == '*' and leaf[:len(c) - 1] == c[:-1]: return True
    k = kind(ci, leaf[0]) if ci is not None else None
    part = k.cls if k is not None and k.kind == 'inst' and len(leaf) == 2 else None
    if k is not None and k.kind == 'prop' and k.getter and len(leaf) > 1 and leaf not in cov:
        al = Reads(ci).method(*k.getter)         # one of several objects: each of them
        return bool(al) and all(len(a) and a != leaf[:1] and covered(a + leaf[1:], cov, ci, depth + 1) for a in al)
    if leaf in cov:
        if part is not None and leaf[1] not in ('[]', '*'): return tells(part, leaf[1])
        return True
    if part is not None and leaf[1] != '*' and depth < 3:
        k2 = kind(part, leaf[1].rstrip('()'))
        if k2 is not None and k2.kind in ('method', 'prop'):
            r = parts_read(part, leaf[1].rstrip('()'))
            return r is not None and all((leaf[0],) + x in cov or any(c[-1] == '*' and ((leaf[0],) + x)[:len(c) - 1] == c[:-1] for c in cov) or x[0] in NEUTRAL for x in r)
    return False
NEUTRAL = {'_steer_funcs_freq'}       # table of functions that is never assigned
