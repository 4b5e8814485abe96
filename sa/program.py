"""Source loading and static name resolution for the analysed repository."""
import ast
import warnings
warnings.filterwarnings('ignore', category=SyntaxWarning)
warnings.filterwarnings('ignore', category=DeprecationWarning)
import hashlib
import os


class Module(object):
    def __init__(self, name, path, tree, is_pkg, src):
        self.name, self.path, self.tree, self.is_pkg, self.src = name, path, tree, is_pkg, src
        self.defs = {}       # name -> ('func'|'class'|'assign'|'import'|'from', node, ...)
        self.table_attrs = {}
        self._collect(tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.defs[st.name] = ('func', st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ('class', st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('assign', st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('unpack', st.value, i)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        self.table_attrs[(t.value.id, t.attr)] = st.value
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        self._changed(t.value.id, lambda x: ast.Dict([None, t.slice], [x, st.value]), st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.defs[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._base(st)
                for a in st.names:
                    if a.name == '*':
                        self.defs.setdefault('*', []) if False else None
                        self.stars = getattr(self, 'stars', []) + [base]
                    else:
                        self.defs[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    sub = Module.__new__(Module)
                    sub.name, sub.is_pkg = self.name, self.is_pkg
                    sub.defs, sub.table_attrs = {}, {}
                    sub._collect(h.body)
                    for k, v in sub.defs.items():
                        self.defs.setdefault(k, v)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self._changed(st.target.id, lambda x: ast.BinOp(x, st.op, st.value), st)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name):
                self._call_changes(st.value.func.value.id, st.value.func.attr, st.value.args, st)
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs.pop(t.id, None)
            elif isinstance(st, (ast.If, ast.With)):
                self._collect(st.body)
                for k, v in list(self.defs.items()):
                    pass
                if isinstance(st, ast.If):
                    self._collect(st.orelse)

    # -- module-level values changed after their definition
    def _changed(self, name, build, st):
        d = self.defs.get(name)
        if d and d[0] == 'assign':
            e = ast.copy_location(build(d[1]), st)
            self.defs[name] = ('assign', ast.fix_missing_locations(e))

    def _call_changes(self, name, method, args, st):
        if len(args) != 1 or isinstance(args[0], ast.Starred):
            if method in ('clear',) and not args:
                self._changed(name, lambda x: ast.List([], ast.Load()), st)
            return
        a = args[0]
        if method == 'append':
            self._changed(name, lambda x: ast.BinOp(x, ast.Add(), ast.List([a], ast.Load())), st)
        elif method == 'extend':
            self._changed(name, lambda x: ast.BinOp(x, ast.Add(), a), st)
        elif method == 'add':
            self._changed(name, lambda x: ast.BinOp(x, ast.BitOr(), ast.Set([a])), st)
        elif method == 'update':
            d = self.defs.get(name)
            if d and d[0] == 'assign' and isinstance(d[1], (ast.Set, ast.SetComp)):
                self._changed(name, lambda x: ast.BinOp(x, ast.BitOr(), a), st)
            else:
                self._changed(name, lambda x: ast.Dict([None, None], [x, a]), st)
        elif method in ('remove', 'discard'):
            d = self.defs.get(name)
            if d and d[0] == 'assign':
                cmp = ast.Compare(ast.Name('_x', ast.Load()), [ast.NotEq()], [a])
                gen = ast.comprehension(ast.Name('_x', ast.Store()), d[1], [cmp], 0)
                kind = ast.SetComp if isinstance(d[1], (ast.Set, ast.SetComp)) else ast.ListComp
                self._changed(name, lambda x: kind(ast.Name('_x', ast.Load()), [gen]), st)

    def _base(self, st):
        if not st.level:
            return st.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts.append(st.module)
        return '.'.join(parts)


class Program(object):
    def __init__(self, root, package='ocelot', extra=()):
        self.root = root
        self.modules = {}
        self.errors = []
        self.digest = hashlib.sha256()
        base = os.path.join(root, package)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f), root)
        for path, name in extra:
            self._load(path, None, name)

    def _load(self, path, root, name=None):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        self.digest.update(path.encode() + b'\0' + src.encode())
        is_pkg = os.path.basename(path) == '__init__.py'
        if name is None:
            rel = os.path.relpath(path, root)[:-3].split(os.sep)
            if is_pkg:
                rel = rel[:-1]
            name = '.'.join(rel)
        tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, tree, is_pkg, src)

    # -- resolution of a global name to a definition site
    def find(self, modname, name, seen=None):
        """-> ('func'|'class'|'assign', Module, node) | ('module', name) | ('ext', dotted) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        d = m.defs.get(name)
        if d is None:
            for b in getattr(m, 'stars', []):
                if b in self.modules:
                    r = self.find(b, name, seen)
                    if r:
                        return r
            if modname + '.' + name in self.modules:
                return ('module', modname + '.' + name)
            return None
        if d[0] == 'func':
            return ('func', m, d[1])
        if d[0] == 'class':
            return ('class', m, d[1])
        if d[0] == 'assign':
            return ('assign', m, d[1])
        if d[0] == 'unpack':
            return ('unpack', m, d[1], d[2])
        if d[0] == 'import':
            if d[1] in self.modules:
                return ('module', d[1])
            return ('ext', d[1])
        if d[0] == 'from':
            base, nm = d[1], d[2]
            full = base + '.' + nm
            if base in self.modules:
                r = self.find(base, nm, seen)
                if r is not None:
                    return r
                if full in self.modules:
                    return ('module', full)
                return None
            if full in self.modules:
                return ('module', full)
            return ('ext', full)
        return None

    def function(self, qual):
        """'pkg.mod:func' or 'pkg.mod:Class.method' -> (Module, FunctionDef)"""
        mod, name = qual.split(':')
        if '.' in name:
            c, f = name.split('.')
            r = self.find(mod, c)
            if not r or r[0] != 'class':
                return None
            return self.method(r[1], r[2], f)
        r = self.find(mod, name)
        if not r or r[0] != 'func':
            return None
        return r[1], r[2]

    def method(self, m, cls, f, depth=0):
        for st in cls.body:
            if isinstance(st, ast.FunctionDef) and st.name == f:
                return m, st
        if depth > 8:
            return None
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.find(m.name, b.id)
                if r and r[0] == 'class':
                    h = self.method(r[1], r[2], f, depth + 1)
                    if h:
                        return h
        return None
