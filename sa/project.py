"""Program database: parses the repository's Python sources and resolves names.

Nothing here executes repository code: every fact comes from the syntax tree
(`ast`) of the files found in the working tree at the moment of the run.
"""
import ast
import builtins
import hashlib
import os
import warnings

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unreadable file)."""


class Missing(AnalysisError):
    pass


class Func:
    __slots__ = ('node', 'module', 'cls', 'qual', 'name', 'is_gen', 'decos', 'outer', 'kind', '_closure')

    def __init__(self, node, module, cls, qual, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.name = getattr(node, 'name', '<lambda>')
        self.outer = outer
        self.decos = list(getattr(node, 'decorator_list', []))
        self.is_gen = _has_yield(node)
        self.kind = 'function'
        for d in self.decos:
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                self.kind = d.id
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter'):
                self.kind = 'setter'

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    __slots__ = ('node', 'module', 'qual', 'name', 'body', 'bases', 'outer', '_mro', 'assigns')

    def __init__(self, node, module, qual, outer=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.outer = outer
        self.body = {}      # name -> Func | Class | ast expr node
        self.bases = None
        self._mro = None
        self.assigns = []

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module:
    def __init__(self, name, path, rel, is_pkg, data=None):
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        if data is None:
            with open(path, 'rb') as f:
                data = f.read()
        self.sha = hashlib.sha256(data).hexdigest()
        self.src = data.decode('utf-8')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, path)
        self.scope = {}     # name -> ('func',Func)|('class',Class)|('import',mod,attr|None)|('expr',node)|('opaque',node)
        self.stars = []     # star imports, in order
        self.multi = {}     # name -> number of top-level bindings

    def __repr__(self):
        return '<Module %s>' % self.name


def _has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Project:
    PACKAGES = ('pdfmajor', 'tools', 'bin')

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}      # qual -> Func
        self.classes = {}    # qual -> Class
        self.func_of_node = {}
        self.class_of_node = {}
        for pkg in self.PACKAGES:
            root = os.path.join(self.repo, pkg)
            if not os.path.isdir(root):
                if pkg == 'pdfmajor':
                    raise Missing('package directory %s is gone' % root)
                continue
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == '__init__'
                    if is_pkg:
                        parts = parts[:-1]
                    name = '.'.join(parts)
                    try:
                        m = Module(name, p, rel, is_pkg)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (rel, e))
                    # a package wins over a same-named empty module
                    self.modules[name] = m
        for m in self.modules.values():
            self._index(m)
        self._subs = None

    def add_source(self, name, src):
        """Add a module that is not part of the repository (a reference text)."""
        m = Module(name, '<%s>' % name, name, False, src.encode('utf-8'))
        self.modules[name] = m
        self._index(m)
        self._subs = None
        return m

    # ---- indexing -------------------------------------------------------
    def _index(self, m):
        def bind(name, b):
            m.multi[name] = m.multi.get(name, 0) + 1
            m.scope[name] = b

        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._func(s, m, None, m.name + '.' + s.name)
                    bind(s.name, ('func', f))
                elif isinstance(s, ast.ClassDef):
                    c = self._class(s, m, m.name + '.' + s.name)
                    bind(s.name, ('class', c))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            bind(a.asname, ('import', a.name, None))
                        else:
                            bind(a.name.split('.')[0], ('import', a.name.split('.')[0], None))
                elif isinstance(s, ast.ImportFrom):
                    src = self.resolve_from(m, s)
                    for a in s.names:
                        if a.name == '*':
                            m.stars.append(src)
                        else:
                            bind(a.asname or a.name, ('import', src, a.name))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            bind(t.id, ('expr', s.value))
                        else:
                            for n in ast.walk(t):
                                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                    bind(n.id, ('opaque', s))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        bind(s.target.id, ('expr', s.value))
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    bind(s.target.id, ('opaque', s))
                elif isinstance(s, (ast.For, ast.While, ast.With, ast.If, ast.Try)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                bind(n.id, ('opaque', s))
                    for fld in ('body', 'orelse', 'finalbody'):
                        top(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []) or []:
                        top(h.body)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name):
                                        bind(n.id, ('opaque', s))
        top(m.tree.body)

    def _func(self, node, m, cls, qual, outer=None):
        f = Func(node, m, cls, qual, outer)
        if qual not in self.funcs:
            self.funcs[qual] = f
        else:
            k = 2
            while '%s#%d' % (qual, k) in self.funcs:
                k += 1
            f.qual = '%s#%d' % (qual, k)
            self.funcs[f.qual] = f
        self.func_of_node[id(node)] = f
        # nested
        def nest(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._func(s, m, cls, f.qual + '.<locals>.' + s.name, outer=f)
                elif isinstance(s, ast.ClassDef):
                    self._class(s, m, f.qual + '.<locals>.' + s.name, outer=f)
                else:
                    for fld in ('body', 'orelse', 'finalbody'):
                        sub = getattr(s, fld, None)
                        if isinstance(sub, list):
                            nest(sub)
                    for h in getattr(s, 'handlers', []) or []:
                        nest(h.body)
        nest(node.body)
        for n in ast.walk(node):
            if isinstance(n, ast.Lambda) and id(n) not in self.func_of_node:
                lf = Func(n, m, cls, '%s.<lambda:%d:%d>' % (f.qual, n.lineno, n.col_offset), f)
                self.func_of_node[id(n)] = lf
                self.funcs[lf.qual] = lf
        return f

    def _class(self, node, m, qual, outer=None):
        c = Class(node, m, qual, outer)
        self.classes[qual] = c
        self.class_of_node[id(node)] = c

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._func(s, m, c, qual + '.' + s.name)
                    if f.kind != 'setter':
                        c.body[s.name] = f
                elif isinstance(s, ast.ClassDef):
                    c.body[s.name] = self._class(s, m, qual + '.' + s.name, outer=c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.body[t.id] = s.value
                            c.assigns.append((t.id, s.value))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    c.body[e.id] = None
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        c.body[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        body(getattr(s, fld, []) or [])
        body(node.body)
        return c

    # ---- imports --------------------------------------------------------
    def resolve_from(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split('.')
        return '.'.join(parts)

    def public_names(self, modname, _seen=None):
        """Names a `from mod import *` would bring in."""
        _seen = _seen if _seen is not None else set()
        if modname in _seen or modname not in self.modules:
            return set()
        _seen.add(modname)
        m = self.modules[modname]
        b = m.scope.get('__all__')
        if b and b[0] == 'expr':
            try:
                return set(ast.literal_eval(b[1]))
            except Exception:
                pass
        names = set(n for n in m.scope if not n.startswith('_'))
        for s in m.stars:
            names |= self.public_names(s, _seen)
        # submodules imported as attributes
        for sub in self.modules:
            if sub.startswith(modname + '.') and '.' not in sub[len(modname) + 1:]:
                if self._submodule_loaded(modname, sub):
                    names.add(sub.rsplit('.', 1)[1])
        return names

    def _submodule_loaded(self, pkg, sub):
        """True when importing the package also imports the submodule."""
        m = self.modules[pkg]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.resolve_from(m, n)
                if src == sub or src.startswith(sub + '.'):
                    return True
                if src == pkg and any(pkg + '.' + a.name == sub for a in n.names):
                    return True
            elif isinstance(n, ast.Import):
                if any(a.name == sub or a.name.startswith(sub + '.') for a in n.names):
                    return True
        return False

    def lookup(self, modname, name, _seen=None):
        """Resolve a module-level name.

        ('func',F) ('class',C) ('mod',name) ('ext',dotted) ('expr',Module,node)
        ('opaque',Module,node) or None.
        """
        _seen = _seen if _seen is not None else set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', '%s.%s' % (modname, name))
        b = m.scope.get(name)
        if b is not None:
            if b[0] in ('func', 'class'):
                return b
            if b[0] == 'import':
                (_, src, attr) = b
                if attr is None:
                    return ('mod', src) if src in self.modules else ('ext', src)
                if src in self.modules:
                    r = self.lookup(src, attr, _seen)
                    if r is not None:
                        return r
                    if src + '.' + attr in self.modules:
                        return ('mod', src + '.' + attr)
                    return None
                if src + '.' + attr in self.modules:
                    return ('mod', src + '.' + attr)
                return ('ext', '%s.%s' % (src, attr))
            return (b[0], m, b[1])
        for s in reversed(m.stars):
            if s in self.modules:
                if name in self.public_names(s):
                    r = self.lookup(s, name, _seen)
                    if r is not None:
                        return r
        if m.is_pkg and modname + '.' + name in self.modules:
            return ('mod', modname + '.' + name)
        return None

    # ---- classes --------------------------------------------------------
    def bases(self, c):
        """Base classes: Class objects for project classes, str for the rest."""
        if c.bases is None:
            c.bases = []
            for b in c.node.bases:
                c.bases.append(self.resolve_class_expr(c.module, b))
        return c.bases

    def resolve_class_expr(self, module, node):
        r = self.resolve_expr(module, node)
        if r and r[0] == 'class':
            return r[1]
        if r and r[0] == 'ext':
            return r[1]
        if isinstance(node, ast.Name) and hasattr(builtins, node.id):
            return node.id
        return ast.unparse(node)

    def resolve_expr(self, module, node):
        """Static resolution of a Name/Attribute chain at module level."""
        if isinstance(node, ast.Name):
            r = self.lookup(module.name, node.id)
            if r and r[0] == 'expr' and isinstance(r[2], (ast.Name, ast.Attribute)):
                return self.resolve_expr(r[1], r[2])
            return r
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(module, node.value)
            if r is None:
                return None
            if r[0] == 'mod':
                return self.lookup(r[1], node.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + node.attr)
            if r[0] == 'class':
                a = self.class_attr(r[1], node.attr)
                if isinstance(a, Func):
                    return ('func', a)
                if isinstance(a, Class):
                    return ('class', a)
        return None

    def mro(self, c):
        if c._mro is None:
            out, seen = [], set()

            def visit(k):
                if isinstance(k, Class):
                    if k.qual in seen:
                        return
                    seen.add(k.qual)
                    out.append(k)
                    for b in self.bases(k):
                        visit(b)
                elif k not in seen:
                    seen.add(k)
                    out.append(k)
            visit(c)
            c._mro = out
        return c._mro

    @staticmethod
    def body_key(k, name):
        """Key of attribute `name` (possibly private-mangled) in the body of k."""
        if name in k.body:
            return name
        pre = '_%s__' % k.name.lstrip('_')
        if name.startswith(pre) and name[len(pre) - 2:] in k.body:
            return name[len(pre) - 2:]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                n = self.body_key(k, name)
                if n is not None:
                    return k.body[n]
        return None

    def class_attr_owner(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and self.body_key(k, name) is not None:
                return k
        return None

    def is_subclass(self, c, d):
        """c: Class; d: Class or builtin/ext name."""
        m = self.mro(c)
        if isinstance(d, Class):
            return any(isinstance(k, Class) and k is d for k in m)
        if any((not isinstance(k, Class)) and (k == d or k.split('.')[-1] == d) for k in m):
            return True
        # builtin hierarchy
        for k in m:
            if not isinstance(k, Class) and hasattr(builtins, k) and hasattr(builtins, d):
                a, b = getattr(builtins, k), getattr(builtins, d)
                if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                    return True
        return d == 'object'

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in self.mro(k)[1:]:
                    if isinstance(b, Class):
                        self._subs.setdefault(b.qual, []).append(k)
        return self._subs.get(c.qual, [])

    # ---- anchors --------------------------------------------------------
    def need_module(self, name):
        if name not in self.modules:
            raise Missing('module %s not found' % name)
        return self.modules[name]

    def find_class(self, name, within='pdfmajor'):
        """A class by its short name (unique), wherever it has been moved to."""
        c = [k for k in self.classes.values() if k.name == name and k.qual.startswith(within)
             and '<locals>' not in k.qual]
        if not c:
            raise Missing('class %s not found under %s' % (name, within))
        return c

    def need_class(self, name, within='pdfmajor', prefer=None):
        c = self.find_class(name, within)
        if len(c) > 1 and prefer:
            d = [k for k in c if prefer in k.qual]
            if d:
                c = d
        if len(c) > 1:
            # prefer the one actually imported somewhere
            c.sort(key=lambda k: k.qual)
            used = [k for k in c if self._is_imported(k)]
            if len(used) >= 1:
                c = used
        return c[0]

    def _is_imported(self, k):
        for m in self.modules.values():
            for b in m.scope.values():
                if b[0] == 'import' and b[2] == k.name:
                    r = self.lookup(m.name, k.name)
                    if r and r[0] == 'class' and r[1] is k:
                        return True
        return False

    def need_func(self, name, within='pdfmajor', cls=None):
        if cls is not None:
            c = cls if isinstance(cls, Class) else self.need_class(cls, within)
            a = self.class_attr(c, name)
            if not isinstance(a, Func):
                raise Missing('method %s.%s not found' % (c.name, name))
            return a
        f = [k for k in self.funcs.values()
             if k.name == name and k.cls is None and k.outer is None and k.qual.startswith(within)]
        if not f:
            raise Missing('function %s not found under %s' % (name, within))
        f.sort(key=lambda k: k.qual)
        if len(f) > 1:
            used = []
            for k in f:
                for m in self.modules.values():
                    if m is k.module:
                        continue
                    b = m.scope.get(name)
                    if b and b[0] == 'import':
                        r = self.lookup(m.name, name)
                        if r and r[0] == 'func' and r[1] is k:
                            used.append(k)
                            break
            if used:
                f = used
        return f[0]


def line_of(module, node):
    return '%s:%d' % (module.rel, getattr(node, 'lineno', 0))
