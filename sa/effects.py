"""What the library does to the world outside: every use of a function that runs code, opens files or changes them.

The analysis goes over the syntax of every module of the package. Each name and attribute chain is resolved through
the imports to the builtin or library function that it means, whether it is called or passed on. Names that are bound
locally are not builtins. A function counts as used if anything outside its own body and outside `if __name__ ==
'__main__'` refers to it.
"""
import ast
import builtins

RUN = {'eval', 'exec', 'compile', '__import__'}
RUNS = ('os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.posix_spawn', 'os.fork', 'subprocess.', 'pty.', 'importlib.', 'runpy.', 'ctypes.', 'marshal.load', 'shelve.',
        'dill.', 'yaml.load', 'yaml.unsafe_load', 'yaml.full_load', 'code.', 'codeop.', 'socket.', 'urllib.request.', 'http.client.', 'ftplib.', 'smtplib.', 'requests.',
        'webbrowser.', 'commands.', 'types.FunctionType', 'types.CodeType')
PICKLE = ('pickle.load', 'pickle.Unpickler', 'cPickle.load', '_pickle.load')
OPEN = ('io.open', 'io.FileIO', 'os.open', 'gzip.open', 'gzip.GzipFile', 'bz2.open', 'bz2.BZ2File', 'lzma.open', 'zipfile.ZipFile', 'tarfile.open', 'codecs.open', 'pathlib.Path',
        'pathlib.PosixPath', 'mmap.', 'fileinput.', 'linecache.', 'tempfile.')
CHANGE = ('os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.replace', 'os.truncate', 'os.chmod', 'os.chown', 'os.symlink', 'os.link', 'os.mkdir',
          'os.makedirs', 'os.mkfifo', 'os.kill', 'os.putenv', 'os.chdir', 'shutil.')


def match(name, table):
    return any(name == t or t.endswith('.') and name.startswith(t) or name.startswith(t) and t[-1] != '.' and '.' in t for t in table)


def local_names(fn):
    """Names a function binds."""
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
    return out


def local_imports(fn):
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Import):
            for al in n.names:
                out[al.asname or al.name.split('.')[0]] = al.name if al.asname else al.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for al in n.names:
                out[al.asname or al.name] = '%s.%s' % (n.module, al.name)
    return out


class Uses:
    """(module, function or None, node, dotted name of the library function or builtin)"""

    def __init__(self, P, package='pdfmajor'):
        self.P = P
        self.sites = []
        self.functions = 0
        self.calls = 0
        self.refs = {}          # name -> [(module, enclosing functions)]
        for m in P.modules.values():
            if m.name == package or m.name.startswith(package + '.'):
                self.walk(m, m.tree, [], {}, False)

    def walk(self, m, n, fns, imps, main):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions += 1
                i = dict(imps)
                i.update(local_imports(c))
                for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x]:
                    self.walk(m, ast.Expression(d), fns, imps, main)
                body = ast.Module(c.body, [])
                self.walk(m, body, fns + [c], i, main)
                continue
            if isinstance(c, ast.If) and isinstance(c.test, ast.Compare) and isinstance(c.test.left, ast.Name) and c.test.left.id == '__name__':
                continue
            if isinstance(c, ast.Call):
                self.calls += 1
            if isinstance(c, (ast.Name, ast.Attribute)):
                nm = self.meaning(m, c, fns, imps)
                if nm is not None:
                    self.sites.append((m, fns, c, nm, n))
                k = c.id if isinstance(c, ast.Name) else c.attr
                self.refs.setdefault(k, []).append((m, fns))
            self.walk(m, c, fns, imps, main)

    def meaning(self, m, n, fns, imps):
        chain = []
        while isinstance(n, ast.Attribute):
            chain.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
            return None
        chain.reverse()
        if n.id in imps:
            return '.'.join([imps[n.id]] + chain)
        if any(n.id in local_names(f) for f in fns):
            return None
        r = self.P.lookup(m.name, n.id)
        if r is None:
            return n.id if not chain and hasattr(builtins, n.id) else None
        for k in range(len(chain) + 1):
            if r is None:
                return None
            if r[0] == 'ext':
                return '.'.join([r[1]] + chain[k:])
            if r[0] == 'mod' and k < len(chain):
                r = self.P.lookup(r[1], chain[k])
                continue
            if r[0] == 'expr' and isinstance(r[2], (ast.Name, ast.Attribute)):
                r2 = self.meaning(r[1], r[2], [], {})
                return '.'.join([r2] + chain[k:]) if r2 else None
            return None
        return None

    def used(self, fns):
        """Whether the function is referred to from outside itself."""
        for f in fns:
            if f.name.startswith('__') or f.decorator_list:
                continue
            if not any(f not in g for _, g in self.refs.get(f.name, ())):
                return False
        return True


def mode_of(parent, node):
    """The mode a file is opened with, None where that is not a constant."""
    if not isinstance(parent, ast.Call) or parent.func is not node:
        return None
    args = parent.args[1:2] + [k.value for k in parent.keywords if k.arg == 'mode']
    if not args:
        return 'r'
    return args[0].value if isinstance(args[0], ast.Constant) and isinstance(args[0].value, str) else None


def analyse(P, R, prop, readers, writers):
    """readers: modules whose reads are decided by value elsewhere; writers: modules and classes that write what the caller asks for."""
    U = Uses(P)
    R.rule('every use of a builtin or library function, resolved through imports, is sorted by effect: none runs code or talks to the network; '
           'pickles are read by the loader of predefined maps alone; files are opened by the interpreter, that loader and what writes output alone')
    R.count('functions scanned for effects', U.functions)
    R.count('calls scanned for effects', U.calls)
    bad = {'code': [], 'pickle': [], 'open': [], 'change': []}
    n = {k: 0 for k in bad}

    def inside(m, fns, names):
        return any(m.name == x or x.endswith('.') and (m.name + '.').startswith(x) for x in names)

    for m, fns, node, nm, parent in U.sites:
        where = '%s:%d' % (m.rel, node.lineno)
        if nm in RUN or match(nm, RUNS):
            n['code'] += 1
            if U.used(fns):
                bad['code'].append((where, '%s is used, which runs code or reaches outside' % nm))
        elif match(nm, PICKLE):
            n['pickle'] += 1
            if U.used(fns) and not inside(m, fns, readers):
                bad['pickle'].append((where, '%s is used on data that are no predefined map' % nm))
        elif nm == 'open' or match(nm, OPEN):
            n['open'] += 1
            if not U.used(fns) or inside(m, fns, writers):
                continue
            mode = mode_of(parent, node)
            if not inside(m, fns, readers):
                bad['open'].append((where, '%s is used while a document is read' % nm))
            elif mode is not None and set(mode) & set('wax+'):
                bad['open'].append((where, 'a file is opened for writing (%r) while a document is read' % mode))
        elif match(nm, CHANGE):
            n['change'] += 1
            if U.used(fns) and not inside(m, fns, writers):
                bad['change'].append((where, '%s is used, which changes files or the process, while a document is read' % nm))
    for k in bad:
        R.count('sites: ' + k, n[k])
        if not bad[k]:
            R.ok('%s.effects_%s' % (prop, k), '', '%d sites' % n[k])
        for where, text in bad[k]:
            R.bad('%s.effects_%s' % (prop, k), where, text)
