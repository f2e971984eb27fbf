"""Interprocedural value-flow analysis over the syntax tree.

Abstract interpretation of repository functions: every expression gets a term
(`terms.py`) saying where its value comes from; assignments, attribute stores
and list/dict updates go to an abstract heap; conditions that cannot be decided
partition the flow (bounded), loops are summarised by havocking whatever their
body can change.  No repository code is executed and no solver is consulted:
the only reasoning is constant folding and normal forms.
"""
import ast
import string
import json
import posixpath
import re
import builtins
import struct
import urllib.parse

from . import chars, words
from .project import AnalysisError, Class, Func, Missing
from .terms import (C, FALSE, NONE, S, TRUE, U, eq, is_c, is_num_c, is_str_c, norm, poly, frozen,
                    padd)


# library functions of constant texts that are folded
FOLDED = {'os.path.' + f: getattr(posixpath, f) for f in ('join', 'dirname', 'basename', 'normpath', 'isabs', 'split', 'splitext')}
# where the current folder is does not matter, only that there is one
FOLDED.update(('os.path.' + f, lambda p: posixpath.normpath(posixpath.join('/current', p))) for f in ('abspath', 'realpath'))
FOLDED.update(('re.' + f, getattr(re, f)) for f in ('search', 'match', 'fullmatch', 'sub', 'escape'))
FOLDED.update(('urllib.parse.' + f, getattr(urllib.parse, f)) for f in ('quote', 'unquote'))


MATCH = S('the match')
CHARS = {('call', ('m', MATCH, 'group'), (), ()), ('call', ('m', MATCH, 'group'), (C(0),), ()), ('item', MATCH, C(0)), ('sub', MATCH, C(0))}


def subst_char(t):
    """All ways to write the matched character are one."""
    if t in CHARS:
        return S('the character')
    return tuple(subst_char(x) if isinstance(x, tuple) else x for x in t)


class Exc:
    """Evaluation raised: the value is the exception term."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ctl:
    """Non-local control out of an inlined generator."""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v


def bad(v):
    return isinstance(v, (Exc, Ctl))


class HObj:
    __slots__ = ('kind', 'cls', 'attrs', 'base', 'segs', 'entries', 'exact', 'maybe_none')

    def __init__(self, kind, cls=None, attrs=None, base=None, segs=(), entries=(), exact=False,
                 maybe_none=False):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs or {}
        self.base = base
        self.segs = segs
        self.entries = entries
        self.exact = exact
        self.maybe_none = maybe_none

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return HObj(**d)

    def key(self):
        return (self.kind, self.cls, tuple(sorted(self.attrs.items(), key=repr)), self.base,
                self.segs, self.entries)

    def __eq__(self, o):
        return (self is o) or (isinstance(o, HObj) and self.kind == o.kind and self.cls is o.cls and
                               self.attrs == o.attrs and self.base == o.base and
                               self.segs == o.segs and self.entries == o.entries)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class State:
    __slots__ = ('frames', 'heap', 'pc', 'trace', 'seq')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = {}
        self.trace = ()
        self.seq = {}

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = dict(self.pc)
        s.trace = self.trace
        s.seq = dict(self.seq)
        return s


def same_state(a, b):
    return (a.trace is b.trace or a.trace == b.trace) and a.frames == b.frames and a.pc == b.pc and a.seq == b.seq and all(
        k in b.heap and b.heap[k] == v for k, v in a.heap.items())


class Fr:
    __slots__ = ('fid', 'func', 'module', 'cls', 'globals_')

    def __init__(self, fid, func, module, cls):
        self.fid = fid
        self.func = func
        self.module = module
        self.cls = cls
        self.globals_ = set()


class LoopSummary:
    def __init__(self, tag, node, func, iterable, elem, entry, pre, outs):
        self.tag = tag
        self.node = node
        self.func = func
        self.iterable = iterable
        self.elem = elem
        self.entry = entry
        self.pre = pre
        self.outs = outs


IMPURE = {'read', 'readline', 'nexttoken', 'nextobject', 'nextline', 'tell', '__next__', 'next',
          'pop', 'popitem', 'recv', 'get_token', 'popall', 'random', 'time', 'readbits'}

PURE_BUILTINS = {'len', 'str', 'repr', 'int', 'float', 'bool', 'min', 'max', 'sum', 'abs', 'round',
                 'ord', 'chr', 'sorted', 'bytes', 'hash', 'divmod', 'pow', 'hex', 'bin', 'tuple'}

BUILTIN_TYPES = {'int', 'float', 'str', 'bytes', 'bool', 'list', 'dict', 'tuple', 'set',
                 'bytearray', 'frozenset', 'object', 'type'}


BYTE_FORMATS = ('B', '>B', '<B', '=B', '!B')


def one_byte(t):
    """n when t is the single byte n."""
    if t[0] != 'call' or t[3]:
        return None
    f, a = t[1], t[2]
    if f == ('ext', 'struct.pack') and len(a) == 2 and is_c(a[0]) and a[0][2] in BYTE_FORMATS:
        return a[1]
    if f[0] == 'm' and f[2] == 'pack' and len(a) == 1 and f[1][0] == 'call' and f[1][1] == ('ext', 'struct.Struct') \
            and len(f[1][2]) == 1 and is_c(f[1][2][0]) and f[1][2][0][2] in BYTE_FORMATS:
        return a[0]
    if f == ('bi', 'bytes') and len(a) == 1 and a[0][0] in ('t', 'listv') and len(a[0][1]) == 1:
        return a[0][1][0]
    return None


def slice_term(b, lo, hi, step):
    """b[lo:hi:step], with a slice of a slice taken together where both count from the start."""
    def front(x):
        return x == NONE or is_num_c(x) and isinstance(x[2], int) and x[2] >= 0
    if step == NONE and lo == C(0):
        lo = NONE
    if step == NONE and b[0] == 'slice' and b[4] == NONE and all(front(x) for x in (lo, hi, b[2], b[3])):
        a = 0 if b[2] == NONE else b[2][2]
        at = a + (0 if lo == NONE else lo[2])
        ends = ([] if b[3] == NONE else [b[3][2]]) + ([] if hi == NONE else [a + hi[2]])
        return ('slice', b[1], C(at) if at else NONE, C(min(ends)) if ends else NONE, NONE)
    return ('slice', b, lo, hi, step)


# builtins that never return None
# values of different ones of these are never equal
DISTINCT = {t: t for t in ('str', 'bytes', 'list', 'tuple', 'dict', 'set')}
DISTINCT.update({t: 'number' for t in ('int', 'float', 'bool')})
MAKERS = frozenset(('bi', n) for n in ('int', 'float', 'len', 'str', 'bytes', 'bool', 'ord', 'chr', 'list', 'tuple', 'dict', 'sorted', 'abs'))
EXT_CONST = {'os.sep': '/', 'os.path.sep': '/', 'os.pardir': '..', 'os.curdir': '.', 'os.path.pardir': '..'}
EXT_CONST.update({'string.' + n: getattr(string, n) for n in (
    'ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits', 'punctuation', 'whitespace', 'printable')})


def library(name):
    return C(EXT_CONST[name]) if name in EXT_CONST else ('ext', name)


class Engine:
    def __init__(self, project, opaque=None, typer=None, max_states=400, max_depth=24,
                 assert_raises=False, record_calls=True, truthy=None):
        self.P = project
        self.opaque = opaque or (lambda f: False)
        self.typer = typer or (lambda t: None)
        self.truthy = truthy
        self.max_states = max_states
        self.max_depth = max_depth
        self.assert_raises = assert_raises
        self.record_calls = record_calls
        self.loops = []
        self.problems = []
        self.visited = {}
        self.try_stack = []
        self.in_tables = False
        self.forever = []       # decided loops that come back to a state
        self.unending = []      # recursions and decided loops that were cut off
        self.gen_cb = {}
        self.gens = {}
        self.callstack = []
        self.rec_limit = 1
        self.cut = set()        # results of calls not entered because of recursion
        self.exc_stack = []
        self.n = 0
        self.probing = 0
        self.glob_busy = set()
        self.atype_cache = {}
        self.path_count = 0

    # ------------------------------------------------------------------ util
    def new(self):
        self.n += 1
        return self.n

    def problem(self, why):
        if why not in self.problems:
            self.problems.append(why)

    def cap(self, lst, what):
        if len(lst) > self.max_states:
            lst = self.merge_equal(lst)
        if len(lst) > self.max_states:
            self.problem('more than %d paths at %s' % (self.max_states, what))
            lst = lst[:self.max_states]
        return lst

    def merge_equal(self, lst):
        out = []
        seen = {}
        for it in lst:
            s = it[-1]
            k = (repr(it[:-1]), len(s.trace), len(s.heap), len(s.frames))
            dup = False
            for o in seen.get(k, ()):
                if o.frames == s.frames and o.heap == s.heap and o.trace == s.trace:
                    dup = True
                    o.pc = {a: b for a, b in o.pc.items() if s.pc.get(a) == b}
                    break
            if not dup:
                seen.setdefault(k, []).append(s)
                out.append(it)
        return out

    # ------------------------------------------------------------------ heap
    def alloc(self, st, h, hint='o'):
        i = '%s%d' % (hint, self.new())
        st.heap[i] = h
        return ('ref', i)

    def new_list(self, st, segs=()):
        return self.alloc(st, HObj('list', segs=tuple(segs)), 'L')

    def new_dict(self, st, entries=(), base=None):
        return self.alloc(st, HObj('dict', entries=tuple(entries), base=base), 'D')

    def sym_obj(self, st, cls, base, exact=False, maybe_none=False):
        i = ('sym', base)
        if i not in st.heap:
            st.heap[i] = HObj('obj', cls=cls, base=base, exact=exact, maybe_none=maybe_none)
        return ('ref', i)

    def sym_list(self, st, base):
        i = ('sym', base)
        if i not in st.heap:
            st.heap[i] = HObj('list', base=base, segs=(('r', base),))
        return ('ref', i)

    def sym_dict(self, st, base):
        i = ('sym', base)
        if i not in st.heap:
            st.heap[i] = HObj('dict', base=base)
        return ('ref', i)

    def obj(self, v, st):
        if v[0] == 'ref':
            return st.heap.get(v[1])
        return None

    def typed(self, st, term, ty):
        """Make a symbolic value for `term` of the described type."""
        if ty is None:
            ty = self.typer(term)
        if ty is None:
            return term
        if isinstance(ty, Class):
            return self.sym_obj(st, ty, term)
        k = ty[0]
        if k == 'cls':
            return self.sym_obj(st, ty[1], term, maybe_none=ty[2], exact=len(ty) > 3 and ty[3])
        if k == 'list':
            return self.sym_list(st, term)
        if k == 'dict':
            return self.sym_dict(st, term)
        return term

    def ann_type(self, module, node):
        """Class named by an annotation, if any."""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.P.resolve_expr(module, node)
            if r and r[0] == 'class':
                return ('cls', r[1], False)
            if isinstance(node, ast.Name) and node.id in ('list', 'dict', 'List', 'Dict'):
                return (node.id.lower(),)
            if isinstance(node, ast.Name) and node.id == 'OrderedDict':
                return ('dict',)
        if isinstance(node, ast.Subscript):
            b = node.value
            n = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')
            if n == 'Optional':
                t = self.ann_type(module, node.slice)
                if t and t[0] == 'cls':
                    return ('cls', t[1], True)
                return t
            if n == 'List':
                return ('list',)
            if n == 'Dict':
                return ('dict',)
        return None

    def attr_type(self, cls, name):
        key = (cls.qual, name)
        if key in self.atype_cache:
            return self.atype_cache[key]
        res = None
        for k in self.P.mro(cls):
            if not isinstance(k, Class):
                continue
            fs = [f for f in k.body.values() if isinstance(f, Func)]
            fs.sort(key=lambda f: f.name != '__init__')
            for f in fs:
                if not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                params = {a.arg: a.annotation for a in f.node.args.args}
                for n in ast.walk(f.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                            and tgt.value.id == me and self.mangle(tgt.attr, k) == name):
                        continue
                    t = None
                    if isinstance(val, ast.Call):
                        r = self.P.resolve_expr(f.module, val.func)
                        if r and r[0] == 'class':
                            t = ('cls', r[1], False)
                    if t is None and ann is not None:
                        t = self.ann_type(f.module, ann)
                        if t and t[0] == 'cls' and isinstance(val, ast.Constant) and val.value is None:
                            t = ('cls', t[1], True)
                    if t is None and isinstance(val, ast.Name) and params.get(val.id) is not None:
                        t = self.ann_type(f.module, params[val.id])
                    if t is None and isinstance(val, (ast.List, ast.ListComp)):
                        t = ('list',)
                    if t is None and isinstance(val, (ast.Dict, ast.DictComp)):
                        t = ('dict',)
                    if t is None and isinstance(val, ast.Name) and val.id == 'self':
                        t = ('cls', cls, False)
                    if t is not None and f.name == '__init__':
                        res = t
                        break
                    if t is not None and res is None and f.name != '__init__':
                        res = None if t[0] in ('list', 'dict') else ('cls', t[1], True)
                if res is not None:
                    break
            if res is not None:
                break
        self.atype_cache[key] = res
        return res

    @staticmethod
    def mangle(name, cls):
        if cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (cls.name.lstrip('_'), name)
        return name

    # ------------------------------------------------------ canonical values
    def canon(self, v, st, _seen=()):
        if not isinstance(v, tuple) or not v or v[0] == 'c':
            return v
        if v[0] == 'ref':
            if v[1] in _seen:
                return ('s', '<cycle>')
            h = st.heap.get(v[1])
            if h is None:
                return v
            seen = _seen + (v[1],)
            if h.kind == 'obj':
                if h.base is not None:
                    ch = []
                    for a, x in sorted(h.attrs.items()):
                        init = self.init_attr(h, a, st.fork() if False else st)
                        if init is not None and (x == init):
                            # unchanged object attribute: but its own content may have changed
                            if x[0] == 'ref':
                                cx = self.canon(x, st, seen)
                                if cx != ('attr', h.base, a):
                                    ch.append((a, cx))
                            continue
                        cx = self.canon(x, st, seen)
                        if norm(cx) != norm(('attr', h.base, a)):
                            ch.append((a, cx))
                    if not ch:
                        return h.base
                    return ('modified', h.base, tuple(ch))
                return ('obj', h.cls.qual if h.cls else '?',
                        tuple((a, self.canon(x, st, seen)) for a, x in sorted(h.attrs.items())))
            if h.kind == 'list':
                if h.base is not None and h.segs == (('r', h.base),):
                    return h.base
                if len(h.segs) == 1 and h.segs[0][0] == 'r':
                    return self.canon(h.segs[0][1], st, seen)
                if all(s[0] == 'e' for s in h.segs):
                    return ('listv', tuple(s[1] if s[1][0] == 'c' else self.canon(s[1], st, seen) for s in h.segs))
                return ('cat', tuple(
                    ('listv', (self.canon(s[1], st, seen),)) if s[0] == 'e' else
                    (self.canon(s[1], st, seen) if s[0] == 'r' else
                     ('many', tuple(self.canon(x, st, seen) for x in s[1]), self.canon(s[2], st, seen)))
                    for s in h.segs)) if h.segs else ('listv', ())
            if h.kind == 'dict':
                if h.base is not None and not h.entries:
                    return h.base
                return ('dictv', tuple((self.canon(k, st, seen), self.canon(x, st, seen))
                                       for k, x in h.entries), h.base)
            if h.kind == 'set':
                return ('setv', tuple(self.canon(s[1], st, seen) for s in h.segs))
            return v
        return tuple(self.canon(x, st, _seen) if isinstance(x, tuple) else x for x in v)

    def cn(self, v, st):
        return norm(self.canon(v, st))

    # ------------------------------------------------------------ attributes
    def init_attr(self, h, name, st):
        """Initial value of an attribute of a symbolic object (None if not data)."""
        if h.base is None:
            return None
        t = ('attr', h.base, name)
        ty = self.typer(t)
        if ty is None and h.cls is not None:
            ty = self.attr_type(h.cls, name)
        if ty is None:
            return t
        if isinstance(ty, Class) or ty[0] in ('cls', 'list', 'dict'):
            return ('ref', ('sym', t))
        return t

    def getattr(self, v, name, st, fr, node=None):
        """-> [(value, state)]"""
        k = v[0]
        if k == 'ref':
            h = st.heap[v[1]]
            if h.kind == 'obj':
                if name in h.attrs:
                    return [(h.attrs[name], st)]
                if name == '__class__' and h.cls is not None:
                    return [(('cls', h.cls.qual), st)]
                if name == '__dict__':
                    return [(U('__dict__'), st)]
                if h.cls is not None:
                    a = self.P.class_attr(h.cls, name)
                    if a is None and name in self.classbody_names(h.cls):
                        a = None
                    if isinstance(a, Func):
                        return self.bind_method(v, h, a, name, st, fr, node)
                    if isinstance(a, Class):
                        return [(('cls', a.qual), st)]
                    if a is not None and not (h.base is not None and self.attr_type(h.cls, name)):
                        own = self.P.class_attr_owner(h.cls, name)
                        assigned = self.instance_assigned(h.cls, name)
                        if h.base is not None and assigned:
                            pass
                        else:
                            return self.class_value(own, name, a, st)
                if h.base is not None:
                    if h.cls is not None and fr is not None and fr.module is not None and \
                            fr.module.name.startswith('verif_driver') and not self.known_attr(h.cls, name):
                        self.problem('%s has no attribute %s' % (h.cls.qual, name))
                    ty = self.typer(('attr', h.base, name))
                    if ty is None and h.cls is not None:
                        ty = self.attr_type(h.cls, name)
                    x = self.typed(st, ('attr', h.base, name), ty)
                    h2 = st.heap[v[1]]
                    na = dict(h2.attrs)
                    na[name] = x
                    st.heap[v[1]] = h2.with_(attrs=na)
                    return [(x, st)]
                if h.cls is not None and h.maybe_none is not True:
                    ext = [b for b in self.P.mro(h.cls) if not isinstance(b, Class) and b != 'object']
                    if ext:
                        return [(('m', v, name), st)]
                self.may_raise(st, 'AttributeError')
                return [(('attr', v, name), st)]
            return [(('m', v, name), st)]
        if k == 'cls':
            return self.class_getattr(v, name, st, fr)
        if k == 'mod':
            return [(self.global_value(v[1], name, st), st)]
        if k == 'ext':
            return [(library(v[1] + '.' + name), st)]
        if k == 'enum':
            c = self.P.classes[v[1]]
            if name == 'name':
                return [(C(v[2]), st)]
            if name == 'value':
                e = c.body.get(v[2])
                try:
                    return [(C(ast.literal_eval(e)), st)]
                except Exception:
                    return [(('attr', v, 'value'), st)]
            a = self.P.class_attr(c, name)
            if isinstance(a, Func):
                return self.bind_method(v, None, a, name, st, fr, node)
            return [(('attr', v, name), st)]
        if k == 'f':
            if name == '__code__':
                return [(('code', v), st)]
            if name == '__name__':
                return [(C(self.P.funcs[v[1]].name), st)]
            return [(('attr', v, name), st)]
        if k == 'code':
            f = self.P.funcs[v[1][1]]
            if name == 'co_argcount':
                n = len(f.node.args.posonlyargs) + len(f.node.args.args)
                return [(C(n), st)]
            return [(('attr', v, name), st)]
        if k == 'super':
            (_, cq, selfv) = v
            c = self.P.classes[cq]
            start = c
            h = self.obj(selfv, st)
            mro = self.P.mro(h.cls) if h is not None and h.cls is not None else self.P.mro(c)
            if start in mro:
                mro = mro[mro.index(start) + 1:]
            for kk in mro:
                if isinstance(kk, Class) and name in kk.body:
                    a = kk.body[name]
                    if isinstance(a, Func):
                        if a.kind == 'property':
                            return self.inline(a, selfv, [], [], st, None, node)
                        return [(('f', a.qual, selfv, None), st)]
                    return self.class_value(kk, name, a, st)
            return [(('m', v, name), st)]
        if k == 'glob':
            return [(('m', v, name), st)]
        if k == 'exc':
            return [(('attr', v, name), st)]
        if k in ('c', 't', 'cat', 'str', 'fmt'):
            return [(('m', v, name), st)]
        # untyped symbol
        key = ('S', v)
        if key in st.heap and name in st.heap[key].attrs:
            return [(st.heap[key].attrs[name], st)]
        t = ('attr', v, name)
        x = self.typed(st, t, None)
        return [(x, st)]

    def known_attr(self, cls, name):
        """Does some method of the class (or of a relative) set this attribute?"""
        if any(not isinstance(k, Class) and k != 'object' for k in self.P.mro(cls)):
            return True
        for k in list(self.P.mro(cls)) + list(self.P.subclasses(cls)):
            if not isinstance(k, Class):
                continue
            if self.P.body_key(k, name) is not None or '__getattr__' in k.body:
                return True
            for f in k.body.values():
                if isinstance(f, Func) and f.node.args.args:
                    me = f.node.args.args[0].arg
                    for n in ast.walk(f.node):
                        if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                                and self.mangle(n.attr, k) == name and isinstance(n.value, ast.Name) and n.value.id == me):
                            return True
        return False

    def classbody_names(self, cls):
        return ()

    def instance_assigned(self, cls, name):
        for k in self.P.mro(cls):
            if not isinstance(k, Class):
                continue
            for f in k.body.values():
                if isinstance(f, Func) and f.node.args.args:
                    me = f.node.args.args[0].arg
                    for n in ast.walk(f.node):
                        if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                                and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == me):
                            return True
        return False

    def overridden(self, cls, name, f):
        for s in self.P.subclasses(cls):
            if name in s.body:
                return True
        return False

    def bind_method(self, v, h, a, name, st, fr, node):
        virtual = (h is not None and h.base is not None and not h.exact and h.cls is not None
                   and self.overridden(h.cls, name, a))
        if a.kind == 'property':
            if virtual or self.opaque(a):
                t = ('attr', h.base if h is not None and h.base is not None else v, name)
                return [(self.typed(st, t, None), st)]
            return self.inline(a, v, [], [], st, None, node)
        if a.kind == 'staticmethod':
            return [(('f', a.qual, None, None), st)]
        if a.kind == 'classmethod':
            if virtual:
                return [(('m', v, name), st)]
            c = h.cls if h is not None and h.cls is not None else a.cls
            return [(('f', a.qual, ('cls', c.qual), None), st)]
        if virtual:
            return [(('m', v, name), st)]
        return [(('f', a.qual, v, None), st)]

    def class_getattr(self, v, name, st, fr):
        c = self.P.classes[v[1]]
        # overlay (stores to class attributes)
        key = ('S', v)
        if key in st.heap and name in st.heap[key].attrs:
            return [(st.heap[key].attrs[name], st)]
        if name == '__name__':
            return [(C(c.name), st)]
        if self.is_enum(c) and name in c.body and not isinstance(c.body[name], (Func, Class)):
            return [(('enum', c.qual, name), st)]
        a = self.P.class_attr(c, name)
        if isinstance(a, Func):
            if a.kind == 'classmethod':
                return [(('f', a.qual, v, None), st)]
            return [(('f', a.qual, None, None), st)]
        if isinstance(a, Class):
            return [(('cls', a.qual), st)]
        if a is not None:
            own = self.P.class_attr_owner(c, name)
            return self.class_value(own, name, a, st)
        own = self.P.class_attr_owner(c, name)
        if own is not None and not self.is_enum(own) and name in self.computed_tables(own):
            return self.class_value(own, name, None, st)
        return [(('m', v, name), st)]

    def is_enum(self, c):
        return any((not isinstance(b, Class)) and b.split('.')[-1] in ('Enum', 'IntEnum')
                   for b in self.P.mro(c))

    def class_value(self, owner, name, node, st):
        """Value of a class-level assignment."""
        if self.is_enum(owner):
            return [(('enum', owner.qual, name), st)]
        key = ('G', owner.qual, name)
        if key in st.heap:
            return [(('ref', key), st)]
        tables = self.computed_tables(owner)
        if name in tables:
            for n, h in tables.items():
                st.heap.setdefault(('G', owner.qual, n), h)
            return [(('ref', key), st)]
        return [(self.const_expr(node, owner.module, ('glob', owner.qual, name), st, owner), st)]

    def computed_tables(self, c):
        """{name: dictionary} of those the body of a class builds in a loop over constants."""
        cache = self.P.__dict__.setdefault('_computed_tables', {})
        if c.qual not in cache:
            cache[c.qual] = {}
            if any(isinstance(x, ast.For) or self.fills(x) or isinstance(x, ast.Assign) and (
                    self.computes(x.value, c) or any(isinstance(t, ast.Tuple) for t in x.targets)) for x in c.node.body):
                save = (self.opaque, self.record_calls, self.try_stack, self.kinds, self.in_tables)
                self.opaque, self.record_calls, self.try_stack, self.kinds, self.in_tables = (lambda f: False), False, [], {}, True
                try:
                    cache[c.qual] = self._computed_tables(c)
                except AnalysisError:
                    pass
                finally:
                    self.opaque, self.record_calls, self.try_stack, self.kinds, self.in_tables = save
        return cache[c.qual]

    def nested(self, i, n, st, names):
        """Gives names to the lists within a list; False where there is anything but lists and constants."""
        found, todo = {}, [i]
        while todo:
            h = st.heap[todo.pop()]
            if h.kind != 'list' or h.base is not None:
                return False
            for s in h.segs:
                if s[0] != 'e':
                    return False
                v = s[1]
                if v[0] == 'ref' and v[1] not in names and v[1] not in found:
                    found[v[1]] = '%s[%d]' % (n, len(found))
                    todo.append(v[1])
                elif v[0] not in ('ref', 'c'):
                    return False
        names.update(found)
        return True

    @staticmethod
    def fills(x):
        """A statement of a class body that hands something of the class to a function."""
        return isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and any(isinstance(a, ast.Name) for a in x.value.args)

    def computes(self, node, c):
        """The value is worked out: in a comprehension, or by a function of the program."""
        if isinstance(node, ast.DictComp):
            return True
        if isinstance(node, (ast.Tuple, ast.List)):
            return any(self.computes(x, c) for x in node.elts)
        if isinstance(node, ast.Dict):
            return any(self.computes(x, c) for x in node.values)
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)):
            return False
        if node.func.id == 'dict':
            return bool(node.args)
        r = self.P.lookup(c.module.name, node.func.id)
        return bool(r) and r[0] == 'func'

    def _computed_tables(self, c):
        st = State()
        st.frames[-1] = {}
        res = self.block([x for x in c.node.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))],
                         st, Fr(-1, None, c.module, None))
        if len(res) != 1 or res[0][0] != 'next':
            return {}
        (_, _, st) = res[0]
        names = {v[1]: n for n, v in st.frames[-1].items() if v[0] == 'ref'}

        def value(v):
            if v[0] == 'ref' and v[1] in names:
                return ('ref', ('G', c.qual, names[v[1]]))
            return v if v[0] == 'c' else None
        out = {}
        for i, n in list(names.items()):
            if st.heap[i].kind == 'list' and not self.nested(i, n, st, names):
                names.pop(i)
        for i, n in names.items():
            h = st.heap[i]
            if h.kind == 'list' and h.base is None and all(s[0] == 'e' for s in h.segs):
                vs = [value(s[1]) for s in h.segs]
                if None not in vs:
                    out[n] = h.with_(segs=tuple(('e', v) for v in vs))
                continue
            if h.kind != 'dict' or h.base is not None:
                continue
            es = tuple((value(k), value(v)) for k, v in h.entries)
            if all(None not in e for e in es):
                out[n] = h.with_(entries=es)
        # what refers to something else is not known
        while True:
            lost = [n for n, h in out.items() for _, v in (h.entries if h.kind == 'dict' else h.segs) if v[0] == 'ref' and v[1][2] not in out]
            if not lost:
                return out
            for n in lost:
                out.pop(n, None)

    # ------------------------------------------------------------ module data
    def global_value(self, modname, name, st):
        r = self.P.lookup(modname, name)
        if r is None:
            return ('undef', modname, name)
        if r[0] == 'func':
            return ('f', r[1].qual, None, None)
        if r[0] == 'class':
            return ('cls', r[1].qual)
        if r[0] == 'mod':
            return r
        if r[0] == 'ext':
            return library(r[1])
        if r[0] == 'expr':
            return self.const_expr(r[2], r[1], ('glob', r[1].name, name), st)
        return self.typed(st, ('glob', r[1].name, name), None)

    def const_expr(self, node, module, ident, st, cls=None):
        """Value of a module/class level expression."""
        if ident in self.glob_busy:
            return ident
        t = self.typer(ident)
        if t is not None:
            return self.typed(st, ident, t)
        key = ('G',) + ident[1:]
        if key in st.heap:
            return ('ref', key)
        if isinstance(node, ast.Constant):
            return C(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return C(-node.operand.value)
        self.glob_busy.add(ident)
        # what happens while a constant is computed is no path of the caller
        outer_tries, self.try_stack = self.try_stack, []
        try:
            if isinstance(node, (ast.Tuple, ast.BinOp, ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                fr = Fr(-1, None, module, cls)
                s2 = State()
                s2.frames[-1] = {}
                if isinstance(node, ast.Call):
                    r = self.P.resolve_expr(module, node.func)
                    if r and r[0] == 'class' and not self.exc_class(r[1]):
                        return self.sym_obj(st, r[1], ident, exact=True)
                    if not (r and r[0] == 'func') and not (r and r[0] == 'expr'):
                        if r and r[0] == 'ext':
                            try:
                                res = self.eval(node, s2, fr)
                            except AnalysisError:
                                return ident
                            if len(res) == 1 and not bad(res[0][0]) and res[0][0][0] == 'call':
                                return res[0][0]
                        if isinstance(node.func, ast.Name) and node.func.id in ('set', 'dict', 'list', 'frozenset'):
                            return ident
                if cls is not None:
                    # names of the class body are visible
                    for n in ast.walk(node):
                        if isinstance(n, ast.Name) and n.id in cls.body:
                            return ident
                save, self.opaque = self.opaque, (lambda f: True)
                rc, self.record_calls = self.record_calls, False
                try:
                    res = self.eval(node, s2, fr)
                finally:
                    self.opaque = save
                    self.record_calls = rc
                if len(res) == 1 and not bad(res[0][0]):
                    v = self.canon(res[0][0], res[0][1])
                    if not any(x[0] in ('ref', 'obj', 'listv', 'dictv') for x in _subterms(v)):
                        return v
            return ident
        finally:
            self.try_stack = outer_tries
            self.glob_busy.discard(ident)

    READERS = {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'union', 'intersection', 'issuperset',
               'issubset', 'difference', 'isdisjoint'}

    def only_read(self, name):
        """No construct of the program that mentions NAME can change the
        container bound to it: it is bound once and otherwise tested,
        subscripted, iterated over or asked through reading methods."""
        cache = self.P.__dict__.setdefault('_only_read', {})
        if name not in cache:
            cache[name] = self._only_read(name)
        return cache[name]

    def _only_read(self, name):
        stores = 0
        for m in self.P.modules.values():
            up = m.__dict__.get('_parents')
            if up is None:
                up = {}
                for x in ast.walk(m.tree):
                    for y in ast.iter_child_nodes(x):
                        up[y] = x
                m._parents = up
            for x in up:
                if not ((isinstance(x, ast.Name) and x.id == name) or (isinstance(x, ast.Attribute) and x.attr == name)):
                    continue
                p = up.get(x)
                if isinstance(x.ctx, ast.Store):
                    stores += 1
                    continue
                if not isinstance(x.ctx, ast.Load):
                    return False
                if isinstance(p, ast.Compare) and x in p.comparators:
                    continue
                if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Load):
                    continue
                if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Store) and isinstance(x, ast.Name):
                    a = up.get(p)
                    q = up.get(a)
                    while isinstance(q, (ast.If, ast.For)):
                        q = up.get(q)
                    if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(q, ast.ClassDef):
                        continue        # an entry added while the class is being defined
                if isinstance(p, (ast.For, ast.comprehension)) and p.iter is x:
                    continue
                if isinstance(p, ast.Call) and x in p.args and isinstance(p.func, ast.Name) and \
                        p.func.id in ('len', 'sorted', 'tuple', 'list', 'set', 'frozenset', 'dict', 'min', 'max', 'any', 'all'):
                    continue
                if isinstance(p, ast.Attribute) and p.attr in self.READERS:
                    continue
                return False
        return stores == 1

    def const_container(self, ident):
        """(kind, keys, values) of a module or class constant that is a display
        of constants nothing changes, else None."""
        if ident[0] != 'glob' or len(ident) != 3 or not isinstance(ident[2], str):
            return None
        cache = self.P.__dict__.setdefault('_const_containers', {})
        if ident not in cache:
            cache[ident] = None
            cache[ident] = self._const_container(ident)
        return cache[ident]

    def _const_container(self, ident):
        c = self.P.classes.get(ident[1])
        if c is not None:
            node, module = self.P.class_attr(c, ident[2]), c.module
        else:
            if ident[1] not in self.P.modules:
                return None
            r = self.P.lookup(ident[1], ident[2])
            if r is None or r[0] != 'expr':
                return None
            node, module = r[2], self.P.need_module(r[1].name) if hasattr(r[1], 'name') else self.P.need_module(r[1])
        if not isinstance(node, ast.AST):
            return None
        kind = None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('set', 'frozenset') and \
                len(node.args) == 1 and not node.keywords and isinstance(node.args[0], (ast.List, ast.Tuple, ast.Set)):
            kind, node = 'set', node.args[0]
        elif isinstance(node, ast.Set):
            kind = 'set'
        elif isinstance(node, ast.List):
            kind = 'list'
        elif isinstance(node, ast.Dict) and None not in node.keys:
            kind = 'dict'
        if kind is None or not self.only_read(ident[2]):
            return None

        def value(x, at=None):
            if at is not None and isinstance(x, ast.Dict):
                return inner(x, at)
            if at is not None and isinstance(x, ast.Tuple) and any(isinstance(y, ast.Dict) for y in x.elts):
                vs = [value(y, at + (j,)) for j, y in enumerate(x.elts)]
                return None if None in vs else ('t', tuple(vs))
            v = self.const_expr(x, module, ('glob', '?', ast.dump(x)), State(), c)
            return v if v[0] in ('c', 'call', 'ext', 'enum', 'cls') or (v[0] == 't' and all(y[0] == 'c' for y in v[1])) \
                else None

        def inner(x, at):
            """A table within the table, which goes by a name of its own."""
            if None in x.keys:
                return None
            ks = [value(y) for y in x.keys]
            vs = [value(y, at + (j,)) for j, y in enumerate(x.values)]
            if None in vs or any(k is None or not self.distinct_const(k) for k in ks):
                return None
            name = ('glob', ident[1], '%s%s' % (ident[2], ''.join('[%d]' % j for j in at)))
            self.P._const_containers[name] = ('dict', ks, vs)
            return name
        keys = [value(x) for x in (node.keys if kind == 'dict' else node.elts)]
        if any(k is None or (kind != 'list' and not self.distinct_const(k)) for k in keys):
            return None
        vals = [value(x, (j,)) for j, x in enumerate(node.values)] if kind == 'dict' else None
        if kind == 'dict' and c is not None:
            owner = self.P.class_attr_owner(c, ident[2])
            more = self.added_entries(owner.node.body, ident[2], module)
            if more is None:
                return None
            for k, v in more:
                k, v = value(k), value(v)
                if k is None or not self.distinct_const(k):
                    return None
                keys.append(k)
                vals.append(v)
        return (kind, keys, vals)

    def added_entries(self, body, name, module):
        """[(key, value)] of the entries a class body adds to one of its own dictionaries."""
        out = []
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(x, ast.If):
                inner = self.added_entries(x.body + x.orelse, name, module)
                if inner is None:
                    return None
                if not inner:
                    continue
                t = x.test
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and
                        isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and
                        t.comparators[0].value is None and not x.orelse):
                    return None
                r = self.P.lookup(module.name, t.left.id)
                if r is None or r[0] == 'expr':
                    return None     # what is imported is there, or the import fails
                out.extend(inner)
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and \
                    isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == name:
                out.append((x.targets[0].slice, x.value))
            elif not isinstance(x, (ast.Assign, ast.Expr, ast.AnnAssign, ast.Pass)) and \
                    any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return None
        return out

    def const_lookup(self, ident, i, st):
        """The value found under a known key: (True, value or None), (False,
        None) when there is none, None when it cannot be told."""
        cc = self.const_container(ident)
        if cc is None or cc[0] == 'list':
            return None
        ck = self.cn(i, st)
        if not self.distinct_const(ck):
            return None
        index = self.P.__dict__.setdefault('_const_index', {})
        if ident not in index:
            index[ident] = {norm(k): j for j, k in enumerate(cc[1])}, {k[:2] for k in cc[1]}
        if ck in index[ident][0]:
            return (True, cc[2][index[ident][0][ck]] if cc[2] else None)
        if ck[0] == 'c' and ck[1] == 'str' and index[ident][1] == {('c', 'str')}:
            return (False, None)
        for j in range(len(cc[1]) - 1, -1, -1):
            if norm(cc[1][j]) == ck:
                return (True, cc[2][j] if cc[2] else None)
            if not self.same_space(norm(cc[1][j]), ck):
                return None
        return (False, None)

    # ------------------------------------------------------------- functions
    def frame_of(self, func, st, outer=None):
        fid = self.new()
        st.frames[fid] = {'__outer__': outer} if outer is not None else {}
        return Fr(fid, func, func.module, func.cls)

    def bind_args(self, func, selfv, args, kwargs, st, fr):
        """Bind call arguments; returns None or an error string."""
        a = func.node.args
        env = st.frames[fr.fid]
        pos = list(a.posonlyargs) + list(a.args)
        names = [p.arg for p in pos]
        if selfv is not None and func.kind != 'staticmethod':
            args = [selfv] + list(args)
        args = list(args)
        bound = {}
        starred = None
        for i, x in enumerate(args):
            if x[0] == 'star':
                starred = i
                break
        head = args if starred is None else args[:starred]
        for i, x in enumerate(head):
            if i < len(names):
                bound[names[i]] = x
        extra = head[len(names):]
        if starred is not None:
            star_v = args[starred][1]
            rest = args[starred + 1:]
            j = 0
            for i in range(len(head), len(names)):
                if names[i] in dict((k, 1) for k, _ in kwargs if k):
                    continue
                bound[names[i]] = ('item', star_v, C(j))
                j += 1
            if a.vararg is not None:
                if len(head) >= len(names) and not extra and not rest:
                    bound[a.vararg.arg] = ('astuple', star_v) if star_v[0] != 't' else star_v
                else:
                    bound[a.vararg.arg] = ('op', 'varargs', ('t', tuple(extra)), star_v, ('t', tuple(rest)))
        else:
            if a.vararg is not None:
                bound[a.vararg.arg] = ('t', tuple(extra))
            elif extra:
                return 'too many arguments for %s' % func.qual
        kwo = [p.arg for p in a.kwonlyargs]
        kwextra = []
        for k, v in kwargs:
            if k is None:
                if v[0] == 'ref' and st.heap[v[1]].kind == 'dict' and st.heap[v[1]].base is None:
                    for kk, vv in st.heap[v[1]].entries:
                        if is_str_c(kk):
                            if kk[2] in names or kk[2] in kwo:
                                bound[kk[2]] = vv
                            else:
                                kwextra.append((kk, vv))
                else:
                    for n in names + kwo:
                        if n not in bound:
                            bound[n] = ('op', 'kwarg', v, C(n))
                continue
            if k in names or k in kwo:
                if k in bound and starred is None:
                    return 'duplicate argument %s for %s' % (k, func.qual)
                bound[k] = v
            elif a.kwarg is not None:
                kwextra.append((C(k), v))
            else:
                return 'unexpected keyword %s for %s' % (k, func.qual)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for n in names + kwo:
            if n not in bound:
                if n in defaults:
                    bound[n] = self.default_value(func, n, defaults[n], st)
                else:
                    return 'missing argument %s for %s' % (n, func.qual)
        if a.kwarg is not None:
            bound[a.kwarg.arg] = self.new_dict(st, tuple(kwextra))
        env.update(bound)
        return None

    def default_value(self, func, name, node, st):
        v = self.const_expr(node, func.module, ('glob', func.qual, 'default:' + name), st)
        return v

    def inline(self, func, selfv, args, kwargs, st, outer, node):
        """Enter a project function. -> [(value|Exc|Ctl, state)]"""
        depth = len(self.callstack)
        if depth >= self.max_depth or self.callstack.count(func.qual) >= self.rec_limit:
            self.unending.append('%s calls itself, through %s' % (func.qual, ' > '.join(
                q.split('.')[-1] for q in self.callstack[-4:])))
            return self.opaque_call(('f', func.qual, selfv, None), args, kwargs, st, node, rec=True)
        fr = self.frame_of(func, st, outer)
        err = self.bind_args(func, selfv, args, kwargs, st, fr)
        if err:
            self.problem(err)
            return [(Exc(('exc', 'TypeError', (C(err),))), st)]
        self.visited[func.qual] = self.visited.get(func.qual, 0) + 1
        if func.is_gen:
            gid = self.new()
            ctx = any(self.is_ctxmanager(d, func) for d in func.decos)
            self.gens[gid] = (func, fr)
            return [(('ctxgen' if ctx else 'gen', gid), st)]
        self.callstack.append(func.qual)
        try:
            outs = self.run_body(func, st, fr)
        finally:
            self.callstack.pop()
        res = []
        keep = self.has_closure(func)
        for (k, v, s) in outs:
            if not keep:
                s.frames.pop(fr.fid, None)
            if k == 'next':
                res.append((NONE, s))
            elif k == 'ret':
                res.append((v, s))
            elif k == 'raise':
                res.append((Exc(v), s))
            elif k == 'ctl':
                res.append((Ctl(*v), s))
            else:
                self.problem('stray %s in %s' % (k, func.qual))
        return self.cap(self.merge_equal_vals(res), func.qual)

    def merge_equal_vals(self, res):
        return res

    def run_body(self, func, st, fr):
        if isinstance(func.node, ast.Lambda):
            out = []
            for v, s in self.eval(func.node.body, st, fr):
                out.append(('raise', v.v, s) if isinstance(v, Exc) else
                           ('ctl', (v.kind, v.v), s) if isinstance(v, Ctl) else ('ret', v, s))
            return out
        return self.block(func.node.body, st, fr)

    def is_ctxmanager(self, d, func):
        r = self.P.resolve_expr(func.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
        return bool(r and r[0] == 'ext' and r[1].endswith('contextmanager'))

    def has_closure(self, func):
        r = getattr(func, '_closure', None)
        if r is None:
            r = func._closure = any(n is not func.node and isinstance(n, (ast.FunctionDef, ast.Lambda))
                                    for n in ast.walk(func.node))
        return r

    def run_gen(self, gv, st, cb):
        """Run an inlined generator, cb(value, state) -> outcomes for each yield."""
        (func, fr) = self.gens[gv[1]]
        if self.callstack.count(func.qual) >= self.rec_limit + 1 or len(self.callstack) >= self.max_depth:
            self.unending.append('%s iterates over itself' % func.qual)
            return None
        self.gen_cb[fr.fid] = cb
        self.callstack.append(func.qual)
        try:
            return self.block(func.node.body, st, fr)
        finally:
            self.callstack.pop()
            self.gen_cb.pop(fr.fid, None)

    # -------------------------------------------------------------- analysis
    def analyse(self, func, st=None, args=None, selfv=None, outer=None):
        """Run a function on the given (or symbolic) arguments.

        -> [(kind, value, state)] with kind ret|raise ; frames of the call stay
        in the state under fr.fid for inspection."""
        st = st or State()
        fr = self.frame_of(func, st, outer)
        self.visited[func.qual] = self.visited.get(func.qual, 0) + 1
        a = func.node.args
        env = st.frames[fr.fid]
        pos = list(a.posonlyargs) + list(a.args)
        args = dict(args or {})
        for i, p in enumerate(pos):
            if i == 0 and selfv is not None and func.kind != 'staticmethod' and func.cls is not None:
                env[p.arg] = selfv
            elif p.arg in args:
                env[p.arg] = args[p.arg]
            elif i in args:
                env[p.arg] = args[i]
            elif i == 0 and func.cls is not None and func.kind == 'classmethod':
                env[p.arg] = ('cls', func.cls.qual)
            elif i == 0 and func.cls is not None and func.kind in ('function', 'property'):
                env[p.arg] = self.sym_obj(st, func.cls, S(p.arg))
            else:
                env[p.arg] = self.typed(st, S(p.arg), self.typer(S(p.arg)) or self.ann_type(func.module, p.annotation))
        for p in a.kwonlyargs:
            env[p.arg] = args.get(p.arg, S(p.arg))
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, S('*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, S('**' + a.kwarg.arg))
        self.callstack.append(func.qual)
        try:
            outs = self.run_body(func, st, fr)
        finally:
            self.callstack.pop()
        res = []
        for (k, v, s) in outs:
            if k == 'next':
                res.append(('ret', NONE, s))
            elif k in ('ret', 'raise'):
                res.append((k, v, s))
            else:
                self.problem('stray %s' % k)
        self.path_count += len(res)
        self.last_frame = fr
        return res

    # ------------------------------------------------------------ exceptions
    def may_raise(self, st, kind, op=None):
        """Something that may fail inside a try; op, when given, is the operation whose success both paths then remember."""
        if self.try_stack:
            (accept, snaps) = self.try_stack[-1]
            if accept is None or accept(kind):
                if len(snaps) < 60:
                    for kk, s in snaps[-6:]:
                        if kk == kind and s.frames == st.frames and s.heap == st.heap and s.trace == st.trace:
                            return
                    s = st.fork()
                    if op is not None:
                        s.pc[('raises', kind, op)] = True
                        st.pc[('raises', kind, op)] = False
                    snaps.append((kind, s))

    def exc_class(self, c):
        return any((not isinstance(b, Class)) and isinstance(getattr(builtins, b, None), type)
                   and issubclass(getattr(builtins, b), BaseException) for b in self.P.mro(c))

    def exc_matches(self, exc, types):
        """types: list of Class|builtin name, None = bare. True/False/None."""
        if types is None:
            return True
        res = False
        for t in types:
            m = self._exc_match1(exc, t)
            if m is True:
                return True
            if m is None:
                res = None
        return res

    def _exc_match1(self, exc, t):
        if exc[0] == 'implicit':
            kind = exc[1]
            if kind == 'any':
                if t in ('Exception', 'BaseException'):
                    return True
                return None
            if isinstance(t, Class):
                return False
            a, b = getattr(builtins, kind, None), getattr(builtins, t, None)
            if isinstance(a, type) and isinstance(b, type):
                return True if issubclass(a, b) else (None if issubclass(b, a) else False)
            return False
        if exc[0] == 'exc':
            if exc[1] in self.P.classes:
                c = self.P.classes[exc[1]]
                return self.P.is_subclass(c, t)
            if isinstance(t, Class):
                return False
            a, b = getattr(builtins, exc[1], None), getattr(builtins, t, None)
            if isinstance(a, type) and isinstance(b, type):
                return issubclass(a, b)
            return None
        return None

    def handler_types(self, h, fr):
        if h.type is None:
            return None
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            r = self.P.resolve_expr(fr.module, n)
            if r and r[0] == 'class':
                out.append(r[1])
            elif r and r[0] == 'ext':
                out.append(r[1])
            elif isinstance(n, ast.Name):
                out.append(n.id)
            else:
                out.append(ast.unparse(n))
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for (k, v, s2) in self.stmt(s, c, fr):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((k, v, s2))
            if len(nxt) > 40:
                nxt = [x[0] for x in self.merge_equal([(x,) for x in nxt])]
            cur = [x[0] for x in self.cap([(x,) for x in nxt], '%s:%d' % (fr.module.rel, getattr(s, 'lineno', 0)))]
            if not cur:
                break
        outs.extend(('next', None, c) for c in cur)
        return self.cap(outs, 'block')

    def stmt(self, n, st, fr):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            self.problem('unsupported statement %s at %s:%d' % (type(n).__name__, fr.module.rel, n.lineno))
            return [('next', None, st)]
        return m(n, st, fr)

    @staticmethod
    def lift(v, s):
        if isinstance(v, Exc):
            return ('raise', v.v, s)
        return ('ctl', (v.kind, v.v), s)

    def st_Expr(self, n, st, fr):
        return [('next', None, s) if not bad(v) else self.lift(v, s)
                for v, s in self.eval(n.value, st, fr)]

    def st_Pass(self, n, st, fr):
        return [('next', None, st)]

    def st_Global(self, n, st, fr):
        fr.globals_.update(n.names)
        return [('next', None, st)]

    def st_Nonlocal(self, n, st, fr):
        st.frames[fr.fid].setdefault('__nonlocal__', ())
        st.frames[fr.fid]['__nonlocal__'] = st.frames[fr.fid]['__nonlocal__'] + tuple(n.names)
        return [('next', None, st)]

    def st_Import(self, n, st, fr):
        for a in n.names:
            full = a.name
            nm = a.asname or a.name.split('.')[0]
            tgt = full if a.asname else full.split('.')[0]
            st.frames[fr.fid][nm] = ('mod', tgt) if tgt in self.P.modules else ('ext', tgt)
        return [('next', None, st)]

    def st_ImportFrom(self, n, st, fr):
        src = self.P.resolve_from(fr.module, n)
        for a in n.names:
            if a.name == '*':
                continue
            if src in self.P.modules:
                st.frames[fr.fid][a.asname or a.name] = self.global_value(src, a.name, st)
            else:
                st.frames[fr.fid][a.asname or a.name] = library(src + '.' + a.name)
        return [('next', None, st)]

    def st_Return(self, n, st, fr):
        if n.value is None:
            return [('ret', NONE, st)]
        return [('ret', v, s) if not bad(v) else self.lift(v, s) for v, s in self.eval(n.value, st, fr)]

    def st_Break(self, n, st, fr):
        return [('break', None, st)]

    def st_Continue(self, n, st, fr):
        return [('cont', None, st)]

    def st_Delete(self, n, st, fr):
        outs = [st]
        ended = []
        for t in n.targets:
            nxt = []
            for s in outs:
                if isinstance(t, ast.Subscript):
                    for b, s1 in self.eval(t.value, s, fr):
                        if bad(b):
                            ended.append(self.lift(b, s1))
                            continue
                        for i, s2 in self.eval_index(t.slice, s1, fr):
                            if bad(i):
                                ended.append(self.lift(i, s2))
                                continue
                            x = self.delitem(b, i, s2, t, fr)
                            if x is not None:
                                ended.append(self.lift(x, s2))
                            else:
                                nxt.append(s2)
                elif isinstance(t, ast.Name):
                    s.frames[fr.fid].pop(t.id, None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            outs = nxt
        return [('next', None, s) for s in outs] + ended

    def delitem(self, b, i, st, node, fr):
        """del b[i]; the exception when it fails for certain."""
        h = self.obj(b, st)
        if h is None:
            return None
        if h.kind == 'list':
            if i[0] == 'sliceidx':
                # to delete a slice is to put nothing in its place
                self.setitem(b, i, self.new_list(st, ()), st, node, fr)
                return None
            if is_num_c(i):
                r = self.list_method(b, h, 'pop', [i], [], st, fr, node)
                if r is not None and len(r) == 1:
                    return r[0][0] if bad(r[0][0]) else None
            st.heap[b[1]] = h.with_(segs=(('r', ('op', 'del', self.canon(b, st))),))
        elif h.kind == 'dict':
            ck = self.cn(i, st)
            for k, x in h.entries:
                if self.cn(k, st) == ck:
                    st.heap[b[1]] = h.with_(entries=tuple(e for e in h.entries if e[0] != k))
                    return None
            if h.base is None and self.distinct_const(ck) and all(self.distinct_const(self.cn(k, st)) for k, x in h.entries):
                return Exc(('exc', 'KeyError', (i,)))
            st.heap[b[1]] = h.with_(entries=(), base=('op', 'del', self.canon(b, st)))
        return None

    def st_Assert(self, n, st, fr):
        res = []
        ways = self.cond(n.test, st, fr)
        for b, s in ways:
            if bad(b):
                res.append(self.lift(b, s))
            elif b:
                res.append(('next', None, s))
            elif self.assert_raises or len(ways) == 1:
                res.append(('raise', ('exc', 'AssertionError', ()), s))
            else:
                self.may_raise(s, 'AssertionError')
        return res

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            return [('raise', self.exc_stack[-1] if self.exc_stack else ('implicit', 'any'), st)]
        out = []
        for v, s in self.eval(n.exc, st, fr):
            if bad(v):
                out.append(self.lift(v, s))
                continue
            if v[0] == 'cls':
                c = self.P.classes[v[1]]
                v = ('exc', c.qual, ())
            elif v[0] == 'bi':
                v = ('exc', v[1], ())
            elif v[0] == 'call' and v[1][0] == 'bi':
                v = ('exc', v[1][1], v[2])
            elif v[0] == 'ref':
                h = s.heap[v[1]]
                v = ('exc', h.cls.qual if h.cls else '?', ())
            out.append(('raise', v, s))
        return out

    def st_FunctionDef(self, n, st, fr):
        f = self.P.func_of_node.get(id(n))
        v = ('f', f.qual, None, fr.fid)
        outs = [(v, st)]
        for d in reversed(n.decorator_list):
            if self.is_ctxmanager(d, f):
                continue
            r = self.P.resolve_expr(fr.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
            if r and r[0] == 'ext':
                continue
            nxt = []
            for (fv, s) in outs:
                for dv, s1 in self.eval(d, s, fr):
                    if bad(dv):
                        return [self.lift(dv, s1)]
                    nxt.extend(self.call(dv, [fv], [], s1, fr, n))
            outs = nxt
        res = []
        for v, s in outs:
            if bad(v):
                res.append(self.lift(v, s))
            else:
                self.store_name(n.name, v, s, fr)
                res.append(('next', None, s))
        return res

    def st_ClassDef(self, n, st, fr):
        c = self.P.class_of_node.get(id(n))
        self.store_name(n.name, ('cls', c.qual), st, fr)
        return [('next', None, st)]

    def store_name(self, name, v, st, fr):
        env = st.frames[fr.fid]
        if name in env.get('__nonlocal__', ()):
            fid = env.get('__outer__')
            while fid is not None:
                if name in st.frames.get(fid, {}):
                    st.frames[fid][name] = v
                    return
                fid = st.frames.get(fid, {}).get('__outer__')
        if name in fr.globals_:
            st.trace = st.trace + (('gstore', fr.module.name, name, v),)
            return
        env[name] = v

    def assign(self, tgt, v, st, fr):
        """-> list of states (or lifted raise tuples)"""
        if isinstance(tgt, ast.Name):
            self.store_name(tgt.id, v, st, fr)
            return [('next', None, st)]
        if isinstance(tgt, ast.Attribute):
            outs = []
            for b, s in self.eval(tgt.value, st, fr):
                if bad(b):
                    outs.append(self.lift(b, s))
                    continue
                self.setattr(b, self.mangle(tgt.attr, fr.cls), v, s, tgt, fr)
                outs.append(('next', None, s))
            return outs
        if isinstance(tgt, ast.Subscript):
            outs = []
            for b, s in self.eval(tgt.value, st, fr):
                if bad(b):
                    outs.append(self.lift(b, s))
                    continue
                for i, s2 in self.eval_index(tgt.slice, s, fr):
                    if bad(i):
                        outs.append(self.lift(i, s2))
                        continue
                    self.setitem(b, i, v, s2, tgt, fr)
                    outs.append(('next', None, s2))
            return outs
        if isinstance(tgt, (ast.Tuple, ast.List)):
            return self.unpack(tgt.elts, v, st, fr)
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, v, st, fr)
        self.problem('assignment target %s' % type(tgt).__name__)
        return [('next', None, st)]

    def unpack(self, elts, v, st, fr):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.known_items(v, st)
        if items is not None and not star:
            if len(items) != n:
                self.may_raise(st, 'ValueError')
                return [('raise', ('exc', 'ValueError', (C('unpack'),)), st)]
        elif items is not None and star:
            i = star[0]
            after = n - i - 1
            mid = items[i:len(items) - after]
            items = list(items[:i]) + [self.new_list(st, tuple(('e', x) for x in mid))] + list(items[len(items) - after:])
        else:
            self.may_raise(st, 'ValueError')
            b = self.canon(v, st)
            if star:
                items = [U('star-unpack')] * n
            else:
                items = []
                for i in range(n):
                    items.append(self.typed(st, ('item', b, C(i)), None))
        cur = [st]
        outs = []
        for e, x in zip(elts, items):
            nxt = []
            for s in cur:
                for (k, vv, s2) in self.assign(e, x, s, fr):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((k, vv, s2))
            cur = nxt
        return outs + [('next', None, s) for s in cur]

    def known_items(self, v, st):
        """Element values when the sequence is fully known."""
        k = v[0]
        if k in ('t', 'listv'):
            return list(v[1])
        if k == 'ref':
            h = st.heap[v[1]]
            if h.kind == 'list' and all(s[0] == 'e' for s in h.segs):
                return [s[1] for s in h.segs]
            if h.kind == 'set' and all(s[0] == 'e' for s in h.segs):
                return [s[1] for s in h.segs]
            if h.kind == 'dict' and h.base is None:
                return [kk for kk, _ in h.entries]
            return None
        if k == 'view':
            h = st.heap.get(v[2][1]) if v[2][0] == 'ref' else None
            if h is not None and h.kind == 'dict' and h.base is None:
                if v[1] == 'keys':
                    return [kk for kk, _ in h.entries]
                if v[1] == 'values':
                    return [x for _, x in h.entries]
                return [('t', (kk, x)) for kk, x in h.entries]
            return None
        if k == 'enumerate':
            it = self.known_items(v[1], st)
            if it is None:
                return None
            if not is_num_c(v[2]):
                return None
            return [('t', (C(i + v[2][2]), x)) for i, x in enumerate(it)]
        if k == 'zip':
            its = [self.known_items(x, st) for x in v[1]]
            if any(i is None for i in its):
                return None
            return [('t', tuple(x)) for x in zip(*its)]
        if k == 'reversed':
            it = self.known_items(v[1], st)
            return None if it is None else it[::-1]
        if k == 'range':
            if all(is_num_c(x) for x in v[1:]):
                r = range(*[x[2] for x in v[1:]])
                if len(r) <= self.RANGE:
                    return [C(i) for i in r]
            return None
        if k == 'c' and v[1] in ('str', 'bytes') and len(v[2]) <= 16:
            return [C(x) for x in v[2]]
        if k == 'c' and v[1] == 'tuple':
            return [C(x) for x in v[2]]
        if k == 'glob' and self.in_tables:
            cc = self.const_container(v)
            return cc[1] if cc is not None and cc[0] == 'list' else None
        if self.kinds and k in ('s', 'cat', 'call', 'c'):
            return words.characters(self, v)
        return None

    def st_Assign(self, n, st, fr):
        outs = []
        for v, s in self.eval(n.value, st, fr):
            if bad(v):
                outs.append(self.lift(v, s))
                continue
            cur = [s]
            for t in n.targets:
                nxt = []
                for c in cur:
                    for (k, vv, s2) in self.assign(t, v, c, fr):
                        if k == 'next':
                            nxt.append(s2)
                        else:
                            outs.append((k, vv, s2))
                cur = nxt
            outs.extend(('next', None, c) for c in cur)
        return outs

    def st_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [('next', None, st)]
        outs = []
        for v, s in self.eval(n.value, st, fr):
            if bad(v):
                outs.append(self.lift(v, s))
                continue
            outs.extend(self.assign(n.target, v, s, fr))
        return outs

    def st_AugAssign(self, n, st, fr):
        outs = []
        load = _as_load(n.target)
        for old, s in self.eval(load, st, fr):
            if bad(old):
                outs.append(self.lift(old, s))
                continue
            for v, s2 in self.eval(n.value, s, fr):
                if bad(v):
                    outs.append(self.lift(v, s2))
                    continue
                h = self.obj(old, s2)
                if h is not None and h.kind == 'list' and isinstance(n.op, ast.Add):
                    self.list_extend(old, v, s2)
                    outs.extend(self.assign(n.target, old, s2, fr))
                    continue
                for r, s3 in self.binop(n.op, old, v, s2, fr, n):
                    if bad(r):
                        outs.append(self.lift(r, s3))
                    else:
                        outs.extend(self.assign(n.target, r, s3, fr))
        return outs

    def st_If(self, n, st, fr):
        outs = []
        for b, s in self.cond(n.test, st, fr):
            if bad(b):
                outs.append(self.lift(b, s))
            else:
                outs.extend(self.block(n.body if b else n.orelse, s, fr))
        return outs

    def st_For(self, n, st, fr):
        outs = []
        for itv, s in self.eval(n.iter, st, fr):
            if bad(itv):
                outs.append(self.lift(itv, s))
                continue

            def body(x, s1):
                res = []
                for (k, v, s2) in self.assign(n.target, x, s1, fr):
                    if k == 'next':
                        res.extend(self.block(n.body, s2, fr))
                    else:
                        res.append((k, v, s2))
                return res
            for (k, v, s2) in self.iterate(itv, s, fr, body, n):
                if k == 'next':
                    outs.extend(self.block(n.orelse, s2, fr) if n.orelse else [('next', None, s2)])
                elif k == 'broke':
                    outs.append(('next', None, s2))
                else:
                    outs.append((k, v, s2))
        return self.cap(outs, 'for')

    st_AsyncFor = st_For

    def iterate(self, itv, st, fr, body, node):
        """Loop over a value; outcomes 'next' (exhausted), 'broke', or others."""
        k = itv[0]
        items = self.known_items(itv, st)
        if items is not None:
            cur = [st]
            outs = []
            for x in items:
                nxt = []
                for s in cur:
                    for (kk, v, s2) in body(x, s):
                        if kk in ('next', 'cont'):
                            nxt.append(s2)
                        elif kk == 'break':
                            outs.append(('broke', None, s2))
                        else:
                            outs.append((kk, v, s2))
                cur = [y[0] for y in self.cap([(y,) for y in nxt], 'unrolled loop')]
            return outs + [('next', None, s) for s in cur]
        if k == 'enumerate':
            inner = itv[1]
            h = self.obj(inner, st)
            if inner[0] == 'gen' or (h is not None and h.kind == 'obj') or inner[0] == 'enumerate':
                # a counter beside the inner iteration
                name = '%%enum:%s' % self.loop_tag(fr, node)
                st = st.fork()
                self.store_name(name, C(itv[2]) if isinstance(itv[2], int) else itv[2], st, fr)

                def counted(x, s):
                    i = s.frames[fr.fid][name]
                    (nx, s2), = self.binop(ast.Add(), i, C(1), s, fr, node)
                    self.store_name(name, nx, s2, fr)
                    return body(('t', (i, x)), s2)
                return self.iterate(inner, st, fr, counted, node)
        if k == 'ref':
            h = st.heap[itv[1]]
            if h.kind == 'obj' and h.cls is not None:
                m = self.P.class_attr(h.cls, '__iter__')
                if isinstance(m, Func) and not self.opaque(m) and not (h.base is not None and not h.exact and self.overridden(h.cls, '__iter__', m)):
                    outs = []
                    for v, s in self.inline(m, itv, [], [], st, None, node):
                        if bad(v):
                            outs.append(self.lift(v, s))
                        elif v == itv:
                            outs.extend(self.generic_iter(self.canon(itv, s), s, fr, body, node))
                        else:
                            outs.extend(self.iterate(v, s, fr, body, node))
                    return outs
            if h.kind == 'list':
                # mixed list: unroll known parts, generic for the rest
                cur = [st]
                outs = []
                for seg in h.segs:
                    nxt = []
                    for s in cur:
                        if seg[0] == 'e':
                            r = body(seg[1], s)
                            for (kk, v, s2) in r:
                                if kk in ('next', 'cont'):
                                    nxt.append(s2)
                                elif kk == 'break':
                                    outs.append(('broke', None, s2))
                                else:
                                    outs.append((kk, v, s2))
                        else:
                            r = self.generic_iter(seg[1] if seg[0] == 'r' else seg, s, fr, body, node)
                            for (kk, v, s2) in r:
                                if kk == 'next':
                                    nxt.append(s2)
                                else:
                                    outs.append((kk, v, s2))
                    cur = nxt
                return outs + [('next', None, s) for s in cur]
        if k == 'gen':
            depth = len(self.try_stack)
            token = self.new()

            def cb(v, s):
                save = self.try_stack[depth:]
                del self.try_stack[depth:]
                saveck = self.gen_cb
                try:
                    res = []
                    for (kk, vv, s2) in body(v, s):
                        if kk in ('next', 'cont'):
                            res.append((NONE, s2))
                        elif kk == 'ctl':
                            res.append((Ctl(*vv), s2))
                        else:
                            # leaves the generator for the loop that consumes it
                            res.append((Ctl('out', (token, 'broke' if kk == 'break' else kk, vv)), s2))
                    return res
                finally:
                    self.try_stack.extend(save)
            r = self.run_gen(itv, st, cb)
            if r is not None:
                outs = []
                for (kk, v, s) in r:
                    if kk in ('next', 'ret'):
                        outs.append(('next', None, s))
                    elif kk == 'ctl' and v[0] == 'out' and v[1][0] == token:
                        outs.append((v[1][1], v[1][2], s))
                    else:
                        outs.append((kk, v, s))
                return outs
            func, gfr = self.gens[itv[1]]
            args = tuple(self.canon(x, st) for n_, x in sorted(st.frames.get(gfr.fid, {}).items()) if n_ != '__outer__' and isinstance(x, tuple))
            term = ('call', ('f', func.qual, None, None), args, ())
            st.trace = st.trace + (('call', ('f', func.qual, None, None), args, (), term, self.where(fr, node)),)
            return self.generic_iter(term, st, fr, body, node)
        return self.generic_iter(self.canon(itv, st) if k not in ('enumerate', 'zip', 'range', 'view', 'reversed') else itv,
                                 st, fr, body, node)

    def elem_of(self, it, st, tag):
        k = it[0]
        if k == 'many':
            if len(it[1]) == 1:
                return it[1][0]
            return ('phi', tuple(it[1]))
        if k == 'enumerate':
            return ('t', (('elem', ('call', ('bi', 'enumerate'), (self.canon(it[1], st),), ()), tag),
                          self.elem_of(self.iter_term(it[1], st), st, tag)))
        if k == 'zip':
            return ('t', tuple(self.elem_of(self.iter_term(x, st), st, tag) for x in it[1]))
        if k == 'reversed':
            return self.elem_of(self.iter_term(it[1], st), st, tag)
        if k == 'view':
            d = self.canon(it[2], st)
            key = ('elem', d, tag)
            if it[1] == 'keys':
                return self.typed(st, key, None)
            val = self.typed(st, ('item', d, key), None)
            if it[1] == 'values':
                return val
            return ('t', (key, val))
        if k == 'range':
            return ('elem', tuple(self.canon(x, st) if isinstance(x, tuple) else x for x in it), tag)
        t = ('elem', it, tag)
        return self.typed(st, t, None)

    def iter_term(self, v, st):
        if v[0] in ('enumerate', 'zip', 'range', 'view', 'reversed', 'many'):
            return v
        if v[0] == 'ref' and st.heap[v[1]].kind == 'list':
            h = st.heap[v[1]]
            if len(h.segs) == 1 and h.segs[0][0] == 'many':
                return h.segs[0]
        return self.canon(v, st)

    def generic_iter(self, it, st, fr, body, node):
        tag = self.loop_tag(fr, node)
        self.may_raise(st, 'TypeError')

        def one(s):
            return body(self.elem_of(it, s, tag), s)
        return self.generic_loop(one, st, fr, node, tag, it)

    def loop_tag(self, fr, node):
        q = fr.func.qual if fr.func is not None else fr.module.name
        # ordinal of the loop inside the function: stable under line shifts
        o = 0
        if fr.func is not None:
            for x in ast.walk(fr.func.node):
                if x is node:
                    break
                if isinstance(x, (ast.For, ast.While, ast.comprehension, ast.ListComp, ast.GeneratorExp)):
                    o += 1
        return '%s#%d' % (q, o)

    def generic_loop(self, one, st, fr, node, tag, it):
        pre = st.fork()
        cur = st
        mods = {}
        for _ in range(4):
            self.probing += 1
            nl = len(self.loops)
            save_try = self.try_stack
            self.try_stack = []
            try:
                outs = one(cur.fork())
            finally:
                self.probing -= 1
                self.try_stack = save_try
                del self.loops[nl:]
            new = self.diff(cur, [s for (k, v, s) in outs if k in ('next', 'cont')])
            fresh = {k: v for k, v in new.items() if k not in mods}
            if not fresh:
                break
            mods.update(fresh)
            cur = self.havoc(pre.fork(), mods, tag, it)
        entry = cur.fork()
        outs = one(cur.fork())
        iters = [s for (k, v, s) in outs if k in ('next', 'cont')]
        self.loops.append(LoopSummary(tag, node, fr.func, it, None, entry, pre, [(k, v, s) for (k, v, s) in outs]))
        res = []
        n0 = len(entry.trace)
        ev = []
        for s in iters:
            e = s.trace[n0:]
            if e not in ev:
                ev.append(e)
        after = entry.fork()
        if any(ev):
            after.trace = after.trace + (('loop', tag, it, tuple(ev)),)
        for (k, v, s) in outs:
            if k in ('next', 'cont'):
                continue
            if any(ev):
                s.trace = s.trace[:n0] + (('loop*', tag, it, tuple(ev)),) + s.trace[n0:]
            if k == 'break':
                res.append(('broke', None, s))
            elif k == 'stop':
                res.append(('next', None, s))
            else:
                res.append((k, v, s))
        if not any(k == 'stop' for (k, v, s) in outs):
            if it is not None:
                res.append(('next', None, after))
        return res

    def diff(self, a, exits):
        """Locations whose value differs after an iteration."""
        mods = {}
        for s in exits:
            for fid, env in a.frames.items():
                e2 = s.frames.get(fid)
                if e2 is None:
                    continue
                for n, v in e2.items():
                    if n.startswith('__'):
                        continue
                    if n not in env:
                        mods.setdefault(('var', fid, n), []).append((v, s))
                    elif env[n] != v:
                        mods.setdefault(('var', fid, n), []).append((v, s))
            for i, h2 in s.heap.items():
                h = a.heap.get(i)
                if h is h2:
                    continue
                if h is None:
                    if not (isinstance(i, tuple) and i[0] in ('sym', 'S', 'G')):
                        continue
                    h = HObj(h2.kind, cls=h2.cls, base=h2.base if i[0] == 'sym' else None,
                             segs=(('r', h2.base),) if h2.kind == 'list' else ())
                if h2.kind == 'obj':
                    for n, v in h2.attrs.items():
                        old = h.attrs.get(n)
                        if old is None:
                            old = self.init_attr(h2, n, s) if h2.base is not None else None
                        if old != v:
                            mods.setdefault(('attr', i, n), []).append((v, s))
                elif h2.kind in ('list', 'set'):
                    if h2.segs != h.segs:
                        mods.setdefault(('segs', i), []).append((h2.segs, s))
                elif h2.kind == 'dict':
                    if h2.entries != h.entries or h2.base != h.base:
                        mods.setdefault(('entries', i), []).append((h2.entries, s))
        return mods

    def havoc(self, st, mods, tag, it):
        for loc, vals in mods.items():
            if loc[0] == 'var':
                (_, fid, n) = loc
                if fid not in st.frames:
                    continue
                old = st.frames[fid].get(n)
                cands = [v for v, s in vals] + ([old] if old is not None else [])
                st.frames[fid][n] = self.havoc_value(('loop', tag, n), vals, st, old)
            elif loc[0] == 'attr':
                (_, i, n) = loc
                h = st.heap.get(i)
                if h is None:
                    # symbolic object first seen in the loop
                    src = vals[0][1].heap[i]
                    h = HObj(src.kind, cls=src.cls, base=src.base, exact=src.exact)
                    if i[0] == 'S':
                        h.base = None
                base = h.base if h.base is not None else ('s', str(i))
                na = dict(h.attrs)
                na[n] = self.havoc_value(('loop', tag, ('attr', base, n)), vals, st, h.attrs.get(n))
                st.heap[i] = h.with_(attrs=na)
            elif loc[0] == 'segs':
                (_, i) = loc
                h = st.heap.get(i)
                if h is None:
                    src = vals[0][1].heap[i]
                    h = HObj(src.kind, cls=src.cls, base=src.base, segs=(('r', src.base),))
                n = len(h.segs)
                if all(v[:n] == h.segs and all(x[0] == 'e' for x in v[n:]) for v, s in vals):
                    tmpl = []
                    for v, s in vals:
                        for x in v[n:]:
                            c = self.canon(x[1], s)
                            if c not in tmpl:
                                tmpl.append(c)
                    st.heap[i] = h.with_(segs=h.segs + (('many', tuple(tmpl), it if it is not None else ('s', tag)),))
                else:
                    st.heap[i] = h.with_(segs=(('r', ('loop', tag, ('list', h.base if h.base is not None else str(i)))),))
            elif loc[0] == 'entries':
                (_, i) = loc
                h = st.heap.get(i)
                if h is None:
                    src = vals[0][1].heap[i]
                    h = HObj(src.kind, cls=src.cls, base=src.base)
                st.heap[i] = h.with_(entries=(), base=('loop', tag, ('dict', h.base if h.base is not None else str(i))))
        return st

    def havoc_value(self, term, vals, st, old):
        cls = None
        kinds = set()
        for v, s in vals:
            h = self.obj(v, s)
            if h is not None and h.kind == 'obj' and h.cls is not None:
                kinds.add(h.cls)
            else:
                kinds.add(None)
        if len(kinds) == 1 and None not in kinds:
            return self.sym_obj(st, kinds.pop(), term, maybe_none=(old == NONE))
        if all(self.obj(v, s) is not None and self.obj(v, s).kind == 'list' for v, s in vals):
            return self.sym_list(st, term)
        return term

    def st_While(self, n, st, fr):
        tag = self.loop_tag(fr, n)
        # decided at entry?
        first = self.cond(n.test, st.fork(), fr)
        if all((not bad(b)) and b is False for b, s in first):
            return self.block(n.orelse, st, fr)
        outs = self.peel(n, st, fr)
        if outs is not None:
            return outs

        def one(s):
            res = []
            for b, s1 in self.cond(n.test, s, fr):
                if bad(b):
                    res.append(self.lift(b, s1))
                elif b:
                    res.extend(self.block(n.body, s1, fr))
                else:
                    res.append(('stop', None, s1))
            return res
        outs = []
        for (k, v, s) in self.generic_loop(one, st, fr, n, tag, None):
            if k == 'next':
                outs.extend(self.block(n.orelse, s, fr) if n.orelse else [('next', None, s)])
            elif k == 'broke':
                outs.append(('next', None, s))
            else:
                outs.append((k, v, s))
        return self.cap(outs, 'while')

    PEEL = 400
    RANGE = 256
    SHORT = True        # a loop of more than PEEL turns on the short data of the obligations does not end

    def peel(self, n, st, fr):
        """A loop whose every test is decided is followed iteration by
        iteration; None when some test or iteration leaves more than one way on."""
        tries = len(self.try_stack[-1][1]) if self.try_stack else 0
        st = st.fork()
        outs = []
        was = None
        for turn in range(self.PEEL):
            if was is not None and same_state(was, st):
                # a decided way that comes back to where it was goes on for ever
                self.forever.append((dict(st.pc), 'the loop in line %d of %s comes back to the state it was in and so does not end' % (
                    n.lineno, fr.func.qual if fr.func is not None else fr.module.name)))
                self.unending.append(self.forever[-1][1])
                break
            if turn in (16, 32, 64, 128):
                was = st.fork()
            r = self.cond(n.test, st, fr)
            if len(r) != 1 or bad(r[0][0]):
                break
            b, st = r[0]
            if not b:
                return self.cap(outs + (self.block(n.orelse, st, fr) if n.orelse else [('next', None, st)]), 'while')
            cont = []
            for (k, v, s) in self.block(n.body, st, fr):
                if k in ('next', 'cont'):
                    cont.append(s)
                elif k == 'break':
                    outs.append(('next', None, s))
                else:
                    outs.append((k, v, s))
            if not cont:
                return self.cap(outs, 'while')
            if len(cont) > 1:
                break
            st = cont[0]
        else:
            if not self.SHORT:
                raise AnalysisError('a loop takes more than %d turns' % self.PEEL)
            self.unending.append('the loop in line %d of %s does not end' % (
                n.lineno, fr.func.qual if fr.func is not None else fr.module.name))
            self.forever.append((dict(st.pc), self.unending[-1] + ' within %d turns on data of a few bytes' % self.PEEL))
        if self.try_stack:
            del self.try_stack[-1][1][tries:]
        return None

    def st_With(self, n, st, fr):
        return self.with_items(n.items, n.body, st, fr, n)

    st_AsyncWith = st_With

    def with_items(self, items, bodyst, st, fr, node):
        if not items:
            return self.block(bodyst, st, fr)
        it = items[0]
        outs = []
        for cv, s in self.eval(it.context_expr, st, fr):
            if bad(cv):
                outs.append(self.lift(cv, s))
                continue

            def inner(v, s1):
                if it.optional_vars is not None:
                    res = []
                    for (k, vv, s2) in self.assign(it.optional_vars, v, s1, fr):
                        if k == 'next':
                            res.extend(self.with_items(items[1:], bodyst, s2, fr, node))
                        else:
                            res.append((k, vv, s2))
                    return res
                return self.with_items(items[1:], bodyst, s1, fr, node)
            outs.extend(self.with_ctx(cv, s, fr, inner, node))
        return outs

    def with_ctx(self, cv, st, fr, inner, node):
        if cv[0] == 'ctxgen':
            token = self.new()

            def cb(v, s):
                res = []
                for (k, vv, s2) in inner(v, s):
                    if k == 'next':
                        res.append((NONE, s2))
                    elif k == 'raise':
                        res.append((Exc(vv), s2))
                    elif k == 'ctl':
                        res.append((Ctl(*vv), s2))
                    else:
                        res.append((Ctl('out', (token, k, vv)), s2))
                return res
            r = self.run_gen(cv, st, cb)
            if r is None:
                func, gfr = self.gens[cv[1]]
                st.trace = st.trace + (('call', ('f', func.qual, None, None), (), (), U('recursive context'), ''),)
                return inner(U('recursive context'), st)
            outs = []
            for (k, v, s) in r:
                if k in ('next', 'ret'):
                    outs.append(('next', None, s))
                elif k == 'ctl' and v[0] == 'out' and v[1][0] == token:
                    outs.append((v[1][1], v[1][2], s))
                else:
                    outs.append((k, v, s))
            return outs
        h = self.obj(cv, st)
        if h is not None and h.kind == 'obj' and h.cls is not None and isinstance(self.P.class_attr(h.cls, '__enter__'), Func):
            outs = []
            for ev, s in self.getattr(cv, '__enter__', st, fr, node):
                for v, s1 in self.call(ev, [], [], s, fr, node):
                    if bad(v):
                        outs.append(self.lift(v, s1))
                        continue
                    for (k, vv, s2) in inner(v, s1):
                        for xv, s3 in self.getattr(cv, '__exit__', s2, fr, node):
                            a = [S('exc_type'), S('exc_val'), S('exc_tb')] if k == 'raise' else [NONE, NONE, NONE]
                            for rv, s4 in self.call(xv, a, [], s3, fr, node):
                                if bad(rv):
                                    outs.append(self.lift(rv, s4))
                                elif k == 'raise' and rv == TRUE:
                                    outs.append(('next', None, s4))
                                else:
                                    outs.append((k, vv, s4))
            return outs
        t = self.canon(cv, st)
        st.trace = st.trace + (('enter', t, self.where(fr, node)),)
        outs = []
        for (k, vv, s2) in inner(cv, st):
            s2.trace = s2.trace + (('exit', t, self.where(fr, node)),)
            outs.append((k, vv, s2))
        return outs

    def st_Try(self, n, st, fr):
        htypes = [self.handler_types(h, fr) for h in n.handlers]
        outer = self.try_stack[-1][0] if self.try_stack else None

        def accept(kind):
            for t in htypes:
                if self.exc_matches(('implicit', kind), t) is not False:
                    return True
            # conservative: an enclosing handler may be interested
            return outer is not None and outer.__name__ == 'accept' and outer(kind)
        snaps = []
        self.try_stack.append((accept, snaps))
        try:
            outs = self.block(n.body, st, fr)
        finally:
            self.try_stack.pop()
        res = []
        raised = []
        for (k, v, s) in outs:
            if k == 'next':
                res.extend(self.block(n.orelse, s, fr) if n.orelse else [('next', None, s)])
            elif k == 'raise':
                raised.append((v, s))
            else:
                res.append((k, v, s))
        for kind, s in snaps:
            raised.append((('implicit', kind), s))
        for exc, s in raised:
            handled = False
            for h, types in zip(n.handlers, htypes):
                m = self.exc_matches(exc, types)
                if m is False:
                    continue
                s2 = s if m is True else s.fork()
                if h.name:
                    s2.frames.setdefault(fr.fid, {})[h.name] = exc if exc[0] == 'exc' else S('exception')
                self.exc_stack.append(exc)
                try:
                    res.extend(self.block(h.body, s2, fr))
                finally:
                    self.exc_stack.pop()
                if m is True:
                    handled = True
                    break
            if not handled:
                if exc[0] == 'implicit':
                    self.may_raise(s, exc[1])
                else:
                    res.append(('raise', exc, s))
        if n.finalbody:
            out2 = []
            for (k, v, s) in res:
                for (k2, v2, s2) in self.block(n.finalbody, s, fr):
                    out2.append((k, v, s2) if k2 == 'next' else (k2, v2, s2))
            res = out2
        return self.cap(res, 'try')

    st_TryStar = st_Try

    def st_Match(self, n, st, fr):
        self.problem('match statement at %s:%d' % (fr.module.rel, n.lineno))
        outs = []
        for v, s in self.eval(n.subject, st, fr):
            for c in n.cases:
                outs.extend(self.block(c.body, s.fork(), fr))
        return outs

    # ----------------------------------------------------------- expressions
    def eval(self, n, st, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            self.problem('unsupported expression %s' % type(n).__name__)
            return [(U(type(n).__name__), st)]
        return m(n, st, fr)

    def seq(self, nodes, st, fr):
        """Evaluate several expressions left to right -> [([values]|bad, state)]"""
        cur = [([], st)]
        outs = []
        for x in nodes:
            nxt = []
            for vals, s in cur:
                star = isinstance(x, ast.Starred)
                for v, s2 in self.eval(x.value if star else x, s, fr):
                    if bad(v):
                        outs.append((v, s2))
                    elif star:
                        items = self.known_items(v, s2)
                        if items is not None:
                            nxt.append((vals + items, s2))
                        else:
                            nxt.append((vals + [('star', self.canon(v, s2))], s2))
                    else:
                        nxt.append((vals + [v], s2))
            cur = nxt
        return outs + cur

    def ev_Constant(self, n, st, fr):
        return [(C(n.value), st)]

    def ev_Name(self, n, st, fr):
        return [(self.load_name(n.id, st, fr), st)]

    def load_name(self, name, st, fr):
        if name not in fr.globals_:
            fid = fr.fid
            while fid is not None:
                env = st.frames.get(fid)
                if env is None:
                    break
                if name in env:
                    return env[name]
                fid = env.get('__outer__')
        r = self.P.lookup(fr.module.name, name)
        if r is not None:
            return self.global_value(fr.module.name, name, st)
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return C(getattr(builtins, name))
            return ('bi', name)
        if name == '__name__':
            return C(fr.module.name)
        if name == '__file__':
            return C('/current/' + fr.module.rel)
        self.may_raise(st, 'NameError')
        return ('undef', fr.module.name, name)

    def ev_Attribute(self, n, st, fr):
        outs = []
        for b, s in self.eval(n.value, st, fr):
            if bad(b):
                outs.append((b, s))
            else:
                outs.extend(self.getattr(b, self.mangle(n.attr, fr.cls), s, fr, n))
        return outs

    def setattr(self, b, name, v, st, node, fr):
        if b[0] == 'ref':
            h = st.heap[b[1]]
            na = dict(h.attrs)
            na[name] = v
            st.heap[b[1]] = h.with_(attrs=na)
            if h.base is not None and self.record_calls and h.kind == 'obj':
                st.trace = st.trace + (('set', h.base, name, v, self.where(fr, node)),)
            return
        key = ('S', b)
        h = st.heap.get(key) or HObj('obj', attrs={})
        na = dict(h.attrs)
        na[name] = v
        st.heap[key] = h.with_(attrs=na)
        st.trace = st.trace + (('set', b, name, v, self.where(fr, node)),)

    def may_equal(self, a, b, st):
        ca, cb = self.cn(a, st), self.cn(b, st)
        if self.distinct_const(ca) and self.distinct_const(cb):
            return ca == cb
        r = self.cmp_eq(a, b, False, st)
        return not (len(r) == 1 and r[0][0] == FALSE)

    def setitem(self, b, i, v, st, node, fr):
        h = self.obj(b, st)
        if h is not None and h.kind == 'dict':
            ck = self.cn(i, st)
            ent = []
            done = False
            for j, (k, x) in enumerate(h.entries):
                if self.cn(k, st) == ck:
                    if any(self.may_equal(y, i, st) for y, _ in h.entries[j + 1:]):
                        continue        # the last one made counts
                    ent.append((k, v))
                    done = True
                else:
                    ent.append((k, x))
            if not done:
                ent.append((i, v))
            st.heap[b[1]] = h.with_(entries=tuple(ent))
            if h.base is not None:
                st.trace = st.trace + (('setitem', h.base, i, v, self.where(fr, node)),)
            return
        if h is not None and h.kind == 'list':
            if is_num_c(i) and all(s[0] == 'e' for s in h.segs) and -len(h.segs) <= i[2] < len(h.segs):
                segs = list(h.segs)
                segs[i[2]] = ('e', v)
                st.heap[b[1]] = h.with_(segs=tuple(segs))
                return
            if i[0] == 'sliceidx' and i[3] == NONE and all(x == NONE or is_num_c(x) for x in i[1:3]) and all(x[0] == 'e' for x in h.segs):
                items = self.known_items(v, st)
                if items is not None:
                    segs = list(h.segs)
                    segs[slice(*[None if x == NONE else x[2] for x in i[1:3]])] = [('e', x) for x in items]
                    st.heap[b[1]] = h.with_(segs=tuple(segs))
                    return
            if i[0] == 'sliceidx' and i[2] == NONE and i[3] == NONE:
                lo = self.cn(i[1], st)
                items = self.known_items(v, st)
                if items == []:
                    # del tail
                    st.heap[b[1]] = h.with_(segs=self.slice_segs(h.segs, NONE, i[1], st, self.canon(b, st)))
                    return
            st.heap[b[1]] = h.with_(segs=(('r', ('op', 'upd', self.canon(b, st), self.canon(i, st), self.canon(v, st))),))
            st.trace = st.trace + (('setitem', h.base or ('s', str(b[1])), i, v, self.where(fr, node)),)
            return
        if h is not None and h.kind == 'obj' and h.cls is not None:
            m = self.P.class_attr(h.cls, '__setitem__')
            if isinstance(m, Func):
                self.inline(m, b, [i, v], [], st, None, node)
                return
        st.trace = st.trace + (('setitem', self.canon(b, st), self.canon(i, st), self.canon(v, st), self.where(fr, node)),)
        key = ('I', self.canon(b, st), self.cn(i, st))
        st.heap[key] = HObj('cell', attrs={'v': v})

    def ev_Tuple(self, n, st, fr):
        return [((('t', tuple(v)) if isinstance(v, list) else v), s) if isinstance(v, list) and not any(x[0] == 'star' for x in v)
                else ((v if bad(v) else ('op', 'tuple*', ('t', tuple(v)))), s)
                for v, s in self.seq(n.elts, st, fr)]

    def ev_List(self, n, st, fr):
        out = []
        for v, s in self.seq(n.elts, st, fr):
            if bad(v):
                out.append((v, s))
            else:
                out.append((self.new_list(s, tuple(('r', x[1]) if x[0] == 'star' else ('e', x) for x in v)), s))
        return out

    def ev_Set(self, n, st, fr):
        out = []
        for v, s in self.seq(n.elts, st, fr):
            if bad(v):
                out.append((v, s))
            else:
                out.append((self.alloc(s, HObj('set', segs=tuple(('e', x) for x in v)), 'S'), s))
        return out

    def ev_Dict(self, n, st, fr):
        cur = [([], None, st)]
        outs = []
        for k, v in zip(n.keys, n.values):
            nxt = []
            for ent, base, s in cur:
                if k is None:
                    for x, s2 in self.eval(v, s, fr):
                        if bad(x):
                            outs.append((x, s2))
                            continue
                        h = self.obj(x, s2)
                        if h is not None and h.kind == 'dict':
                            ent2 = [e for e in ent if not any(self.cn(e[0], s2) == self.cn(q[0], s2) for q in h.entries)]
                            nxt.append((ent2 + list(h.entries), h.base if h.base is not None else base, s2))
                        else:
                            nxt.append((ent, self.canon(x, s2), s2))
                else:
                    for kv, s2 in self.eval(k, s, fr):
                        if bad(kv):
                            outs.append((kv, s2))
                            continue
                        for x, s3 in self.eval(v, s2, fr):
                            if bad(x):
                                outs.append((x, s3))
                            else:
                                ent2 = [e for e in ent if self.cn(e[0], s3) != self.cn(kv, s3)]
                                nxt.append((ent2 + [(kv, x)], base, s3))
            cur = nxt
        for ent, base, s in cur:
            outs.append((self.new_dict(s, tuple(ent), base), s))
        return outs

    def ev_JoinedStr(self, n, st, fr):
        cur = [([], st)]
        outs = []
        for p in n.values:
            nxt = []
            for parts, s in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((parts + [C(p.value)], s))
                else:
                    for v, s2 in self.eval(p.value, s, fr):
                        if bad(v):
                            outs.append((v, s2))
                            continue
                        spec = ''
                        if p.format_spec is not None:
                            spec = ''.join(str(x.value) if isinstance(x, ast.Constant) else '?' for x in p.format_spec.values)
                        cv = v
                        if p.conversion == 114:
                            t = ('fmt', '%r', cv)
                        elif spec:
                            t = ('fmt', spec, cv)
                        else:
                            t = ('str', cv)
                        nxt.append((parts + [t], s2))
            cur = nxt
        for parts, s in cur:
            outs.append((self.fold_cat(('cat', tuple(parts)) if parts else C('')), s))
        return outs

    def fold_cat(self, t):
        if t[0] == 'cat':
            ps = []
            for p in t[1]:
                if p[0] == 'str' and p[1][0] == 'c' and p[1][1] in ('str', 'int', 'bool', 'NoneType'):
                    p = C(str(p[1][2]))
                elif p[0] == 'str' and self.is_text(p[1]):
                    p = p[1]
                if p[0] == 'cat':
                    ps.extend(p[1])
                else:
                    ps.append(p)
            out = []
            for p in ps:
                if out and is_str_c(p) and is_str_c(out[-1]) and p[1] == out[-1][1]:
                    out[-1] = C(out[-1][2] + p[2])
                elif is_str_c(p) and not p[2] and (out or len(ps) > 1):
                    continue
                else:
                    out.append(p)
            if not out:
                return C(b'' if any(p == C(b'') for p in ps) else '')
            if len(out) == 1 and (out[0][0] == 'c' or self.is_text(out[0]) or self.is_bytes(out[0])):
                return out[0]
            return ('cat', tuple(out))
        return t

    def ev_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def ev_Lambda(self, n, st, fr):
        f = self.P.func_of_node.get(id(n))
        if f is None:
            f = Func(n, fr.module, fr.cls, '%s.<lambda:%d:%d>' % (fr.module.name, n.lineno, n.col_offset))
            self.P.func_of_node[id(n)] = f
            self.P.funcs[f.qual] = f
        return [(('f', f.qual, None, fr.fid), st)]

    def ev_NamedExpr(self, n, st, fr):
        outs = []
        for v, s in self.eval(n.value, st, fr):
            if not bad(v):
                self.store_name(n.target.id, v, s, fr)
            outs.append((v, s))
        return outs

    def ev_IfExp(self, n, st, fr):
        outs = []
        for b, s in self.cond(n.test, st, fr):
            if bad(b):
                outs.append((b, s))
            else:
                outs.extend(self.eval(n.body if b else n.orelse, s, fr))
        return outs

    def ev_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        outs = []
        for i, x in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for v, s2 in self.eval(x, s, fr):
                    if bad(v) or last:
                        outs.append((v, s2))
                        continue
                    for b, s3 in self.split(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            if v[0] == 'cond':
                                outs.append((C(b), s3))
                            else:
                                outs.append((v, s3))
            cur = nxt
        return outs

    def ev_UnaryOp(self, n, st, fr):
        outs = []
        if isinstance(n.op, ast.Not):
            for b, s in self.cond(n.operand, st, fr):
                outs.append((b, s) if bad(b) else (C(not b), s))
            return outs
        for v, s in self.eval(n.operand, st, fr):
            if bad(v):
                outs.append((v, s))
            elif is_num_c(v):
                x = v[2]
                outs.append((C(-x if isinstance(n.op, ast.USub) else (+x if isinstance(n.op, ast.UAdd) else ~int(x))), s))
            else:
                o = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(n.op)]
                outs.append((('op', o, self.canon(v, s)), s))
        return outs

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|',
           ast.BitXor: '^', ast.MatMult: '@'}

    def ev_BinOp(self, n, st, fr):
        outs = []
        for a, s in self.eval(n.left, st, fr):
            if bad(a):
                outs.append((a, s))
                continue
            for b, s2 in self.eval(n.right, s, fr):
                if bad(b):
                    outs.append((b, s2))
                    continue
                outs.extend(self.binop(n.op, a, b, s2, fr, n))
        return outs

    def binop(self, op, a, b, st, fr, node):
        o = self.OPS[type(op)]
        if is_c(a) and is_c(b) and a[1] != 'NoneType' and b[1] != 'NoneType':
            try:
                x, y = a[2], b[2]
                if o == '+':
                    return [(C(x + y), st)]
                if o == '-':
                    return [(C(x - y), st)]
                if o == '*' and not (isinstance(x, (str, bytes)) and isinstance(y, int) and y > 4096):
                    return [(C(x * y), st)]
                if o == '//':
                    return [(C(x // y), st)]
                if o == '%' and not isinstance(x, (str, bytes)):
                    return [(C(x % y), st)]
                if o == '/':
                    return [(C(x / y), st)]
                if o in ('<<', '>>', '&', '|', '^'):
                    return [(C({'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y,
                                '|': lambda: x | y, '^': lambda: x ^ y}[o]()), st)]
            except Exception:
                pass
        if o == '%' and (is_str_c(a) or a[0] == 'cat'):
            return [(self.percent(a, b, st), st)]
        if self.kinds and o == '*':
            for x, y in ((a, b), (b, a)):
                if is_c(y) and y[1] == 'int' and 0 <= y[2] <= 256 and x[0] in ('s', 'cat', 'call'):
                    r = words.spelled(self, self.canon(x, st))
                    if r is not None:
                        return [(words.build(self, r[0] * y[2], r[1]), st)]
        ha, hb = self.obj(a, st), self.obj(b, st)
        if o == '+' and (ha is not None and ha.kind == 'list' or hb is not None and hb.kind == 'list'):
            sa = ha.segs if ha is not None and ha.kind == 'list' else self.segs_of(a, st)
            sb = hb.segs if hb is not None and hb.kind == 'list' else self.segs_of(b, st)
            return [(self.new_list(st, tuple(sa) + tuple(sb)), st)]
        if o == '*' and ha is not None and ha.kind == 'list' and is_num_c(b) and 0 <= b[2] * len(ha.segs) <= self.RANGE \
                and all(s[0] == 'e' for s in ha.segs):
            return [(self.new_list(st, ha.segs * b[2]), st)]
        if o == '+' and a[0] == 't' and b[0] == 't':
            return [(('t', a[1] + b[1]), st)]
        if o == '+' and (a[0] in ('cat', 'str', 'fmt') or b[0] in ('cat', 'str', 'fmt') or is_str_c(a) or is_str_c(b)
                         or self.is_text(a) or self.is_text(b) or self.is_bytes(a) or self.is_bytes(b)):
            if is_str_c(a) and not a[2] and b[0] != 'c':
                return [(b, st)] if b[0] in ('cat', 'str', 'fmt') or self.is_text(b) or self.is_bytes(b) else [(('cat', (a, self.canon(b, st))), st)]
            return [(self.fold_cat(('cat', (self.canon(a, st), self.canon(b, st)))), st)]
        if self.kinds and o in ('&', '%'):
            for p, q in ((a, b), (b, a)) if o == '&' else ((a, b),):
                if is_num_c(q) and isinstance(q[2], int) and q[2] > 0 and (o == '%' or not q[2] & (q[2] + 1)):
                    r = words.modulo(self, self.canon(p, st), q[2] + (o == '&'))
                    if r is not None:
                        return [(r, st)]
        if o in ('/', '//', '%'):
            if not (is_num_c(b) and b[2] != 0):
                self.may_raise(st, 'ZeroDivisionError')
        if a[0] == 'obj' or (ha is not None and ha.kind == 'obj' and ha.cls is not None):
            special = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(o)
            m = special and ha is not None and self.P.class_attr(ha.cls, special)
            if isinstance(m, Func):
                return self.inline(m, a, [b], [], st, None, node)
        return [(('op', o, self.canon(a, st), self.canon(b, st)), st)]

    def percent(self, a, b, st):
        if not is_str_c(a) or a[1] == 'bytes':
            return ('op', '%', self.canon(a, st), self.canon(b, st))
        import re as _re
        args = list(b[1]) if b[0] == 't' else [b]
        parts = []
        pos = 0
        i = 0
        for m in _re.finditer(r'%(\([^)]*\))?[-#0 +]*[0-9.*]*([a-zA-Z%])', a[2]):
            parts.append(C(a[2][pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                parts.append(C('%'))
                continue
            if i >= len(args) or m.group(1):
                return ('op', '%', a, self.canon(b, st))
            v = args[i]
            i += 1
            if is_c(v) and v[1] in ('int', 'str', 'float', 'bool'):
                try:
                    parts.append(C(m.group(0) % (v[2],)))
                    continue
                except (TypeError, ValueError):
                    pass
            parts.append(('str', v) if m.group(0) == '%s' else ('fmt', m.group(0), v))
        parts.append(C(a[2][pos:]))
        return self.fold_cat(('cat', tuple(parts)))

    def segs_of(self, v, st):
        it = self.known_items(v, st)
        if it is not None:
            return tuple(('e', x) for x in it)
        h = self.obj(v, st)
        if h is not None and h.kind == 'list':
            return h.segs
        return (('r', self.canon(v, st)),)

    # ---- conditions -------------------------------------------------------
    def cond(self, n, st, fr):
        """Evaluate as a condition -> [(bool|bad, state)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            outs = []
            for x in n.values:
                nxt = []
                for s in cur:
                    for b, s2 in self.cond(x, s, fr):
                        if bad(b):
                            outs.append((b, s2))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            outs.append((b, s2))
                cur = nxt
            outs.extend((isand, s) for s in cur)
            return outs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(b, s) if bad(b) else (not b, s) for b, s in self.cond(n.operand, st, fr)]
        outs = []
        for v, s in self.eval(n, st, fr):
            if bad(v):
                outs.append((v, s))
            else:
                outs.extend(self.split(v, s))
        return outs

    def truth(self, v, st):
        k = v[0]
        if k == 'c':
            return bool(v[2])
        if k == 'match':
            return True
        if self.kinds and k in ('s', 'cat', 'call'):
            r = words.spelled(self, self.canon(v, st))
            if r is not None:
                return bool(r[0])
        if k == 't':
            return bool(v[1])
        if k in ('f', 'cls', 'mod', 'ext', 'enum', 'gen', 'ctxgen', 'bi', 'm'):
            return True
        if k == 'ref':
            h = st.heap[v[1]]
            if h.kind in ('list', 'set'):
                if any(s[0] == 'e' for s in h.segs):
                    return True
                if not h.segs:
                    return False
            elif h.kind == 'dict':
                if h.entries:
                    return True
                if h.base is None:
                    return False
            elif h.kind == 'obj' and not h.maybe_none and h.cls is not None:
                if not isinstance(self.P.class_attr(h.cls, '__len__'), Func) and \
                        not isinstance(self.P.class_attr(h.cls, '__bool__'), Func):
                    return True
        if k == 'cat':
            if any(is_str_c(x) and x[2] for x in v[1]):
                return True
        return None

    def split(self, v, st):
        """Partition on the truth of a value -> [(bool, state)]"""
        if v[0] == 'cond':
            return self.split_atom(v[1], v[2], st)
        t = self.truth(v, st)
        if t is not None:
            return [(t, st)]
        cv = self.canon(v, st)
        if cv[0] == 'call' and cv[1] == ('bi', 'bool') and len(cv[2]) == 1:
            cv = cv[2][0]
        # len(x) truthiness == x truthiness
        if cv[0] == 'call' and cv[1] == ('bi', 'len') and len(cv[2]) == 1:
            cv = cv[2][0]
        return self.split_atom(('true', norm(cv)), True, st)

    def lookup_pc(self, atom, st):
        if atom in st.pc:
            return st.pc[atom]
        if self.truthy is not None:
            r = self.truthy(atom)
            if r is not None:
                return r
        if atom[0] == 'isnone' and atom[1][0] == 'call' and atom[1][1] in MAKERS:
            return False
        if atom[0] == 'isnone' and atom[1][0] in ('poly', 'min', 'max', 'cat', 'listv', 'dictv', 'obj', 't', 'joined',
                                                  'match', 'modified', 'str', 'fmt', 'slice'):
            return False
        if atom[0] == 'true':
            x = atom[1]
            if self.kinds:
                r = words.spelled(self, x)
                if r is not None:
                    return bool(r[0])
            if x[0] == 'cat' and any((p[0] in ('listv', 't') and p[1]) or (is_str_c(p) and p[2]) for p in x[1]):
                return True
            if x[0] in ('listv', 't'):
                return bool(x[1])
        # equality with distinct constants
        if atom[0] == 'eq':
            for x, c in ((atom[1], atom[2]), (atom[2], atom[1])):
                if self.distinct_const(c):
                    for a, b in st.pc.items():
                        if a[0] == 'eq' and b is True:
                            other = None
                            if a[1] == x:
                                other = a[2]
                            elif a[2] == x:
                                other = a[1]
                            if other is not None and self.distinct_const(other) and other != c and self.same_space(other, c):
                                return False
        if atom[0] == 'isinst':
            for a, b in st.pc.items():
                if a[0] == 'isinst' and a[1] == atom[1]:
                    rel = self.type_rel(a[2], atom[2])
                    if b is True and rel == 'sub':
                        return True
                    if b is False and rel == 'super':
                        return False
                    if b is True and rel == 'disjoint':
                        return False
            if st.pc.get(('isnone', atom[1])) is True:
                return False
        if atom[0] == 'isnone':
            for a, b in st.pc.items():
                if a[0] == 'isinst' and a[1] == atom[1] and b is True:
                    return False
                if a[0] == 'true' and a[1] == atom[1] and b is True:
                    return False
                if a[0] == 'eq' and b is True and atom[1] in (a[1], a[2]):
                    o = a[2] if a[1] == atom[1] else a[1]
                    if self.distinct_const(o):
                        return o == NONE
        if atom[0] == 'true':
            if st.pc.get(('isnone', atom[1])) is True:
                return False
            for a, b in st.pc.items():
                if a[0] == 'eq' and b is True:
                    o = a[2] if a[1] == atom[1] else (a[1] if a[2] == atom[1] else None)
                    if o is not None and o[0] == 'c':
                        return bool(o[2])
                if a[0] == 'isinst' and b is True and a[1] == atom[1] and a[2] in self.P.classes:
                    c = self.P.classes[a[2]]
                    if not isinstance(self.P.class_attr(c, '__len__'), Func) and \
                            not isinstance(self.P.class_attr(c, '__bool__'), Func):
                        return True
        if atom[0] == 'eq' and self.kinds and (is_num_c(atom[1]) or is_num_c(atom[2])):
            lo, hi = words.bounds(self, padd(poly(atom[1]), poly(atom[2]), -1))
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
        if atom[0] in ('neg0', 'eq0') and self.kinds:
            lo, hi = words.bounds(self, dict(atom[1]))
            if atom[0] == 'neg0' and (lo is not None and lo >= 0 or hi is not None and hi < 0):
                return hi is not None and hi < 0
            if atom[0] == 'eq0' and (lo is not None and lo > 0 or hi is not None and hi < 0):
                return False
        if atom[0] == 'neg0':
            p = dict(atom[1])
            if set(p) <= {()}:
                return p.get((), 0) < 0
            for a, b in st.pc.items():
                if a[0] == 'neg0':
                    d = padd(dict(atom[1]), dict(a[1]), -1)
                    if set(d) <= {()}:
                        k = d.get((), 0)
                        # atom: q+k<0 where a: q<0
                        if b is True and k <= 0:
                            return True
                        if b is False and k >= 0:
                            return False
                    d = padd(dict(atom[1]), dict(a[1]), 1)
                    if set(d) <= {()}:
                        # atom: k - q < 0  i.e. q > k, where a: q<0
                        k = d.get((), 0)
                        if b is True and k >= 0:
                            return False
                        if b is False and k < 0:
                            return True
        return None

    def type_rel(self, a, b):
        """Relation of type a (known) to type b (asked)."""
        if a == b:
            return 'sub'
        ca, cb = self.P.classes.get(a), self.P.classes.get(b)
        if ca is not None and cb is not None:
            if self.P.is_subclass(ca, cb):
                return 'sub'
            if self.P.is_subclass(cb, ca):
                return 'super'
            return 'disjoint'
        if ca is None and cb is None:
            x, y = getattr(builtins, a, None), getattr(builtins, b, None)
            if isinstance(x, type) and isinstance(y, type):
                if issubclass(x, y):
                    return 'sub'
                if issubclass(y, x):
                    return 'super'
                if a in BUILTIN_TYPES and b in BUILTIN_TYPES:
                    return 'disjoint'
            return None
        if (ca is None and a in BUILTIN_TYPES and a != 'object') or (cb is None and b in BUILTIN_TYPES and b != 'object'):
            c = ca or cb
            if not any(not isinstance(k, Class) and k in BUILTIN_TYPES and k != 'object' for k in self.P.mro(c)):
                return 'disjoint'
        return None

    def distinct_const(self, t):
        return t[0] in ('c', 'enum', 'cls') or (t[0] == 'call' and t[1][0] == 'f' and t[1][1].endswith('.intern')
                                                and all(x[0] == 'c' for x in t[2]))

    def same_space(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return True
        if a[0] == b[0] == 'enum':
            return True
        if a[0] == b[0] == 'call':
            return a[1] == b[1]
        if a[0] == b[0] == 'cls':
            return True
        return a[0] != b[0] and 'c' in (a[0], b[0])

    @staticmethod
    def len_atom(atom, pos):
        """len(x) > 0, len(x) == 0, len(x) < 1 all ask whether x is non-empty."""
        if atom[0] in ('neg0', 'eq0'):
            p = dict(atom[1])
            k = p.pop((), 0)
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == ('bi', 'len') \
                        and len(m[0][0][2]) == 1:
                    x = m[0][0][2][0]
                    if atom[0] == 'eq0' and k == 0:
                        return ('true', x), not pos
                    if atom[0] == 'neg0' and c < 0 and -1 < k / -c <= 0:
                        # k + c*len < 0  <=>  len > k/-c
                        return ('true', x), pos
                    if atom[0] == 'neg0' and c > 0 and 0 < -k / c <= 1:
                        return ('true', x), not pos
        return atom, pos

    def split_atom(self, atom, pos, st):
        atom, pos = self.len_atom(atom, pos)
        known = self.lookup_pc(atom, st)
        if known is not None:
            return [(known == pos, st)]
        s2 = st.fork()
        st.pc[atom] = True
        s2.pc[atom] = False
        return [(pos, st), (not pos, s2)]

    def ev_Compare(self, n, st, fr):
        outs = []
        cur = [(None, st)]
        left = [(v, s) for v, s in self.eval(n.left, st, fr)]
        work = []
        for v, s in left:
            if bad(v):
                outs.append((v, s))
            else:
                work.append((v, s))
        single = len(n.ops) == 1
        for i, (op, right) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            last = i == len(n.ops) - 1
            for a, s in work:
                for b, s2 in self.eval(right, s, fr):
                    if bad(b):
                        outs.append((b, s2))
                        continue
                    for r, s3 in self.compare(op, a, b, s2, fr, n):
                        if bad(r):
                            outs.append((r, s3))
                        elif last and single:
                            outs.append((r, s3))
                        else:
                            for t, s4 in self.split(r, s3):
                                if t and not last:
                                    nxt.append((b, s4))
                                else:
                                    outs.append((C(t), s4))
            work = nxt
        return outs

    def compare(self, op, a, b, st, fr, node):
        o = type(op)
        neg = o in (ast.NotEq, ast.IsNot, ast.NotIn)
        if o in (ast.Is, ast.IsNot):
            return self.cmp_is(a, b, neg, st)
        if o in (ast.Eq, ast.NotEq):
            return self.cmp_eq(a, b, neg, st)
        if o in (ast.In, ast.NotIn):
            return self.cmp_in(a, b, neg, st, fr)
        # ordering
        if is_c(a) and is_c(b):
            try:
                r = {ast.Lt: lambda: a[2] < b[2], ast.LtE: lambda: a[2] <= b[2],
                     ast.Gt: lambda: a[2] > b[2], ast.GtE: lambda: a[2] >= b[2]}[o]()
                return [(C(r), st)]
            except TypeError:
                return [(Exc(('exc', 'TypeError', ())), st)]
        ca, cb = self.canon(a, st), self.canon(b, st)
        if o in (ast.Lt, ast.GtE):
            x, y = ca, cb
        else:
            x, y = cb, ca
        # Lt: a<b ; Gt: b<a ; GtE: not(a<b) ; LtE: not(b<a)
        if o is ast.Lt:
            x, y, pos = ca, cb, True
        elif o is ast.GtE:
            x, y, pos = ca, cb, False
        elif o is ast.Gt:
            x, y, pos = cb, ca, True
        else:
            x, y, pos = cb, ca, False
        if self.kinds:
            try:
                r = words.less(self, x, y)
                if r is not None:
                    return [(C(r == pos), st)]
            except words.Unsure:
                pass
        d = padd(poly(x), poly(y), -1)
        if not d:
            return [(C(not pos), st)]
        if set(d) == {()}:
            return [(C((d[()] < 0) == pos), st)]
        return [(('cond', ('neg0', frozen(d)), pos), st)]

    def cmp_is(self, a, b, neg, st):
        r = self.same(a, b, st)
        if r is not None:
            return [(C(r != neg), st)]
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            t = self.cn(x, st)
            if x[0] == 'ref':
                h = st.heap[x[1]]
                if not h.maybe_none:
                    return [(C(neg), st)]
                t = norm(h.base) if h.base is not None else t
            return [(('cond', ('isnone', t), not neg), st)]
        ta, tb = (self.type_name(x, st) for x in (a, b))
        if ta in DISTINCT and tb in DISTINCT and DISTINCT[ta] != DISTINCT[tb]:
            return [(C(neg), st)]
        for x, t in ((a, tb), (b, ta)):
            h = self.obj(x, st)
            if h is not None and h.kind == 'obj' and h.cls is not None and t in ('int', 'float', 'bool', 'str', 'bytes', 'list', 'tuple', 'dict', 'set') \
                    and all(k == 'object' or getattr(k, 'qual', None) for k in self.P.mro(h.cls)):
                return [(C(neg), st)]
        ca, cb = self.cn(a, st), self.cn(b, st)
        (x, y) = sorted((ca, cb), key=repr)
        return [(('cond', ('eq', x, y), not neg), st)]

    def unlike_builtins(self, cls):
        """Is no object of the class equal to a value of a builtin type?"""
        return all(k == 'object' or getattr(k, 'qual', None) for k in self.P.mro(cls)) and self.P.class_attr(cls, '__eq__') is None

    def cmp_eq(self, a, b, neg, st):
        if a == NONE or b == NONE:
            return self.cmp_is(a, b, neg, st)
        r = self.same(a, b, st)
        if r is not None:
            return [(C(r != neg), st)]
        if is_c(a) and is_c(b):
            return [(C((a[2] == b[2]) != neg), st)]
        ta, tb = (self.type_name(x, st) or ('float' if self.is_number(x) else None) for x in (a, b))
        if ta in DISTINCT and tb in DISTINCT and DISTINCT[ta] != DISTINCT[tb]:
            return [(C(neg), st)]
        for x, tx, t in ((a, ta, tb), (b, tb, ta)):
            h = self.obj(x, st)
            if h is not None and h.kind == 'obj' and h.base is None and h.cls is not None and t in DISTINCT \
                    and self.unlike_builtins(h.cls):
                return [(C(neg), st)]
        if ta == tb and ta in ('list', 'tuple'):
            xs, ys = self.known_items(a, st), self.known_items(b, st)
            if xs is not None and ys is not None:
                r = len(xs) == len(ys)
                for x, y in zip(xs, ys) if r else ():
                    e = self.cmp_eq(x, y, False, st)
                    e = e[0][0] if len(e) == 1 and is_c(e[0][0]) else None
                    if e is not None and not e[2]:
                        r = False
                        break
                    r = r if e is not None else None
                if r is not None:
                    return [(C(r != neg), st)]
        ca, cb = self.canon(a, st), self.canon(b, st)
        if any(self._arith(x) or (self.kinds and x[:2] == ('call', ('bi', 'len'))) for x in (ca, cb)):
            d = padd(poly(ca), poly(cb), -1)
            if not d:
                return [(C(not neg), st)]
            if set(d) == {()}:
                return [(C(neg), st)]
            f = frozen(d)
            g = frozen(padd({}, d, -1))
            return [(('cond', ('eq0', min(f, g, key=repr)), not neg), st)]
        (x, y) = sorted((norm(ca), norm(cb)), key=repr)
        if x == y:
            return [(C(not neg), st)]
        for p, q in ((x, y), (y, x)):
            # one bit of a number
            if p[0] == 'op' and p[1] == '&' and is_num_c(q):
                bit = [m for m in p[2:] if is_num_c(m) and m[2] > 0 and not m[2] & (m[2] - 1)]
                if q[2] == 0:
                    return [(('cond', ('true', p), neg), st)]
                if bit and q[2] == bit[0][2]:
                    return [(('cond', ('true', p), not neg), st)]
        return [(('cond', ('eq', x, y), not neg), st)]

    @staticmethod
    def _arith(t):
        return t[0] in ('poly',) or (t[0] == 'op' and t[1] in ('+', '-', '*', '/', 'neg'))

    def same(self, a, b, st):
        """Definitely identical / definitely different / unknown."""
        if a == b:
            return True
        if a[0] == 'c' and b[0] == 'c':
            if a[1] == b[1] or {a[1], b[1]} <= {'int', 'float', 'bool'}:
                return a[2] == b[2]
            return False
        if a[0] == 'ref' and b[0] == 'ref':
            ha, hb = st.heap[a[1]], st.heap[b[1]]
            if ha.base is None or hb.base is None:
                if ha.kind == 'obj' and hb.kind == 'obj':
                    return False
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ref' and y[0] in ('c', 'f', 'cls', 'mod', 'ext', 'enum') and y != NONE:
                h = st.heap[x[1]]
                if h.kind == 'obj' and h.base is None:
                    return False
            if x[0] in ('f', 'cls', 'mod', 'ext', 'enum', 't') and y == NONE:
                return False
            if x[0] == 'ref' and y == NONE and not st.heap[x[1]].maybe_none:
                return False
        ca, cb = self.cn(a, st), self.cn(b, st)
        if ca == cb and ca[0] != 'unk':
            if a[0] == 'ref' or b[0] == 'ref':
                return True if a == b else None
            return True
        if self.distinct_const(ca) and self.distinct_const(cb) and self.same_space(ca, cb):
            return ca == cb
        if self.kinds:
            x, y = ca, cb
            if x[0] == y[0] == 'call' and x[1][0] == y[1][0] == 'f' and x[1][1] == y[1][1] and x[1][1].endswith('.intern') \
                    and len(x[2]) == len(y[2]) == 1:
                if x[1] != y[1]:
                    return False
                x, y = x[2][0], y[2][0]
            elif x[0] == 'call' and x[1][0] == 'f' or y[0] == 'call' and y[1][0] == 'f':
                return False if any(z[0] == 'call' and z[1][0] == 'f' and z[1][1].endswith('.intern') and (
                    o[0] in ('c', 'cat', 't', 'listv') or self.type_name(p, st) in BUILTIN_TYPES)
                    for z, o, p in ((x, y, b), (y, x, a))) else None
            r = words.same_text(self, x, y)
            if r is not None:
                return r
            for z, o in ((x, y), (y, x)):
                if words.spelled(self, z) is not None and (o[0] in ('poly', 't', 'listv', 'f', 'cls') or o[0] == 'c' and o[1] not in ('str', 'bytes')):
                    return False
        if ca[0] == 't' and cb[0] == 't' and len(ca[1]) != len(cb[1]):
            return False
        return None

    def cmp_in(self, a, b, neg, st, fr):
        if self.kinds and (b[0] in ('c', 'cat', 's', 'call')):
            try:
                r = words.contains(self, self.canon(a, st), self.canon(b, st))
                if r is not None:
                    return [(C(r != neg), st)]
            except words.Unsure:
                pass
        if self.kinds and b[0] == 'glob' and not is_c(a):
            cc = self.const_container(b)
            if cc is not None:
                rs = [self.same(a, k, st) for k in cc[1]]
                if True in rs or None not in rs:
                    return [(C((True in rs) != neg), st)]
        if b[0] == 'glob':
            r = self.const_lookup(b, a, st)
            if r is not None:
                return [(C(r[0] != neg), st)]
        items = self.known_items(b, st)
        if is_str_c(a) and is_str_c(b) and a[1] != b[1]:
            return [(Exc(('exc', 'TypeError', ())), st)]
        if is_str_c(a) and is_str_c(b):
            return [(C((a[2] in b[2]) != neg), st)]
        if items is not None and not (b[0] == 'c' and b[1] == 'str') and len(items) <= 128:
            # sequence of equality tests
            outs = []
            cur = [st]
            for x in items:
                nxt = []
                for s in cur:
                    for r, s2 in self.cmp_eq(a, x, False, s):
                        for t, s3 in self.split(r, s2):
                            if t:
                                outs.append((C(not neg), s3))
                            else:
                                nxt.append(s3)
                cur = nxt
            outs.extend((C(neg), s) for s in cur)
            return outs
        h = self.obj(b, st)
        if b[0] == 'view' and b[1] == 'keys':
            h = self.obj(b[2], st)
            b = b[2]
        if h is not None and h.kind == 'dict':
            ck = self.cn(a, st)
            for k, x in h.entries:
                if self.cn(k, st) == ck:
                    return [(C(not neg), st)]
            if h.base is None and (not h.entries or self.distinct_const(ck) and all(
                    self.distinct_const(k) and self.same_space(norm(k), ck) for k, _ in h.entries)):
                return [(C(neg), st)]
            return [(('cond', ('in', ck, norm(h.base if h.base is not None else self.canon(b, st))), not neg), st)]
        if h is not None and h.kind == 'obj' and h.cls is not None:
            m = self.P.class_attr(h.cls, '__contains__')
            if isinstance(m, Func) and not self.opaque(m):
                outs = []
                for v, s in self.inline(m, b, [a], [], st, None, None):
                    if bad(v):
                        outs.append((v, s))
                        continue
                    for t, s2 in self.split(v, s):
                        outs.append((C(t != neg), s2))
                return outs
        return [(('cond', ('in', self.cn(a, st), self.cn(b, st)), not neg), st)]

    # ---- subscripts -------------------------------------------------------
    def eval_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            outs = []
            nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
            for v, s in self.seq(nodes, st, fr):
                outs.append((v, s) if bad(v) else (('sliceidx', v[0], v[1], v[2]), s))
            return outs
        return self.eval(n, st, fr)

    def ev_Slice(self, n, st, fr):
        return self.eval_index(n, st, fr)

    def ev_Subscript(self, n, st, fr):
        outs = []
        for b, s in self.eval(n.value, st, fr):
            if bad(b):
                outs.append((b, s))
                continue
            for i, s2 in self.eval_index(n.slice, s, fr):
                if bad(i):
                    outs.append((i, s2))
                    continue
                outs.extend(self.getitem(b, i, s2, fr, n))
        return outs

    def getitem(self, b, i, st, fr, node):
        if i[0] == 'sliceidx':
            return self.getslice(b, i, st)
        h = self.obj(b, st)
        if b[0] in ('t', 'listv') and is_num_c(i):
            if -len(b[1]) <= i[2] < len(b[1]):
                return [(b[1][i[2]], st)]
            return [(Exc(('exc', 'IndexError', ())), st)]
        if self.kinds and b[0] in ('c', 'cat', 's', 'call', 'match'):
            try:
                if b[0] == 'match':
                    v = words.match_method(self, b, 'group', [i], st)
                else:
                    v = words.item(self, self.canon(b, st), self.canon(i, st))
                if v is not None:
                    return self.spelled_value(v, st)
            except words.Unsure:
                pass
        if b[0] == 'c' and is_c(i):
            try:
                return [(C(b[2][i[2]]), st)]
            except Exception:
                return [(Exc(('exc', 'IndexError', ())), st)]
        if h is not None:
            if h.kind == 'list' and is_num_c(i) and isinstance(i[2], int):
                x = self.seg_index(h.segs, i[2])
                if x is not None:
                    return [(x, st)]
                if all(s[0] == 'e' for s in h.segs):
                    return [(Exc(('exc', 'IndexError', ())), st)]
                self.may_raise(st, 'IndexError')
                t = ('item', self.canon(b, st), self.canon(i, st))
                return [(self.typed(st, t, None), st)]
            if h.kind == 'dict':
                ck = self.cn(i, st)
                outs = []
                for j in range(len(h.entries) - 1, -1, -1):
                    k, x = h.entries[j]
                    if self.cn(k, st) == ck:
                        return outs + [(x, st)]
                    if any(self.cn(y, st) == ck for y, _ in h.entries[:j]) and self.may_equal(k, i, st):
                        # an entry made later, for what may be the same key
                        rest = []
                        for r, s in self.cmp_eq(i, k, False, st):
                            for t, s2 in self.split(r, s):
                                if t:
                                    outs.append((x, s2))
                                else:
                                    rest.append(s2)
                        if not rest:
                            return outs
                        st = rest[0]
                        if len(rest) > 1:
                            self.problem('keys that may be the same')
                if h.base is None:
                    if not h.entries:
                        return [(Exc(('exc', 'KeyError', (i,))), st)]
                    if all(self.distinct_const(self.cn(k, st)) for k, x in h.entries) and self.distinct_const(ck):
                        return [(Exc(('exc', 'KeyError', (i,))), st)]
                    may = [e for e in h.entries if self.may_equal(e[0], i, st)] if len(h.entries) <= 300 else h.entries
                    if len(may) <= 4:
                        for k, x in reversed(may):
                            rest = []
                            for r, s in self.cmp_eq(i, k, False, st):
                                for t, s2 in self.split(r, s):
                                    if t:
                                        outs.append((x, s2))
                                    else:
                                        rest.append(s2)
                            if len(rest) != 1:
                                break
                            st = rest[0]
                        else:
                            return outs + [(Exc(('exc', 'KeyError', (i,))), st)]
                        if not rest:
                            return outs
                    self.may_raise(st, 'KeyError')
                    return outs + [(('item', self.canon(b, st), ck), st)]
                if st.pc.get(('in', ck, norm(h.base))) is not True:
                    self.may_raise(st, 'KeyError')
                return [(self.typed(st, ('item', h.base, self.canon(i, st)), None), st)]
            if h.kind == 'obj' and h.cls is not None:
                m = self.P.class_attr(h.cls, '__getitem__')
                if isinstance(m, Func):
                    if self.opaque(m) or (h.base is not None and not h.exact and self.overridden(h.cls, '__getitem__', m)):
                        self.may_raise(st, 'any')
                        return [(self.typed(st, ('item', self.canon(b, st), self.canon(i, st)), None), st)]
                    return self.inline(m, b, [i], [], st, None, node)
        if b[0] == 'glob':
            r = self.const_lookup(b, i, st)
            if r is not None and not r[0]:
                return [(Exc(('exc', 'KeyError', (i,))), st)]
            if r is not None and r[1] is not None:
                return [(r[1], st)]
        cb = self.canon(b, st)
        key = ('I', cb, self.cn(i, st))
        if key in st.heap:
            return [(st.heap[key].attrs['v'], st)]
        if st.pc.get(('in', self.cn(i, st), norm(cb))) is not True:
            self.may_raise(st, 'KeyError')
            self.may_raise(st, 'IndexError')
            self.may_raise(st, 'TypeError')
        t = ('item', cb, self.canon(i, st))
        return [(self.typed(st, t, None), st)]

    @staticmethod
    def seg_index(segs, i):
        if i >= 0:
            for j, s in enumerate(segs):
                if s[0] != 'e':
                    return None
                if j == i:
                    return s[1]
            return None
        for j, s in enumerate(reversed(segs)):
            if s[0] != 'e':
                return None
            if j == -i - 1:
                return s[1]
        return None

    def slice_segs(self, segs, lo, hi, st, base):
        """segs[lo:hi] for the cases decidable from known ends."""
        def intc(x):
            return is_num_c(x) and isinstance(x[2], int)
        if lo == NONE and hi == NONE:
            return segs
        if lo == NONE and intc(hi) and hi[2] < 0:
            k = -hi[2]
            if len(segs) >= k and all(s[0] == 'e' for s in segs[-k:]):
                return segs[:-k]
        if hi == NONE and intc(lo) and lo[2] < 0:
            k = -lo[2]
            if len(segs) >= k and all(s[0] == 'e' for s in segs[-k:]):
                return segs[-k:]
        if hi == NONE and intc(lo) and lo[2] >= 0:
            k = lo[2]
            if len(segs) >= k and all(s[0] == 'e' for s in segs[:k]):
                return segs[k:]
        if lo == NONE and intc(hi) and hi[2] >= 0:
            k = hi[2]
            if len(segs) >= k and all(s[0] == 'e' for s in segs[:k]):
                return segs[:k]
        if all(s[0] == 'e' for s in segs) and (lo == NONE or intc(lo)) and (hi == NONE or intc(hi)):
            return segs[slice(None if lo == NONE else lo[2], None if hi == NONE else hi[2])]
        return (('r', ('slice', base, self.canon(lo, st), self.canon(hi, st), NONE)),)

    def getslice(self, b, i, st):
        (_, lo, hi, step) = i
        h = self.obj(b, st)
        if b[0] == 'c' and b[1] in ('str', 'bytes') and all(is_c(x) for x in (lo, hi, step)):
            return [(C(b[2][slice(lo[2], hi[2], step[2])]), st)]
        if b[0] == 't' and all(is_c(x) for x in (lo, hi, step)):
            return [(('t', b[1][slice(lo[2], hi[2], step[2])]), st)]
        if h is not None and h.kind == 'list' and all(s[0] == 'e' for s in h.segs) and all(x == NONE or is_num_c(x) for x in (lo, hi, step)) \
                and step != C(0):
            return [(self.new_list(st, h.segs[slice(*[None if x == NONE else x[2] for x in (lo, hi, step)])]), st)]
        if h is not None and h.kind == 'list' and step == NONE:
            return [(self.new_list(st, self.slice_segs(h.segs, lo, hi, st, self.canon(b, st))), st)]
        c = lambda x: self.canon(x, st)
        if step == NONE and self.kinds and b[0] in ('c', 'cat', 's', 'call'):
            try:
                v = words.sliced(self, c(b), c(lo), c(hi))
                if v is not None:
                    return [(v, st)]
            except words.Unsure:
                pass
        if step == NONE and self.is_bytes(b):
            v = self.cut_bytes(c(b), NONE if lo == C(0) else c(lo), c(hi))
            if v is not None:
                return [(v, st)]
        return [(slice_term(c(b), c(lo), c(hi), c(step)), st)]

    # ---- comprehensions ---------------------------------------------------
    def ev_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def ev_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def ev_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def ev_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def comp(self, n, st, fr, kind):
        # own scope
        fid = self.new()
        st.frames[fid] = {'__outer__': fr.fid}
        fr2 = Fr(fid, fr.func, fr.module, fr.cls)
        acc = self.alloc(st, HObj(kind), 'K')

        def level(i, s):
            if i == len(n.generators):
                outs = []
                if kind == 'dict':
                    for v, s2 in self.seq([n.key, n.value], s, fr2):
                        if bad(v):
                            outs.append(self.lift(v, s2))
                        else:
                            self.setitem(acc, v[0], v[1], s2, n, fr2)
                            outs.append(('next', None, s2))
                else:
                    for v, s2 in self.eval(n.elt, s, fr2):
                        if bad(v):
                            outs.append(self.lift(v, s2))
                        else:
                            h = s2.heap[acc[1]]
                            s2.heap[acc[1]] = h.with_(segs=h.segs + (('e', v),))
                            outs.append(('next', None, s2))
                return outs
            g = n.generators[i]
            outs = []
            for itv, s1 in self.eval(g.iter, s, fr2):
                if bad(itv):
                    outs.append(self.lift(itv, s1))
                    continue

                def body(x, s2):
                    res = []
                    for (k, v, s3) in self.assign(g.target, x, s2, fr2):
                        if k != 'next':
                            res.append((k, v, s3))
                            continue
                        cur = [s3]
                        for c in g.ifs:
                            nxt = []
                            for s4 in cur:
                                for b, s5 in self.cond(c, s4, fr2):
                                    if bad(b):
                                        res.append(self.lift(b, s5))
                                    elif b:
                                        nxt.append(s5)
                                    else:
                                        res.append(('cont', None, s5))
                            cur = nxt
                        for s4 in cur:
                            res.extend(level(i + 1, s4))
                    return res
                outs.extend(self.iterate(itv, s1, fr2, body, g))
            return outs
        res = []
        for (k, v, s) in level(0, st):
            s.frames.pop(fid, None)
            if k in ('next', 'broke'):
                res.append((acc, s))
            elif k == 'raise':
                res.append((Exc(v), s))
            elif k == 'ctl':
                res.append((Ctl(*v), s))
        return res

    # ---- yield ------------------------------------------------------------
    def ev_Yield(self, n, st, fr):
        outs = []
        vals = self.eval(n.value, st, fr) if n.value is not None else [(NONE, st)]
        for v, s in vals:
            if bad(v):
                outs.append((v, s))
                continue
            outs.extend(self.do_yield(v, s, fr, n))
        return outs

    def do_yield(self, v, s, fr, n):
        cb = self.gen_cb.get(fr.fid)
        if cb is None:
            s.trace = s.trace + (('yield', v, self.where(fr, n)),)
            return [(NONE, s)]
        return cb(v, s)

    def ev_YieldFrom(self, n, st, fr):
        outs = []
        for v, s in self.eval(n.value, st, fr):
            if bad(v):
                outs.append((v, s))
                continue

            def body(x, s1):
                res = []
                for r, s2 in self.do_yield(x, s1, fr, n):
                    if isinstance(r, Exc):
                        res.append(('raise', r.v, s2))
                    elif isinstance(r, Ctl):
                        res.append(('ctl', (r.kind, r.v), s2))
                    else:
                        res.append(('next', None, s2))
                return res
            for (k, vv, s2) in self.iterate(v, s, fr, body, n):
                if k in ('next', 'broke'):
                    outs.append((NONE, s2))
                elif k == 'raise':
                    outs.append((Exc(vv), s2))
                elif k == 'ctl':
                    outs.append((Ctl(*vv), s2))
                else:
                    outs.append((Ctl(k, vv), s2))
        return outs

    def ev_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def ev_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    # ---- calls ------------------------------------------------------------
    def where(self, fr, node):
        return '%s:%d' % (fr.module.rel, getattr(node, 'lineno', 0)) if fr is not None else ''

    def ev_Call(self, n, st, fr):
        outs = []
        for fv, s in self.eval(n.func, st, fr):
            if bad(fv):
                outs.append((fv, s))
                continue
            for args, s2 in self.seq(n.args, s, fr):
                if bad(args):
                    outs.append((args, s2))
                    continue
                cur = [([], s2)]
                for kw in n.keywords:
                    nxt = []
                    for kws, s3 in cur:
                        for v, s4 in self.eval(kw.value, s3, fr):
                            if bad(v):
                                outs.append((v, s4))
                            elif kw.arg is None and (h := self.obj(v, s4)) is not None and h.kind == 'dict' and h.base is None and \
                                    all(is_str_c(k) and isinstance(k[2], str) for k, _ in h.entries):
                                nxt.append((kws + [(k[2], x) for k, x in h.entries], s4))
                            else:
                                nxt.append((kws + [(kw.arg, v)], s4))
                    cur = nxt
                for kws, s3 in cur:
                    outs.extend(self.call(fv, args, kws, s3, fr, n))
        return self.cap(outs, 'call at %s' % self.where(fr, n))

    def call(self, fv, args, kwargs, st, fr, node):
        k = fv[0]
        if k == 'f':
            func = self.P.funcs[fv[1]]
            if self.opaque(func):
                return self.opaque_call(fv, args, kwargs, st, node, fr=fr)
            return self.inline(func, fv[2], args, kwargs, st, fv[3], node)
        if k == 'cls':
            return self.construct(fv, args, kwargs, st, fr, node)
        if k == 'm':
            return self.method(fv[1], fv[2], args, kwargs, st, fr, node)
        if k == 'bi':
            return self.builtin(fv[1], args, kwargs, st, fr, node)
        if k == 'partial':
            return self.call(fv[1], list(fv[2]) + list(args), list(fv[3]) + list(kwargs), st, fr, node)
        if k == 'ext' and fv[1] == 'functools.partial' and args:
            return [(('partial', args[0], tuple(args[1:]), tuple(kwargs)), st)]
        if k == 'ext' and self.kinds and args and not kwargs:
            r = self.spelled_call(fv[1], args, st, fr, node)
            if r is not None:
                return r
        if k == 'ext' and fv[1] in ('re.sub', 'html.escape', 'xml.sax.saxutils.escape'):
            r = self.text_call(fv, args, kwargs, st, fr, node)
            if r is not None:
                return [(r, st)]
        if k == 'ext' and fv[1] in FOLDED and args and not kwargs and all(is_str_c(a) for a in args):
            r = self.folded(fv[1], args)
            if r is not None:
                return [(r, st)]
        if k == 'ext' and fv[1] in ('struct.pack', 'struct.unpack') and not kwargs and args and all(is_c(a) for a in args):
            try:
                r = getattr(struct, fv[1][7:])(*[a[2] for a in args])
            except (struct.error, TypeError):
                return [(Exc(('exc', 'struct.error', ())), st)]
            return [(C(r) if isinstance(r, bytes) else ('t', tuple(C(x) for x in r)), st)]
        if k == 'ext' and fv[1] == 'json.dumps' and args and is_c(args[0]) and all(is_c(v) for _, v in kwargs):
            try:
                return [(C(json.dumps(args[0][2], **dict((a, v[2]) for a, v in kwargs))), st)]
            except (TypeError, ValueError):
                pass
        if k == 'ext' and fv[1] == 'array.array' and len(args) == 2 and args[0] in (C('b'), C('B')) and not kwargs:
            # a list of small numbers
            return self.call(('bi', 'list'), [args[1]], [], st, fr, node)
        if k == 'ext' and fv[1] in ('collections.OrderedDict', 'collections.defaultdict') and not args and not kwargs:
            return [(self.new_dict(st), st)]
        if k == 'ext' and fv[1] == 'collections.deque' and not kwargs:
            if not args:
                return [(self.new_list(st), st)]
            h = self.obj(args[0], st)
            if len(args) == 1 and h is not None and h.kind == 'list':
                return [(self.new_list(st, h.segs), st)]
        if k == 'ref':
            h = st.heap[fv[1]]
            if h.kind == 'obj' and h.cls is not None:
                m = self.P.class_attr(h.cls, '__call__')
                if isinstance(m, Func):
                    return self.inline(m, fv, args, kwargs, st, None, node)
        if k == 'attr':
            # method on an untyped symbol
            return self.method(fv[1], fv[2], args, kwargs, st, fr, node)
        return self.opaque_call(fv, args, kwargs, st, node, fr=fr)

    LOGGING = ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log')

    def is_logging(self, fv):
        if fv[0] == 'm' and fv[2] in self.LOGGING:
            r = fv[1]
            if r[0] == 'glob':
                b = self.P.lookup(r[1], r[2]) if r[1] in self.P.modules else None
                n = b[2] if b and b[0] == 'expr' else None
                return isinstance(n, ast.Call) and (getattr(n.func, 'id', None) or getattr(n.func, 'attr', '')).lower().replace(
                    '_', '') == 'getlogger'
            return r[0] == 'call' and r[1][0] in ('f', 'ext') and r[1][1].split('.')[-1].lower().replace('_', '') == 'getlogger'
        return fv[0] == 'ext' and fv[1].startswith('logging.') and fv[1].split('.')[-1] in self.LOGGING

    def opaque_call(self, fv, args, kwargs, st, node, rec=False, fr=None):
        if self.is_logging(fv):
            return [(NONE, st)]     # neither raises nor changes anything
        callee = fv
        if fv[0] == 'f':
            callee = ('f', fv[1], self.canon(fv[2], st) if fv[2] is not None else None, None)
            name = self.P.funcs[fv[1]].name
        elif fv[0] == 'm':
            callee = ('m', self.canon(fv[1], st), fv[2])
            name = fv[2]
        else:
            callee = self.canon(fv, st)
            name = fv[1].split('.')[-1] if fv[0] in ('ext', 'bi') else str(fv[-1])
        cargs = tuple(('star', self.canon(a[1], st)) if a[0] == 'star' else self.canon(a, st) for a in args)
        ckw = tuple((kk, self.canon(v, st)) for kk, v in kwargs)
        t = ('call', callee, cargs, ckw)
        if rec:
            self.cut.add(t)
        if name in IMPURE:
            key = repr((callee, name))
            n = st.seq.get(key, 0)
            st.seq[key] = n + 1
            t = t + (n,)
        if not (fv[0] == 'f' and fv[1].endswith('PSSymbolTable.intern')):
            self.may_raise(st, 'any', t)
        if self.record_calls:
            loc = ('%s:%d' % (fr.module.rel, node.lineno)) if fr is not None and hasattr(node, 'lineno') else ''
            st.trace = st.trace + (('call', callee, cargs, ckw, t, loc),)
        return [(self.typed(st, t, None), st)]

    def construct(self, fv, args, kwargs, st, fr, node):
        c = self.P.classes[fv[1]]
        if self.exc_class(c):
            return [(('exc', c.qual, tuple(self.canon(a, st) for a in args)), st)]
        if self.is_enum(c):
            return [(('call', fv, tuple(self.canon(a, st) for a in args), ()), st)]
        o = self.alloc(st, HObj('obj', cls=c, exact=True), c.name + '#')
        m = self.P.class_attr(c, '__init__')
        if isinstance(m, Func):
            if self.opaque(m):
                cargs = tuple(self.canon(a, st) for a in args)
                t = ('call', fv, cargs, tuple((kk, self.canon(v, st)) for kk, v in kwargs))
                st.trace = st.trace + (('call', fv, cargs, t[3], t, self.where(fr, node)),)
                st.heap.pop(o[1], None)
                return [(self.sym_obj(st, c, t, exact=True), st)]
            outs = []
            st.trace = st.trace + (('new', c.qual, o[1], self.where(fr, node)),) if self.record_calls else st.trace
            for v, s in self.inline(m, o, args, kwargs, st, None, node):
                outs.append((v, s) if bad(v) else (o, s))
            return outs
        ext = [b for b in self.P.mro(c) if not isinstance(b, Class) and b != 'object']
        if args or kwargs:
            if not ext:
                self.problem('constructor of %s takes no arguments' % c.qual)
            h = st.heap[o[1]]
            na = dict(h.attrs)
            for i, a in enumerate(args):
                na['__arg%d' % i] = a
            st.heap[o[1]] = h.with_(attrs=na)
        if self.record_calls:
            st.trace = st.trace + (('new', c.qual, o[1], self.where(fr, node)),)
        return [(o, st)]

    def list_extend(self, l, v, st):
        h = st.heap[l[1]]
        hv = self.obj(v, st)
        items = self.known_items(v, st)
        if items is not None:
            add = tuple(('e', x) for x in items)
        elif hv is not None and hv.kind == 'list':
            add = hv.segs
        else:
            add = (('r', self.canon(v, st)),)
        st.heap[l[1]] = h.with_(segs=h.segs + add)
        if h.base is not None:
            st.trace = st.trace + (('extend', h.base, v),)

    def extreme(self, name, vals):
        """The values without those that another one is at least as small (great) as for sure."""
        out = []
        for i, v in enumerate(vals):
            for j, w in enumerate(vals):
                if i == j:
                    continue
                d = padd(poly(v), poly(w), -1) if name == 'min' else padd(poly(w), poly(v), -1)
                lo, hi = words.bounds(self, d)
                if lo is not None and lo >= 0 and (d or j < i):
                    break       # w does as well
            else:
                out.append(v)
        return out

    # ---- spelled characters -------------------------------------------------
    kinds = {}

    def spelled_method(self, b, name, args, kwargs, st, fr, node):
        """A method of a regular expression, a match or spelled characters, or None."""
        if b == ('bi', 'int') and name == 'from_bytes' and args:
            o = (list(args[1:]) + [v for k, v in kwargs if k == 'byteorder'] + [C('big')])[0]
            try:
                return self.spelled_value(words.from_bytes(self, self.canon(args[0], st), o[2]), st) \
                    if is_c(o) and len(args) + len(kwargs) < 3 and all(k == 'byteorder' for k, _ in kwargs) else None
            except words.Unsure:
                return None
        if kwargs or b[0] not in ('c', 'cat', 's', 'call', 'match') or any(a[0] == 'star' for a in args):
            return None
        try:
            if b[0] == 'match':
                return self.spelled_value(words.match_method(self, b, name, args, st), st)
            if b[0] == 'call' and b[1] == ('ext', 're.compile'):
                if name not in ('search', 'match', 'fullmatch', 'sub', 'findall', 'finditer') or not b[2] or not is_str_c(b[2][0]) or \
                        len(b[2]) + len(b[3]) > 2 or any(k != 'flags' for k, _ in b[3]):
                    return None
                flags = words.flags(([x for x in b[2][1:]] + [x for _, x in b[3]] + [C(0)])[0])
                return words.regex(self, b[2][0], flags, name, args, st, fr, node)
            if b[0] == 'call' and b[1] == ('ext', 'struct.Struct') and name == 'unpack' and len(args) == 1 and len(b[2]) == 1 and is_c(b[2][0]):
                return self.spelled_value(words.unpacked(self, b[2][0][2], self.canon(args[0], st)), st)
            if b[0] == 'call' and b[1] == ('ext', 'struct.Struct') and name == 'pack' and len(args) == 1 and len(b[2]) == 1 \
                    and is_c(b[2][0]) and b[2][0][2] in BYTE_FORMATS:
                return self.spelled_value(words.byte_of(self, self.canon(args[0], st)), st)
            return self.spelled_value(words.method(self, self.canon(b, st), name, args, st), st)
        except words.Unsure:
            return None

    def spelled_value(self, v, st):
        if v is None:
            return None
        if isinstance(v, list):
            return [(self.new_list(st, tuple(('e', x) for x in v)), st)]
        if v[0] == 'exc':
            return [(Exc(v), st)]
        return [(v, st)]

    def spelled_call(self, name, args, st, fr, node):
        """A function of the library applied to spelled characters, or None."""
        try:
            if name in ('re.search', 're.match', 're.fullmatch', 're.sub', 're.findall', 're.finditer') and len(args) in (2, 3) and is_str_c(args[0]):
                if (len(args) == 3) == (name == 're.sub'):
                    return words.regex(self, args[0], 0, name[3:], args[1:], st, fr, node)
            elif name == 'operator.getitem' and len(args) == 2:
                return self.getitem(args[0], args[1], st, fr, node)
            elif name == 'struct.unpack' and len(args) == 2 and is_c(args[0]):
                return self.spelled_value(words.unpacked(self, args[0][2], self.canon(args[1], st)), st)
            elif name == 'struct.pack' and len(args) == 2 and is_c(args[0]) and args[0][2] in BYTE_FORMATS:
                return self.spelled_value(words.byte_of(self, self.canon(args[1], st)), st)
        except words.Unsure:
            pass
        return None

    def spelled_builtin(self, name, args, st):
        try:
            v = self.canon(args[0], st)
            if name == 'int' and len(args) == 1 and v[0] == 'call' and v[1] in (('bi', 'int'), ('bi', 'len'), ('bi', 'ord')):
                return [(v, st)]
            if name == 'bytes' and len(args) == 1 and v[0] == 'call' and v[1] == ('bi', 'bytearray') and len(v[2]) == 1 and \
                    words.spelled(self, v[2][0]) is not None:
                return [(v[2][0], st)]
            if name == 'bytes' and len(args) == 1 and v[0] in ('t', 'listv') and len(v[1]) == 1:
                return self.spelled_value(words.byte_of(self, v[1][0]), st)
            if name == 'abs':
                lo, hi = words.bounds(self, poly(v))
                return [(v, st)] if lo is not None and lo >= 0 else None
            if v[0] not in ('c', 'cat', 's', 'call'):
                return None
            if name == 'len':
                r = words.spelled(self, v)
                return None if r is None else [(words.unpoly(words.length(r[0])), st)]
            if name in ('int', 'float'):
                base = None
                if name == 'int':
                    base = 10 if len(args) == 1 else args[1][2] if is_num_c(args[1]) else 0
                elif len(args) > 1:
                    return None
                return self.spelled_value(words.number(self, v, base), st)
            if name == 'str' and len(args) >= 2:
                r = words.spelled(self, v)
                if r is not None and r[1] == 'str':
                    return self.spelled_value(('exc', 'TypeError', ()), st)
                return self.spelled_value(words.method(self, v, 'decode', args[1:], st), st)
            if name in ('ord', 'bytes') and len(args) == 1:
                r = words.spelled(self, v)
                if r is not None and name == 'bytes' and r[1] == 'bytes':
                    return [(v, st)]
                if r is not None and name == 'ord' and len(r[0]) == 1 and r[0][0].single:
                    x = words.item(self, v, C(0))
                    return None if x is None else [(x, st)]
        except words.Unsure:
            pass
        return None

    def method(self, b, name, args, kwargs, st, fr, node):
        if self.kinds:
            r = self.spelled_method(b, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if b in (('bi', 'bytes'), ('bi', 'bytearray')) and name == 'fromhex' and len(args) == 1 and is_str_c(args[0]) and isinstance(args[0][2], str) and not kwargs:
            try:
                return [(C(bytes.fromhex(args[0][2])), st)]
            except ValueError:
                return [(Exc(('exc', 'ValueError', ())), st)]
        h = self.obj(b, st)
        if h is not None and h.kind == 'list':
            r = self.list_method(b, h, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if h is not None and h.kind == 'dict':
            r = self.dict_method(b, h, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if h is not None and h.kind == 'set':
            if name == 'add':
                if ('e', args[0]) not in h.segs:
                    st.heap[b[1]] = h.with_(segs=h.segs + (('e', args[0]),))
                return [(NONE, st)]
        if b[0] == 'cls':
            c = self.P.classes[b[1]]
            ext = [x for x in self.P.mro(c) if not isinstance(x, Class)]
            return self.opaque_call(('m', b, name), args, kwargs, st, node, fr=fr)
        if b[0] == 'super':
            return [(NONE, st)] if name == '__init__' else self.opaque_call(('m', b, name), args, kwargs, st, node, fr=fr)
        if is_str_c(b) and all(is_c(a) for a in args) and not kwargs and name in (
                'replace', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'encode', 'decode',
                'lstrip', 'rstrip', 'isdigit', 'isalpha', 'isspace', 'join', 'format', 'index', 'find', 'count'):
            try:
                r = getattr(b[2], name)(*[a[2] for a in args])
                if isinstance(r, list):
                    return [(self.new_list(st, tuple(('e', C(x)) for x in r)), st)]
                return [(C(r), st)]
            except Exception:
                pass
        if name == 'ljust' and len(args) == 2 and not kwargs and args[1] in (C(b'\0'), C(b' ')) and self.is_bytes(b):
            outs = []
            for n, s in self.call(('bi', 'len'), [b], [], st, fr, node):
                for d, s1 in ([(n, s)] if bad(n) else self.binop(ast.Sub(), args[0], n, s, fr, node)):
                    for pad, s2 in ([(d, s1)] if bad(d) else self.binop(ast.Mult(), args[1], d, s1, fr, node)):
                        outs.extend([(pad, s2)] if bad(pad) else self.binop(ast.Add(), b, pad, s2, fr, node))
            return outs
        if name == 'to_bytes' and len(args) == 2 and not kwargs and args[0][0] == 'c' and args[0][2] in (1, 2, 4, 8) and \
                args[1] in (C('big'), C('little')):
            return self.call(('ext', 'struct.pack'), [C(('>' if args[1] == C('big') else '<') + {1: 'B', 2: 'H', 4: 'L', 8: 'Q'}[args[0][2]]), b],
                             [], st, fr, node)
        if name == 'join' and is_str_c(b) and len(args) == 1 and args[0][0] == 'gen':
            outs = []
            for v, s in self.call(('bi', 'list'), [args[0]], [], st, fr, node):
                outs.extend([(v, s)] if bad(v) else self.call(('m', b, 'join'), [v], [], s, fr, node))
            return outs
        if name == 'join' and (is_str_c(b)) and len(args) == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i and b[2]:
                        parts.append(b)
                    parts.append(self.canon(x, st))
                return [(self.fold_cat(('cat', tuple(parts))) if parts else C(b[2][:0]), st)]
            hv = self.obj(args[0], st)
            segs = tuple(('e', self.canon(s[1], st)) if s[0] == 'e' else (('r', self.canon(s[1], st)) if s[0] == 'r' else s)
                         for s in hv.segs) if hv is not None and hv.kind == 'list' else (('r', self.canon(args[0], st)),)
            if b[1] == 'bytes' and not b[2] and len(segs) == 1:
                # single bytes put one after the other
                m = segs[0][1] if segs[0][0] == 'r' else ('many', tuple(self.canon(x, st) for x in segs[0][1]),
                                                         self.canon(segs[0][2], st)) if segs[0][0] == 'many' else None
                if m is not None and m[0] == 'many' and all(one_byte(x) is not None for x in m[1]):
                    return [(('call', ('bi', 'bytes'), (('many', tuple(one_byte(x) for x in m[1]), m[2]),), ()), st)]
            return [(('joined', b, segs), st)]
        if name == 'format' and is_str_c(b) and b[1] == 'str':
            t = self.str_format(b, args, kwargs, st)
            if t is not None:
                return [(t, st)]
        if name == 'copy' and not args and b[0] in ('glob',):
            return [(self.sym_dict(st, ('call', ('m', b, 'copy'), (), ())), st)]
        if name in ('keys', 'values', 'items') and not args and b[0] not in ('c', 't'):
            return [(('view', name, b), st)]
        if name == 'get' and len(args) in (1, 2) and not kwargs and b[0] in ('glob',):
            r = self.const_lookup(b, args[0], st)
            if r is not None and not r[0]:
                return [(args[1] if len(args) == 2 else NONE, st)]
            if r is not None and r[1] is not None:
                return [(r[1], st)]
            t = ('call', ('m', b, 'get'), tuple(self.canon(a, st) for a in args), ())
            return [(self.typed(st, t, None), st)]
        if name in ('sub', 'match', 'search', 'fullmatch') and b[0] == 'call' and b[1] == ('ext', 're.compile') and not b[3] \
                and len(b[2]) == 1 and is_str_c(b[2][0]) and args and not kwargs and all(is_str_c(a) for a in args):
            r = self.folded('re.' + name, list(b[2]) + list(args))
            if r is not None:
                return [(r, st)]
        if name in ('replace', 'sub', 'decode'):
            r = self.text_call(('m', b, name), args, kwargs, st, fr, node)
            if r is not None:
                return [(r, st)]
        return self.opaque_call(('m', b, name), args, kwargs, st, node, fr=fr)

    # ---- text -------------------------------------------------------------
    ptypes = {}

    def is_number(self, v):
        if is_num_c(v) or v[0] == 'poly':
            return True
        if v[0] == 'op':
            return all(self.is_number(x) for x in v[2:])
        if v[0] in ('min', 'max'):
            return all(self.is_number(x) for x in v[1])
        return self.ptypes.get(v) in ('int', 'float', 'num')

    def folded(self, name, args):
        """A library function of constant texts, computed."""
        try:
            r = FOLDED[name](*[a[2] for a in args])
        except Exception:
            return None
        if r is None or isinstance(r, (str, bool)):
            return C(r)
        if isinstance(r, tuple):
            return ('t', tuple(C(x) for x in r))
        if name in ('re.search', 're.match', 're.fullmatch'):
            return ('t', (C('match'),) + tuple(args))
        return None

    def is_text(self, v):
        """A value that is a str, so that str() of it is the value itself."""
        k = v[0]
        if k == 'c':
            return v[1] == 'str'
        if k == 'cat':
            return any(p[0] in ('str', 'fmt') or self.is_text(p) for p in v[1])
        if k in ('str', 'fmt'):
            return True
        if k == 'call':
            f = v[1]
            return f == ('bi', 'str') or f[0] == 'ext' and (f[1].startswith('chars(') or f[1] == 'json.dumps')
        return self.ptypes.get(v) == 'str'

    def is_bytes(self, v):
        k = v[0]
        if k == 'c':
            return v[1] == 'bytes'
        if k == 'cat':
            return any(self.is_bytes(p) for p in v[1])
        if k == 'slice':
            return self.is_bytes(v[1])
        if k == 'joined':
            return v[1][1] == 'bytes'
        if k == 'call':
            f = v[1]
            return f in (('ext', 'struct.pack'), ('bi', 'bytes')) or f[0] == 'm' and f[2] in ('encode', 'to_bytes')
        return self.ptypes.get(v) == 'bytes'

    def byte_count(self, v):
        """Length of some bytes, or None."""
        if v[0] == 'c':
            return len(v[2]) if v[1] == 'bytes' else None
        if v[0] == 'cat':
            ns = [self.byte_count(p) for p in v[1]]
            return None if None in ns else sum(ns)
        if v[0] == 'slice' and v[4] == NONE and all(x == NONE or is_num_c(x) and isinstance(x[2], int) for x in v[2:4]):
            n = self.byte_count(v[1])
            return None if n is None else len(range(n)[slice(v[2][2], v[3][2])])
        if v[0] == 'call' and v[1] == ('ext', 'struct.pack') and v[2] and is_c(v[2][0]):
            try:
                return struct.calcsize(v[2][0][2])
            except Exception:
                return None
        return self.lengths.get(v)

    lengths = {}

    def cut_bytes(self, v, lo, hi):
        """v[lo:hi] taken from its pieces, as far as their lengths are known."""
        n = self.byte_count(v)
        if n is not None and lo == NONE and (hi == NONE or is_num_c(hi) and isinstance(hi[2], int) and hi[2] >= n):
            return v
        if v[0] != 'cat' or not all(x == NONE or is_num_c(x) and isinstance(x[2], int) and x[2] >= 0 for x in (lo, hi)):
            return None
        a = 0 if lo == NONE else lo[2]
        b = None if hi == NONE else hi[2]
        out, at = [], 0
        for i, p in enumerate(v[1]):
            if b is not None and at >= b:
                break
            k = self.byte_count(p)
            if k is None:
                if at < a or b is not None:
                    return None
                out.append(p)
                at = a
                continue
            x, y = max(a - at, 0), (k if b is None else min(k, b - at))
            if at >= a and b is None or x < y:
                if x == 0 and y == k:
                    out.append(p)
                elif x < y:
                    out.append(C(p[2][x:y]) if is_c(p) else slice_term(p, C(x) if x else NONE, C(y) if y < k else NONE, NONE))
            at += k
        return self.fold_cat(('cat', tuple(out))) if out else C(b'')

    def text_call(self, fv, args, kwargs, st, fr, node):
        """Character-wise rewriting and decoding of what was encoded, or None."""
        if fv[0] == 'm' and fv[2] == 'decode':
            codec = self.codec_of(args, kwargs)
            return None if codec is None else self.decoded(self.canon(fv[1], st), codec)
        r = chars.rewriting(fv, args, kwargs)
        if r is not None:
            return self.rewritten(r[0], self.canon(r[1], st))
        r = chars.computed(fv, args, kwargs)
        if r is not None:
            tries, self.try_stack = self.try_stack, []
            outs = self.call(r[1], [MATCH], [], st.fork(), fr, node)
            self.try_stack = tries
            if len(outs) == 1 and self.is_text(outs[0][0]):
                return self.computed(r[0], subst_char(self.canon(outs[0][0], outs[0][1])), self.canon(r[2], st))
        return None

    def computed(self, rs, f, x):
        if is_str_c(x) and x[1] == 'str' and not any(chars.has(rs, ch) for ch in x[2]):
            return x
        if x[0] == 'cat':
            return self.fold_cat(('cat', tuple(self.computed(rs, f, y) for y in x[1])))
        if x[0] == 'str' and self.is_number(x[1]) and chars.plain(((rs, ''),)):
            return x
        return ('call', ('ext', 'chars(%r)by' % (rs,)), (f, x), ())

    def codec_of(self, args, kwargs):
        if kwargs or len(args) > 1:
            return None
        c = args[0] if args else C('utf-8')
        return C(c[2].lower().replace('_', '-').replace('utf8', 'utf-8')) if is_str_c(c) and c[1] == 'str' else c

    def decoded(self, b, codec):
        if is_str_c(b):
            if b[1] == 'bytes' and is_c(codec):
                try:
                    return C(b[2].decode(codec[2]))
                except Exception:
                    return None
            return None
        if b[0] == 'cat':
            ps = [self.decoded(x, codec) for x in b[1]]
            return None if None in ps else self.fold_cat(('cat', tuple(ps)))
        if b[0] == 'call' and b[1][0] == 'm' and b[1][2] == 'encode':
            if self.codec_of(b[2], b[3]) == codec:
                return b[1][1]
            x = b[1][1]
            if len(b[2]) == 2 and is_c(codec) and codec[2] in ('utf-8', 'ascii') and is_c(b[2][0]) \
                    and b[2][0][2] in ('utf-8', 'ascii') and x[0] == 'str' and self.is_number(x[1]):
                return x
        return None

    def rewritten(self, m, x):
        if not m:
            return x
        if is_str_c(x):
            return C(chars.apply(m, x[2])) if x[1] == 'str' else None
        if x[0] == 'cat':
            ps = [self.rewritten(m, y) for y in x[1]]
            return None if None in ps else self.fold_cat(('cat', tuple(ps)))
        if x[0] == 'str' and self.is_number(x[1]) and chars.plain(m):
            return x
        if x[0] == 'call' and x[1][0] == 'ext' and x[1][1].startswith('chars(') and len(x[2]) == 1:
            m = chars.after(ast.literal_eval(x[1][1][5:]), m)
            x = x[2][0]
        return ('call', ('ext', 'chars' + repr(m)), (x,), ()) if m else x

    def str_format(self, b, args, kwargs, st):
        import string
        parts = []
        auto = 0
        kw = dict((k, v) for k, v in kwargs if k)
        try:
            for lit, field, spec, conv in string.Formatter().parse(b[2]):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                if v[0] == 'star':
                    return None
                parts.append(('fmt', '%r', v) if conv == 'r' else (('fmt', spec, v) if spec else ('str', v)))
        except (IndexError, ValueError):
            return None
        return self.fold_cat(('cat', tuple(parts)) if parts else C(''))

    def list_method(self, b, h, name, args, kwargs, st, fr, node):
        i = b[1]
        if name == 'tobytes' and not args and not kwargs:
            return self.call(('bi', 'bytes'), [b], [], st, fr, node)
        if name == 'append' and len(args) == 1:
            st.heap[i] = h.with_(segs=h.segs + (('e', args[0]),))
            if h.base is not None:
                st.trace = st.trace + (('append', h.base, args[0], self.where(fr, node)),)
            return [(NONE, st)]
        if name == 'extend' and len(args) == 1:
            if args[0][0] == 'gen':
                def body(x, s):
                    hh = s.heap[i]
                    s.heap[i] = hh.with_(segs=hh.segs + (('e', x),))
                    return [('next', None, s)]
                return [((NONE if k == 'next' else Exc(v)), s) for (k, v, s) in self.iterate(args[0], st, fr, body, node)]
            self.list_extend(b, args[0], st)
            return [(NONE, st)]
        if name == 'popleft' and not args:
            name, args = 'pop', [C(0)]
        if name == 'appendleft' and len(args) == 1:
            name, args = 'insert', [C(0)] + list(args)
        if name == 'pop':
            if not args or (is_num_c(args[0]) and args[0][2] == -1):
                if h.segs and h.segs[-1][0] == 'e':
                    st.heap[i] = h.with_(segs=h.segs[:-1])
                    return [(h.segs[-1][1], st)]
                if not h.segs:
                    return [(Exc(('exc', 'IndexError', ())), st)]
                self.may_raise(st, 'IndexError')
                base = self.canon(b, st)
                st.heap[i] = h.with_(segs=(('r', ('slice', base, NONE, C(-1), NONE)),))
                if h.base is not None:
                    st.trace = st.trace + (('pop', h.base, self.where(fr, node)),)
                return [(self.typed(st, ('item', base, C(-1)), None), st)]
            if is_num_c(args[0]) and args[0][2] == 0:
                if h.segs and h.segs[0][0] == 'e':
                    st.heap[i] = h.with_(segs=h.segs[1:])
                    return [(h.segs[0][1], st)]
                if not h.segs:
                    return [(Exc(('exc', 'IndexError', ())), st)]
                self.may_raise(st, 'IndexError')
                base = self.canon(b, st)
                st.heap[i] = h.with_(segs=(('r', ('slice', base, C(1), NONE, NONE)),))
                return [(self.typed(st, ('item', base, C(0)), None), st)]
        if name == 'pop' and len(args) == 1 and is_num_c(args[0]) and all(x[0] == 'e' for x in h.segs):
            if not -len(h.segs) <= args[0][2] < len(h.segs):
                return [(Exc(('exc', 'IndexError', ())), st)]
            j = args[0][2] % len(h.segs)
            st.heap[i] = h.with_(segs=h.segs[:j] + h.segs[j + 1:])
            return [(h.segs[j][1], st)]
        if name == 'insert' and len(args) == 2 and is_num_c(args[0]) and all(x[0] == 'e' for x in h.segs):
            vs = list(h.segs)
            vs.insert(args[0][2], ('e', args[1]))
            st.heap[i] = h.with_(segs=tuple(vs))
            return [(NONE, st)]
        if name == 'insert' and len(args) == 2 and is_num_c(args[0]) and args[0][2] == 0:
            st.heap[i] = h.with_(segs=(('e', args[1]),) + h.segs)
            return [(NONE, st)]
        if name == 'clear' and not args:
            st.heap[i] = h.with_(segs=())
            return [(NONE, st)]
        if name == 'copy' and not args:
            return [(self.new_list(st, h.segs), st)]
        if name == 'reverse' and not args and all(s[0] == 'e' for s in h.segs):
            st.heap[i] = h.with_(segs=h.segs[::-1])
            return [(NONE, st)]
        if name in ('sort', 'remove', 'reverse', 'insert', 'pop'):
            st.heap[i] = h.with_(segs=(('r', ('op', name, self.canon(b, st)) + tuple(self.canon(a, st) for a in args)),))
            st.trace = st.trace + ((name, h.base or ('s', str(i)), self.where(fr, node)),)
            return [(('op', name, self.canon(b, st)), st)]
        return None

    def dict_method(self, b, h, name, args, kwargs, st, fr, node):
        i = b[1]
        if name in ('items', 'keys', 'values') and not args:
            return [(('view', name, b), st)]
        if name == 'copy' and not args:
            return [(self.new_dict(st, h.entries, h.base), st)]
        if name in ('get', 'pop', 'setdefault') and args:
            ck = self.cn(args[0], st)
            dflt = args[1] if len(args) > 1 else NONE
            if name == 'get' and any(self.cn(k, st) == ck for k, _ in h.entries):
                return self.getitem(b, args[0], st, fr, node)
            for k, x in h.entries:
                if self.cn(k, st) == ck:
                    if name == 'pop':
                        st.heap[i] = h.with_(entries=tuple(e for e in h.entries if e[0] != k))
                    return [(x, st)]
            if h.base is None:
                if all(self.distinct_const(self.cn(k, st)) for k, x in h.entries) and (self.distinct_const(ck) or not h.entries):
                    if name == 'setdefault':
                        st.heap[i] = h.with_(entries=h.entries + ((args[0], dflt),))
                    if name == 'pop' and len(args) == 1:
                        return [(Exc(('exc', 'KeyError', (args[0],))), st)]
                    return [(dflt, st)]
                if name == 'get' and h.entries and len(h.entries) <= 130:
                    # unknown key over a known dictionary: partition
                    outs = []
                    cur = [st]
                    for k, x in h.entries:
                        nxt = []
                        for s in cur:
                            for r, s2 in self.cmp_eq(args[0], k, False, s):
                                for t, s3 in self.split(r, s2):
                                    if t:
                                        outs.append((x, s3))
                                    else:
                                        nxt.append(s3)
                        cur = nxt
                    return outs + [(dflt, s) for s in cur]
            base = h.base if h.base is not None else self.canon(b, st)
            if name == 'get':
                t = ('call', ('m', base, 'get'), tuple(self.canon(a, st) for a in args), ())
                return [(self.typed(st, t, None), st)]
        if name == 'update' and len(args) <= 1:
            for kk, v in kwargs:
                if kk is not None:
                    self.setitem(b, C(kk), v, st, node, fr)
            if args:
                h2 = self.obj(args[0], st)
                if args[0][0] == 'gen':
                    outs = []
                    for v, s in self.call(('bi', 'list'), [args[0]], [], st, fr, node):
                        outs.extend([(v, s)] if bad(v) else self.call(('m', b, 'update'), [v], [], s, fr, node))
                    return outs
                pairs = None if h2 is not None and h2.kind == 'dict' else self.known_items(args[0], st)
                pairs = pairs if pairs is None else [self.known_items(x, st) for x in pairs]
                if h2 is not None and h2.kind == 'dict' and h2.base is None:
                    for k, x in h2.entries:
                        self.setitem(b, k, x, st, node, fr)
                elif pairs is not None and all(x is not None and len(x) == 2 for x in pairs):
                    for k, x in pairs:
                        self.setitem(b, k, x, st, node, fr)
                else:
                    h = st.heap[i]
                    st.heap[i] = h.with_(base=('op', 'update', self.canon(b, st), self.canon(args[0], st)), entries=())
                    if h.base is not None:
                        st.trace = st.trace + (('update', h.base, self.canon(args[0], st), self.where(fr, node)),)
            return [(NONE, st)]
        if name == 'clear' and not args:
            st.heap[i] = h.with_(entries=(), base=None)
            return [(NONE, st)]
        return None

    # ---- builtins ---------------------------------------------------------
    def type_name(self, v, st):
        """Python type name of a value when known."""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 't':
            return 'tuple'
        if self.kinds and k in ('s', 'cat', 'call'):
            r = words.spelled(self, v)
            if r is not None:
                return r[1]
        if self.kinds and k in ('op', 'poly', 'item') and words.whole(self, v):
            return 'int'
        if k in ('cat', 'str', 'fmt', 'joined'):
            if k == 'cat':
                for p in v[1]:
                    if is_str_c(p):
                        return p[1]
                    if p[0] in ('str', 'fmt') or self.is_text(p):
                        return 'str'
                return None
            return 'str'
        if k == 'ref':
            h = st.heap[v[1]]
            if h.kind in ('list', 'dict', 'set') and not h.maybe_none:
                return h.kind
        if k in ('f', 'm'):
            return 'function'
        if k == 'call' and v[1][0] == 'bi' and v[1][1] in ('str', 'int', 'float', 'bytes', 'bool', 'len', 'ord', 'chr'):
            return {'len': 'int', 'ord': 'int', 'chr': 'str'}.get(v[1][1], v[1][1])
        if k == 's' and self.ptypes.get(v) in ('int', 'float', 'bool'):
            return self.ptypes[v]
        if k == 'item' and v[1][0] == 'dictv' and v[1][2] is None and v[1][1]:
            ts = {self.type_name(x, st) for _, x in v[1][1]}
            return ts.pop() if len(ts) == 1 else None
        if k in ('call', 'slice') and self.is_bytes(v):
            return 'bytes'
        if k == 'call' and v[1][0] == 'ext' and (v[1][1].startswith('chars(') or v[1][1] == 'json.dumps'):
            return 'str'
        if k == 'call' and v[1][0] == 'm' and v[1][2] == 'decode':
            return 'str'
        return None

    def isinstance_(self, v, t, st):
        """One class test -> True/False/('cond',...)"""
        if t[0] == 'cls':
            c = self.P.classes[t[1]]
            if v[0] == 'ref':
                h = st.heap[v[1]]
                if h.kind == 'obj' and h.cls is not None:
                    if self.P.is_subclass(h.cls, c):
                        if h.maybe_none:
                            return ('cond', ('isnone', norm(h.base)), False)
                        return True
                    if h.exact or h.base is None:
                        return False
                    if self.P.is_subclass(c, h.cls):
                        return ('cond', ('isinst', norm(h.base), t[1]), True)
                    return False
                if h.kind in ('list', 'dict', 'set'):
                    return False
            if v[0] == 'enum':
                return self.P.is_subclass(self.P.classes[v[1]], c)
            tn = self.type_name(v, st)
            if tn is not None and tn in BUILTIN_TYPES | {'NoneType', 'function'}:
                return False
            if v[0] == 'exc' and v[1] in self.P.classes:
                return self.P.is_subclass(self.P.classes[v[1]], c)
            return ('cond', ('isinst', self.cn(v, st), t[1]), True)
        if t[0] in ('bi', 'ext'):
            name = t[1].split('.')[-1]
            tn = self.type_name(v, st)
            if tn is not None:
                if tn == name or name == 'object':
                    return True
                a, b = getattr(builtins, tn, None), getattr(builtins, name, None)
                if isinstance(a, type) and isinstance(b, type):
                    return issubclass(a, b)
                if tn == 'NoneType':
                    return False
                if tn in BUILTIN_TYPES and name in BUILTIN_TYPES:
                    return False
                if tn == 'dict' and name == 'OrderedDict':
                    return ('cond', ('isinst', self.cn(v, st), name), True)
                return False
            if v[0] == 'ref':
                h = st.heap[v[1]]
                if h.kind == 'obj' and h.cls is not None:
                    if self.P.is_subclass(h.cls, name):
                        return True
                    if name in BUILTIN_TYPES:
                        return False
                    return False
            if v[0] in ('enum', 'cls', 'mod', 'exc'):
                return False
            return ('cond', ('isinst', self.cn(v, st), name), True)
        return ('cond', ('isinst', self.cn(v, st), repr(t)), True)

    def builtin(self, name, args, kwargs, st, fr, node):
        n = len(args)
        if any(a[0] == 'star' for a in args):
            return self.opaque_call(('bi', name), args, kwargs, st, node, fr=fr)
        if self.kinds and n and not kwargs and name in ('len', 'int', 'float', 'ord', 'str', 'bytes', 'abs'):
            r = self.spelled_builtin(name, args, st)
            if r is not None:
                return r
        if name == 'isinstance' and n == 2:
            types = self.known_items(args[1], st) if args[1][0] in ('t',) else [args[1]]
            flat = []
            for t in types or [args[1]]:
                flat.extend(t[1] if t[0] == 't' else [t])
            outs = []
            cur = [st]
            for t in flat:
                nxt = []
                for s in cur:
                    r = self.isinstance_(args[0], t, s)
                    if r is True:
                        outs.append((TRUE, s))
                    elif r is False:
                        nxt.append(s)
                    else:
                        for b, s2 in self.split(r, s):
                            if b:
                                outs.append((TRUE, s2))
                            else:
                                nxt.append(s2)
                cur = nxt
            return outs + [(FALSE, s) for s in cur]
        if name == 'super':
            c = fr.cls
            selfv = None
            if n == 2:
                if args[0][0] == 'cls':
                    c = self.P.classes[args[0][1]]
                selfv = args[1]
            elif fr.func is not None and fr.func.node.args.args:
                selfv = st.frames[fr.fid].get(fr.func.node.args.args[0].arg)
            if c is not None and selfv is not None:
                return [(('super', c.qual, selfv), st)]
        if name == 'len' and n == 1:
            h = self.obj(args[0], st)
            if h is not None and h.kind == 'obj' and h.cls is not None:
                m = self.P.class_attr(h.cls, '__len__')
                if isinstance(m, Func) and not self.opaque(m):
                    return self.inline(m, args[0], [], [], st, None, node)
            items = self.known_items(args[0], st) if args[0][0] != 'c' else None
            if items is not None:
                return [(C(len(items)), st)]
            if args[0][0] == 'c' and args[0][1] in ('str', 'bytes', 'tuple'):
                return [(C(len(args[0][2])), st)]
            return [(('call', ('bi', 'len'), (self.canon(args[0], st),), ()), st)]
        if name == 'range' and 1 <= n <= 3:
            a = args if n > 1 else [C(0), args[0]]
            if any(is_c(x) and not isinstance(x[2], int) for x in a):
                return [(Exc(('exc', 'TypeError', ())), st)]
            return [(('range',) + tuple(a), st)]
        if name == 'enumerate' and n >= 1:
            start = args[1] if n > 1 else dict(kwargs).get('start', C(0))
            return [(('enumerate', args[0], start), st)]
        if name == 'zip':
            return [(('zip', tuple(args)), st)]
        if name == 'reversed' and n == 1:
            return [(('reversed', args[0]), st)]
        if name == 'iter' and n == 1:
            return [(args[0], st)]
        if name == 'next' and n >= 1:
            items = self.known_items(args[0], st)
            if items:
                return [(items[0], st)]
            if items == [] and n == 2:
                return [(args[1], st)]
            it = args[0]
            if it[0] == 'view' and it[1] in ('values', 'keys', 'items'):
                t = ('item', ('call', ('m', self.canon(it[2], st), it[1]), (), ()), C(0))
                self.may_raise(st, 'StopIteration')
                return [(self.typed(st, t, None), st)]
            return self.opaque_call(('bi', 'next'), args, kwargs, st, node, fr=fr)
        if name in ('dict', 'set', 'frozenset', 'tuple', 'sorted', 'sum', 'min', 'max') and n >= 1 and args[0][0] == 'gen':
            outs = []
            for v, s in self.call(('bi', 'list'), [args[0]], [], st, fr, node):
                if bad(v):
                    outs.append((v, s))
                else:
                    outs.extend(self.call(('bi', name), [v] + list(args[1:]), kwargs, s, fr, node))
            return outs
        if name == 'bytearray':
            # a list of numbers
            h = self.obj(args[0], st) if n == 1 else None
            if n == 0 or n == 1 and (args[0][0] == 'gen' or h is not None and h.kind == 'list' or is_c(args[0]) and args[0][1] == 'bytes'):
                return self.call(('bi', 'list'), args, kwargs, st, fr, node)
        if name == 'bytes' and n == 1 and not kwargs:
            items = self.known_items(args[0], st)
            if items is not None and all(is_num_c(x) and isinstance(x[2], int) and 0 <= x[2] < 256 for x in items):
                return [(C(bytes(x[2] for x in items)), st)]
            h = self.obj(args[0], st)
            pieces = h.segs if items is None and h is not None and h.kind == 'list' else [('e', x) for x in items or ()]
            if len(pieces) > (items is not None) and args[0][0] != 'range' and not any(s[0] == 'e' and is_str_c(s[1]) for s in pieces):
                # one byte, or run of bytes, after the other
                parts, s1 = [], st
                for x in pieces:
                    if x[0] == 'r' and self.type_name(x[1], s1) == 'bytes' or x[0] == 'r' and self.is_bytes(x[1]):
                        parts.append(x[1])
                        continue
                    if x[0] != 'e':
                        parts = None
                        break
                    r = self.call(('bi', 'bytes'), [('t', (x[1],))], [], s1, fr, node)
                    if len(r) != 1 or bad(r[0][0]):
                        parts = None
                        break
                    parts.append(self.canon(r[0][0], r[0][1]))
                    s1 = r[0][1]
                if parts is not None:
                    return [(self.fold_cat(('cat', tuple(parts))), s1)]
        if name in ('list', 'tuple', 'set', 'frozenset') and n == 0:
            return [((('t', ()) if name == 'tuple' else self.new_list(st) if name == 'list' else
                      self.alloc(st, HObj('set'), 'S')), st)]
        if name in ('list', 'tuple') and n == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                return [((('t', tuple(items)) if name == 'tuple' else self.new_list(st, tuple(('e', x) for x in items))), st)]
            h = self.obj(args[0], st)
            if name == 'list' and h is not None and h.kind == 'list':
                return [(self.new_list(st, h.segs), st)]
            if args[0][0] == 'gen' or (h is not None and h.kind == 'obj') or args[0][0] in ('zip', 'enumerate', 'view', 'reversed', 'range'):
                acc = self.new_list(st)

                def body(x, s):
                    hh = s.heap[acc[1]]
                    s.heap[acc[1]] = hh.with_(segs=hh.segs + (('e', x),))
                    return [('next', None, s)]
                outs = []
                for (k, v, s) in self.iterate(args[0], st, fr, body, node):
                    outs.append((acc, s) if k in ('next', 'broke') else ((Exc(v) if k == 'raise' else Ctl(*v)), s))
                return outs
            if name == 'list':
                return [(self.new_list(st, (('r', self.canon(args[0], st)),)), st)]
            return [(('call', ('bi', 'tuple'), (self.canon(args[0], st),), ()), st)]
        if name in ('set', 'frozenset') and n == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                return [(self.alloc(st, HObj('set', segs=tuple(('e', x) for x in items)), 'S'), st)]
        if name == 'dict':
            if any(k is None for k, _ in kwargs):
                return [(self.new_dict(st, (), ('call', ('bi', 'dict'), tuple(self.canon(a, st) for a in args),
                                                tuple((str(k), self.canon(v, st)) for k, v in kwargs))), st)]
            if n == 0:
                return [(self.new_dict(st, tuple((C(k), v) for k, v in kwargs if k)), st)]
            h = self.obj(args[0], st)
            if h is not None and h.kind == 'dict':
                d = self.new_dict(st, h.entries, h.base)
                for k, v in kwargs:
                    if k:
                        self.setitem(d, C(k), v, st, node, fr)
                return [(d, st)]
            items = self.known_items(args[0], st)
            if items is not None and all(self.known_items(x, st) is not None and len(self.known_items(x, st)) == 2 for x in items):
                d = self.new_dict(st)
                for x in items:
                    kv = self.known_items(x, st)
                    self.setitem(d, kv[0], kv[1], st, node, fr)
                for k, v in kwargs:
                    self.setitem(d, C(k), v, st, node, fr)
                return [(d, st)]
            return [(self.new_dict(st, (), ('call', ('bi', 'dict'), (self.canon(args[0], st),), tuple((k, self.canon(v, st)) for k, v in kwargs))), st)]
        if name in ('str', 'bytes') and n >= 2 and not kwargs and all(is_c(a) for a in args):
            try:
                return [(C({'str': str, 'bytes': bytes}[name](*[a[2] for a in args])), st)]
            except Exception as e:
                return [(Exc(('exc', type(e).__name__, ())), st)]
        if name == 'str' and n == 1 and not kwargs:
            v = args[0]
            if is_c(v) and v[1] in ('str', 'int', 'bool', 'NoneType'):
                return [(C(str(v[2])), st)]
            if self.is_text(v):
                return [(v, st)]
            h = self.obj(v, st)
            if h is not None and h.kind == 'obj' and h.cls is not None and h.base is None:
                m = self.P.class_attr(h.cls, '__str__')
                if isinstance(m, Func):
                    return self.inline(m, v, [], [], st, None, node)
            return [(('str', self.canon(v, st)), st)]
        if name == 'bool' and n == 1:
            return [(C(b), s) for b, s in self.split(args[0], st)]
        if name == 'hasattr' and n == 2 and is_str_c(args[1]):
            h = self.obj(args[0], st)
            if h is not None and h.kind == 'obj' and h.cls is not None:
                if args[1][2] in h.attrs or self.P.class_attr(h.cls, args[1][2]) is not None or \
                        self.attr_type(h.cls, args[1][2]) or self.instance_assigned(h.cls, args[1][2]):
                    return [(TRUE, st)]
                if h.exact:
                    return [(FALSE, st)]
            return [(('cond', ('hasattr', self.cn(args[0], st), args[1][2]), True), st)]
        if name == 'getattr' and n in (2, 3) and is_str_c(args[1]):
            if n == 3:
                h = self.obj(args[0], st)
                if not (h is not None and h.kind == 'obj' and h.cls is not None and
                        (args[1][2] in h.attrs or self.P.class_attr(h.cls, args[1][2]) is not None or
                         self.instance_assigned(h.cls, args[1][2]))):
                    return [(('call', ('bi', 'getattr'), tuple(self.canon(a, st) for a in args), ()), st)]
            return self.getattr(args[0], args[1][2], st, fr, node)
        if name == 'setattr' and n == 3 and is_str_c(args[1]):
            self.setattr(args[0], args[1][2], args[2], st, node, fr)
            return [(NONE, st)]
        if name == 'type' and n == 3 and args[1] == ('t', ()):
            # a class made of a dictionary: its attributes are what is asked for
            h = self.obj(args[2], st)
            if h is not None and h.kind == 'dict' and h.base is None and all(is_str_c(k) for k, _ in h.entries):
                return [(self.alloc(st, HObj('obj', cls=None, exact=True, attrs={k[2]: v for k, v in h.entries}), 'T'), st)]
        if name == 'type' and n == 1:
            h = self.obj(args[0], st)
            if h is not None and h.kind == 'obj' and h.cls is not None and (h.exact or h.base is None):
                return [(('cls', h.cls.qual), st)]
            tn = self.type_name(args[0], st)
            if tn in BUILTIN_TYPES:
                return [(('bi', tn), st)]
            return [(('call', ('bi', 'type'), (self.canon(args[0], st),), ()), st)]
        if name == 'map' and n == 2:
            acc = self.new_list(st)

            def body(x, s):
                res = []
                for v, s2 in self.call(args[0], [x], [], s, fr, node):
                    if bad(v):
                        res.append(self.lift(v, s2))
                    else:
                        hh = s2.heap[acc[1]]
                        s2.heap[acc[1]] = hh.with_(segs=hh.segs + (('e', v),))
                        res.append(('next', None, s2))
                return res
            outs = []
            for (k, v, s) in self.iterate(args[1], st, fr, body, node):
                outs.append((acc, s) if k in ('next', 'broke') else ((Exc(v) if k == 'raise' else Ctl(*v)), s))
            return outs
        if name in ('min', 'max') and not kwargs:
            vals = self.known_items(args[0], st) if n == 1 else list(args)
            if vals:
                if all(is_num_c(v) for v in vals):
                    f = min if name == 'min' else max
                    return [(C(f(v[2] for v in vals)), st)]
                if self.kinds:
                    vals = self.extreme(name, [self.canon(v, st) for v in vals])
                    if len(vals) == 1:
                        return [(vals[0], st)]
                return [((name, tuple(self.canon(v, st) for v in vals)), st)]
        if name in ('any', 'all') and n == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                cur = [st]
                outs = []
                for x in items:
                    nxt = []
                    for s in cur:
                        for b, s2 in self.split(x, s):
                            if b == (name == 'any'):
                                outs.append((C(b), s2))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return outs + [(C(name == 'all'), s) for s in cur]
            return [(('call', ('bi', name), (self.canon(args[0], st),), ()), st)]
        if name == 'sorted' and n == 1:
            items = self.known_items(args[0], st)
            if items is not None and all(is_c(x) for x in items) and not kwargs:
                try:
                    return [(self.new_list(st, tuple(('e', C(x)) for x in sorted(y[2] for y in items))), st)]
                except TypeError:
                    pass
            return [(('call', ('bi', 'sorted'), tuple(self.canon(a, st) for a in args),
                      tuple((k, self.canon(v, st)) for k, v in kwargs)), st)]
        if name == 'callable' and n == 1 and args[0][0] in ('f', 'm', 'cls'):
            return [(TRUE, st)]
        if name in PURE_BUILTINS and n >= 1:
            if all(is_c(a) for a in args) and not kwargs and name in ('int', 'float', 'abs', 'round', 'ord', 'chr', 'bytes', 'divmod', 'hash'):
                if name != 'hash':
                    try:
                        r = getattr(builtins, name)(*[a[2] for a in args])
                        return [(C(r), st)]
                    except (ValueError, TypeError) as e:
                        return [(Exc(('exc', type(e).__name__, ())), st)]
                    except OverflowError:
                        pass
            if name == 'sum':
                items = self.known_items(args[0], st)
                if items is not None and n == 1:
                    acc = C(0)
                    for x in items:
                        acc = ('op', '+', acc, self.canon(x, st))
                    return [(acc, st)]
            t = ('call', ('bi', name), tuple(self.canon(a, st) for a in args), tuple((k, self.canon(v, st)) for k, v in kwargs))
            if name in ('int', 'float', 'ord', 'chr', 'bytes', 'round', 'divmod'):
                self.may_raise(st, 'ValueError', t)
                self.may_raise(st, 'TypeError', t)
            return [(t, st)]
        if name in ('Exception', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'NotImplementedError',
                    'AssertionError', 'RuntimeError', 'AttributeError', 'EOFError', 'StopIteration', 'OSError'):
            return [(('exc', name, tuple(self.canon(a, st) for a in args)), st)]
        return self.opaque_call(('bi', name), args, kwargs, st, node, fr=fr)


def _subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def _as_load(n):
    import copy
    m = copy.copy(n)
    m.ctx = ast.Load()
    return m
