"""Drivers: short Python texts that use the repository's own functions and are
analysed (never run) together with them.

The content-stream driver feeds a known token sequence to the repository's
command-stream interpreter: the tokenizer is replaced by the given list, so an
operator is reached through the repository's own dispatch whatever the handler
is called and however the dispatch is written.
"""
import ast

from .engine import Engine, Fr, HObj, State, bad
from .equiv import Outcome, exc_name, flatten
from .project import AnalysisError, Class, Func, Missing
from .terms import C, NONE, S, has_unk, norm, show, walk

CONTENT_PRELUDE = '''
from pdfmajor.interpreter.commands import process_command_stream, prep_state
from pdfmajor.interpreter.commands.state import PDFStateStack
from pdfmajor.parser.PSStackParser.types import PSKeyword

def K(name):
    return PSKeyword(name)

def interp(state, toks):
    out = []
    for item in process_command_stream(toks, {}, state):
        out.append(item)
    return out
'''

KW = 'pdfmajor.parser.PSStackParser.types.PSKeyword'


class TokenEngine(Engine):
    """Engine in which the content parser yields a given token list."""
    token_parser = 'PDFContentParser'

    def construct(self, fv, args, kwargs, st, fr, node):
        c = self.P.classes[fv[1]]
        if c.name == self.token_parser and args and not self.kinds:
            v = args[0]
            h = self.obj(v, st)
            if h is not None and h.kind == 'list' and h.base is None:
                r = self.stream_tokens(h, st, fr, node)
                return [(v, st)] if r is None else r
        return Engine.construct(self, fv, args, kwargs, st, fr, node)

    def stream_tokens(self, h, st, fr, node):
        """Streams whose objects carry their tokens (attribute or property toks)."""
        items = [sg[1] for sg in h.segs if sg[0] == 'e']
        if not items or len(items) != len(h.segs):
            return None
        for x in items:
            o = self.obj(x, st) if isinstance(x, tuple) else None
            if o is None or o.kind != 'obj' or ('toks' not in o.attrs and (
                    o.cls is None or self.P.class_attr(o.cls, 'toks') is None)):
                return None
        cur, outs = [((), st)], []
        for x in items:
            nxt = []
            for segs, s in cur:
                for v, s2 in self.getattr(x, 'toks', s, fr, node):
                    if bad(v):
                        outs.append((v, s2))
                        continue
                    l = self.obj(v, s2)
                    if l is None or l.kind != 'list':
                        return None
                    nxt.append((segs + l.segs, s2))
            cur = nxt
        return outs + [(self.new_list(s, segs), s) for segs, s in cur]


_n = [0]


def add_driver(P, src, prelude=CONTENT_PRELUDE):
    _n[0] += 1
    return P.add_source('verif_driver_%d' % _n[0], prelude + src)


# ---------------------------------------------------------------- registry
def registry(P):
    """Heap objects left by importing the operator modules: the module-level
    decorators and registration calls are replayed abstractly, in file order."""
    cached = getattr(P, '_op_registry', None)
    if cached is not None:
        return cached
    E = Engine(P)
    st = State()
    mods = [m for n, m in sorted(P.modules.items()) if n.startswith('pdfmajor.interpreter')]
    # empty containers of classes and modules are the places registration fills
    for m in mods:
        for owner in [None] + [c for c in P.classes.values() if c.module is m]:
            body = (owner.node.body if owner is not None else m.tree.body)
            for s in body:
                tgt = val = None
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    tgt, val = s.targets[0], s.value
                elif isinstance(s, ast.AnnAssign):
                    tgt, val = s.target, s.value
                if not isinstance(tgt, ast.Name) or val is None:
                    continue
                name = Engine.mangle(tgt.id, owner)
                key = ('G', owner.qual if owner is not None else m.name, name)
                if isinstance(val, ast.Dict) and not val.keys:
                    st.heap[key] = HObj('dict')
                elif isinstance(val, ast.Call) and not val.args and not val.keywords and \
                        getattr(val.func, 'id', getattr(val.func, 'attr', '')) in ('OrderedDict', 'dict'):
                    st.heap[key] = HObj('dict')
                elif isinstance(val, ast.List) and not val.elts:
                    st.heap[key] = HObj('list')
    calls = 0
    for m in mods:
        stmts = []
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for d in reversed(s.decorator_list):
                    if isinstance(d, ast.Call):
                        stmts.append(ast.Expr(ast.Call(d, [ast.Name(s.name, ast.Load())], [])))
                    elif isinstance(s, ast.FunctionDef) and isinstance(d, (ast.Name, ast.Attribute)):
                        r = P.resolve_expr(m, d)
                        if r and r[0] == 'func':
                            stmts.append(ast.Expr(ast.Call(d, [ast.Name(s.name, ast.Load())], [])))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                stmts.append(s)
            elif isinstance(s, (ast.For,)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))):
                stmts.append(s)
        if not stmts:
            continue
        fn = ast.FunctionDef(name='__import_%s' % m.name.split('.')[-1], args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=stmts,
            decorator_list=[], returns=None, type_comment=None, type_params=[])
        ast.fix_missing_locations(ast.copy_location(fn, m.tree.body[0]))
        f = Func(fn, m, None, m.name + '.' + fn.name)
        P.funcs[f.qual] = f
        outs = [(k, v, s) for k, v, s in E.analyse(f, st=st) if k == 'ret']
        if len(outs) != 1:
            continue
        calls += len(stmts)
        st = outs[0][2]
    reg = {k: h for k, h in st.heap.items() if h.entries or h.segs or h.kind == 'obj'}
    P._op_registry = (reg, calls)
    return P._op_registry


def commands_table(P):
    """{key: Func} of the operator registry."""
    reg, _ = registry(P)
    best = {}
    for k, h in reg.items():
        if h.kind != 'dict':
            continue
        d = {}
        for e in h.entries:
            if e[0] == 'e' and e[1][0] == 'c' and e[2][0] == 'f':
                d[e[1][2]] = P.funcs[e[2][1]]
            elif e[0][0] == 'c' and e[1][0] == 'f':
                d[e[0][2]] = P.funcs[e[1][1]]
        if len(d) > len(best):
            best = d
    return best


# ------------------------------------------------------------------ content
STATE_HOME = 'pdfmajor.interpreter.commands.state'


class Content:
    """Analysis of driver functions over an arbitrary interpreter state."""

    def __init__(self, P, src, opaque=None, truthy=None, typer=None, max_states=400, prelude=CONTENT_PRELUDE,
                 engine=TokenEngine):
        self.P = P
        self.mod = add_driver(P, src, prelude)
        self.opaque = opaque
        self.user_truthy = truthy
        self.user_typer = typer
        self.max_states = max_states
        self.engines = []
        self.engine_cls = engine
        self.STATE = P.need_class('PDFStateStack', within=STATE_HOME)

    def truthy(self, atom):
        if atom[0] == 'isinst' and atom[2] == KW:
            return False        # operands are not operators
        if self.user_truthy is not None:
            return self.user_truthy(atom)
        return None

    def engine(self):
        E = self.engine_cls(self.P, opaque=self.opaque, truthy=self.truthy, typer=self.user_typer,
                            max_states=self.max_states, record_calls=False)
        self.engines.append(E)
        return E

    def func(self, name):
        return self.mod.scope[name][1]

    def state0(self, E):
        st = State()
        reg, _ = registry(self.P)
        st.heap.update(reg)
        s0 = E.sym_obj(st, self.STATE, S('state'))
        return st, s0

    def run(self, name, mk=None, whole=True, observe=None):
        """-> (E, [Outcome]); obs = changes of the state and the driver's result."""
        E = self.engine()
        st, s0 = self.state0(E)
        f = self.func(name)
        pars = [a.arg for a in f.node.args.args]
        args = {}
        if 'state' in pars:
            args['state'] = s0
        if mk is not None:
            args.update(mk(E, st))
        outs = []
        for kind, v, s in E.analyse(f, st=st, args=args):
            obs = {}
            exc = None
            if kind == 'raise':
                exc = exc_name(v)
            else:
                if whole:
                    obs.update(flatten(eta(self.P, E.canon(s0, s))))
                r = eta(self.P, E.canon(v, s))
                if r[0] == 'dictv':
                    for ent in r[1]:
                        k = ent[0]
                        obs[k[2] if k[0] == 'c' else show(k)] = norm(ent[1])
                elif r != NONE:
                    obs['result'] = norm(r)
            outs.append(Outcome(kind, exc, dict(s.pc), obs, f.name))
        return E, outs


def attr_names(P, cls):
    out = set()
    for k in P.mro(cls):
        if not isinstance(k, Class):
            continue
        for f in k.body.values():
            if isinstance(f, Func) and f.node.args.args:
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(Engine.mangle(n.attr, k))
    return out


def eta(P, t):
    """A fresh object all of whose attributes are those of one existing object
    of the class is that object's value."""
    if not isinstance(t, tuple) or not t or isinstance(t, frozenset):
        return t
    if t[0] == 'c':
        return t
    t = tuple(eta(P, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'astuple' and len(t) == 2:
        return t[1]
    if t[0] == 'obj' and len(t) == 3 and t[2]:
        base = None
        for a, x in t[2]:
            if x[0] != 'attr' or x[2] != a or (base is not None and x[1] != base):
                return t
            base = x[1]
        c = P.classes.get(t[1])
        if c is not None and set(a for a, _ in t[2]) >= attr_names(P, c):
            return base
    return t
