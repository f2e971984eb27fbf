"""Reference texts as pairs of functions.

A text under /verif/specs holds functions named
  code_X / ref_X   two ways of computing the same thing: the repository's way and
                   the way the property demands; every path of the first must
                   agree with the second (results, exceptions, changes of state);
  holds_X          a condition over the repository's functions that must not be
                   false on any path;
  raises_X_E       must end in exception E on every path;
  safe_X           must return normally on every path;
  ends_X           must end: no recursion and no decided loop may go on past what
                   the (known, finite) structure it is given accounts for.
They are parsed and analysed together with the repository, never run.
"""
import ast
import os
import signal
import time

from .drive import (CONTENT_PRELUDE, Content, TokenEngine, add_driver, eta, registry)
from .engine import Engine, State
from .equiv import Outcome, compare, exc_name, flatten, foreign, outcome_unknown
from .project import AnalysisError, Class, Func, Missing
from . import words
from .terms import C, NONE, S, has_unk, norm, relabel, show

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')

NUM = {'float': ('int', 'float'), 'int': ('int',), 'num': ('int', 'float')}
OTHER = ('str', 'bytes', 'list', 'dict', 'tuple', 'bool', 'int', 'float', 'NoneType', 'bytearray', 'OrderedDict')
KW_SUFFIX = ('PSKeyword', 'PSLiteral')


def interned(x):
    return x[0] == 'call' and x[1][0] == 'f' and x[1][1].endswith('PSSymbolTable.intern')


def symbol_class(P, x):
    """Name of the class that the table of an interned symbol is made for."""
    g = x[1][2]
    r = P.lookup(g[1], g[2]) if g is not None and g[0] == 'glob' and len(g) == 3 else None
    if r is not None and r[0] == 'expr' and isinstance(r[2], ast.Call) and len(r[2].args) == 1 and isinstance(r[2].args[0], ast.Name):
        return r[2].args[0].id
    return None


class SpecEngine(TokenEngine):
    """Engine in which calls of the named functions or classes go to functions of the reference text."""
    stubs = None
    spec_mod = None
    named = None
    names = ()
    sizes = {}

    def getattr(self, b, name, st, fr, node):
        if name == 'name' and interned(b) and len(b[2]) == 1 and symbol_class(self.P, b):
            return [(b[2][0], st)]      # a symbol has the name it was looked up by
        return TokenEngine.getattr(self, b, name, st, fr, node)

    def truth(self, v, st):
        if interned(v):
            cs = [c for c in self.P.classes.values() if c.name == symbol_class(self.P, v)]
            if cs and all(self.P.class_attr(c, m) is None for c in cs for m in ('__len__', '__bool__')):
                return True
        return TokenEngine.truth(self, v, st)

    def call(self, fv, args, kwargs, st, fr, node):
        if self.names and fv[0] == 'f' and fv[1].split('.')[-1] in self.names and not kwargs \
                and self.P.funcs[fv[1]].module is self.spec_mod:
            # an unknown function: every result gets a name of its own, the same one for the same arguments
            key = (fv[1].split('.')[-1], tuple(relabel(norm(self.canon(a, st))) for a in args))
            n = self.named.setdefault(key, S('%s#%d' % (key[0], len(self.named))))
            self.ptypes[n] = 'bytes'
            k = self.sizes.get(key[0])
            if k is not None:
                # its length: a number, or that of one of the arguments
                self.lengths[n] = k if k > 0 else self.byte_count(key[1][k])
            return [(n, st)]
        if self.stubs and not (fr is not None and fr.module is self.spec_mod):
            k, name = fv[0], None
            if k == 'cls':
                name = self.P.classes[fv[1]].name
            elif k == 'bi' or k == 'ext':
                name = fv[1]
            elif k == 'f':
                q = fv[1].split('.')
                name = q[-1] if q[-1] in self.stubs else '.'.join(q[-2:])
            to = self.stubs.get(name)
            if to is not None:
                b = self.spec_mod.scope[to]
                if b[0] == 'class':
                    return self.construct(('cls', b[1].qual), args, kwargs, st, fr, node)
                f = b[1]
                a = list(args)
                if k == 'f' and fv[2] is not None and fv[2][0] != 'cls':
                    a = [fv[2]] + a
                if f.name in self.names:
                    return self.call(('f', f.qual, None), a, kwargs, st, fr, node)
                return self.inline(f, None, a, kwargs, st, None, node)
        return TokenEngine.call(self, fv, args, kwargs, st, fr, node)


def one_by_one(src):
    """Pairs that return lists of independent cases become a pair for each case."""
    tree = ast.parse(src)
    defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}

    def cases(n):
        r = n.body[-1]
        if isinstance(r, ast.Return) and isinstance(r.value, ast.List) and all(
                isinstance(x, ast.Assign) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in n.body[:-1]):
            return r.value.elts
        return []

    body = []
    for n in tree.body:
        k, _, x = n.name.partition('_') if isinstance(n, ast.FunctionDef) else ('', '', '')
        other = defs.get({'code': 'ref_', 'ref': 'code_'}.get(k, '?') + x)
        a = cases(n) if other is not None else []
        if len(a) < 2 or len(a) != len(cases(other)):
            body.append(n)
            continue
        for i, v in enumerate(a):
            body.append(ast.FunctionDef(name='%s_%d' % (n.name, i + 1), args=n.args, body=n.body[:-1] + [ast.Return(value=v)],
                                        decorator_list=[], returns=None, type_comment=None, type_params=[]))
    tree.body = body
    return ast.unparse(ast.fix_missing_locations(tree))


class Spec:
    def __init__(self, P, fname, opaque=None, truthy=None, typer=None, max_states=600, prelude='',
                 engine=SpecEngine, seed_registry=True, numbers=(), rec=1, stubs=None, names={},
                 spelling=False, apart=False):
        self.spelling = spelling
        self.rec = rec
        self.unknown = names
        self.table = {}
        self.max_depth = None
        self.stubs = stubs
        self.P = P
        with open(os.path.join(SPECS, fname), encoding='utf-8') as f:
            src = f.read()
        self.fname = fname
        if apart:
            src = one_by_one(src)
        self.mod = add_driver(P, src, prelude)
        self.opaque = opaque
        self.user_truthy = truthy
        self.typer = typer
        self.max_states = max_states
        self.engine_cls = engine
        self.seed = seed_registry
        self.ptypes = {}
        self.numbers = set(numbers)

    def names(self):
        return [n for n, b in self.mod.scope.items() if b[0] == 'func' and b[1].module is self.mod]

    def truthy(self, atom):
        if atom[0] == 'isinst':
            x, t = atom[1], atom[2]
            if interned(x):
                c, k = symbol_class(self.P, x), t.split('.')[-1]
                return None if c is None else k in (c, 'PSObject', 'object')
            ty = self.ptypes.get(x)
            if x[0] == 's' and t.endswith('.PSKeyword'):
                return False        # operands are not operators
            if ty is None and x[0] == 'poly':
                ty = 'float'
            if ty is not None:
                tn = t.split('.')[-1]
                if ty in NUM:
                    if tn in ('int', 'float'):
                        return True
                    return False
                if ty in ('str', 'bytes', 'bool'):
                    if tn == ty or (ty == 'bool' and tn == 'int'):
                        return True
                    return False
        if atom[0] == 'isnone' and atom[1] in self.ptypes:
            return False
        if atom[0] == 'hasattr' and atom[1] in self.ptypes:
            return False
        if self.user_truthy is not None:
            return self.user_truthy(atom)
        return None

    def engine(self):
        E = self.engine_cls(self.P, opaque=self.opaque, truthy=self.truthy, typer=self.typer,
                            max_states=self.max_states, record_calls=False)
        E.rec_limit = self.rec
        E.max_depth = max(E.max_depth, 5 * self.rec)
        if self.max_depth:
            E.max_depth = self.max_depth
        E.stubs = self.stubs
        E.names = self.unknown
        E.sizes = self.unknown
        E.lengths = {}
        E.kinds = {S('<spelling>'): (words.BYTE, True)} if self.spelling else {}
        E.named = self.table
        E.spec_mod = self.mod
        return E

    def run(self, name):
        import ast
        E = self.engine()
        st = State()
        if self.seed:
            reg, _ = registry(self.P)
            st.heap.update(reg)
        f = self.mod.scope[name][1]
        self.ptypes = E.ptypes = {}
        args = {}
        watch = []
        for a in f.node.args.args:
            ann = a.annotation
            t = S(a.arg)
            if isinstance(ann, ast.Name) and ann.id in ('float', 'int', 'num', 'str', 'bytes', 'bool'):
                self.ptypes[t] = ann.id
                args[a.arg] = t
            elif isinstance(ann, ast.Name) and ann.id in words.PAIRS:
                ts = []
                for i, k in enumerate(words.PAIRS[ann.id]):
                    ts.append(S('%s%d' % (a.arg, i)))
                    E.kinds[ts[i]] = words.KINDS[k]
                    self.ptypes[ts[i]] = 'bytes'
                    if E.kinds[ts[i]][1]:
                        E.lengths[ts[i]] = 1
                args[a.arg] = ('cat', tuple(ts))
            elif isinstance(ann, ast.Name) and ann.id in words.KINDS:
                E.kinds[t] = words.KINDS[ann.id]
                self.ptypes[t] = 'bytes'
                if E.kinds[t][1]:
                    E.lengths[t] = 1
                args[a.arg] = t
            elif ann is not None:
                v = E.typed(st, t, E.ann_type(self.mod, ann))
                if v == t:
                    raise Missing('type of parameter %s of %s' % (a.arg, name))
                args[a.arg] = v
                watch.append((a.arg, v))
            else:
                args[a.arg] = t
        outs = []
        try:
            res = E.analyse(f, st=st, args=args)
        except AnalysisError as e:
            E.problem(str(e))
            res = []
        for kind, v, s in res:
            obs, exc = {}, None
            if kind == 'raise':
                exc = exc_name(v)
            else:
                for n, w in watch:
                    obs.update(flatten(eta(self.P, E.canon(w, s)), n))
                r = eta(self.P, E.canon(v, s))
                if r[0] == 'dictv':
                    for ent in r[1]:
                        k = ent[0]
                        obs['result.' + str(k[2] if k[0] == 'c' else show(k))] = norm(ent[1])
                elif r[0] == 't':
                    for i, x in enumerate(r[1]):
                        obs['result[%d]' % i] = norm(x)
                elif r != NONE:
                    obs['result'] = norm(r)
            outs.append(Outcome(kind, exc, relabelled(s.pc), dict((n, relabel(v)) for n, v in obs.items()), ''))
        return E, outs

    def locate(self, name):
        f = self.mod.scope.get(name)
        doc = ''
        if f is not None and f[0] == 'func':
            import ast
            doc = ast.get_docstring(f[1].node) or ''
        return doc.strip().split('\n')[0]

    def where(self, E):
        """Repository functions this obligation went through."""
        fs = [q for q in E.visited if q.startswith('pdfmajor')]
        locs = []
        for q in fs:
            f = self.P.funcs.get(q)
            if f is not None:
                locs.append(f.loc)
        return ', '.join(locs[-4:]) if locs else self.fname


def relabelled(pc):
    out = {}
    for a, v in pc.items():
        b = relabel(a)
        out[a if b in out else b] = v
    return out


class Budget(BaseException):
    pass


def limited(seconds, fn):
    """Run one obligation with a bound on its time (0: none)."""
    def over(sig, frame):
        raise Budget('more than %d s' % seconds)
    if seconds <= 0:
        raise Budget('no time left')
    old = signal.signal(signal.SIGALRM, over)
    signal.alarm(max(1, int(seconds)))
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


TOTAL = 600         # a check is given 900 s
STARTED = time.time()


def run_spec(R, P, fname, prefix, only=None, exc_equiv=None, ignore=(), skip=(), each=150, **kw):
    """Discharge every obligation of a reference text."""
    sp = Spec(P, fname, **kw)
    names = sp.names()
    done = 0
    only_one = os.environ.get('SA_ONLY')
    for n in names:
        k, _, x = n.partition('_')
        if k not in ('code', 'holds', 'raises', 'safe', 'ends') or not x:
            continue
        want = None
        if k == 'raises':
            x, want = x.rsplit('_', 1)
        if (only and x not in only) or x in skip or (only_one and x not in only_one.split(',') and x.rstrip('0123456789')[:-1] not in only_one.split(',')):
            continue
        key = '%s.%s%s' % (prefix, x, '.ends' if k == 'ends' else '')
        fn = {'code': do_code, 'holds': do_holds, 'ends': do_ends}.get(k, do_raises)
        done += 1
        t = time.time()
        try:
            limited(min(each, TOTAL - (time.time() - STARTED)), lambda: fn(R, P, sp, n, x, key, want, names, exc_equiv, ignore))
        except Budget as e:
            R.undecided(key, fname, 'not finished: %s' % e)
        except AnalysisError as e:
            R.undecided(key, fname, '%s: %s' % (type(e).__name__, e))
        except RecursionError as e:
            if os.environ.get('SA_DEBUG'):
                raise
            R.undecided(key, fname, 'analysis too deep: %s' % e)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            R.undecided(key, fname, 'internal error of the analysis: %r' % e)
        if os.environ.get('SA_TIME'):
            print('%6.1f s  %s' % (time.time() - t, key), flush=True)
        doc = sp.locate(n)
        if doc:
            R.rule('%s: %s' % (key, doc))
    R.count('reference obligations', done)
    if not done:
        raise Missing('obligations in %s' % fname)
    return sp


def unsettled(E, o):
    return outcome_unknown(o) or foreign(E, o)


def do_code(R, P, sp, n, x, key, want, names, exc_equiv, ignore):
    if 'ref_' + x not in names:
        raise Missing('reference for %s' % n)
    E1, a = sp.run(n)
    E2, b = sp.run('ref_' + x)
    R.engine(E1)
    R.engine(E2)
    for o in a + b:
        for i in ignore:
            for k in [k for k in o.obs if k == i or k.endswith('.' + i) or k.startswith(i + '.')]:
                o.obs.pop(k)
    ds = compare(E1, a, b, exc_equiv, E2=E2)
    probs = list(E1.problems) + list(E2.problems)
    ends = [m for pc, m in E1.forever if not pc]
    if ends and not E2.forever and not E2.problems:
        R.bad(key, sp.where(E1), '; '.join(sorted(set(ends))[:2]))
    elif not a or not b:
        R.undecided(key, sp.fname, 'no path analysed: %s' % probs)
    else:
        R.diffs(key, ds, sp.where(E1), probs)


def do_holds(R, P, sp, n, x, key, want, names, exc_equiv, ignore):
    E1, a = sp.run(n)
    R.engine(E1)
    badp, unk = [], list(E1.problems)
    for o in a:
        v = o.obs.get('result')
        if o.kind == 'ret' and v == C(True):
            continue
        pc = ' and '.join(('' if b else 'not ') + show(k)[:140] for k, b in list(o.pc.items())[:4])
        what = ('raises %s' % o.exc if o.kind == 'raise' else 'condition is %s' % (
            show(v)[:160] if v is not None else None)) + (' (when %s)' % pc if pc else '')
        definite = (o.kind == 'raise' or v == C(False)) and not unsettled(E1, o)
        (badp if definite else unk).append(what)
    if badp and not E1.problems:
        R.bad(key, sp.where(E1), '; '.join(badp[:3]))
    elif badp or unk or not a:
        R.undecided(key, sp.where(E1), '; '.join((badp + unk)[:3]))
    else:
        R.ok(key, sp.where(E1))


def do_ends(R, P, sp, n, x, key, want, names, exc_equiv, ignore):
    save = sp.rec
    sp.rec = 10
    sp.max_depth = 110
    try:
        E1, a = sp.run(n)
    finally:
        sp.rec = save
        sp.max_depth = None
    R.engine(E1)
    if E1.unending and not E1.problems:
        R.bad(key, sp.where(E1), '; '.join(sorted(set(E1.unending))[:3]))
    elif not a or E1.unending or E1.problems or any(o.kind != 'ret' or unsettled(E1, o) for o in a):
        R.undecided(key, sp.where(E1), '; '.join(E1.unending[:2] + ['%s %s' % (o.kind, o.exc) for o in a if o.kind != 'ret'][:2] +
                                                 [str(p)[:200] for p in E1.problems[:2]]))
    else:
        R.ok(key, sp.where(E1))


def do_raises(R, P, sp, n, x, key, want, names, exc_equiv, ignore):
    E1, a = sp.run(n)
    R.engine(E1)
    badp = []
    for o in a:
        if want is None and o.kind == 'ret':
            continue
        if want is not None and o.kind == 'raise' and exc_is(P, o.exc, want):
            continue
        pc = ' and '.join(('' if b else 'not ') + show(k)[:140] for k, b in list(o.pc.items())[:4])
        badp.append((o, ('raises %s' % o.exc if o.kind == 'raise' else 'returns normally') +
                     (' (when %s)' % pc if pc else '')))
    if not a:
        R.undecided(key, sp.where(E1), 'no path: %s' % E1.problems)
    elif badp and not E1.problems and not any(unsettled(E1, o) for o, _ in badp):
        R.bad(key, sp.where(E1), '; '.join(t for _, t in badp[:3]))
    elif badp:
        R.undecided(key, sp.where(E1), '; '.join(t for _, t in badp[:3]))
    else:
        R.ok(key, sp.where(E1))


def exc_is(P, exc, want):
    if exc is None:
        return False
    if exc.split('.')[-1] == want:
        return True
    c = P.classes.get(exc)
    if c is not None:
        return any((k.name if isinstance(k, Class) else k.split('.')[-1]) == want for k in P.mro(c))
    return False
