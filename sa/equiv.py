"""Comparing the value-flow summary of repository code with that of a reference.

A reference is a short Python text under /verif/specs that states what a
function must do.  It is parsed and analysed by the same engine (never run);
the two summaries are compared path by path after normalisation.  Only a
definite difference - no unknown value on either side, and path conditions that
do not contradict each other - is reported.
"""
import ast

from .engine import State
from .project import AnalysisError, Func, Missing
from .terms import C, NONE, frozen, has_unk, norm, padd, pmul, poly, show, unpoly, walk


class Outcome:
    def __init__(self, kind, exc, pc, obs, where):
        self.kind = kind        # 'ret' | 'raise'
        self.exc = exc          # exception class name when kind == 'raise'
        self.pc = pc
        self.obs = obs          # {name: normal form}
        self.where = where

    def key(self):
        return (self.kind, self.exc, tuple(sorted(self.obs.items(), key=lambda kv: kv[0])))


def flatten(t, pre=''):
    """{'graphics.scolor': term} of a canonical ('modified', base, changes)."""
    out = {}
    if t[0] == 'modified':
        for a, x in t[2]:
            p = pre + '.' + a if pre else a
            if x[0] == 'modified' and x[1] == ('attr', t[1], a):
                out.update(flatten(x, p))
            else:
                out[p] = norm(x)
    return out


def base_of(t):
    return t[1] if t[0] == 'modified' else t


def exc_name(v):
    if v[0] == 'exc':
        return v[1]
    if v[0] == 'implicit':
        return v[1]
    return show(v)


def contradicts(E, pa, pb):
    """Path conditions that cannot hold together (syntactic)."""
    st = State()
    st.pc = dict(pa)
    for atom, val in pb.items():
        k = E.lookup_pc(atom, st)
        if k is not None and k != val:
            return True
        if k is None:
            st.pc[atom] = val
    # and the other way round (asymmetric lookups)
    st = State()
    st.pc = dict(pb)
    for atom, val in pa.items():
        k = E.lookup_pc(atom, st)
        if k is not None and k != val:
            return True
        if k is None:
            st.pc[atom] = val
    return False


def outcome_unknown(o):
    return any(has_unk(v) for v in o.obs.values()) or any(has_unk(a) for a in o.pc)


unknown = outcome_unknown

# operations on spelled characters that stand for themselves
PLAIN = {('bi', x) for x in ('int', 'float', 'bytes', 'len', 'ord', 'str', 'min', 'max')} | {('m', 'decode'), ('m', 'encode')}


def operations(o):
    out = set()
    for v in list(o.obs.values()) + list(o.pc):
        for x in walk(v):
            if x[0] == 'call' and len(x) > 2 and isinstance(x[1], tuple):
                h = x[1]
                if h[0] == 'm':
                    out.add(('m', h[-1]))
                elif h[0] in ('bi', 'ext'):
                    out.add(h[:2])
            elif x[0] in ('many', 'slice', 'comp', 'gen', 'star', 'iter'):
                out.add((x[0],))
            elif x[0] == 'op' and x[1] in ('update', 'varargs'):
                out.add(x[:2])
    return out


def computed_globals(E, o):
    """The constants of modules and classes in an outcome whose values are worked out in ways that were not followed."""
    out = set()
    for v in list(o.obs.values()) + list(o.pc):
        for x in walk(v):
            if x[0] == 'm' and len(x) == 3 and x[1][0] == 'cls' and E.P.class_attr_owner(E.P.classes[x[1][1]], x[2]) is not None and \
                    E.P.class_attr(E.P.classes[x[1][1]], x[2]) is None:
                out.add(x)
            if x[0] == 'glob' and len(x) == 3 and isinstance(x[1], str) and isinstance(x[2], str) and x not in out:
                c = E.P.classes.get(x[1])
                if c is not None:
                    node = E.P.class_attr(c, x[2])
                else:
                    r = E.P.lookup(x[1], x[2]) if x[1] in E.P.modules else None
                    node = r[2] if r is not None and r[0] == 'expr' else None
                todo = [node]
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp)) or \
                            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('dict', 'list', 'tuple') and n.args:
                        out.add(x)
                    elif isinstance(n, ast.Dict):
                        todo.extend(n.values)
                    elif isinstance(n, (ast.Tuple, ast.List)):
                        todo.extend(n.elts)
    return out


def foreign(E, o, spec=()):
    """With spelled characters: operations that were left open, which the reference does not use either."""
    opened = computed_globals(E, o)
    for q in spec:
        if not opened:
            break
        opened -= computed_globals(E, q)
    if opened:
        return True
    if not E.kinds:
        return False
    ops = operations(o) - PLAIN
    for q in spec:
        if not ops:
            break
        ops -= operations(q)
    return bool(ops)


def carried(t):
    return any(x[0] == 'loop' for x in walk(t) if x)


def diff_obs(a, b):
    """Names whose observed value differs definitely."""
    out = []
    for n in sorted(set(a.obs) | set(b.obs)):
        x, y = a.obs.get(n), b.obs.get(n)
        if x != y:
            out.append((n, x, y))
    return out


class Diff:
    def __init__(self, status, what, where=''):
        self.status = status      # 'violated' | 'undecided'
        self.what = what
        self.where = where


def has_minmax(t):
    return any(isinstance(x, tuple) and x and x[0] in ('min', 'max', 'cond') for x in walk(t))


def zeros(pc):
    """Monomials that are zero: 'not true(k*m)' or 'k*m == 0'."""
    out = []
    for a, b in pc.items():
        if a[0] == 'true' and b is False and a[1][0] == 'poly':
            p = dict(a[1][1])
        elif a[0] == 'eq0' and b is True:
            p = dict(a[1])
        else:
            continue
        if len(p) == 1:
            (m, _), = p.items()
            if m and all(e > 0 for _, e in m):
                out.append(dict(m))
    return out


def less_than(E, x, y, st):
    """x < y (True), x >= y (False), or open (None) - ties may count as either."""
    d = padd(poly(x), poly(y), -1)
    if set(d) <= {()}:
        return d.get((), 0) < 0
    less = E.lookup_pc(('neg0', frozen(d)), st)
    if less is None:
        r = E.lookup_pc(('neg0', frozen(padd({}, d, -1))), st)
        less = None if r is None else not r
    return less


def under(E, t, st, zs):
    """Resolve minima and maxima whose order the path condition settles, and
    drop products it makes zero."""
    if not isinstance(t, tuple) or not t or t[0] in ('c', 's'):
        return t
    if t[0] == 'poly':
        r = {}
        for m, c in t[1]:
            md = dict(m)
            if any(all(md.get(a, 0) >= e for a, e in z.items()) for z in zs):
                continue
            q = {(): c}
            for a, e in m:
                u = under(E, a, st, zs)
                if u == a or e < 0:
                    f = {((u, e),): 1}
                else:
                    f = {(): 1}
                    for _ in range(e):
                        f = pmul(f, poly(u))
                q = pmul(q, f)
            r = padd(r, q)
        return unpoly(r)
    t = tuple(under(E, x, st, zs) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'cond' and len(t) == 3:
        known = E.lookup_pc(t[1], st)
        return t if known is None else C(known == t[2])
    if t[0] in ('min', 'max') and len(t) == 2:
        xs = list(t[1])
        drop = set()
        for i, x in enumerate(xs):
            for j, y in enumerate(xs):
                if i < j and i not in drop and j not in drop:
                    less = less_than(E, x, y, st)
                    if less is not None:
                        drop.add((j if less else i) if t[0] == 'min' else (i if less else j))
        xs = [x for i, x in enumerate(xs) if i not in drop]
        return xs[0] if len(xs) == 1 else (t[0], tuple(xs))
    return t


def resolve_under(E, o, pc):
    zs = zeros(pc)
    if not zs and not any(has_minmax(v) for v in o.obs.values()):
        return o
    st = State()
    st.pc = dict(pc)
    return Outcome(o.kind, o.exc, o.pc, {k: norm(under(E, v, st, zs)) for k, v in o.obs.items()}, o.where)


def compare(E, code, spec, exc_equiv=None, cap=3, E2=None):
    """Diffs between two outcome lists; empty = every path agrees."""
    E2 = E2 or E
    diffs = []
    cut = E.cut | E2.cut

    def outcome_unknown(o):
        return unknown(o) or foreign(E, o, spec) or bool(cut) and any(x in cut for v in list(o.obs.values()) + list(o.pc) for x in walk(v))

    spec_atoms = set(a for q in spec for a in q.pc)

    def same(a, b):
        if a.kind != b.kind:
            return False
        if a.kind == 'raise':
            x, y = a.exc, b.exc
            if exc_equiv is not None:
                x, y = exc_equiv(x), exc_equiv(y)
            if x != y:
                return False
        if not diff_obs(a, b):
            return True
        a, b = settle(a, b)
        return not diff_obs(a, b)

    def settle(a, b):
        pc = dict(b.pc)
        pc.update(a.pc)
        return resolve_under(E, a, pc), resolve_under(E, b, pc)

    def definite(a, b):
        """The two differ in something other than a value that a summarised loop computes."""
        a, b = settle(a, b)
        return a.kind != b.kind or a.exc != b.exc or any(
            not (x is not None and carried(x) or y is not None and carried(y)) for _, x, y in diff_obs(a, b))

    def describe(a, b):
        a, b = settle(a, b)
        if a.kind != b.kind or a.exc != b.exc:
            return 'code %s, reference %s' % (
                'raises %s' % a.exc if a.kind == 'raise' else 'returns normally',
                'raises %s' % b.exc if b.kind == 'raise' else 'returns normally')
        d = diff_obs(a, b)
        return '; '.join('%s: code has %s, reference has %s' % (
            n, 'the value it had before' if x is None else show(x)[:300],
            'the value it had before' if y is None else show(y)[:300]) for n, x, y in d[:4])

    for a in code:
        comp = [b for b in spec if not contradicts(E, a.pc, b.pc)]
        if not comp:
            if not a.pc:
                diffs.append(Diff('violated', 'no reference behaviour for this path', a.where))
            continue
        bad = [b for b in comp if not same(a, b)]
        if not bad:
            continue
        alien = [x for x in a.pc if x not in spec_atoms]
        if len(bad) < len(comp) and alien:
            continue            # agrees with some reference path; condition not comparable
        b = bad[0]
        if outcome_unknown(a) or any(outcome_unknown(x) for x in bad) or not definite(a, b) or any(carried(x) for x in alien):
            diffs.append(Diff('undecided', describe(a, b), a.where))
        else:
            pc = ' and '.join(('' if v else 'not ') + show(k)[:120] for k, v in list(a.pc.items())[:4])
            diffs.append(Diff('violated', describe(a, b) + (' (when %s)' % pc if pc else ''), a.where))
    for b in spec:
        comp = [a for a in code if not contradicts(E, a.pc, b.pc)]
        if comp and not any(same(a, b) for a in comp):
            if any(outcome_unknown(a) or not definite(a, b) or any(carried(x) and x not in spec_atoms for x in a.pc) for a in comp):
                st = 'undecided'
            else:
                st = 'violated'
            if not any(d.status == st for d in diffs):
                diffs.append(Diff(st, describe(comp[0], b), comp[0].where))
    out, seen = [], set()
    for d in diffs:
        if d.what not in seen:
            seen.add(d.what)
            out.append(d)
    return out[:cap]
