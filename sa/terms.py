"""Abstract values (terms) of the value-flow analysis and their normal forms.

A term is a nested tuple.  Kinds:
  ('c', typename, value)            constant
  ('s', name)                       symbol (unknown value with a name)
  ('ref', id)                       abstract heap object
  ('t', (v, ...))                   tuple
  ('f', qual, self|None, frame)     function value
  ('cls', qual)  ('mod', name)  ('ext', dotted)  ('glob', module, name)
  ('enum', classqual, member)
  ('exc', classname, args)
  ('attr', base, name)  ('item', base, index)  ('slice', base, lo, hi, step)
  ('op', name, a, ...)              operators
  ('cat', parts)                    string/bytes/sequence concatenation
  ('str', v) ('fmt', spec, v)       formatting
  ('call', callee, args, kwargs)    result of a call that is not entered
  ('elem', iterable, n)             generic element of an iterable
  ('loop', n, what)                 value carried round a loop
  ('phi', (v, ...))                 join
  ('unk', why)                      anything; poisons comparisons
"""
from fractions import Fraction


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def S(name):
    return ('s', name)


def U(why):
    return ('unk', why)


def is_c(t):
    return t[0] == 'c'


def is_num_c(t):
    return t[0] == 'c' and t[1] in ('int', 'float', 'bool')


def is_str_c(t):
    return t[0] == 'c' and t[1] in ('str', 'bytes')


def walk(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))
        elif isinstance(x, frozenset):
            todo.extend(x)


def relabel(t):
    """The labels of generic elements, numbered in the order they come up."""
    if not any(x[0] == 'elem' for x in walk(t) if x):
        return t
    seen = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'elem' and len(x) == 3:
            b = go(x[1])
            return ('elem', b, seen.setdefault(x[2], len(seen)))
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    return go(t)


def has_unk(t):
    return any(x[0] == 'unk' for x in walk(t) if x)


def find_unk(t):
    return [x[1] for x in walk(t) if x and x[0] == 'unk' and len(x) > 1]


def mentions(t, pred):
    return any(pred(x) for x in walk(t) if x)


def subst(t, m):
    """Replace whole sub-terms by mapping."""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


# ---- numeric normal form ---------------------------------------------------
SEQ_CALLS = ('str', 'bytes', 'decode', 'encode', 'join', 'replace', 'lower', 'upper', 'strip',
             'list', 'tuple', 'bytearray', 'sorted', 'read', 'repr', 'format')


def is_seq(t):
    k = t[0]
    if k == 'c':
        return t[1] in ('str', 'bytes', 'tuple')
    if k in ('cat', 'str', 'fmt', 't', 'slice', 'listv', 'dictv'):
        return True
    if k == 'op' and t[1] == '+':
        return is_seq(t[2]) or is_seq(t[3])
    if k == 'op' and t[1] == '%':
        return is_seq(t[2])
    if k == 'op' and t[1] == '*':
        return is_seq(t[2]) or is_seq(t[3])
    if k == 'call':
        c = t[1]
        name = c[2] if c[0] == 'm' else (c[1].split('.')[-1] if c[0] in ('ext', 'bi') else '')
        return name in SEQ_CALLS
    if k == 'phi':
        return any(is_seq(x) for x in t[1])
    return False


def num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v)) if v == v and v not in (float('inf'), float('-inf')) else None


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + c * k
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
                if d[a] == 0:
                    del d[a]
            m = tuple(sorted(d.items(), key=repr))
            n = r.get(m, 0) + c1 * c2
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    return r


def poly(t):
    """Polynomial (dict monomial -> Fraction) of a numeric term; atoms are normal forms."""
    k = t[0]
    if k == 'c' and t[1] in ('int', 'float', 'bool'):
        n = num(t[2])
        if n is None:
            return {((t, 1),): Fraction(1)}
        return {(): n} if n else {}
    if k == 'poly':
        return dict(t[1])
    if k == 'op':
        o = t[1]
        if o == '+' and not is_seq(t):
            return padd(poly(t[2]), poly(t[3]))
        if o == '-' and len(t) == 4:
            return padd(poly(t[2]), poly(t[3]), -1)
        if o == 'neg':
            return padd({}, poly(t[2]), -1)
        if o == 'pos':
            return poly(t[2])
        if o == '*' and not is_seq(t):
            return pmul(poly(t[2]), poly(t[3]))
        if o == '/':
            d = poly(t[3])
            if len(d) == 1:
                (m, c), = d.items()
                if c != 0:
                    inv = {tuple((a, -e) for a, e in m): 1 / c}
                    return pmul(poly(t[2]), inv)
        if o == '**' and is_num_c(t[3]) and isinstance(t[3][2], int) and 0 <= t[3][2] <= 4:
            r = {(): Fraction(1)}
            for _ in range(t[3][2]):
                r = pmul(r, poly(t[2]))
            return r
    n = norm(t)
    if n[0] == 'poly':
        return dict(n[1])
    if is_num_c(n) and k != 'c':
        return poly(n)
    return {((n, 1),): Fraction(1)}


def frozen(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def unpoly(p):
    """Simplest term for a polynomial."""
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(int(c)) if c.denominator == 1 else ('poly', frozen(p))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', frozen(p))


_cache = {}


def norm(t):
    """Normal form: equal terms (by the algebra we trust) get equal normal forms."""
    try:
        r = _cache.get(t)
    except TypeError:
        return t
    if r is None:
        r = _norm(t)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[t] = r
    return r


def flat_minmax(name, args):
    out = []
    for a in args:
        a = norm(a)
        if a[0] == name:
            out.extend(a[1])
        else:
            out.append(a)
    return out


def _norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if not isinstance(k, str):
        return tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if k == 'c':
        if t[1] == 'float' and t[2] == t[2] and abs(t[2]) < 1e300:
            return unpoly({(): num(t[2])} if t[2] else {})
        if t[1] == 'tuple':
            return t
        return t
    if k in ('s', 'ref', 'f', 'cls', 'mod', 'ext', 'glob', 'enum', 'unk', 'bi'):
        return t
    if k == 'poly':
        return t
    if k == 'op':
        o = t[1]
        if o == '+' and is_seq(t):
            return norm(('cat', (t[2], t[3])))
        if o in ('+', '-', '*', '/', 'neg', 'pos', '**'):
            if o == '*' and is_seq(t):
                return ('op', '*') + tuple(norm(x) for x in t[2:])
            if o == '/' or o == '**':
                p = None
                if o == '/':
                    d = poly(t[3])
                    if len(d) == 1:
                        p = poly(t)
                elif is_num_c(t[3]):
                    p = poly(t)
                if p is None:
                    return ('op', o) + tuple(norm(x) for x in t[2:])
                return unpoly(p)
            return unpoly(poly(t))
        if o in ('//', '%'):
            a, b = norm(t[2]), norm(t[3])
            if o == '%' and is_str_c(a):
                return ('op', o, a, b)
            return ('op', o, a, b)
        if o in ('&', '|', '^'):
            return ('op', o) + tuple(sorted((norm(x) for x in t[2:]), key=repr))
        return ('op', o) + tuple(norm(x) if isinstance(x, tuple) else x for x in t[2:])
    if k == 'cat':
        parts = []
        for x in t[1]:
            x = norm(x)
            if x[0] == 'cat':
                parts.extend(x[1])
            else:
                parts.append(x)
        out = []
        for x in parts:
            if is_str_c(x) and not x[2]:
                continue
            if out and is_str_c(x) and is_str_c(out[-1]) and x[1] == out[-1][1]:
                out[-1] = C(out[-1][2] + x[2])
            elif out and x[0] == 't' and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + x[1])
            else:
                out.append(x)
        if not out:
            return norm(t[1][0]) if t[1] and is_str_c(norm(t[1][0])) else C('')
        if len(out) == 1:
            return out[0]
        return ('cat', tuple(out))
    if k in ('min', 'max'):
        a = flat_minmax(k, t[1])
        return _minmax(k, a)
    if k == 'str':
        v = norm(t[1])
        if v[0] == 'c' and v[1] in ('str', 'int', 'bool', 'NoneType'):
            return C(str(v[2]))
        if v[0] in ('str', 'fmt'):
            return v
        return ('str', v)
    if k == 'call':
        callee, args, kwargs = t[1], t[2], t[3]
        if callee == ('bi', 'min') or callee == ('bi', 'max'):
            if not kwargs:
                a = args
                if len(a) == 1 and a[0][0] in ('t', 'listv'):
                    a = a[0][1]
                    return _minmax(callee[1], flat_minmax(callee[1], a))
                if len(a) > 1:
                    return _minmax(callee[1], flat_minmax(callee[1], a))
        return ('call', norm(callee), tuple(norm(x) for x in args),
                tuple(sorted((kk, norm(v)) for kk, v in kwargs))) + t[4:]
    if k == 'item':
        b, i = norm(t[1]), norm(t[2])
        if b[0] in ('t', 'listv') and is_num_c(i) and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
            return b[1][i[2]]
        return ('item', b, i)
    if k == 't' or k == 'listv':
        items = tuple(norm(x) for x in t[1])
        # eta: a tuple of all the items of one 6- or 2-, 4-vector is that vector
        if k == 't' and len(items) in (2, 3, 4, 6):
            b = items[0][1] if items[0][0] == 'item' else None
            if b is not None and all(x == ('item', b, C(i)) for i, x in enumerate(items)):
                return ('vec', len(items), b)
        return (k, items)
    if k == 'phi':
        xs = []
        for x in t[1]:
            x = norm(x)
            for y in (x[1] if x[0] == 'phi' else (x,)):
                if y not in xs:
                    xs.append(y)
        if len(xs) == 1:
            return xs[0]
        return ('phi', tuple(sorted(xs, key=repr)))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


SENTINEL = (1 << 31) - 1


def _minmax(k, args):
    xs = []
    for a in args:
        if a not in xs:
            xs.append(a)
    def value(x):
        if x[0] == 'poly' and len(x[1]) == 1 and x[1][0][0] == ():
            return x[1][0][1]
        return x[2] if is_num_c(x) else None
    nums = [x for x in xs if value(x) is not None]
    if len(nums) > 1:
        f = min if k == 'min' else max
        best = f(nums, key=value)
        xs = [x for x in xs if value(x) is None] + [best]
    # absorption: min(max(a, ..), a, ..) = min(a, ..)
    dual = 'max' if k == 'min' else 'min'
    xs = [x for x in xs if not (x[0] == dual and any(y in xs for y in x[1]))]
    # the sentinels of an empty extent (coordinates are assumed to lie inside them)
    if len(xs) > 1:
        xs = [x for x in xs if not (is_num_c(x) and (x[2] >= SENTINEL if k == 'min' else x[2] <= -SENTINEL))]
        nd = []
        for x in xs:
            if x[0] == dual:
                ys = [y for y in x[1] if not (is_num_c(y) and (y[2] <= -SENTINEL if k == 'min' else y[2] >= SENTINEL))]
                x = _minmax(dual, ys) if len(ys) != len(x[1]) else x
            if x not in nd:
                nd.append(x)
        if nd != xs:
            return _minmax(k, nd)
    if len(xs) == 1:
        return xs[0]
    return (k, tuple(sorted(xs, key=repr)))


def eq(a, b):
    return norm(a) == norm(b)


# ---- printing --------------------------------------------------------------
def show(t, depth=0):
    if depth > 6:
        return '...'
    d = depth + 1
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 's':
        return str(t[1])
    if k == 'ref':
        return '<obj %s>' % (t[1],)
    if k == 't':
        return '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    if k == 'vec':
        return show(t[2], d)
    if k == 'attr':
        return show(t[1], d) + '.' + t[2]
    if k == 'item':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'slice':
        return '%s[%s:%s]' % (show(t[1], d), '' if t[2] == NONE else show(t[2], d),
                              '' if t[3] == NONE else show(t[3], d))
    if k == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
        return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'poly':
        out = []
        for m, c in t[1]:
            f = [] if c == 1 and m else [str(c)]
            for a, e in m:
                f.append(show(a, d) + ('' if e == 1 else '**%d' % e))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if k == 'cat':
        return '+'.join(show(x, d) for x in t[1])
    if k == 'call':
        c = t[1]
        n = show(c, d)
        a = [show(x, d) for x in t[2]] + ['%s=%s' % (kk, show(v, d)) for kk, v in t[3]]
        return '%s(%s)' % (n, ', '.join(a))
    if k == 'm':
        return show(t[1], d) + '.' + t[2]
    if k == 'f':
        return t[1].split('.')[-1]
    if k in ('cls', 'enum'):
        return '.'.join(x.split('.')[-1] for x in t[1:])
    if k in ('ext', 'bi', 'mod'):
        return t[1]
    if k == 'glob':
        return t[2]
    if k == 'unk':
        return '?(%s)' % (t[1],)
    if k in ('min', 'max', 'listv', 'phi'):
        return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1]))
    if k == 'str':
        return 'str(%s)' % show(t[1], d)
    if k == 'elem':
        return 'each(%s)' % show(t[1], d)
    return '%s(%s)' % (k, ', '.join(show(x, d) if isinstance(x, tuple) else repr(x) for x in t[1:]))
