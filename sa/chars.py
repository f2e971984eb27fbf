"""Normal form of character-wise text rewriting.

``('chars', ((ranges, replacement), ...), x)`` is the text x with every character that lies in one of the sets replaced, all at
once.  Chains of single-character ``replace`` calls, ``re.sub`` with a pattern that matches exactly one character of a set and a
constant replacement, ``html.escape`` and ``xml.sax.saxutils.escape`` all come down to this form, which tells two rewritings apart
exactly when some character is treated differently.
"""
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_constants as sc
    import sre_parse

MAXC = 0x10ffff
NUMERIC = '0123456789+-.eEinfa'


def norm_set(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def complement(rs):
    out, at = [], 0
    for a, b in norm_set(rs):
        if at < a:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAXC:
        out.append((at, MAXC))
    return tuple(out)


def intersect(x, y):
    return norm_set((max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) <= min(b, d))


def minus(x, y):
    return intersect(x, complement(y))


def has(rs, ch):
    return any(a <= ord(ch) <= b for a, b in rs)


def pattern_set(p, flags=0):
    """The characters a pattern matches, if it matches exactly one character each time."""
    if flags or not isinstance(p, str):
        return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = sre_parse.parse(p)
    except Exception:
        return None
    if t.state.flags & ~sc.SRE_FLAG_UNICODE or len(t.data) != 1:
        return None
    op, av = t.data[0]
    if op is sc.LITERAL:
        return ((av, av),)
    if op is sc.NOT_LITERAL:
        return complement([(av, av)])
    if op is sc.SUBPATTERN and len(av[3]) == 1:
        op, av = av[3][0]
        if op is sc.LITERAL:
            return ((av, av),)
    if op is sc.BRANCH:
        rs = []
        for x in av[1]:
            if len(x) != 1 or x[0][0] is not sc.LITERAL:
                return None
            rs.append((x[0][1], x[0][1]))
        return norm_set(rs)
    if op is not sc.IN:
        return None
    rs, neg = [], False
    for o, a in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            rs.append((a, a))
        elif o is sc.RANGE:
            rs.append(a)
        else:
            return None
    return complement(rs) if neg else norm_set(rs)


def compose(m, s, r):
    """First the rewriting m, then every character of the set s becomes r."""
    out = {}
    taken = ()
    for rs, v in m:
        taken = norm_set(taken + rs)
        out[''.join(r if has(s, c) else c for c in v)] = norm_set(out.get(''.join(r if has(s, c) else c for c in v), ()) + rs)
    rest = minus(s, taken)
    if rest:
        out[r] = norm_set(out.get(r, ()) + rest)
    # a character that becomes itself is not rewritten
    for v in list(out):
        if len(v) == 1 and has(out[v], v):
            rs = minus(out[v], ((ord(v), ord(v)),))
            if rs:
                out[v] = rs
            else:
                del out[v]
    return tuple(sorted((rs, v) for v, rs in out.items()))


def after(m, n):
    """First m, then the simultaneous rewriting n."""
    out = {}
    taken = ()

    def sub(c):
        for rs, v in n:
            if has(rs, c):
                return v
        return c
    for rs, v in m:
        taken = norm_set(taken + rs)
        w = ''.join(sub(c) for c in v)
        out[w] = norm_set(out.get(w, ()) + rs)
    for rs, v in n:
        rest = minus(rs, taken)
        if rest:
            out[v] = norm_set(out.get(v, ()) + rest)
    return compose(tuple(sorted((rs, v) for v, rs in out.items())), (), '')


def one(ch, r):
    return compose((), ((ord(ch), ord(ch)),), r)


def table(pairs):
    m = ()
    for c, r in pairs:
        m = after(m, one(c, r))
    return m


HTML = (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'))


def rewriting(fv, args, kwargs):
    """(map, text) when the call is a character-wise rewriting of a text."""
    kw = dict(kwargs)

    def const(v, *types):
        return v is not None and v[0] == 'c' and v[1] in types
    if fv[0] == 'm' and fv[2] == 'replace' and len(args) == 2 and not kw and all(const(a, 'str') for a in args):
        if len(args[0][2]) == 1:
            return one(args[0][2], args[1][2]), fv[1]
        return None
    if fv[0] == 'm' and fv[2] == 'sub' and fv[1][0] == 'call' and fv[1][1] == ('ext', 're.compile'):
        p = fv[1][2]
        if len(p) == 1 and not fv[1][3] and const(p[0], 'str') and len(args) == 2 and not kw and const(args[0], 'str'):
            s = pattern_set(p[0][2])
            if s is not None and '\\' not in args[0][2]:
                return compose((), s, args[0][2]), args[1]
        return None
    if fv == ('ext', 're.sub') and len(args) == 3 and not kw and const(args[0], 'str') and const(args[1], 'str'):
        s = pattern_set(args[0][2])
        if s is not None and '\\' not in args[1][2]:
            return compose((), s, args[1][2]), args[2]
        return None
    if fv == ('ext', 'xml.sax.saxutils.escape') and len(args) == 1 and not kw:
        return table(HTML), args[0]
    if fv == ('ext', 'html.escape'):
        q = args[1] if len(args) == 2 else kw.get('quote', ('c', 'bool', True))
        if len(args) in (1, 2) and const(q, 'bool'):
            return table(HTML + ((('"', '&quot;'), ("'", '&#x27;')) if q[2] else ())), args[0]
    return None


def computed(fv, args, kwargs):
    """(set, function, text) when the call replaces every character of a set by what a function makes of it."""
    if kwargs:
        return None
    if fv[0] == 'm' and fv[2] == 'sub' and fv[1][0] == 'call' and fv[1][1] == ('ext', 're.compile') and len(fv[1][2]) == 1 \
            and not fv[1][3]:
        args = (fv[1][2][0],) + tuple(args)
    elif fv != ('ext', 're.sub'):
        return None
    if len(args) == 3 and args[0][0] == 'c' and args[1][0] in ('f', 'm', 'partial'):
        rs = pattern_set(args[0][2])
        if rs:
            return rs, args[1], args[2]
    return None


def apply(m, text):
    out = []
    for ch in text:
        for rs, v in m:
            if has(rs, ch):
                out.append(v)
                break
        else:
            out.append(ch)
    return ''.join(out)


def plain(m):
    """Leaves numbers as they are."""
    return not any(has(rs, ch) for rs, _ in m for ch in NUMERIC)
