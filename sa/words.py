"""Bytes and texts spelled out of constant characters and words over known character sets.

A *word* is a symbol that stands for any non-empty sequence of characters of one set (or for any single character of it).  A value
is *spelled* when it is a constant, a word, or a concatenation of such.  Scanning (searching with a regular expression, slicing at a
boundary, taking apart, comparing) is decided on spelled values from the sets alone, for all values of the words at once; where the
sets do not settle a question the answer is left open (Unsure).
"""
import re
import warnings

from . import chars
from .chars import intersect, minus, norm_set
from .terms import C, frozen, is_num_c, is_str_c, padd, poly, unpoly

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_constants as sc
    import sre_parse


class Unsure(Exception):
    """The sets do not settle it."""


def R(text):
    return norm_set((ord(ch), ord(ch)) for ch in text)


DIGIT = ((48, 57),)
SPACE = norm_set(((9, 13), (32, 32)))       # what \s and isspace() mean for bytes
ALPHA = norm_set(((65, 90), (97, 122)))
WORDCH = norm_set(DIGIT + ALPHA + ((95, 95),))
HEX = norm_set(DIGIT + ((65, 70), (97, 102)))
BYTE = ((0, 255),)
ASCII = ((0, 127),)
DELIM = R('()<>[]{}/%')
PDFSPACE = R('\0\t\n\f\r ')
# characters of names: neither white space (in either sense) nor delimiters nor the escape
REGULAR = minus(minus(minus(((1, 126),), SPACE), DELIM), R('#'))

KINDS = {
    'digits': (DIGIT, False), 'digit': (DIGIT, True),
    'octal': (((48, 55),), True), 'octals': (((48, 55),), False), 'low': (((48, 51),), True),
    'hexdigit': (HEX, True), 'hexdigits': (HEX, False),
    'hexletter': (norm_set(((65, 70), (97, 102))), True),
    'space': (SPACE, True), 'spaces': (SPACE, False),
    'letter': (minus(ALPHA, R('tfRn')), True), 'letters': (ALPHA, False), 'capitals': (((65, 90),), False), 'capital': (((65, 90),), True),
    'regular': (REGULAR, False), 'regulars': (REGULAR, True),
    'delimiter': (DELIM, True),
    'inline': (minus(BYTE, R('\r\n')), False),          # up to the end of the line
    'inlines': (minus(BYTE, R('\r\n')), True),
    'blank': (R(' \t'), False),
    'inside': (minus(BYTE, R('()\\')), False),          # within a string, without anything special
    'insides': (minus(BYTE, R('()\\\r\n')), True),
    'plainch': (minus(BYTE, R('()\\nrtbf01234567\r\n')), True),
    'anybyte': (BYTE, True), 'anybytes': (BYTE, False),
    'base85': (((33, 117),), True),
    'noendword': (minus(BYTE, R('e')), False),
    'noE': (minus(BYTE, R('E')), False),
}

# values made of two words, whose first character is known apart
PAIRS = {'number': ('digit', 'digits'), 'word': ('letter', 'regular'), 'capword': ('capital', 'capitals')}


class Item:
    __slots__ = ('term', 'set', 'single', 'code')

    def __init__(self, term, rs, single, code=None):
        self.term, self.set, self.single, self.code = term, rs, single, code

    def same(self, o):
        return self.code == o.code if self.code is not None or o.code is not None else self.term == o.term


def known(code):
    return Item(None, ((code, code),), True, code)


def kind_of(E, v):
    """(set, single) of a word, or None."""
    k = E.kinds.get(v)
    if k is not None:
        return k
    if is_word_text(v):
        return kind_of(E, v[1][1])
    if v[0] == 'call' and v[1] == ('bi', 'bytes') and len(v[2]) == 1 and v[2][0][0] == 't' and len(v[2][0][1]) == 1:
        n = top(E, v[2][0][1][0])
        return (((0, 255 if n is None else n),), True)
    return None


def is_word_text(v):
    return v[0] == 'call' and v[1][0] == 'm' and v[1][2] == 'decode' and not v[2]


def spelled(E, v):
    """The characters of a value and its type, or None."""
    if is_str_c(v):
        return [known(x if v[1] == 'bytes' else ord(x)) for x in v[2]], v[1]
    if v[0] == 'cat':
        out, ty = [], None
        for p in v[1]:
            r = spelled(E, p)
            if r is None or ty not in (None, r[1]):
                return None
            out.extend(r[0])
            ty = r[1]
        return None if ty is None else (out, ty)
    if not E.kinds:
        return None
    k = kind_of(E, v)
    if k is None:
        return None
    return [Item(v, k[0], k[1])], 'str' if is_word_text(v) else 'bytes'


def build(E, items, ty):
    parts, run = [], []

    def flush():
        if run:
            parts.append(C(bytes(run) if ty == 'bytes' else ''.join(map(chr, run))))
            run.clear()
    for x in items:
        if x.code is not None:
            run.append(x.code)
        else:
            flush()
            parts.append(x.term)
    flush()
    if not parts:
        return C(b'' if ty == 'bytes' else '')
    return parts[0] if len(parts) == 1 else ('cat', tuple(parts))


def length(items):
    """Number of characters as a polynomial."""
    p, n = {}, 0
    for x in items:
        if x.single:
            n += 1
        else:
            p = padd(p, {((base_len(x.term), 1),): 1})
    return padd(p, {(): n}) if n else p


def base_len(term):
    if is_word_text(term):
        term = term[1][1]
    return ('call', ('bi', 'len'), (term,), ())


def bounds(E, d):
    """Lowest and highest value of a polynomial in lengths of words (None: no bound or not such a polynomial)."""
    lo = hi = 0
    for m, c in d.items():
        if m == ():
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None, None
        r = extent(E, m[0][0])
        if r is None:
            return None, None
        least, most = r if c > 0 else (r[1], r[0])
        lo = None if lo is None or least is None else lo + c * least
        hi = None if hi is None or most is None else hi + c * most
    return lo, hi


def extent(E, a):
    """Lowest and highest value (None: no bound) of the length of a word, or of the number it is."""
    if a[0] == 'call' and a[1] == ('bi', 'len') and len(a[2]) == 1:
        return None if E.kinds.get(a[2][0]) is None else (1, None)
    if a[0] == 'item' and a[2] == C(0) and E.kinds.get(a[1]) is not None:
        rs = E.kinds[a[1]][0]
        return rs[0][0], rs[-1][1]
    if a[0] == 'call' and a[1] == ('bi', 'int') and a[2]:
        r = spelled(E, a[2][0])
        base = a[2][1][2] if len(a[2]) > 1 and is_num_c(a[2][1]) else 10
        if r is None or any(minus(y.set, HEX if base == 16 else DIGIT) for y in r[0]):
            return None
        lo = 0
        for y in r[0]:
            lo = lo * base + min(int(chr(c), 36) for c, b in intersect(y.set, HEX))
        return lo, top(E, a)
    if a[0] == 'op' and a[1] == '%' and is_num_c(a[3]) and a[3][2] > 0:
        return 0, a[3][2] - 1
    if a[0] == 'op' and a[1] == '//' and is_num_c(a[3]) and a[3][2] > 0:
        lo, hi = bounds(E, poly(a[2]))
        return None if lo is None and hi is None else tuple(None if x is None else x // a[3][2] for x in (lo, hi))
    if a[0] == 'call' and a[1] == ('bi', 'abs') and len(a[2]) == 1:
        lo, hi = bounds(E, poly(a[2][0]))
        return 0, None if lo is None or hi is None else max(abs(lo), abs(hi))
    return None


def whole(E, x):
    """Is it a sum of whole numbers?"""
    return all(c == int(c) and (k == () or len(k) == 1 and k[0][1] == 1 and extent(E, k[0][0]) is not None) for k, c in poly(x).items())


def modulo(E, x, m):
    """What is left of a sum of whole numbers divided by m."""
    d, again = poly(x), True
    while again:
        again = False
        for k, c in d.items():
            if k != () and (len(k) != 1 or k[0][1] != 1 or extent(E, k[0][0]) is None) or c != int(c):
                return None
            a = k[0][0] if k else None
            if a is not None and a[0] == 'op' and a[1] == '%' and a[3][2] % m == 0:
                d = padd(padd(d, {k: c}, -1), {j: e * c for j, e in poly(a[2]).items()})
                again = True
                break
    lo, hi = bounds(E, d)
    if lo is not None and hi is not None and 0 <= lo and hi < m:
        return unpoly(d)
    d = {k: int(c) % m for k, c in d.items() if int(c) % m}
    return unpoly(d) if set(d) <= {()} else ('op', '%', unpoly(d), C(m))


def at(E, items, t, end=False):
    """The place in the characters that an offset means; beyond the end counts as the end."""
    try:
        p = poly(t)
    except Exception:
        raise Unsure
    total = length(items)
    if set(p) <= {()} and p.get((), 0) < 0:
        n = int(-p[()])
        if n > len(items):
            if all(x.single for x in items):
                return 0
            raise Unsure
        if all(x.single for x in items[len(items) - n:]):
            return len(items) - n
        raise Unsure
    q = {}
    for i in range(len(items) + 1):
        if not padd(p, q, -1):
            return i
        if i < len(items):
            q = padd(q, length(items[i:i + 1]))
    lo, hi = bounds(E, padd(p, total, -1))
    if lo is not None and lo >= 0:
        return len(items)
    raise Unsure


def offset(items, i):
    return unpoly(length(items[:i]))


def test(x, rs):
    """Is every / no character of an item in the set?"""
    i = intersect(x.set, rs)
    if not i:
        return False
    if i == norm_set(x.set):
        return True
    raise Unsure


# ---- regular expressions -----------------------------------------------------
CATS = {sc.CATEGORY_DIGIT: DIGIT, sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_WORD: WORDCH}
NOTCATS = {sc.CATEGORY_NOT_DIGIT: DIGIT, sc.CATEGORY_NOT_SPACE: SPACE, sc.CATEGORY_NOT_WORD: WORDCH}


def complement(rs):
    return minus(BYTE, rs)


def both_cases(rs):
    """The characters and those they only differ from in case."""
    return norm_set(list(rs) + [(c ^ 32, c ^ 32) for a, b in intersect(rs, ALPHA) for c in range(a, b + 1)])


def flags(x):
    """The value of flags of a regular expression."""
    if is_num_c(x):
        return x[2]
    if x[0] == 'ext' and x[1].startswith('re.') and isinstance(getattr(re, x[1][3:], None), re.RegexFlag):
        return int(getattr(re, x[1][3:]))
    if x[0] == 'op' and x[1] == '|':
        return flags(x[2]) | flags(x[3])
    raise Unsure


def class_of(op, av, flags):
    alike = both_cases if flags & sc.SRE_FLAG_IGNORECASE else lambda rs: rs
    if op is sc.LITERAL:
        return alike(((av, av),))
    if op is sc.NOT_LITERAL:
        return complement(alike(((av, av),)))
    if op is sc.ANY:
        return BYTE if flags & sc.SRE_FLAG_DOTALL else complement(R('\n'))
    if op is sc.IN:
        rs, neg = [], False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                rs.append((a, a))
            elif o is sc.RANGE:
                rs.append(a)
            elif o is sc.CATEGORY and a in CATS:
                rs.extend(CATS[a])
            elif o is sc.CATEGORY and a in NOTCATS:
                rs.extend(complement(NOTCATS[a]))
            else:
                raise Unsure
        return complement(alike(norm_set(rs))) if neg else alike(norm_set(rs))
    return None


class Matcher:
    def __init__(self, pattern, flags=0):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.t = sre_parse.parse(pattern, flags)
        except Exception:
            raise Unsure
        self.flags = self.t.state.flags
        if self.flags & sc.SRE_FLAG_IGNORECASE and isinstance(pattern, str) or self.flags & sc.SRE_FLAG_LOCALE:
            raise Unsure
        self.ngroups = self.t.state.groups

    def match(self, items, i, full=False):
        """Groups of the match at a place, or None."""
        self.items = items
        done = (lambda j, g: dict(g, **{'e': j}) if not full or j == len(items) else None)
        return self.seq(list(self.t), i, {}, done)

    def seq(self, nodes, i, g, k):
        if not nodes:
            return k(i, g)
        (op, av), rest = nodes[0], nodes[1:]
        items = self.items

        def go(j, h):
            return self.seq(rest, j, h, k)
        c = class_of(op, av, self.flags)
        if c is not None:
            if i >= len(items) or not test(items[i], c):
                return None
            if items[i].single:
                return go(i + 1, g)
            # one character of a longer word: what is left of it cannot be told apart from none being left
            raise Unsure
        if op is sc.SUBPATTERN:
            num, add, drop, body = av
            if add or drop:
                raise Unsure
            return self.seq(list(body), i, g, lambda j, h: go(j, dict(h, **{str(num): (i, j)}) if num is not None else h))
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), i, g, go)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            body = list(body)
            c = class_of(body[0][0], body[0][1], self.flags) if len(body) == 1 else None
            if op is sc.MIN_REPEAT or c is None:
                if all(x.single for x in items[i:]) and op is sc.MAX_REPEAT:
                    return self.many(body, lo, hi, i, g, go, 0)
                raise Unsure
            # take all that belongs to the class, then give back
            ends, j, n = [i], i, 0
            while j < len(items) and (hi is sc.MAXREPEAT or n < hi):
                if not test(items[j], c):
                    break
                if not items[j].single and hi is not sc.MAXREPEAT:
                    raise Unsure
                j += 1
                n += 1
                ends.append(j)
            for m in range(len(ends) - 1, -1, -1):
                if m >= lo:
                    r = go(ends[m], g)
                    if r is not None:
                        return r
                if m > 0 and not items[ends[m] - 1].single:
                    # within the word: as at its beginning, with less of it left
                    if m < lo:
                        continue
                    if go(ends[m - 1], g) is not None:
                        raise Unsure
            if lo > len(ends) - 1 and any(not x.single for x in items[i:j]):
                raise Unsure
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if av is sc.AT_BEGINNING and self.flags & sc.SRE_FLAG_MULTILINE:
                    raise Unsure
                return go(i, g) if i == 0 else None
            if av is sc.AT_END_STRING:
                return go(i, g) if i == len(items) else None
            if av is sc.AT_END:
                if self.flags & sc.SRE_FLAG_MULTILINE:
                    raise Unsure
                ok = i == len(items) or i == len(items) - 1 and items[i].single and test(items[i], R('\n'))
                return go(i, g) if ok else None
            if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and test(items[i - 1], WORDCH)
                b = i < len(items) and test(items[i], WORDCH)
                return go(i, g) if (a != b) == (av is sc.AT_BOUNDARY) else None
            raise Unsure
        if op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] == 1:
            r = self.seq(list(av[1]), i, g, lambda j, h: h)
            return go(i, g) if (r is not None) == (op is sc.ASSERT) else None
        raise Unsure

    def many(self, body, lo, hi, i, g, k, n):
        if hi is sc.MAXREPEAT or n < hi:
            r = self.seq(body, i, g, lambda j, h: self.many(body, lo, hi, j, h, k, n + 1) if j > i else None)
            if r is not None:
                return r
        return k(i, g) if n >= lo else None

    def reach(self):
        """How far before the end a match can start at most, or None."""
        t = list(self.t)
        if not t or t[-1][0] is not sc.AT or t[-1][1] not in (sc.AT_END, sc.AT_END_STRING) or self.flags & sc.SRE_FLAG_MULTILINE:
            return None
        w = self.t.getwidth()[1]
        return w + (t[-1][1] is sc.AT_END) if w < 1000 else None

    def search(self, items, start):
        far = self.reach()
        for i in range(start, len(items) + 1):
            if far is not None and sum(x.single for x in items[i + 1:]) + 1 > far and i < len(items):
                continue
            r = self.match(items, i)
            if r is not None:
                return dict(r, **{'0': (i, r['e'])})
        return None


def found(items, ty, v, m, groups):
    """The match as a value."""
    gs = []
    for n in range(groups):
        p = m.get(str(n))
        gs.append(None if p is None else p)
    return gs


def find(items, sub, start, stop=None, back=False):
    """Place of the first (last) occurrence of a constant in the characters, or None."""
    n = len(sub)
    stop = len(items) if stop is None else stop
    rng = range(start, stop - n + 1)
    for i in (reversed(rng) if back else rng):
        ok = True
        for x, c in zip(items[i:i + n], sub):
            if not test(x, c.set if c.code is not None else c.set):
                ok = False
                break
            if not x.single or c.code is None:
                raise Unsure
        if ok:
            return i
    # an occurrence that begins within a longer word
    for x in items[start:stop]:
        if not x.single and sub:
            raise_if_possible(items, x, sub)
    return None


def raise_if_possible(items, x, sub):
    """An occurrence would have to use some character of the word x."""
    if any(intersect(x.set, c.set) for c in sub):
        raise Unsure


def equal(a, b):
    """True, False or None (open)."""
    if len(a) == len(b) and all(x.same(y) for x, y in zip(a, b)):
        return True
    fa, fb = all(x.single for x in a), all(x.single for x in b)
    if fa and fb and len(a) != len(b) or fa and len(b) > len(a) or fb and len(a) > len(b):
        return False
    for p, q in ((a, b), (a[::-1], b[::-1])):
        for x, y in zip(p, q):
            if not intersect(x.set, y.set):
                return False
            if not (x.single and y.single) and not x.same(y):
                break
    if not a or not b:
        return False        # (one is empty, the other has at least one character)
    return None


def pieces(items, sep):
    """split(sep)"""
    out, i = [], 0
    while 1:
        j = find(items, sep, i)
        if j is None:
            out.append(items[i:])
            return out
        out.append(items[i:j])
        i = j + len(sep)


def blanks(items):
    """split()"""
    out, cur = [], []
    for x in items:
        if test(x, SPACE):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def strip(items, rs, left, right):
    i, j = 0, len(items)
    while left and i < j and test(items[i], rs):
        i += 1
    while right and j > i and test(items[j - 1], rs):
        j -= 1
    return items[i:j]


INT = {10: br'[+-]?[0-9]+', 16: br'[+-]?[0-9a-fA-F]+', 8: br'[+-]?[0-7]+', 2: br'[+-]?[01]+'}
FLOAT = br'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?'
NUMERIC = R('0123456789+-.eE_infatyINFATYx \t\n\r\f\v')
INTCH = {10: R('0123456789+-_ \t\n\r\f\v'), 16: norm_set(HEX + R('+-_xX \t\n\r\f\v')), 8: R('01234567+-_oO \t\n\r\f\v')}


def numeral(items, base):
    """Is it the numeral of an integer (base) or of a decimal fraction (None)?"""
    if not items:
        return False
    allowed = NUMERIC if base is None else INTCH.get(base)
    if allowed is not None and any(not intersect(x.set, allowed) for x in items):
        return False
    try:
        if Matcher(FLOAT if base is None else INT[base]).match(items, 0, full=True) is not None:
            return True
        if base == 10 and not any(chars.intersect(x.set, R('_ \t\n\r\f\v')) for x in items):
            return False
    except (Unsure, KeyError):
        pass
    raise Unsure


# ---- operations of the language ------------------------------------------------
def match_value(E, items, ty, v, m, ngroups):
    gs = []
    for n in range(ngroups):
        p = m.get(str(n))
        gs.append(C(None) if p is None else ('t', (offset(items, p[0]), offset(items, p[1]), build(E, items[p[0]:p[1]], ty))))
    return ('match', v, tuple(gs))


def regex(E, pattern, flags, name, args, st, fr, node):
    """search/match/fullmatch/sub of a constant pattern over spelled characters."""
    n = 1 if name == 'sub' else 0
    if len(args) <= n:
        return None
    v = E.canon(args[n], st)
    r = spelled(E, v)
    if r is None or pattern[1] != r[1]:
        return None
    items, ty = r
    M = Matcher(pattern[2], flags)
    if name == 'sub':
        return None if len(args) != 2 else substituted(E, M, args[0], items, ty, st, fr, node)
    if name in ('findall', 'finditer'):
        if len(args) != 1:
            return None
        out, i = [], 0
        while i <= len(items):
            m = M.search(items, i)
            if m is None:
                break
            if m['0'][0] == m['0'][1]:
                raise Unsure
            x = match_value(E, items, ty, v, m, M.ngroups)
            if name == 'findall':
                n = M.ngroups - 1
                x = match_method(E, x, 'group', [C(min(n, 1))] if n < 2 else [C(k + 1) for k in range(n)], st)
                if x is None or x == C(None) or x[0] == 't' and any(y == C(None) for y in x[1]):
                    raise Unsure
            out.append(x)
            i = m['0'][1]
        return [(E.new_list(st, tuple(('e', x) for x in out)), st)]
    start = 0
    if len(args) == 2:
        start = at(E, items, E.canon(args[1], st))
    elif len(args) > 2:
        return None
    if name == 'search':
        m = M.search(items, start)
    else:
        if start and any(o is sc.AT for o, _ in M.t):
            raise Unsure
        m = M.match(items, start, full=name == 'fullmatch')
        if m is not None:
            m = dict(m, **{'0': (start, m['e'])})
    return [(C(None) if m is None else match_value(E, items, ty, v, m, M.ngroups), st)]


def less(E, a, b):
    """a < b for spelled values, or None."""
    x, y = spelled(E, a), spelled(E, b)
    if x is None or y is None or x[1] != y[1]:
        return None
    seen = set()
    for p, q in zip(x[0], y[0]):
        if p.same(q):
            continue
        if p.set[0][0] < q.set[-1][1]:
            seen.add(True)
        if p.set[-1][1] > q.set[0][0]:
            seen.add(False)
        if not intersect(p.set, q.set):
            break
        if not (p.single and q.single):
            raise Unsure
    else:
        if len(x[0]) != len(y[0]) or all(p.single or p.same(q) for p, q in zip(x[0], y[0])):
            seen.add(len(x[0]) < len(y[0]))
    if len(seen) != 1:
        raise Unsure
    return seen.pop()


def substituted(E, M, repl, items, ty, st, fr, node):
    if is_str_c(repl):
        if (b'\\' if ty == 'bytes' else '\\') in repl[2]:
            return None
    elif repl[0] not in ('f', 'm', 'partial'):
        return None
    out, i = [], 0
    v = build(E, items, ty)
    parts = []
    while i <= len(items):
        m = M.search(items, i)
        if m is None:
            break
        a, b = m['0']
        if a == b:
            raise Unsure
        parts.append(build(E, items[i:a], ty))
        if is_str_c(repl):
            parts.append(repl)
        else:
            outs = E.call(repl, [match_value(E, items, ty, v, m, M.ngroups)], [], st, fr, node)
            if len(outs) != 1 or not isinstance(outs[0][0], tuple):
                raise Unsure
            x, st = outs[0]
            parts.append(E.canon(x, st))
        i = b
    parts.append(build(E, items[i:], ty))
    return [(E.fold_cat(('cat', tuple(parts))), st)]


def match_method(E, b, name, args, st):
    def num(x, d=0):
        if x is None:
            return d
        if not (is_num_c(x) and isinstance(x[2], int) and 0 <= x[2] < len(b[2])):
            raise Unsure
        return x[2]
    if name in ('start', 'end', 'span') and len(args) < 2:
        g = b[2][num(args[0] if args else None)]
        if g == C(None):
            return ('t', (C(-1), C(-1))) if name == 'span' else C(-1)
        return {'start': g[1][0], 'end': g[1][1], 'span': ('t', g[1][:2])}[name] if g[0] == 't' else None
    if name == 'group':
        xs = [b[2][num(x)] for x in (args or [C(0)])]
        xs = [x if x == C(None) else x[1][2] for x in xs]
        return xs[0] if len(xs) == 1 else ('t', tuple(xs))
    if name == 'groups' and not args:
        return ('t', tuple(x if x == C(None) else x[1][2] for x in b[2][1:]))
    return None


def method(E, v, name, args, st):
    """A method of spelled characters: a value, a list of values, or None."""
    r = spelled(E, v)
    if r is None:
        return None
    items, ty = r
    cargs = [E.canon(a, st) for a in args]
    if name in ('isdigit', 'isalpha', 'isspace', 'isalnum') and not args:
        if not items:
            return C(False)
        rs = {'isdigit': DIGIT, 'isalpha': ALPHA, 'isspace': SPACE, 'isalnum': norm_set(DIGIT + ALPHA)}[name]
        if ty == 'str' and any(not x.set or x.set[-1][1] > 127 for x in items):
            return None
        if any(not intersect(x.set, rs) for x in items):
            return C(False)
        return C(all(test(x, rs) for x in items))
    if name in ('strip', 'lstrip', 'rstrip') and len(args) < 2:
        rs = SPACE
        if args and cargs[0] != C(None):
            if not is_str_c(cargs[0]):
                return None
            rs = norm_set((x.code, x.code) for x in spelled(E, cargs[0])[0])
        elif ty == 'str' and any(x.set and x.set[-1][1] > 127 for x in items):
            return None
        return build(E, strip(items, rs, name != 'rstrip', name != 'lstrip'), ty)
    if name == 'split' and len(args) < 2:
        if not args or cargs[0] == C(None):
            return [build(E, x, ty) for x in blanks(items)]
        s = spelled(E, cargs[0])
        if s is None or not s[0] or s[1] != ty:
            return None
        return [build(E, x, ty) for x in pieces(items, s[0])]
    if name == 'startswith' and len(args) == 2:
        items = items[at(E, items, cargs[1]):]
    if name in ('startswith', 'endswith') and (len(args) == 1 or name == 'startswith' and len(args) == 2):
        if cargs[0][0] == 't':
            rs = [method(E, b, name, [x] + list(args[1:]), st) for x in cargs[0][1]]
            return None if None in rs else C(C(True) in rs)
        s = spelled(E, cargs[0])
        if s is None or s[1] != ty:
            return None
        n = len(s[0])
        a = items[:n] if name == 'startswith' else items[len(items) - n:] if n <= len(items) else items
        q = s[0]
        for x, y in zip(a, q) if name == 'startswith' else zip(a[::-1], q[::-1]):
            if not intersect(x.set, y.set):
                return C(False)
            if not x.same(y):
                raise Unsure
        if len(a) < n:
            return C(False) if all(x.single for x in items) else None
        return C(True)
    if name in ('find', 'rfind', 'index', 'rindex') and 1 <= len(args) <= 3:
        s = cargs[0]
        if is_num_c(s) and ty == 'bytes' and 0 <= s[2] < 256:
            s = C(bytes([s[2]]))
        q = spelled(E, s)
        if q is None or q[1] != ty:
            return None
        i = at(E, items, cargs[1]) if len(args) > 1 and cargs[1] != C(None) else 0
        j = at(E, items, cargs[2]) if len(args) > 2 and cargs[2] != C(None) else None
        k = find(items, q[0], i, j, back=name[0] == 'r')
        if k is None:
            return C(-1) if name.endswith('find') else ('exc', 'ValueError', ())
        return offset(items, k)
    if name in ('partition', 'rpartition') and len(args) == 1:
        q = spelled(E, cargs[0])
        if q is None or q[1] != ty or not q[0]:
            return None
        k = find(items, q[0], 0, back=name[0] == 'r')
        e = C(b'' if ty == 'bytes' else '')
        if k is None:
            return ('t', (v, e, e) if name == 'partition' else (e, e, v))
        return ('t', (build(E, items[:k], ty), cargs[0], build(E, items[k + len(q[0]):], ty)))
    if name == 'replace' and len(args) == 2:
        q, w = spelled(E, cargs[0]), spelled(E, cargs[1])
        if q is None or w is None or not q[0]:
            return None
        out = []
        for n, p in enumerate(pieces(items, q[0])):
            out.extend((w[0] if n else []) + p)
        return build(E, out, ty)
    if name == 'decode' and ty == 'bytes':
        codec = E.codec_of(args[:1], [])
        if codec is None or codec[0] != 'c':
            return None
        return decoded(E, items, codec[2])
    if name == 'encode' and ty == 'str':
        codec = E.codec_of(args[:1], [])
        if codec is None or codec[0] != 'c' or any(x.set and x.set[-1][1] > 127 for x in items):
            return None
        return build(E, [Item(x.term[1][1], x.set, x.single) if x.code is None else x for x in items], 'bytes')
    if name in ('upper', 'lower') and all(x.code is not None for x in items):
        return None
    return None


LATIN = ('latin-1', 'latin1', 'iso-8859-1')


def decoded(E, items, codec):
    """The text that bytes stand for."""
    plain = codec in ('ascii', 'utf-8') + LATIN
    if not plain:
        return None
    top = max([x.set[-1][1] for x in items if x.set] or [0])
    if top > 127:
        if codec not in LATIN:
            if all(x.code is not None for x in items):
                try:
                    return C(bytes(x.code for x in items).decode(codec))
                except UnicodeDecodeError:
                    return ('exc', 'UnicodeDecodeError', ())
            return None
        if any(x.code is None and x.set[-1][1] > 127 for x in items):
            return None
    out = []
    for x in items:
        out.append(x if x.code is not None else Item(('call', ('m', x.term, 'decode'), (), ()), x.set, x.single))
    return build(E, out, 'str')


def undecoded(E, v):
    """The numeral of a decoded text is that of its bytes."""
    r = spelled(E, v)
    if r is None or r[1] != 'str':
        return v
    return build(E, [Item(x.term[1][1], x.set, x.single) if x.code is None else x for x in r[0]], 'bytes')


def number(E, v, base):
    """int(v, base) (base None: float) of spelled characters: a value, an exception, or None."""
    r = spelled(E, v)
    if r is None:
        return None
    items, ty = r
    if all(x.code is not None for x in items):
        return None
    if not numeral(items, base):
        return ('exc', 'ValueError', ())
    if items[0].code in (43, 45) and len(items) > 1:
        x = number(E, build(E, items[1:], ty), base)
        if x is None:
            digits = ''.join(chr(y.code) for y in items[1:])
            x = C(float(digits) if base is None else int(digits, base))
        return x if items[0].code == 43 else unpoly(padd({}, poly(x), -1))
    v = undecoded(E, v)
    if base is None:
        return ('call', ('bi', 'float'), (v,), ())
    return ('call', ('bi', 'int'), (v,) if base == 10 else (v, C(base)), ())


def sliced(E, v, lo, hi):
    r = spelled(E, v)
    if r is None:
        return None
    items, ty = r
    i = 0 if lo == C(None) else at(E, items, lo)
    j = len(items) if hi == C(None) else at(E, items, hi)
    return build(E, items[i:j], ty)


def item(E, v, i):
    """v[i]: a number (bytes) or a character."""
    r = spelled(E, v)
    if r is None:
        return None
    items, ty = r
    k = at(E, items, i)
    if k >= len(items):
        return ('exc', 'IndexError', ())
    x = items[k]
    if ty != 'bytes':
        return build(E, [x], ty) if x.single else None
    if x.code is not None:
        return C(x.code)
    if not x.single:
        return None
    if x.term[0] == 'call' and x.term[1] == ('bi', 'bytes'):
        return x.term[2][0][1][0]
    return ('item', x.term, C(0))


def characters(E, v):
    """The single characters, if that is what a value consists of: numbers (bytes) or texts."""
    r = spelled(E, v)
    if r is None or len(r[0]) > 128 or not all(x.single for x in r[0]):
        return None
    return [item(E, v, C(i)) for i in range(len(r[0]))]


def big_endian(E, v, items, ty, i, n, order):
    p = {}
    for j in range(n):
        k = i + j if order == 'big' else i + n - 1 - j
        x = item(E, build(E, items[k:k + 1], ty), C(0))
        p = padd(dict((m, c * 256) for m, c in p.items()), poly(x))
    return unpoly(p)


def unpacked(E, fmt, v):
    """struct.unpack of unsigned numbers."""
    r = spelled(E, v)
    if r is None or r[1] != 'bytes':
        return None
    if not all(x.single for x in r[0]):
        raise Unsure
    f = fmt.decode() if isinstance(fmt, bytes) else fmt
    order = 'big'
    if f[:1] in '><!=':
        order = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    elif f.strip('B'):
        return None
    size = {'B': 1, 'H': 2, 'L': 4, 'I': 4, 'Q': 8}
    if not f or any(c not in size for c in f):
        return None
    if sum(size[c] for c in f) != len(r[0]):
        return ('exc', 'struct.error', ())
    out, i = [], 0
    for c in f:
        out.append(big_endian(E, v, r[0], r[1], i, size[c], order))
        i += size[c]
    return ('t', tuple(out))


def from_bytes(E, v, order):
    r = spelled(E, v)
    if r is None or r[1] != 'bytes':
        return None
    if not all(x.single for x in r[0]):
        raise Unsure
    return big_endian(E, v, r[0], r[1], 0, len(r[0]), order)


def contains(E, a, b):
    """a in b for texts."""
    x, y = spelled(E, a), spelled(E, b)
    if y is None:
        return None
    if x is None:
        if is_num_c(a) and y[1] == 'bytes' and 0 <= a[2] < 256:
            x = [known(a[2])], 'bytes'
        elif a[0] == 'item' and a[2] == C(0) and y[1] == 'bytes' and E.kinds.get(a[1], (0, False))[1]:
            x = spelled(E, a[1])
        else:
            return None
    if x[1] != y[1]:
        return None
    if not x[0]:
        return True
    if len(x[0]) == 1 and x[0][0].single and all(c.code is not None for c in y[0]):
        return test(x[0][0], norm_set((c.code, c.code) for c in y[0]))
    if any(c.code is None for c in x[0]):
        if not any(intersect(x[0][0].set, c.set) for c in y[0]):
            return False
        for i in range(len(y[0]) - len(x[0]) + 1):
            if equal(x[0], y[0][i:i + len(x[0])]):
                return True
        raise Unsure
    return find(y[0], x[0], 0) is not None


def same_text(E, a, b):
    """Equality of two spelled values: True, False or None."""
    for p, q in ((a, b), (b, a)):
        k = E.kinds.get(p[1]) if p[0] == 'item' and p[2] == C(0) else None
        if k is not None and k[1] and is_num_c(q):
            try:
                return test(Item(p[1], k[0], True), ((q[2], q[2]),))
            except Unsure:
                return None
    x, y = spelled(E, a), spelled(E, b)
    if x is None or y is None:
        return None
    if x[1] != y[1]:
        return False
    return equal(x[0], y[0])


def top(E, x):
    """Upper bound of a number that is not negative, or None."""
    if is_num_c(x):
        return x[2] if isinstance(x[2], int) and x[2] >= 0 else None
    if x[0] == 'item' and x[2] == C(0) and E.kinds.get(x[1]) is not None:
        return E.kinds[x[1]][0][-1][1]
    if x[0] in ('op', 'poly'):
        lo, hi = bounds(E, poly(x))
        return hi if lo is not None and lo >= 0 else None
    if x[0] == 'call' and x[1] == ('bi', 'int') and x[2]:
        r = spelled(E, x[2][0])
        base = x[2][1][2] if len(x[2]) > 1 and is_num_c(x[2][1]) else 10
        if r is None or not all(y.single for y in r[0]) or any(intersect(y.set, R('-')) for y in r[0]):
            return None
        n = 0
        for y in r[0]:
            n = n * base + max(int(chr(c), 36) for a, b in intersect(y.set, WORDCH) for c in range(a, b + 1) if chr(c).isalnum())
        return n
    return None


def byte_of(E, x):
    """The single byte of a number, when it is one for sure."""
    if is_num_c(x):
        return C(bytes([x[2]])) if isinstance(x[2], int) and 0 <= x[2] < 256 else None
    if x[0] == 'item' and x[2] == C(0) and E.kinds.get(x[1], (0, False))[1]:
        return x[1]
    n = top(E, x)
    if n is None or n > 255:
        return None
    return ('call', ('bi', 'bytes'), (('t', (x,)),), ())
