"""Tokens: what is written, wherever the portions that are read happen to end."""
from pdfmajor.utils import int2byte

WHITE = (b' ', b'\n', b'\r', b'\t', b'\x0c', b'\0', b'\r\n', b'% note\n')
OPEN = ((b'[', b'['), (b']', b']'), (b'{', b'{'), (b'}', b'}'), (b'<<', b'<<'), (b'>>', b'>>'))


def name(a):
    return LIT(str(a, 'utf-8'))


def code_name(a: regular, b: regular, c: regulars):
    """A name goes up to the next white space or delimiter; its position is that of its slash."""
    return tokens(b'/' + a + b' /' + b + b'/' + c + b'\n')


def ref_name(a: regular, b: regular, c: regulars):
    return [(0, name(a)), (2 + len(a), name(b)), (3 + len(a) + len(b), name(c))]


def code_name_split(a: regular, b: regular, c: regular):
    """A name that several portions are needed for is one name."""
    return tokens(b'  /' + a, b, c + b' /', b + b' ')


def ref_name_split(a: regular, b: regular, c: regular):
    return [(2, name(a + b + c)), (4 + len(a) + len(b) + len(c), name(b))]


def code_name_white(a: regular):
    """Every kind of white space and a comment end a name."""
    return [tokens(b'/' + a + w + b'true ') for w in WHITE]


def ref_name_white(a: regular):
    return [[(0, name(a)), (1 + len(a) + len(w), True)] for w in WHITE]


def code_name_delimited(a: regular):
    """Delimiters end a name and are tokens of their own."""
    return [tokens(b'/' + a + s + b' ') for s, k in OPEN]


def ref_name_delimited(a: regular):
    return [[(0, name(a)), (1 + len(a), KWD(k))] for s, k in OPEN]


def code_name_string(a: regular, b: inside, h: hexdigit):
    """Strings may follow a name immediately."""
    return [tokens(b'/' + a + b'(' + b + b')/' + a + b'<' + h + h + b'>/' + a + b' ')]


def ref_name_string(a: regular, b: inside, h: hexdigit):
    n = 1 + len(a)
    return [[(0, name(a)), (n, b), (n + 2 + len(b), name(a)), (2 * n + 2 + len(b), int2byte(int(h + h, 16))),
             (2 * n + 6 + len(b), name(a))]]


def code_name_escape(a: regular, b: regular, h: hexdigit, i: hexdigit):
    """Number sign and two digits in a name stand for the character with that code, digits after them for themselves."""
    return tokens(b'/' + a + b'#4' + h + b'.' + b + b' /#41#20#2f7 /A#23B /#7' + i + h + b' ')


def ref_name_escape(a: regular, b: regular, h: hexdigit, i: hexdigit):
    k = len(a) + len(b) + 6
    return [(0, LIT(str(a + int2byte(int(b'4' + h, 16)) + b'.' + b, 'utf-8'))), (k, LIT('A /7')), (k + 12, LIT('A#B')),
            (k + 19, LIT(str(int2byte(int(b'7' + i, 16)) + h, 'utf-8')))]


def code_name_escape_split(a: regular):
    """An escape in a name may be divided anywhere."""
    return [tokens(b'/' + a, b'#41 '), tokens(b'/' + a + b'#', b'41 '), tokens(b'/' + a + b'#4', b'1 '),
            tokens(b'/' + a + b'#41', b' '), tokens(b'/' + a + b'#41', b'4 '), tokens(b'/' + a, b'#', b'4', b'1', b'1', b'/B ')]


def ref_name_escape_split(a: regular):
    n = (0, name(a + b'A'))
    return [[n], [n], [n], [n], [(0, name(a + b'A4'))], [(0, name(a + b'A1')), (5 + len(a), LIT('B'))]]


def holds_name_bytes():
    """Names that are not text keep their bytes; names that are the same are one."""
    a = tokens(b'/A#e9 /Caf#c3#a9 /A#e9 /')
    return a[0][1] is LIT(b'A\xe9') and a[1][1] is LIT('Caf\xe9') and a[2][1] is a[0][1]


def code_integer(a: digit, b: digits, c: digits):
    """Integers, with and without sign."""
    return [tokens(a + b + b' ' + b'-' + c + b' +' + c + b'\n'), tokens(a + b' -' + a + b' ')]


def ref_integer(a: digit, b: digits, c: digits):
    n = 1 + len(b)
    return [[(0, int(a + b)), (n + 1, int(b'-' + c)), (n + 3 + len(c), int(b'+' + c))], [(0, int(a)), (2, int(b'-' + a))]]


def code_integer_split(a: digit, b: digits, c: digits):
    """A number may be divided anywhere."""
    return [tokens(a, b + c + b' '), tokens(a + b, c + b' '), tokens(a + b + c, b' '), tokens(b'-', a + b + c, b' ')]


def ref_integer_split(a: digit, b: digits, c: digits):
    n = [(0, int(a + b + c))]
    return [n, n, n, [(0, int(b'-' + a + b + c))]]


def code_integer_delimited(a: digit, b: digits, n: regular):
    """Delimiters, names and strings end a number."""
    return [tokens(a + b + s + b' ') for s, k in OPEN] + [tokens(a + b + b'/' + n + b' '), tokens(a + b + b'(x) '), tokens(a + b + b'-' + b + b' ')]


def ref_integer_delimited(a: digit, b: digits, n: regular):
    k = 1 + len(b)
    i = (0, int(a + b))
    return [[i, (k, KWD(s))] for s, t in OPEN] + [[i, (k, name(n))], [i, (k, b'x')], [i, (k, int(b'-' + b))]]


def code_real(a: digit, b: digits, c: digits, d: digit):
    """Reals: digits before or after the point may be missing."""
    return [tokens(x + b' ') for x in (a + b + b'.' + c, b'-' + a + b'.' + c, b'+' + a + b'.' + c, a + b'.', b'.' + d + c, b'-.' + d + c,
                                       a + b'.' + d)]


def ref_real(a: digit, b: digits, c: digits, d: digit):
    return [[(0, float(x))] for x in (a + b + b'.' + c, b'-' + a + b'.' + c, b'+' + a + b'.' + c, a + b'.', b'.' + d + c, b'-.' + d + c,
                                      a + b'.' + d)]


def code_real_split(a: digit, b: digits, c: digits):
    """A real may be divided anywhere."""
    return [tokens(a, b + b'.' + c + b' '), tokens(a + b, b'.' + c + b'\n'), tokens(a + b + b'.', c + b'['), tokens(a + b + b'.' + c, c, b'/'),
            tokens(b'.', c + b' '), tokens(b'-', b'.' + c + b' ')]


def ref_real_split(a: digit, b: digits, c: digits):
    x = (0, float(a + b + b'.' + c))
    n = 2 + len(b) + len(c)
    return [[x], [x], [x, (n, KWD(b'['))], [(0, float(a + b + b'.' + c + c)), (n + len(c), LIT(''))], [(0, float(b'.' + c))], [(0, float(b'-.' + c))]]


def code_number_bad(a: digit):
    """What starts like a number and is none is left out, not more."""
    return [tokens(b'- ' + a + b' '), tokens(b'+ ' + a + b' '), tokens(b'. ' + a + b' '), tokens(b'-.[' + a + b' ')]


def ref_number_bad(a: digit):
    n = [(2, int(a))]
    return [n, n, n, [(2, KWD(b'[')), (3, int(a))]]


def code_keyword(a: letter, b: letters):
    """Keywords are interned by their spelling."""
    return [tokens(a + b + b' '), tokens(a + b + b'*\n'), tokens(b'\t' + a + b + b'0 '), tokens(a + b' ')]


def ref_keyword(a: letter, b: letters):
    return [[(0, KWD(a + b))], [(0, KWD(a + b + b'*'))], [(1, KWD(a + b + b'0'))], [(0, KWD(a))]]


def code_keyword_delimited(a: letter, b: letters, n: regular):
    """Delimiters end a keyword."""
    return [tokens(a + b + s + b' ') for s, k in OPEN] + [tokens(a + b + b'/' + n + b' '), tokens(a + b + b'(x) '), tokens(a + b + b'<41>')] + \
        [tokens(a + b + w + b'[') for w in WHITE]


def ref_keyword_delimited(a: letter, b: letters, n: regular):
    k = 1 + len(b)
    i = (0, KWD(a + b))
    return [[i, (k, KWD(s))] for s, t in OPEN] + [[i, (k, name(n))], [i, (k, b'x')], [i, (k, b'A')]] + \
        [[i, (k + len(w), KWD(b'['))] for w in WHITE]


def code_keyword_split(a: letter, b: letters, c: letters):
    """A keyword may be divided anywhere."""
    return [tokens(a, b + c + b' '), tokens(a + b, c, b' '), tokens(a + b + c, b' '), tokens(b'tr', b'ue ', b'fals', b'e '), tokens(b'true', b' ')]


def ref_keyword_split(a: letter, b: letters, c: letters):
    k = [(0, KWD(a + b + c))]
    return [k, k, k, [(0, True), (5, False)], [(0, True)]]


def code_keyword_booleans(a: letters):
    """true and false are booleans, words that start like them are not; single characters are keywords."""
    return [tokens(b'true false trueish True true' + a + b" ' \" "), ]


def ref_keyword_booleans(a: letters):
    return [[(0, True), (5, False), (11, KWD(b'trueish')), (19, KWD(b'True')), (24, KWD(b'true' + a)), (29 + len(a), KWD(b"'")),
             (31 + len(a), KWD(b'"'))]]


def code_string(a: inside, b: inside, c: inside):
    """A string goes to the parenthesis that closes it; balanced ones in between belong to it."""
    return [tokens(b'(' + a + b')'), tokens(b'()'), tokens(b'(' + a + b'(' + b + b')' + c + b')'), tokens(b'((()' + a + b')())[')]


def ref_string(a: inside, b: inside, c: inside):
    return [[(0, a)], [(0, b'')], [(0, a + b'(' + b + b')' + c)], [(0, b'(()' + a + b')()'), (8 + len(a), KWD(b'['))]]


def code_string_content(a: inside):
    """Nothing inside a string is a token."""
    return tokens(b'(/' + a + b'%[<<>>]{}<12> true 1)', b'(%)true ')


def ref_string_content(a: inside):
    n = len(a)
    return [(0, b'/' + a + b'%[<<>>]{}<12> true 1'), (23 + n, b'%'), (26 + n, True)]


def code_string_split(a: inside, b: inside):
    """A string may be divided anywhere."""
    return [tokens(b'(', a + b + b')'), tokens(b'(' + a, b + b')'), tokens(b'(' + a + b, b')'), tokens(b'(' + a + b'(', b + b'))'),
            tokens(b'(' + a, b'(' + b, b')', b')')]


def ref_string_split(a: inside, b: inside):
    return [[(0, a + b)], [(0, a + b)], [(0, a + b)], [(0, a + b'(' + b + b')')], [(0, a + b'(' + b + b')')]]


ESCAPES = ((b'n', b'\n'), (b'r', b'\r'), (b't', b'\t'), (b'b', b'\x08'), (b'f', b'\x0c'), (b'(', b'('), (b')', b')'), (b'\\', b'\\'),
           (b'\n', b''), (b'\r', b''), (b'\r\n', b''))


def code_string_escape(a: inside, b: insides):
    """Escaped characters, and line ends that a backslash hides."""
    return [tokens(b'(' + a + b'\\' + e + b + b')') for e, x in ESCAPES]


def ref_string_escape(a: inside, b: insides):
    return [[(0, a + x + b)] for e, x in ESCAPES]


def code_string_escape_split(a: inside, b: insides):
    """Escapes may be divided."""
    return [tokens(b'(' + a + b'\\', e + b + b')') for e, x in ESCAPES] + [tokens(b'(' + a, b'\\' + e, b + b')') for e, x in ESCAPES] + \
        [tokens(b'(' + a + b'\\\r', b'\n' + b + b')')]


def ref_string_escape_split(a: inside, b: insides):
    return [[(0, a + x + b)] for e, x in ESCAPES] + [[(0, a + x + b)] for e, x in ESCAPES] + [[(0, a + b)]]


def code_string_escape_other(a: inside, c: plainch):
    """A backslash before any other character is left out."""
    return tokens(b'(' + a + b'\\' + c + a + b')')


def ref_string_escape_other(a: inside, c: plainch):
    return [(0, a + c + a)]


def code_string_escape_twice(a: inside):
    """A backslash that is itself escaped escapes nothing."""
    return [tokens(b'(' + a + b'\\\\n' + a + b')'), tokens(b'(' + a + b'\\\\)/A '), tokens(b'(\\\\\\)' + a + b')')]


def ref_string_escape_twice(a: inside):
    return [[(0, a + b'\\n' + a)], [(0, a + b'\\'), (4 + len(a), LIT('A'))], [(0, b'\\)' + a)]]


def code_string_octal(a: inside, o: octal, p: octal, q: octal, b: plainch):
    """One to three octal digits stand for the byte with that code, overflow ignored."""
    return [tokens(b'(' + a + b'\\' + o + b + b')'), tokens(b'(' + a + b'\\' + o + p + b + b')'),
            tokens(b'(' + a + b'\\' + o + p + q + b + b')'), tokens(b'(\\' + o + p + q + p + b')'), tokens(b'(\\' + o + b')')]


def ref_string_octal(a: inside, o: octal, p: octal, q: octal, b: plainch):
    three = int2byte(int(o + p + q, 8) & 255)
    return [[(0, a + int2byte(int(o, 8)) + b)], [(0, a + int2byte(int(o + p, 8)) + b)], [(0, a + three + b)], [(0, three + p)],
            [(0, int2byte(int(o, 8)))]]


def holds_string_octal_overflow():
    """The highest octal escapes."""
    return tokens(b'(\\777\\400\\377)') == [(0, b'\xff\x00\xff')]


def code_string_octal_split(a: inside, o: octal, p: octal, q: octal):
    """An octal escape may be divided anywhere."""
    return [tokens(b'(' + a + b'\\', o + b'8)'), tokens(b'(\\' + o, p + b'8)'), tokens(b'(\\' + o + p, b'8)'), tokens(b'(\\0' + p, q + b'8)'),
            tokens(b'(\\0' + p + q, b'0)'), tokens(b'(\\0', p, q, b'1)'), tokens(b'(\\' + o, b')'), tokens(b'(\\' + o, b'\\' + p, b')')]


def ref_string_octal_split(a: inside, o: octal, p: octal, q: octal):
    two = int2byte(int(o + p, 8))
    three = int2byte(int(b'0' + p + q, 8))
    return [[(0, a + int2byte(int(o, 8)) + b'8')], [(0, two + b'8')], [(0, two + b'8')], [(0, three + b'8')], [(0, three + b'0')],
            [(0, three + b'1')], [(0, int2byte(int(o, 8)))], [(0, int2byte(int(o, 8)) + int2byte(int(p, 8)))]]


def code_hex(a: hexdigit, b: hexdigit, c: hexdigit):
    """Hexadecimal strings: pairs of digits, white space ignored."""
    return [tokens(b'<' + a + b + b'>'), tokens(b'<>'), tokens(b'< ' + a + b'\n' + b + b' \r\n>'), tokens(b'<' + a + b + c + c + b'> '),
            tokens(b'<' + a + b + c + a + b'>[')]


def ref_hex(a: hexdigit, b: hexdigit, c: hexdigit):
    ab = int2byte(int(a + b, 16))
    return [[(0, ab)], [(0, b'')], [(0, ab)], [(0, ab + int2byte(int(c + c, 16)))], [(0, ab + int2byte(int(c + a, 16))), (6, KWD(b'['))]]


def code_hex_split(a: hexdigit, b: hexdigit):
    """A hexadecimal string may be divided anywhere."""
    return [tokens(b'<', a + b + b'>'), tokens(b'<' + a, b + b'>'), tokens(b'<' + a + b, b'>'), tokens(b'<', a, b' ', b, b'>'),
            tokens(b'<' + a + b + b'>', b'<' + b + a + b'>'), tokens(b'<' + a + b, b'>[')]


def ref_hex_split(a: hexdigit, b: hexdigit):
    ab = int2byte(int(a + b, 16))
    return [[(0, ab)], [(0, ab)], [(0, ab)], [(0, ab)], [(0, ab), (4, int2byte(int(b + a, 16)))], [(0, ab), (4, KWD(b'['))]]


def code_dict(n: regular, h: hexdigit):
    """Double angle brackets, also next to hexadecimal strings and divided."""
    return [[t for (p, t) in x] for x in (
        tokens(b'<</' + n + b'<' + h + b'1>>>'), tokens(b'<</' + n + b'<' + h + b'1>/A<<>>>>'), tokens(b'<', b'<', b'>', b'>'),
        tokens(b'<<', b'<' + h + b'1>', b'>', b'>'), tokens(b'<<<<' + b'/' + n + b'<' + h + b'1>>>', b'>>'))]


def ref_dict(n: regular, h: hexdigit):
    x = int2byte(int(h + b'1', 16))
    (b, e) = (KWD(b'<<'), KWD(b'>>'))
    return [[b, name(n), x, e], [b, name(n), x, LIT('A'), b, e, e], [b, e], [b, x, e], [b, b, name(n), x, e, e]]


def code_dict_places():
    """Positions of double angle brackets."""
    return tokens(b'<< >><', b'<  >', b'> ')


def ref_dict_places():
    (b, e) = (KWD(b'<<'), KWD(b'>>'))
    return [(0, b), (3, e), (5, b), (9, e)]


def code_comment(a: inline, n: regular):
    """A comment goes to the end of its line and is no token."""
    return [tokens(b'%' + a + b'\n/' + n + b' '), tokens(b'%' + a + b'\r/' + n + b'%' + a + b'\r\ntrue %' + a), tokens(b'%\n%' + a + b'\n'),
            tokens(b'%', a, b'\n/' + n + b' '), tokens(b'%' + a, b'\r', b'\ntrue ')]


def ref_comment(a: inline, n: regular):
    k = len(a)
    m = len(n)
    return [[(2 + k, name(n))], [(2 + k, name(n)), (6 + 2 * k + m, True)], [], [(2 + k, name(n))], [(3 + k, True)]]


def code_comment_end(a: inline, d: digit, e: digits):
    """What follows a comment is read from its first character on."""
    return [tokens(b'%' + a + b'\r' + d + e + b' '), tokens(b'%' + a + b'\n' + d + e + b' '), tokens(b'%' + a + b'\r\n' + d + e + b' '),
            tokens(b'%' + a, b'\r' + d + e + b' '), tokens(b'%' + a + b'\r', d + e + b' ')]


def ref_comment_end(a: inline, d: digit, e: digits):
    n = (2 + len(a), int(d + e))
    return [[n], [n], [(3 + len(a), int(d + e))], [n], [n]]


def code_comment_word(a: inline):
    """A comment ends with a carriage return as well as with a line feed."""
    return [tokens(b'%' + a + b'\rtrue '), tokens(b'%' + a + b'\ntrue '), tokens(b'%' + a + b'\r', b'%' + a + b'\nfalse')]


def ref_comment_word(a: inline):
    n = [(2 + len(a), True)]
    return [n, n, [(4 + 2 * len(a), False)]]


def code_last(a: regular, b: letter, c: letters, d: digit, e: digits):
    """The end of the data ends the last token."""
    return [tokens(b'[/' + a), tokens(b'[' + b + c), tokens(b' ' + d + e), tokens(d + b'.' + e), tokens(d + b'.', e), tokens(b'[/' + a + b'#41'),
            tokens(b'true'), tokens(b'[', b'false'), tokens(b'/' + a + b'  '), tokens(b'>>'), tokens(b''), tokens(b'-')]


def ref_last(a: regular, b: letter, c: letters, d: digit, e: digits):
    x = (0, KWD(b'['))
    return [[x, (1, name(a))], [x, (1, KWD(b + c))], [(1, int(d + e))], [(0, float(d + b'.' + e))], [(0, float(d + b'.' + e))],
            [x, (1, name(a + b'A'))], [(0, True)], [x, (1, False)], [(0, name(a))], [(0, KWD(b'>>'))], [], []]


def code_unfinished(a: inside):
    """A string without its end is no token, and there is an end to it."""
    return [tokens(b'[(' + a), tokens(b'[(' + a + b'\\'), tokens(b'[<41'), tokens(b'[%' + a[:0]), tokens(b'[(\\1')]


def ref_unfinished(a: inside):
    x = (0, KWD(b'['))
    return [[x], [x], [x], [x], [x]]


def code_seek(a: regular, b: inside):
    """After moving, tokens are those of the new place, whatever was being read."""
    p = PSBaseParser(Text(b'/' + a + b' (' + b + b') true ', b'[ '))
    one = p.nexttoken()
    p.seek(2 + len(a))
    two = p.nexttoken()
    p.seek(0)
    three = p.nexttoken()
    p.seek(3 + len(a) + 1 + len(b) + 1)
    four = p.nexttoken()
    return [one, two, three, four, p.nexttoken()]


def ref_seek(a: regular, b: inside):
    n = len(a) + len(b)
    return [(0, name(a)), (2 + len(a), b), (0, name(a)), (5 + n, True), (10 + n, KWD(b'['))]


def lines(*parts):
    p = PSBaseParser(Text(*parts))
    out = []
    try:
        while True:
            out.append(p.nextline())
    except PSEOF:
        pass
    return out


def code_lines(a: inline, b: inline, c: inline, x: inlines):
    """Lines end with carriage return, line feed, or both."""
    return [lines(a + b'\n' + b + b'\r' + x + c + b'\r\n' + a + b'\n\n'), lines(b'\r\n\r' + x + a + b'\n')]


def ref_lines(a: inline, b: inline, c: inline, x: inlines):
    k = len(a)
    m = len(b)
    n = len(c) + 1
    return [[(0, a + b'\n'), (k + 1, b + b'\r'), (k + m + 2, x + c + b'\r\n'), (k + m + n + 4, a + b'\n'),
             (2 * k + m + n + 5, b'\n')], [(0, b'\r\n'), (2, b'\r'), (3, x + a + b'\n')]]


def code_lines_split(a: inline, b: inline, x: inlines):
    """Lines may be divided anywhere, also within their ends."""
    return [lines(a, b + b'\n'), lines(a + b'\r', b'\n' + b + b'\n'), lines(a + b'\r', x + b + b'\n'), lines(a, b'\r\n', b, b'\r', b'\n')]


def ref_lines_split(a: inline, b: inline, x: inlines):
    k = len(a)
    return [[(0, a + b + b'\n')], [(0, a + b'\r\n'), (k + 2, b + b'\n')], [(0, a + b'\r'), (k + 1, x + b + b'\n')],
            [(0, a + b'\r\n'), (k + 2, b + b'\r\n')]]


def code_lines_last(a: inline, b: inline):
    """The end of the data ends the last line."""
    return [lines(a + b'\n' + b), lines(a + b'\n', b), lines(a + b'\r'), lines(b'')]


def ref_lines_last(a: inline, b: inline):
    return [[(0, a + b'\n'), (len(a) + 1, b)], [(0, a + b'\n'), (len(a) + 1, b)], [(0, a + b'\r')], []]


class Back(Text):
    """A file of which portions are asked for by their place."""

    def read(self, n=-1):
        if n == -1:
            return Text.read(self, n)
        return self.whole[self.pos:self.pos + n]


def backwards(n, *parts):
    p = PSBaseParser(Back(*parts))
    p.BUFSIZ = n
    return [x.strip() for x in p.revreadlines() if x.strip()]


def code_backwards(a: regular, b: regular, c: regular):
    """Read backwards, lines come last first."""
    return [backwards(10 + len(a) + len(b) + len(c), b'%PDF\n' + a + b'\n' + b + b'\r\n' + c + b'\r'),
            backwards(7 + len(a) + len(b) + len(c), b'%PDF\n' + a + b'\n' + b + b'\r' + c)]


def ref_backwards(a: regular, b: regular, c: regular):
    return [[c, b, a], [c, b, a]]


def code_backwards_long(a: regular, c: regulars):
    """A line may be longer than a portion, or two."""
    return [backwards(len(a) + 1, b'\n' + a + c + a + c + a), backwards(len(a) + 1, b'\n' + a + c + a + c + a + c + a + a + b'\n' + b'\n' + a),
            backwards(len(a) + 1, b'\r' + a + a + c + c + a + a + b'\n')]


def ref_backwards_long(a: regular, c: regulars):
    return [[a + c + a + c + a], [a, a + c + a + c + a + c + a + a], [a + a + c + c + a + a]]


def code_backwards_split(a: regular, b: regular):
    """Portions may end anywhere."""
    x = b'\n' + a + b'\n' + b
    y = b'\r\n' + a
    return [backwards(len(x), x + x + x), backwards(len(x), a + b'\n' + b + b'\n' + x), backwards(len(y), y + y + y),
            backwards(len(a) + len(b) + 2, a + b'\r\n' + b + b + b'\n\n' + a)]


def ref_backwards_split(a: regular, b: regular):
    return [[b, a, b, a, b, a], [b, a, b], [a, a, a], [a, b + b]]
