"""Content: operands and operators in order over all streams, inline images with exactly their data."""
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.execptions import PDFObjectNotFound


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


class Owner:
    """The document that references lead to."""

    def __init__(self, known=None):
        self.known = known or {}

    def getobj(self, objid):
        if objid not in self.known:
            raise PDFObjectNotFound(objid)
        return self.known[objid]


class Small(PDFContentParser):
    """Reads few bytes at a time."""
    BUFSIZ = 3


def plain(x):
    """Objects by what they say."""
    if isinstance(x, PDFStream):
        return ('image', plain(x.attrs), x.get_rawdata())
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if v is not None}  # null is as good as no entry
    return x


def content(*datas):
    return [plain(x) for x in PDFContentParser([PDFStream({}, d) for d in datas])]


def small(*datas):
    return [plain(x) for x in Small([PDFStream({}, d) for d in datas])]


def code_operators(a: digit, b: digit, n: regular, s: inside):
    """Operands and operators come in the order they are written."""
    return [content(a + b' ' + b + b' m\n(' + s + b') Tj/x' + n + b' 3.5 Tf'), content(b'q'), content(b''), content(),
            content(b'[(' + s + b')' + a + b'<41>]TJ'), content(b"(" + s + b")' T* f*"), content(b'/P<</A ' + a + b'/B[' + b + b']>>BDC EMC')]


def ref_operators(a: digit, b: digit, n: regular, s: inside):
    return [[int(a), int(b), KWD(b'm'), s, KWD(b'Tj'), LIT(text(b'x' + n)), 3.5, KWD(b'Tf')], [KWD(b'q')], [], [], [[s, int(a), b'A'], KWD(b'TJ')],
            [s, KWD(b"'"), KWD(b'T*'), KWD(b'f*')], [LIT('P'), {'A': int(a), 'B': [int(b)]}, KWD(b'BDC'), KWD(b'EMC')]]


def text(n):
    try:
        return str(n, 'utf-8')
    except UnicodeDecodeError:
        return n


def code_streams(a: digit, b: digit, c: letter):
    """Where a stream ends a token ends; arrays and dictionaries may go on."""
    return [content(a, b), content(b'1', b'', b'2 q', b' ', b'Q'), content(c, b'x'), content(b'[' + a, b + b']TJ'), content(b'<</A', a + b'>>', b'gs'),
            content(b'', b''), content(b'/' + c, b'/' + c)]


def ref_streams(a: digit, b: digit, c: letter):
    return [[int(a), int(b)], [1, 2, KWD(b'q'), KWD(b'Q')], [KWD(c), KWD(b'x')], [[int(a), int(b)], KWD(b'TJ')], [{'A': int(a)}, KWD(b'gs')],
            [], [LIT(text(c)), LIT(text(c))]]


def code_references(a: digit, b: letter):
    """Streams may be given as references; what is no stream has no content."""
    o = Owner({4: PDFStream({}, a + b' '), 5: 7})
    (r, s, t) = (PDFObjRef(o, 4, 0), PDFObjRef(o, 5, 0), PDFObjRef(o, 6, 0))
    return [[plain(x) for x in PDFContentParser([r, PDFStream({}, b)])], [plain(x) for x in PDFContentParser([s, t, None, r])]]


def ref_references(a: digit, b: letter):
    return [[int(a), KWD(b)], [int(a)]]


def image(d, x):
    return ('image', d, x)


def code_inline(a: noE, b: noE, c: noE):
    """An inline image has the bytes between the white space behind ID and the line before EI."""
    x = b'BI/W 2/H 3 ID '
    return [content(x + a + b + c + b'xyz\nEI Q'), content(x + a + b'xyz\r\nEI\nQ'), content(x + b'xyz\rEI\r\nQ'), content(x + a + b'xyzEI Q'), content(x + a + b'xyz\n\nEI Q'),
            content(x + b'\nEI Q'), content(x + b'EI Q')]


def ref_inline(a: noE, b: noE, c: noE):
    d = {'W': 2, 'H': 3}
    (i, q) = (KWD(b'EI'), KWD(b'Q'))
    return [[image(d, a + b + c + b'xyz'), i, q], [image(d, a + b'xyz'), i, q], [image(d, b'xyz'), i, q], [image(d, a + b'xyz'), i, q], [image(d, a + b'xyz\n'), i, q],
            [image(d, b''), i, q], [image(d, b''), i, q]]


def code_inline_end(a: noE, b: noE):
    """EI ends the data only where white space or the end of the content follows; what looks like it is data."""
    x = b'BI ID '
    return [content(x + a + b'EIExyz\nEI Q'), content(x + a + b'E ' + b + b'xyz\nEI Q'), content(x + a + b'EI0yzEI\nQ'), content(x + a + b'xyz\nEI'),
            content(x + a + b'xyz\nEI', b'Q'), content(x + b'EEI Q'), content(x + b'EIEI Q'), content(x + a + b'yzE\nEI Q')]


def ref_inline_end(a: noE, b: noE):
    (i, q) = (KWD(b'EI'), KWD(b'Q'))
    return [[image({}, a + b'EIExyz'), i, q], [image({}, a + b'E ' + b + b'xyz'), i, q], [image({}, a + b'EI0yz'), i, q], [image({}, a + b'xyz'), i],
            [image({}, a + b'xyz'), i, q], [image({}, b'E'), i, q], [image({}, b'EI'), i, q], [image({}, a + b'yzE'), i, q]]


def code_inline_around(a: digit, n: regular, b: noE):
    """Operands and operators before and behind an inline image, and several of them."""
    x = b'ID ' + b + b'xyz\nEI '
    return [content(b'q ' + a + b' w BI/K/x' + n + b' ' + x + b'Q'), content(b'BI/W ' + a + b' ' + x + b'BI ' + x + a + b' w'),
            content(b'q BI', b'/W ' + a, x, b'Q'), content(b'BI/W ' + a + b' ID', b + b'xyz\nEI Q'), content(b'BI/F[/A85/LZW]/D[1 0]/DP<</K ' + a + b'>>/IM true ' + x)]


def ref_inline_around(a: digit, n: regular, b: noE):
    (i, q) = (KWD(b'EI'), KWD(b'Q'))
    e = b + b'xyz'
    return [[KWD(b'q'), int(a), KWD(b'w'), image({'K': LIT(text(b'x' + n))}, e), i, q],
            [image({'W': int(a)}, e), i, image({}, e), i, int(a), KWD(b'w')],
            [KWD(b'q'), image({'W': int(a)}, e), i, q],
            [image({'W': int(a)}, e), i, q],
            [image({'F': [LIT('A85'), LIT('LZW')], 'D': [1, 0], 'DP': {'K': int(a)}, 'IM': True}, e), i]]


def code_inline_entries(b: noE):
    """Every entry of an inline image is kept, whatever its value."""
    return [content(b'BI/W 0/IM false/D[]/CS/RGB/DP<<>>/L 1.0/N()/X null ID ' + b + b'xyz\nEI')]


def ref_inline_entries(b: noE):
    return [[image({'W': 0, 'IM': False, 'D': [], 'CS': LIT('RGB'), 'DP': {}, 'L': 1.0, 'N': b''}, b + b'xyz'), KWD(b'EI')]]


def code_null():
    """null is an operand, wherever it stands."""
    return [content(b'null 1 null q null'), content(b'[null/A null]<</B null/C[null]>>gs')]


def ref_null():
    return [[None, 1, None, KWD(b'q'), None], [[None, LIT('A'), None], {'C': [None]}, KWD(b'gs')]]


def code_inline_portions(a: digit, b: digit):
    """Wherever the portions read end."""
    return [small(b'BI/W 2 ID ' + a + b + b'xyz\nEI Q'), small(b'BI ID ' + a + b'\nEI Q'), small(b'q BI ID ' + a + b + b'EI\nQ')]


def ref_inline_portions(a: digit, b: digit):
    (i, q) = (KWD(b'EI'), KWD(b'Q'))
    return [[image({'W': 2}, a + b + b'xyz'), i, q], [image({}, a), i, q], [KWD(b'q'), image({}, a + b), i, q]]
