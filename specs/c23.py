"""Objects: the value that is written, nested as deep as it is."""
from pdfmajor.parser.PDFParser import PDFParser, PDFStreamParser
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.execptions import PDFObjectNotFound
from pdfmajor.utils import int2byte


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


class Owner:
    """The document the objects belong to."""

    def __init__(self, decipher=None, known=None):
        self.decipher = decipher
        self.known = known or {}

    def getobj(self, objid):
        if objid not in self.known:
            raise PDFObjectNotFound(objid)
        return self.known[objid]


def plain(x, doc):
    """Objects by what they say."""
    if isinstance(x, PDFObjRef):
        return ('ref', x.objid, x.doc is doc)
    if isinstance(x, PDFStream):
        return ('stream', plain(x.attrs, doc), x.get_rawdata(), x.decipher is doc.decipher)
    if isinstance(x, list):
        return [plain(v, doc) for v in x]
    if isinstance(x, dict):
        return {k: plain(v, doc) for k, v in x.items()}
    return x


def obj(*parts, doc=None, fallback=False):
    """The object written behind `1 0 obj`."""
    doc = doc or Owner()
    p = PDFParser(Text(*parts))
    p.set_document(doc)
    p.fallback = fallback
    for i in range(3):
        p.nexttoken()
    return plain(p.nextobject()[1], doc)


def packed(data, doc=None):
    """The objects of an object stream."""
    doc = doc or Owner()
    p = PDFStreamParser(data)
    p.set_document(doc)
    return [plain(x, doc) for x in p]


def key(n):
    return str(n, 'utf-8')


def ref(n):
    return ('ref', int(n), True)


H = b'1 0 obj\n'
E = b'\nendobj\n'


# ---- values

def code_number(a: number, b: number):
    """Numbers, also with sign and fraction."""
    return [obj(H + a + E), obj(H + b'-' + a + E), obj(H + a + b'.' + b + E), obj(b'1 0 obj ' + a + b' endobj ')]


def ref_number(a: number, b: number):
    return [int(a), -int(a), float(a + b'.' + b), int(a)]


def code_value(a: regular, s: inside, h: hexdigit):
    """Names, strings, booleans and null."""
    return [obj(H + b'/' + a + E), obj(H + b'(' + s + b')' + E), obj(H + b'<4' + h + b'>' + E), obj(H + b'true' + E), obj(H + b'false' + E),
            obj(H + b'null' + E), obj(H + b'()' + E), obj(H + b'<>' + E)]


def ref_value(a: regular, s: inside, h: hexdigit):
    return [LIT(key(a)), s, int2byte(int(b'4' + h, 16)), True, False, None, b'', b'']


def code_array(a: number, b: number, n: regular, s: inside):
    """Arrays hold their elements in order, null among them."""
    return [obj(H + b'[]' + E), obj(H + b'[' + a + b' ' + b + b']' + E), obj(H + b'[/' + n + b'(' + s + b')null ' + a + b' null]' + E),
            obj(H + b'[ true[' + a + b'[]]' + b'/' + n + b'[[' + b + b']]]' + E)]


def ref_array(a: number, b: number, n: regular, s: inside):
    return [[], [int(a), int(b)], [LIT(key(n)), s, None, int(a), None], [True, [int(a), []], LIT(key(n)), [[int(b)]]]]


def code_dict(a: number, n: regular, m: regular, s: inside):
    """Dictionaries give every key its value; with the value null a key is absent."""
    return [obj(H + b'<<>>' + E), obj(H + b'<</x' + n + b' ' + a + b'/y' + m + b'(' + s + b')>>' + E),
            obj(H + b'<</x' + n + b' null/y ' + a + b'>>' + E), obj(H + b'<</x' + n + b'/' + m + b'/y/' + n + b'>>' + E)]


def ref_dict(a: number, n: regular, m: regular, s: inside):
    return [{}, {key(b'x' + n): int(a), key(b'y' + m): s}, {'y': int(a)}, {key(b'x' + n): LIT(key(m)), 'y': LIT(key(n))}]


def code_nested(a: number, n: regular, s: inside):
    """Dictionaries and arrays in each other."""
    return [obj(H + b'<</A[<</x' + n + b' ' + a + b'>>[' + a + b']]/B<</C<</D[]>>/x' + n + b'(' + s + b')>>>>' + E),
            obj(H + b'[<<>>[<</x' + n + b'[' + a + b']>>]<</A<</B ' + a + b'>>/C null>>]' + E)]


def ref_nested(a: number, n: regular, s: inside):
    k = key(b'x' + n)
    return [{'A': [{k: int(a)}, [int(a)]], 'B': {'C': {'D': []}, k: s}}, [{}, [{k: [int(a)]}], {'A': {'B': int(a)}}]]


def code_reference(a: number, b: number, n: regular):
    """References name the object they refer to, among numbers and wherever values may be."""
    return [obj(H + b'7' + a + b' 0 R' + E), obj(H + b'[7' + a + b' 0 R ' + b + b' 7' + b + b' 3 R ' + a + b' ' + b + b']' + E),
            obj(H + b'<</x' + n + b' 7' + a + b' 65535 R/P ' + a + b'>>' + E), obj(H + b'[[7' + a + b' 0 R]<</P 7' + b + b' 0 R>>]' + E),
            obj(H + b'[7' + a + b' 0 R 7' + b + b' 0 R]' + E)]


def ref_reference(a: number, b: number, n: regular):
    x = ref(b'7' + a)
    y = ref(b'7' + b)
    return [x, [x, int(b), y, int(a), int(b)], {key(b'x' + n): x, 'P': int(a)}, [[x], {'P': y}], [x, y]]


def code_portions(a: number, n: regular, s: inside):
    """The portions that are read may end anywhere."""
    return [obj(b'1 0 o', b'bj\n<', b'</x', n + b' 7' + a, b' 0', b' ', b'R/y(' + s, b')>', b'>\nend', b'obj\n'),
            obj(b'1 0 obj', b'[', a, b' tr', b'ue', b'[nu', b'll', b']', b']', b'endobj', b' '),
            obj(b'1 0 obj\n<</', n + b'1/', n + b'2>>endobj')]


def ref_portions(a: number, n: regular, s: inside):
    return [{key(b'x' + n): ref(b'7' + a), 'y': s}, [int(a), True, [None]], {key(n + b'1'): LIT(key(n + b'2'))}]


def code_comment(a: number, n: regulars):
    """Comments are not there."""
    return [obj(b'1 0 obj % ' + n + b' endobj\n[% ]\n' + a + b'% x\r]%endobj\nendobj\n')]


def ref_comment(a: number, n: regulars):
    return [[int(a)]]


# ---- streams

def code_stream(a: anybyte, b: anybyte, c: anybyte, n: regular, m: number):
    """A stream has its dictionary and as many bytes as it says, whatever they are, from the line behind its keyword."""
    k = b'<</Length 3/x' + n + b' ' + m + b'>>'
    t = a + b + c
    return [obj(H + k + b'\nstream\n' + t + b'\nendstream' + E), obj(H + k + b'stream\r\n' + t + b'\r\nendstream' + E),
            obj(H + k + b'\r\nstream\n' + t + b'endstream\nendobj '), obj(H + b'<</Length 0>>\nstream\n\nendstream' + E),
            obj(H + b'<</Length 12>>\nstream\nendstream' + t + b'\nendstream' + E)]


def ref_stream(a: anybyte, b: anybyte, c: anybyte, n: regular, m: number):
    s = ('stream', {'Length': 3, key(b'x' + n): int(m)}, a + b + c, True)
    return [s, s, s, ('stream', {'Length': 0}, b'', True), ('stream', {'Length': 12}, b'endstream' + a + b + c, True)]


def code_stream_place(a: capital, b: capital, n: number):
    """Reading goes on behind the stream."""
    w = b'<</Length 3>>stream\n' + a + b + b'\n\nendstream'
    doc = Owner()
    out = []
    for data in (H + w + E, H + b'<</Length 3>>stream\r\n' + a + b + a + b'\r\nendstream endobj '):
        p = PDFParser(Text(data + b'2 0 obj\n' + n + E))
        p.set_document(doc)
        for i in range(3):
            p.nexttoken()
        out.append(plain(p.nextobject()[1], doc))
        p.nextobject()
        for i in range(3):
            p.nexttoken()
        out.append(p.nextobject()[1])
    return out


def ref_stream_place(a: capital, b: capital, n: number):
    return [('stream', {'Length': 3}, a + b + b'\n', True), int(n), ('stream', {'Length': 3}, a + b + a, True), int(n)]


def code_stream_reference(a: anybyte, b: anybyte, n: number):
    """The length may be an object of its own, and the stream may be read in any portions."""
    d = Owner(None, {77: 2})
    return [obj(H + b'<</Length 77 0 R/N ' + n + b'>>\nstream\n' + a + b + b'\nendstream' + E, doc=d),
            obj(b'1 0 obj<</Length 2/N ', n, b'>>str', b'eam', b'\r', b'\n' + a, b + b'\nend', b'stream' + E, doc=d)]


def ref_stream_reference(a: anybyte, b: anybyte, n: number):
    return [('stream', {'Length': ('ref', 77, True), 'N': int(n)}, a + b, True), ('stream', {'Length': 2, 'N': int(n)}, a + b, True)]


def code_stream_end(t: capitals, u: capitals, n: number):
    """Where the length cannot be relied on, the data go up to the end that is written."""
    return [obj(H + b'<</Length 1>>\nstream\n' + t + b'\r\n' + u + b'endstream' + E, fallback=True),
            obj(H + b'<</N ' + n + b'>>\nstream\r\n' + t + b'\n' + u + b' \n' + t + b' \tendstream' + E, fallback=True),
            obj(H + b'<<>>\nstream\nendstream' + E, fallback=True)]


def ref_stream_end(t: capitals, u: capitals, n: number):
    return [('stream', {'Length': 1}, t + b'\r\n' + u, True), ('stream', {'N': int(n)}, t + b'\n' + u + b' \n' + t + b' \t', True), ('stream', {}, b'', True)]


def code_stream_document(f, a: anybyte, b: anybyte):
    """A stream of an encrypted document knows how it is deciphered."""
    d = Owner(f)
    p = PDFParser(Text(H + b'<</Length 2>>\nstream\n' + a + b + b'\nendstream' + E))
    p.set_document(d)
    for i in range(3):
        p.nexttoken()
    x = p.nextobject()[1]
    return x.decipher is f


def ref_stream_document(f, a: anybyte, b: anybyte):
    return True


# ---- objects in object streams

def code_packed(a: number, b: number, n: regular, s: inside):
    """Object streams hold the plain values of all kinds, one after the other."""
    return [packed(a + b' ' + b + b' '), packed(b'<</x' + n + b' ' + a + b'>>[' + b + b']/' + n + b'(' + s + b')null true '),
            packed(b'[7' + a + b' 0 R null]<</P 7' + b + b' 0 R/Q null>>'), packed(b'7 0 8 12 ' + a + b'\n<</B[<<>>]>>\n'), packed(b'')]


def ref_packed(a: number, b: number, n: regular, s: inside):
    return [[int(a), int(b)], [{key(b'x' + n): int(a)}, [int(b)], LIT(key(n)), s, None, True], [[ref(b'7' + a), None], {'P': ref(b'7' + b)}],
            [7, 0, 8, 12, int(a), {'B': [{}]}], []]


# ---- damaged objects

def code_unbalanced(a: number):
    """An end that nothing belongs to is skipped."""
    return [obj(H + b'[' + a + b'>>]' + E), obj(H + b'<</N ' + a + b']>>' + E), obj(H + b']' + a + E)]


def ref_unbalanced(a: number):
    return [[int(a)], {'N': int(a)}, int(a)]


def raises_odd_PSSyntaxError(a: number, n: regular):
    """A dictionary consists of pairs."""
    obj(H + b'<</x' + n + b' ' + a + b'/y>>' + E)


def raises_unfinished_PSEOF(a: number, n: regular):
    """An object that does not end is none."""
    obj(H + b'<</x' + n + b' ' + a)
