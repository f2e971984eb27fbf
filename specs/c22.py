"""Cross-reference tables and streams: the place of every object."""
from pdfmajor.parser.PDFParser import PDFParser, PDFStreamParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFDocument.PDFXRef import PDFXRef, PDFXRefFallback, PDFXRefStream
from pdfmajor.execptions import PDFNoValidXRef

MISSING = 'missing'


class Back(Text):
    """A file of which portions are asked for by their place."""

    def read(self, n=-1):
        if n == -1:
            return Text.read(self, n)
        return self.whole[self.pos:self.pos + n]


class Owner:
    """The document that is being read."""

    def __init__(self):
        self.decipher = None


def place(x, n):
    try:
        return x.get_pos(n)
    except KeyError:
        return MISSING


def places(x, top):
    """What is known of the numbers below top, and which are listed."""
    ids = list(x.get_objids())
    return ([place(x, n) for n in range(top)], [n in ids for n in range(top)])


def listed(*where):
    """Every object with a place is listed and the others are not."""
    return (list(where), [w != MISSING for w in where])


def table(*parts):
    p = PDFParser(Text(*parts))
    x = PDFXRef()
    x.load(p)
    return x


# ---- tables

def code_table(a: number, b: number, g: number):
    """A section lists consecutive numbers: objects in use have position and generation, free ones have none."""
    return [places(table(b'0 1\n' + a + b' ' + g + b' n\ntrailer<<>>\n'), 2),
            places(table(b'0 3\n' + a + b' ' + g + b' f \n' + b + b' ' + g + b' n \n' + a + b' 00000 n \ntrailer\n<<>>\n'), 4),
            places(table(b'2 2\n' + a + b' ' + g + b' n\r\n' + b + b' 00001 n\r\ntrailer <<>>\n'), 5)]


def ref_table(a: number, b: number, g: number):
    return [listed((None, int(a), int(g)), MISSING),
            listed(MISSING, (None, int(b), int(g)), (None, int(a), 0), MISSING),
            listed(MISSING, MISSING, (None, int(a), int(g)), (None, int(b), 1), MISSING)]


def code_table_sections(a: number, b: number, c: number):
    """Several sections, empty sections and empty lines."""
    return [places(table(b'0 1\n' + a + b' 65535 f \n3 2\n' + b + b' 00000 n \n' + c + b' 00007 n \n1 1\n' + a + b' 00000 n \ntrailer<<>> '), 6),
            places(table(b'0 0\n\n4 1\n' + b + b' 00000 n \n\r\n \ntrailer<<>> '), 6),
            places(table(b'\n1 1 \n' + b + b' 00000 n \n2 1\r' + c + b' 00000 n\rtrailer<<>> '), 4)]


def ref_table_sections(a: number, b: number, c: number):
    return [listed(MISSING, (None, int(a), 0), MISSING, (None, int(b), 0), (None, int(c), 7), MISSING),
            listed(MISSING, MISSING, MISSING, MISSING, (None, int(b), 0), MISSING),
            listed(MISSING, (None, int(b), 0), (None, int(c), 0), MISSING)]


def code_table_split(a: number, b: number):
    """Portions may end anywhere."""
    return [places(table(b'1', b' 1\n' + a, b' 0', b'0000 n \n', b'3 1\n', b + b' 00002', b' n \r', b'\ntrai', b'ler<', b'<>> '), 5),
            places(table(b'1 2\n' + a + b' 00000 n\r', b'\n' + b + b' 00000 f\r', b'\ntrailer<<>>'), 4)]


def ref_table_split(a: number, b: number):
    return [listed(MISSING, (None, int(a), 0), MISSING, (None, int(b), 2), MISSING),
            listed(MISSING, (None, int(a), 0), MISSING, MISSING)]


def code_table_trailer(n: regular, d: number, e: number):
    """The trailer dictionary follows the table."""
    return [table(b'0 0\ntrailer\n<</' + n + b' ' + d + b'>>\nstartxref\n0\n').get_trailer(),
            table(b'0 0\ntrailer<</' + n + b'[' + d + b' ' + e + b']>>startxref').get_trailer(),
            table(b'0 0\ntrailer<</' + n, b' ' + d, b'>', b'>').get_trailer()]


def ref_table_trailer(n: regular, d: number, e: number):
    return [{str(n, 'utf-8'): int(d)}, {str(n, 'utf-8'): [int(d), int(e)]}, {str(n, 'utf-8'): int(d)}]


def raises_table_end_PDFNoValidXRef(a: number):
    """A table that ends early is none."""
    table(b'0 2\n' + a + b' 00000 n \n')


def raises_table_no_trailer_PDFNoValidXRef(a: number):
    table(b'0 1\n' + a + b' 00000 n \n')


def raises_table_words_PDFNoValidXRef(a: capword, b: capword):
    """A section starts with two numbers."""
    table(a + b' ' + b + b'\ntrailer<<>>')


def raises_table_one_word_PDFNoValidXRef(a: number):
    table(a + b'\ntrailer<<>>')


def raises_table_three_words_PDFNoValidXRef(a: number, b: number):
    table(a + b' ' + b + b' ' + a + b'\ntrailer<<>>')


def raises_table_entry_PDFNoValidXRef(a: number):
    """An entry has three parts."""
    table(b'0 1\n' + a + b' 00000\ntrailer<<>>')


def raises_table_entry_word_PDFNoValidXRef(a: capword, b: number):
    """Positions are numbers."""
    table(b'0 1\n' + a + b' ' + b + b' n \ntrailer<<>>')


def raises_table_entry_generation_PDFNoValidXRef(a: number, b: capword):
    table(b'0 1\n' + a + b' ' + b + b' n \ntrailer<<>>')


def raises_table_trailer_missing_PDFNoValidXRef():
    """The trailer must be there."""
    table(b'0 0\ntrailer')


# ---- streams

class Packed:
    """A parser about to read an object."""

    def __init__(self, *tokens):
        self.left = list(tokens)

    def nexttoken(self):
        return (0, self.left.pop(0))

    def nextobject(self):
        return (0, self.left.pop(0))


def stream(data, w, **kw):
    attrs = {'Type': LIT('XRef'), 'W': w, 'Size': 9}
    attrs.update(kw)
    x = PDFXRefStream()
    x.load(Packed(7, 0, KWD(b'obj'), PDFStream(attrs, data)))
    return x


def big(*cs):
    """The number that bytes make, first ones count most."""
    n = 0
    for c in cs:
        n = n * 256 + c[0]
    return n


def code_stream(a: anybyte, b: anybyte, c: anybyte, d: anybyte, e: anybyte, f: anybyte):
    """An entry holds kind, position or containing stream, and generation or index, each as wide as the dictionary says."""
    return [places(stream(b'\x01' + a + b + c + b'\x00' + d + e + f + b'\x02' + d + e + f, [1, 2, 1], Size=3), 4),
            places(stream(b'\x00\x01' + a + b + c + d + e + b'\x00\x02' + b + c + d + e + f, [2, 3, 2], Size=2), 3),
            places(stream(b'\x01' + a + b'\x02' + b, [1, 1, 0], Size=2), 3),
            places(stream(a + b + c + d, [0, 2, 2], Size=1), 2),
            places(stream(b'\x01' + a + b + c + d + e, [1, 5, 0], Size=1), 2),
            places(stream(b'\x01' + a + b + c + d + e, [1, 4, 1], Size=1), 2),
            places(stream(b'\x01' + a + b + c + d + e + f + a + b + c, [1, 8, 1], Size=1), 2),
            places(stream(b'\x01' + a + b + c + d + e + f, [1, 6, 0], Size=1), 2)]


def ref_stream(a: anybyte, b: anybyte, c: anybyte, d: anybyte, e: anybyte, f: anybyte):
    return [listed((None, big(a, b), big(c)), MISSING, (big(d, e), big(f), 0), MISSING),
            listed((None, big(a, b, c), big(d, e)), (big(b, c, d), big(e, f), 0), MISSING),
            listed((None, big(a), 0), (big(b), 0, 0), MISSING),
            listed((None, big(a, b), big(c, d)), MISSING),
            listed((None, big(a, b, c, d, e), 0), MISSING),
            listed((None, big(a, b, c, d), big(e)), MISSING),
            listed((None, big(a, b, c, d, e, f, a, b), big(c)), MISSING),
            listed((None, big(a, b, c, d, e, f), 0), MISSING)]


def code_stream_ranges(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    """Ranges of numbers share the entries, one after the other."""
    return [places(stream(b'\x01' + a + b'\x00\x02' + b + b'\x01\x01' + c + d, [1, 1, 1], Index=[1, 1, 4, 2]), 7),
            places(stream(b'\x00' + a + b'\x00\x01' + b + b'\x01\x01' + c + d, [1, 1, 1], Index=[2, 1, 0, 1, 5, 1]), 7),
            places(stream(b'\x01' + a + b'\x00\x00' + b + b'\x01\x01' + c + d, [1, 1, 1], Index=[0, 0, 3, 3]), 7)]


def ref_stream_ranges(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    return [listed(MISSING, (None, big(a), 0), MISSING, MISSING, (big(b), 1, 0), (None, big(c), big(d)), MISSING),
            listed((None, big(b), 1), MISSING, MISSING, MISSING, MISSING, (None, big(c), big(d)), MISSING),
            listed(MISSING, MISSING, MISSING, (None, big(a), 0), MISSING, (None, big(c), big(d)), MISSING)]


def code_stream_kinds(a: anybyte):
    """Kinds that are not known count as free."""
    return [places(stream(b'\x03' + a + a + b'\x01' + a + b'\x00', [1, 1, 1], Size=2), 2), places(stream(b'\xff' + a + a, [1, 1, 1], Size=1), 1)]


def ref_stream_kinds(a: anybyte):
    return [listed(MISSING, (None, big(a), 0)), listed(MISSING)]


def holds_stream_trailer(s):
    """The dictionary of the stream is the trailer."""
    return stream(b'', [1, 1, 1], Size=0, Root=s).get_trailer()['Root'] is s


def raises_stream_kind_PDFNoValidXRef():
    """Only a stream of the right type will do."""
    PDFXRefStream().load(Packed(7, 0, KWD(b'obj'), PDFStream({'Type': LIT('ObjStm'), 'W': [1, 1, 1], 'Size': 0}, b'')))


def raises_stream_untyped_PDFNoValidXRef():
    PDFXRefStream().load(Packed(7, 0, KWD(b'obj'), PDFStream({'W': [1, 1, 1], 'Size': 0}, b'')))


def raises_stream_other_PDFNoValidXRef(d: number):
    PDFXRefStream().load(Packed(7, 0, KWD(b'obj'), {'Type': LIT('XRef')}))


def raises_stream_end_PDFNoValidXRef(d: number):
    PDFXRefStream().load(PDFParser(Text(d + b' 0 obj')))


def raises_stream_number_PDFNoValidXRef(d: number):
    PDFXRefStream().load(PDFParser(Text(d)))


# ---- without a table

def scan(*parts):
    p = PDFParser(Text(*parts))
    p.set_document(Owner())
    p.fallback = True
    x = PDFXRefFallback()
    x.load(p)
    return x


def code_scan(a: regular, s: inside, t: capitals):
    """Every object is found where its number stands at the start of a line."""
    return [places(scan(b'%PDF-1.4\n1 0 obj\n<</A(' + s + b')>>\nendobj\n3 5 obj[' + b'true]endobj\n2 0 obj null\nendobj\ntrailer<</A 1>>\n'), 5),
            places(scan(b'1 0 obj\n(' + s + b')\nendobj\r\n4 0 obj<</' + a + b' 7>>\nendobj\nxref\n0 1\ntrailer<<>>'), 6),
            places(scan(b'1  0  obj\n7\nendobj\n1 0 obj\n8\nendobj\ntrailer<<>>'), 3),
            places(scan(b'%PDF-1.4\n\n2 0 obj\n<</Length 3>>\nstream\n' + t + b'\nendstream\nendobj\n3 0 obj\n7\nendobj\n'), 5)]


def ref_scan(a: regular, s: inside, t: capitals):
    return [listed(MISSING, (None, 9, 0), (None, 62 - 28 + 19 + len(s), 0), (None, 9 + 8 + 5 + len(s) + 4 + 7, 5), MISSING),
            listed(MISSING, (None, 0, 0), MISSING, MISSING, (None, 8 + 3 + len(s) + 8, 0), MISSING),
            listed(MISSING, (None, 19, 0), MISSING),
            listed(MISSING, MISSING, (None, 10, 0), (None, 10 + 8 + 14 + 7 + len(t) + 1 + 10 + 7, 0), MISSING)]


def code_scan_trailer(n: regular, d: number):
    """The trailer is read."""
    return [scan(b'1 0 obj\n7\nendobj\ntrailer\n<</' + n + b' ' + d + b'>>\nstartxref\n').get_trailer(),
            scan(b'%PDF\n1 0 obj\n7\nendobj\n').get_trailer()]


def ref_scan_trailer(n: regular, d: number):
    return [{str(n, 'utf-8'): int(d)}, {}]


def code_scan_others(a: regular):
    """Text that only looks a little like an object is not one."""
    return [places(scan(b'%1 0 obj\nx 2 0 obj\n1 0 objx\n1 0\nobj\n1 0 xobj\n-1 0 obj\n(' + a + b')\ntrailer<<>>'), 4)]


def ref_scan_others(a: regular):
    return [listed(MISSING, MISSING, MISSING, MISSING)]


# ---- where the table is

def find(data):
    p = PDFParser(Back(data))
    p.BUFSIZ = 20 + len(data)
    return PDFDocument.find_xref(None, p)


def code_find(a: number, b: number):
    """The number behind the last startxref tells where the table is."""
    return [find(b'%PDF\n\nstartxref\n' + a + b'\n%%EOF\n'), find(b'%PDF\r\nstartxref\r\n' + a + b'\r\n%%EOF'),
            find(b'%PDF\nstartxref\n' + b + b'\n%%EOF\n7 0 obj\n\nstartxref\n' + a + b'\n%%EOF\n\n'),
            find(b'%PDF\rstartxref\r\r' + a + b'\r')]


def ref_find(a: number, b: number):
    return [int(a), int(a), int(a), int(a)]


def raises_find_none_PDFNoValidXRef(a: regular):
    """Without it there is no valid table."""
    find(b'%PDF\nx' + a + b'\n%%EOF\n')


def raises_find_word_PDFNoValidXRef(a: capword):
    find(b'%PDF\nstartxref\n' + a + b'\n%%EOF\n')


def raises_find_nothing_PDFNoValidXRef():
    find(b'%PDF\nstartxref\n')
