"""Cross-reference chain and object lookup."""
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFStream import PDFStream, resolve1, resolve_all
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PSStackParser import KWD, LIT
from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef, PDFObjectNotFound


class Tab:
    """A cross-reference table that is read from the place the parser stands at."""

    def __init__(self):
        self.offsets = {}
        self.trailer = {}

    def load(self, parser):
        if parser.pos not in parser.tables:
            raise PDFNoValidXRef(parser.pos)
        t = parser.tables[parser.pos]
        self.offsets = t[0]
        self.trailer = t[1]

    def get_trailer(self):
        return self.trailer

    def get_objids(self):
        return list(self.offsets.keys())

    def get_pos(self, objid):
        if objid not in self.offsets:
            raise KeyError(objid)
        return self.offsets[objid]


class Scan(Tab):
    """The table found by scanning the whole file."""

    def load(self, parser):
        self.offsets = parser.scan[0]
        self.trailer = parser.scan[1]


class File:
    """A file: tables and objects by position; what is written at a position is read from there on."""
    KEYWORD_XREF = PDFParser.KEYWORD_XREF

    def __init__(self, tables, objs, lines, scan):
        self.tables = tables
        self.objs = objs
        self.lines = lines
        self.scan = scan
        self.pos = 0
        self.step = 0
        self.fallback = False
        self.parsed = 0

    def set_document(self, doc):
        self.doc = doc

    def revreadlines(self):
        for x in self.lines:
            yield x

    def seek(self, pos):
        self.pos = pos
        self.step = 0

    def reset(self):
        pass

    def nextline(self):
        return (self.pos, b'xref')

    def nexttoken(self):
        if self.pos in self.tables:
            return (self.pos, KWD(b'xref') if self.tables[self.pos][2] else 7)
        if self.pos not in self.objs:
            raise PSEOF('end')
        self.step = self.step + 1
        o = self.objs[self.pos]
        if self.step >= len(o):
            raise PSEOF('end')
        return (self.pos, o[self.step - 1])

    def nextobject(self):
        self.parsed = self.parsed + 1
        o = self.objs[self.pos]
        return (self.pos, o[self.step])


class Packed:
    """Parser of the content of an object stream: gives the listed objects, one by one."""

    def __init__(self, data):
        self.data = data
        self.at = 0

    def set_document(self, doc):
        pass

    def nextobject(self):
        if self.at >= len(self.data):
            raise PSEOF('end')
        self.at = self.at + 1
        return (0, self.data[self.at - 1])


TAIL = (b'%%EOF', b'100', b'startxref', b'ignored')


def obj(objid, value):
    return (objid, 0, KWD(b'obj'), value)


def root(extra=None):
    t = {'Root': {'Type': LIT('Catalog')}}
    if extra:
        t.update(extra)
    return t


def tail():
    return [b'%%EOF', b'100', b'startxref', b'ignored', b'50', b'startxref']


def opened(tables, objs, caching=True, lines=None, scan=None):
    f = File(tables, objs, tail() if lines is None else lines, scan)
    return PDFDocument(f, caching=caching, fallback=scan is not None)


def found(d, objid):
    try:
        return d.getobj(objid)
    except PDFObjectNotFound:
        return 'nothing'


def code_newest(a: num, b: num, c: num):
    """The most recent table that lists an object says where it is."""
    d = opened({100: ({5: (None, 10, 0)}, root({'Prev': 200}), True),
                200: ({5: (None, 20, 0), 6: (None, 30, 0)}, root({'Prev': 300}), True),
                300: ({6: (None, 40, 0), 7: (None, 50, 0)}, root(), True)},
               {10: obj(5, a), 20: obj(5, 1), 30: obj(6, b), 40: obj(6, 2), 50: obj(7, c)})
    return (found(d, 5), found(d, 6), found(d, 7), found(d, 8))


def ref_newest(a: num, b: num, c: num):
    return (a, b, c, 'nothing')


def code_hybrid(a: num, b: num, c: num):
    """A stream table named by a trailer ranks after the trailer's own table and before the previous one."""
    d = opened({100: ({5: (None, 10, 0)}, root({'Prev': 200, 'XRefStm': 300}), True),
                200: ({5: (None, 20, 0), 6: (None, 30, 0), 7: (None, 50, 0)}, root(), True),
                300: ({5: (None, 20, 0), 6: (None, 40, 0)}, {}, False)},
               {10: obj(5, a), 20: obj(5, 1), 30: obj(6, 2), 40: obj(6, b), 50: obj(7, c)})
    return (found(d, 5), found(d, 6), found(d, 7))


def ref_hybrid(a: num, b: num, c: num):
    return (a, b, c)


def code_damaged(a: num):
    """Where the recent table points to something else, or to nothing, the older one is asked."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 15, 0), 7: (None, 60, 0)}, root({'Prev': 200}), True),
                200: ({5: (None, 20, 0), 6: (None, 20, 0)}, root(), True)},
               {10: (5, 0, KWD(b'xyz'), 3), 20: obj(5, a)})
    return (found(d, 5), found(d, 7))


def ref_damaged(a: num):
    return (a, 'nothing')


def code_other_object(a: num, b: num):
    """Where the recent table points to another object, the older one is asked."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 10, 0), 8: (None, 10, 0)}, root({'Prev': 200}), True),
                200: ({5: (None, 20, 0)}, root(), True)},
               {10: obj(6, b), 20: obj(5, a)})
    return (found(d, 5), found(d, 6), found(d, 8))


def ref_other_object(a: num, b: num):
    return (a, b, 'nothing')


def code_little_early(a: num, b: num, c: num):
    """An object that starts a few words behind the place the table gives is found all the same."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 20, 0), 7: (None, 30, 0), 9: (None, 40, 0)}, root({'Prev': 200}), True),
                200: ({9: (None, 50, 0)}, root(), True)},
               {10: (KWD(b'endobj'), 5, 0, KWD(b'obj'), a), 20: (3, KWD(b'endobj'), 6, 0, KWD(b'obj'), b),
                30: (1, 2, KWD(b'endstream'), KWD(b'endobj'), 7, 0, KWD(b'obj'), c),
                40: (KWD(b'endobj'), 8, 0, KWD(b'obj'), 1), 50: obj(9, a)})
    return (found(d, 5), found(d, 6), found(d, 7), found(d, 9))


def ref_little_early(a: num, b: num, c: num):
    return (a, b, c, a)


def code_scan(a: num, b: num):
    """The table made by scanning the file is asked last."""
    d = opened({100: ({5: (None, 10, 0)}, root(), True)}, {10: obj(5, a), 20: obj(5, 1), 30: obj(6, b)},
               scan=({5: (None, 20, 0), 6: (None, 30, 0)}, {}))
    return (found(d, 5), found(d, 6))


def ref_scan(a: num, b: num):
    return (a, b)


def code_scan_only(a: num):
    """Without a usable table the file is scanned; its trailer names the catalogue."""
    d = opened({}, {10: obj(5, a)}, lines=[b'', b'x'], scan=({5: (None, 10, 0)}, {'Root': {'Type': LIT('Catalog'), 'X': a}}))
    e = opened({}, {10: obj(5, a)}, scan=({5: (None, 10, 0)}, {'Root': {'Type': LIT('Catalog'), 'X': a}}))
    return (found(d, 5), d.catalog, found(e, 5), e.catalog)


def ref_scan_only(a: num):
    return (a, {'Type': LIT('Catalog'), 'X': a}, a, {'Type': LIT('Catalog'), 'X': a})


def code_start(a: num):
    """Reading starts at the last position the file gives, blank lines aside."""
    d = opened({100: ({5: (None, 10, 0)}, root(), True), 50: ({5: (None, 20, 0)}, root(), True)},
               {10: obj(5, a), 20: obj(5, 1)}, lines=[b'', b' %%EOF ', b'', b' 100 \r', b'', b'\nstartxref ', b'50', b'startxref'])
    return found(d, 5)


def ref_start(a: num):
    return a


def code_trailers(a: num, b: num, c: num):
    """The catalogue is the one of the most recent trailer that names one; information dictionaries come in that order."""
    d = opened({100: ({}, {'Prev': 200, 'Info': {'A': a}}, True),
                200: ({}, {'Root': {'X': b}, 'Info': {'B': b}, 'Prev': 300}, True),
                300: ({}, {'Root': {'X': c}}, True)}, {})
    return (d.catalog, d.info)


def ref_trailers(a: num, b: num, c: num):
    return ({'X': b}, [{'A': a}, {'B': b}])


def raises_no_root_PDFSyntaxError():
    """A file whose trailers name no catalogue is refused."""
    opened({100: ({}, {}, True)}, {})


def code_cycle(a: num):
    """Tables that name each other as their predecessor do not keep the reader busy for ever."""
    d = opened({100: ({5: (None, 10, 0)}, root({'Prev': 200}), True),
                200: ({6: (None, 20, 0)}, root({'Prev': 100, 'XRefStm': 200}), True)}, {10: obj(5, a), 20: obj(6, a)})
    return (found(d, 5), found(d, 6))


def ref_cycle(a: num):
    return (a, a)


def code_packed(a: num, b: num, c: num):
    """An object in an object stream is the one at its index, behind as many pairs of numbers as there are objects."""
    s = PDFStream({'Type': LIT('ObjStm'), 'N': 3}, [5, 0, 6, 10, 7, 20, a, b, c])
    d = opened({100: ({9: (None, 10, 0), 5: (9, 0, 0), 6: (9, 1, 0), 7: (9, 2, 0), 8: (9, 3, 0)}, root(), True)}, {10: obj(9, s)})
    return (found(d, 7), found(d, 6), found(d, 5), found(d, 8))


def ref_packed(a: num, b: num, c: num):
    return (c, b, a, 'nothing')


def code_packed_older(a: num, b: num):
    """The usual precedence holds between packed and plain objects."""
    s = PDFStream({'Type': LIT('ObjStm'), 'N': 2}, [5, 0, 6, 10, a, 1])
    d = opened({100: ({9: (None, 10, 0), 5: (9, 0, 0), 6: (None, 20, 0)}, root({'Prev': 200}), True),
                200: ({5: (None, 30, 0), 6: (9, 1, 0)}, root(), True)}, {10: obj(9, s), 20: obj(6, b), 30: obj(5, 2)})
    return (found(d, 5), found(d, 6))


def ref_packed_older(a: num, b: num):
    return (a, b)


def code_packed_length(a: num, b: num):
    """The number of packed objects may be given by reference."""
    s = PDFStream({'Type': LIT('ObjStm')}, [5, 0, 6, 10, a, b])
    d = opened({100: ({9: (None, 10, 0), 4: (None, 20, 0), 5: (9, 0, 0), 6: (9, 1, 0)}, root(), True)},
               {10: obj(9, s), 20: obj(4, 2)})
    s.attrs['N'] = PDFObjRef(d, 4, 0)
    return (found(d, 6), found(d, 5))


def ref_packed_length(a: num, b: num):
    return (b, a)


def code_caching(a: num, b: num):
    """Looking an object up again gives the same, whether or not objects are kept."""
    r = []
    for keep in (True, False):
        s = PDFStream({'Type': LIT('ObjStm'), 'N': 1}, [6, 0, b])
        d = opened({100: ({9: (None, 10, 0), 5: (None, 20, 0), 6: (9, 0, 0)}, root(), True)},
                   {10: obj(9, s), 20: obj(5, [a])}, caching=keep)
        r.append((found(d, 5), found(d, 6), found(d, 5), found(d, 6), found(d, 7), found(d, 7)))
    return r


def ref_caching(a: num, b: num):
    one = ([a], b, [a], b, 'nothing', 'nothing')
    return [one, one]


def code_kept():
    """With caching an object is read once and stays the same object."""
    d = opened({100: ({5: (None, 20, 0)}, root(), True)}, {20: obj(5, [1])})
    return (d.getobj(5) is d.getobj(5), d._parser.parsed)


def ref_kept():
    return (True, 1)


def code_stream_number(s: num):
    """A stream knows the number and generation it was stored under."""
    x = PDFStream({}, b'')
    d = opened({100: ({5: (None, 20, 3)}, root(), True)}, {20: obj(5, x)})
    y = d.getobj(5)
    return (y is x, y.objid, y.genno)


def ref_stream_number(s: num):
    return (True, 5, 3)


def code_references(a: num, b: num):
    """A reference stands for the object it names, through any number of references; a dangling one for the default."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 20, 0), 7: (None, 30, 0)}, root(), True)},
               {10: obj(5, a), 20: obj(6, 0), 30: obj(7, 0)})
    f = d._parser
    f.objs[20] = obj(6, PDFObjRef(d, 5, 0))
    f.objs[30] = obj(7, PDFObjRef(d, 6, 0))
    return (resolve1(PDFObjRef(d, 5, 0)), resolve1(PDFObjRef(d, 7, 0)), resolve1(PDFObjRef(d, 8, 0)),
            resolve1(PDFObjRef(d, 8, 0), default=b), resolve1(a))


def ref_references(a: num, b: num):
    return (a, a, None, b, a)


def code_references_deep(a: num, b: num):
    """Resolving all leaves no reference inside lists and dictionaries."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 20, 0)}, root(), True)}, {10: obj(5, a), 20: obj(6, 0)})
    d._parser.objs[20] = obj(6, [PDFObjRef(d, 5, 0), b])
    return resolve_all({'x': [PDFObjRef(d, 6, 0), b], 'y': {'z': PDFObjRef(d, 5, 0)}, 'u': b, 'v': PDFObjRef(d, 9, 0)})


def ref_references_deep(a: num, b: num):
    return {'x': [[a, b], b], 'y': {'z': a}, 'u': b, 'v': None}
