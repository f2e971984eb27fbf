"""Filters: data come out decoded, each filter once, in order, with its own parameters."""
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.execptions import PDFNotImplementedError, PDFObjectNotFound
import zlib


class Owner:
    """The document that references lead to."""

    def __init__(self, known=None):
        self.known = known or {}

    def getobj(self, objid):
        if objid not in self.known:
            raise PDFObjectNotFound(objid)
        return self.known[objid]


# ---- decoders and ciphers: unknown functions

def lzw_of(data):
    return data


def late_of(data, early):
    return data


def base85_of(data):
    return data


def hex_of(data):
    return data


def runs_of(data):
    return data


def fax_of(data, k, cols, align, black):
    return data


def png_of(data, pred, colors, columns, bits):
    return data


def clear_of(data, objid, genno):
    return data


def fax(data, params):
    return fax_of(data, params.get('K'), params.get('Columns'), params.get('EncodedByteAlign'), params.get('BlackIs1'))


def lzw(data, early=1):
    if isinstance(early, dict):
        early = early.get('EarlyChange', 1)
    return lzw_of(data) if early == 1 else late_of(data, early)


def png(pred, colors, columns, bits, data):
    return png_of(data, pred, colors, columns, bits)


def clear(objid, genno, data, attrs=None):
    return clear_of(data, objid, genno)


def deflated(data):
    try:
        return zlib.decompress(data)
    except zlib.error:
        return b''


def data(attrs, raw):
    return PDFStream(attrs, raw).get_data()


NAMES = (('FlateDecode', 'Fl', deflated), ('LZWDecode', 'LZW', lzw_of), ('ASCII85Decode', 'A85', base85_of),
         ('ASCIIHexDecode', 'AHx', hex_of), ('RunLengthDecode', 'RL', runs_of))


def code_none(d: bytes):
    """Without filters the data are as they are in the file."""
    return [data({}, d), data({'Filter': None}, d), data({'Filter': []}, d), data({'Length': 7, 'DecodeParms': {'Predictor': 12}}, d)]


def ref_none(d: bytes):
    return [d, d, d, d]


def code_one(d: bytes):
    """Each filter by its name and its abbreviation, alone or in an array."""
    return [[data({'Filter': LIT(n)}, d) for n, a, f in NAMES], [data({'F': LIT(a)}, d) for n, a, f in NAMES],
            [data({'Filter': [LIT(n)]}, d) for n, a, f in NAMES], [data({'F': [LIT(n)]}, d) for n, a, f in NAMES],
            [data({'Filter': LIT(a)}, d) for n, a, f in NAMES]]


def ref_one(d: bytes):
    x = [f(d) for n, a, f in NAMES]
    return [x, x, x, x, x]


def code_order(d: bytes):
    """Several filters in the order they are listed."""
    return [data({'Filter': [LIT('ASCII85Decode'), LIT('LZWDecode')]}, d), data({'Filter': [LIT('LZW'), LIT('ASCII85Decode')]}, d),
            data({'F': [LIT('AHx'), LIT('RL'), LIT('A85')]}, d), data({'Filter': [LIT('RL'), LIT('RL')]}, d),
            data({'Filter': [LIT('ASCIIHexDecode'), LIT('DCTDecode')]}, d)]


def ref_order(d: bytes):
    return [lzw_of(base85_of(d)), base85_of(lzw_of(d)), base85_of(runs_of(hex_of(d))), runs_of(runs_of(d)), hex_of(d)]


def code_photo(d: bytes):
    """A JPEG file is handed on as it is."""
    return [data({'Filter': LIT('DCTDecode')}, d), data({'F': LIT('DCT')}, d)]


def ref_photo(d: bytes):
    return [d, d]


def code_fax(d: bytes, k: int, c: int, a: bool, b: bool):
    """Parameters reach their filter."""
    p = {'K': k, 'Columns': c, 'EncodedByteAlign': a, 'BlackIs1': b}
    r = PDFObjRef(Owner({5: p, 6: c, 7: [None, p]}), 5, 0)
    s = PDFObjRef(r.doc, 6, 0)
    t = PDFObjRef(r.doc, 7, 0)
    return [data({'Filter': LIT('CCITTFaxDecode'), 'DecodeParms': p}, d), data({'Filter': [LIT('CCF')], 'DP': [p]}, d),
            data({'Filter': [LIT('RL'), LIT('CCF')], 'DecodeParms': [None, p]}, d), data({'Filter': LIT('CCF'), 'DecodeParms': r}, d),
            data({'Filter': LIT('CCF'), 'DecodeParms': {'K': k, 'Columns': s}}, d),
            data({'Filter': [LIT('AHx'), LIT('CCF')], 'DecodeParms': t}, d), data({'Filter': [LIT('AHx'), LIT('CCF')], 'DecodeParms': [{}, r]}, d)]


def ref_fax(d: bytes, k: int, c: int, a: bool, b: bool):
    x = fax_of(d, k, c, a, b)
    return [x, x, fax_of(runs_of(d), k, c, a, b), x, fax_of(d, k, c, None, None), fax_of(hex_of(d), k, c, a, b), fax_of(hex_of(d), k, c, a, b)]


def code_references(d: bytes):
    """Filters and their names may be objects of their own."""
    o = Owner({5: LIT('LZWDecode'), 6: [LIT('AHx'), LIT('RL')], 7: PDFObjRef(Owner({8: LIT('A85')}), 8, 0)})
    r = [PDFObjRef(o, n, 0) for n in range(5, 8)]
    return [data({'Filter': r[0]}, d), data({'Filter': r[1]}, d), data({'Filter': [LIT('AHx'), r[0]]}, d), data({'F': r[2]}, d)]


def ref_references(d: bytes):
    return [lzw_of(d), runs_of(hex_of(d)), lzw_of(hex_of(d)), base85_of(d)]


def code_fewer(d: bytes):
    """Filters without parameters have the default ones."""
    return [data({'Filter': [LIT('AHx'), LIT('LZW')], 'DecodeParms': []}, d),
            data({'Filter': [LIT('LZW'), LIT('AHx'), LIT('RL')], 'DecodeParms': [{'Predictor': 15}]}, d)]


def ref_fewer(d: bytes):
    return [lzw_of(hex_of(d)), runs_of(hex_of(png_of(lzw_of(d), 15, 1, 1, 8)))]


def code_predictor(d: bytes, c: int, n: int, b: int):
    """A predictor belongs to its filter; without numbers it has the default ones."""
    p = {'Predictor': 12, 'Colors': c, 'Columns': n, 'BitsPerComponent': b}
    r = PDFObjRef(Owner({5: 14, 6: n}), 5, 0)
    s = PDFObjRef(r.doc, 6, 0)
    return [data({'Filter': LIT('FlateDecode'), 'DecodeParms': p}, d), data({'Filter': LIT('LZW'), 'DecodeParms': {'Predictor': 10}}, d),
            data({'Filter': [LIT('Fl'), LIT('AHx')], 'DecodeParms': [p, None]}, d),
            data({'Filter': [LIT('AHx'), LIT('LZW')], 'DecodeParms': [{}, {'Predictor': 15, 'Columns': n}]}, d),
            data({'Filter': LIT('LZW'), 'DecodeParms': {'Predictor': 1, 'Columns': n}}, d), data({'Filter': LIT('LZW'), 'DecodeParms': {'Columns': n}}, d),
            data({'Filter': LIT('LZW'), 'DecodeParms': {'Predictor': r, 'Columns': s, 'Colors': c}}, d)]


def ref_predictor(d: bytes, c: int, n: int, b: int):
    return [png_of(deflated(d), 12, c, n, b), png_of(lzw_of(d), 10, 1, 1, 8), hex_of(png_of(deflated(d), 12, c, n, b)),
            png_of(lzw_of(hex_of(d)), 15, 1, n, 8), lzw_of(d), lzw_of(d), png_of(lzw_of(d), 14, c, n, 8)]


def code_encrypted(d: bytes, i: int, g: int):
    """Encrypted data are deciphered with the key of their object before anything else, and once only."""
    out = []
    for attrs in ({}, {'Filter': LIT('RL')}, {'Filter': [LIT('Fl'), LIT('AHx')]}):
        s = PDFStream(attrs, d, clear)
        s.set_objid(i, g)
        out.append((s.get_data(), s.get_data()))
    return out


def ref_encrypted(d: bytes, i: int, g: int):
    x = clear_of(d, i, g)
    y = hex_of(deflated(x))
    return [(x, x), (runs_of(x), runs_of(x)), (y, y)]


def code_again(d: bytes):
    """Data may be asked for any number of times; the dictionary is not changed."""
    a = {'Filter': [LIT('AHx'), LIT('LZW')], 'DecodeParms': [None, {'Predictor': 12}]}
    s = PDFStream(a, d)
    e = PDFStream({}, b'')
    return [(e.get_data(), e.get_data(), e.get_data()), (s.get_data(), s.get_data(), s.get_data(), s.get_rawdata(), a == {'Filter': [LIT('AHx'), LIT('LZW')], 'DecodeParms': [None, {'Predictor': 12}]})]


def ref_again(d: bytes):
    x = png_of(lzw_of(hex_of(d)), 12, 1, 1, 8)
    return [(b'', b'', b''), (x, x, x, None, True)]


def raises_unknown_PDFNotImplementedError(d: bytes):
    """What is not supported is said to be so."""
    data({'Filter': LIT('JPXDecode')}, d)


def raises_unknown_second_PDFNotImplementedError(d: bytes):
    data({'Filter': [LIT('AHx'), LIT('Other')]}, d)


def raises_crypt_PDFNotImplementedError(d: bytes):
    data({'Filter': LIT('Crypt')}, d)


def raises_tiff_PDFNotImplementedError(d: bytes):
    data({'Filter': LIT('LZW'), 'DecodeParms': {'Predictor': 2}}, d)


def code_lookup(n: str, m: str, v, w):
    """Entries of the dictionary are found by name, the first of several names that is there."""
    s = PDFStream({'A': v, 'B': w}, b'')
    return [('A' in s, 'C' in s), s['A'] is v, s.get('B') is w, s.get('C'), s.get('C', n), s.get_any(('C', 'B')) is w, s.get_any(('A', 'B')) is v,
            s.get_any(('C', 'D')), s.get_any(('C',), n)]


def ref_lookup(n: str, m: str, v, w):
    return [(True, False), True, True, None, n, True, True, None, n]


def code_early(d: bytes):
    """LZW data whose codes become longer later say so."""
    o = Owner({9: 0})
    return [data({'Filter': LIT('LZWDecode'), 'DecodeParms': {'EarlyChange': 0}}, d), data({'Filter': [LIT('AHx'), LIT('LZW')], 'DecodeParms': [None, {'EarlyChange': PDFObjRef(o, 9, 0)}]}, d),
            data({'Filter': LIT('LZWDecode'), 'DecodeParms': {'EarlyChange': 1}}, d), data({'Filter': [LIT('LZW'), LIT('LZW')], 'DecodeParms': [{'EarlyChange': 0}, {}]}, d)]


def ref_early(d: bytes):
    return [late_of(d, 0), late_of(hex_of(d), 0), lzw_of(d), lzw_of(late_of(d, 0))]
