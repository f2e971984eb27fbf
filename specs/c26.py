"""What each character code says: encodings, differences, names of glyphs, ToUnicode maps."""
from pdfmajor.parser.EncodingDB import EncodingDB
from pdfmajor.utils import name2unicode
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.execptions import PDFObjectNotFound, UnicodeNotDefined, CMapNotFound
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font
from pdfmajor.parser.cmapdb import FileUnicodeMap, CMapParser, CMapDB


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


class Owner:
    """The document that references lead to."""

    def __init__(self, known=None):
        self.known = known or {}

    def getobj(self, objid):
        if objid not in self.known:
            raise PDFObjectNotFound(objid)
        return self.known[objid]


def glyph(name):
    try:
        return name2unicode(name)
    except KeyError:
        return None


def code_glyphs():
    """Names of glyphs from the list, and those that hold their code."""
    return [glyph('A'), glyph('Euro'), glyph('Ccaron'), glyph('uni20AC'), glyph('u20AC'), glyph('u1F600'), glyph('uni00410042'), glyph('g65'), glyph('A.alt'),
            glyph('f_i'), glyph('.notdef'), glyph('zzz'), glyph('g99999999'), glyph(b'\xff'), glyph(b'\xff1')]


def ref_glyphs():
    return ['A', '\u20ac', '\u010c', '\u20ac', '\u20ac', '\U0001f600', 'AB', 'A', 'A', 'fi', None, None, None, None, None]


def metrics(fontname):
    """The widths of the standard fonts, known by name."""
    if fontname != 'Std':
        raise KeyError(fontname)
    return ({'FontName': 'Std', 'Ascent': 7}, {'A': 500, 'B': 600})


class Tables:
    """A predefined map."""

    def __init__(self, vertical=False):
        self.CODE2CID = {65: 1, 129: {64: 2, 65: 3}}
        self.IS_VERTICAL = vertical
        self.CID2UNICHR_H = {1: 'A', 2: 'B', 3: 'C'}
        self.CID2UNICHR_V = {1: 'A', 2: 'b', 3: 'C'}


def load_data(name):
    if name in ('X-H', 'X-V'):
        return Tables(name == 'X-V')
    if name == 'to-unicode-Adobe-X':
        return Tables()
    raise CMapNotFound(name)


def forget():
    """Nothing is loaded yet."""
    CMapDB._cmap_cache = {}
    CMapDB._umap_cache = {}


def code_encoding(c: int):
    """Differences give names to the codes that follow; the encoding they differ from stays as it is."""
    w = EncodingDB.get_encoding('WinAnsiEncoding', [c, LIT('A'), LIT('Euro'), c + 10, LIT('zzz'), LIT('B')])
    return [w[c], w[c + 1], w[c + 11], EncodingDB.get_encoding('WinAnsiEncoding')[65], EncodingDB.get_encoding('MacRomanEncoding')[128],
            EncodingDB.get_encoding('None')[225], EncodingDB.get_encoding('WinAnsiEncoding')[128], EncodingDB.get_encoding('PDFDocEncoding')[160]]


def ref_encoding(c: int):
    return ['A', '\u20ac', 'B', 'A', '\xc4', '\xc6', '\u20ac', '\u20ac']


def made(spec):
    return get_font(None, spec, {})


def said(spec, *codes):
    """What codes say in a font, None where that is not known."""
    f = made(spec)
    out = []
    for c in codes:
        try:
            out.append(f.to_unichr(c))
        except UnicodeNotDefined:
            out.append(None)
    return out


def simple(subtype='Type1', **more):
    return dict({'Type': LIT('Font'), 'Subtype': LIT(subtype), 'BaseFont': LIT('X')}, **more)


def code_simple():
    """Fonts with codes of a byte: the encoding named, the standard one, or one with differences."""
    o = Owner({4: LIT('WinAnsiEncoding'), 7: LIT('Euro')})
    p = Owner({8: PDFObjRef(o, 4, 0), 6: [65, PDFObjRef(o, 7, 0), LIT('C')]})
    q = Owner({5: {'BaseEncoding': PDFObjRef(o, 4, 0), 'Differences': PDFObjRef(p, 6, 0)}})
    d = {'Differences': [65, LIT('Euro'), LIT('nosuchglyph'), 200, LIT('A')]}
    return [said(simple(), 65, 225, 0), said(simple('MMType1', Encoding=LIT('MacRomanEncoding')), 65, 225, 128), said(simple('TrueType', Encoding=LIT('WinAnsiEncoding')), 65, 225, 128),
            said(simple(Encoding=PDFObjRef(p, 8, 0)), 128, 225), said(simple('TrueType', Encoding=PDFObjRef(q, 5, 0)), 65, 66, 128), said(simple(Encoding=d), 65, 66, 67, 200, 225),
            said(simple('MMType1', Encoding={}), 65, 225), said(simple('TrueType', Encoding=LIT('nosuch')), 65, 225)]


def ref_simple():
    return [['A', '\xc6', None], ['A', '\xb7', '\xc4'], ['A', '\xe1', '\u20ac'], ['\u20ac', '\xe1'], ['\u20ac', 'C', '\u20ac'], ['\u20ac', 'B', 'C', 'A', '\xc6'],
            ['A', '\xc6'], ['A', '\xc6']]


def code_tounicode():
    """The map of a font comes before its encoding, which is asked where the map says nothing."""
    t = b'1 beginbfchar <41> <0058> endbfchar'
    o = Owner({4: PDFStream({}, t)})
    d = {'BaseEncoding': LIT('WinAnsiEncoding'), 'Differences': [66, LIT('Euro')]}
    return [said(simple(ToUnicode=PDFStream({}, t)), 65, 66, 0), said(simple('TrueType', ToUnicode=PDFObjRef(o, 4, 0), Encoding=d), 65, 66, 128),
            said(simple(ToUnicode=LIT('Identity-H')), 65), said(simple(ToUnicode=PDFObjRef(o, 5, 0)), 65)]


def ref_tounicode():
    return [['X', 'B', None], ['X', '\u20ac', '\u20ac'], ['A'], ['A']]


def code_type3():
    d = {'Differences': [65, LIT('Euro')]}
    f = {'Type': LIT('Font'), 'Subtype': LIT('Type3'), 'FontBBox': [0, 0, 10, 10], 'FontMatrix': [0.1, 0, 0, 0.1, 0, 0], 'Encoding': d}
    return [said(f, 65, 66), said(dict(f, ToUnicode=PDFStream({}, b'1 beginbfchar <41> <0058> endbfchar')), 65, 66)]


def ref_type3():
    return [['\u20ac', 'B'], ['X', 'B']]


def umap(t):
    m = FileUnicodeMap()
    CMapParser(m, Memory(t)).run()
    return m.cid2unichr


def code_bfchar():
    """Codes of any length, text of any length, names of glyphs; what is no text says nothing."""
    return [umap(b'1 beginbfchar <41> <0042> endbfchar'), umap(b'2 beginbfchar <0141><00480049><000002><D83DDE00>endbfchar'),
            umap(b'4 beginbfchar<41>/Euro<42>/nosuchname<43>[1]<44><0058>endbfchar'), umap(b'1 beginbfchar <41> <0058> endbfchar 1 beginbfchar <42> <0059> endbfchar'),
            umap(b'1 beginbfchar <41> <> <42> <0058> endbfchar'), umap(b'1 beginbfchar <41> <0058> <42> endbfchar'),
            umap(b'beginbfchar <41> <0058> endbfchar beginbfchar <41> <0059> endbfchar')]


def ref_bfchar():
    return [{65: 'B'}, {321: 'HI', 2: '\U0001f600'}, {65: '\u20ac', 68: 'X'}, {65: 'X', 66: 'Y'}, {65: '', 66: 'X'}, {65: 'X'}, {65: 'Y'}]


def code_bfrange():
    """Ranges count on from their text, or have one each."""
    return [umap(b'1 beginbfrange <50> <52> <0061> endbfrange'), umap(b'2 beginbfrange<21><22>[<0043>/D]<0100><0101><D83DDE00>endbfrange'),
            umap(b'1 beginbfrange<21><23><00660061>endbfrange'), umap(b'1 beginbfrange<21><24>[<0043>/Euro/nosuchname]<31><31><0058>endbfrange'),
            umap(b'2 beginbfrange<22><21><0058><31><32><0059>endbfrange'), umap(b'2 beginbfrange<21><22>/A<31><0032><0059><41><41>7<51><51><0059>endbfrange'),
            umap(b'1 beginbfrange<21><22><58>endbfrange'), umap(b'1 beginbfrange<21><21><006600660069>endbfrange'),
            umap(b'2 beginbfrange<21><22>[<0043><0044><0045>/F]<00fe><0101><0061>endbfrange'), umap(b'1 beginbfrange<000001><000003>[<0043><D83DDE00><00660069>]endbfrange')]


def ref_bfrange():
    return [{80: 'a', 81: 'b', 82: 'c'}, {33: 'C', 34: 'D', 256: '\U0001f600', 257: '\U0001f601'},
            {33: 'fa', 34: 'fb', 35: 'fc'}, {33: 'C', 34: '\u20ac', 49: 'X'}, {49: 'Y', 50: 'Z'}, {81: 'Y'}, {33: '', 34: ''}, {33: 'ffi'},
            {33: 'C', 34: 'D', 254: 'a', 255: 'b', 256: 'c', 257: 'd'}, {1: 'C', 2: '\U0001f600', 3: 'fi'}]


def code_cmap_program():
    """Programs around the maps mean nothing, nor does what comes behind their end."""
    h = b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def '
    return [umap(h + b'1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfchar <42> <0058> endbfchar endcmap 1 beginbfchar <43> <0059> endbfchar'),
            umap(h + b'/CIDSystemInfo <</Registry (Adobe)/Ordering (UCS)/Supplement 0>> def 1 beginbfchar <42> <0058> endbfchar'),
            umap(b'1 beginnotdefrange <00> <1f> 1 endnotdefrange beginbfchar <42> <0058> endbfchar'), umap(b'/Identity-H usecmap beginbfchar <42> <0058> endbfchar'),
            umap(b'beginbfchar <42> <0058>'), umap(b'')]


def ref_cmap_program():
    return [{66: 'X'}, {66: 'X'}, {66: 'X'}, {66: 'X'}, {}, {}]


def composite(enc, ordering=b'Identity', **more):
    """A font with codes of several bytes."""
    d = {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Y'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': ordering}, 'FontDescriptor': {}}
    return dict({'Type': LIT('Font'), 'Subtype': LIT('Type0'), 'BaseFont': LIT('X'), 'Encoding': enc, 'DescendantFonts': [d]}, **more)


def codes(spec, data):
    return [c for c in made(spec).decode(data)]


def code_codes():
    """Which characters a text consists of."""
    fresh = forget()
    o = Owner({4: LIT('Identity-H')})
    (h, v) = (LIT('Identity-H'), LIT('Identity-V'))
    return [codes(simple(), b'AB\xff'), codes(composite(h), b'\x00A\x01\x02'), codes(composite(v), b'\xff\xff'), codes(composite(h), b'\x00A\x01'), codes(composite(h), b''),
            codes(composite(h), b'A'), codes(composite(PDFObjRef(o, 4, 0)), b'\x00A'), codes(composite(LIT('X-H')), b'A\x81@\x81AA'), codes(composite(LIT('X-V')), b'\x81A'),
            codes(composite(LIT('X-H')), b'\x81\x99A\x00\x81@\x81'), codes(composite(LIT('nosuch')), b'A')]


def ref_codes():
    return [[65, 66, 255], [65, 258], [65535], [65], [], [], [65], [1, 2, 3, 1], [3], [1, 2], []]


def program(t):
    return PDFStream({}, b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap ' + t + b' endcmap')


def code_own_cmap():
    """Fonts may come with the map of their codes."""
    fresh = forget()
    o = Owner({4: program(b'1 begincidrange <40> <4f> 1 endcidrange')})
    return [codes(composite(PDFObjRef(o, 4, 0)), b'\x40\x41\x80\x4f'),
            codes(composite(program(b'2 begincidrange<8140><8142>700<a0><a1>5 endcidrange 2 begincidchar<41>9<e0e1e2>10 endcidchar')), b'\x81\x41\xa1\x41\xe0\xe1\xe2\x81\x42'),
            codes(composite(program(b'/X-H usecmap 1 begincidchar <42> 7 endcidchar')), b'AB\x81@'),
            codes(composite(program(b'/Identity-H usecmap/nosuch usecmap 1 begincidchar <42> 7 endcidchar')), b'B'),
            codes(composite(program(b'3 begincidchar <> 7 <42> <43> <44> 8 endcidchar 1 begincidrange <> <> 1 <41> <4142> 3 <45> <45> 4 endcidrange')), b'ABDE'),
            codes(composite(program(b'2 begincidchar <42> 7 <4243> 8 endcidchar')), b'BC'),
            codes(composite(program(b'2 begincidrange <8EA1A1A1> <8EA1A1A3> 100 <E0E1FE> <E0E1FF> 9 endcidrange')), b'\x8e\xa1\xa1\xa3\xe0\xe1\xff\x8e\xa1\xa1\xa1'),
            codes(composite(program(b'1 begincidrange <018EA1A1A1> <018EA1A1A2> 100 endcidrange')), b'\x01\x8e\xa1\xa1\xa2'),
            [codes(composite(program(b'/X-H usecmap 2 begincidchar <8140> 99 <42> 7 endcidchar')), b'\x81@B'), codes(composite(LIT('X-H')), b'\x81@B')]]


def ref_own_cmap():
    return [[1, 2, 16], [701, 6, 9, 10, 702], [1, 7, 2], [7], [8, 4], [8], [102, 10, 100], [101], [[99, 7], [2]]]


def code_composite():
    """What the map of the font says, else what the collection of the characters says."""
    fresh = forget()
    t = PDFStream({}, b'1 beginbfrange <0001> <0002> <0058> endbfrange')
    return [said(composite(LIT('Identity-H'), ToUnicode=t), 1, 2, 3), said(composite(LIT('X-H'), b'X'), 1, 2, 4), said(composite(LIT('X-V'), b'X'), 1, 2, 4),
            said(composite(LIT('X-H'), b'X', ToUnicode=t), 1, 2, 3), said(composite(LIT('Identity-H')), 1), said(composite(LIT('X-H'), b'Z'), 1),
            [said(composite(LIT(n), b'X'), 2) for n in ('X-H', 'X-V', 'X-H', 'X-V')]]


def ref_composite():
    return [['X', 'Y', None], ['A', 'B', None], ['A', 'b', None], ['X', 'Y', None], [None], [None], [['B'], ['b'], ['B'], ['b']]]


def code_shared():
    """What one font says changes no other, not even one that shares its parts."""
    t = PDFStream({}, b'1 beginbfchar <0041> <0058> endbfchar')
    a = composite(LIT('Identity-H'))
    (b, c) = (dict(a, ToUnicode=t), dict(a, Encoding=LIT('Identity-V')))
    cache = {}
    d = {'Differences': [65, LIT('Euro')]}
    own = {'BaseEncoding': LIT('nosuch'), 'Differences': [66, LIT('Euro')]}
    plain = [said(simple(Encoding=x), 65, 66) for x in (own, d, {'BaseEncoding': LIT('MacRomanEncoding'), 'Differences': [65, LIT('C')]}, LIT('MacRomanEncoding'), d, {})]
    return [[said(b, 65), said(a, 65), said(b, 65)], [plain, said(simple(), 65, 66)], [get_font(1, b, cache) is get_font(1, b, cache), get_font(2, a, cache) is get_font(1, b, cache)],
            [get_font(3, c, cache).is_vertical(), get_font(2, a, cache).is_vertical()], get_font(None, a, cache) is get_font(None, b, cache)]


def ref_shared():
    return [[['X'], [None], ['X']], [[['A', '\u20ac'], ['\u20ac', 'B'], ['C', 'B'], ['A', 'B'], ['\u20ac', 'B'], ['A', 'B']], ['A', 'B']], [True, False], [True, False], False]
