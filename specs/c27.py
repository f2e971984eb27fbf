"""How wide and how high characters are, and where vertical ones stand: what the font says of them."""
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.execptions import PDFObjectNotFound
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font


class Owner:
    """The document that references lead to."""

    def __init__(self, known=None):
        self.known = known or {}

    def getobj(self, objid):
        if objid not in self.known:
            raise PDFObjectNotFound(objid)
        return self.known[objid]


def made(spec):
    return get_font(None, spec, {})


def metrics(fontname):
    """The widths of the standard fonts, known by name."""
    if fontname != 'Std':
        raise KeyError(fontname)
    return ({'FontName': 'Std', 'Ascent': 7, 'Descent': -2}, {'A': 500, 'B': 600, '\u20ac': 700})


def simple(subtype='Type1', name='X', **more):
    return dict({'Type': LIT('Font'), 'Subtype': LIT(subtype), 'BaseFont': LIT(name)}, **more)


def composite(enc='Identity-H', descriptor=None, **more):
    """A font with codes of several bytes; what is more belongs to the font of its characters."""
    d = dict({'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Y'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity'}, 'FontDescriptor': descriptor or {}}, **more)
    return {'Type': LIT('Font'), 'Subtype': LIT('Type0'), 'BaseFont': LIT('X'), 'Encoding': LIT(enc), 'DescendantFonts': [d]}


def widths(spec, *codes):
    f = made(spec)
    return [f.char_width(c) for c in codes]


def per1000(*ws):
    return [w * .001 for w in ws]


def code_simple(a: float, b: float, m: float, f: int):
    """From the first code on; the missing width for all others."""
    d = {'MissingWidth': m}
    o = Owner({4: a, 5: f, 6: [PDFObjRef(Owner({4: a}), 4, 0), b], 7: d})
    return [widths(simple(FirstChar=f, Widths=[a, b], FontDescriptor=d), f, f + 1, f + 2, f - 1),
            widths(simple('TrueType', FirstChar=f, Widths=[a, b]), f, f + 1, f + 2),
            widths(simple('TrueType', FirstChar=PDFObjRef(o, 5, 0), Widths=PDFObjRef(o, 6, 0), FontDescriptor=PDFObjRef(o, 7, 0)), f, f + 1, f + 2),
            widths(simple('MMType1', FontDescriptor=d), 65, 0), widths(simple(Widths=[a, b]), 0, 1, 2), widths(simple(), 65),
            widths(simple(Widths=[a, b], FontDescriptor={'MissingWidth': 0}), 0, 5)]


def ref_simple(a: float, b: float, m: float, f: int):
    return [per1000(a, b, m, m), per1000(a, b, 0), per1000(a, b, m), per1000(m, m), per1000(a, b, 0), per1000(0), per1000(a, 0)]


def code_standard(a: float):
    """The standard fonts know their characters, whatever codes they have."""
    d = {'Differences': [1, LIT('A'), LIT('Euro')]}
    return [widths(simple(name='Std'), 65, 66, 67), widths(simple('TrueType', 'Std', Encoding=LIT('WinAnsiEncoding')), 65, 128, 1), widths(simple(name='Std', Encoding=d), 1, 2, 3),
            [made(simple(name='Std')).get_ascent(), made(simple(name='Std')).get_descent()]]


def ref_standard(a: float):
    return [per1000(500, 600, 0), per1000(500, 700, 0), per1000(500, 700, 0), per1000(7, -2)]


def code_type3(a: float, x: float, y: float, l: float, b: float, r: float, t: float):
    """Fonts with a space of their own."""
    m = [x, 0, 0, y, 0, 0]
    s = {'Type': LIT('Font'), 'Subtype': LIT('Type3'), 'FontBBox': [l, b, r, t], 'FontMatrix': m, 'FirstChar': 3, 'Widths': [a], 'Encoding': {'Differences': [3, LIT('g')]}}
    f = made(s)
    g = made(dict(s, FontDescriptor={'FontBBox': [1, 2, 3, 4], 'MissingWidth': 5}))
    return [[f.char_width(3), f.char_width(4)], [f.get_ascent(), f.get_descent()], [g.char_width(3), g.char_width(4), g.get_ascent(), g.get_descent()]]


def ref_type3(a: float, x: float, y: float, l: float, b: float, r: float, t: float):
    return [[a * x, 0], [t * y, b * y], [a * x, 5 * x, 4 * y, 2 * y]]


def code_composite(a: float, b: float, c: float, d: float):
    """Widths listed from a code on or given for a range; the default width for all others."""
    o = Owner({4: [a, b], 5: 7, 6: c, 7: d})
    return [widths(composite(W=[1, [a, b], 5, 7, c, 9, [d]]), 0, 1, 2, 3, 4, 5, 6, 7, 8, 9), widths(composite(W=[1, [a]], DW=d), 1, 2), widths(composite(DW=0), 1), widths(composite(), 1),
            widths(composite(W=[1, PDFObjRef(o, 4, 0), 5, PDFObjRef(o, 5, 0), PDFObjRef(o, 6, 0)], DW=PDFObjRef(o, 7, 0)), 1, 2, 3, 5, 6, 7),
            widths(composite(W=[1, [PDFObjRef(o, 6, 0)], 5.0, 6.0, a]), 1, 5, 6), widths(composite(descriptor={'MissingWidth': a}, DW=0), 1),
            widths(composite(W=PDFObjRef(o, 4, 0)), 1), widths(composite(W=[1, 3, a, 2, 2, b, 4]), 1, 2, 3, 4), widths(composite(W=[]), 1)]


def ref_composite(a: float, b: float, c: float, d: float):
    return [per1000(1000, a, b, 1000, 1000, c, c, c, 1000, d), per1000(a, d), per1000(0), per1000(1000), per1000(a, b, d, c, c, c), per1000(c, a, a), per1000(0),
            per1000(1000), per1000(a, b, a, 1000), per1000(1000)]


def vertical(f, *cs):
    return [(f.char_width(c), f.char_disp(c)) for c in cs]


def code_vertical(a: float, b: float, c: float, d: float):
    """In vertical fonts, how far down and where from: listed, given for ranges, or by default."""
    o = Owner({4: [a, b], 5: [1, [a, b, c]], 6: a})
    return [vertical(made(composite('Identity-V', W2=[1, [a, b, c, d, a, b], 5, 6, b, c, d])), 1, 2, 3, 5, 6, 7),
            vertical(made(composite('Identity-V', DW2=[a, b], W2=[1, [a, b, c]], W=[1, [7]], DW=8)), 1, 2),
            vertical(made(composite('Identity-V', DW2=PDFObjRef(o, 4, 0), W2=PDFObjRef(o, 5, 0))), 1, 2),
            vertical(made(composite('Identity-V', DW2=[PDFObjRef(o, 6, 0), b], W2=[1, [PDFObjRef(o, 6, 0), b, c], 3, 3, PDFObjRef(o, 6, 0), b, c])), 1, 2, 3),
            [made(composite('Identity-V')).is_vertical(), made(composite()).is_vertical(), made(simple()).is_vertical()],
            [made(composite()).is_multibyte(), made(simple()).is_multibyte()],
            [made(composite(W2=[1, [a, b, c]])).char_disp(1), made(simple()).char_disp(1)]]


def ref_vertical(a: float, b: float, c: float, d: float):
    n = (-1000 * .001, (None, 880))
    return [[(a * .001, (b, c)), (d * .001, (a, b)), n, (b * .001, (c, d)), (b * .001, (c, d)), n],
            [(a * .001, (b, c)), (b * .001, (None, a))],
            [(a * .001, (b, c)), (b * .001, (None, a))],
            [(a * .001, (b, c)), (b * .001, (None, a)), (a * .001, (b, c))],
            [True, False, False], [True, False], [0, 0]]


def code_heights(a: float, d: float, l: float, b: float, r: float, t: float):
    """From the descriptor of the font."""
    o = Owner({4: a, 5: [l, b, r, t], 6: r})
    (f, g) = (made(simple(FontDescriptor={'Ascent': a, 'Descent': d})), made(composite(descriptor={'Ascent': PDFObjRef(o, 4, 0), 'Descent': d})))
    return [[f.get_ascent(), f.get_descent(), f.get_height()], [g.get_ascent(), g.get_descent()],
            made(simple(FontDescriptor={'FontBBox': [l, b, l + 3, b + 4]})).get_height(), made(simple(FontDescriptor={'FontBBox': PDFObjRef(o, 5, 0)})).bbox,
            made(simple(FontDescriptor={'FontBBox': [l, b, PDFObjRef(o, 6, 0), t]})).bbox]


def ref_heights(a: float, d: float, l: float, b: float, r: float, t: float):
    return [[a * .001, d * .001, (a - d) * .001], [a * .001, d * .001], 4 * .001, [l, b, r, t], [l, b, r, t]]


def code_names():
    """Whatever it is called, a font has a name and may have a weight."""
    o = Owner({4: LIT('N'), 5: 700})
    (f, g, h) = (made(simple(FontDescriptor={'FontName': LIT('Times-Bold')})), made(simple(FontDescriptor={'FontName': PDFObjRef(o, 4, 0), 'FontWeight': PDFObjRef(o, 5, 0)})),
                 made(simple(FontDescriptor={'FontName': LIT(b'\xffbold')})))
    i = made(simple(FontDescriptor={'FontWeight': 400}))
    return [[f.fontname, f.font_weight, f.is_bold], [g.fontname, g.font_weight, g.is_bold], [h.fontname, h.font_weight, h.is_bold], [i.fontname, i.font_weight, i.is_bold],
            [made(simple()).font_weight, made(simple()).is_bold]]


def ref_names():
    return [['Times-Bold', 'bold', True], ['N', 700, True], ['\xffbold', 'bold', True], ['unknown', 400, False], [None, False]]
