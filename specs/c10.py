"""Form XObjects and images."""
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef


class Form(PDFStream):
    """A stream whose content is the given token list."""

    def __init__(self, attrs, toks):
        PDFStream.__init__(self, attrs, b'')
        self.toks = toks


def form(toks, extra=None):
    d = {'Subtype': LITERAL_FORM, 'BBox': [0, 0, 1, 1]}
    if extra:
        d.update(extra)
    return Form(d, toks)


def image():
    return PDFStream({'Subtype': LITERAL_IMAGE, 'Width': 3, 'Height': 4}, b'')


def at(a, b, c, d, e, f):
    s = fresh()
    s.t_matrix = (a, b, c, d, e, f)
    return s


def hull4(m, x0, y0, x1, y1):
    (a, b, c, d, e, f) = m
    xs = [a*x0+c*y0+e, a*x1+c*y0+e, a*x0+c*y1+e, a*x1+c*y1+e]
    ys = [b*x0+d*y0+f, b*x1+d*y0+f, b*x0+d*y1+f, b*x1+d*y1+f]
    return (min(xs), min(ys), max(xs), max(ys))


def line():
    return [0, 0, K(b'm'), 3, 5, K(b'l'), K(b'S')]


def code_image(a: float, b: float, c: float, d: float, e: float, f: float):
    """An image is one item covering the unit square under the transformation matrix."""
    s = at(a, b, c, d, e, f)
    s.xobjmap = {'I': image()}
    return [(isinstance(i, LTImage), box(i.bbox), i.srcsize) for i in interp(s, [N(b'I'), K(b'Do')])]


def ref_image(a: float, b: float, c: float, d: float, e: float, f: float):
    return [(True, hull4((a, b, c, d, e, f), 0, 0, 1, 1), (3, 4))]


def code_image_is_stream():
    """The image item carries the image's own stream."""
    s = fresh()
    o = image()
    s.xobjmap = {'I': o, 'J': image()}
    r = interp(s, [N(b'I'), K(b'Do'), N(b'J'), K(b'Do')])
    return (r[0].stream is o, r[1].stream is o)


def ref_image_is_stream():
    return (True, False)


def code_inline_image(a: float, b: float, c: float, d: float, e: float, f: float):
    """An inline image with a width and a height is one item covering the unit square under the matrix."""
    s = at(a, b, c, d, e, f)
    o = PDFStream({'W': 3, 'H': 4}, b'')
    return [(isinstance(i, LTImage), box(i.bbox), i.srcsize, i.stream is o) for i in interp(s, [o, K(b'EI')])]


def ref_inline_image(a: float, b: float, c: float, d: float, e: float, f: float):
    return [(True, hull4((a, b, c, d, e, f), 0, 0, 1, 1), (3, 4), True)]


def code_form_box(a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float, x: float, y: float,
                  p: float, q: float, r: float, t: float):
    """A form is one item whose box is its own box under its own matrix, then the current one."""
    s = at(a, b, c, d, e, f)
    s.xobjmap = {'F': form([], {'BBox': [p, q, r, t], 'Matrix': [k, 0, 0, l, x, y]})}
    return [(isinstance(i, LTXObject), box(i.bbox)) for i in interp(s, [N(b'F'), K(b'Do')])]


def ref_form_box(a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float, x: float, y: float,
                 p: float, q: float, r: float, t: float):
    return [(True, hull4(times((k, 0, 0, l, x, y), (a, b, c, d, e, f)), p, q, r, t))]


def code_form_no_matrix(a: float, b: float, c: float, d: float, e: float, f: float,
                        p: float, q: float, r: float, t: float):
    """A form without a matrix uses the current one alone."""
    s = at(a, b, c, d, e, f)
    s.xobjmap = {'F': form(line(), {'BBox': [p, q, r, t]})}
    i = interp(s, [N(b'F'), K(b'Do')])[0]
    return (box(i.bbox), [box(j.bbox) for j in i])


def ref_form_no_matrix(a: float, b: float, c: float, d: float, e: float, f: float,
                       p: float, q: float, r: float, t: float):
    b2 = Bbox(e, f, a*3+c*5+e, b*3+d*5+f)
    return (hull4((a, b, c, d, e, f), p, q, r, t), [box(b2)])


def code_form_matrix_inside(a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float,
                            x: float, y: float):
    """What a form draws is placed by its own matrix, then the one current where it is invoked."""
    s = at(a, b, c, d, e, f)
    s.xobjmap = {'F': form(line(), {'Matrix': [k, 0, 0, l, x, y]})}
    return [box(j.bbox) for i in interp(s, [N(b'F'), K(b'Do')]) for j in i]


def ref_form_matrix_inside(a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float,
                           x: float, y: float):
    (a, b, c, d, e, f) = times((k, 0, 0, l, x, y), (a, b, c, d, e, f))
    return [box(Bbox(e, f, a*3+c*5+e, b*3+d*5+f))]


def code_cm_before(a: float, b: float, c: float, d: float, e: float, f: float):
    """The matrix current at the invocation counts, not a later or an earlier one."""
    s = fresh()
    s.xobjmap = {'F': form(line())}
    return [box(j.bbox) for i in interp(s, [K(b'q'), a, b, c, d, e, f, K(b'cm'), N(b'F'), K(b'Do'), K(b'Q'),
                                            N(b'F'), K(b'Do'), 2, 0, 0, 2, 0, 0, K(b'cm')]) for j in i]


def ref_cm_before(a: float, b: float, c: float, d: float, e: float, f: float):
    return [box(Bbox(e, f, a*3+c*5+e, b*3+d*5+f)), (0, 0, 3, 5)]


def code_children(w: float):
    """A form holds the items its content draws, in order, and they do not appear outside it."""
    s = fresh()
    s.xobjmap = {'F': form(line() + [w, K(b'w')] + line())}
    r = interp(s, line() + [N(b'F'), K(b'Do')] + line())
    return [[j.linewidth for j in i] if isinstance(i, LTXObject) else i.linewidth for i in r]


def ref_children(w: float):
    z = fresh().graphics.linewidth
    return [z, [z, w], z]


def code_inherits(w: float, r: float, g: float, b: float):
    """A form starts with the graphics parameters of where it is invoked."""
    s = fresh()
    s.xobjmap = {'F': form(line())}
    i = interp(s, [w, K(b'w'), r, g, b, K(b'RG'), b, g, r, K(b'rg'), N(b'F'), K(b'Do'), 1, K(b'w'), 1, K(b'G')])[0]
    return [(j.linewidth, j.stroke.values, j.fill.values) for j in i]


def ref_inherits(w: float, r: float, g: float, b: float):
    s = fresh()
    return [(i.linewidth, i.stroke.values, i.fill.values) for i in interp(s, [
        w, K(b'w'), r, g, b, K(b'RG'), b, g, r, K(b'rg')] + line())]


def code_isolated(w: float, r: float, g: float, b: float):
    """Nothing a form sets changes the state of the content that invokes it."""
    s = at(1, 2, 3, 4, 5, 6)
    s.xobjmap = {'F': form([K(b'q'), w, K(b'w'), w, K(b'M'), r, g, b, K(b'rg'), b, g, r, K(b'RG'), 2, 0, 0, 2, 0, 0, K(b'cm'),
                            w, K(b'Tc'), w, K(b'TL'), 9, 9, K(b'm'), 77])}
    interp(s, [N(b'F'), K(b'Do')])
    g = s.graphics
    z = fresh().graphics
    return (g.linewidth == z.linewidth, g.miterlimit == z.miterlimit, g.ncolor.values == z.ncolor.values,
            g.scolor.values == z.scolor.values, s.t_matrix, s.text.charspace, s.text.leading, s.curvestacks, s.argstack,
            len(s.gstack))


def ref_isolated(w: float, r: float, g: float, b: float):
    return (True, True, True, True, (1, 2, 3, 4, 5, 6), 0, 0, [], [], 0)


def code_nested(a: float, e: float, f: float, w: float):
    """Forms nest: an inner form is an item of the outer one and is placed under both."""
    s = fresh()
    inner = form(line())
    outer = form([1, 0, 0, 1, e, f, K(b'cm'), N(b'G'), K(b'Do')],
                 {'Matrix': [a, 0, 0, a, 0, 0], 'Resources': {'XObject': {'G': inner}}})
    s.xobjmap = {'F': outer}
    return [[[box(k.bbox) for k in j] for j in i] for i in interp(s, [N(b'F'), K(b'Do')])]


def ref_nested(a: float, e: float, f: float, w: float):
    return [[[box(Bbox(a*e, a*f, a*3+a*e, a*5+a*f))]]]


def code_own_resources():
    """A form with resources of its own uses those."""
    s = fresh()
    mine, theirs = image(), image()
    s.resources = {'XObject': {'I': theirs}}
    s.xobjmap = {'F': form([N(b'I'), K(b'Do')], {'Resources': {'XObject': {'I': mine}}}), 'I': theirs}
    return [j.stream is mine for i in interp(s, [N(b'F'), K(b'Do')]) for j in i]


def ref_own_resources():
    return [True]


def code_page_resources():
    """A form without resources uses those of the content that invokes it."""
    s = fresh()
    theirs = image()
    s.resources = {'XObject': {'I': theirs}}
    s.xobjmap = {'F': form([N(b'I'), K(b'Do')]), 'I': theirs}
    return [j.stream is theirs for i in interp(s, [N(b'F'), K(b'Do')]) for j in i]


def ref_page_resources():
    return [True]


class FontRef(PDFObjRef):
    """A reference to a font that has been made already."""

    def __init__(self):
        self.objid = 7

    def resolve(self, default=None):
        return {}


def in_form(flag, wa, wb, h):
    s = fresh()
    s.text.ignore_bad_chars = flag
    s.xobjmap = {'F': form([K(b'BT'), N(b'T'), 1, K(b'Tf'), [65, 66, 65], K(b'Tj'), K(b'ET')],
                           {'Resources': {'Font': {'T': FontRef()}}})}
    out = []
    for i in process_command_stream([N(b'F'), K(b'Do')], {7: Holes(wa, wb, wb, h, 0, False)}, s):
        out.extend(glyphs([j for j in i]))
    return out


def code_ignore_flag(wa: float, wb: float, h: float):
    """Ignoring bad characters holds inside forms too, and fonts are found there."""
    return in_form(True, wa, wb, h)


def ref_ignore_flag(wa: float, wb: float, h: float):
    o = (1, 0, 0, 1, 0, 0)
    return [('A', cell(o, 0, 0, wa, h)), ('', cell(o, wa, 0, wa+wb, h)), ('A', cell(o, wa+wb, 0, 2*wa+wb, h))]


def raises_bad_char_in_form_UnicodeNotDefined(wa: float, wb: float, h: float):
    """When bad characters are not ignored they are an error inside forms too."""
    in_form(False, wa, wb, h)


def raises_unknown_name_InvalidOperation(state: PDFStateStack):
    """Invoking a name that the resources lack is refused."""
    begin(state)
    state.xobjmap = {'I': image()}
    interp(state, [N(b'X'), K(b'Do')])


def code_other_subtype(state: PDFStateStack):
    """An external object that is neither image nor form is skipped."""
    begin(state)
    state.xobjmap = {'X': PDFStream({'Subtype': N(b'PS')}, b'')}
    return (len(interp(state, [N(b'X'), K(b'Do')])), state.argstack)


def ref_other_subtype(state: PDFStateStack):
    return (0, [])
