"""Graphics-state operators, observed through the items painted afterwards."""
from pdfmajor.interpreter.commands.state.PDFGraphicState import PREDEFINED_COLORSPACE


def start(state):
    begin(state)
    state.colorspace_map = PREDEFINED_COLORSPACE.copy()


def painted(state, *toks):
    """Stroke, fill and line width of a path painted after the operators."""
    interp(state, list(toks))
    it = interp(state, [K(b'n'), 1, 2, K(b'm'), 5, 7, K(b'l'), 11, 13, K(b'l'), K(b'S')])[0]
    return (it.linewidth, it.stroke.values, it.stroke.color_space, it.fill.values, it.fill.color_space)


def plain(state):
    return painted(state)


def code_stroke_gray(state: PDFStateStack, g: float):
    """G sets the stroking colour to the given gray and nothing else."""
    start(state)
    return painted(state, g, K(b'G'))


def ref_stroke_gray(state: PDFStateStack, g: float):
    start(state)
    state.graphics.scolor = PDFColor(PREDEFINED_COLORSPACE['DeviceGray'], g)
    return plain(state)


def code_fill_gray(state: PDFStateStack, g: float):
    """g sets the non-stroking colour to the given gray and nothing else."""
    start(state)
    return painted(state, g, K(b'g'))


def ref_fill_gray(state: PDFStateStack, g: float):
    start(state)
    state.graphics.ncolor = PDFColor(PREDEFINED_COLORSPACE['DeviceGray'], g)
    return plain(state)


def code_stroke_rgb(state: PDFStateStack, r: float, g: float, b: float):
    """RG sets the stroking colour, components scaled to 0..255, in order."""
    start(state)
    return painted(state, r, g, b, K(b'RG'))


def ref_stroke_rgb(state: PDFStateStack, r: float, g: float, b: float):
    start(state)
    state.graphics.scolor = PDFColor(PREDEFINED_COLORSPACE['DeviceRGB'], round(r*255), round(g*255), round(b*255))
    return plain(state)


def code_fill_rgb(state: PDFStateStack, r: float, g: float, b: float):
    """rg sets the non-stroking colour, components scaled to 0..255, in order."""
    start(state)
    return painted(state, r, g, b, K(b'rg'))


def ref_fill_rgb(state: PDFStateStack, r: float, g: float, b: float):
    start(state)
    state.graphics.ncolor = PDFColor(PREDEFINED_COLORSPACE['DeviceRGB'], round(r*255), round(g*255), round(b*255))
    return plain(state)


def code_stroke_cmyk(state: PDFStateStack, c: float, m: float, y: float, k: float):
    """K sets the stroking colour."""
    start(state)
    return painted(state, c, m, y, k, K(b'K'))


def ref_stroke_cmyk(state: PDFStateStack, c: float, m: float, y: float, k: float):
    start(state)
    state.graphics.scolor = PDFColor(PREDEFINED_COLORSPACE['DeviceCMYK'], c, m, y, k)
    return plain(state)


def code_fill_cmyk(state: PDFStateStack, c: float, m: float, y: float, k: float):
    """k sets the non-stroking colour."""
    start(state)
    return painted(state, c, m, y, k, K(b'k'))


def ref_fill_cmyk(state: PDFStateStack, c: float, m: float, y: float, k: float):
    start(state)
    state.graphics.ncolor = PDFColor(PREDEFINED_COLORSPACE['DeviceCMYK'], c, m, y, k)
    return plain(state)


def code_fill_space(state: PDFStateStack, a: float, b: float, c: float):
    """cs selects the space sc takes its component count and space from."""
    start(state)
    return (painted(state, N(b'DeviceRGB'), K(b'cs'), a, b, c, K(b'sc')), len(state.argstack))


def ref_fill_space(state: PDFStateStack, a: float, b: float, c: float):
    start(state)
    state.graphics.ncolor = PDFColor(PREDEFINED_COLORSPACE['DeviceRGB'], a, b, c)
    return (plain(state), 0)


def code_stroke_space(state: PDFStateStack, a: float, b: float, c: float):
    """CS selects the space SC takes its component count and space from."""
    start(state)
    return (painted(state, N(b'DeviceRGB'), K(b'CS'), a, b, c, K(b'SC')), len(state.argstack))


def ref_stroke_space(state: PDFStateStack, a: float, b: float, c: float):
    start(state)
    state.graphics.scolor = PDFColor(PREDEFINED_COLORSPACE['DeviceRGB'], a, b, c)
    return (plain(state), 0)


def code_fill_space_n(state: PDFStateStack, a: float, b: float, c: float, d: float):
    """scn takes as many components as a resource colour space has, and leaves the rest."""
    start(state)
    sp = PDFColorSpace('DeviceN', 2)
    state.colorspace_map['Cs7'] = sp
    return (painted(state, d, N(b'Cs7'), K(b'cs'), a, b, K(b'scn')), len(state.argstack))


def ref_fill_space_n(state: PDFStateStack, a: float, b: float, c: float, d: float):
    start(state)
    sp = PDFColorSpace('DeviceN', 2)
    state.graphics.ncolor = PDFColor(sp, a, b)
    return (plain(state), 1)


def code_stroke_space_n(state: PDFStateStack, a: float, b: float, c: float, d: float):
    """SCN takes as many components as a resource colour space has, and leaves the rest."""
    start(state)
    sp = PDFColorSpace('DeviceN', 2)
    state.colorspace_map['Cs7'] = sp
    return (painted(state, d, N(b'Cs7'), K(b'CS'), a, b, K(b'SCN')), len(state.argstack))


def ref_stroke_space_n(state: PDFStateStack, a: float, b: float, c: float, d: float):
    start(state)
    sp = PDFColorSpace('DeviceN', 2)
    state.graphics.scolor = PDFColor(sp, a, b)
    return (plain(state), 1)


def raises_fill_space_unknown_InvalidOperation(state: PDFStateStack):
    """cs with a name that is neither predefined nor in the resources is refused."""
    start(state)
    interp(state, [N(b'NoSuchSpace'), K(b'cs')])


def raises_stroke_space_unknown_InvalidOperation(state: PDFStateStack):
    """CS with a name that is neither predefined nor in the resources is refused."""
    start(state)
    interp(state, [N(b'NoSuchSpace'), K(b'CS')])


def raises_fill_no_space_InvalidOperation(a: float):
    """sc before any colour space was chosen is refused."""
    s = fresh()
    interp(s, [a, K(b'sc')])


def raises_stroke_no_space_InvalidOperation(a: float):
    """SC before any colour space was chosen is refused."""
    s = fresh()
    interp(s, [a, K(b'SC')])


def code_last_wins(state: PDFStateStack, a: float, b: float, c: float, d: float):
    """The later of two colour operators wins, stroking and filling apart."""
    start(state)
    return painted(state, a, K(b'g'), b, K(b'G'), a, b, c, K(b'rg'), a, b, c, d, K(b'K'))


def ref_last_wins(state: PDFStateStack, a: float, b: float, c: float, d: float):
    start(state)
    return painted(state, a, b, c, d, K(b'K'), a, b, c, K(b'rg'))


def code_width(state: PDFStateStack, w: float):
    """w sets the line width of what is painted."""
    start(state)
    return painted(state, w, K(b'w'))


def ref_width(state: PDFStateStack, w: float):
    start(state)
    p = plain(state)
    return (w, p[1], p[2], p[3], p[4])


def line(s):
    g = s.graphics
    return (g.linewidth, g.linecap, g.linejoin, g.miterlimit, g.dash, g.intent, g.flatness)


def code_cap(state: PDFStateStack, v: float):
    """J sets the line cap."""
    begin(state)
    interp(state, [v, K(b'J')])
    return (line(state), state.graphics.scolor, state.graphics.ncolor)


def ref_cap(state: PDFStateStack, v: float):
    begin(state)
    state.graphics.linecap = v
    return (line(state), state.graphics.scolor, state.graphics.ncolor)


def code_join(state: PDFStateStack, v: float):
    """j sets the line join."""
    begin(state)
    interp(state, [v, K(b'j')])
    return line(state)


def ref_join(state: PDFStateStack, v: float):
    begin(state)
    state.graphics.linejoin = v
    return line(state)


def code_miter(state: PDFStateStack, v: float):
    """M sets the miter limit."""
    begin(state)
    interp(state, [v, K(b'M')])
    return line(state)


def ref_miter(state: PDFStateStack, v: float):
    begin(state)
    state.graphics.miterlimit = v
    return line(state)


def code_dash(state: PDFStateStack, v, p: float):
    """d sets dash array and phase."""
    begin(state)
    interp(state, [v, p, K(b'd')])
    return line(state)


def ref_dash(state: PDFStateStack, v, p: float):
    begin(state)
    state.graphics.dash = (v, p)
    return line(state)


def code_intent(state: PDFStateStack, v):
    """ri sets the rendering intent."""
    begin(state)
    interp(state, [v, K(b'ri')])
    return line(state)


def ref_intent(state: PDFStateStack, v):
    begin(state)
    state.graphics.intent = v
    return line(state)


def code_flatness(state: PDFStateStack, v: float):
    """i sets the flatness tolerance."""
    begin(state)
    interp(state, [v, K(b'i')])
    return line(state)


def ref_flatness(state: PDFStateStack, v: float):
    begin(state)
    state.graphics.flatness = v
    return line(state)


def code_cm(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    """cm multiplies the operand matrix in front of the current one."""
    begin(state)
    interp(state, [a, b, c, d, e, f, K(b'cm')])
    m = state.t_matrix
    return (m[0], m[1], m[2], m[3], m[4], m[5])


def ref_cm(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    begin(state)
    (A, B, C, D, E, F) = state.t_matrix
    return (a*A + b*C, a*B + b*D, c*A + d*C, c*B + d*D, e*A + f*C + E, e*B + f*D + F)
