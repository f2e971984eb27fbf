
from pdfmajor.execptions import UnicodeNotDefined


class Glyphs:
    """A font whose strings are already lists of codes, with arbitrary metrics."""

    def __init__(self, wa, wb, ws, height, descent, multibyte):
        self.fontname = 'F'
        self.wa = wa
        self.wb = wb
        self.ws = ws
        self.height = height
        self.descent = descent
        self.multibyte = multibyte

    def is_vertical(self):
        return False

    def is_multibyte(self):
        return self.multibyte

    def decode(self, s):
        return s

    def char_width(self, cid):
        if cid == 65:
            return self.wa
        if cid == 66:
            return self.wb
        return self.ws

    def char_disp(self, cid):
        return 0

    def get_height(self):
        return self.height

    def get_descent(self):
        return self.descent

    def to_unichr(self, cid):
        return chr(cid)


class Column(Glyphs):
    """The same, written top to bottom."""

    def __init__(self, wa, wb, width, vx, vy):
        Glyphs.__init__(self, wa, wb, wb, 0, 0, True)
        self.width = width
        self.vx = vx
        self.vy = vy

    def is_vertical(self):
        return True

    def get_width(self):
        return self.width

    def char_disp(self, cid):
        if cid == 65:
            return (self.vx, self.vy)
        return (None, self.vy)


def box(b):
    return (b.x0, b.y0, b.x1, b.y1)


def glyphs(items):
    """Text and box of every glyph of every emitted item."""
    return [(c.get_text(), box(c.bbox)) for i in items for b in i for c in b]


def cell(m, x0, y0, x1, y1):
    """The box spanned by two corners under a matrix."""
    (a, b, c, d, e, f) = m
    p, q = a*x0+c*y0+e, b*x0+d*y0+f
    r, s = a*x1+c*y1+e, b*x1+d*y1+f
    if r < p:
        p, r = r, p
    if s < q:
        q, s = s, q
    return (p, q, r, s)


def times(m, n):
    (a1, b1, c1, d1, e1, f1) = m
    (a0, b0, c0, d0, e0, f0) = n
    return (a0*a1+c0*b1, b0*a1+d0*b1, a0*c1+c0*d1, b0*c1+d0*d1, a0*e1+c0*f1+e0, b0*e1+d0*f1+f0)


def page(ctm, font, size):
    """A state inside a text object, with a font."""
    s = fresh()
    s.t_matrix = ctm
    s.text.font = font
    s.text.fontsize = size
    return s


def upright(u, v):
    return (1, 0, 0, 1, u, v)


class Holes(Glyphs):
    """A font that knows no text for code 66."""

    def to_unichr(self, cid):
        if cid == 66:
            raise UnicodeNotDefined('F', cid)
        return chr(cid)


