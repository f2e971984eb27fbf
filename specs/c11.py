"""Pages: size, placement, passes."""
from pdfmajor.interpreter import PageInterpreter
from pdfmajor.parser.PDFPage import PDFPage


class Toks(PDFStream):
    """A stream whose content is the given token list."""

    def __init__(self, toks):
        PDFStream.__init__(self, {}, b'')
        self.toks = toks


def page(box, rotate, toks, extra=None):
    d = {'MediaBox': box, 'Rotate': rotate, 'Contents': [Toks(toks)]}
    if extra:
        d.update(extra)
    return PageInterpreter(PDFPage(None, 1, d), 0)


def line(a, b, c, d):
    return [a, b, K(b'm'), c, d, K(b'l'), K(b'S')]


def boxes(p):
    return [(i.x0, i.y0, i.x1, i.y1) for i in p]


def low(x0, x1):
    return min(x0, x1)


def norm_box(x0, y0, x1, y1):
    return (min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1))


def code_size_0(x0: float, y0: float, x1: float, y1: float):
    """The size of an unrotated page is that of its media box, whichever two corners are given."""
    p = page([x0, y0, x1, y1], 0, [])
    return (p.width, p.height)


def ref_size_0(x0: float, y0: float, x1: float, y1: float):
    return (max(x0, x1) - min(x0, x1), max(y0, y1) - min(y0, y1))


def code_size_90(x0: float, y0: float, x1: float, y1: float):
    """A page turned by 90 degrees has width and height exchanged."""
    p = page([x0, y0, x1, y1], 90, [])
    return (p.width, p.height)


def ref_size_90(x0: float, y0: float, x1: float, y1: float):
    return (max(y0, y1) - min(y0, y1), max(x0, x1) - min(x0, x1))


def code_size_180(x0: float, y0: float, x1: float, y1: float):
    """A page turned by 180 degrees keeps width and height."""
    p = page([x0, y0, x1, y1], 180, [])
    return (p.width, p.height)


def ref_size_180(x0: float, y0: float, x1: float, y1: float):
    return (max(x0, x1) - min(x0, x1), max(y0, y1) - min(y0, y1))


def code_size_270(x0: float, y0: float, x1: float, y1: float):
    """A page turned by 270 degrees has width and height exchanged."""
    p = page([x0, y0, x1, y1], 270, [])
    return (p.width, p.height)


def ref_size_270(x0: float, y0: float, x1: float, y1: float):
    return (max(y0, y1) - min(y0, y1), max(x0, x1) - min(x0, x1))


def code_size_minus90(x0: float, y0: float, x1: float, y1: float):
    """A rotation by minus 90 degrees is one by 270."""
    p = page([x0, y0, x1, y1], -90, [])
    return (p.width, p.height, p.page.rotate)


def ref_size_minus90(x0: float, y0: float, x1: float, y1: float):
    return (max(y0, y1) - min(y0, y1), max(x0, x1) - min(x0, x1), 270)


def code_size_450(x0: float, y0: float, x1: float, y1: float):
    """Full turns do not count: 450 degrees is 90, 360 is none."""
    p = page([x0, y0, x1, y1], 450, [])
    q = page([x0, y0, x1, y1], 360, [])
    return (p.width, p.height, p.page.rotate, q.width, q.height, q.page.rotate)


def ref_size_450(x0: float, y0: float, x1: float, y1: float):
    w = max(x0, x1) - min(x0, x1)
    h = max(y0, y1) - min(y0, y1)
    return (h, w, 90, w, h, 0)


def code_place_0(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    """Content is shifted so that the lower-left corner of the media box is the origin."""
    return boxes(page([x0, y0, x1, y1], 0, line(a, b, c, d)))


def ref_place_0(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    (l, k, r, t) = norm_box(x0, y0, x1, y1)
    return [norm_box(a - l, b - k, c - l, d - k)]


def code_place_90(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    """A quarter turn clockwise takes (x, y) to (y - bottom, right - x)."""
    return boxes(page([x0, y0, x1, y1], 90, line(a, b, c, d)))


def ref_place_90(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    (l, k, r, t) = norm_box(x0, y0, x1, y1)
    return [norm_box(b - k, r - a, d - k, r - c)]


def code_place_180(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    """A half turn takes (x, y) to (right - x, top - y)."""
    return boxes(page([x0, y0, x1, y1], 180, line(a, b, c, d)))


def ref_place_180(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    (l, k, r, t) = norm_box(x0, y0, x1, y1)
    return [norm_box(r - a, t - b, r - c, t - d)]


def code_place_270(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    """Three quarter turns take (x, y) to (top - y, x - left)."""
    return boxes(page([x0, y0, x1, y1], 270, line(a, b, c, d)))


def ref_place_270(x0: float, y0: float, x1: float, y1: float, a: float, b: float, c: float, d: float):
    (l, k, r, t) = norm_box(x0, y0, x1, y1)
    return [norm_box(t - b, a - l, t - d, c - l)]


def styles(p):
    return [(i.linewidth, i.x0, i.y0, i.x1, i.y1, len(i.paths)) for i in p]


def code_second_pass(a: float, b: float, c: float, d: float, w: float):
    """A second pass over a page yields the same items as the first, whatever its content left behind."""
    p = page([0, 0, 9, 9], 0, line(a, b, c, d) + [w, K(b'w'), 2, 0, 0, 2, 5, 5, K(b'cm'), 7, 7, K(b'm'), 1, 2])
    return (styles(p), styles(p))


def ref_second_pass(a: float, b: float, c: float, d: float, w: float):
    (x0, y0, x1, y1) = norm_box(a, b, c, d)
    s = [(0, x0, y0, x1, y1, 2)]
    return (s, s)


def code_second_pass_text():
    """A text object left open by the content does not make a second pass fail."""
    p = page([0, 0, 9, 9], 0, [K(b'BT')])
    return (len([i for i in p]), len([i for i in p]))


def ref_second_pass_text():
    return (0, 0)


def code_interleaved(a: float, b: float, c: float, d: float):
    """Two passes over a page that run at the same time do not disturb each other."""
    p = page([0, 0, 9, 9], 0, line(a, b, c, d) + [7, K(b'w')] + line(c, d, a, b))
    r = []
    for i in p:
        r.append((i.linewidth, [(j.linewidth, j.x0, j.y0) for j in p]))
    return r


def ref_interleaved(a: float, b: float, c: float, d: float):
    (x0, y0, x1, y1) = norm_box(a, b, c, d)
    s = [(0, x0, y0), (7, x0, y0)]
    return [(0, s), (7, s)]


def code_two_pages(a: float, b: float, c: float, d: float, w: float):
    """Nothing one page sets carries over to another one."""
    p = page([0, 0, 9, 9], 0, [w, K(b'w'), 2, 0, 0, 2, 5, 5, K(b'cm'), 7, 7, K(b'm')])
    q = page([0, 0, 9, 9], 0, line(a, b, c, d))
    r = styles(p)
    return (r, styles(q))


def ref_two_pages(a: float, b: float, c: float, d: float, w: float):
    (x0, y0, x1, y1) = norm_box(a, b, c, d)
    return ([], [(0, x0, y0, x1, y1, 2)])


def code_several_streams(a: float, b: float, c: float, d: float):
    """A page that names one stream instead of a list, or names no content at all."""
    s = Toks(line(a, b, c, d))
    p = PageInterpreter(PDFPage(None, 1, {'MediaBox': [0, 0, 9, 9], 'Contents': s}), 0)
    q = PageInterpreter(PDFPage(None, 1, {'MediaBox': [0, 0, 9, 9]}), 0)
    return (boxes(p), boxes(q))


def ref_several_streams(a: float, b: float, c: float, d: float):
    return ([norm_box(a, b, c, d)], [])


# ------------------------------------------------------------------ histories of a document
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef


class File:
    """A file that holds a list of page contents; it cannot be read once closed."""

    def __init__(self, pages):
        self.pages = pages
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True

    def read(self):
        return self.data

    def close(self):
        self.closed = True

    @property
    def data(self):
        if self.closed:
            raise ValueError('closed file')
        return self.pages


def fake_open(path, mode='r'):
    return File(path)


def memory(data):
    return File(data)


class Par:
    def __init__(self, fp):
        self.fp = fp


class Doc:
    def __init__(self, parser, password='', caching=True):
        self.fp = parser.fp
        self.is_extractable = True


class Lazy(PDFStream):
    """A content stream that is read from the file when it is used."""

    def __init__(self, fp, i):
        PDFStream.__init__(self, {}, b'')
        self.fp = fp
        self.i = i

    @property
    def toks(self):
        return self.fp.data[self.i]


def pages_of(document):
    out = []
    n = len(document.fp.data)
    for i in range(n):
        out.append(PDFPage(document, i, {'MediaBox': [0, 0, 9, 9], 'Contents': [Lazy(document.fp, i)]}))
    return out


def lines(a, b):
    return [line(a, 0, b, 1), line(b, 2, a, 3), line(a, 4, b, 5)]


def heights(p):
    return [i.y0 for i in p]


def ys(d):
    return [heights(p) for p in d]


def code_document(a: float, b: float):
    """Iterating a document yields every page, in order, with its own content."""
    return ys(PDFInterpreter(lines(a, b)))


def ref_document(a: float, b: float):
    return [[0], [2], [4]]


def code_document_twice(a: float, b: float):
    """A second iteration yields the same pages again."""
    d = PDFInterpreter(lines(a, b))
    return (ys(d), ys(d))


def ref_document_twice(a: float, b: float):
    return ([[0], [2], [4]], [[0], [2], [4]])


def code_document_preload(a: float, b: float):
    """Preloading changes nothing about what is yielded, nor does iterating the pages only after all were fetched."""
    d = PDFInterpreter(lines(a, b), preload=True)
    e = [p for p in PDFInterpreter(lines(a, b))]
    return (ys(d), ys(d), ys(e))


def ref_document_preload(a: float, b: float):
    r = [[0], [2], [4]]
    return (r, r, r)


def code_document_abandoned(a: float, b: float):
    """An iteration that was given up leaves later ones complete."""
    d = PDFInterpreter(lines(a, b))
    for p in d:
        heights(p)
        break
    return ys(d)


def ref_document_abandoned(a: float, b: float):
    return [[0], [2], [4]]


def code_document_nested(a: float, b: float):
    """Two iterations of one document at the same time do not disturb each other."""
    d = PDFInterpreter(lines(a, b))
    r = []
    for p in d:
        r.append((heights(p), ys(d)))
    return (r, ys(d))


def ref_document_nested(a: float, b: float):
    s = [[0], [2], [4]]
    return ([([0], s), ([2], s), ([4], s)], s)


def raises_no_pages_EmptyDocumentError():
    """A document without pages is refused rather than silently empty."""
    return ys(PDFInterpreter([]))
