"""Which item a painted path becomes, and its bounding box."""


def box(i):
    return (i.bbox.x0, i.bbox.y0, i.bbox.x1, i.bbox.y1)


def start(state):
    begin(state)
    state.curvestacks = []


def T(state, x, y):
    (a, b, c, d, e, f) = state.t_matrix
    return (a*x + c*y + e, b*x + d*y + f)


def kind(items):
    return [(i.__class__, box(i)) for i in items]


def code_line(state: PDFStateStack, x: float, y: float, u: float, v: float):
    """A single straight segment is a line item, vertical or horizontal when it is so on the page."""
    start(state)
    return kind(interp(state, [x, y, K(b'm'), u, v, K(b'l'), K(b'S')]))


def ref_line(state: PDFStateStack, x: float, y: float, u: float, v: float):
    (x0, y0) = T(state, x, y)
    (x1, y1) = T(state, u, v)
    b = (min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1))
    if x0 == x1:
        return [(LTVerticalLine, b)]
    if y0 == y1:
        return [(LTHorizontalLine, b)]
    return [(LTLine, b)]


def code_quad(state: PDFStateStack, x0: float, y0: float, x1: float, y1: float, x2: float, y2: float, x3: float, y3: float):
    """A closed four-sided path is a rectangle item only when it is upright on the page; never nothing."""
    state.t_matrix = MATRIX_IDENTITY
    start(state)
    its = interp(state, [x0, y0, K(b'm'), x1, y1, K(b'l'), x2, y2, K(b'l'), x3, y3, K(b'l'), K(b'h'), K(b'f')])
    return [i.__class__ for i in its]


def ref_quad(state: PDFStateStack, x0: float, y0: float, x1: float, y1: float, x2: float, y2: float, x3: float, y3: float):
    if x0 == x1 and y1 == y2 and x2 == x3 and y3 == y0:
        return [LTRect]
    if y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0:
        return [LTRect]
    return [LTCurve]


def code_rect_box(state: PDFStateStack, x: float, y: float, w: float, h: float, k: float, dx: float, dy: float):
    """A rectangle under an upright matrix is a rectangle item with the transformed bounding box."""
    state.t_matrix = (k, 0, 0, k, dx, dy)
    start(state)
    return kind(interp(state, [x, y, w, h, K(b're'), K(b'f')]))


def ref_rect_box(state: PDFStateStack, x: float, y: float, w: float, h: float, k: float, dx: float, dy: float):
    xs = [k*x + dx, k*(x + w) + dx]
    ys = [k*y + dy, k*(y + h) + dy]
    return [(LTRect, (min(xs), min(ys), max(xs), max(ys)))]


def code_rect_box_turned(state: PDFStateStack, x: float, y: float, w: float, h: float, k: float, dx: float, dy: float):
    """A rectangle on a page turned by 90 degrees is a rectangle item with the transformed bounding box."""
    state.t_matrix = (0, -k, k, 0, dx, dy)
    start(state)
    return kind(interp(state, [x, y, w, h, K(b're'), K(b'f')]))


def ref_rect_box_turned(state: PDFStateStack, x: float, y: float, w: float, h: float, k: float, dx: float, dy: float):
    xs = [k*y + dx, k*(y + h) + dx]
    ys = [-k*x + dy, -k*(x + w) + dy]
    return [(LTRect, (min(xs), min(ys), max(xs), max(ys)))]


def code_closed_line(state: PDFStateStack, x: float, y: float, u: float, v: float):
    """A closed single segment, an open polyline and a lone rectangle part are general curves."""
    start(state)
    return [i.__class__ for i in interp(state, [
        x, y, K(b'm'), u, v, K(b'l'), K(b's'),
        x, y, K(b'm'), u, v, K(b'l'), v, u, K(b'l'), K(b'S'),
        x, y, K(b'm'), u, v, x, u, v, y, K(b'c'), K(b'S'),
        x, y, K(b'm'), u, v, x, u, K(b'v'), K(b'S'),
        x, y, u, v, K(b're'), x, y, u, v, K(b're'), K(b'f')])]


def ref_closed_line(state: PDFStateStack, x: float, y: float, u: float, v: float):
    return [LTCurve, LTCurve, LTCurve, LTCurve, LTCurve]


def code_curve_box(state: PDFStateStack, x: float, y: float, a: float, b: float, c: float, d: float,
                   e: float, f: float, g: float, h: float, i: float, j: float):
    """With the identity matrix the box of a general path spans the end points of its segments."""
    state.t_matrix = MATRIX_IDENTITY
    start(state)
    return kind(interp(state, [x, y, K(b'm'), 1, 2, 3, 4, a, b, K(b'c'), 5, 6, c, d, K(b'v'), 7, 8, e, f, K(b'y'),
                               g, h, K(b'l'), K(b'h'), i, j, K(b'm'), K(b'S')]))


def ref_curve_box(state: PDFStateStack, x: float, y: float, a: float, b: float, c: float, d: float,
                  e: float, f: float, g: float, h: float, i: float, j: float):
    xs = [x, a, c, e, g, i]
    ys = [y, b, d, f, h, j]
    return [(LTCurve, (min(xs), min(ys), max(xs), max(ys)))]


def code_curve_box_ctm(state: PDFStateStack, x: float, y: float, a: float, b: float, c: float, d: float, k: float):
    """The box of a general path is on the page: the transformation matrix applies to it as to lines."""
    state.t_matrix = (1, 0, 0, 1, k, k)
    start(state)
    return kind(interp(state, [x, y, K(b'm'), a, b, K(b'l'), c, d, K(b'l'), K(b'S')]))


def ref_curve_box_ctm(state: PDFStateStack, x: float, y: float, a: float, b: float, c: float, d: float, k: float):
    xs = [x + k, a + k, c + k]
    ys = [y + k, b + k, d + k]
    return [(LTCurve, (min(xs), min(ys), max(xs), max(ys)))]


def code_style(state: PDFStateStack, x: float, y: float, u: float, v: float, w: float):
    """Whatever the shape, the item carries the path, width, colours and fill rule it was painted with."""
    start(state)
    state.t_matrix = MATRIX_IDENTITY
    its = interp(state, [
        x, y, K(b'm'), x, v, K(b'l'), K(b'S'),
        x, y, K(b'm'), u, y, K(b'l'), K(b'S'),
        x, y, K(b'm'), u, v, K(b'l'), K(b'B*'),
        x, y, u, v, K(b're'), K(b'f*'),
        x, y, K(b'm'), u, v, K(b'l'), v, u, K(b'l'), K(b'b*')])
    return [(i.linewidth, i.stroke.values, i.fill.values, i.evenodd, len(i.paths)) for i in its]


def ref_style(state: PDFStateStack, x: float, y: float, u: float, v: float, w: float):
    g = state.graphics
    s = (g.linewidth, g.scolor.values, g.ncolor.values)
    return [(s[0], s[1], s[2], False, 2), (s[0], s[1], s[2], False, 2), (s[0], s[1], s[2], True, 2),
            (s[0], s[1], s[2], True, 5), (s[0], s[1], s[2], True, 4)]
