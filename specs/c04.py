"""Path construction operators, observed on the item that is painted."""


def pts(p):
    return [(q.x, q.y) for q in p.points]


def segments(items):
    """Method letter and control points of every segment of every painted item."""
    return [[(p.method.value, pts(p)) for p in i.paths] for i in items]


def draw(*toks):
    return segments(interp(fresh(), list(toks) + [K(b'S')]))


def code_moveto(x: float, y: float):
    """m records a move to its operands."""
    return draw(x, y, K(b'm'))


def ref_moveto(x: float, y: float):
    return [[('m', [(x, y)])]]


def code_lineto(x: float, y: float, a: float, b: float):
    """l records a line to its operands after what is there already."""
    return draw(x, y, K(b'm'), a, b, K(b'l'), y, b, K(b'l'))


def ref_lineto(x: float, y: float, a: float, b: float):
    return [[('m', [(x, y)]), ('l', [(a, b)]), ('l', [(y, b)])]]


def code_curve_c(x: float, y: float, a: float, b: float, c: float, d: float, e: float, f: float):
    """c records both control points and the end point, in order."""
    return draw(x, y, K(b'm'), a, b, c, d, e, f, K(b'c'))


def ref_curve_c(x: float, y: float, a: float, b: float, c: float, d: float, e: float, f: float):
    return [[('m', [(x, y)]), ('c', [(a, b), (c, d), (e, f)])]]


def code_curve_v(x: float, y: float, a: float, b: float, c: float, d: float):
    """v records its control point and the end point."""
    return draw(x, y, K(b'm'), a, b, c, d, K(b'v'))


def ref_curve_v(x: float, y: float, a: float, b: float, c: float, d: float):
    return [[('m', [(x, y)]), ('v', [(a, b), (c, d)])]]


def code_curve_y(x: float, y: float, a: float, b: float, c: float, d: float):
    """y records its control point and the end point."""
    return draw(x, y, K(b'm'), a, b, c, d, K(b'y'))


def ref_curve_y(x: float, y: float, a: float, b: float, c: float, d: float):
    return [[('m', [(x, y)]), ('y', [(a, b), (c, d)])]]


def code_close(x: float, y: float, a: float, b: float):
    """h closes, and the path can go on after it."""
    return draw(x, y, K(b'm'), a, b, K(b'l'), K(b'h'), b, a, K(b'm'), x, b, K(b'l'))


def ref_close(x: float, y: float, a: float, b: float):
    return [[('m', [(x, y)]), ('l', [(a, b)]), ('h', []), ('m', [(b, a)]), ('l', [(x, b)])]]


def code_rect(x: float, y: float, w: float, h: float):
    """re is m l l l h around the rectangle."""
    return draw(x, y, w, h, K(b're'))


def ref_rect(x: float, y: float, w: float, h: float):
    return draw(x, y, K(b'm'), x + w, y, K(b'l'), x + w, y + h, K(b'l'), x, y + h, K(b'l'), K(b'h'))


def code_rect_appends(x: float, y: float, w: float, h: float, a: float, b: float):
    """re adds to the path under construction."""
    return draw(a, b, K(b'm'), b, a, K(b'l'), x, y, w, h, K(b're'), b, x, K(b'l'))


def ref_rect_appends(x: float, y: float, w: float, h: float, a: float, b: float):
    return draw(a, b, K(b'm'), b, a, K(b'l'), x, y, K(b'm'), x + w, y, K(b'l'), x + w, y + h, K(b'l'),
                x, y + h, K(b'l'), K(b'h'), b, x, K(b'l'))


def code_graphics_between(x: float, y: float, a: float, b: float, w: float):
    """Changing line width or colour while a path is built leaves the path alone."""
    return draw(x, y, K(b'm'), w, K(b'w'), w, K(b'g'), a, b, K(b'l'))


def ref_graphics_between(x: float, y: float, a: float, b: float, w: float):
    return [[('m', [(x, y)]), ('l', [(a, b)])]]


def code_no_item_yet(x: float, y: float, a: float, b: float):
    """Constructing a path emits nothing and changes no parameter."""
    s = fresh()
    n = len(interp(s, [x, y, K(b'm'), a, b, K(b'l'), x, y, a, b, K(b'v'), x, y, a, b, K(b'y'), x, y, a, b, x, y, K(b'c'),
                       x, y, a, b, K(b're'), K(b'h')]))
    return (n, s.t_matrix, len(s.argstack), len(s.gstack), s.graphics.linewidth)


def ref_no_item_yet(x: float, y: float, a: float, b: float):
    s = fresh()
    return (0, s.t_matrix, 0, 0, s.graphics.linewidth)
