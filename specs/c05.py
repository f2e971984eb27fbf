"""Path painting operators."""


def path(x, y, a, b):
    return [x, y, K(b'm'), a, b, K(b'l'), b, y, K(b'l')]


def view(items):
    return [(i.evenodd, i.linewidth, i.stroke.values, i.fill.values, len(i.paths), i.paths[-1].method.value) for i in items]


def clean(state):
    begin(state)
    state.curvestacks = []


def one(state, op, x, y, a, b):
    clean(state)
    return view(interp(state, path(x, y, a, b) + [op]))


def want(state, evenodd, closed):
    g = state.graphics
    return [(evenodd, g.linewidth, g.scolor.values, g.ncolor.values, 4 if closed else 3, 'h' if closed else 'l')]


def code_S(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """S emits exactly one item, in the current style."""
    return one(state, K(b'S'), x, y, a, b)


def ref_S(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, False)


def code_f(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """f emits exactly one item, nonzero winding."""
    return one(state, K(b'f'), x, y, a, b)


def ref_f(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, False)


def code_F(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """F is f."""
    return one(state, K(b'F'), x, y, a, b)


def ref_F(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, False)


def code_B(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """B emits exactly one item, nonzero winding."""
    return one(state, K(b'B'), x, y, a, b)


def ref_B(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, False)


def code_f_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """f* emits exactly one item marked even-odd."""
    return one(state, K(b'f*'), x, y, a, b)


def ref_f_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, True, False)


def code_B_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """B* emits exactly one item marked even-odd."""
    return one(state, K(b'B*'), x, y, a, b)


def ref_B_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, True, False)


def code_s(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """s is h S."""
    return one(state, K(b's'), x, y, a, b)


def ref_s(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, True)


def code_b(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """b is h B."""
    return one(state, K(b'b'), x, y, a, b)


def ref_b(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, False, True)


def code_b_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """b* is h B*."""
    return one(state, K(b'b*'), x, y, a, b)


def ref_b_star(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return want(state, True, True)


def code_n(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """n emits nothing and discards the path."""
    clean(state)
    k = len(interp(state, path(x, y, a, b) + [K(b'n')]))
    return (k, [len(i.paths) for i in interp(state, [x, y, K(b'm'), y, x, K(b'l'), K(b'h'), K(b'S')])])


def ref_n(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return (0, [3])


def code_cleared(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """After any painting operator the next path starts empty."""
    clean(state)
    its = []
    for op in [b'S', b's', b'f', b'F', b'f*', b'B', b'B*', b'b', b'b*', b'n']:
        its.extend(interp(state, path(x, y, a, b) + [K(op)]))
        its.extend(interp(state, [x, y, K(b'm'), K(b'S')]))
    return [len(i.paths) for i in its]


def ref_cleared(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return [3, 1, 4, 1, 3, 1, 3, 1, 3, 1, 3, 1, 3, 1, 4, 1, 4, 1, 1]


def code_snapshot(state: PDFStateStack, x: float, y: float, a: float, b: float, v: float):
    """What is painted keeps its colours, width and path when the state changes later."""
    clean(state)
    first = interp(state, path(x, y, a, b) + [K(b'B')])
    interp(state, [v, K(b'w'), v, K(b'G'), v, K(b'g'), v, x, K(b'm'), v, y, K(b'l'), K(b'h')])
    state.graphics.scolor.values = v
    state.graphics.ncolor.values = v
    return view(first)


def ref_snapshot(state: PDFStateStack, x: float, y: float, a: float, b: float, v: float):
    return want(state, False, False)


def code_order(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """Items appear in the order in which they are painted, one for each."""
    clean(state)
    return [(i.evenodd, len(i.paths)) for i in interp(
        state, path(x, y, a, b) + [K(b'S')] + path(x, y, a, b) + [K(b'b*'), x, y, K(b'm'), K(b'f*')])]


def ref_order(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return [(False, 3), (True, 4), (True, 1)]


def code_state_kept(state: PDFStateStack, x: float, y: float, a: float, b: float):
    """Painting changes no parameter of the state."""
    clean(state)
    for op in [b'S', b's', b'f', b'F', b'f*', b'B', b'B*', b'b', b'b*', b'n']:
        interp(state, path(x, y, a, b) + [K(op)])
    return (state.t_matrix, state.graphics, state.text, state.gstack, len(state.argstack), state.current_textblock,
            state.fontmap, state.resources, len(state.curvestacks))


def ref_state_kept(state: PDFStateStack, x: float, y: float, a: float, b: float):
    return (state.t_matrix, state.graphics, state.text, state.gstack, 0, state.current_textblock,
            state.fontmap, state.resources, 0)
