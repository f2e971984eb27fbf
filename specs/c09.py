"""How operands and operators are dispatched."""


def quiet(state):
    begin(state)
    state.current_textblock = None


def widths(items):
    return [i.linewidth for i in items]


def code_extra_operands(state: PDFStateStack, a: float, b: float, w: float, c: float):
    """An operator takes exactly its own operands, the last ones; earlier ones stay for later operators."""
    quiet(state)
    interp(state, [a, b, w, K(b'w'), c, K(b'M')])
    return (state.graphics.linewidth, state.graphics.miterlimit, state.argstack)


def ref_extra_operands(state: PDFStateStack, a: float, b: float, w: float, c: float):
    return (w, c, [a, b])


def code_operand_order(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    """Operands reach the operator in the order they were written."""
    quiet(state)
    interp(state, [a, b, c, d, e, f, K(b'Tm')])
    return (state.text.matrix, state.argstack)


def ref_operand_order(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    return ((a, b, c, d, e, f), [])


def raises_missing_CommandProcessorError(state: PDFStateStack):
    """An operator without its operand is refused."""
    quiet(state)
    interp(state, [K(b'w')])


def raises_missing_some_CommandProcessorError(state: PDFStateStack, a: float):
    """An operator with fewer operands than it takes is refused."""
    quiet(state)
    interp(state, [a, K(b'm')])


def raises_missing_six_CommandProcessorError(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float):
    """Five operands are not a matrix."""
    quiet(state)
    interp(state, [a, b, c, d, e, K(b'cm')])


def code_unknown(state: PDFStateStack, a: float, w: float):
    """An unknown operator changes nothing and does not stop the stream."""
    quiet(state)
    interp(state, [K(b'zzz'), K(b'BX'), w, K(b'w'), K(b'QQ')])
    return (state.graphics.linewidth, state.graphics.miterlimit, state.t_matrix is not None, state.argstack,
            state.text.charspace)


def ref_unknown(state: PDFStateStack, a: float, w: float):
    return (w, state.graphics.miterlimit, state.t_matrix is not None, [], state.text.charspace)


def code_case(state: PDFStateStack, a: float, b: float):
    """Operator names are case-sensitive."""
    quiet(state)
    state.curvestacks = []
    interp(state, [a, K(b'W'), K(b'Bt'), K(b'et')])
    return (state.graphics.linewidth, state.current_textblock is None)


def ref_case(state: PDFStateStack, a: float, b: float):
    return (state.graphics.linewidth, True)


def code_items_in_order(state: PDFStateStack, a: float, b: float):
    """Items come out in drawing order, each exactly once, as soon as they are complete."""
    quiet(state)
    state.curvestacks = []
    first = widths(interp(state, [a, K(b'w'), 0, 0, K(b'm'), 5, 5, K(b'l'), K(b'S'),
                                  b, K(b'w'), 0, 0, K(b'm'), 5, 5, K(b'l'), K(b'S')]))
    again = widths(interp(state, [1, K(b'w')]))
    return (first, again)


def ref_items_in_order(state: PDFStateStack, a: float, b: float):
    return ([a, b], [])


def code_split_streams(state: PDFStateStack, a: float, b: float):
    """A sequence of operators means the same when it is interpreted in two parts."""
    quiet(state)
    state.curvestacks = []
    r = widths(interp(state, [a, K(b'w'), 0, 0, K(b'm'), 5]))
    r += widths(interp(state, [7, K(b'l'), K(b'S'), b]))
    r += widths(interp(state, [K(b'w')]))
    return (r, state.graphics.linewidth, state.argstack)


def ref_split_streams(state: PDFStateStack, a: float, b: float):
    quiet(state)
    state.curvestacks = []
    r = widths(interp(state, [a, K(b'w'), 0, 0, K(b'm'), 5, 7, K(b'l'), K(b'S'), b, K(b'w')]))
    return (r, state.graphics.linewidth, state.argstack)
