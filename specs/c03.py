"""Text state and text positioning operators."""


def params(s):
    t = s.text
    return (t.font, t.fontsize, t.charspace, t.wordspace, t.scaling, t.render, t.rise, t.ignore_bad_chars)


def place(s):
    """Where the next glyph goes: text matrix and offset along the line."""
    m = s.text.matrix
    l = s.text.linematrix
    return (m[0], m[1], m[2], m[3], m[4], m[5], l[0], l[1])


def code_Tc(state: PDFStateStack, v: float):
    """Tc sets the character spacing only."""
    begin(state)
    interp(state, [v, K(b'Tc')])
    return (params(state), place(state))


def ref_Tc(state: PDFStateStack, v: float):
    state.text.charspace = v
    return (params(state), place(state))


def code_Tw(state: PDFStateStack, v: float):
    """Tw sets the word spacing only."""
    begin(state)
    interp(state, [v, K(b'Tw')])
    return (params(state), place(state))


def ref_Tw(state: PDFStateStack, v: float):
    state.text.wordspace = v
    return (params(state), place(state))


def code_Tz(state: PDFStateStack, v: float):
    """Tz sets the horizontal scaling only."""
    begin(state)
    interp(state, [v, K(b'Tz')])
    return (params(state), place(state))


def ref_Tz(state: PDFStateStack, v: float):
    state.text.scaling = v
    return (params(state), place(state))


def code_Tr(state: PDFStateStack, v: float):
    """Tr sets the rendering mode only."""
    begin(state)
    interp(state, [v, K(b'Tr')])
    return (params(state), place(state))


def ref_Tr(state: PDFStateStack, v: float):
    state.text.render = v
    return (params(state), place(state))


def code_Ts(state: PDFStateStack, v: float):
    """Ts sets the rise only."""
    begin(state)
    interp(state, [v, K(b'Ts')])
    return (params(state), place(state))


def ref_Ts(state: PDFStateStack, v: float):
    state.text.rise = v
    return (params(state), place(state))


def code_Tf(state: PDFStateStack, v: float, font):
    """Tf selects the named font of the resources and the size."""
    begin(state)
    state.fontmap = {'F1': font, 'F2': state.text.font}
    interp(state, [N(b'F1'), v, K(b'Tf')])
    return (params(state), place(state))


def ref_Tf(state: PDFStateStack, v: float, font):
    state.text.font = font
    state.text.fontsize = v
    return (params(state), place(state))


def raises_Tf_unknown_InvalidOperation(state: PDFStateStack, v: float, font):
    """Tf with a font name that the resources lack is refused."""
    begin(state)
    state.fontmap = {'F1': font}
    interp(state, [N(b'F2'), v, K(b'Tf')])


def code_Td(state: PDFStateStack, tx: float, ty: float):
    """Td translates the line origin by (tx, ty) in text space and starts a new line there."""
    begin(state)
    interp(state, [tx, ty, K(b'Td')])
    return (params(state), place(state))


def ref_Td(state: PDFStateStack, tx: float, ty: float):
    (a, b, c, d, e, f) = state.text.matrix
    return (params(state), (a, b, c, d, tx*a + ty*c + e, tx*b + ty*d + f, 0, 0))


def code_Tm(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    """Tm replaces the text matrix and starts a new line."""
    begin(state)
    interp(state, [a, b, c, d, e, f, K(b'Tm')])
    return (params(state), place(state))


def ref_Tm(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float):
    return (params(state), (a, b, c, d, e, f, 0, 0))


def code_TD(state: PDFStateStack, tx: float, ty: float, l: float):
    """TD is -ty TL then Td, for this line and the next ones."""
    begin(state)
    interp(state, [tx, ty, K(b'TD')])
    p = place(state)
    interp(state, [K(b'T*')])
    return (params(state), p, place(state))


def ref_TD(state: PDFStateStack, tx: float, ty: float, l: float):
    begin(state)
    interp(state, [-ty, K(b'TL'), tx, ty, K(b'Td')])
    p = place(state)
    interp(state, [K(b'T*')])
    return (params(state), p, place(state))


def code_TL(state: PDFStateStack, l: float):
    """After l TL, T* is 0 -l Td."""
    begin(state)
    interp(state, [l, K(b'TL'), K(b'T*')])
    return (params(state), place(state))


def ref_TL(state: PDFStateStack, l: float):
    begin(state)
    interp(state, [0, -l, K(b'Td')])
    return (params(state), place(state))


def code_TL_again(state: PDFStateStack, l: float):
    """T* moves by the leading every time."""
    begin(state)
    interp(state, [l, K(b'TL'), K(b'T*'), K(b'T*'), K(b'T*')])
    return (params(state), place(state))


def ref_TL_again(state: PDFStateStack, l: float):
    begin(state)
    interp(state, [0, -l, K(b'Td'), 0, -l, K(b'Td'), 0, -l, K(b'Td')])
    return (params(state), place(state))


def code_BT(state: PDFStateStack):
    """BT starts at the identity matrix and keeps every text parameter."""
    begin(state)
    state.current_textblock = None
    interp(state, [K(b'BT')])
    return (params(state), place(state))


def ref_BT(state: PDFStateStack):
    return (params(state), (1, 0, 0, 1, 0, 0, 0, 0))


def code_BT_fresh_line(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, l: float):
    """A second text object does not continue the first one's position."""
    begin(state)
    state.current_textblock = None
    interp(state, [K(b'BT'), a, b, c, d, e, f, K(b'Tm'), l, K(b'TL'), K(b'T*'), K(b'ET'), K(b'BT')])
    return (params(state), place(state))


def ref_BT_fresh_line(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, l: float):
    return (params(state), (1, 0, 0, 1, 0, 0, 0, 0))


def code_initial():
    """Initial text parameters are those the format prescribes."""
    s = fresh()
    t = s.text
    return (t.font, t.charspace, t.wordspace, t.scaling, t.render, t.rise, place(s))


def ref_initial():
    return (None, 0, 0, 100, 0, 0, (1, 0, 0, 1, 0, 0, 0, 0))


def code_leading_initial(state: PDFStateStack):
    """Before any TL or TD, T* stays on the line."""
    s = fresh()
    interp(s, [K(b'T*')])
    return place(s)


def ref_leading_initial(state: PDFStateStack):
    return (1, 0, 0, 1, 0, 0, 0, 0)


def code_leading_kept(state: PDFStateStack, l: float, a: float, b: float):
    """The leading set before a text object still holds in it."""
    begin(state)
    state.current_textblock = None
    interp(state, [l, K(b'TL'), K(b'BT'), a, b, K(b'Td'), K(b'T*')])
    return place(state)


def ref_leading_kept(state: PDFStateStack, l: float, a: float, b: float):
    return (1, 0, 0, 1, a, b - l, 0, 0)


def code_others_untouched(state: PDFStateStack, v: float):
    """Text operators leave CTM, path, graphics and resources alone."""
    begin(state)
    interp(state, [v, K(b'Tc'), v, K(b'Tw'), v, K(b'Tz'), v, K(b'TL'), v, K(b'Tr'), v, K(b'Ts'), v, v, K(b'Td'),
                   v, v, K(b'TD'), K(b'T*'), v, v, v, v, v, v, K(b'Tm')])
    return (state.t_matrix, state.graphics, state.curvestacks, state.fontmap, state.xobjmap, state.gstack,
            state.current_textblock, len(state.argstack))


def ref_others_untouched(state: PDFStateStack, v: float):
    return (state.t_matrix, state.graphics, state.curvestacks, state.fontmap, state.xobjmap, state.gstack,
            state.current_textblock, 0)
