"""Saving and restoring the graphics state."""

def havoc(n1, n2, n3, n4, n5, n6, n7, n8):
    """Operators that change the CTM, the text parameters and the graphics parameters."""
    return [n1, n2, n3, n4, n5, n6, K(b'cm'),
            n1, K(b'Tc'), n2, K(b'Tw'), n3, K(b'Tz'), n4, K(b'TL'), n5, K(b'Tr'), n6, K(b'Ts')]


def gfx(n1, n2, n3, n4, n5, n6, n7, n8):
    return [n1, K(b'w'), n2, K(b'J'), n3, K(b'j'), n4, K(b'M'), [n5], n6, K(b'd'), n7, K(b'ri'), n8, K(b'i'),
            n1, K(b'G'), n2, K(b'g')]


def ctm(s):
    m = s.t_matrix
    return (m[0], m[1], m[2], m[3], m[4], m[5])


def text(s):
    t = s.text
    return (t.font, t.fontsize, t.charspace, t.wordspace, t.scaling, t.leading, t.render, t.rise, t.ignore_bad_chars)


def graphics(s):
    g = s.graphics
    return (g.linewidth, g.linecap, g.linejoin, g.miterlimit, g.dash, g.intent, g.flatness,
            g.scolor.values, g.scolor.color_space, g.ncolor.values, g.ncolor.color_space, g.scolspace, g.ncolspace)


def code_ctm(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    """Q gives back the transformation matrix that the matching q found."""
    begin(state)
    interp(state, [K(b'q')] + havoc(n1, n2, n3, n4, n5, n6, n7, n8) + [K(b'Q')])
    r = ctm(state)
    return r


def ref_ctm(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    return ctm(state)


def code_text(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    """Q gives back every text parameter that the matching q found."""
    begin(state)
    interp(state, [K(b'q')] + havoc(n1, n2, n3, n4, n5, n6, n7, n8) + [K(b'Q')])
    return text(state)


def ref_text(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    return text(state)


def code_font(state: PDFStateStack, n1: float):
    """Q gives back the font and size that the matching q found."""
    begin(state)
    f, z = state.text.font, state.text.fontsize
    state.fontmap = {'F9': PDFTextState()}
    interp(state, [K(b'q'), N(b'F9'), n1, K(b'Tf'), K(b'Q')])
    return (state.text.font is f, state.text.fontsize)


def ref_font(state: PDFStateStack, n1: float):
    return (True, state.text.fontsize)


def code_graphics(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    """Q gives back colours, line style and colour spaces that the matching q found."""
    begin(state)
    interp(state, [K(b'q')] + gfx(n1, n2, n3, n4, n5, n6, n7, n8) + [K(b'Q')])
    return graphics(state)


def ref_graphics(state: PDFStateStack, n1: float, n2: float, n3: float, n4: float, n5: float, n6: float, n7: float, n8: float):
    return graphics(state)


def code_nested_inner(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, g: float):
    """An inner Q gives back the state of the inner q, not of the outer one."""
    begin(state)
    interp(state, [K(b'q'), a, b, c, d, e, f, K(b'cm'), g, K(b'Tc'), K(b'q'), a, b, c, d, e, f, K(b'cm'), a, K(b'Tc'), K(b'Q')])
    return (ctm(state), text(state))


def ref_nested_inner(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, g: float):
    begin(state)
    interp(state, [a, b, c, d, e, f, K(b'cm'), g, K(b'Tc')])
    return (ctm(state), text(state))


def code_nested_outer(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, g: float):
    """Two q and two Q end where they began, whatever was changed in between."""
    begin(state)
    interp(state, [K(b'q'), a, b, c, d, e, f, K(b'cm'), g, K(b'Tc'), K(b'q'), a, b, c, d, e, f, K(b'cm'), a, K(b'Tc'), K(b'Q'),
                   b, K(b'Tw'), K(b'Q')])
    return (ctm(state), text(state))


def ref_nested_outer(state: PDFStateStack, a: float, b: float, c: float, d: float, e: float, f: float, g: float):
    return (ctm(state), text(state))


def code_reuse(state: PDFStateStack, a: float, b: float):
    """A saved state is used up by its Q: a second q/Q pair saves anew."""
    begin(state)
    interp(state, [K(b'q'), a, K(b'Tc'), K(b'Q'), b, K(b'Tw'), K(b'q'), a, K(b'Tw'), K(b'Q')])
    return (ctm(state), text(state))


def ref_reuse(state: PDFStateStack, a: float, b: float):
    begin(state)
    interp(state, [b, K(b'Tw')])
    return (ctm(state), text(state))


def code_unbalanced(a: float, b: float, c: float):
    """A Q without a q changes nothing and raises nothing."""
    s = fresh()
    interp(s, [a, K(b'w'), b, K(b'Tc'), K(b'Q'), c, K(b'Tw')])
    return (ctm(s), text(s), graphics(s))


def ref_unbalanced(a: float, b: float, c: float):
    s = fresh()
    interp(s, [a, K(b'w'), b, K(b'Tc'), c, K(b'Tw')])
    return (ctm(s), text(s), graphics(s))


def code_save_is_neutral(state: PDFStateStack, a: float):
    """q itself changes no parameter."""
    begin(state)
    interp(state, [K(b'q')])
    return (ctm(state), text(state), graphics(state))


def ref_save_is_neutral(state: PDFStateStack, a: float):
    return (ctm(state), text(state), graphics(state))


def code_path_survives(a: float, b: float, c: float, d: float):
    """A path under construction is not part of the saved state."""
    s = fresh()
    return shape(interp(s, [K(b'n'), K(b'q'), a, b, K(b'm'), K(b'Q'), c, d, K(b'l'), K(b'S')]))


def ref_path_survives(a: float, b: float, c: float, d: float):
    s = fresh()
    return shape(interp(s, [K(b'n'), a, b, K(b'm'), c, d, K(b'l'), K(b'S')]))


def shape(items):
    return [(p.method, [(q.x, q.y) for q in p.points]) for i in items for p in i.paths]
