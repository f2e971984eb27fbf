"""Showing text: where every glyph goes and what is recorded about it."""
from pdfmajor.interpreter.commands.state.PDFGraphicState.PDFColorSpace import PREDEFINED_COLORSPACE


def code_first_glyph(wa: float, h: float, ds: float, z: float, x: float, y: float, u: float, v: float, r: float):
    """A glyph's box is its advance by the font's height, from the descent, raised, at the text position."""
    s = page(upright(u, v), Glyphs(wa, wa, wa, h, ds, False), z)
    return glyphs(interp(s, [K(b'BT'), x, y, K(b'Td'), r, K(b'Ts'), [65], K(b'Tj'), K(b'ET')]))


def ref_first_glyph(wa: float, h: float, ds: float, z: float, x: float, y: float, u: float, v: float, r: float):
    return [('A', cell((1, 0, 0, 1, x+u, y+v), 0, ds*z+r, wa*z, ds*z+r+h*z))]


def code_matrix(wa: float, h: float, a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float):
    """The text matrix applies first, the transformation matrix then."""
    s = page((k, 0, 0, l, 0, 0), Glyphs(wa, wa, wa, h, 0, False), 1)
    return glyphs(interp(s, [K(b'BT'), a, b, c, d, e, f, K(b'Tm'), [65], K(b'Tj'), K(b'ET')]))


def ref_matrix(wa: float, h: float, a: float, b: float, c: float, d: float, e: float, f: float, k: float, l: float):
    return [('A', cell(times((a, b, c, d, e, f), (k, 0, 0, l, 0, 0)), 0, 0, wa, h))]


def code_matrix_skew(wa: float, h: float, a: float, b: float, c: float, d: float, e: float, f: float):
    """The same with an arbitrary transformation matrix and a moved text origin."""
    s = page((a, b, c, d, e, f), Glyphs(wa, wa, wa, h, 0, False), 1)
    return glyphs(interp(s, [K(b'BT'), 2, 0, 0, 3, 5, 7, K(b'Tm'), [65], K(b'Tj'), K(b'ET')]))


def ref_matrix_skew(wa: float, h: float, a: float, b: float, c: float, d: float, e: float, f: float):
    return [('A', cell(times((2, 0, 0, 3, 5, 7), (a, b, c, d, e, f)), 0, 0, wa, h))]


def third(wa, wb, h, z, dx):
    return cell((1, 0, 0, 1, 0, 0), dx, 0, dx+wb*z, h*z)


def code_advance(wa: float, wb: float, h: float, z: float):
    """Each glyph starts where the one before it ends, within a string and across strings."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, 0, False), z)
    return glyphs(interp(s, [K(b'BT'), [65, 66], K(b'Tj'), [66], K(b'Tj'), K(b'ET')]))


def ref_advance(wa: float, wb: float, h: float, z: float):
    o = (1, 0, 0, 1, 0, 0)
    return [('A', cell(o, 0, 0, wa*z, h*z)), ('B', cell(o, wa*z, 0, wa*z+wb*z, h*z)),
            ('B', cell(o, wa*z+wb*z, 0, wa*z+2*wb*z, h*z))]


def code_spacing(wa: float, wb: float, h: float, z: float, tc: float, th: float):
    """Character spacing and horizontal scaling apply to the displacement of each glyph."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, 0, False), z)
    return glyphs(interp(s, [tc, K(b'Tc'), th, K(b'Tz'), K(b'BT'), [65, 66], K(b'Tj'), K(b'ET')]))


def ref_spacing(wa: float, wb: float, h: float, z: float, tc: float, th: float):
    o = (1, 0, 0, 1, 0, 0)
    k = th*.01
    x = (wa*z+tc)*k
    return [('A', cell(o, 0, 0, wa*z*k, h*z)), ('B', cell(o, x, 0, x+wb*z*k, h*z))]


def code_spacing_across(wa: float, wb: float, h: float, z: float, tc: float):
    """Character spacing also separates the last glyph of a string from the next string."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, 0, False), z)
    return glyphs(interp(s, [tc, K(b'Tc'), K(b'BT'), [65], K(b'Tj'), [66], K(b'Tj'), K(b'ET')]))


def ref_spacing_across(wa: float, wb: float, h: float, z: float, tc: float):
    o = (1, 0, 0, 1, 0, 0)
    x = wa*z+tc
    return [('A', cell(o, 0, 0, wa*z, h*z)), ('B', cell(o, x, 0, x+wb*z, h*z))]


def code_adjust(wa: float, wb: float, h: float, z: float, n: float, th: float):
    """A number in TJ moves back by that many thousandths of the size, scaled."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, 0, False), z)
    return glyphs(interp(s, [th, K(b'Tz'), K(b'BT'), [[65], n, [66]], K(b'TJ'), K(b'ET')]))


def ref_adjust(wa: float, wb: float, h: float, z: float, n: float, th: float):
    o = (1, 0, 0, 1, 0, 0)
    k = th*.01
    x = (wa - n*.001)*z*k
    return [('A', cell(o, 0, 0, wa*z*k, h*z)), ('B', cell(o, x, 0, x+wb*z*k, h*z))]


def code_adjust_first(wa: float, h: float, z: float, n: float, tc: float):
    """A leading number moves the first glyph by itself alone."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    return glyphs(interp(s, [tc, K(b'Tc'), K(b'BT'), [n, [65]], K(b'TJ'), K(b'ET')]))


def ref_adjust_first(wa: float, h: float, z: float, n: float, tc: float):
    x = -n*.001*z
    return [('A', cell((1, 0, 0, 1, 0, 0), x, 0, x+wa*z, h*z))]


def code_word(ws: float, wb: float, h: float, z: float, tw: float, th: float):
    """Word spacing follows every single-byte code 32."""
    s = page(upright(0, 0), Glyphs(wb, wb, ws, h, 0, False), z)
    return glyphs(interp(s, [tw, K(b'Tw'), th, K(b'Tz'), K(b'BT'), [32, 66], K(b'Tj'), K(b'ET')]))


def ref_word(ws: float, wb: float, h: float, z: float, tw: float, th: float):
    o = (1, 0, 0, 1, 0, 0)
    k = th*.01
    x = (ws*z+tw)*k
    return [(' ', cell(o, 0, 0, ws*z*k, h*z)), ('B', cell(o, x, 0, x+wb*z*k, h*z))]


def code_word_other(wa: float, wb: float, h: float, z: float, tw: float):
    """Word spacing follows no other code, and nothing in a multi-byte font."""
    s = page(upright(0, 0), Glyphs(wa, wb, wa, h, 0, False), z)
    t = page(upright(0, 0), Glyphs(wa, wb, wa, h, 0, True), z)
    return (glyphs(interp(s, [tw, K(b'Tw'), K(b'BT'), [65, 66], K(b'Tj'), K(b'ET')])),
            glyphs(interp(t, [tw, K(b'Tw'), K(b'BT'), [32, 66], K(b'Tj'), K(b'ET')])))


def ref_word_other(wa: float, wb: float, h: float, z: float, tw: float):
    o = (1, 0, 0, 1, 0, 0)
    p, q = cell(o, 0, 0, wa*z, h*z), cell(o, wa*z, 0, wa*z+wb*z, h*z)
    return ([('A', p), ('B', q)], [(' ', p), ('B', q)])


def code_quote(wa: float, h: float, z: float, l: float, x: float, y: float):
    """The single quote is T* then Tj."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    return glyphs(interp(s, [l, K(b'TL'), K(b'BT'), x, y, K(b'Td'), [65], K(b'Tj'), [66], K(b"'"), K(b'ET')]))


def ref_quote(wa: float, h: float, z: float, l: float, x: float, y: float):
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    return glyphs(interp(s, [l, K(b'TL'), K(b'BT'), x, y, K(b'Td'), [65], K(b'Tj'), K(b'T*'), [66], K(b'Tj'), K(b'ET')]))


def code_dquote(wa: float, h: float, z: float, l: float, x: float, y: float, aw: float, ac: float):
    """The double quote sets word and character spacing, then is a single quote."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    r = glyphs(interp(s, [l, K(b'TL'), K(b'BT'), x, y, K(b'Td'), aw, ac, [32, 65], K(b'"'), [66], K(b"'"), K(b'ET')]))
    return (r, s.text.wordspace, s.text.charspace)


def ref_dquote(wa: float, h: float, z: float, l: float, x: float, y: float, aw: float, ac: float):
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    r = glyphs(interp(s, [l, K(b'TL'), K(b'BT'), x, y, K(b'Td'), aw, K(b'Tw'), ac, K(b'Tc'), [32, 65], K(b"'"),
                          [66], K(b"'"), K(b'ET')]))
    return (r, s.text.wordspace, s.text.charspace)


def code_tj_is_TJ(wa: float, h: float, z: float, x: float, y: float, tc: float):
    """Tj shows what TJ shows for the one string."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    return glyphs(interp(s, [tc, K(b'Tc'), K(b'BT'), x, y, K(b'Td'), [65, 66], K(b'Tj'), K(b'ET')]))


def ref_tj_is_TJ(wa: float, h: float, z: float, x: float, y: float, tc: float):
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    return glyphs(interp(s, [tc, K(b'Tc'), K(b'BT'), x, y, K(b'Td'), [[65], [66]], K(b'TJ'), K(b'ET')]))


def code_column(wa: float, wb: float, w: float, vx: float, vy: float, z: float, x: float, y: float):
    """In vertical writing glyphs hang from the position vector and follow each other downwards."""
    s = page(upright(0, 0), Column(wa, wb, w, vx, vy), z)
    return glyphs(interp(s, [K(b'BT'), x, y, K(b'Td'), [65, 66], K(b'Tj'), K(b'ET')]))


def ref_column(wa: float, wb: float, w: float, vx: float, vy: float, z: float, x: float, y: float):
    o = (1, 0, 0, 1, x, y)
    t = (1000-vy)*z*.001
    return [('A', cell(o, -vx*z*.001, t+wa*z, -vx*z*.001+w*z, t)),
            ('B', cell(o, -w*z*.5, wa*z+t+wb*z, w*z*.5, wa*z+t))]


def code_column_adjust(wa: float, wb: float, w: float, vx: float, vy: float, z: float, n: float):
    """In vertical writing a number in TJ moves along the column."""
    s = page(upright(0, 0), Column(wa, wb, w, vx, vy), z)
    return glyphs(interp(s, [K(b'BT'), [n, [65]], K(b'TJ'), K(b'ET')]))


def ref_column_adjust(wa: float, wb: float, w: float, vx: float, vy: float, z: float, n: float):
    o = (1, 0, 0, 1, 0, -n*.001*z)
    t = (1000-vy)*z*.001
    return [('A', cell(o, -vx*z*.001, t+wa*z, -vx*z*.001+w*z, t))]


def code_column_scaling(wa: float, wb: float, w: float, vx: float, vy: float, z: float, th: float, tc: float):
    """Horizontal scaling leaves the advance and the character spacing of vertical writing alone."""
    s = page(upright(0, 0), Column(wa, wb, w, vx, vy), z)
    return glyphs(interp(s, [th, K(b'Tz'), tc, K(b'Tc'), K(b'BT'), [65, 66], K(b'Tj'), K(b'ET')]))[1][1][3]


def ref_column_scaling(wa: float, wb: float, w: float, vx: float, vy: float, z: float, th: float, tc: float):
    return cell((1, 0, 0, 1, 0, 0), -w*z*.5, wa*z+tc+(1000-vy)*z*.001+wb*z, w*z*.5, wa*z+tc+(1000-vy)*z*.001)[3]


def code_recorded(wa: float, h: float, z: float, r: float, g: float, b: float, rise: float):
    """A glyph records font, size, rise and non-stroking colour of when it was shown, whatever happens later."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    f = s.text.font
    s.fontmap = {'F9': Glyphs(h, h, h, h, 0, False)}
    items = interp(s, [r, g, b, K(b'rg'), rise, K(b'Ts'), K(b'BT'), [65], K(b'Tj'),
                       b, K(b'g'), r, K(b'G'), N(b'F9'), 3, K(b'Tf'), 9, K(b'Ts'), K(b'ET'), r, r, r, K(b'rg')])
    c = [c for i in items for k in i for c in k][0]
    k = [k for i in items for k in i][0]
    return (c.textstate.font is f, c.textstate.fontsize, c.textstate.rise, c.color.values,
            k.textstate.fontsize, k.color.values, c.fontname)


def ref_recorded(wa: float, h: float, z: float, r: float, g: float, b: float, rise: float):
    rgb = PDFColor(PREDEFINED_COLORSPACE['DeviceRGB'], round(r*255), round(g*255), round(b*255)).values
    return (True, z, rise, rgb, z, rgb, 'F')


def code_state_kept(wa: float, h: float, z: float, tc: float, tw: float, th: float, rise: float):
    """Showing text moves the position on the line and changes no other parameter."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    interp(s, [tc, K(b'Tc'), tw, K(b'Tw'), th, K(b'Tz'), rise, K(b'Ts'), K(b'BT'), 1, 2, 3, 4, 5, 6, K(b'Tm'),
               [65, 32], K(b'Tj'), [[65], 3], K(b'TJ'), K(b'ET')])
    t = s.text
    return (t.charspace, t.wordspace, t.scaling, t.rise, t.fontsize, t.matrix, s.t_matrix, s.argstack)


def ref_state_kept(wa: float, h: float, z: float, tc: float, tw: float, th: float, rise: float):
    return (tc, tw, th, rise, z, (1, 2, 3, 4, 5, 6), (1, 0, 0, 1, 0, 0), [])


def code_size(wa: float, h: float, z: float):
    """A glyph's size is the height of its box."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), z)
    c = [c for i in interp(s, [K(b'BT'), [65], K(b'Tj'), K(b'ET')]) for k in i for c in k][0]
    return c.size


def ref_size(wa: float, h: float, z: float):
    b = cell((1, 0, 0, 1, 0, 0), 0, 0, wa*z, h*z)
    return b[3]-b[1]
