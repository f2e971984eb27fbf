"""Text objects: BT .. ET and the blocks of characters in them."""


def font():
    return Glyphs(1, 1, 1, 1, 0, False)


def shape(items):
    """Class of every item, and the text of every block of characters in it."""
    return [(isinstance(i, LTTextBlock), [(isinstance(b, LTCharBlock), b.get_text()) for b in i]) for i in items]


def hull(bs):
    return (min([b[0] for b in bs]), min([b[1] for b in bs]), max([b[2] for b in bs]), max([b[3] for b in bs]))


def code_one_item():
    """Each BT..ET with characters is one item holding one block for each showing operator, in order."""
    s = page(upright(0, 0), font(), 1)
    return shape(interp(s, [K(b'BT'), [65], K(b'Tj'), [[66], 5, [65]], K(b'TJ'), K(b'ET'),
                            K(b'BT'), [66], K(b"'"), 0, 0, [65, 65], K(b'"'), K(b'ET')]))


def ref_one_item():
    return [(True, [(True, 'A'), (True, 'BA')]), (True, [(True, 'B'), (True, 'AA')])]


def code_nothing_shown(x: float, y: float):
    """A text object without characters is no item, and text shown later is not lost."""
    s = page(upright(0, 0), font(), 1)
    return shape(interp(s, [K(b'BT'), x, y, K(b'Td'), K(b'ET'), K(b'BT'), [], K(b'Tj'), [x], K(b'TJ'), K(b'ET'),
                            K(b'BT'), [65], K(b'Tj'), K(b'ET')]))


def ref_nothing_shown(x: float, y: float):
    return [(True, [(True, 'A')])]


def code_emitted_at_ET(state: PDFStateStack):
    """Nothing is emitted before ET, everything at ET."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    before = len(interp(state, [K(b'BT'), [65], K(b'Tj')]))
    after = len(interp(state, [K(b'ET')]))
    return (before, after, state.current_textblock is None)


def ref_emitted_at_ET(state: PDFStateStack):
    return (0, 1, True)


def raises_nested_BT_InvalidOperation(state: PDFStateStack):
    """BT inside a text object is refused."""
    begin(state)
    state.current_textblock = None
    interp(state, [K(b'BT'), K(b'BT')])


def raises_nested_BT_shown_InvalidOperation(state: PDFStateStack):
    """BT inside a text object that has text is refused, whatever came before it."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    interp(state, [K(b'BT'), K(b'ET'), K(b'BT'), [65], K(b'Tj'), K(b'BT')])


def raises_Tj_outside_InvalidOperation(state: PDFStateStack):
    """Text shown outside a text object is refused."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    interp(state, [[65], K(b'Tj')])


def raises_Tj_after_ET_InvalidOperation(state: PDFStateStack):
    """Text shown after ET is refused."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    interp(state, [K(b'BT'), [65], K(b'Tj'), K(b'ET'), [65], K(b'Tj')])


def raises_TJ_outside_InvalidOperation(state: PDFStateStack):
    """Text shown with TJ outside a text object is refused."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    interp(state, [[[65]], K(b'TJ')])


def raises_quote_outside_InvalidOperation(state: PDFStateStack):
    """Text shown with a quote outside a text object is refused."""
    begin(state)
    state.text.font = font()
    state.current_textblock = None
    interp(state, [[65], K(b"'")])


def raises_no_font_InvalidOperation(state: PDFStateStack):
    """Text shown before any font was selected is refused."""
    begin(state)
    state.text.font = None
    state.current_textblock = None
    interp(state, [K(b'BT'), [65], K(b'Tj')])


def raises_no_font_TJ_InvalidOperation(state: PDFStateStack):
    """TJ before any font was selected is refused."""
    begin(state)
    state.text.font = None
    state.current_textblock = None
    interp(state, [K(b'BT'), [[65]], K(b'TJ')])


def code_block_box(wa: float, wb: float, h: float, ds: float, z: float, m: float):
    """The box of a block of characters is the hull of its characters' boxes."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, ds, False), z)
    return [box(b.bbox) for i in interp(s, [K(b'BT'), [[65], m, [66], m, [65]], K(b'TJ'), K(b'ET')]) for b in i]


def ref_block_box(wa: float, wb: float, h: float, ds: float, z: float, m: float):
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, ds, False), z)
    return [hull([g[1] for g in glyphs(interp(s, [K(b'BT'), [[65], m, [66], m, [65]], K(b'TJ'), K(b'ET')]))])]


def code_text_box(wa: float, wb: float, h: float, ds: float, z: float, x: float, y: float):
    """The box of a text item is the hull of its blocks' boxes."""
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, ds, False), z)
    return [box(i.bbox) for i in interp(s, [K(b'BT'), [65], K(b'Tj'), x, y, K(b'Td'), [66], K(b'Tj'),
                                            y, x, K(b'Td'), [65], K(b'Tj'), K(b'ET')])]


def ref_text_box(wa: float, wb: float, h: float, ds: float, z: float, x: float, y: float):
    s = page(upright(0, 0), Glyphs(wa, wb, wb, h, ds, False), z)
    return [hull([box(b.bbox) for i in interp(s, [K(b'BT'), [65], K(b'Tj'), x, y, K(b'Td'), [66], K(b'Tj'),
                                                  y, x, K(b'Td'), [65], K(b'Tj'), K(b'ET')]) for b in i])]


def code_fresh_box(wa: float, h: float, x: float, y: float):
    """The box of a text item is that of its own characters, not of an earlier item's."""
    s = page(upright(0, 0), Glyphs(wa, wa, wa, h, 0, False), 1)
    return box(interp(s, [K(b'BT'), [65], K(b'Tj'), K(b'ET'), K(b'BT'), x, y, K(b'Td'), [65], K(b'Tj'), K(b'ET')])[1].bbox)


def ref_fresh_box(wa: float, h: float, x: float, y: float):
    return cell((1, 0, 0, 1, x, y), 0, 0, wa, h)


def code_ignored(wa: float, wb: float, h: float):
    """With bad characters ignored an unmapped glyph keeps its place and box, with empty text."""
    s = page(upright(0, 0), Holes(wa, wb, wb, h, 0, False), 1)
    s.text.ignore_bad_chars = True
    return glyphs(interp(s, [K(b'BT'), [65, 66, 65], K(b'Tj'), K(b'ET')]))


def ref_ignored(wa: float, wb: float, h: float):
    o = (1, 0, 0, 1, 0, 0)
    return [('A', cell(o, 0, 0, wa, h)), ('', cell(o, wa, 0, wa+wb, h)), ('A', cell(o, wa+wb, 0, 2*wa+wb, h))]


def raises_unmapped_UnicodeNotDefined(wa: float, wb: float, h: float):
    """Otherwise an unmapped glyph is an error."""
    s = page(upright(0, 0), Holes(wa, wb, wb, h, 0, False), 1)
    interp(s, [K(b'BT'), [65, 66, 65], K(b'Tj'), K(b'ET')])
