"""Every item is rendered once, in order, with its geometry and attributes; well-formed whatever the texts are."""
import json
import re
from pdfmajor.converters.json import convert_to_json
from pdfmajor.converters.yaml import convert_to_yaml
from pdfmajor.converters.xml import convert_to_xml
from pdfmajor.converters.html import convert_to_html
from pdfmajor.converters.text import convert_to_text
from pdfmajor.parser.types import CurvePoint


# ---- text

def code_text_order(a: str, b: str, c: str, d: str, e: str, n: int):
    """Text: all text of a page, in drawing order, between the heading of the page and a line end."""
    return write(convert_to_text, [Page(n, 1, 1, [words(a, b), Line(), Image('x'), words(c), Form([words(d), Form([words(e)])])])])


def ref_text_order(a: str, b: str, c: str, d: str, e: str, n: int):
    return '========== [ page ' + str(n) + ' ] ==========\n' + a + b + c + d + e + '\n'


def code_text_pages(a: str, b: str):
    """Text: pages in order, empty ones too."""
    return write(convert_to_text, [Page(0, 1, 1, [words(a)]), Page(1, 1, 1, []), Page(2, 1, 1, [Text([Block([Chr(b), Chr(a)])])])])


def ref_text_pages(a: str, b: str):
    return ('========== [ page 0 ] ==========\n' + a + '\n========== [ page 1 ] ==========\n\n========== [ page 2 ] ==========\n'
            + b + a + '\n')


def code_text_codec(a: str, codec: str):
    """Text: everything is written in the chosen encoding."""
    if not codec:
        return None
    DISK.codec = codec
    return write(convert_to_text, [Page(0, 1, 1, [words(a)])], codec=codec)


def ref_text_codec(a: str, codec: str):
    if not codec:
        return None
    return '========== [ page 0 ] ==========\n' + a + '\n'


# ---- JSON

def js(text):
    return json.dumps(text, ensure_ascii=False)


def jbox(ind, x0, y0, x1, y1):
    return ind + '"x0": ' + str(x0) + ',\n' + ind + '"x1": ' + str(x1) + ',\n' + ind + '"y0": ' + str(y0) + ',\n' + ind + '"y1": ' + str(y1)


def jpages(*pages):
    return '{\n  "pages": [\n' + ',\n'.join(['    {\n' + p + '\n    }' for p in pages]) + '\n  ]\n}'


def jpage(n, w, h, *children):
    s = '      '
    return (s + '"id": ' + str(n) + ',\n' + s + '"width": ' + str(w) + ',\n' + s + '"height": ' + str(h) + ',\n' + s + '"children": ['
            + ','.join(['\n        {\n' + c + '\n        }' for c in children]) + '\n' + s + ']')


T = '          '
TT = '              '


def jempty(kind, ind=T):
    return ind + '"type": "' + kind + '",\n' + jbox(ind, 0, 0, 0, 0)


def code_json_pages(n: int, w: float, h: float):
    """JSON: an object with the list of pages, each with number, size and items."""
    return write(convert_to_json, [Page(n, w, h, []), Page(1, h, w, [])])


def ref_json_pages(n: int, w: float, h: float):
    return jpages(jpage(n, w, h), jpage(1, h, w))


def code_json_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    """JSON: a text block with its box and character blocks, each with box, size and text."""
    return write(convert_to_json, [Page(0, 1, 2, [Text([Block([Chr(a), Chr(b)], (x0, y0, x1, y1), s), Block([Chr(c)], (y0, x0, y1, x1), t)],
                                                       (y1, x1, y0, x0))])])


def ref_json_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    return jpages(jpage(0, 1, 2,
        T + '"type": "text-block",\n' + jbox(T, y1, x1, y0, x0) + ',\n' + T + '"char_blocks": [\n            {\n'
        + TT + '"size": ' + str(s) + ',\n' + jbox(TT, x0, y0, x1, y1) + ',\n' + TT + '"text": ' + js(a + b) + '\n            },\n            {\n'
        + TT + '"size": ' + str(t) + ',\n' + jbox(TT, y0, x0, y1, x1) + ',\n' + TT + '"text": ' + js(c) + '\n            }\n' + T + ']'))


def code_json_font(a: str, k: str, v: str, w: float, r: float, g: float, b: float):
    """JSON: a character block has its colour and the entries of the font descriptor but for embedded fonts."""
    return write(convert_to_json, [Page(0, 1, 2, [Text([Block([Chr(a)], font=Font({
        'Type': 1, 'Name': v, 'FontFile': 2, 'FontFile2': 3, 'Weight': w}), color=plain('DeviceRGB', r, g, b))])])])


def ref_json_font(a: str, k: str, v: str, w: float, r: float, g: float, b: float):
    return jpages(jpage(0, 1, 2,
        T + '"type": "text-block",\n' + jbox(T, 0, 0, 0, 0) + ',\n' + T + '"char_blocks": [\n            {\n'
        + TT + '"size": 1,\n' + jbox(TT, 0, 0, 0, 0) + ',\n'
        + TT + '"color": ' + json.dumps({'type': 'DeviceRGB', 'value': [str(r), str(g), str(b)]}) + ',\n'
        + TT + '"Name": ' + js(v) + ',\n' + TT + '"Weight": ' + js(str(w)) + ',\n'
        + TT + '"text": ' + js(a) + '\n            }\n' + T + ']'))


def code_json_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    """JSON: rectangles, lines and curves with box, colours and kind, curves with their points."""
    c = CurvePath
    return write(convert_to_json, [Page(0, 1, 2, [
        Rect((x0, y0, x1, y1), stroke=plain('DeviceGray', r), fill=plain('DeviceGray', g)),
        Line((x1, y0, x0, y1), stroke=plain('DeviceGray', g)),
        Curve((y0, x0, y1, x1), [c(c.METHOD.MOVE_TO, CurvePoint(x0, y0)), c(c.METHOD.CURVE_FIRST_TO, CurvePoint(x1, y0), CurvePoint(y1, x0)),
                                 c(c.METHOD.CLOSE_PATH)])])])


def ref_json_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    def gray(v):
        return json.dumps({'type': 'DeviceGray', 'value': [str(v)]})
    return jpages(jpage(0, 1, 2,
        jbox(T, x0, y0, x1, y1) + ',\n' + T + '"fill": ' + gray(g) + ',\n' + T + '"stroke": ' + gray(r) + ',\n' + T + '"type": "rect"',
        jbox(T, x1, y0, x0, y1) + ',\n' + T + '"stroke": ' + gray(g) + ',\n' + T + '"type": "line"',
        jbox(T, y0, x0, y1, x1) + ',\n' + T + '"type": "curve",\n' + T + '"paths": [\n'
        + '            ' + json.dumps({'type': 'MOVE_TO', 'points': [{'x': x0, 'y': y0}]}) + ',\n'
        + '            ' + json.dumps({'type': 'CURVE_FIRST_TO', 'points': [{'x': x1, 'y': y0}, {'x': y1, 'y': x0}]}) + ',\n'
        + '            ' + json.dumps({'type': 'CLOSE_PATH', 'points': []}) + '\n' + T + ']'))


def code_json_nested(x0: float, y0: float, x1: float, y1: float):
    """JSON: a form holds its items; images have box and name; order is that of drawing."""
    return write(convert_to_json, [Page(0, 1, 2, [Form([Image('i', (x0, y0, x1, y1)), Rect()], (y0, x0, y1, x1)), Line()])])


def ref_json_nested(x0: float, y0: float, x1: float, y1: float):
    return jpages(jpage(0, 1, 2,
        T + '"type": "xobject",\n' + jbox(T, y0, x0, y1, x1) + ',\n' + T + '"children": [\n            {\n'
        + TT + '"type": "img",\n' + TT + '"src": "i",\n' + jbox(TT, x0, y0, x1, y1) + '\n            },\n            {\n'
        + jbox(TT, 0, 0, 0, 0) + ',\n' + TT + '"type": "rect"\n            }\n' + T + ']',
        jbox(T, 0, 0, 0, 0) + ',\n' + T + '"type": "line"'))


def code_json_codec(a: str, codec: str):
    """JSON: everything is written in the chosen encoding."""
    if not codec:
        return None
    DISK.codec = codec
    return write(convert_to_json, [Page(0, 1, 2, [words(a)])], codec=codec)


def ref_json_codec(a: str, codec: str):
    if not codec:
        return None
    return jpages(jpage(0, 1, 2,
        jempty('text-block') + ',\n' + T + '"char_blocks": [\n            {\n'
        + TT + '"size": 1,\n' + jbox(TT, 0, 0, 0, 0) + ',\n' + TT + '"text": ' + js(a) + '\n            }\n' + T + ']'))


# ---- XML

def xbox(x0, y0, x1, y1):
    return 'x0="' + str(x0) + '" x1="' + str(x1) + '" y0="' + str(y0) + '" y1="' + str(y1) + '"'


ZERO = 'x0="0" x1="0" y0="0" y1="0"'
HEAD = '<?xml version="1.0.0" encoding="utf-8" ?>'


def tag(depth, name, attrs, inner):
    return ' ' * depth + '<' + name + ' ' + attrs + '>\n' + inner + ' ' * depth + '</' + name + '>\n'


def single(depth, name, attrs):
    return ' ' * depth + '<' + name + ' ' + attrs + ' />\n'


def xpage(n, w, h, inner):
    return tag(1, 'page', 'id="' + str(n) + '" width="' + str(w) + '" height="' + str(h) + '"', inner)


def xvalid(text):
    """Characters that no XML document may contain are replaced."""
    return re.sub('[^\t\n\r -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', text)


def xtext(text):
    return xvalid(text).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def xattr(text):
    return xtext(text).replace('"', '&quot;')


def xchar(depth, text, box=ZERO):
    return ' ' * depth + '<char ' + box + '>' + xtext(text) + '</char>\n'


def code_xml_pages(n: int, w: float, h: float):
    """XML: pages with number and size, in order."""
    return write(convert_to_xml, [Page(n, w, h, []), Page(1, h, w, [])])


def ref_xml_pages(n: int, w: float, h: float):
    return HEAD + tag(0, 'pages', '', xpage(n, w, h, '') + xpage(1, h, w, ''))


def code_xml_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    """XML: a text block with its character blocks, each with its characters, all with their boxes; text is escaped."""
    return write(convert_to_xml, [Page(0, 1, 2, [Text([Block([Chr(a, (x0, x1, y0, y1)), Chr(b)], (x0, y0, x1, y1), s),
                                                       Block([Chr(c)], (y0, x0, y1, x1), t)], (y1, x1, y0, x0))])])


def ref_xml_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    return HEAD + tag(0, 'pages', '', xpage(0, 1, 2, tag(2, 'text-block', xbox(y1, x1, y0, x0),
        tag(3, 'char-block', 'size="' + str(s) + '" ' + xbox(x0, y0, x1, y1), xchar(4, a, xbox(x0, x1, y0, y1)) + xchar(4, b))
        + tag(3, 'char-block', 'size="' + str(t) + '" ' + xbox(y0, x0, y1, x1), xchar(4, c)))))


def code_xml_font(v: str, w: float, r: float, g: float, b: float):
    """XML: a character block has its colour and the entries of the font descriptor but for embedded fonts; values are escaped."""
    return write(convert_to_xml, [Page(0, 1, 2, [Text([Block([], font=Font({
        'Type': 1, 'FontName': v, 'FontFile': 2, 'FontFile3': 3, 'StemV': w}), color=plain('DeviceRGB', r, g, b))])])])


def ref_xml_font(v: str, w: float, r: float, g: float, b: float):
    return HEAD + tag(0, 'pages', '', xpage(0, 1, 2, tag(2, 'text-block', ZERO, tag(
        3, 'char-block', 'size="1" ' + ZERO + ' color-type="DeviceRGB" color-values="' + str(r) + ',' + str(g) + ',' + str(b)
        + '" font-name="' + xattr(v) + '" stem-v="' + str(w) + '"', ''))))


def code_xml_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    """XML: rectangles, lines and curves with box and colours, curves with their points."""
    c = CurvePath
    return write(convert_to_xml, [Page(0, 1, 2, [
        Rect((x0, y0, x1, y1), stroke=plain('DeviceGray', r), fill=plain('DeviceGray', g)),
        Line((x1, y0, x0, y1), stroke=plain('DeviceGray', g)),
        Curve((y0, x0, y1, x1), [c(c.METHOD.MOVE_TO, CurvePoint(x0, y0)), c(c.METHOD.CURVE_FIRST_TO, CurvePoint(x1, y0), CurvePoint(y1, x0)),
                                 c(c.METHOD.CLOSE_PATH)])])])


def ref_xml_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    def pt(x, y):
        return single(4, 'point', 'x="' + str(x) + '" y="' + str(y) + '"')
    return HEAD + tag(0, 'pages', '', xpage(
        0, 1, 2,
        single(2, 'rect', xbox(x0, y0, x1, y1) + ' stroke-type="DeviceGray" stroke-values="' + str(r) + '" fill-type="DeviceGray" fill-values="' + str(g) + '"')
        + single(2, 'line', xbox(x1, y0, x0, y1) + ' stroke-type="DeviceGray" stroke-values="' + str(g) + '"')
        + tag(2, 'curve', xbox(y0, x0, y1, x1), tag(3, 'path', 'type="MOVE_TO"', pt(x0, y0)) + tag(3, 'path', 'type="CURVE_FIRST_TO"', pt(x1, y0) + pt(y1, x0))
              + tag(3, 'path', 'type="CLOSE_PATH"', ''))))


def code_xml_nested(x0: float, y0: float, x1: float, y1: float):
    """XML: a form holds its items; images have box and name; order is that of drawing."""
    return write(convert_to_xml, [Page(0, 1, 2, [Form([Image('i', (x0, y0, x1, y1)), Form([Rect()])], (y0, x0, y1, x1)), Line()])])


def ref_xml_nested(x0: float, y0: float, x1: float, y1: float):
    return HEAD + tag(0, 'pages', '', xpage(
        0, 1, 2, tag(2, 'xobject', xbox(y0, x0, y1, x1), single(3, 'img', 'src="i" ' + xbox(x0, y0, x1, y1))
                     + tag(3, 'xobject', ZERO, single(4, 'rect', ZERO))) + single(2, 'line', ZERO)))


def code_xml_codec(a: str, codec: str):
    """XML: everything is written in the chosen encoding, which the head names."""
    if not codec:
        return None
    DISK.codec = codec
    return write(convert_to_xml, [Page(0, 1, 2, [words(a)])], codec=codec)


def ref_xml_codec(a: str, codec: str):
    if not codec:
        return None
    return '<?xml version="1.0.0" encoding="' + codec + '" ?>' + tag(0, 'pages', '', xpage(
        0, 1, 2, tag(2, 'text-block', ZERO, tag(3, 'char-block', 'size="1" ' + ZERO, xchar(4, a)))))


# ---- YAML

def yq(text):
    """A double-quoted scalar: what JSON escapes, and what YAML documents cannot contain."""
    return re.sub('[\x7f-\x9f\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]', lambda m: '\\u%04x' % ord(m.group()),
                  json.dumps(text, ensure_ascii=False))


def yitem(depth, *lines):
    """An entry of a list: lines, the first with the dash, the others below it."""
    return '  ' * depth + '- ' + ('\n' + '  ' * (depth + 1)).join(lines)


def ybox(x0, y0, x1, y1):
    return ['x0: ' + str(x0), 'x1: ' + str(x1), 'y0: ' + str(y0), 'y1: ' + str(y1)]


def ypage(n, w, h, *children):
    return yitem(1, 'id: ' + str(n), 'width: ' + str(w), 'height: ' + str(h), 'children:\n') + '\n'.join(children)


def code_yaml_pages(n: int, w: float, h: float):
    """YAML: the list of pages, each with number, size and items."""
    return write(convert_to_yaml, [Page(n, w, h, []), Page(1, h, w, [])])


def ref_yaml_pages(n: int, w: float, h: float):
    return 'pages:\n' + ypage(n, w, h) + '\n' + ypage(1, h, w)


def code_yaml_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    """YAML: a text block with its box and character blocks, each with box, size and text, which is quoted."""
    return write(convert_to_yaml, [Page(0, 1, 2, [Text([Block([Chr(a), Chr(b)], (x0, y0, x1, y1), s), Block([Chr(c)], (y0, x0, y1, x1), t)],
                                                       (y1, x1, y0, x0))])])


def ref_yaml_text(a: str, b: str, c: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float):
    return 'pages:\n' + ypage(0, 1, 2, yitem(3, 'type: text-block', *ybox(y1, x1, y0, x0), 'char_blocks:\n')
                              + yitem(5, 'size: ' + str(s), *ybox(x0, y0, x1, y1), 'text: ' + yq(a + b)) + '\n'
                              + yitem(5, 'size: ' + str(t), *ybox(y0, x0, y1, x1), 'text: ' + yq(c)))


def code_yaml_font(v: str, w: float, r: float, g: float, b: float):
    """YAML: a character block has its colour and the entries of the font descriptor but for embedded fonts; texts are quoted."""
    return write(convert_to_yaml, [Page(0, 1, 2, [Text([Block([], font=Font({
        'Type': 1, 'FontName': v, 'FontFile': 2, 'a: b': v, 'StemV': w}), color=plain('DeviceRGB', r, g, b))])])])


def ref_yaml_font(v: str, w: float, r: float, g: float, b: float):
    return 'pages:\n' + ypage(0, 1, 2, yitem(3, 'type: text-block', *ybox(0, 0, 0, 0), 'char_blocks:\n')
                              + yitem(5, 'size: 1', *ybox(0, 0, 0, 0), 'color:\n') + '  ' * 7 + 'type: "DeviceRGB"\n' + '  ' * 7 + 'value: '
                              + json.dumps([str(r), str(g), str(b)])
                              + '\n' + '  ' * 6 + 'FontName: ' + yq(v) + '\n' + '  ' * 6 + '"a: b": ' + yq(v)
                              + '\n' + '  ' * 6 + 'StemV: ' + str(w) + '\n' + '  ' * 6 + 'text: ""')


def code_yaml_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    """YAML: rectangles, lines and curves with box, colours and kind, curves with their points."""
    c = CurvePath
    return write(convert_to_yaml, [Page(0, 1, 2, [
        Rect((x0, y0, x1, y1), stroke=plain('DeviceGray', r), fill=plain('DeviceGray', g)),
        Line((x1, y0, x0, y1), stroke=plain('DeviceGray', g)),
        Curve((y0, x0, y1, x1), [c(c.METHOD.MOVE_TO, CurvePoint(x0, y0)), c(c.METHOD.CURVE_FIRST_TO, CurvePoint(x1, y0), CurvePoint(y1, x0))])])])


def ref_yaml_shapes(x0: float, y0: float, x1: float, y1: float, r: float, g: float):
    def gray(name, v):
        return name + ':\n' + '  ' * 5 + 'type: "DeviceGray"\n' + '  ' * 5 + 'value: ' + json.dumps([str(v)])
    return 'pages:\n' + ypage(0, 1, 2, yitem(3, 'type: rect', *ybox(x0, y0, x1, y1), gray('fill', g), gray('stroke', r)),
                              yitem(3, 'type: line', *ybox(x1, y0, x0, y1), gray('stroke', g)),
                              yitem(3, 'type: curve', 'paths:\n')
                              + yitem(5, 'type: MOVE_TO', 'points: ' + str([{'x': x0, 'y': y0}])) + '\n'
                              + yitem(5, 'type: CURVE_FIRST_TO', 'points: ' + str([{'x': x1, 'y': y0}, {'x': y1, 'y': x0}]))
                              + ('\n' + '  ' * 4).join([''] + ybox(y0, x0, y1, x1)))


def code_yaml_nested(x0: float, y0: float, x1: float, y1: float):
    """YAML: a form holds its items; images have box and name; order is that of drawing."""
    return write(convert_to_yaml, [Page(0, 1, 2, [Form([Image('i', (x0, y0, x1, y1)), Rect()], (y0, x0, y1, x1)), Line()])])


def ref_yaml_nested(x0: float, y0: float, x1: float, y1: float):
    return 'pages:\n' + ypage(0, 1, 2, yitem(3, 'type: xobject', *ybox(y0, x0, y1, x1), 'children:\n')
                              + yitem(5, 'type: img', 'src: "i"', *ybox(x0, y0, x1, y1)) + '\n' + yitem(5, 'type: rect', *ybox(0, 0, 0, 0)),
                              yitem(3, 'type: line', *ybox(0, 0, 0, 0)))


def code_yaml_codec(a: str, codec: str):
    """YAML: everything is written in the chosen encoding."""
    if not codec:
        return None
    DISK.codec = codec
    return write(convert_to_yaml, [Page(0, 1, 2, [words(a)])], codec=codec)


def ref_yaml_codec(a: str, codec: str):
    if not codec:
        return None
    return 'pages:\n' + ypage(0, 1, 2, yitem(3, 'type: text-block', *ybox(0, 0, 0, 0), 'char_blocks:\n')
                              + yitem(5, 'size: 1', *ybox(0, 0, 0, 0), 'text: ' + yq(a)))


# ---- HTML

def hesc(text):
    return text.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace('"', '&quot;')


def css(**entries):
    return hesc(';'.join([k.replace('_', '-') + ': ' + str(v) for k, v in entries.items()]))


def hdoc(body, codec='utf-8'):
    return ('<html >\n <head >\n  <meta http-equiv="Content-Type" content="text/html" charset="' + codec + '" />\n  <style >\n'
            '   .page { position: relative; overflow: hidden;border: 1px black solid;}\n  </style>\n </head>\n <body >\n' + body
            + ' </body>\n</html>')


def px(v):
    return str(v) + 'px'


def hpage(n, w, h, *children):
    return tag(2, 'div', 'class="page" id="page-' + str(n) + '" style="' + css(width=px(w), height=px(h)) + '"', ''.join(children))


def size(w, h):
    return {'width': px(w), 'min-width': px(w), 'max-width': px(w), 'height': px(h), 'min-height': px(h), 'max-height': px(h)}


def hchar(depth, text, w=0, h=0):
    return tag(depth, 'span', 'class="char" style="' + css(**size(w, h)) + '"', ' ' * (depth + 1) + hesc(text) + '\n')


def hblock(depth, x0, y0, x1, y1, points, family, weight, angle, colour, *chars):
    return tag(depth, 'span', 'class="char-block" style="' + css(
        position='absolute', left=x0, bottom=y0, font_size=px(points), font_family=family, font_weight=weight, color=colour,
        **size(x1 - x0, y1 - y0), transform='skew(' + str(angle) + 'deg, 0deg)', text_align='center', display='flex', flex_flow='row nowrap',
        justify_content='space-between') + '"', ''.join(chars))


def htext(depth, *blocks):
    return tag(depth, 'span', 'class="text-block"', ''.join(blocks))


def hform(depth, x0, y0, x1, y1, *children):
    return tag(depth, 'div', 'class="xobject" style="' + css(left=px(x0), right=px(x1), bottom=px(y0), top=px(y1), width=px(x1 - x0),
                                                            height=px(y1 - y0)) + '"', ''.join(children))


def code_html_pages(n: int, w: float, h: float):
    """HTML: pages in order, each with its number as an anchor and its size."""
    return write(convert_to_html, [Page(n, w, h, []), Page(1, h, w, [])])


def ref_html_pages(n: int, w: float, h: float):
    return hdoc(hpage(n, w, h) + hpage(1, h, w))


def code_html_text(a: str, b: str, c: str, f: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float, r: float, g: float):
    """HTML: character blocks at their place in their size, font and colour, with their characters in order; text and names are escaped."""
    return write(convert_to_html, [Page(0, 1, 2, [Text([
        Block([Chr(a, (x0, y0, x1, y1)), Chr(b)], (x0, y0, x1, y1), s, Font({}, s, t), f, plain('DeviceRGB', r, g, s)),
        Block([Chr(c)], (y0, x0, y1, x1), t)])])])


def ref_html_text(a: str, b: str, c: str, f: str, x0: float, y0: float, x1: float, y1: float, s: float, t: float, r: float, g: float):
    return hdoc(hpage(0, 1, 2, htext(
        3, hblock(4, x0, y0, x1, y1, s, f, s, t, 'rgb(' + str(r) + ',' + str(g) + ',' + str(s) + ')', hchar(5, a, x1 - x0, y1 - y0), hchar(5, b)),
        hblock(4, y0, x0, y1, x1, t, 'F', 400, 0, 'black', hchar(5, c)))))


def code_html_nested(a: str, i: str, x0: float, y0: float, x1: float, y1: float):
    """HTML: a form holds its items; images have size and name, which is escaped; order is that of drawing."""
    return write(convert_to_html, [Page(0, 1, 2, [
        Form([Image(i, (x0, y0, x1, y1)), Form([words(a)], (x0, y0, x1, y1))], (y0, x0, y1, x1)), Image('j')])])


def ref_html_nested(a: str, i: str, x0: float, y0: float, x1: float, y1: float):
    def img(depth, name, w, h):
        return single(depth, 'img', 'src="' + hesc(name) + '" background="red" width="' + px(w) + '" height="' + px(h) + '"')
    return hdoc(hpage(0, 1, 2, hform(3, y0, x0, y1, x1, img(4, i, x1 - x0, y1 - y0),
                                     hform(4, x0, y0, x1, y1, htext(5, hblock(6, 0, 0, 0, 0, 1, 'F', 400, 0, 'black', hchar(7, a))))),
                      img(3, 'j', 0, 0)))


def code_html_codec(a: str, codec: str):
    """HTML: everything is written in the chosen encoding, which the head names."""
    if not codec:
        return None
    DISK.codec = codec
    return write(convert_to_html, [Page(0, 1, 2, [Text([Block([Chr(a)])])])], codec=codec)


def ref_html_codec(a: str, codec: str):
    if not codec:
        return None
    return hdoc(hpage(0, 1, 2, htext(3, hblock(4, 0, 0, 0, 0, 1, 'F', 400, 0, 'black', hchar(5, a)))), hesc(codec))


def hcurve(x, y, data, stroke='', fill=''):
    """A drawing eight wide and four high at a place, on a page two high."""
    colours = ([' fill="' + fill + '"'] if fill else []) + ([' stroke="' + stroke + '"'] if stroke else [])
    style = ';'.join((['fill: ' + fill] if fill else []) + (['stroke: ' + stroke] if stroke else []))
    return tag(3, 'svg', 'class="curve" z-index="2" viewBox="0 0 ' + str((x + 8 - x) / (y + 4 - y)) + ' 1" height="' + px(y + 4 - y) + '" width="'
               + px(x + 8 - x) + '" style="' + css(border='1px solid black', position='absolute', left=px(x), bottom=px(2 - y),
                                                   top=px(2 - (y + 4)), right=px(x + 8), width=px(x + 8 - x), height=px(y + 4 - y))
        + '"', single(4, 'path', 'd="' + data + '"' + ''.join(colours) + ' style="' + style + '"'))


def code_html_curve(x: float, y: float, p: float, q: float, r: float, g: float):
    """HTML: the segments of a path in order, upright and scaled to its box, with their colours."""
    c = CurvePath
    return write(convert_to_html, [Page(0, 1, 2, [Curve((x, y, x + 8, y + 4), [
        c(c.METHOD.MOVE_TO, CurvePoint(p, q)), c(c.METHOD.LINE_TO, CurvePoint(q, p)),
        c(c.METHOD.CURVE_BOTH_TO, CurvePoint(p, p), CurvePoint(q, q), CurvePoint(p, q)), c(c.METHOD.CLOSE_PATH)],
        stroke=plain('DeviceRGB', r, g, p), fill=plain('DeviceCMYK', r, g, p, q))])])


def ref_html_curve(x: float, y: float, p: float, q: float, r: float, g: float):
    def at(a, b):
        return str((a - x) * 0.25) + ' ' + str((4 - (b - y)) * 0.25)
    return hdoc(hpage(0, 1, 2, hcurve(
        x, y, 'M' + at(p, q) + ' L' + at(q, p) + ' C' + at(p, p) + ' ' + at(q, q) + ' ' + at(p, q) + ' Z',
        stroke='rgb(' + str(r) + ',' + str(g) + ',' + str(p) + ')',
        fill='cmyk(' + str(r) + ',' + str(g) + ',' + str(p) + ',' + str(q) + ')')))


def code_html_curve_short(x: float, y: float, p: float, q: float, r: float):
    """HTML: curves with one control point start at, or end at, the point left out, which after closing is the start of the subpath."""
    c = CurvePath
    return write(convert_to_html, [Page(0, 1, 2, [Curve((x, y, x + 8, y + 4), [
        c(c.METHOD.MOVE_TO, CurvePoint(p, q)), c(c.METHOD.CURVE_NEXT_TO, CurvePoint(q, p), CurvePoint(p, p)),
        c(c.METHOD.CURVE_FIRST_TO, CurvePoint(q, q), CurvePoint(p, r)), c(c.METHOD.CURVE_NEXT_TO, CurvePoint(r, r), CurvePoint(r, q)),
        c(c.METHOD.CLOSE_PATH), c(c.METHOD.CURVE_NEXT_TO, CurvePoint(q, r), CurvePoint(r, p))])])])


def ref_html_curve_short(x: float, y: float, p: float, q: float, r: float):
    def at(*points):
        return ' '.join([str((a - x) * 0.25) + ' ' + str((4 - (b - y)) * 0.25) for a, b in points]) + ' '
    return hdoc(hpage(0, 1, 2, hcurve(
        x, y, 'M' + at((p, q)) + 'C' + at((p, q), (q, p), (p, p)) + 'C' + at((q, q), (p, r), (p, r)) + 'C' + at((p, r), (r, r), (r, q)) + 'Z'
        + 'C' + at((p, q), (q, r), (r, p)))))


# ---- the file

def broken():
    yield words('x')
    raise ValueError


def saved(convert):
    """The name and mode the output is opened with, and whether it is closed when all is written and when a page fails."""
    write(convert, [Page(0, 1, 1, [words('x')])])
    r = (DISK.opened, DISK.out.closed)
    try:
        write(convert, [Page(0, 1, 1, broken())])
    except ValueError:
        return r + (DISK.out.closed,)
    return r


def code_file_text():
    """The output file is the one asked for, and is closed in the end, also when a page fails."""
    return saved(convert_to_text)


def code_file_json():
    """The output file is the one asked for, and is closed in the end, also when a page fails."""
    return saved(convert_to_json)


def code_file_xml():
    """The output file is the one asked for, and is closed in the end, also when a page fails."""
    return saved(convert_to_xml)


def code_file_yaml():
    """The output file is the one asked for, and is closed in the end, also when a page fails."""
    return saved(convert_to_yaml)


def code_file_html():
    """The output file is the one asked for, and is closed in the end, also when a page fails."""
    return saved(convert_to_html)


def ref_file_text():
    return (('out', 'wb'), True, True)




def ref_file_json():
    return (('out', 'wb'), True, True)


def ref_file_xml():
    return (('out', 'wb'), True, True)


def ref_file_yaml():
    return (('out', 'wb'), True, True)


def ref_file_html():
    return (('out', 'wb'), True, True)
