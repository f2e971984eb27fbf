exec(open("/verif/mk/seeds/f.py").read().rsplit("SEEDS = {", 1)[0])
FONT = '''
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser import cmapdb
def simple(**more):
    return dict({'Type': LIT('Font'), 'Subtype': LIT('Type1'), 'BaseFont': LIT('X')}, **more)
def composite(enc, d=None, **more):
    d = d or {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Y'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'X'}, 'FontDescriptor': {}}
    return dict({'Type': LIT('Font'), 'Subtype': LIT('Type0'), 'BaseFont': LIT('X'), 'Encoding': LIT(enc), 'DescendantFonts': [d]}, **more)
def said(f, c):
    try:
        return f.to_unichr(c)
    except Exception:
        return None
'''
D = 'interpreter/commands/state/PDFTextState/PDFFont/'
SEEDS = {
's42': dict(prop='C26', edits=[('parser/EncodingDB.py', "            cid2unicode = cid2unicode.copy()\n", "            cid2unicode = cid2unicode.copy() if name in klass.encodings else cid2unicode\n")],
 needs='a font with differences but no known base encoding, followed by another one', breaks='the differences of one font change all others',
 demo=FONT + '''
a = get_font(None, simple(Encoding={'BaseEncoding': LIT('OwnEncoding'), 'Differences': [65, LIT('Euro')]}))
b = get_font(None, simple())
assert (a.to_unichr(65), b.to_unichr(65)) == ('\\u20ac', 'A'), (a.to_unichr(65), b.to_unichr(65))
'''),
's43': dict(prop='C26', edits=[('parser/cmapdb/__init__.py', "        return umaps[vertical]\n", "        return umaps[0]\n")],
 needs='the first font of a collection that is used is a vertical one', breaks='it is read with the horizontal map',
 demo=FONT + '''
class T:
    CODE2CID = {65: 1}
    IS_VERTICAL = True
    CID2UNICHR_H = {1: 'h'}
    CID2UNICHR_V = {1: 'v'}
cmapdb.CMapDB._load_data = classmethod(lambda cls, name: T)
assert [said(get_font(None, composite('X-V')), 1) for _ in range(2)] == ['v', 'v']
'''),
's44': dict(prop='C26', edits=[(D + '__init__.py', "            subspec = dict_value(dfonts[0]).copy()\n", "            subspec = dict_value(dfonts[0])\n")],
 needs='two composite fonts that share their descendant, the second one without a ToUnicode map', breaks='the second one is read with the map of the first',
 demo=FONT + '''
from pdfmajor.parser.PDFStream import PDFStream
d = {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Y'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity'}, 'FontDescriptor': {}}
a = get_font(None, composite('Identity-H', d, ToUnicode=PDFStream({}, b'1 beginbfchar <0041> <0058> endbfchar')))
b = get_font(None, composite('Identity-H', d))
assert (said(a, 65), said(b, 65)) == ('X', None), (said(a, 65), said(b, 65))
'''),
's45': dict(prop='C27', edits=[(D + 'fonts.py', "            self.default_disp = (None, vy)\n", "            self.default_disp = (0, vy)\n")],
 needs='a character of a vertical font that is not listed in W2', breaks='it starts half its width to the right',
 demo=FONT + '''
assert get_font(None, composite('Identity-V')).char_disp(1) == (None, 880)
'''),
's46': dict(prop='C27', edits=[(D + 'util.py', "                    widths[i] = w\n                r = []\n    return widths\nassert get_widths([1]) == {}\n", "                    widths.setdefault(i, w)\n                r = []\n    return widths\nassert get_widths([1]) == {}\n")],
 needs='a width array whose ranges overlap', breaks='the first range counts instead of the last',
 demo=FONT + '''
d = {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Y'), 'FontDescriptor': {}, 'W': [1, 9, 500, 4, 5, 700]}
f = get_font(None, composite('Identity-H', d))
assert [round(f.char_width(c) * 1000) for c in (1, 4, 5, 6)] == [500, 700, 700, 500]
'''),
}
