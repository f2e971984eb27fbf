exec(open("/verif/mk/seeds/f.py").read().rsplit("SEEDS = {", 1)[0])
C25 = '''
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
def images(*datas):
    return [x.get_rawdata() for x in PDFContentParser([PDFStream({}, d) for d in datas]) if isinstance(x, PDFStream)]
'''
F = 'parser/PDFContentParser.py'
SEEDS = {
's39': dict(prop='C25', edits=[(F, "                if len(target) <= i and c.isspace():\n", "                if len(target) <= i and c in b' \\n':\n")],
 needs='an inline image whose EI is followed by a tab or carriage return', breaks='the image swallows the content behind it',
 demo=C25 + '''
for e in (b' ', b'\\n', b'\\r', b'\\t'):
    assert images(b'BI/W 1 ID abc\\nEI' + e + b'Q Q') == [b'abc'], e
'''),
's40': dict(prop='C25', edits=[(F, "                    data += self.buf[self.charpos:]\n", "                    data = self.buf[self.charpos:]\n")],
 needs='inline image data that go over the portion read with no E in what remains of the second', breaks='the beginning of the image data is lost',
 demo=C25 + '''
for n in (10, 1000, 5000, 9000, 20000):
    assert images(b'BI/W 1 ID ' + b'x' * n + b'\\nEI Q') == [b'x' * n], n
'''),
's41': dict(prop='C25', edits=[(F, "                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))\n", "                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v)\n")],
 needs='an inline image with an entry that is zero, false or empty', breaks='the entry is lost',
 demo=C25 + '''
x = [x for x in PDFContentParser([PDFStream({}, b'BI/W 1/I false/D[0 1]/L 0 ID abc\\nEI Q')]) if isinstance(x, PDFStream)][0]
assert x.attrs == {'W': 1, 'I': False, 'D': [0, 1], 'L': 0}, x.attrs
'''),
}
