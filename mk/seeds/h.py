exec(open("/verif/mk/seeds/f.py").read().rsplit("SEEDS = {", 1)[0])
SEEDS = {
's36': dict(prop='C24', edits=[('utils/ascii85.py', "                    b = b*85+84\n", "                    b = b*85 + 83\n")],
 needs='ASCII85 data whose last group is not full and encodes a value near the upper end of what its characters cover', breaks='the last byte comes out one too small',
 demo='''
import base64
from pdfmajor.utils import ascii85decode
for n in (1, 2, 3):
    for k in range(256):
        d = bytes([k] * 4 + [(k + j) % 256 for j in range(n)])
        assert ascii85decode(base64.a85encode(d) + b'~>') == d, (d, ascii85decode(base64.a85encode(d) + b'~>'))
'''),
's37': dict(prop='C24', edits=[('utils/generic.py', "        line0 = line2\n", "        line0 = line2 if ft else line0\n")],
 needs='PNG predicted data with a row of method None followed by one of method Up', breaks='the Up row is added to the row before the None row',
 demo='''
from pdfmajor.utils import apply_png_predictor
assert apply_png_predictor(12, 1, 2, 8, bytes([2, 1, 2, 2, 3, 4, 2, 5, 6])) == bytes([1, 2, 4, 6, 9, 12])
assert apply_png_predictor(15, 1, 2, 8, bytes([0, 1, 2, 2, 3, 4])) == bytes([1, 2, 4, 6])
'''),
's38': dict(prop='C24', edits=[('parser/PDFStream/__init__.py', "        if self.data is None:\n            self.decode()\n", "        if not self.data:\n            self.decode()\n")],
 needs='a stream whose decoded data are empty, read twice', breaks='the second reading fails',
 demo='''
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT
s = PDFStream({}, b'AB')
assert (s.get_data(), s.get_data()) == (b'AB', b'AB')
s = PDFStream({'Filter': LIT('ASCIIHexDecode')}, b' >')
assert (s.get_data(), s.get_data()) == (b'', b'')
'''),
}
