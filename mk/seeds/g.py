exec(open("/verif/mk/seeds/f.py").read().rsplit("SEEDS = {", 1)[0])
OBJ = TOK + '''
from pdfmajor.parser.PDFStream import PDFStream
class Doc:
    decipher = None
def obj(data):
    p = PDFParser(BytesIO(data))
    p.set_document(Doc())
    for i in range(3): p.nexttoken()
    return p.nextobject()[1]
'''
SEEDS = {
's34': dict(prop='C23', edits=[('parser/PDFParser.py', "            data = bytearray(self.fp.read(objlen))\n", "            data = bytearray(self.fp.read(objlen).rstrip(b'\\r\\n'))\n")],
 needs='an encrypted document (or any whose stream lengths are trusted) with a stream whose own last byte is a line end', breaks='the stream loses its last bytes',
 demo=OBJ+'''
assert obj(b'1 0 obj <</Length 4>> stream\\nAB\\r\\n\\nendstream endobj ').get_rawdata() == b'AB\\r\\n'
assert obj(b'1 0 obj <</Length 4>> stream\\nABCD\\nendstream endobj ').get_rawdata() == b'ABCD'
'''),
's35': dict(prop='C23', edits=[('parser/PSStackParser/__init__.py', "for (k, v) in choplist(2, objs) if v is not None)", "for (k, v) in choplist(2, objs) if v not in (None, b'', []))")],
 needs='a dictionary with an empty string or an empty array as value', breaks='the key is missing, so that defaults apply',
 demo=OBJ+'''
d = obj(b'1 0 obj <</A()/B[]/C null/D 0>> endobj ')
assert d == {'A': b'', 'B': [], 'D': 0}, d
'''),
}
