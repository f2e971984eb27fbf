exec(open('/verif/mk/seeds/e.py').read().split("SEEDS")[0])
TOK += '''
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFDocument.PDFXRef import PDFXRef, PDFXRefFallback, PDFXRefStream
'''
SEEDS = {
's32': dict(prop='C22', edits=[('parser/PDFDocument/PDFXRef.py', """            if start <= objid and objid < start+nobjs:
                index += objid - start
                break
            else:
                index += nobjs
""", """            if start <= objid <= start+nobjs:
                index += objid - start
                break
            index += nobjs
""")], needs='a cross-reference stream with several ranges, one starting right behind another', breaks='the first object of the next range, or the number behind the last, is given the wrong entry',
 demo=TOK+'''
x = PDFXRefStream()
x.ranges = [(1, 1), (5, 2)]
(x.fl1, x.fl2, x.fl3, x.entlen) = (1, 1, 1, 3)
x.data = bytes([1, 10, 0, 1, 50, 0, 1, 60, 0]) + bytes([1, 99, 0])
assert x.get_pos(5) == (None, 50, 0)
for n in (2, 7):
    try:
        assert 0, x.get_pos(n)
    except KeyError: pass
'''),
's33': dict(prop='C22', edits=[('parser/PDFDocument/PDFXRef.py', r"""r'^(\d+)\s+(\d+)\s+obj\b'""", r"""r'^(\d+)\s+(\d+)\s+obj\s*$'""")],
 needs='a document without usable table whose objects start on the line of their number', breaks='these objects are not found by the scan',
 demo=TOK+'''
p = PDFParser(BytesIO(b'%PDF-1.4\\n1 0 obj\\n<</Type/Catalog>>\\nendobj\\n2 0 obj<</A 5>>endobj\\ntrailer<</Root 1 0 R>>\\n'))
d = PDFDocument(p)
assert d.catalog
assert d.getobj(2) == {'A': 5}
'''),
}
