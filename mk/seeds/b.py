D='parser/PDFDocument/__init__.py'
X='parser/PDFDocument/PDFXRef.py'
PG='parser/PDFPage.py'
PI='interpreter/PageInterpreter.py'
INT='interpreter/__init__.py'
PDF='''
import io, os, tempfile
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import PDFStream
def pdf(objs, trailer=b'/Root 1 0 R', tables=None):
    out = b'%PDF-1.4\\n'
    pos = {}
    for n, body in objs:
        pos[n] = len(out)
        out += b'%d 0 obj\\n%s\\nendobj\\n' % (n, body)
    start = len(out)
    out += b'xref\\n'
    for n in sorted(pos):
        out += b'%d 1\\n%010d 00000 n \\n' % (n, pos[n])
    out += b'trailer\\n<< /Size 99 %s >>\\nstartxref\\n%d\\n%%%%EOF\\n' % (trailer, start)
    return out
def append(data, objs, trailer=b'/Root 1 0 R'):
    prev = int(data.split(b'startxref\\n')[-1].split()[0])
    pos = {}
    out = data
    for n, body in objs:
        pos[n] = len(out)
        out += b'%d 0 obj\\n%s\\nendobj\\n' % (n, body)
    start = len(out)
    out += b'xref\\n'
    for n in sorted(pos):
        out += b'%d 1\\n%010d 00000 n \\n' % (n, pos[n])
    return out + b'trailer\\n<< /Size 99 /Prev %d %s >>\\nstartxref\\n%d\\n%%%%EOF\\n' % (prev, trailer, start)
def stream(b):
    return b'<< /Length %d >>\\nstream\\n%s\\nendstream' % (len(b), b)
def document(data, **kw):
    return PDFDocument(PDFParser(io.BytesIO(data)), **kw)
def pages(data, **kw):
    return list(PDFPage.get_pages(io.BytesIO(data), **kw))
class saved:
    def __init__(self, data): self.data = data
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        p = os.path.join(self.d.name, 'x.pdf')
        with open(p, 'wb') as f: f.write(self.data)
        return p
    def __exit__(self, *a): self.d.cleanup()
'''
ONE='''
CAT = [(1, b'<< /Type /Catalog /Pages 2 0 R >>')]
'''
SEEDS={
's11': dict(prop='C11', edits=[(PI,'ctm = [0, 1, -1, 0, y1, -x0]','ctm = [0, 1, -1, 0, y1, x0]')],
  needs='a page turned by 270 degrees whose box does not start at 0 horizontally',
  breaks='the content of such a page is moved the wrong way',
  demo=PDF+'''
from pdfmajor.interpreter.PageInterpreter import PageInterpreter
p = pages(pdf([(1, b'<< /Type /Catalog /Pages 2 0 R >>'), (2, b'<< /Type /Pages /Kids [3 0 R] /Count 1 >>'),
    (3, b'<< /Type /Page /MediaBox [10 20 110 220] /Rotate -90 /Resources << >> >>')]))[0]
m = PageInterpreter(p, 0).ctm
assert list(m) == [0, 1, -1, 0, 220, -10], m
'''),
's13': dict(prop='C13', edits=[(PG,'''                if k in cls.INHERITABLE_ATTRS and k not in tree:
                    tree[k] = v''','''                if k in cls.INHERITABLE_ATTRS and not tree.get(k):
                    tree[k] = v''')],
  needs='a page that overrides an inherited attribute with an empty or zero value',
  breaks='a page that sets Rotate 0 or empty Resources gets those of its parent',
  demo=PDF+'''
p = pages(pdf([(1, b'<< /Type /Catalog /Pages 2 0 R >>'), (2, b'<< /Type /Pages /Kids [3 0 R] /Count 1 /Rotate 90 /Resources << >> >>'),
    (3, b'<< /Type /Page /MediaBox [0 0 10 20] /Rotate 0 >>')]))[0]
assert p.rotate == 0, p.rotate
'''),
's14': dict(prop='C13', edits=[(PG,'tree = dict_value(obj).copy()','tree = dict_value(obj)')],
  needs='an object of the page tree looked at again after the pages were listed',
  breaks='listing the pages writes inherited attributes into the cached objects of the document',
  demo=PDF+'''
d = document(pdf([(1, b'<< /Type /Catalog /Pages 2 0 R >>'), (2, b'<< /Type /Pages /Kids [3 0 R] /Count 1 /Rotate 90 /Resources << >> >>'),
    (3, b'<< /Type /Page /MediaBox [0 0 10 20] >>')]))
list(PDFPage.create_pages(d))
assert 'Rotate' not in d.getobj(3), d.getobj(3)
'''),
's15': dict(prop='C14', edits=[(D,'''        if 'XRefStm' in trailer:
            pos = int_value(trailer['XRefStm'])
            self.read_xref_from(parser, pos, xrefs, visited)
        if 'Prev' in trailer:
            # find previous xref
            pos = int_value(trailer['Prev'])
            self.read_xref_from(parser, pos, xrefs, visited)''','''        if 'Prev' in trailer:
            # find previous xref
            pos = int_value(trailer['Prev'])
            self.read_xref_from(parser, pos, xrefs, visited)
        if 'XRefStm' in trailer:
            pos = int_value(trailer['XRefStm'])
            self.read_xref_from(parser, pos, xrefs, visited)''')],
  needs='a hybrid file that was updated: an object in the stream of the newer section and in the older section',
  breaks='older sections win over the stream of a newer hybrid section',
  demo=PDF+'''
a = pdf([(1, b'<< /Type /Catalog >>'), (5, b'<< /V 1 >>')])
new = len(a)
a += b'5 0 obj\\n<< /V 2 >>\\nendobj\\n'
xs = len(a)
body = bytes([1]) + new.to_bytes(2, 'big') + bytes([0])
a += b'9 0 obj\\n<< /Type /XRef /Size 9 /Index [5 1] /W [1 2 1] /Length 4 >>\\nstream\\n' + body + b'\\nendstream\\nendobj\\n'
d = document(append(a, [(8, b'<< >>')], b'/Root 1 0 R /XRefStm %d' % xs), fallback=False)
assert d.getobj(5) == {'V': 2}, d.getobj(5)
'''),
's16': dict(prop='C14', edits=[(D,'''        if objid1 != objid:
            raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))

        if kwd''','''        if kwd''')],
  needs='a table whose offset points at another object than it says, in a file that still has the object',
  breaks='another object is returned for the wanted one',
  demo=PDF+'''
data = pdf([(1, b'<< /Type /Catalog >>'), (5, b'<< /V 5 >>'), (6, b'<< /V 6 >>')])
x = data.index(b'xref')
a, b = data.index(b'5 0 obj'), data.index(b'6 0 obj')
bad = data[:x] + data[x:].replace(b'%010d' % a, b'%010d' % b)
assert document(bad).getobj(5) == {'V': 5}, document(bad).getobj(5)
'''),
's17': dict(prop='C16', edits=[(D,'''                if key < k1 or k2 < key:''','''                if not k1 <= key < k2:''')],
  needs='a name that is the greatest one below its node of the name tree',
  breaks='the last name of each node is not found',
  demo=PDF+'''
d = document(pdf([(1, b'<< /Type /Catalog /Names << /Dests 2 0 R >> >>'), (2, b'<< /Kids [3 0 R] >>'),
   (3, b'<< /Limits [(a) (b)] /Names [(a) 5 (b) 6] >>')]))
assert d.get_dest(b'a') == 5
assert d.get_dest(b'b') == 6
'''),
's18': dict(prop='C16', edits=[(D,'''            names = dict_value(self.catalog['Names'])
        except (PDFTypeError, KeyError):
            raise KeyError((cat, key))''','''            names = dict_value(self.catalog if cat in self.catalog else self.catalog['Names'])
        except (PDFTypeError, KeyError):
            raise KeyError((cat, key))''')],
  needs='a document with both a name tree and old-style destinations in the catalogue',
  breaks='names of the name tree are not found when the catalogue has destinations of its own',
  demo=PDF+'''
d = document(pdf([(1, b'<< /Type /Catalog /Names << /Dests << /Names [(a) 5] >> >> /Dests << /b 6 >> >>')]))
assert d.get_dest(b'a') == 5
'''),
's12': dict(prop='C12', edits=[(INT,'''        else:
            for page in self.__load_pages():
                yield page''','''        else:
            loader = self.__load_pages()
            for page in loader:
                self.__pages.append(page)
                yield page''')],
  needs='a pass over the document that is given up, then another pass',
  breaks='the pages seen by an abandoned pass count as the whole document',
  demo=PDF+'''
from pdfmajor.interpreter import PDFInterpreter
data = pdf([(1, b'<< /Type /Catalog /Pages 2 0 R >>'), (2, b'<< /Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /MediaBox [0 0 9 9] >>'),
    (3, b'<< /Type /Page >>'), (4, b'<< /Type /Page >>')])
with saved(data) as p:
    d = PDFInterpreter(p)
    for page in d:
        break
    assert len(list(d)) == 2
'''),
}
