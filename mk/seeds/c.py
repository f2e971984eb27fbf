PDF='''
import io, os, tempfile
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import PDFStream
def pdf(objs, trailer=b'/Root 1 0 R', tables=None):
    out = b'%PDF-1.4\\n'
    pos = {}
    for n, body in objs:
        pos[n] = len(out)
        out += b'%d 0 obj\\n%s\\nendobj\\n' % (n, body)
    start = len(out)
    out += b'xref\\n'
    for n in sorted(pos):
        out += b'%d 1\\n%010d 00000 n \\n' % (n, pos[n])
    out += b'trailer\\n<< /Size 99 %s >>\\nstartxref\\n%d\\n%%%%EOF\\n' % (trailer, start)
    return out
def append(data, objs, trailer=b'/Root 1 0 R'):
    prev = int(data.split(b'startxref\\n')[-1].split()[0])
    pos = {}
    out = data
    for n, body in objs:
        pos[n] = len(out)
        out += b'%d 0 obj\\n%s\\nendobj\\n' % (n, body)
    start = len(out)
    out += b'xref\\n'
    for n in sorted(pos):
        out += b'%d 1\\n%010d 00000 n \\n' % (n, pos[n])
    return out + b'trailer\\n<< /Size 99 /Prev %d %s >>\\nstartxref\\n%d\\n%%%%EOF\\n' % (prev, trailer, start)
def stream(b):
    return b'<< /Length %d >>\\nstream\\n%s\\nendstream' % (len(b), b)
def document(data, **kw):
    return PDFDocument(PDFParser(io.BytesIO(data)), **kw)
def pages(data, **kw):
    return list(PDFPage.get_pages(io.BytesIO(data), **kw))
class saved:
    def __init__(self, data): self.data = data
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        p = os.path.join(self.d.name, 'x.pdf')
        with open(p, 'wb') as f: f.write(self.data)
        return p
    def __exit__(self, *a): self.d.cleanup()
'''
CONV='''
import tempfile, os
from pdfmajor.converters import convert_file
def page(content, resources=b'<< >>', more=()):
    return pdf([(1, b'<< /Type /Catalog /Pages 2 0 R >>'), (2, b'<< /Type /Pages /Kids [3 0 R] /Count 1 /MediaBox [0 0 100 100] >>'),
                (3, b'<< /Type /Page /Contents 4 0 R /Resources ' + resources + b' >>'), (4, stream(content))] + list(more))
FONT = b'<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>'
def converted(data, kind, codec='utf-8', **kw):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.pdf')
        with open(p, 'wb') as f: f.write(data)
        o = os.path.join(d, 'out.' + kind)
        convert_file(p, o, out_type=kind, codec=codec, **kw)
        with open(o, 'rb') as f: return f.read().decode(codec)
'''
YAML='''    elif out_type == 'yaml' or out_type == 'yml':
        return convert_to_yaml(
            input_file_path=input_file, 
            output_file_path=output_file, 
            image_folder_path=image_folder_path,
            codec=codec,
            maxpages=maxpages, 
            password=password, 
            caching=caching, 
            check_extractable=check_extractable,
            pagenos=pagenos,
'''
ESC = """.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace('"', '&quot;')"""
SEEDS={
's19': dict(prop='C17', edits=[('converters/__init__.py', YAML + '            ignore_bad_chars=ignore_bad_chars,\n', YAML)],
  needs='YAML output of a document with unmapped characters, which are to be ignored',
  breaks='the dispatcher does not pass ignore_bad_chars on to the YAML converter',
  demo=PDF+CONV+'''
from pdfmajor.interpreter import PDFInterpreter
seen = []
init = PDFInterpreter.__init__
def spy(self, *a, **k):
    init(self, *a, **k)
    seen.append(self.ignore_bad_chars)
PDFInterpreter.__init__ = spy
for kind in ('json', 'yaml'):
    converted(page(b'0 0 m 1 1 l S'), kind, ignore_bad_chars=True)
assert seen == [True, True], seen
'''),
's20': dict(prop='C18', edits=[('converters/json.py','for point in path.points','for point in path.points[-1:]')],
  needs='a curve with control points, in JSON output',
  breaks='the control points of curves are left out',
  demo=PDF+CONV+'''
import json
r = json.loads(converted(page(b'1 2 m 3 4 5 6 7 8 c S'), 'json'))
(c,) = r['pages'][0]['children']
assert [(p['x'], p['y']) for p in c['paths'][1]['points']] == [(3, 4), (5, 6), (7, 8)], c
'''),
's21': dict(prop='C18', edits=[('converters/text.py','''                elif isinstance(item, LTXObject):
                    process_container(item)''','''                elif isinstance(item, LTXObject) and container is page:
                    process_container(item)''')],
  needs='text in a form inside a form, in plain text output',
  breaks='text drawn by nested forms is missing',
  demo=PDF+CONV+'''
def form(content, res):
    return b'<< /Type /XObject /Subtype /Form /BBox [0 0 9 9] /Resources ' + res + b' /Length %d >>\\nstream\\n%s\\nendstream' % (len(content), content)
fonts = b'/Font << /F ' + FONT + b' >>'
data = page(b'/A Do', b'<< /XObject << /A 5 0 R >> >>', [(5, form(b'/B Do', b'<< /XObject << /B 6 0 R >> >>')),
    (6, form(b'BT /F 9 Tf (inner) Tj ET', b'<< ' + fonts + b' >>'))])
assert 'inner' in converted(data, 'text'), converted(data, 'text')
'''),
's22': dict(prop='C19', edits=[('utils/text.py', ESC, ESC.replace(".replace('&', '&amp;')", '') + ".replace('&', '&amp;')")],
  needs='a text with a character that is escaped, in HTML output',
  breaks='escaped characters are escaped twice, so that the reader sees the escapes',
  demo=PDF+CONV+'''
out = converted(page(b'BT /F 9 Tf (a<b) Tj ET', b'<< /Font << /F ' + FONT + b' >> >>'), 'html')
assert '&lt;' in out and '&amp;' not in out
'''),
's23': dict(prop='C19', edits=[('converters/writers/yaml.py','''    with open(file_path, 'wb') as outf:
        with YAMLMakerObject(outf, codec=codec) as obj:
            yield obj''','''    outf = open(file_path, 'wb')
    with YAMLMakerObject(outf, codec=codec) as obj:
        yield obj
    outf.close()''')],
  needs='a page that fails while YAML is written',
  breaks='the output file stays open, and what was written may not be in it yet',
  demo=PDF+CONV+'''
data = page(b'0 0 1 1 re S BT (x) Tj ET')
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.pdf')
    with open(p, 'wb') as f: f.write(data)
    o = os.path.join(d, 'out.yaml')
    try:
        convert_file(p, o, out_type='yaml')
    except Exception as e:
        held = [os.readlink('/proc/self/fd/' + n) for n in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + n)]
        assert os.path.realpath(o) not in held, held
    else:
        raise AssertionError('text without a font was taken')
'''),
's24': dict(prop='C19', edits=[('converters/text.py','==========\\n".encode(codec))','==========\\n".encode())')],
  needs='plain text in an encoding that does not extend ASCII',
  breaks='the headings of pages are in another encoding than the text',
  demo=PDF+CONV+'''
out = converted(page(b'BT /F 9 Tf (hello) Tj ET', b'<< /Font << /F ' + FONT + b' >> >>'), 'text', codec='utf-16-le')
assert 'hello' in out and '[ page 0 ]' in out, out
'''),
's25': dict(prop='C17', edits=[('../tools/pdfconvert.py','set([int(x)-1 for x in parsed_args.pagenos.split(",")])','set([max(int(x)-1, 1) for x in parsed_args.pagenos.split(",")])')],
  needs='the first page selected on the command line',
  breaks='page one cannot be selected: the second comes instead',
  demo='''
from tools import pdfconvert
got = {}
pdfconvert.convert_file = lambda *a, **k: got.update(k)
pdfconvert.main(['-p', '1,3', 'x.pdf'])
assert set(got['pagenos']) == {0, 2}, got
'''),
}
