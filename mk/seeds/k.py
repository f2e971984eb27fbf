exec(open("/verif/mk/seeds/f.py").read().rsplit("SEEDS = {", 1)[0])
PIC = '''
import os, struct, tempfile, shutil
from pdfmajor.interpreter import LTImage
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.utils import Bbox
def saved(data, **attrs):
    d = tempfile.mkdtemp()
    try:
        with open(LTImage('n', PDFStream(attrs, data), Bbox(0, 0, 5, 5)).save_image(d, 'p'), 'rb') as f:
            return f.read()
    finally:
        shutil.rmtree(d)
'''
MAPS = '''
import os, gzip, pickle, tempfile, shutil
from pdfmajor.parser.cmapdb import CMapDB
from pdfmajor.execptions import CMapNotFound
def loads(name):
    d = tempfile.mkdtemp()
    try:
        os.environ['CMAP_PATH'] = os.path.join(d, 'maps')
        os.mkdir(os.path.join(d, 'maps'))
        with gzip.open(os.path.join(d, 'Evil.pickle.gz'), 'wb') as f:
            f.write(pickle.dumps({'CODE2CID': {}, 'IS_VERTICAL': False}))
        try:
            CMapDB.get_cmap(name)
        except CMapNotFound:
            return False
        return True
    finally:
        shutil.rmtree(d)
'''
L = 'interpreter/commands/state/layout/LTImage.py'
B = 'BMPWriter/__init__.py'
SEEDS = {
's47': dict(prop='C28', edits=[('parser/cmapdb/__init__.py', "        filename = '%s.pickle.gz' % name\n", "        filename = '%s.pickle.gz' % unquote(name)\n"), ('parser/cmapdb/__init__.py', "import os.path\n", "import os.path\nfrom urllib.parse import unquote\n")],
 needs='a font whose encoding is a name with percent signs', breaks='maps are loaded from folders that the document names',
 demo=MAPS + '''
assert not loads('..%2fEvil')
'''),
's48': dict(prop='C28', edits=[('parser/PDFStream/__init__.py', "        if not filters:\n            self.data = data\n", "        if isinstance(self.get('FSpec'), bytes):\n            # the data are in a file of their own\n            data = open(self.get('FSpec'), 'rb').read()\n        if not filters:\n            self.data = data\n")],
 needs='a stream that names an external file', breaks='any file of the machine can be shown as content',
 demo=PIC + '''
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'secret'), 'wb') as f:
        f.write(b'secret')
    assert PDFStream({'FSpec': os.path.join(d, 'secret').encode()}, b'own').get_data() == b'own'
finally:
    shutil.rmtree(d)
'''),
's49': dict(prop='C29', edits=[(L, "BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)", "BMPWriter.write_all(fp, stream, 1, width, height, width//8 or 1)")],
 needs='a picture of one bit for each point whose width is more than eight and no multiple of eight', breaks='rows are shifted and lack their end',
 demo=PIC + '''
assert saved(b'\\xaa\\x80\\x55\\x00', Width=9, Height=2, ImageMask=True)[-8:] == b'\\x55\\0\\0\\0\\xaa\\x80\\0\\0'
'''),
's50': dict(prop='C29', edits=[(B, "        self.fp.seek(self.pos1 - (y+1)*self.linesize)\n", "        self.fp.seek(self.pos0 + y*self.linesize)\n")],
 needs='a bitmap of several rows', breaks='pictures are upside down',
 demo=PIC + '''
assert saved(b'\\x80\\x40', Width=2, Height=2)[-8:] == b'\\x40\\0\\0\\0\\x80\\0\\0\\0'
'''),
's51': dict(prop='C29', edits=[(B, "        headersize = 14+40+ncols*4\n", "        headersize = 14+40+max(ncols, 2)*4\n")],
 needs='an RGB picture, which has no colour table', breaks='the file says that its points begin too late',
 demo=PIC + '''
d = saved(b'abc', Width=1, Height=1, BitsPerComponent=8, ColorSpace=LIT('DeviceRGB'))
assert d[struct.unpack('<I', d[10:14])[0]:] == b'cba\\0'
'''),
}
