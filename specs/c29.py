"""Saved images hold the picture."""
import struct
from pdfmajor.interpreter import LTImage
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.utils import Bbox


class Disk:
    """Keeps what is written."""

    def __init__(self):
        self.files = []


DISK = Disk()


class File:
    """A file that is written, anywhere."""

    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        self.data = b''
        self.pos = 0
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        self.pos = pos
        return pos

    def write(self, data):
        self.data = self.data[:self.pos] + b'\0' * (self.pos - len(self.data)) + data + self.data[self.pos + len(data):]
        self.pos += len(data)
        return len(data)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def opens(path, mode='r'):
    f = File(path, mode)
    DISK.files.append(f)
    return f


class Owner:
    """The document that references lead to."""

    def __init__(self, known=None):
        self.known = known or {}

    def getobj(self, objid):
        return self.known[objid]


def picture(data, **attrs):
    return LTImage('name', PDFStream(attrs, data), Bbox(10, 20, 33.5, 28))


def saved(image, name='p'):
    """What is in the file that is written, and where it is."""
    DISK.files = []
    path = image.save_image('out', name)
    return [(f.path, f.path == path, f.mode, f.closed, f.data) for f in DISK.files]


def file(name, data):
    return [('out/' + name, True, 'wb', True, data)]


def bitmap(bits, width, height, colours, rows):
    """A bitmap file: the rows come last to first."""
    size = len(rows)
    head = 54 + len(colours)
    return struct.pack('<ccIHHI', b'B', b'M', head + size, 0, 0, head) + struct.pack('<IiiHHIIIIII', 40, width, height, 1, bits, 0, size, 0, 0, len(colours) // 4, 0) + colours + rows


BW = b'\0\0\0\0\xff\xff\xff\0'
RGB = LIT('DeviceRGB')
GRAY = LIT('DeviceGray')


def code_jpg():
    """Photographs stay as they are, whether or not they were read before."""
    p = PDFStream({'Filter': LIT('DCTDecode'), 'Width': 4, 'Height': 2, 'BitsPerComponent': 8, 'ColorSpace': RGB}, b'photo')
    i = LTImage('name', p, Bbox(0, 0, 1, 1))
    j = picture(b'photo', Filter=[LIT('DCT')], Width=4, Height=2, BitsPerComponent=1, ColorSpace=GRAY)
    k = picture(b'70686f746f>', Filter=[LIT('ASCIIHexDecode'), LIT('DCTDecode')], Width=4, Height=2, BitsPerComponent=8, ColorSpace=RGB)
    return [[saved(i), saved(i), p.get_data(), saved(i, 'q')], saved(j), saved(k), saved(picture(b'photo', F=LIT('DCT'), W=4, H=2), None)]


def ref_jpg():
    return [[file('p.jpg', b'photo'), file('p.jpg', b'photo'), b'photo', file('q.jpg', b'photo')], file('p.jpg', b'photo'), file('p.jpg', b'photo'), file('name.jpg', b'photo')]


def code_secret():
    """Encrypted photographs are saved in the clear."""
    p = PDFStream({'Filter': LIT('DCTDecode'), 'Width': 4, 'Height': 2}, b'secret', lambda objid, genno, data, attrs=None: b'clear')
    return saved(LTImage('name', p, Bbox(0, 0, 1, 1)))


def ref_secret():
    return file('p.jpg', b'clear')


def code_mono():
    """Pictures of a bit for each point: rows are whole bytes, in the file multiples of four."""
    return [saved(picture(b'\x80\x40', Width=2, Height=2, BitsPerComponent=1, ColorSpace=GRAY)), saved(picture(b'\xaa\x80\x55\x00\xff\x80', Width=9, Height=3, ImageMask=True)),
            saved(picture(b'AAAABBBBB', Width=36, Height=2, BitsPerComponent=1)), saved(picture(b'', Width=1, Height=1))]


def ref_mono():
    return [file('p.w2h2.bmp', bitmap(1, 2, 2, BW, b'\x40\0\0\0\x80\0\0\0')), file('p.w9h3.bmp', bitmap(1, 9, 3, BW, b'\xff\x80\0\0\x55\0\0\0\xaa\x80\0\0')),
            file('p.w36h2.bmp', bitmap(1, 36, 2, BW, b'BBBB\0\0\0\0AAAAB\0\0\0')), file('p.w1h1.bmp', bitmap(1, 1, 1, BW, b'\0\0\0\0'))]


def code_rgb():
    """Three bytes for each point, blue first in the file."""
    return [saved(picture(b'abcdefghijkl', Width=2, Height=2, BitsPerComponent=8, ColorSpace=RGB)), saved(picture(b'abcdefghijkl', W=4, H=1, BPC=8, CS=[LIT('RGB')])),
            saved(picture(b'abcdef', Width=1, Height=2, BitsPerComponent=8, ColorSpace=RGB))]


def ref_rgb():
    return [file('p.w2h2.bmp', bitmap(24, 2, 2, b'', b'ihglkj\0\0cbafed\0\0')), file('p.w4h1.bmp', bitmap(24, 4, 1, b'', b'cbafedihglkj')),
            file('p.w1h2.bmp', bitmap(24, 1, 2, b'', b'fed\0cba\0'))]


def code_other():
    """Anything else is written as it is, its layout is in the name."""
    return [saved(picture(b'abcdefgh', Width=2, Height=1, BitsPerComponent=8, ColorSpace=LIT('DeviceCMYK'))), saved(picture(b'ab', Width=2, Height=1, BitsPerComponent=8, ColorSpace=[LIT('Indexed'), RGB, 1, b'abcdef'])),
            saved(picture(b'ab', Width=4, Height=1, BitsPerComponent=4, ColorSpace=GRAY)), saved(picture(b'6162>', Width=2, Height=1, BitsPerComponent=8, Filter=LIT('AHx')))]


def ref_other():
    return [file('p.b8w2h1.img', b'abcdefgh'), file('p.b8w2h1.img', b'ab'), file('p.b4w4h1.img', b'ab'), file('p.b8w2h1.img', b'ab')]


def code_references():
    o = Owner({1: 2, 2: 1, 3: 8, 4: RGB, 5: [LIT('ICCBased'), 7], 6: [PDFObjRef(None, 4, 0)], 8: [RGB]})
    (w, h, b) = (PDFObjRef(o, 1, 0), PDFObjRef(o, 2, 0), PDFObjRef(o, 3, 0))
    return [saved(picture(b'abcdef', Width=w, Height=h, BitsPerComponent=b, ColorSpace=PDFObjRef(o, 4, 0))), saved(picture(b'abcdef', Width=w, Height=h, BitsPerComponent=b, ColorSpace=PDFObjRef(o, 5, 0))),
            saved(picture(b'abcdef', Width=w, Height=h, BitsPerComponent=b, ColorSpace=[PDFObjRef(o, 4, 0)])),
            saved(picture(b'abcdef', Width=2, Height=1, BitsPerComponent=8, ColorSpace=PDFObjRef(o, 8, 0)))]


def ref_references():
    r = file('p.w2h1.bmp', bitmap(24, 2, 1, b'', b'cbafed\0\0'))
    return [r, file('p.b8w2h1.img', b'abcdef'), r, r]


def code_gray():
    return saved(picture(b'abc', Width=3, Height=1, BitsPerComponent=8, ColorSpace=GRAY))


def ref_gray():
    g = b''
    for i in range(256):
        g += bytes([i, i, i, 0])
    return file('p.w3h1.bmp', bitmap(8, 3, 1, g, b'abc\0'))
