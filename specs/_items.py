from pdfmajor.interpreter import LTTextBlock, LTCharBlock, LTChar, LTImage, LTXObject, LTCurve, LTLine, LTHorizontalLine
from pdfmajor.interpreter import LTVerticalLine, LTRect
from pdfmajor.interpreter.commands.state import CurvePath, PDFColor, PDFColorSpace
from pdfmajor.utils import Bbox
from pdfmajor.parser.PSStackParser import LIT


class Out:
    """A file that remembers the text written to it."""

    def __init__(self):
        self.text = ''
        self.closed = False
        self.codec = 'utf-8'

    def write(self, data):
        self.text = self.text + data.decode(self.codec)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True


class Disk:
    arguments = None
    out = None
    opened = None
    pages = None
    options = None
    codec = 'utf-8'


DISK = Disk()


def fake_open(name, mode='r', encoding=None):
    DISK.opened = (name, mode)
    DISK.out = Out()
    DISK.out.codec = DISK.codec
    return DISK.out


class FakeDoc:
    """The document: the pages at hand."""

    def __init__(self, input_file_path, maxpages=0, caching=True, check_extractable=True, password=None, pagenos=None, preload=False,
                 ignore_bad_chars=False, debug_level=30):
        DISK.options = (input_file_path, maxpages, caching, check_extractable, password, pagenos, ignore_bad_chars, debug_level)

    def __iter__(self):
        for p in DISK.pages:
            yield p


class Page:
    def __init__(self, num, width, height, items):
        self.page_num = num
        self.width = width
        self.height = height
        self.items = items

    def __iter__(self):
        for i in self.items:
            yield i


class Box(Bbox):
    def __init__(self, box):
        (self.x0, self.y0, self.x1, self.y1) = box


class Chr(LTChar):
    def __init__(self, text, box=(0, 0, 0, 0)):
        self.text = text
        self.bbox = Box(box)

    def get_text(self):
        return self.text


class Font:
    def __init__(self, descriptor, weight=400, angle=0):
        self.descriptor = descriptor
        self.font_weight = weight
        self.italic_angle = angle


class Block(LTCharBlock):
    def __init__(self, chars, box=(0, 0, 0, 0), size=1, font=None, name='F', color=None):
        self.bbox = Box(box)
        self.chars = chars
        self.size = size
        self.its_font = font if font is not None else Font({})
        self.its_name = name
        self.color = color if color is not None else PDFColor(None)

    def __iter__(self):
        for c in self.chars:
            yield c

    @property
    def font(self):
        return self.its_font

    @property
    def fontname(self):
        return self.its_name


class Text(LTTextBlock):
    def __init__(self, blocks, box=(0, 0, 0, 0)):
        self.bbox = Box(box)
        self.blocks = blocks

    def __iter__(self):
        for b in self.blocks:
            yield b


class Form(LTXObject):
    def __init__(self, items, box=(0, 0, 0, 0)):
        self.bbox = Box(box)
        self.items = items

    def __iter__(self):
        for i in self.items:
            yield i


class Image(LTImage):
    def __init__(self, name, box=(0, 0, 0, 0)):
        self.bbox = Box(box)
        self.name = name


class Curve(LTCurve):
    def __init__(self, box=(0, 0, 0, 0), paths=(), stroke=None, fill=None):
        self.bbox = Box(box)
        self.paths = paths
        self.stroke = stroke if stroke is not None else PDFColor(None)
        self.fill = fill if fill is not None else PDFColor(None)


class Rect(LTRect):
    def __init__(self, box=(0, 0, 0, 0), stroke=None, fill=None):
        self.bbox = Box(box)
        self.paths = ()
        self.stroke = stroke if stroke is not None else PDFColor(None)
        self.fill = fill if fill is not None else PDFColor(None)


class Line(LTHorizontalLine):
    def __init__(self, box=(0, 0, 0, 0), stroke=None, fill=None):
        self.bbox = Box(box)
        self.paths = ()
        self.stroke = stroke if stroke is not None else PDFColor(None)
        self.fill = fill if fill is not None else PDFColor(None)


def plain(name, *values):
    return PDFColor(PDFColorSpace(name, len(values)), *values)


def write(convert, pages, **options):
    DISK.pages = pages
    convert('in', 'out', **options)
    return DISK.out.text


def words(t, *more):
    return Text([Block([Chr(t)])] + [Block([Chr(m)]) for m in more])
