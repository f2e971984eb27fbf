"""Documents name no files and run nothing."""
import os
import pdfmajor.parser.cmapdb
from pdfmajor.parser.cmapdb import FileUnicodeMap, FileCMap, CMapParser, CMapDB
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.execptions import CMapNotFound
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font


class Disk:
    """Records what is opened."""

    def __init__(self):
        self.opened = []
        self.loaded = []
        self.missing = False
        self.planted = False


class File:
    def __init__(self, path):
        self.path = path

    def read(self):
        return self.path

    def close(self):
        self.path = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


DISK = Disk()
FOLDERS = ('maps', '/current/pdfmajor/parser/cmapdb/cmap')


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


def opens(path, mode='rb'):
    DISK.opened.append(path)
    return File(path)


def exists(path):
    if DISK.planted:
        return os.path.dirname(os.path.normpath(path)) not in FOLDERS
    return not DISK.missing


def unpickled(data):
    DISK.loaded.append(data)
    return {'CODE2CID': {65: 1}, 'IS_VERTICAL': False, 'CID2UNICHR_H': {1: 'h'}, 'CID2UNICHR_V': {1: 'v'}}


def unpickled_from(file):
    return unpickled(file.read())


def work():
    return '/work'


def home(path):
    return '/home' + path[1:] if path[:1] == '~' else path


def setting(name, default=None):
    return 'maps' if name == 'CMAP_PATH' else default


def forget():
    """Nothing is loaded yet."""
    CMapDB._cmap_cache = {}
    CMapDB._umap_cache = {}
    DISK.opened = []
    DISK.loaded = []
    DISK.missing = False
    DISK.planted = False


def place(path):
    """The name alone for what lies in the folder of the maps, whichever that is."""
    path = os.path.normpath(path)
    return os.path.basename(path) if os.path.dirname(path) in FOLDERS else path


def seen():
    return ([place(p) for p in DISK.opened], [place(p) for p in DISK.loaded])


def outside():
    """What is opened or loaded elsewhere."""
    return [p for p in DISK.opened + DISK.loaded if os.path.dirname(os.path.normpath(p)) not in FOLDERS]


def asked(*names):
    """The files that are opened for the maps of these names."""
    forget()
    for n in names:
        try:
            CMapDB.get_cmap(n)
        except CMapNotFound:
            pass
        try:
            CMapDB.get_unicode_map(n)
        except CMapNotFound:
            pass
    return seen()


def code_maps():
    """Predefined maps come from their folder, each is read once."""
    return [asked('X-H'), asked('X', 'X', 'X'), asked('Identity-H')]


def ref_maps():
    (a, b, c) = (['X-H.pickle.gz', 'to-unicode-X-H.pickle.gz'], ['X.pickle.gz', 'to-unicode-X.pickle.gz'], ['to-unicode-Identity-H.pickle.gz'])
    return [(a, a), (b, b), (c, c)]


def elsewhere(*names):
    asked(*names)
    return outside()


def code_names():
    """Other places cannot be named."""
    return [elsewhere('../X'), elsewhere('/tmp/X'), elsewhere('/X', 'a/../../X'), elsewhere('x/..\0/../X'), elsewhere('\0/tmp/X'), elsewhere('.\0./X'), elsewhere('..%2fX'), elsewhere('%2ftmp%2fX'),
            elsewhere('..', '.'), elsewhere('a/../../maps/../X'), elsewhere('..\\X', '\\tmp\\X'), elsewhere('..:X', ':tmp:X'), elsewhere('...//X', './/X', '.\0./.\0./X')]


def ref_names():
    return [[], [], [], [], [], [], [], [], [], [], [], [], []]


def used(name):
    """A map that is built on another one."""
    forget()
    CMapParser(FileCMap(), Memory(b'/' + name + b' usecmap 1 begincidchar <42> 7 endcidchar')).run()
    return seen()


def code_usecmap():
    return [used(b'X-H'), (used(b'..#2fX-H'), outside())[1], (used(b'#2ftmp#2fX'), outside())[1], (used(b'..%2fX'), outside())[1], used(b'Identity-H')]


def ref_usecmap():
    a = ['X-H.pickle.gz']
    return [(a, a), [], [], [], ([], [])]


def font(enc, registry=b'Adobe', ordering=b'X', **more):
    """What a font opens."""
    forget()
    d = {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('../Y'), 'CIDSystemInfo': {'Registry': registry, 'Ordering': ordering}, 'FontDescriptor': {'FontName': LIT('/Y')}}
    get_font(None, dict({'Type': LIT('Font'), 'Subtype': LIT('Type0'), 'BaseFont': LIT('../X'), 'Encoding': LIT(enc), 'DescendantFonts': [d]}, **more))
    return outside()


def code_fonts():
    return [font('X-H'), font('../X-H'), font('/X-H'), font('Identity-H', b'/../Adobe', b'X'), font('Identity-H', b'Adobe', b'X/../../Y'), font('X-V', b'', b''),
            font('../X-H', ToUnicode=PDFStream({}, b'/..#2fX usecmap'))]


def ref_fonts():
    return [[], [], [], [], [], [], []]


def code_missing():
    """Both folders are searched, and nothing is loaded for a map that is in neither."""
    forget()
    DISK.missing = True
    try:
        CMapDB.get_cmap('X-H')
        r = 'found'
    except CMapNotFound:
        r = 'not found'
    return [r, seen()]


def ref_missing():
    return ['not found', ([], [])]


def planted(*names):
    """What is opened where files of these names lie in other folders, and none in that of the maps."""
    forget()
    DISK.planted = True
    for n in names:
        try:
            CMapDB.get_cmap(n)
        except CMapNotFound:
            pass
        try:
            CMapDB.get_unicode_map(n, True)
        except CMapNotFound:
            pass
    return outside()


def code_planted():
    """Nowhere else."""
    return [planted('X-H'), planted('~X', '~'), planted('../X')]


def ref_planted():
    return [[], [], []]
