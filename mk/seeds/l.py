exec(open("/verif/mk/seeds/k.py").read().rsplit("SEEDS = {", 1)[0])
FF = 'interpreter/commands/state/PDFTextState/PDFFont/'
CM = 'parser/cmapdb/__init__.py'
SEEDS = {
's52': dict(prop='C30', edits=[('utils/encoding/latin_enc.py', "  ('endash', 177, 208, 150, 133),\n", "  ('endash', 177, 208, None, 133),\n")],
 needs='a font with the Windows encoding that shows a dash', breaks='dashes are missing from the text',
 demo='''
from pdfmajor.parser.EncodingDB import EncodingDB
assert EncodingDB.get_encoding('WinAnsiEncoding').get(150) == '\\u2013'
'''),
's53': dict(prop='C30', edits=[('utils/text.py', "    if s.startswith(b'\\xfe\\xff'):\n", "    if s.startswith(b'\\xfe\\xff') and len(s) % 2 == 0:\n")],
 needs='a title in UTF-16 whose last byte is missing', breaks='the title is shown as pairs of Latin characters',
 demo='''
from pdfmajor.utils import decode_text
assert decode_text(b'\\xfe\\xff\\x00A\\x00') == 'A'
assert decode_text(b'\\xfe\\xff\\x00A') == 'A'
'''),
's54': dict(prop='C30', edits=[('parser/EncodingDB.py', "        if pdf:\n            pdf2unicode[pdf] = c\n", "        if pdf and pdf not in pdf2unicode:\n            pdf2unicode[pdf] = c\n        if mac == 219:\n            mac2unicode[mac] = name2unicode('Euro')\n")],
 needs='a font with the Macintosh encoding that shows a currency sign', breaks='it is taken for another sign',
 demo='''
from pdfmajor.parser.EncodingDB import EncodingDB
assert EncodingDB.get_encoding('MacRomanEncoding').get(219) == '\\xa4'
'''),
's55': dict(prop='C26', edits=[(CM, "                sprefix = s[:-4]\n                eprefix = e[:-4]\n", "                sprefix = s[:-2]\n                eprefix = e[:-2]\n"),
                              (CM, "                svar = s[-4:]\n                evar = e[-4:]\n", "                svar = s[-2:]\n                evar = e[-2:]\n                if len(s) < 2 or len(s) > 4:\n                    sprefix = b''\n")],
 needs='a CMap with ranges of codes that have five bytes', breaks='they are mapped without their first bytes',
 demo='''
from pdfmajor.parser.cmapdb import FileCMap, CMapParser
from io import BytesIO
c = FileCMap()
CMapParser(c, BytesIO(b'begincidrange <018EA1A1A1> <018EA1A1A2> 100 endcidrange')).run()
assert list(c.decode(b'\\x01\\x8e\\xa1\\xa1\\xa2')) == [101]
'''),
's56': dict(prop='C26', edits=[(FF + '__init__.py', "    if objid and objid in cached_fonts:\n", "    if objid in cached_fonts:\n"),
                              (FF + '__init__.py', "        if objid:\n            cached_fonts[objid] = font\n", "        cached_fonts[objid] = font\n")],
 needs='two fonts that are written where they are used, without numbers', breaks='the second one is taken for the first',
 demo='''
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font
from pdfmajor.parser.PSStackParser import LIT
def made(enc):
    return get_font(None, {'Type': LIT('Font'), 'Subtype': LIT('Type1'), 'BaseFont': LIT('X'), 'Encoding': LIT(enc)}, CACHE)
CACHE = {}
assert made('MacRomanEncoding').to_unichr(128) == '\\xc4'
assert made('WinAnsiEncoding').to_unichr(128) == '\\u20ac'
'''),
's57': dict(prop='C28', edits=[(CM, "                      os.path.join(os.path.dirname(__file__), 'cmap'),)\n", "                      os.path.join(os.path.dirname(__file__), 'cmap'),\n                      os.getcwd())\n")],
 needs='a folder with a file that is named like a map, in which the library is run', breaks='objects are loaded from files that came with the documents',
 demo=MAPS + '''
here = os.getcwd()
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    with gzip.open('Planted.pickle.gz', 'wb') as f:
        f.write(pickle.dumps({'CODE2CID': {}, 'IS_VERTICAL': False}))
    try:
        CMapDB.get_cmap('Planted')
        found = True
    except CMapNotFound:
        found = False
finally:
    os.chdir(here)
    shutil.rmtree(d)
assert not found
'''),
}
