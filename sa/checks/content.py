"""Properties of the content-stream interpreter."""
from .. import effects
from ..pairs import SPECS, SpecEngine, run_spec
import os


def prelude():
    with open(os.path.join(SPECS, '_content.py'), encoding='utf-8') as f:
        return f.read()


def fonts():
    with open(os.path.join(SPECS, '_fonts.py'), encoding='utf-8') as f:
        return prelude() + f.read()


def c01(P, R):
    run_spec(R, P, 'c01.py', 'C01', prelude=prelude(), ignore=('state',))


def c02(P, R):
    run_spec(R, P, 'c02.py', 'C02', prelude=prelude(), ignore=('state',))


def c03(P, R):
    run_spec(R, P, 'c03.py', 'C03', prelude=prelude(), ignore=('state',))


def c04(P, R):
    run_spec(R, P, 'c04.py', 'C04', prelude=prelude(), ignore=('state',))


def c05(P, R):
    run_spec(R, P, 'c05.py', 'C05', prelude=prelude(), ignore=('state',))


def c06(P, R):
    run_spec(R, P, 'c06.py', 'C06', prelude=prelude(), ignore=('state',))


def c07(P, R):
    run_spec(R, P, 'c07.py', 'C07', prelude=fonts(), ignore=('state',))


def c08(P, R):
    run_spec(R, P, 'c08.py', 'C08', prelude=fonts(), ignore=('state',))


def c09(P, R):
    run_spec(R, P, 'c09.py', 'C09', prelude=prelude(), ignore=('state',))


def c10(P, R):
    run_spec(R, P, 'c10.py', 'C10', prelude=fonts(), rec=3, ignore=('state',))


HISTORIES = ('second_pass', 'second_pass_text', 'interleaved', 'two_pages', 'document', 'document_twice', 'document_preload',
             'document_abandoned', 'document_nested', 'no_pages')
STUB_FILE = {'open': 'fake_open', 'io.BytesIO': 'memory', 'PDFParser': 'Par', 'PDFDocument': 'Doc',
             'PDFPage.create_pages': 'pages_of'}


def c11(P, R):
    run_spec(R, P, 'c11.py', 'C11', prelude=prelude(), rec=3, stubs=STUB_FILE, ignore=('state',), skip=HISTORIES)


def c12(P, R):
    run_spec(R, P, 'c11.py', 'C12', prelude=prelude(), rec=3, stubs=STUB_FILE, ignore=('state',), only=HISTORIES)


def interning(f):
    """Interned names are equal exactly when their spelling is (property C14)."""
    return f.qual.endswith('PSSymbolTable.intern')


def c13(P, R):
    run_spec(R, P, 'c13.py', 'C13', rec=5, opaque=interning, stubs={'PDFParser': 'Par', 'PDFDocument': 'open_doc'})


def c14(P, R):
    run_spec(R, P, 'c14.py', 'C14', rec=5, opaque=interning,
             stubs={'PDFXRef': 'Tab', 'PDFXRefStream': 'Tab', 'PDFXRefFallback': 'Scan', 'PDFStreamParser': 'Packed'})


STUB_TABLES = {'PDFXRef': 'Tab', 'PDFXRefStream': 'Tab', 'PDFXRefFallback': 'Scan', 'PDFStreamParser': 'Packed'}


def text(fname):
    with open(os.path.join(SPECS, fname), encoding='utf-8') as f:
        return f.read()


def helpers(fname):
    """A reference text without its obligations."""
    import ast
    src = text(fname)
    t = ast.parse(src)
    drop = [n for n in t.body if isinstance(n, ast.FunctionDef) and n.name.split('_')[0] in
            ('code', 'ref', 'holds', 'raises', 'safe', 'ends')]
    lines = src.split('\n')
    for n in drop:
        for i in range(n.lineno - 1, n.end_lineno):
            lines[i] = ''
    return '\n'.join(lines) + '\n'


def c15(P, R):
    run_spec(R, P, 'c15.py', 'C15', rec=6, opaque=interning, prelude=helpers('c14.py'), stubs=STUB_TABLES)
    run_spec(R, P, 'c15b.py', 'C15.form', rec=3, prelude=fonts() + helpers('c10.py'), ignore=('state',))


def c16(P, R):
    run_spec(R, P, 'c16.py', 'C16', rec=6, opaque=lambda f: interning(f) or f.name == 'decode_text', prelude=helpers('c14.py'),
             stubs=STUB_TABLES)


STUB_OUT = {'open': 'fake_open', 'PDFInterpreter': 'FakeDoc'}


def c17(P, R):
    run_spec(R, P, 'c17.py', 'C17', rec=10, prelude=text('_items.py'), stubs=dict(STUB_OUT, make_argparser='fake_argparser'))


RENDERED = ('pages', 'order', 'text', 'font', 'shapes', 'nested', 'curve', 'curve_short')
FORMATS = ('text', 'json', 'xml', 'yaml', 'html')


def outputs(*kinds):
    return ['%s_%s' % (f, k) for f in FORMATS for k in kinds]


def c18(P, R):
    """Rendering of items."""
    run_spec(R, P, 'c18.py', 'C18', rec=14, prelude=text('_items.py'), stubs=STUB_OUT, only=outputs(*RENDERED))


def c19(P, R):
    """Escaping, encoding and the file."""
    run_spec(R, P, 'c18.py', 'C19', rec=14, prelude=text('_items.py'), stubs=STUB_OUT, only=outputs('text', 'font', 'codec', 'file') + [
        'html_nested', 'text_order'] + ['file_' + f for f in FORMATS])


# name: length of the result, or (negative) that of an argument from the end
CIPHERS = {'md5_of': 16, 'sha_of': 32, 'rc4_of': -1, 'aes_mode': -1, 'string_of': -1, 'stream_of': -1}
STUB_CRYPT = {'hashlib.md5': 'new_md5', 'Crypto.Hash.SHA256.new': 'new_sha', 'Crypto.Cipher.ARC4.new': 'new_rc4',
              'Crypto.Cipher.AES.new': 'new_aes', 'hashlib.sha256': 'new_sha'}


def c20(P, R):
    run_spec(R, P, 'c20.py', 'C20', prelude=text('_crypt.py') + helpers('c14.py'), rec=8, opaque=interning,
             stubs=dict(STUB_TABLES, **STUB_CRYPT), names=CIPHERS)
    run_spec(R, P, 'c20b.py', 'C20', prelude='', rec=4, opaque=interning, ignore=('state',), stubs=STUB_FILE)


def c21(P, R):
    run_spec(R, P, 'c21.py', 'C21', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning)


def c22(P, R):
    run_spec(R, P, 'c22.py', 'C22', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning)


def c23(P, R):
    run_spec(R, P, 'c23.py', 'C23', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning,
             stubs={'io.BytesIO': 'Memory'})


STUB_DECODERS = {'lzwdecode': 'lzw', 'ascii85decode': 'base85_of', 'asciihexdecode': 'hex_of', 'rldecode': 'runs_of', 'ccittfaxdecode': 'fax',
                 'apply_png_predictor': 'png'}
DECODERS = {'lzw_of': -1, 'late_of': -1, 'base85_of': -1, 'hex_of': -1, 'runs_of': -1, 'fax_of': -1, 'png_of': -1, 'clear_of': -1}


def c24(P, R):
    run_spec(R, P, 'c24.py', 'C24', rec=4, opaque=interning, stubs=STUB_DECODERS, names=DECODERS, apart=True)
    run_spec(R, P, 'c24b.py', 'C24', rec=4, spelling=True, apart=True, each=30)


def c25(P, R):
    run_spec(R, P, 'c25.py', 'C25', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning, stubs={'io.BytesIO': 'Memory'})


STUB_METRICS = {'FontMetricsDB.get_metrics': 'metrics'}


def c26(P, R):
    run_spec(R, P, 'c26.py', 'C26', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning,
             stubs=dict(STUB_METRICS, **{'io.BytesIO': 'Memory', 'CMapDB._load_data': 'load_data'}))


def c27(P, R):
    run_spec(R, P, 'c27.py', 'C27', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning, stubs=STUB_METRICS)


STUB_MAPS = {'open': 'opens', 'gzip.open': 'opens', 'io.open': 'opens', 'gzip.GzipFile': 'opens', 'os.path.exists': 'exists', 'os.path.isfile': 'exists',
             'pickle.loads': 'unpickled', 'pickle.load': 'unpickled_from', 'os.environ.get': 'setting', 'os.getenv': 'setting', 'io.BytesIO': 'Memory',
             'os.getcwd': 'work', 'os.path.expanduser': 'home'}


def c28(P, R):
    effects.analyse(P, R, 'C28', readers=('pdfmajor.parser.cmapdb', 'pdfmajor.interpreter'),
                    writers=('pdfmajor.converters.', 'pdfmajor.interpreter.commands.state.layout.LTImage', 'pdfmajor.BMPWriter.'))
    run_spec(R, P, 'c28.py', 'C28', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning, stubs=STUB_MAPS)


def c29(P, R):
    run_spec(R, P, 'c29.py', 'C29', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning, stubs={'open': 'opens', 'io.open': 'opens'})


def c30(P, R):
    run_spec(R, P, 'c30.py', 'C30', prelude=text('_text.py'), rec=8, spelling=True, apart=True, each=30, opaque=interning)


class Patient(SpecEngine):
    """Follows long loops on given data."""
    PEEL = 3000
    RANGE = 6000
    SHORT = False


def c31(P, R):
    kw = dict(prelude=text('_text.py'), rec=8, spelling=True, apart=True, opaque=interning, stubs={'io.BytesIO': 'Memory'}, engine=Patient)
    run_spec(R, P, 'c31.py', 'C31', each=30, **kw)
    run_spec(R, P, 'c31b.py', 'C31', each=100, **kw)
