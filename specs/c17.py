"""Options reach the reading of the document, and the output goes where and in the format asked for."""
from pdfmajor.converters import convert_file
from pdfmajor.converters.json import convert_to_json
from pdfmajor.converters.yaml import convert_to_yaml
from pdfmajor.converters.xml import convert_to_xml
from pdfmajor.converters.html import convert_to_html
from pdfmajor.converters.text import convert_to_text
from pdfmajor.execptions import ConverterException
from tools.pdfconvert import main
import logging


def options(convert, m, p, c, k, b, n, d):
    DISK.pages = []
    convert('in.pdf', 'out', image_folder_path='images', maxpages=m, password=p, caching=c, check_extractable=k, ignore_bad_chars=b, pagenos=n,
            debug_level=d)
    return DISK.options


def expected(m, p, c, k, b, n, d):
    return ('in.pdf', m, c, k, p, n, b, d)


def code_options_text(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """Limit, password, caching, permission check, bad characters, page selection and log level reach the document, each as given."""
    return options(convert_to_text, m, p, c, k, b, n, d)


def ref_options_text(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return expected(m, p, c, k, b, n, d)


def code_options_json(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """Limit, password, caching, permission check, bad characters, page selection and log level reach the document, each as given."""
    return options(convert_to_json, m, p, c, k, b, n, d)


def ref_options_json(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return expected(m, p, c, k, b, n, d)


def code_options_xml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """Limit, password, caching, permission check, bad characters, page selection and log level reach the document, each as given."""
    return options(convert_to_xml, m, p, c, k, b, n, d)


def ref_options_xml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return expected(m, p, c, k, b, n, d)


def code_options_yaml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """Limit, password, caching, permission check, bad characters, page selection and log level reach the document, each as given."""
    return options(convert_to_yaml, m, p, c, k, b, n, d)


def ref_options_yaml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return expected(m, p, c, k, b, n, d)


def code_options_html(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """Limit, password, caching, permission check, bad characters, page selection and log level reach the document, each as given."""
    return options(convert_to_html, m, p, c, k, b, n, d)


def ref_options_html(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return expected(m, p, c, k, b, n, d)


def code_options_default():
    """Without options: every page, no password, cached, permissions checked, bad characters refused; the same for every format."""
    r = []
    for convert in (convert_to_text, convert_to_json, convert_to_xml, convert_to_yaml, convert_to_html, convert_file):
        DISK.pages = []
        convert('in.pdf', 'out.html')
        r.append(DISK.options)
    return r


def ref_options_default():
    return [('in.pdf', 0, True, True, None, None, False, logging.WARNING)] * 6


# ---- the dispatcher

def kinds(text):
    """The formats the text looks like."""
    r = []
    for kind, mark in (('text', '====='), ('json', '{\n  "pages"'), ('xml', '<?xml version'), ('html', '<html'), ('yaml', 'pages:')):
        if text.startswith(mark):
            r.append(kind)
    return r



def file(out_type, output, m, p, c, k, b, n, d):
    DISK.pages = [Page(0, 1, 2, [])]
    convert_file('dir/in.pdf', output, maxpages=m, password=p, caching=c, check_extractable=k, ignore_bad_chars=b, pagenos=n, debug_level=d,
                 out_type=out_type)
    return (DISK.options, DISK.opened, kinds(DISK.out.text))


def named(kind, output, m, p, c, k, b, n, d):
    return (('dir/in.pdf', m, c, k, p, n, b, d), (output, 'wb'), [kind])


def code_file_html(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """The dispatcher writes HTML beside the input when no name is given, and passes on every option."""
    return file('html', None, m, p, c, k, b, n, d)


def ref_file_html(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return named('html', 'dir/in.html', m, p, c, k, b, n, d)


def code_file_xml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """The dispatcher writes XML to the name given, and passes on every option."""
    return file('xml', 'x.xml', m, p, c, k, b, n, d)


def ref_file_xml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return named('xml', 'x.xml', m, p, c, k, b, n, d)


def code_file_json(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """The dispatcher writes JSON beside the input when no name is given, and passes on every option."""
    return file('json', None, m, p, c, k, b, n, d)


def ref_file_json(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return named('json', 'dir/in.json', m, p, c, k, b, n, d)


def code_file_yaml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """The dispatcher writes YAML under both of its names, and passes on every option."""
    return (file('yaml', 'a/x.yaml', m, p, c, k, b, n, d), file('yml', None, m, p, c, k, b, n, d))


def ref_file_yaml(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return (named('yaml', 'a/x.yaml', m, p, c, k, b, n, d), named('yaml', 'dir/in.yml', m, p, c, k, b, n, d))


def code_file_text(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    """The dispatcher writes text to the name given, and passes on every option."""
    return file('text', 'x.text', m, p, c, k, b, n, d)


def ref_file_text(m: int, p: str, c: bool, k: bool, b: bool, n, d: int):
    return named('text', 'x.text', m, p, c, k, b, n, d)


def raises_mismatch_ConverterException():
    """An output name that does not end in the output type is refused ..."""
    DISK.pages = []
    convert_file('in.pdf', 'out.xml', out_type='json')


def raises_unknown_ConverterException():
    """... and so is an unknown output type."""
    DISK.pages = []
    convert_file('in.pdf', 'out.doc', out_type='doc')


def code_refused_untouched():
    """What is refused writes nothing."""
    DISK.opened = None
    for name, kind in (('out.xml', 'json'), ('out.doc', 'doc'), ('in.pdf', 'text')):
        try:
            convert_file('in.pdf', name, out_type=kind)
        except ConverterException:
            pass
    return DISK.opened


def ref_refused_untouched():
    return None


# ---- the command line tool

class Arguments:
    """What the command line was parsed into."""

    def __init__(self, **given):
        self.files = given.get('files', ['in.pdf'])
        self.debug = given.get('debug', False)
        self.pagenos = given.get('pagenos')
        self.maxpages = given.get('maxpages', 0)
        self.password = given.get('password')
        self.codec = given.get('codec', 'utf-8')
        self.output_type = given.get('output_type', 'text')
        self.output_file = given.get('output_file', '-')
        self.output_dir = given.get('output_dir')
        self.disable_caching = given.get('disable_caching', False)


class FakeParser:
    def parse_args(self, args=None):
        return DISK.arguments


def fake_argparser():
    return FakeParser()


def command(**given):
    DISK.arguments = Arguments(**given)
    DISK.pages = [Page(0, 1, 2, [])]
    DISK.opened = DISK.options = None
    code = main([])
    if DISK.opened is None:
        return (code, None, None, None)
    return (code, DISK.options, DISK.opened, kinds(DISK.out.text))


def code_command_default():
    """The tool writes text beside the input."""
    return command()


def ref_command_default():
    return (0, ('in.pdf', 0, True, True, None, None, False, logging.WARNING), ('in.text', 'wb'), ['text'])


def code_command_options(m: int, p: str):
    """Page limit, password, page numbers counted from one, caching and debugging are passed on."""
    return command(maxpages=m, password=p, pagenos='1,3,12', disable_caching=True, debug=True, output_type='json')


def ref_command_options(m: int, p: str):
    return (0, ('in.pdf', m, False, True, p, {0, 2, 11}, False, logging.DEBUG), ('in.json', 'wb'), ['json'])


def code_command_output():
    """Type and name of the output are passed on; without a type the name decides."""
    return (command(output_type='xml', output_file='d/x.xml'), command(output_file='y.html'), command(output_file='z.xml'),
            command(output_file='w.text'))


def ref_command_output():
    o = ('in.pdf', 0, True, True, None, None, False, logging.WARNING)
    return ((0, o, ('d/x.xml', 'wb'), ['xml']), (0, o, ('y.html', 'wb'), ['html']), (0, o, ('z.xml', 'wb'), ['xml']),
            (0, o, ('w.text', 'wb'), ['text']))


def code_command_many():
    """Several files at once are refused with an exit code, and nothing is written."""
    return command(files=['a.pdf', 'b.pdf'])


def ref_command_many():
    return (1, None, None, None)
