"""Who asks for the password, and who may read the pages."""
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFPasswordIncorrect


class File:
    """A file, the content of which is (password, rights, number of pages)."""

    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def fake_open(path, mode='r'):
    return File(path)


def memory(data):
    return File(data)


class Par:
    def __init__(self, fp):
        self.fp = fp


class Doc:
    def __init__(self, parser, password='', caching=True):
        key, rights, n = parser.fp.data
        if password != key:
            raise PDFPasswordIncorrect
        self.is_extractable = rights
        self.n = n
        self.caching = caching


def pages_of(document):
    return [PDFPage(document, i, {'MediaBox': [0, 0, 9, 9], 'Contents': []}) for i in range(document.n)]


def count(d):
    n = 0
    for p in d:
        n = n + 1
    return n


def code_pages(rights: bool, check: bool, caching: bool):
    """Pages of a document that forbids extraction are only given out where nobody asked to respect that."""
    ps = [p for p in PDFPage.get_pages(File(('pw', rights, 2)), password='pw', check_extractable=check, caching=caching)]
    return (len(ps), ps[0].doc.caching)


def ref_pages(rights: bool, check: bool, caching: bool):
    if check and not rights:
        raise PDFTextExtractionNotAllowed
    return (2, caching)


def code_whole(rights: bool, check: bool):
    """The same for a document as a whole."""
    return count(PDFInterpreter(('pw', rights, 2), password='pw', check_extractable=check))


def ref_whole(rights: bool, check: bool):
    if check and not rights:
        raise PDFTextExtractionNotAllowed
    return 2


def raises_default_PDFTextExtractionNotAllowed():
    """Unless told otherwise, a document's rights are respected."""
    count(PDFInterpreter(('pw', False, 2), password='pw'))


def raises_default_pages_PDFTextExtractionNotAllowed():
    """The same for pages."""
    return [p for p in PDFPage.get_pages(File(('', False, 2)))]


def code_wrong(pw: str):
    """A wrong password does not open a document."""
    return count(PDFInterpreter(('secret', True, 2), password=pw))


def ref_wrong(pw: str):
    if pw != 'secret':
        raise PDFPasswordIncorrect
    return 2


def code_caching(caching: bool):
    """Whether objects are kept is passed on."""
    return [p.page.doc.caching for p in PDFInterpreter(('', True, 1), password='', caching=caching)]


def ref_caching(caching: bool):
    return [caching]
