"""The page tree and the selection of pages."""
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser.constants import LIT
from pdfmajor.execptions import PDFObjectNotFound


class Doc:
    """A document whose objects are the given ones."""

    def __init__(self, catalog, objs, tables=None):
        self.catalog = catalog
        self.objs = objs
        self.xrefs = tables if tables is not None else []
        self.is_extractable = True

    def getobj(self, objid):
        if objid not in self.objs:
            raise PDFObjectNotFound(objid)
        return self.objs[objid]


class Table:
    def __init__(self, ids):
        self.ids = ids

    def get_objids(self):
        return self.ids


class Par:
    def __init__(self, fp):
        self.fp = fp


def open_doc(parser, password='', caching=True):
    return parser.fp


def ref(d, i):
    return PDFObjRef(d, i, 0)


def node(kids, extra=None):
    t = {'Type': LIT('Pages'), 'Kids': kids}
    if extra:
        t.update(extra)
    return t


def leaf(extra=None):
    t = {'Type': LIT('Page')}
    if extra:
        t.update(extra)
    return t


def tree(root, one, two, leaves):
    """catalog -> 1 -> (2 -> (4, 5), 3 -> (6, 7), 8)"""
    d = Doc({}, {})
    d.catalog['Pages'] = ref(d, 1)
    d.objs[1] = node([ref(d, 2), ref(d, 3), ref(d, 8)], root)
    d.objs[2] = node([ref(d, 4), ref(d, 5)], one)
    d.objs[3] = node([ref(d, 6), ref(d, 7)], two)
    for i in (4, 5, 6, 7, 8):
        d.objs[i] = leaf(leaves[i] if i in leaves else None)
    return d


def box():
    return {'MediaBox': [0, 0, 9, 9]}


def ids(d):
    return [p.pageid for p in PDFPage.create_pages(d)]


def code_order():
    """Pages come in document order: depth first, kids left to right, each once."""
    return ids(tree({'MediaBox': [0, 0, 9, 9]}, None, None, {}))


def ref_order():
    return [4, 5, 6, 7, 8]


def code_order_with_tables():
    """With a page tree the cross-reference tables contribute no page."""
    d = tree({'MediaBox': [0, 0, 9, 9]}, None, None, {})
    d.xrefs = [Table([4, 5, 6]), Table([1, 2, 3, 4, 5, 6, 7, 8])]
    return ids(d)


def ref_order_with_tables():
    return [4, 5, 6, 7, 8]


def code_inherit_box(a: num, b: num, c: num):
    """A page takes its media box from the nearest ancestor that has one, its own first."""
    d = tree({'MediaBox': a}, {'MediaBox': b}, None, {4: {'MediaBox': c}})
    return [p.mediabox for p in PDFPage.create_pages(d)]


def ref_inherit_box(a: num, b: num, c: num):
    return [c, b, a, a, a]


def code_inherit_crop(a: num, b: num, c: num):
    """The crop box is inherited likewise, and is the media box where none is given."""
    d = tree({'MediaBox': [0, 0, 9, 9], }, {'CropBox': b}, None, {4: {'CropBox': c}, 6: {'MediaBox': a}})
    return [p.cropbox for p in PDFPage.create_pages(d)]


def ref_inherit_crop(a: num, b: num, c: num):
    return [c, b, a, [0, 0, 9, 9], [0, 0, 9, 9]]


def code_inherit_rotate():
    """The rotation is inherited likewise; a page's own zero overrides it."""
    d = tree({'MediaBox': [0, 0, 9, 9], 'Rotate': 90}, {'Rotate': 180}, None, {4: {'Rotate': 0}, 8: {'Rotate': 270}})
    return [p.rotate for p in PDFPage.create_pages(d)]


def ref_inherit_rotate():
    return [0, 180, 90, 90, 270]


def code_inherit_resources(x, y, z):
    """Resources are inherited likewise, as a whole; an empty dictionary of its own counts."""
    d = tree({'MediaBox': [0, 0, 9, 9], 'Resources': {'Font': x}}, {'Resources': {'XObject': y}}, None,
             {4: {'Resources': {'Font': z}}, 8: {'Resources': {}}})
    return [p.resources for p in PDFPage.create_pages(d)]


def ref_inherit_resources(x, y, z):
    return [{'Font': z}, {'XObject': y}, {'Font': x}, {'Font': x}, {}]


def code_not_inherited(x, y):
    """Nothing else is inherited: contents and annotations belong to the page that has them."""
    d = tree({'MediaBox': [0, 0, 9, 9], 'Annots': x, 'Contents': [y]}, None, None, {5: {'Annots': y, 'Contents': [x]}})
    return [(p.annots, p.contents) for p in PDFPage.create_pages(d)]


def ref_not_inherited(x, y):
    return [(None, []), (y, [x]), (None, []), (None, []), (None, [])]


def code_siblings(a: num, b: num):
    """What one branch sets does not reach its siblings."""
    d = tree({'MediaBox': a}, {'MediaBox': b, 'Rotate': 90}, None, {})
    return [(p.mediabox, p.rotate) for p in PDFPage.create_pages(d)]


def ref_siblings(a: num, b: num):
    return [(b, 90), (b, 90), (a, 0), (a, 0), (a, 0)]


def code_untouched(a: num, b: num):
    """Walking the tree leaves the document's own dictionaries as they are, so a second walk finds the same."""
    d = tree({'MediaBox': a}, {'MediaBox': b, 'Rotate': 90}, None, {})
    one = [(p.pageid, p.mediabox, p.rotate) for p in PDFPage.create_pages(d)]
    two = [(p.pageid, p.mediabox, p.rotate) for p in PDFPage.create_pages(d)]
    return (one, two, 'MediaBox' in d.objs[4], 'MediaBox' in d.objs[3], 'Rotate' in d.objs[4])


def ref_untouched(a: num, b: num):
    r = [(4, b, 90), (5, b, 90), (6, a, 0), (7, a, 0), (8, a, 0)]
    return (r, r, False, False, False)


def code_reference_values(a: num):
    """Attribute values may be indirect."""
    d = tree({'MediaBox': [0, 0, 9, 9]}, None, None, {})
    d.objs[20] = a
    d.objs[21] = 90
    d.objs[22] = [ref(d, 23)]
    d.objs[1]['MediaBox'] = ref(d, 20)
    d.objs[1]['Rotate'] = ref(d, 21)
    d.objs[4]['Contents'] = ref(d, 22)
    return [(p.mediabox, p.rotate, len(p.contents)) for p in PDFPage.create_pages(d)]


def ref_reference_values(a: num):
    return [(a, 90, 1), (a, 90, 0), (a, 90, 0), (a, 90, 0), (a, 90, 0)]


def code_no_tree():
    """Without a page tree, every page object of the tables is a page, once, and other objects are none."""
    d = Doc({}, {1: leaf(box()), 2: {'Type': LIT('Font')}, 3: leaf(box()), 4: 7, 5: leaf(box())}, [])
    d.xrefs = [Table([1, 2, 3]), Table([3, 4, 5, 9, 1])]
    return ids(d)


def ref_no_tree():
    return [1, 3, 5]


def picks(d, pagenos, maxpages):
    return [p.pageid for p in PDFPage.get_pages(d, pagenos=pagenos, maxpages=maxpages)]


def five():
    return tree({'MediaBox': [0, 0, 9, 9]}, None, None, {})


def code_all_pages():
    """Without a selection every page is yielded."""
    return (picks(five(), None, 0), picks(five(), [], 0))


def ref_all_pages():
    return ([4, 5, 6, 7, 8], [4, 5, 6, 7, 8])


def code_pagenos():
    """A selection yields exactly the pages at those positions, counted from zero, in document order."""
    return (picks(five(), [0], 0), picks(five(), [3, 1], 0), picks(five(), [4, 9], 0), picks(five(), [7], 0))


def ref_pagenos():
    return ([4], [5, 7], [8], [])


def code_maxpages():
    """A page limit yields the first so many pages; zero means no limit."""
    return (picks(five(), None, 1), picks(five(), None, 3), picks(five(), None, 5), picks(five(), None, 8))


def ref_maxpages():
    return ([4], [4, 5, 6], [4, 5, 6, 7, 8], [4, 5, 6, 7, 8])


def code_both():
    """Selection and limit together yield the first so many pages of the selection."""
    return (picks(five(), [2, 3, 4], 1), picks(five(), [2, 3, 4], 2), picks(five(), [0, 4], 2))


def ref_both():
    return ([6], [6, 7], [4, 8])
