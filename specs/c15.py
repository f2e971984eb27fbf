"""Structures that refer to themselves."""
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.execptions import PDFDestinationNotFound
from pdfmajor.parser.PDFStream import dict_value, list_value, num_value


def ends_tables():
    """Cross-reference tables that name each other as predecessor or as stream table."""
    d = opened({100: ({5: (None, 10, 0)}, root({'Prev': 200}), True),
                200: ({6: (None, 20, 0)}, root({'Prev': 300, 'XRefStm': 200}), True),
                300: ({}, root({'Prev': 100}), True)}, {10: obj(5, 1), 20: obj(6, 2)})
    return (found(d, 5), found(d, 6))


def looped(objs):
    d = opened({100: ({5: (None, 10, 0), 6: (None, 20, 0), 7: (None, 30, 0)}, root(), True)},
               {10: obj(5, 1), 20: obj(6, 2), 30: obj(7, 3)})
    return d


def ends_reference_to_itself():
    """An object that is nothing but a reference to itself counts as missing."""
    d = looped(0)
    d._parser.objs[10] = obj(5, PDFObjRef(d, 5, 0))
    return (resolve1(PDFObjRef(d, 5, 0)), num_value(PDFObjRef(d, 5, 0)), list_value(PDFObjRef(d, 5, 0)))


def ends_reference_pair():
    """Two references that name each other count as missing."""
    d = looped(0)
    d._parser.objs[10] = obj(5, PDFObjRef(d, 6, 0))
    d._parser.objs[20] = obj(6, PDFObjRef(d, 5, 0))
    return (resolve1(PDFObjRef(d, 5, 0)), dict_value(PDFObjRef(d, 6, 0)), resolve_all([PDFObjRef(d, 6, 0)]))


def ends_reference_pair_uncached():
    """Likewise when objects are not kept."""
    d = opened({100: ({5: (None, 10, 0), 6: (None, 20, 0)}, root(), True)}, {10: obj(5, 1), 20: obj(6, 2)}, caching=False)
    d._parser.objs[10] = obj(5, PDFObjRef(d, 6, 0))
    d._parser.objs[20] = obj(6, PDFObjRef(d, 5, 0))
    return (resolve1(PDFObjRef(d, 5, 0)), dict_value(PDFObjRef(d, 6, 0)))


def code_reference_cycle(a: num):
    """References that only lead to each other give the default."""
    d = looped(0)
    d._parser.objs[10] = obj(5, PDFObjRef(d, 6, 0))
    d._parser.objs[20] = obj(6, PDFObjRef(d, 5, 0))
    return (resolve1(PDFObjRef(d, 5, 0)), resolve1(PDFObjRef(d, 6, 0), default=a), num_value(PDFObjRef(d, 5, 0)),
            resolve1(PDFObjRef(d, 7, 0)))


def ref_reference_cycle(a: num):
    return (None, a, 0, 3)


def kids(d, i, ks, extra=None):
    t = {'Type': LIT('Pages'), 'Kids': [PDFObjRef(d, k, 0) for k in ks]}
    if extra:
        t.update(extra)
    return obj(i, t)


def circular_tree():
    d = opened({100: ({1: (None, 10, 0), 2: (None, 20, 0), 3: (None, 30, 0)}, root(), True)}, {})
    d._parser.objs[10] = kids(d, 1, [2, 3])
    d._parser.objs[20] = kids(d, 2, [1])
    d._parser.objs[30] = obj(3, {'Type': LIT('Page'), 'MediaBox': [0, 0, 9, 9]})
    d.catalog['Pages'] = PDFObjRef(d, 1, 0)
    return d


def ends_page_tree():
    """A page tree whose nodes are below themselves."""
    return [p.pageid for p in PDFPage.create_pages(circular_tree())]


def code_page_tree():
    """Its pages are still found."""
    return [p.pageid for p in PDFPage.create_pages(circular_tree())]


def ref_page_tree():
    return [3]


def entry(d, i, extra):
    t = {'Title': b'x', 'Dest': i}
    for k, v in extra.items():
        t[k] = PDFObjRef(d, v, 0)
    return obj(i, t)


def outline(links):
    d = opened({100: ({1: (None, 10, 0), 2: (None, 20, 0), 3: (None, 30, 0)}, root(), True)}, {})
    d._parser.objs[10] = entry(d, 1, links[0])
    d._parser.objs[20] = entry(d, 2, links[1])
    d._parser.objs[30] = entry(d, 3, links[2])
    d.catalog['Outlines'] = PDFObjRef(d, 1, 0)
    return [(x[0], x[2]) for x in d.get_outlines()]


def ends_outlines():
    """Outline entries that are followed by an earlier one."""
    return outline([{'Next': 2}, {'Next': 3}, {'Next': 1}])


def ends_outlines_nested():
    """Outline entries that contain an entry above them."""
    return outline([{'First': 2, 'Last': 2}, {'First': 3, 'Last': 3}, {'First': 1, 'Last': 1, 'Next': 2}])


def code_outlines():
    """Entries of circular outlines are listed once."""
    return outline([{'Next': 2}, {'First': 3, 'Last': 3, 'Next': 1}, {'First': 1, 'Last': 1, 'Next': 2}])


def ref_outlines():
    return [(0, 1), (0, 2), (1, 3)]


def names_tree():
    d = opened({100: ({1: (None, 10, 0), 2: (None, 20, 0), 3: (None, 30, 0)}, root(), True)}, {})
    d._parser.objs[10] = obj(1, {'Kids': [PDFObjRef(d, 2, 0), PDFObjRef(d, 1, 0), PDFObjRef(d, 3, 0)]})
    d._parser.objs[20] = obj(2, {'Kids': [PDFObjRef(d, 1, 0)]})
    d._parser.objs[30] = obj(3, {'Names': [b'a', 7]})
    d.catalog['Names'] = {'Dests': PDFObjRef(d, 1, 0)}
    return d


def dest(d, name):
    try:
        return d.get_dest(name)
    except PDFDestinationNotFound:
        return 'nothing'


def ends_names():
    """A name tree whose nodes are below themselves."""
    d = names_tree()
    return (dest(d, b'a'), dest(d, b'b'))


def code_names():
    """Its names are still found."""
    d = names_tree()
    return (dest(d, b'a'), dest(d, b'b'))


def ref_names():
    return (7, 'nothing')


