"""Outlines and named destinations."""
from pdfmajor.execptions import PDFDestinationNotFound, PDFNoOutlines
from pdfmajor.utils import decode_text


def file():
    return opened({100: ({1: (None, 10, 0), 2: (None, 20, 0), 3: (None, 30, 0), 4: (None, 40, 0), 5: (None, 50, 0),
                          6: (None, 60, 0)}, root(), True)}, {})


def ref(d, i):
    return PDFObjRef(d, i, 0)


def put(d, i, extra, links=()):
    t = {}
    t.update(extra)
    for k, v in links:
        t[k] = ref(d, v)
    d._parser.objs[10 * i] = obj(i, t)


def listed(d):
    return [x for x in d.get_outlines()]


def tree(t, a, b):
    """root -> (1 -> (3, 4), 2 -> 5)"""
    d = file()
    put(d, 6, {}, [('First', 1), ('Last', 2)])
    put(d, 1, {'Title': t, 'Dest': a}, [('First', 3), ('Last', 4), ('Next', 2)])
    put(d, 2, {'Title': t, 'A': b, 'SE': a}, [('First', 5), ('Last', 5)])
    put(d, 3, {'Title': t, 'Dest': b, 'A': a}, [('Next', 4)])
    put(d, 4, {'Title': t, 'Dest': a})
    put(d, 5, {'Title': t, 'A': a})
    d.catalog['Outlines'] = ref(d, 6)
    return d


def code_order(t: bytes, a: num, b: num):
    """Entries are listed as read from top to bottom, each with its depth, decoded title, destination, action and structure."""
    return listed(tree(t, a, b))


def ref_order(t: bytes, a: num, b: num):
    x = decode_text(t)
    return [(1, x, a, None, None), (2, x, b, a, None), (2, x, a, None, None), (1, x, None, b, a), (2, x, None, a, None)]


def code_again(t: bytes, a: num, b: num):
    """Listing them again gives the same."""
    d = tree(t, a, b)
    return [len(listed(d)), len(listed(d)), len(listed(d))]


def ref_again(t: bytes, a: num, b: num):
    return [5, 5, 5]


def code_silent(t: bytes, a: num):
    """Entries without a title or without any target are left out, but not what is below or behind them."""
    d = file()
    put(d, 6, {}, [('First', 1), ('Last', 2)])
    put(d, 1, {'Title': t}, [('First', 3), ('Last', 3), ('Next', 2)])
    put(d, 2, {'Dest': a}, [('First', 4), ('Last', 4), ('Next', 5)])
    put(d, 3, {'Title': t, 'Dest': a})
    put(d, 4, {'Title': t, 'A': a})
    put(d, 5, {'Title': t, 'Dest': a})
    d.catalog['Outlines'] = ref(d, 6)
    return [(x[0], x[2], x[3]) for x in listed(d)]


def ref_silent(t: bytes, a: num):
    return [(2, a, None), (2, None, a), (1, a, None)]


def raises_no_outlines_PDFNoOutlines():
    """A document without outlines says so."""
    file().get_outlines()


def dest(d, name):
    try:
        return d.get_dest(name)
    except PDFDestinationNotFound:
        return 'nothing'


def code_names(a: num, b: num, c: num):
    """A destination is found in the name tree, wherever in the tree it is."""
    d = file()
    put(d, 1, {}, [])
    d._parser.objs[10] = obj(1, {'Kids': [ref(d, 2), ref(d, 3)]})
    d._parser.objs[20] = obj(2, {'Kids': [ref(d, 4)], 'Limits': [b'a', b'c']})
    d._parser.objs[30] = obj(3, {'Names': [b'x', b, b'z', c], 'Limits': [b'x', b'z']})
    d._parser.objs[40] = obj(4, {'Names': [b'a', a, b'c', 0], 'Limits': [b'a', b'c']})
    d.catalog['Names'] = {'Dests': ref(d, 1)}
    return (dest(d, b'a'), dest(d, b'c'), dest(d, b'x'), dest(d, b'z'), dest(d, b'b'), dest(d, b'y'), dest(d, b'zz'))


def ref_names(a: num, b: num, c: num):
    return (a, 0, b, c, 'nothing', 'nothing', 'nothing')


def code_names_unlimited(a: num, b: num):
    """Nodes without limits are searched as well."""
    d = file()
    d._parser.objs[10] = obj(1, {'Kids': [ref(d, 2), ref(d, 3)]})
    d._parser.objs[20] = obj(2, {'Names': [b'a', a]})
    d._parser.objs[30] = obj(3, {'Names': [b'x', b]})
    d.catalog['Names'] = {'Dests': ref(d, 1)}
    return (dest(d, b'x'), dest(d, b'a'), dest(d, b'y'))


def ref_names_unlimited(a: num, b: num):
    return (b, a, 'nothing')


def code_names_root(a: num):
    """A tree that is one node, given directly."""
    d = file()
    d.catalog['Names'] = {'Dests': {'Names': [b'a', [a], b'b', []]}}
    e = file()
    e.catalog['Names'] = {'Dests': {'Names': [b'd', a], 'Limits': [b'd', b'd']}}
    return (dest(d, b'a'), dest(d, b'b'), dest(d, b'c'), dest(e, b'd'), dest(e, b'a'), dest(e, b'e'))


def ref_names_root(a: num):
    return ([a], [], 'nothing', a, 'nothing', 'nothing')


def code_old_style(a: num, b: num):
    """Without a name tree, or when it lacks the name, the plain dictionary of destinations is asked."""
    d = file()
    d.catalog['Dests'] = {'x': a}
    e = file()
    e.catalog['Names'] = {'Dests': {'Names': [b'y', b]}}
    e.catalog['Dests'] = {'x': a}
    f = file()
    f.catalog['Names'] = {'Other': {'Names': [b'y', b]}}
    return (dest(d, 'x'), dest(d, 'y'), dest(e, b'y'), dest(f, b'y'), dest(file(), 'x'))


def ref_old_style(a: num, b: num):
    return (a, 'nothing', b, 'nothing', 'nothing')


def code_other_tree(a: num):
    """Each name tree is a name space of its own."""
    d = file()
    d.catalog['Names'] = {'Dests': {'Names': [b'y', 1]}, 'JavaScript': {'Names': [b'y', a]}}
    return d.lookup_name('JavaScript', b'y')


def ref_other_tree(a: num):
    return a


def raises_unknown_tree_KeyError():
    """Looking up a name in a tree the document lacks, or in a document without trees, is a KeyError."""
    file().lookup_name('Dests', b'x')
