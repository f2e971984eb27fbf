"""Forms that draw themselves."""


def selfform(number):
    f = form([N(b'F'), K(b'Do')] + line())
    f.attrs['Resources'] = {'XObject': {'F': f}}
    f.objid = number
    return f


def pair():
    f = form([N(b'G'), K(b'Do')] + line())
    g = form([N(b'F'), K(b'Do')] + line())
    r = {'XObject': {'F': f, 'G': g}}
    f.attrs['Resources'] = r
    g.attrs['Resources'] = r
    return f


def shape(items):
    return [(isinstance(i, LTXObject), len([x for x in i]) if isinstance(i, LTXObject) else 0) for i in items]


def draw(f):
    s = fresh()
    s.xobjmap = {'F': f}
    return interp(s, [N(b'F'), K(b'Do')])


def ends_self():
    """A form whose content draws the form itself."""
    return draw(selfform(None))


def ends_pair():
    """Two forms that draw each other."""
    return draw(pair())


def code_content(a: num):
    """What such a form draws otherwise is still there."""
    return (shape(draw(selfform(a))), shape(draw(pair())))


def ref_content(a: num):
    return ([(True, 2)], [(True, 2)])


def code_twice(a: num):
    """A form that is drawn several times, side by side, is complete each time."""
    f = form(line())
    s = fresh()
    s.xobjmap = {'F': f}
    g = form([N(b'F'), K(b'Do'), N(b'F'), K(b'Do')])
    g.attrs['Resources'] = {'XObject': {'F': f}}
    t = fresh()
    t.xobjmap = {'G': g}
    return (shape(interp(s, [N(b'F'), K(b'Do'), N(b'F'), K(b'Do')])), [shape(x) for x in interp(t, [N(b'G'), K(b'Do')])])


def ref_twice(a: num):
    return ([(True, 1), (True, 1)], [[(True, 1), (True, 1)]])
