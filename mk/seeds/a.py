C='interpreter/commands/commands.py'
L='interpreter/commands/state/layout/__init__.py'
T='interpreter/commands/state/layout/utils/textdecoder.py'
FONT='''
class Font:
    def __init__(self, multibyte=False): self.m = multibyte
    def is_vertical(self): return False
    def is_multibyte(self): return self.m
    def decode(self, b): return list(b)
    def to_unichr(self, c): return chr(c)
    def char_width(self, c): return 0.5
    def char_disp(self, c): return 0
    def get_height(self): return 1
    def get_descent(self): return -0.25
    def get_width(self): return 1
def run(b, **kw):
    s = PDFStateStack()
    for k, v in kw.items(): setattr(s, k, v)
    return list(process_command_stream([PDFStream({}, b + b' ')], {}, s)), s
def boxes(items):
    return [(round(c.x0, 6), round(c.y0, 6), round(c.x1, 6), round(c.y1, 6)) for i in items for blk in i for c in blk]
'''
SEEDS={
's01': dict(prop='C05', edits=[(C,'''# close-fill-and-stroke-even-odd
@PDFCommands.add('b_a')
def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
    stack.curvestacks.append(CurvePath(
        CurvePath.METHOD.CLOSE_PATH
    ))
    stack.complete_layout_items.append(make_curve(
        stack.t_matrix,
        stack.graphics.copy(),''','''# close-fill-and-stroke-even-odd
@PDFCommands.add('b_a')
def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
    if stack.curvestacks and stack.curvestacks[-1].method != CurvePath.METHOD.CLOSE_PATH:
        stack.curvestacks[-1:] = [stack.curvestacks[-1], CurvePath(CurvePath.METHOD.CLOSE_PATH)]
    stack.complete_layout_items.append(make_curve(
        stack.t_matrix,
        stack.graphics.copy(),'''),(C,'''            True,
        stack.curvestacks
    ))
    stack.curvestacks = []
    return stack

# close-only (empty path)''','''            True,
        stack.curvestacks
    ))
    stack.curvestacks = []
    return stack

# close-only (empty path)''')] if False else [(C,'''        False,
        stack.curvestacks
    ))
    stack.curvestacks = []
    return stack

# close-fill-and-stroke-even-odd''','''        False,
        stack.curvestacks
    ))
    stack.curvestacks.clear()
    return stack

# close-fill-and-stroke-even-odd''')],
  needs='a path painted with a closing operator (s or b) whose item is looked at after the operator ended',
  breaks='the emitted item shares the list of the current path, so clearing the path empties the item too',
  demo=FONT+'''
items, _ = run(b'0 0 m 10 0 l 5 7 l s 1 1 m 2 2 l S')
assert len(items[0].paths) == 4, items[0].paths
'''),
's02': dict(prop='C03', edits=[(C,'''    stack.text.matrix = (a, b, c, d, tx*a+ty*c+e, tx*b+ty*d+f)
    stack.text.leading = ty
    stack.text.linematrix = [0, 0]''','''    stack.text.matrix = (a, b, c, d, tx*a+ty*c+e, tx*b+ty*d+f)
    if ty < 0:
        stack.text.leading = ty
    stack.text.linematrix = [0, 0]''')],
  needs='TD moving upwards or sideways only, after another leading was in force, followed by T*',
  breaks='TD sets the leading only when it moves down',
  demo=FONT+'''
i, s = run(b'BT 5 TL 3 4 TD T* ET')
assert s.text.matrix == (1, 0, 0, 1, 3, 8), s.text.matrix
'''),
's03': dict(prop='C07', edits=[(T,'''    if textstate.font.is_multibyte():
        textstate.wordspace = 0
    dxscale''','''    if textstate.font.is_multibyte() and textstate.font.is_vertical():
        textstate.wordspace = 0
    dxscale''')],
  needs='a composite font in horizontal writing, word spacing set and a character of code 32',
  breaks='word spacing is applied to two-byte codes',
  demo=FONT+'''
a, _ = run(b'BT /F 10 Tf 3 Tw ( a) Tj ET', fontmap={'F': Font(True)})
assert boxes(a)[1][0] == 5, boxes(a)
'''),
's04': dict(prop='C10', edits=[('interpreter/commands/__init__.py','xobj_state.graphics = state.graphics.copy()','xobj_state.graphics = state.graphics')],
  needs='a form that changes a colour or line style, and something painted after it',
  breaks='the form changes the graphics state of its invoker',
  demo=FONT+'''
from pdfmajor.parser.constants import LITERAL_FORM
form = PDFStream({'Subtype': LITERAL_FORM, 'BBox': [0, 0, 1, 1]}, b'7 w 0 0 m 1 1 l S ')
a, s = run(b'2 w /X Do 0 0 m 1 1 l S', xobjmap={'X': form})
assert a[1].linewidth == 2, a[1].linewidth
'''),
's05': dict(prop='C09', edits=[('interpreter/commands/__init__.py','''                nargs = func.__code__.co_argcount-1
                if nargs:
                    args = state.pop(nargs)''','''                nargs = func.__code__.co_argcount-1
                if nargs:
                    args = state.argstack[-nargs:]
                    state.argstack = []''')],
  needs='operands put down for two operators before the first of them',
  breaks='an operator discards the operands below its own',
  demo=FONT+'''
a, s = run(b'5 1 w w')
assert s.graphics.linewidth == 5, s.graphics.linewidth
'''),
's06': dict(prop='C06', edits=[(L,'''                    x1=max(x0,x1,x2,x3),
                    y0=min(y0,y1,y2,y3),''','''                    x1=max(x2,x3),
                    y0=min(y0,y1,y2,y3),''')],
  needs='a rectangle drawn as a path of lines that starts at its right side going up or down',
  breaks='the box of the rectangle loses its width',
  demo=FONT+'''
a, s = run(b'50 60 m 50 90 l 10 90 l 10 60 l h S')
b = a[0]
assert (b.x0, b.y0, b.x1, b.y1) == (10, 60, 50, 90), (b.x0, b.y0, b.x1, b.y1)
'''),
's07': dict(prop='C01', edits=[('interpreter/commands/state/PDFTextState/__init__.py','''        obj.charspace = self.charspace
        obj.wordspace = self.wordspace
        obj.scaling = self.scaling''','''        obj.charspace = obj.wordspace = self.charspace
        obj.scaling = self.scaling''')],
  needs='word spacing different from character spacing across q and Q, and text with a space after it',
  breaks='copying the text state loses the word spacing',
  demo=FONT+'''
a, s = run(b'3 Tw q 9 Tw Q')
assert s.text.wordspace == 3, s.text.wordspace
'''),
's08': dict(prop='C02', edits=[(C,'''    components = stack.pop(stack.graphics.ncolspace.ncomponents)
    stack.graphics.set_nostroke_color(
        stack.graphics.ncolspace,
        *components
    )''','''    components = stack.pop(stack.graphics.ncolspace.ncomponents)
    stack.graphics.set_nostroke_color(
        stack.graphics.scolspace,
        *components
    )''')],
  needs='sc or scn while the stroking colour space differs from the non-stroking one',
  breaks='the non-stroking colour is recorded in the stroking colour space',
  demo=FONT+'''
a, s = run(b'/DeviceRGB cs /DeviceGray CS 1 0 0 sc')
assert s.graphics.ncolor.color_space is s.colorspace_map['DeviceRGB'], vars(s.graphics.ncolor)
'''),
's09': dict(prop='C08', edits=[(C,'''        stack.complete_layout_items.append(stack.current_textblock)
    stack.current_textblock = None''','''        stack.complete_layout_items.insert(0, stack.current_textblock)
        stack.current_textblock = None''')],
  needs='a text object without any character followed by another text object',
  breaks='an empty text object stays open, so that the next BT is refused',
  demo=FONT+'''
run(b'BT ET BT ET')
'''),
's10': dict(prop='C04', edits=[(C,'''        CurvePath.METHOD.CURVE_FIRST_TO, 
        CurvePoint(stack.t_matrix, x1, y1), 
        CurvePoint(stack.t_matrix, x3, y3)''','''        CurvePath.METHOD.CURVE_FIRST_TO, 
        CurvePoint(stack.t_matrix, x3, y3), 
        CurvePoint(stack.t_matrix, x1, y1)''')],
  needs='a path with a y segment',
  breaks='control point and end point of a y segment are exchanged',
  demo=FONT+'''
a, s = run(b'0 0 m 1 2 3 4 y')
p = s.curvestacks[1].points
assert (p[1].x, p[1].y) == (3, 4)
'''),
}
