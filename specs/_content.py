from pdfmajor.interpreter.commands import process_command_stream, prep_state
from pdfmajor.interpreter.commands.state import PDFStateStack, PDFGraphicState, PDFTextState
from pdfmajor.interpreter.commands.state import LTTextBlock, LTCharBlock, LTChar
from pdfmajor.interpreter.commands.state import LTCurve, LTLine, LTHorizontalLine, LTVerticalLine, LTRect
from pdfmajor.interpreter.commands.state import LTXObject, LTImage
from pdfmajor.interpreter.commands.state.PDFGraphicState import PDFColor, PDFColorSpace
from pdfmajor.parser.PSStackParser.types import PSKeyword, PSLiteral
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.utils import MATRIX_IDENTITY, Bbox
from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE


def K(name):
    return PSKeyword(name)


def N(name):
    return PSLiteral(name)


def interp(state, toks):
    """What the command-stream interpreter yields for these tokens."""
    out = []
    for item in process_command_stream(toks, {}, state):
        out.append(item)
    return out


def begin(state):
    """Between operators nothing is waiting to be emitted."""
    state.complete_layout_items = []
    state.argstack = []


def fresh():
    s = PDFStateStack()
    s.text.ignore_bad_chars = False
    return s
