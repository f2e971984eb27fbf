"""Files whose content is known up to the words it is made of."""
from pdfmajor.parser.PSStackParser import KWD, LIT, PSStackParser
from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
from pdfmajor.execptions import PSEOF


class Text:
    """A file that is read in the given portions (by whoever asks for a portion at a time)."""

    def __init__(self, *parts):
        self.parts = parts
        self.pos = 0
        whole = b''
        for p in parts:
            whole = whole + p
        self.whole = whole

    def seek(self, pos, whence=0):
        self.pos = len(self.whole) + pos if whence == 2 else pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        start = self.pos
        if n == PSBaseParser.BUFSIZ:
            end = 0
            for p in self.parts:
                end = end + len(p)
                if start < end:
                    break
        elif n == -1 or start + n >= len(self.whole):
            end = len(self.whole)
        else:
            end = start + n
        if end <= start:
            return b''
        self.pos = end
        return self.whole[start:end]


def tokens(*parts):
    """All tokens with their positions."""
    p = PSBaseParser(Text(*parts))
    out = []
    try:
        while True:
            out.append(p.nexttoken())
    except PSEOF:
        pass
    return out
