TOK='''
from io import BytesIO
from pdfmajor.parser.PSStackParser import KWD, LIT, PSStackParser
from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
from pdfmajor.execptions import PSEOF
def tokens(data, n=4096):
    p = PSBaseParser(BytesIO(data))
    p.BUFSIZ = n
    out = []
    try:
        while True: out.append(p.nexttoken())
    except PSEOF: pass
    return out
'''
SEEDS = {
's29': dict(prop='C21', edits=[('parser/PSStackParser/PSBaseParser.py', """        if c == b'#':
            self.hex = b''
            self._current_parse_func = self._parse_literal_hex
            return j+1
""", """        if c == b'#':
            pair = HEX_PAIR.match(s, j+1)
            if pair and len(pair.group(0)) == 2:
                self._curtoken += int2byte(int(pair.group(0), 16))
                return j+3
            self.hex = b''
            self._current_parse_func = self._parse_literal_hex
            return j+1
""".replace("self.hex = b''\n            self._current_parse_func = self._parse_literal_hex\n            return j+1", "return j+1"))],
 needs='an escape #xx in a name across the end of a portion', breaks='the name comes out with the digits instead of the byte',
 demo=TOK+'''
data = b'/a#41b /c#4 /d '
want = tokens(b'/aAb')[0]
assert tokens(data)[0] == want
for n in range(1, 9):
    assert tokens(data, n)[0] == want, (n, tokens(data, n))
'''),
's30': dict(prop='C21', edits=[('parser/PSStackParser/PSBaseParser.py', """        self._current_parse_func = self._parse_main
        # We ignore comments.
        #self._tokens.append(self._curtoken)
        return j
""", """        self._current_parse_func = self._parse_main
        # We ignore comments.
        #self._tokens.append(self._curtoken)
        # the line end may be a pair
        return j+2 if s[j:j+1] == b'\\r' else j+1
""")],
 needs='a comment that ends with a carriage return alone', breaks='the character after the comment is skipped',
 demo=TOK+'''
assert tokens(b'%x\\r\\n12 ') == [(4, 12)]
assert tokens(b'%x\\n12 ') == [(3, 12)]
assert tokens(b'%x\\r12 ') == [(3, 12)], tokens(b'%x\\r12 ')
'''),
's31': dict(prop='C21', edits=[('parser/PSStackParser/PSBaseParser.py', """                if n == -1:
                    buf = s + buf
                    break
""", """                if n == -1:
                    buf = s + buf if pos + len(s) < prevpos else s
                    break
""")],
 needs='reading backwards, a line longer than a whole portion', breaks='the end of the line is lost',
 demo=TOK+'''
def back(data, n):
    p = PSBaseParser(BytesIO(data))
    p.BUFSIZ = n
    return [x.strip() for x in p.revreadlines() if x.strip()]
data = b'%PDF\\nstartxref\\n' + b'1234567890' * 3 + b'\\n%%EOF\\n'
want = [b'%%EOF', b'1234567890' * 3, b'startxref']
for n in (4096, 40, 33, 10, 7):
    assert back(data, n) == want, (n, back(data, n))
'''),
}
