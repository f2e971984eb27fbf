exec(open("/verif/mk/seeds/l.py").read().rsplit("SEEDS = {", 1)[0])
FAX = 'parser/PDFStream/ccitt.py'
LZW = 'utils/lzw.py'
HEAD = '''
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode
def by(s):
    s += '0' * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
EOFB = '000000000001' * 2
'''
SEEDS = {
's58': dict(prop='C31', edits=[(FAX, "    BitParser.add(BLACK, 1408, '0000001010100')\n    BitParser.add(BLACK, 1472, '0000001010101')\n", "    BitParser.add(BLACK, 1408, '0000001010101')\n    BitParser.add(BLACK, 1472 , '0000001010100')\n")],
 needs='a fax page with a black run of 1408 to 1535 pixels', breaks='the run ends elsewhere',
 demo=HEAD + '''
assert ccittfaxdecode(by('001' + '00110101' + '0000001010101' + '0000110111' + EOFB), {'K': -1, 'Columns': 1472}) == bytes(184)
'''),
's59': dict(prop='C31', edits=[(FAX, "    def _do_pass(self):\n        x1 = self._curpos+1\n", "    def _do_pass(self):\n        x1 = max(self._curpos, 0)\n")],
 needs='a fax row that passes over a run after a change one or two pixels beside that of the row above', breaks='the pass ends one run early',
 demo=HEAD + '''
assert ccittfaxdecode(b'&\\xa8\\x10J\\xc6\\x00 \\x02', {'K': -1, 'Columns': 5}) == b'P\\x80'
'''),
's61': dict(prop='C31', edits=[(FAX, "                self._accept = self._parse_mode\n                self._state = self.MODE\n            except EOFB:\n", "                self._accept = self._parse_mode\n                if m > 1:\n                    self._state = self.MODE\n            except EOFB:\n")],
 needs='a fax with rows that begin with bytes, one of which ends with the last bit of a byte', breaks='the next row is decoded as something else',
 demo=HEAD + '''
assert ccittfaxdecode(b'.\\x18\\xc05\\x86\\xe0\\x00\\x10\\x01', {'K': -1, 'Columns': 17, 'EncodedByteAlign': True}) == b'\\xc0\\x00\\x00\\xc0\\x00\\x00\\xff\\xff\\x80'
'''),
's62': dict(prop='C31', edits=[(LZW, "            self.prevbuf = b''\n            self.nbits = 9\n", "            self.prevbuf = b''\n            if self.nbits > 11:\n                self.nbits = 9\n")],
 needs='LZW data that are cleared when their codes have ten or eleven bits', breaks='what follows comes out wrong or is missing',
 demo='''
from pdfmajor.utils import lzwdecode
codes = [256] + [i % 251 for i in range(300)] + [256, 65, 258, 257]
bits = ''
n, made = 9, None
for c in codes:
    bits += format(c, '0%db' % n)
    if c == 256:
        n, made = 9, None
    elif made is None:
        made = 258
    else:
        made += 1
        if made + 1 == 512:
            n = 10
bits += '0' * (-len(bits) % 8)
data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
assert lzwdecode(data) == bytes(i % 251 for i in range(300)) + b'AAA'
'''),
's63': dict(prop='C31', edits=[(LZW, "            elif code == len(self.table):\n                self.table.append(self.prevbuf+self.prevbuf[:1])\n", "            elif code == len(self.table):\n                self.table.append((self.prevbuf+self.prevbuf[:1])[:1024])\n")],
 needs='LZW data with a run of more than 1024 equal bytes, each code new', breaks='bytes are missing',
 demo='''
from pdfmajor.utils import lzwdecode
bits = ''
out = 0
def put(c, n):
    global bits
    bits += format(c, '0%db' % n)
put(256, 9)
put(65, 9)
out = 1
n = 9
for i in range(1, 1100):
    k = 257 + i          # code of 65 * (i + 1), being made just now
    put(k, n)
    out += i + 1
    size = k + 1 + 1     # codes known, and one early
    n = 10 if 512 <= size < 1024 else 11 if 1024 <= size < 2048 else 12 if size >= 2048 else 9
put(257, n)
bits += '0' * (-len(bits) % 8)
data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
assert lzwdecode(data) == b'A' * out
'''),
}
