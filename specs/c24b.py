"""Decoders whose result follows from the data byte by byte."""
import struct
from pdfmajor.parser.PDFStream import rldecode
from pdfmajor.utils import ascii85decode, asciihexdecode, apply_png_predictor
from pdfmajor.utils import int2byte


def code_hex(a: hexdigit, b: hexdigit, c: hexdigit, d: hexdigit):
    """Every two digits are a byte; a last single one counts as if 0 followed."""
    return [asciihexdecode(a + b + c + d + b'>'), asciihexdecode(a + b + c + d), asciihexdecode(a + b + c + b'>'), asciihexdecode(a + b'>'),
            asciihexdecode(b'>'), asciihexdecode(b''), asciihexdecode(a + b + c)]


def ref_hex(a: hexdigit, b: hexdigit, c: hexdigit, d: hexdigit):
    x = byte(a + b)
    return [x + byte(c + d), x + byte(c + d), x + byte(c + b'0'), byte(a + b'0'), b'', b'', x + byte(c + b'0')]


def byte(digits):
    return int2byte(int(digits, 16))


def code_hex_white(a: hexdigit, b: hexdigit, c: hexdigit, d: hexdigit):
    """White space may be anywhere, and nothing follows the end marker."""
    return [asciihexdecode(a + b' ' + b + b'\n\n' + c + b'\r\n' + d + b' >\n'), asciihexdecode(b' ' + a + b'\t' + b + b'\0' + c + b'>'),
            asciihexdecode(a + b + b'>' + c + d), asciihexdecode(a + b' >' + c + d + b'>')]


def ref_hex_white(a: hexdigit, b: hexdigit, c: hexdigit, d: hexdigit):
    x = byte(a + b)
    return [x + byte(c + d), x + byte(c + b'0'), x, byte(a + b'0')]


def code_base85(a: base85, b: base85, c: base85, d: base85, e: base85):
    """Every five characters are four bytes, the first character counting most; z stands for four zeros; white space does not count."""
    return [ascii85decode(a + b + c + d + e + b'~>'), ascii85decode(a + b' ' + c + d + b'\n' + e + b + b'~>\n'), ascii85decode(b'z~>'),
            ascii85decode(b'z' + a + b + c + d + e + b'zz~>'), ascii85decode(a + b + c + d + e + e + d + c + b + a + b'~>'), ascii85decode(b'~>'),
            ascii85decode(a + b + c + d + e + b'~>' + a + b + c + d + e)]


def ref_base85(a: base85, b: base85, c: base85, d: base85, e: base85):
    x = four(a, b, c, d, e)
    o = b'\0\0\0\0'
    return [x, four(a, c, d, e, b), o, o + x + o + o, x + four(e, d, c, b, a), b'', x]


def four(*cs):
    n = 0
    for c in cs:
        n = n * 85 + (c[0] - 33)
    return struct.pack('>L', n)


def code_base85_end(a: base85, b: base85, c: base85, d: base85, e: base85):
    """A last group of fewer characters stands for one byte less than it has characters."""
    return [ascii85decode(a + b + b'~>'), ascii85decode(a + b + c + b'~>'), ascii85decode(a + b + c + d + b'~>'),
            ascii85decode(a + b + c + d + e + a + b + b'~>')]


def ref_base85_end(a: base85, b: base85, c: base85, d: base85, e: base85):
    u = b'u'
    return [four(a, b, u, u, u)[:1], four(a, b, c, u, u)[:2], four(a, b, c, d, u)[:3], four(a, b, c, d, e) + four(a, b, u, u, u)[:1]]


def code_runs(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    """A length up to 127 is followed by as many bytes and one; one above 128 by the byte to repeat; 128 ends the data."""
    return [rldecode(b'\x00' + a + b'\x80'), rldecode(b'\x02' + a + b + c + b'\x00' + d + b'\x80'), rldecode(b'\xff' + a + b'\x80'),
            rldecode(b'\xfd' + a + b'\x01' + b + c + b'\xfe' + d), rldecode(b'\x80' + a + b), rldecode(b'\x00' + a + b'\x80\x00' + b), rldecode(b''),
            rldecode(b'\x81' + a)]


def ref_runs(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    return [a, a + b + c + d, a + a, a + a + a + a + b + c + d + d + d, b'', a, b'', a * 128]


def code_runs_short(a: anybyte, b: anybyte):
    """Data that end early give what there is."""
    return [rldecode(b'\x05' + a + b), rldecode(b'\x00' + a + b'\xff'), rldecode(b'\x00' + a + b'\x07')]


def ref_runs_short(a: anybyte, b: anybyte):
    return [a + b, a, a]


# ---- predictors

def png(colors, columns, *rows):
    data = b''
    for r in rows:
        data = data + r
    return apply_png_predictor(15, colors, columns, 8, data)


def add(*xs):
    """The byte that bytes and numbers add up to."""
    n = 0
    for x in xs:
        n = n + (x if isinstance(x, int) else x[0])
    return int2byte(n & 255)


def code_png(a: anybyte, b: anybyte, c: anybyte, d: anybyte, e: anybyte, f: anybyte):
    """Rows start with the number of their method: none, difference to the left, above."""
    return [png(1, 3, b'\0' + a + b + c, b'\0' + d + e + f), png(1, 3, b'\1' + a + b + c, b'\1' + d + e + f),
            png(3, 2, b'\1' + a + b + c + d + e + f), png(1, 3, b'\2' + a + b + c, b'\2' + d + e + f), png(3, 1, b'\2' + a + b + c, b'\2' + d + e + f),
            png(1, 3, b'\0' + a + b + c, b'\2' + d + e + f), png(2, 1, b'\0' + a + b, b'\1' + c + d, b'\2' + e + f),
            png(1, 2, b'\2' + a + b, b'\0' + c + d, b'\2' + e + f), png(1, 4), png(1, 3, b'\0' + a + b + c, b'\2' + d),
            png(1, 1, b'\2' + a, b'\2' + b, b'\2' + c), png(1, 1, b'\1' + a, b'\1' + b, b'\2' + c, b'\1' + d, b'\2' + e)]


def ref_png(a: anybyte, b: anybyte, c: anybyte, d: anybyte, e: anybyte, f: anybyte):
    ab = add(a, b)
    de = add(d, e)
    return [a + b + c + d + e + f, a + ab + add(ab, c) + d + de + add(de, f), a + b + c + add(a, d) + add(b, e) + add(c, f),
            a + b + c + add(a, d) + add(b, e) + add(c, f), a + b + c + add(a, d) + add(b, e) + add(c, f),
            a + b + c + add(a, d) + add(b, e) + add(c, f), a + b + c + d + add(c, e) + add(d, f),
            a + b + c + d + add(c, e) + add(d, f), b'', a + b + c + add(a, d),
            a + ab + add(ab, c), a + b + add(b, c) + d + de]


def half(x, y=0):
    """Of two bytes the mean, rounded down."""
    return ((x if isinstance(x, int) else x[0]) + (y if isinstance(y, int) else y[0])) // 2


def code_png_average(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    """Difference to the mean of left and above."""
    return [png(1, 2, b'\3' + a + b), png(1, 2, b'\0' + a + b, b'\3' + c + d), png(2, 1, b'\0' + a + b, b'\3' + c + d)]


def ref_png_average(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    ca = add(c, half(a))
    return [a + add(b, half(a)), a + b + ca + add(d, half(b, ca)), a + b + ca + add(d, half(b))]


def paeth(left, above, corner):
    p = left + above - corner
    (l, a, c) = (abs(p - left), abs(p - above), abs(p - corner))
    if l <= a and l <= c:
        return left
    if a <= c:
        return above
    return corner


def code_png_paeth(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    """Difference to the nearest of left, above and the corner."""
    return [png(1, 2, b'\4' + a + b), png(1, 1, b'\0' + a, b'\4' + b), png(1, 2, b'\0' + a + b, b'\4' + c + d)]


def ref_png_paeth(a: anybyte, b: anybyte, c: anybyte, d: anybyte):
    x = add(c, paeth(0, a[0], 0))
    return [a + add(b, a), a + add(b, paeth(0, a[0], 0)), a + b + x + add(d, paeth(x[0], b[0], a[0]))]


def raises_png_method_ValueError(a: anybyte):
    """A method that is not known is an error."""
    png(1, 1, b'\5' + a)


def raises_png_depth_ValueError(a: anybyte):
    """Samples of other sizes are said not to be supported."""
    apply_png_predictor(15, 1, 1, 1, b'\0' + a)
