exec(open('/verif/mk/seeds/c.py').read().split("SEEDS")[0])
ENC='''
import hashlib, struct
from Crypto.Cipher import ARC4, AES
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import *
from pdfmajor.parser.PSStackParser import LIT
PAD = PDFStandardSecurityHandler.PASSWORD_PADDING
def file_key(pw, o, p, r, n, meta=True):
    k = hashlib.md5((pw + PAD)[:32] + o + struct.pack('<L', p & 0xffffffff) + b'id' + (b'' if meta else b'\\xff' * 4)).digest()
    if r >= 3:
        for _ in range(50): k = hashlib.md5(k[:n]).digest()
    return k[:n]
def rounds(key, data, order):
    for i in order:
        data = ARC4.new(bytes(c ^ i for c in key)).encrypt(data)
    return data
def user_entry(k, r):
    if r == 2: return ARC4.new(k).encrypt(PAD)
    return rounds(k, hashlib.md5(PAD + b'id').digest(), range(20)) + bytes(16)
def owner_entry(owner, user, r, n):
    k = hashlib.md5((owner + PAD)[:32]).digest()
    if r >= 3:
        for _ in range(50): k = hashlib.md5(k).digest()
    return rounds(k[:n], (user + PAD)[:32], range(20 if r >= 3 else 1))
def entries(user=b'user', owner=b'owner', v=2, r=3, n=16, p=-4, meta=True, **kw):
    o = owner_entry(owner, user, r, n)
    k = file_key(user, o, p, r, n, meta)
    return k, dict(V=v, R=r, P=p, O=o, U=user_entry(k, r), Length=n * 8, **kw)
'''
SEEDS = {
's26': dict(prop='C20', edits=[('parser/PDFDocument/PDFSecurityHandler.py', """            for i in range(19, -1, -1):
""", """            for i in range(19, 0, -1):
""")], needs='a document of revision 3 or 4 opened with the owner password', breaks='the owner password is refused',
 demo=ENC+'''
k, d = entries()
assert PDFStandardSecurityHandler([b'id'], d, 'user').key == k
assert PDFStandardSecurityHandler([b'id'], d, 'owner').key == k
'''),
's27': dict(prop='C20', edits=[('parser/PDFDocument/PDFSecurityHandler.py', """        key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
        hash = md5.md5(key)
        key = hash.digest()[:min(len(key), 16)]
""", """        salt = struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
        hash = md5.md5(self.key + salt)
        key = hash.digest()
""".replace("objid)[:3]", "objid)[:2]"))], needs='AES-128 and an object number above 65535', breaks='objects with large numbers are deciphered with a wrong key',
 demo=ENC+'''
cf = dict(CF={'StdCF': {'CFM': LIT('AESV2')}}, StmF=LIT('StdCF'), StrF=LIT('StdCF'))
k, d = entries(v=4, r=4, **cf)
h = PDFStandardSecurityHandlerV4([b'id'], d, 'user')
for n in (5, 70000):
    key = hashlib.md5(k + struct.pack('<L', n)[:3] + b'\\0\\0sAlT').digest()
    data = AES.new(key, AES.MODE_CBC, b'i' * 16).encrypt(b'hello world' + bytes([5] * 5))
    assert h.decrypt(n, 0, b'i' * 16 + data) == b'hello world', n
'''),
's28': dict(prop='C20', edits=[('parser/PDFDocument/__init__.py', '''                        obj = self._getobj_objstm(stream, index, objid)
''', '''                        obj = decipher_all(self.decipher or (lambda n, g, x: x), objid, genno, self._getobj_objstm(stream, index, objid))
''')], needs='an encrypted document with strings inside an object stream', breaks='these strings are deciphered although only the stream around them is encrypted',
 demo=PDF+'''
class X:
    def get_pos(self, i): return {8: (5, 0, 0)}[i]
    def get_trailer(self): return {}
d = document(pdf([(1, b'<< /Type /Catalog >>'), (5, b'<< /Type /ObjStm /N 1 /First 4 /Length 20 >>\\nstream\\n8 0 [(abc) (de)]    \\nendstream')]))
d.xrefs.insert(0, X())
d.decipher = lambda n, g, data, attrs=None: data if attrs is not None else b'#' + data
d._cached_objs = {}
assert d.getobj(8) == [b'abc', b'de'], d.getobj(8)
'''),
}
