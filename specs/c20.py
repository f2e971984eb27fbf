

def code_key2(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """Revision 2."""
    return PDFStandardSecurityHandler([docid], {'V': 1, 'R': 2, 'P': p, 'O': o, 'U': u}, pw).key


def key_of(docid, p, o, r, n, pw, meta=True):
    x = md5_of((pw + PAD)[:32] + o + struct.pack('<L', p & 0xffffffff) + docid + (b'' if meta else b'\xff\xff\xff\xff'))
    if r >= 3:
        for _ in range(50):
            x = md5_of(x[:n])
    return x[:n]


def ref_key2(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    try:
        b = pw.encode('latin1')
    except UnicodeEncodeError:
        raise PDFPasswordIncorrect
    key = key_of(docid, p, o, 2, 5, b)
    if rc4_of(key, PAD) == u:
        return key
    k = md5_of((b + PAD)[:32])[:5]
    key = key_of(docid, p, o, 2, 5, rc4_of(k, o))
    if rc4_of(key, PAD) == u:
        return key
    raise PDFPasswordIncorrect


def answer3(key, docid):
    x = rc4_of(key, md5_of(PAD + docid))
    for i in range(1, 20):
        x = rc4_of(bytes(c ^ i for c in key), x)
    return x


def code_key3(docid: bytes, p: int, o: bytes, u: bytes, n: int, pw: str):
    """Revision 3."""
    return PDFStandardSecurityHandler([docid], {'V': 2, 'R': 3, 'P': p, 'O': o, 'U': u, 'Length': n}, pw).key


def ref_key3(docid: bytes, p: int, o: bytes, u: bytes, n: int, pw: str):
    try:
        b = pw.encode('latin1')
    except UnicodeEncodeError:
        raise PDFPasswordIncorrect
    key = key_of(docid, p, o, 3, n // 8, b)
    if answer3(key, docid)[:16] == u[:16]:
        return key
    k = md5_of((b + PAD)[:32])
    for _ in range(50):
        k = md5_of(k)
    x = o
    for i in range(19, -1, -1):
        x = rc4_of(bytes(c ^ i for c in k[:n // 8]), x)
    key = key_of(docid, p, o, 3, n // 8, x)
    if answer3(key, docid)[:16] == u[:16]:
        return key
    raise PDFPasswordIncorrect


def cf(method, name='StdCF'):
    return {'CF': {'StdCF': {'CFM': LIT(method)}}, 'StmF': LIT(name), 'StrF': LIT(name)}


def v4(docid, p, o, u, pw, extra):
    d = {'V': 4, 'R': 4, 'P': p, 'O': o, 'U': u}
    d.update(extra)
    return PDFStandardSecurityHandlerV4([docid], d, pw)


def key4(docid, p, o, u, pw, meta):
    try:
        b = pw.encode('latin1')
    except UnicodeEncodeError:
        raise PDFPasswordIncorrect
    key = key_of(docid, p, o, 4, 16, b, meta)
    if answer3(key, docid)[:16] == u[:16]:
        return key
    k = md5_of((b + PAD)[:32])
    for _ in range(50):
        k = md5_of(k)
    x = o
    for i in range(19, -1, -1):
        x = rc4_of(bytes(c ^ i for c in k), x)
    key = key_of(docid, p, o, 4, 16, x, meta)
    if answer3(key, docid)[:16] == u[:16]:
        return key
    raise PDFPasswordIncorrect


def code_key4(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """Revision 4; a length given there does not count."""
    return v4(docid, p, o, u, pw, dict(cf('AESV2'), Length=40)).key


def ref_key4(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    return key4(docid, p, o, u, pw, True)


def code_key4_metadata(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """Revision 4 with metadata left in the clear."""
    return v4(docid, p, o, u, pw, dict(cf('V2'), EncryptMetadata=False)).key


def ref_key4_metadata(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    return key4(docid, p, o, u, pw, False)


def v5(o, u, oe, ue, pw):
    return PDFStandardSecurityHandlerV5([b''], dict(cf('AESV3'), V=5, R=5, P=-4, O=o, U=u, OE=oe, UE=ue), pw)


ZERO = b'\x00' * 16


def code_key5(o: bytes, u: bytes, oe: bytes, ue: bytes, pw: str):
    """Revision 5: the owner's password first, then the user's."""
    return v5(o, u, oe, ue, pw).key


def ref_key5(o: bytes, u: bytes, oe: bytes, ue: bytes, pw: str):
    b = pw.encode('utf-8')[:127]
    if sha_of(b + o[32:40] + u[:48]) == o[:32]:
        return aes_of(sha_of(b + o[40:48] + u[:48]), ZERO, oe)
    if sha_of(b + u[32:40]) == u[:32]:
        return aes_of(sha_of(b + u[40:48]), ZERO, ue)
    raise PDFPasswordIncorrect


class Open(PDFStandardSecurityHandler):
    """With a key that is known already."""

    def init_key(self):
        self.key = self.param['key']


class Open4(PDFStandardSecurityHandlerV4):
    def init_key(self):
        self.key = self.param['key']


class Open5(PDFStandardSecurityHandlerV5):
    def init_key(self):
        self.key = self.param['key']


def opened_handler(cls, v, r, key, extra):
    d = {'V': v, 'R': r, 'P': -4, 'O': b'', 'U': b'', 'OE': b'', 'UE': b'', 'key': key}
    d.update(extra)
    return cls([b''], d, '')


def object_key(key, n, g, salt=b''):
    return key + struct.pack('<L', n)[:3] + struct.pack('<L', g)[:2] + salt


def code_data_rc4(key: bytes, n: int, g: int, data: bytes):
    """Every object has a key of its own."""
    return opened_handler(Open, 1, 2, key, {}).decrypt(n, g, data)


def ref_data_rc4(key: bytes, n: int, g: int, data: bytes):
    k = object_key(key, n, g)
    return rc4_of(md5_of(k)[:min(len(k), 16)], data)


def code_data_v2(key: bytes, n: int, g: int, data: bytes):
    """Crypt filter V2."""
    h = opened_handler(Open4, 4, 4, key, cf('V2'))
    return (h.decrypt(n, g, data), h.decrypt(n, g, data, {'Type': LIT('Metadata')}))


def ref_data_v2(key: bytes, n: int, g: int, data: bytes):
    k = object_key(key, n, g)
    x = rc4_of(md5_of(k)[:min(len(k), 16)], data)
    return (x, x)


def unpadded(x):
    if x and 1 <= x[-1] <= 16:
        return x[:-x[-1]]
    return x


def code_data_aes2(key: bytes, n: int, g: int, data: bytes):
    """Crypt filter AESV2."""
    return opened_handler(Open4, 4, 4, key, cf('AESV2')).decrypt(n, g, data)


def ref_data_aes2(key: bytes, n: int, g: int, data: bytes):
    if not data:
        return b''
    k = object_key(key, n, g, b'sAlT')
    return unpadded(aes_of(md5_of(k)[:min(len(k), 16)], data[:16], data[16:]))


def code_data_aes3(key: bytes, n: int, g: int, data: bytes):
    """Crypt filter AESV3."""
    return opened_handler(Open5, 5, 5, key, cf('AESV3')).decrypt(n, g, data)


def ref_data_aes3(key: bytes, n: int, g: int, data: bytes):
    if not data:
        return b''
    return unpadded(aes_of(key, data[:16], data[16:]))


def code_data_identity(key: bytes, n: int, g: int, data: bytes):
    """What no filter covers stays as it is."""
    a = opened_handler(Open4, 4, 4, key, cf('AESV2', 'Identity'))
    b = opened_handler(Open4, 4, 4, key, {})
    c = opened_handler(Open5, 5, 5, key, cf('AESV3', 'Identity'))
    return (a.decrypt(n, g, data), b.decrypt(n, g, data), c.decrypt(n, g, data))


def ref_data_identity(key: bytes, n: int, g: int, data: bytes):
    return (data, data, data)


def code_data_metadata(key: bytes, n: int, g: int, data: bytes):
    """Metadata streams that are not encrypted are left alone; other streams and strings are not."""
    h = opened_handler(Open4, 4, 4, key, dict(cf('V2'), EncryptMetadata=False))
    return (h.decrypt(n, g, data, {'Type': LIT('Metadata')}), h.decrypt(n, g, data, {'Type': LIT('XObject')}),
            h.decrypt(n, g, data, {}), h.decrypt(n, g, data))


def ref_data_metadata(key: bytes, n: int, g: int, data: bytes):
    k = object_key(key, n, g)
    x = rc4_of(md5_of(k)[:min(len(k), 16)], data)
    return (data, x, x, x)


def code_rights(p: int):
    """Which of the rights are granted."""
    h = opened_handler(Open, 1, 2, b'', {'P': p})
    return (h.is_printable(), h.is_modifiable(), h.is_extractable())


def ref_rights(p: int):
    return (p & 4 != 0, p & 8 != 0, p & 16 != 0)


def raises_two_filters_PDFEncryptionError(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """Different filters for strings and streams are refused, not mixed up."""
    v4(docid, p, o, u, pw, {'CF': {'A': {'CFM': LIT('V2')}, 'B': {'CFM': LIT('AESV2')}}, 'StmF': LIT('A'), 'StrF': LIT('B')})


def raises_no_such_filter_PDFEncryptionError(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """A filter that is not defined is refused."""
    v4(docid, p, o, u, pw, cf('V2', 'Other'))


def raises_no_such_method_PDFEncryptionError(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """A method that is not known is refused."""
    v4(docid, p, o, u, pw, cf('AESV4'))


def raises_revision_PDFEncryptionError(docid: bytes, p: int, o: bytes, u: bytes, pw: str):
    """A revision that is not known is refused."""
    PDFStandardSecurityHandler([docid], {'V': 1, 'R': 4, 'P': p, 'O': o, 'U': u}, pw)


def raises_revision5_PDFEncryptionError(o: bytes, u: bytes, oe: bytes, ue: bytes, pw: str):
    """A revision that is not known is refused."""
    PDFStandardSecurityHandlerV5([b''], dict(cf('AESV3'), V=5, R=6, P=-4, O=o, U=u, OE=oe, UE=ue), pw)


def dec(objid, genno, data, attrs=None):
    if attrs is None:
        return string_of(objid, genno, data)
    return stream_of(objid, genno, data)


def secret(tables, objs):
    d = opened(tables, objs)
    d.decipher = dec
    return d


def code_strings(a: bytes, b: bytes, c: bytes, e: num, h: bytes):
    """Every string of an object is deciphered once, with the object's own number, at whatever depth."""
    d = secret({100: ({5: (None, 10, 0), 6: (None, 20, 2), 7: (None, 30, 0)}, root(), True)},
               {10: obj(5, a), 20: obj(6, [b, e, LIT('N'), {'K': c, 'L': [{'M': h}], 'R': PDFObjRef(None, 5, 0)}]), 30: obj(7, e)})
    x = d.getobj(6)
    return (d.getobj(5), x[0], x[1], x[2], x[3]['K'], x[3]['L'][0]['M'], x[3]['R'].objid, d.getobj(7), d.getobj(5))


def ref_strings(a: bytes, b: bytes, c: bytes, e: num, h: bytes):
    return (string_of(5, 0, a), string_of(6, 2, b), e, LIT('N'), string_of(6, 2, c), string_of(6, 2, h), 5, e, string_of(5, 0, a))


def code_strings_uncached(a: bytes):
    """The same without keeping objects."""
    d = opened({100: ({5: (None, 10, 0)}, root(), True)}, {10: obj(5, [a])}, caching=False)
    d.decipher = dec
    return (d.getobj(5)[0], PDFDocument.getobj(d, 5)[0])


def code_stream(a: bytes, s: bytes):
    """A stream is deciphered once, with its own number, and so are the strings of its dictionary."""
    d = secret({100: ({5: (None, 10, 3)}, root(), True)}, {10: obj(5, PDFStream({'S': s, 'Q': [s]}, a, dec))})
    x = d.getobj(5)
    return (x.get_data(), x.get_data(), x['S'], x['Q'][0], d.getobj(5).get_data())


def ref_stream(a: bytes, s: bytes):
    x = stream_of(5, 3, a)
    return (x, x, string_of(5, 3, s), string_of(5, 3, s), x)


def code_packed(a: bytes, s: bytes):
    """Objects inside an object stream are not deciphered again."""
    d = secret({100: ({5: (None, 10, 0), 8: (5, 0, 0), 9: (5, 1, 0)}, root(), False)},
               {10: obj(5, Pack({'N': 2, 'Type': LIT('ObjStm')}, [8, 0, 9, 1, a, [s]]))})
    return (d.getobj(8), d.getobj(9)[0], d.getobj(8))


def ref_packed(a: bytes, s: bytes):
    return (a, s, a)


def ref_strings_uncached(a: bytes):
    return (string_of(5, 0, a), string_of(5, 0, a))


class Pack(PDFStream):
    """An object stream, the content of which is a list of objects."""

    def __init__(self, attrs, objs):
        PDFStream.__init__(self, attrs, b'')
        self.objs = objs

    def get_data(self):
        return self.objs


def string_of(objid, genno, data):
    return data


def stream_of(objid, genno, data):
    return data


def locked(p, o, u, pw, extra=None, filt='Standard', v=1, r=2):
    e = {'Filter': LIT(filt), 'V': v, 'R': r, 'P': p, 'O': o, 'U': u}
    if extra:
        e.update(extra)
    f = File({100: ({}, {'Root': {'Type': LIT('Catalog')}, 'Encrypt': e, 'ID': [b'id', b'x']}, True)}, {}, tail(), None)
    return PDFDocument(f, pw, fallback=False)


def code_document(p: int, o: bytes, u: bytes, pw: str, n: int, g: int, data: bytes):
    """A document opened with a password deciphers with the key that the password gives, and grants the rights it states."""
    d = locked(p, o, u, pw)
    return (d.is_printable, d.is_modifiable, d.is_extractable, d.decipher(n, g, data))


def ref_document(p: int, o: bytes, u: bytes, pw: str, n: int, g: int, data: bytes):
    k = object_key(ref_key2(b'id', p, o, u, pw), n, g)
    return (p & 4 != 0, p & 8 != 0, p & 16 != 0, rc4_of(md5_of(k)[:min(len(k), 16)], data))


def code_document_none(p: int, o: bytes, u: bytes):
    """No password is the empty password."""
    return (locked(p, o, u, None).decipher is None, locked(p, o, u, '').decipher is None)


def ref_document_none(p: int, o: bytes, u: bytes):
    ref_key2(b'id', p, o, u, '')
    return (False, False)


def raises_document_filter_PDFEncryptionError(p: int, o: bytes, u: bytes, pw: str):
    """A security handler that is not known is refused."""
    locked(p, o, u, pw, filt='Other')


def raises_document_algorithm_PDFEncryptionError(p: int, o: bytes, u: bytes, pw: str):
    """An algorithm that is not known is refused."""
    locked(p, o, u, pw, v=3)


def holds_document_open(a: bytes):
    """Without encryption nothing is deciphered and nothing forbidden."""
    d = opened({100: ({5: (None, 10, 0)}, root(), True)}, {10: obj(5, a)})
    return d.decipher is None and d.is_printable and d.is_modifiable and d.is_extractable and d.getobj(5) is a


def code_handler(p: int, o: bytes, u: bytes, oe: bytes, ue: bytes, pw: str):
    """Which handler is in charge."""
    d = locked(p, o, u, pw, dict(cf('AESV3'), OE=oe, UE=ue), v=5, r=5)
    return d.is_extractable


def ref_handler(p: int, o: bytes, u: bytes, oe: bytes, ue: bytes, pw: str):
    ref_key5(o, u, oe, ue, pw)
    return p & 16 != 0
