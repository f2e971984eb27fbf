"""Ciphers and hashes as unknown functions of everything they are given."""
import struct
from Crypto.Cipher import AES
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler, PDFStandardSecurityHandlerV4
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandlerV5
from pdfmajor.parser.PDFStream import PDFStream, decipher_all
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.execptions import PDFPasswordIncorrect, PDFEncryptionError

PAD = (b'\x28\xbf\x4e\x5e\x4e\x75\x8a\x41\x64\x00\x4e\x56\xff\xfa\x01\x08'
       b'\x2e\x2e\x00\xb6\xd0\x68\x3e\x80\x2f\x0c\xa9\xfe\x64\x53\x69\x7a')


def md5_of(data):
    return data


def sha_of(data):
    return data


def rc4_of(key, data):
    return data


def aes_mode(key, mode, iv, data):
    return data


def aes_of(key, iv, data):
    return aes_mode(key, AES.MODE_CBC, iv, data)


class Md5:
    def __init__(self, data=b''):
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def digest(self):
        return md5_of(self.data)


class Sha:
    def __init__(self, data=b''):
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def digest(self):
        return sha_of(self.data)


class Rc4:
    """Encryption and decryption are the same with this cipher; every use goes on with the key stream."""

    def __init__(self, key):
        self.key = key
        self.used = False

    def encrypt(self, data):
        assert not self.used
        self.used = True
        return rc4_of(self.key, data)

    def decrypt(self, data):
        return self.encrypt(data)


class Aes:
    """Cipher block chaining; every use goes on with the last block of the one before."""

    def __init__(self, key, mode=None, IV=None, iv=None):
        self.key = key
        self.mode = mode
        self.iv = IV if iv is None else iv
        self.used = False

    def decrypt(self, data):
        assert not self.used
        self.used = True
        return aes_mode(self.key, self.mode, self.iv, data)


def new_md5(data=b''):
    return Md5(data)


def new_sha(data=b''):
    return Sha(data)


def new_rc4(key):
    return Rc4(key)


def new_aes(key, mode=None, IV=None, iv=None):
    return Aes(key, mode, IV, iv)

