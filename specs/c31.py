"""Packed data come out as what was packed."""
from pdfmajor.utils import lzwdecode
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


def code_lzw():
    """Runs that were seen before, also those that are not finished yet."""
    return [lzwdecode(b'\x80\x0b`P"\x0c\x0c\x85\x01'),
            lzwdecode(b'\x80\x18LP(!\x8a\x02'),
            lzwdecode(b'\x80\x18`F\x18\x08'),
            lzwdecode(b'\x80\x18` '),
            lzwdecode(b'\x80>\x9fo\xc7\xeb\xf9\xfe\x00\x00\xc0@'),
            lzwdecode(b'\x80@@')]


def ref_lzw():
    return [b'-----A---B',
            b'abababab',
            b'aaaa',
            b'a',
            b'\xfa\xfb\xfc\xfd\xfe\xff\x00\x01',
            b'']


def code_lzw_again():
    """Clearing forgets what was seen."""
    return [lzwdecode(b'\x80\x18LF8\x14\x12\x07\x05\x82\xc0@'),
            lzwdecode(b'\x80@\x080\x02\x14\x04'),
            lzwdecode(b'\x80\x10`P\x02\x14\n\x02')]


def ref_lzw_again():
    return [b'abcabcabcabcabc',
            b'AB',
            b'AAABBB']


def code_lzw_end():
    """Data end with their last code, or where they are cut."""
    return [lzwdecode(b'\x80\x18LP(\x08\n\n\n'),
            lzwdecode(b'\x80\x18LP(\x08\xff\xff\xff\xff'),
            lzwdecode(b'\x80\x18LP '),
            lzwdecode(b'\x80\x10`$"\x18'),
            lzwdecode(b'\x80\x18LP('),
            lzwdecode(b''),
            lzwdecode(b'\x80')]


def ref_lzw_end():
    return [b'abab',
            b'abab',
            b'abab',
            b'A',
            b'abab',
            b'',
            b'']


def code_lzw_damaged():
    """What comes before the damage stays."""
    return [lzwdecode(b' \x90\xa0P\x10'),
            lzwdecode(b'\x80K\x08 '),
            lzwdecode(b'\x80\x10e\x84 '),
            lzwdecode(b'\x80@\x80'),
            lzwdecode(b'\x80\x10HPB\x10'),
            lzwdecode(b'\x80\x10HP2\x10')]


def ref_lzw_damaged():
    return [b'ABAB',
            b'',
            b'A',
            b'',
            b'AB',
            b'ABBBB']


def code_lzw_longer():
    """Codes become longer as there are more of them."""
    return [lzwdecode(b'\x80\x00\x00\xe0\xe0\xa8pF*\x18\x8e\x07\xe4biP\xb6b4\x9c\x0e\xe7\xe4*1&\x9aP\xaa\x15\xebe\xeb\x11\x96\xd2l\xb8\x1c\xee\xe7\xa8\x04\x10\x0f\x0b\x07D\x82\xb1\x90\xe4\x80G\'\x15K\x863Q\xc4\xf0\x7fC#R\x89\xb5\x12\xa5`\xb7_1Y\x8d6\xd3\x85\xd0\xef{\x00\x81!\x00\xb8xJ,\x19\x8e\x88$\x82yX\xbad5\x9c\x8f(\x04:9*\x9cQ\xaa\x96+\x85\xfb\x19\x9a\xd4m\xb8\x9d/\x07\xb8\x0c\x14\x11\x0c\x07\xc4\xc2\xd1\xa0\xec\x84I(\x15\xcb\xc6Sa\xcc\xf4\x81D#\xd2\xc9\xd5"\xadd\xb9`1\xd9\xcdV\xe3\x8d\xd4\xf1|\x01\x01a \xc8\x80N.\x1a\x8f\x08d\xa2\x89`\xbef6\x9d\x0fh$JA.\x9eR\xab\x16k\xa6\x0b!\x9e\xd6n\xb9\x1do\'\xc8\x14\x18\x13\r\x08E\x02\xf1\xb0\xf4\x88K)\x16L\x06sq\xd4\xf8\x83E$S\t\xf52\xb5h\xbba2Z\rv\xf3\x95\xd8\xf3}\x01\x81\xa1@\xd8\x88R0\x1b\x8f\x88\xa4\xc2\x99h\xc2h7\x9d\x8f\xa8DZI2\xa0S\xab\x96\xab\xc6\x1b)\xa2\xd8o\xb9\x9d\xafH\x14\x12\x0c\x84!Hb\x1c\x88"H\xa2,\x8c#H\xe2<\x90$I"L\x94%Ib\\\x98\n\xa8\x08')]


def ref_lzw_longer():
    return [b'\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0f\x16\x1d$+29@GNU\\cjqx\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\x02\t\x10\x17\x1e%,3:AHOV]dkry\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\x03\n\x11\x18\x1f&-4;BIPW^elsz\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\x04\x0b\x12\x19 \'.5<CJQX_fmt{\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x05\x0c\x13\x1a!(/6=DKRY`gnu|\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x06\r\x14\x1b")07>ELSZahov}\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0f\x16\x1d$+29@GNU']


def code_lzw_later():
    """They do so later where the data say so."""
    return [lzwdecode(b'\x80\x00\x00\xe0\xe0\xa8pF*\x18\x8e\x07\xe4biP\xb6b4\x9c\x0e\xe7\xe4*1&\x9aP\xaa\x15\xebe\xeb\x11\x96\xd2l\xb8\x1c\xee\xe7\xa8\x04\x10\x0f\x0b\x07D\x82\xb1\x90\xe4\x80G\'\x15K\x863Q\xc4\xf0\x7fC#R\x89\xb5\x12\xa5`\xb7_1Y\x8d6\xd3\x85\xd0\xef{\x00\x81!\x00\xb8xJ,\x19\x8e\x88$\x82yX\xbad5\x9c\x8f(\x04:9*\x9cQ\xaa\x96+\x85\xfb\x19\x9a\xd4m\xb8\x9d/\x07\xb8\x0c\x14\x11\x0c\x07\xc4\xc2\xd1\xa0\xec\x84I(\x15\xcb\xc6Sa\xcc\xf4\x81D#\xd2\xc9\xd5"\xadd\xb9`1\xd9\xcdV\xe3\x8d\xd4\xf1|\x01\x01a \xc8\x80N.\x1a\x8f\x08d\xa2\x89`\xbef6\x9d\x0fh$JA.\x9eR\xab\x16k\xa6\x0b!\x9e\xd6n\xb9\x1do\'\xc8\x14\x18\x13\r\x08E\x02\xf1\xb0\xf4\x88K)\x16L\x06sq\xd4\xf8\x83E$S\t\xf52\xb5h\xbba2Z\rv\xf3\x95\xd8\xf3}\x01\x81\xa1@\xd8\x88R0\x1b\x8f\x88\xa4\xc2\x99h\xc2h7\x9d\x8f\xa8DZI2\xa0S\xab\x96\xab\xc6\x1b)\xa2\xd8o\xb9\x9d\xafH\x14\x12\r\x08B\x90\xc49\x10D\x91DY\x18F\x91\xc4y H\x92D\x99(J\x92\xc4\xb90\x15P\x10', 0),
            lzwdecode(b'\x80\x18LP(\x08', 0)]


def ref_lzw_later():
    return [b'\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0f\x16\x1d$+29@GNU\\cjqx\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\x02\t\x10\x17\x1e%,3:AHOV]dkry\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\x03\n\x11\x18\x1f&-4;BIPW^elsz\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\x04\x0b\x12\x19 \'.5<CJQX_fmt{\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x05\x0c\x13\x1a!(/6=DKRY`gnu|\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x06\r\x14\x1b")07>ELSZahov}\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0f\x16\x1d$+29@GNU',
            b'abab']


def code_fax():
    """Rows as changes of the rows above them."""
    return [ccittfaxdecode(b'.\xfc\x00@\x04', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xed\xdb\x04\n\x00 \x02', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'#\xd6\xe1\x87\x07&\xa2\x80\x08\x00\x80', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'&\xa2\x99\x86\xe0\x02\x00 ', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'/\x85\x10\xc2\x93\\0\x01\x00\x10', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'&\xa8\x8e\x88\xe8%i$\x95$\x92J\x00 \x02', {'K': -1, 'Columns': 8})]


def ref_fax():
    return [b'\xc3\xc3',
            b'\xc3\xe1\xf0\x87',
            b'\x8f\xc7\xf1\xfe\x00',
            b'\x00\xff',
            b'\xcc\xff\xfc?',
            b'U\xaaU']


def code_fax_widths():
    """Rows of any number of bytes, and parts of bytes."""
    return [ccittfaxdecode(b'V\xa0\x02\x00 ', {'K': -1, 'Columns': 1}),
            ccittfaxdecode(b'T\xa0\x02\x00 ', {'K': -1, 'Columns': 2}),
            ccittfaxdecode(b'1u\x04\t\x80\x08\x00\x80', {'K': -1, 'Columns': 9}),
            ccittfaxdecode(b'\x99\xa95\x06\x00\x04\x00@', {'K': -1, 'Columns': 17}),
            ccittfaxdecode(b'\x80\x08\x00\x80', {'K': -1, 'Columns': 7})]


def ref_fax_widths():
    return [b'\x00\x80\x00',
            b'\x80@',
            b'\xe3\x80\xe3\x00\x1f\x80',
            b'\xff\xff\x80\xff\x7f\x80\x00\x00\x00',
            b'\xfe']


def code_fax_colours():
    """Black is nothing, or what the parameters say."""
    return [ccittfaxdecode(b'.\xed\xdb\x04\n\x00 \x02', {'K': -1, 'Columns': 8, 'BlackIs1': True}),
            ccittfaxdecode(b'#\xd6\xe1\x87\x07&\xa2\x80\x08\x00\x80', {'K': -1, 'Columns': 8, 'BlackIs1': False}),
            ccittfaxdecode(b'V\xa0\x02\x00 ', {'K': -1, 'Columns': 1, 'BlackIs1': True})]


def ref_fax_colours():
    return [b'<\x1e\x0fx',
            b'\x8f\xc7\xf1\xfe\x00',
            b'\x80\x00\x80']


def code_fax_ends():
    """Data end where they say so, or where they are cut."""
    return [ccittfaxdecode(b'.\xfc', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xfc\x00@\x04\n\n', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xfc\x00@\x04\xff\xff', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'&\xa2\x99\x86\xe0\x02\x00 \x80', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'\x00\x10\x01', {'K': -1, 'Columns': 8})]


def ref_fax_ends():
    return [b'\xc3\xc3',
            b'\xc3\xc3',
            b'\xc3\xc3',
            b'\x00\xff',
            b'']


def code_fax_aligned():
    """Rows that begin with bytes."""
    return [ccittfaxdecode(b'.\xe0\xe0\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'.\xe0nl\x04\n\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'#\xd0n\x0c8\x07&\xa2\x80\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'&\xa2\x803\r\xc0\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'\x05\x08\x14\xe0\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'&\xa79\x00&\xa7\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'.\x18\xc05\x86\xe0\x00\x10\x01', {'K': -1, 'Columns': 17, 'EncodedByteAlign': True}),
            ccittfaxdecode(b'.\xe0nl\x04\n\x00\x10\x01', {'K': -1, 'Columns': 8, 'EncodedByteAlign': True, 'BlackIs1': True}),
            ccittfaxdecode(b'.\xed\xdb\x04\n\x00 \x02', {'K': -1, 'Columns': 8, 'EncodedByteAlign': False})]


def ref_fax_aligned():
    return [b'\xc3\xc3',
            b'\xc3\xe1\xf0\x87',
            b'\x8f\xc7\xf1\xfe\x00',
            b'\x00\xff',
            b'\xf8\xe7\xe7',
            b'\x07\xf8\x07',
            b'\xc0\x00\x00\xc0\x00\x00\xff\xff\x80',
            b'<\x1e\x0fx',
            b'\xc3\xe1\xf0\x87']


def code_fax_all():
    """Every row of five pixels below every other."""
    return [ccittfaxdecode(b'\xea\xc2Q\x85\x0c\x10Q\x82\tE\x82Q\x82\x83#\xa8\xc8\xe9E\x91\xd0J##\xa0\xa2\x19\x1f\x8c\x8f\xa8\xb2=\x19\x1d\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x93U\x195J,\x9a\xa0\x94FMPQ\x0c\x9a\xa0ADd\xd5\x02\tDY5@\x94FMP(\x83&\xbcd\xd7Qd\xd7\tDd\xd7\n!\x93Z2k(\xb2j\xe3&\xa6\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'V\xbe\x95\xd5\xc2\t\x8a\x84\x168J\x1c(p@\x98\xa8 X\xe0\x81%\x17\x04\tE\xc1\x04\xc5A\x05\x8e\tA\xc1@\x04\x00@', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'Rj\x98\xa95X\xe4\xd5%\x17&\xa9E\xc9\xaa\x08&"\xa4\xd5\x04\x16#\x93T\x12\x88rj\x82\x88rk\xb1Rk\xe3\x93](\xb95\xd4\\\x9a\xccT\x9a\xd8\xe4\xd5\xcd\xa2j`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b"\tF\x12\xba_\xee\xa9Z\xa4\xadV\xf4\xda\x84\x10\xc4%\x08'\x14\xa1\x05\xc7\x84\x15\x8dBP\xd4$\xa1\xa8XxL\x00@\x04", {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\tA\x02\x18\x84\xa0\x818\xa5\x04\x0b\x8f\x04\n\xc6\xa0\x81%\x16\xa0\x81$\xa2\xd4\x10%\x8b\xc1\x02LZ\x82\x08b\x12\x82\t\xc5( \xb8\xf0AX\xd4\x12\x83PIA\xa8,\x1e\t\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\n\x18WZ\xdf\xa0\xae\x82WJ\xda\xb8@\x83\x10\xa1\x02qP\x81Tl X\xe1\x05\x0e\x10J\x1c%\r\x85\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\n\x08\xab\x10\xa0\x8a\x88\xa8"\x9dF\xc1\x14\xf1\xc1\x148QpE\x0e\x12\x8b\x82(u\x16\xc1\x14<\\\x10 \xc4( N*\x08\x15F\xc1\x02\xc7\x04\x14\x1c\x10J\x0e\tA\xb0P\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x04\x14`\x82\x8a\x84\x13j\x95\xd0_\xf5\xdd\xeb\x0e\x15+\n\x92\xb0\x9aA+T\x82\xb0\xabz\xab\xb4\xedP`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x04\x14 \x86 \x82\x84\x10\xa8\x84\x13\x08&\xa2\x94 \x9cPP\x82\xe3\xc2\x0bQ\xd8A\\j\x10P\xc6\x14%\x0c(IC\t\x84\x82P\xd4$\x140\xa1a\xe1T;\t\xc3P\x83\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x04\x12\x8b\x04\x12\x8e\x10[T\x95\xd0K\xbd\x7f\xefK\x1c%I\xb0\x95-\x85\xa4\x95\xa5IXJ\xad\xd5w\xd3\xb4\xa8`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b"\x04\x12\x84\x10\xb1\x04\x12\x84\x10\xe2\x10XA5\x14\x94 \x9cPJ\x10[\x1dB\x0b\xc7\xc2\n\xe3J\x10Q\x8c%\t0\xc2P\x96\x18XI(iBJ\x18J\x15\x87P\xb8|'\r(C\x00\x10\x01", {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x04\xa3\x04\xa1\xc2W\xad\xb4\xb5\xbd-\xff\xba\xa0\xadPJ\xd5\x04\x16\xf4\x10M\xaaV\xe9+u\xbd0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x04\xa1\x02\x18\x82P\x81\x07\x10\x94 O\x15\x84\t\xb1J\x10*\x8d\xc2\x05J7\x08\x17\x1e\x10+\x1a\x84\x145\x08%\rB\x08,< \x82a\xa8J\x1b\x84\x947\x0b\x0f\t\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x05\x06\n\x1c+T\xddaa\xc2X\xeb~\x81]\x02W@\x82V\xd0 \xae\x82\xb0\xd0J\xc6\x95\xb5\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'\x05\x08\xab\x10P\x8a\x88\x85\x08\xa7QL"\x9e*\x11C\x85\x18a\x148J1\x84P\xea6\x11C\xc7\x08\x148@\x948@\x82P\xd8@\x82\x87\x08(a\x84\x12\x860\x946\x14\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xa8\xc8\xea*\x08\x13\x10\x94 \x86!B\x04\x1b\n\x95\x84\xa96\xa8+\xa0_\xf5\xde\x12\xe3\xc2\xe1\xde\xb6\xb4\xe1\xe1`\xc0\x04\x00@', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xaaV\n\x92\xb0M \x95\x844\x82\xb0A\xa4\x08+T\x81\x04\xad4\x81+\n\x90+\x05[\xd5]\xa8J\xe3P\xae\x1av\xa9\xabM\x07aP0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b"#\xa5\x16GJ8 X\xa5\x08'\x15\x08\x13\xb0\x9aJ\xc2\xd2\xda\xa0\x95\xd0%\xde\xbf\xfa]\xf5\xde\xdd-\xf5\xc3\xc2X\xc0\x04\x00@", {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xa5I\xb0J\x96\xc1i%a:J\xc1:A\x04\xdaT\x82\x0bkH%a*AX%V\xea\xbb\xea\x95\xddU\xdd6\xd2\xa7\xb5\xa0\xec%C\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xa0\x94FGA(\xb8 IG\x84\x17\x1b\x08\x15Z\xa4\x12\xb4\xa9%z\x08-\xb4\x08%\xc7\x84\xbb\xe9\x7f\xfe\xfa\xde\x82[ZK\x1e\x10\\X\x00\x80\x08', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xa0\x95!\xb0A*N\xc1%K\xb0\xbaV\xc1U$\xad\x04\xa9$\xad%Il \xb4\x93`\x82U\x1b\x84\xaa\xee\x95{\xf5\xb7\xaav\x82T\xd5\xa4\xa8v\x10Z\x16\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b"#\xa0\xa2\x19\x1d\x05\x17\x04\tF\xa1\x05c\x84\x0baR\n\xc2T\x95\xaa\x08&\xe8\x10\\<.\xfa\xf5\xef\xfe\xf4\x16\xd6\x96+\x08'\x18\x00\x80\x08", {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xa0\xa9\x06\xc1\x05I\xd8%J\xac+K`\xb4\x90V\x82\xa4\x82V\x95$\xac \x9aJ\xc1\x05P\xdc*\xbb\xaa\xd5\xedw\xd3\xb4\x155iP\xab\x08&\x86\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xf1\x91\xf8\xa8 \x98j\x12\x87\x08+\xd6\xea\xad\xbaV\x1a\x0b[\xd2\xdb\xa0\x96\xf4\x16\xff\xeb\xbb\xd6\x18\x00\x80\x08', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xf4\x15\x85A+\t\xa0\x82V\xa8 \xac*\x08\x16\xf4\x10*\xbbA\x02v\xa8 A\xb0\xa9[\xa4\xad\xb4\x82V\xe9\x05n\xb7\xaa\xbbN\xd5\x06\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xea,\x8f\xa8\xe0\x82\xc3P\x92\x87\x08%v\xaa\xfa\xed\xd2V4\x12\xd3\xb5\xae\xfaKkKk\xbd\x7f\xefK\x18\x00\x80\x08', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b"#\xea\x82l%Al-\x04\x95\xa5A+\tPA[\xaa\x08.\xfa\x08'iPA\r\x84\xa96\xd5-\xbd$\xad\xaaJ\xda\xabu]\xf4\xed*\x18\x00\x80\x08", {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xd1\x91\xe88%\x0f\x0b\r\x84\xadS\xb4\xa9\xde\xb6\xd2\xc2\xc3\xc2XxAq\xe1\x04\xe2\xb5\xbd-\xff\xb0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xd4\n\xd5\x02V\xa8\x10[\xd0 \x9bT\x08\x12\xb7@\x81%n\x81\x02\xde\x81\x02mPV\x1d\x04\xac:\x08-\x8e\x82\t\xb1T\xad\xd2V\xebz`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xb3\x81\xb9\x1d\x83\x82\x86\xa10\xe1XT\x1b\tP\xda\xa6\xeb\x05\x83\x82X\xe0\x82X\xb8 \xb1\xc2\xc3\x84\xb1\xd6\xf0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'#\xb4U\xba*.\x8aum\x14\xf7E\x0e\x15\x86\x8a\x1c%cE\x0e\xad\xa2\x87\xba\x05`\xd0%c@\x82V-\x02\n\xc6\x82\xb0\xd0J\xc6\x95\xb5\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xaa2j\xa2\xa4\xd51\tA\x02\x18\x85\x04U\x88 \xa1\x041\x04\x12\x84\x10\xb1\x04\xa1\x02\x18\x82\x84U\xb0T\xac\x12\xa4\xd8 \x95!\xb0AR\r\x85AXJ\x82mP+\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xab\xfe\xbb\xc2\\x\\<\x10\\x \x97\x17\x82\\x.\x0e\xf5\xb5\xa7a-\x0e\xc2\xd0p\xf0\xb0\xd6\x13\x83\xc1d\xcd@\x04\x00@', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa9E\x93T\xa3\x93U\x8aP@\x9cT\x11Q\x10\x82a\x04*!\x05\x84\x10\xe2\x12\x84\x088\x85\x08\xa8\xb0M%`\xb4\xb6\t*N\xc1*N\xc2h%ah-\xaa\x04\xae\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa9w\xaf\xfe\x97}w\xc2\t\xe2\xb8Ax\xf8K\x87\xc2\xe1\xed\xd2\xdf]\xa5\xa7\xb5\xa7\x86\xe1,>\x17\x07\x82X\xc0\x04\x00@', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8%\x11\x93T\x12\x8b\x93T\x94x \\l\x11N\xa2\x94 \x9a\x8aJ\x10MEa\x02x\xa6\x11N\xac!\xa4\x12\xb0\x9d$\xac.\x97aZUj\x82\tZT\x12W\xa0Am\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8%\xc7\x84\xbb\xe9\x7f\xfe\xfa\xe9v\xbaK\xb5\xd7\xbfOkc\xa0\x96\xde\x92\xdf\xafwU\x87\x84\x12\xc3XIc\xc1\x05\xc5\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8(\x86MPQrj\x94j\x08\x15\x8e\x08\xa7\x8a\n\x10N(%\x08\'\x14\xa1\x02lT"\x9e\xc1\x06\x90V\t\xd2V\n\xa9[\x05\xa5\xb0\xa8 \xac%A+T\x08&\xe0\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8.\x1e\x17}z\xf7\xff\xa0\xbb\xe8%\xdfK\xb7\xae\xf6\x1d\x05\xb7\xa5\xba\xd5\xdf\\< \xb0\xd6\x12\xc5`\x82q\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x10Q\x195@\x82\x88\xa95A\x04\xc5\xa8 IE\xc1\x148Q\xe1\x05\xc7P\x82\xd8\xdc U\x18a\x148V\xa9\x02\n\xd2\xa4\x10M\xa0\x95$\xad\x05I\x05z\x08\x16\xea\x82\n\xdb\xa0@\x95\x86\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x10\\x \xb8\xae\x10Ok\xa5\xdfA\x7f\xff_}\xfa\xf0\xf8[\xd0 \xb6\xb4\x10N\xc2ZKai\x05\x8f\x08\x17\x1a\xc2\n\xe2\xf0@\x96!\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x10J"\xc9\xaa\x04\x12\x88\xe4\xd5\x04\x16-A\x02IE\xc1\x148J;\x08-G\xc2\x0b\xc6\xe1\x02\xa5\x18\xc2(p\x95\xa6\x90 \x95\xad \x82\xdaJ\x92J\xd2\xa4\x82Wh U}\x04\x17n\x81\x02J\xc6\x00 \x02', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x10K\x8b\xc1\x04\xb8\xf8A{]%\xdfA/\xbf_\xff\xef\xd2\xf1\xf0\x96\xdd\x02\to\xa0\x82\xed-$\xb6\xb4\x82X\xdc U\x8f\x84\x17\x8b\xc1\x02K\x11\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x12\x88\xc9\xaa\x04\xa2\x1c\x9a\xa0\x94^\x08\x12\xc5\xb0E\x0e\xa3P\x82\xb8\xd2\x84\x15\xc7\x84\x0b\x8d\x84P\xea\xc2\xa4\tXJ\x90J\xc2\x0bIl \x9aIZ\xa0\x81;J\x82\t\xde\x81\x02\xdb\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x12\xe3\xc1.\x1f\tw\xeb\xdb\xd2\xf5\xef\xd2\xf7\xff\xfb\xebz\x04\xb6\xb4\x12\xd8].\xc2t\x96+\x08\x13\xc5, \x9e<\x10.,\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x14A\x93T\n!\xc9\xaa\n-A\x02L\\\x11C\xc6\x14 \xa1\x8c%\x08(\xc6\xa1\x02\xb1\xc2({\x05H\x15\x82T\x82\xb0A*I\xb0ARV\x15\x04\x086\x12\xa0\x82\x1bT\x08\x13p\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa8\x17\x07\x82\xe1\xf0\xbb]=\xf5\xe1x|%\xe3\xeb\xdf\xfd\xe8\x16\xd6\x82\xd8KI\xd8ZX\x85\x84\x088\x84\xb0\x82\x1cV\x08\x13\x8c\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xbcd\xd7\x8a\x93]\x88J\x08!\x88P@\x83\x0c(J\x18J\x12a\xa8AC\x84\n\xf5\xba\xabp\x95F\xe1T6\xe9[T\x9b\x0e\x82\xb0`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xbe\xb7\xa5\xb7A-\x8e\x82\xd8t\x08-\xe8\x10Kn\x81-\xe8\x16\xff\xeb\xbc%\xc7\x85\xc3\xbdmi\xc3\xc2\xc1\x80\x08\x00\x80', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xba\x8b&\xba\x8eM|R\x82\t\xc5A\x02p\xc2a%\x0c,%\x86\xa1\x04\xa1\xc2\x04\xae\xd5_]\xd2\xab\xba\xab\xb6\xd2V\xf4\xb6\x1d\x04\xac`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xba\xd3\xb5\xae\xfaKoKoA\x04\xedh \xbb\xe8%\xb5\xa0\xb6\xbb\xd7\xffK\xbe\xbb\xdb\xa5\xbe\xb8xK\x18\x00\x80\x08', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb8J#&\xb8J.Mt\xa3\xc1\x05\xc6\xc1\x02\xa8j\x12\tCJ\x12J\x1e\x10Aa\xb0\x81\x04\xae5\t]\xd5+\xf5\xefkV\xe9\x04\xad\xaaIX\xe8 \xb6,\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb8KC\xb0\x96\x9e\xd2\xd7\xbfWu\xa4\xb6\x12\xd2Kiiv\x17I\xd8K\x8f\tw\xd2\xff\xfd\xf5\xbd\x04\xb6\xb4\x96< \xb8\xb0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb8Q\x0c\x9a\xe1E\xc9\xae\xa3PAX\xe0\x81a\x85\t\x05\x0c%\t(j\x10A0\xe1\x02\n\xe1\xa8WuW\xaa\xdb\xeb\xb7H+j\x92\xb1T\x10M\x8c\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb8Z\x0e\xc2\xd3\xda\xd5n\xeb\xbe\x90[\x0bH%\xb5\xa4\xb6\x13\xa5\xb0\xb8x]\xf5\xeb\xdf\xfd\xe8-\xad,V\x10N0\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb4d\xd6\x8a\x93Y\x83PJ\x0e\x08(xXu\n\xc3p\x940\xc2\n\xd5;J\x9bh%N\xd0T\xef[\xaa\xb6\xe9X`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb6\x16\x1e\x12\xc3p\x82XxAa\xe1\x02\xe3\xc2\x05X\xdc O\x15\x84\x088\x85\xad\xe9m\xd0Kz\x0b\x7f\xf5\xdd\xeb\x0c\x00@\x04', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb2\x8b&\xb2\x8eMl\x1a\x82J\x0e\x08%\x0e\xc2\xa8|.\x1b\x84\x941\x84\x12\xb4\xd3V\xb4\xf6\x92\xa6\xad*j\xedU\xf5\xdb\xa4\xac`\x02\x00 ', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xb2\xc2p\xd6\x17\x0f\x84\x96\x1a\xc2Xk\x08+\x8da\x05\xe3\xe1\x04\xf1K\x08!\xc4%\xa7k]\xf4\x96\xd6\x96\xd7z\xff\xde\x960\x01\x00\x10', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xae2j\xe6\xd15px,\x1b\x04\xa1\xa8N\x1aP\x9c<,6\x12\xb0\xa8;\tPv\x10Z\x1d\x84\x13B\xadS\xb4\xa9\xde\xb6\xc0\x04\x00@', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xaf\x05\x83\xc1,\x1e\x08.<\x10N+\x04\tb\xf0@\x92\xc5\xe0\x81q\xe0\x818\xac,<%\x87\x84\x17\x1e\x10N+[\xd2\xdf\xfb\x00\x10\x01', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa6p7&\xa6m\x13S\x06\xa0\x988(aB\x0c0\x94!\x86\xa10\xe1X*\x06\xc1*\x1b\x04\x12\xa1l\x10T6\x15\x06\xc2T6\xa9\xb8\x00\x80\x08', {'K': -1, 'Columns': 5}),
            ccittfaxdecode(b'&\xa7*\xe4\xcdeF9N\xb1r\x9f\x1c\xa1\xc2\xc49C\x84\xb1\x1c\xa1\xd6.P\xf8\xe0\xb0pK\x1c\x10K\x17\x04\x168Xp\x96:\xde\x00 \x02', {'K': -1, 'Columns': 5})]


def ref_fax_all():
    return [b'\xf8\xf8\xf8\xf0\xf8\xe8\xf8\xe0\xf8\xd8\xf8\xd0\xf8\xc8\xf8\xc0\xf8\xb8\xf8\xb0\xf8\xa8\xf8\xa0\xf8\x98\xf8\x90\xf8\x88\xf8\x80',
            b'\xf8x\xf8p\xf8h\xf8`\xf8X\xf8P\xf8H\xf8@\xf88\xf80\xf8(\xf8 \xf8\x18\xf8\x10\xf8\x08\xf8\x00',
            b'\xf0\xf8\xf0\xf0\xf0\xe8\xf0\xe0\xf0\xd8\xf0\xd0\xf0\xc8\xf0\xc0\xf0\xb8\xf0\xb0\xf0\xa8\xf0\xa0\xf0\x98\xf0\x90\xf0\x88\xf0\x80',
            b'\xf0x\xf0p\xf0h\xf0`\xf0X\xf0P\xf0H\xf0@\xf08\xf00\xf0(\xf0 \xf0\x18\xf0\x10\xf0\x08\xf0\x00',
            b'\xe8\xf8\xe8\xf0\xe8\xe8\xe8\xe0\xe8\xd8\xe8\xd0\xe8\xc8\xe8\xc0\xe8\xb8\xe8\xb0\xe8\xa8\xe8\xa0\xe8\x98\xe8\x90\xe8\x88\xe8\x80',
            b'\xe8x\xe8p\xe8h\xe8`\xe8X\xe8P\xe8H\xe8@\xe88\xe80\xe8(\xe8 \xe8\x18\xe8\x10\xe8\x08\xe8\x00',
            b'\xe0\xf8\xe0\xf0\xe0\xe8\xe0\xe0\xe0\xd8\xe0\xd0\xe0\xc8\xe0\xc0\xe0\xb8\xe0\xb0\xe0\xa8\xe0\xa0\xe0\x98\xe0\x90\xe0\x88\xe0\x80',
            b'\xe0x\xe0p\xe0h\xe0`\xe0X\xe0P\xe0H\xe0@\xe08\xe00\xe0(\xe0 \xe0\x18\xe0\x10\xe0\x08\xe0\x00',
            b'\xd8\xf8\xd8\xf0\xd8\xe8\xd8\xe0\xd8\xd8\xd8\xd0\xd8\xc8\xd8\xc0\xd8\xb8\xd8\xb0\xd8\xa8\xd8\xa0\xd8\x98\xd8\x90\xd8\x88\xd8\x80',
            b'\xd8x\xd8p\xd8h\xd8`\xd8X\xd8P\xd8H\xd8@\xd88\xd80\xd8(\xd8 \xd8\x18\xd8\x10\xd8\x08\xd8\x00',
            b'\xd0\xf8\xd0\xf0\xd0\xe8\xd0\xe0\xd0\xd8\xd0\xd0\xd0\xc8\xd0\xc0\xd0\xb8\xd0\xb0\xd0\xa8\xd0\xa0\xd0\x98\xd0\x90\xd0\x88\xd0\x80',
            b'\xd0x\xd0p\xd0h\xd0`\xd0X\xd0P\xd0H\xd0@\xd08\xd00\xd0(\xd0 \xd0\x18\xd0\x10\xd0\x08\xd0\x00',
            b'\xc8\xf8\xc8\xf0\xc8\xe8\xc8\xe0\xc8\xd8\xc8\xd0\xc8\xc8\xc8\xc0\xc8\xb8\xc8\xb0\xc8\xa8\xc8\xa0\xc8\x98\xc8\x90\xc8\x88\xc8\x80',
            b'\xc8x\xc8p\xc8h\xc8`\xc8X\xc8P\xc8H\xc8@\xc88\xc80\xc8(\xc8 \xc8\x18\xc8\x10\xc8\x08\xc8\x00',
            b'\xc0\xf8\xc0\xf0\xc0\xe8\xc0\xe0\xc0\xd8\xc0\xd0\xc0\xc8\xc0\xc0\xc0\xb8\xc0\xb0\xc0\xa8\xc0\xa0\xc0\x98\xc0\x90\xc0\x88\xc0\x80',
            b'\xc0x\xc0p\xc0h\xc0`\xc0X\xc0P\xc0H\xc0@\xc08\xc00\xc0(\xc0 \xc0\x18\xc0\x10\xc0\x08\xc0\x00',
            b'\xb8\xf8\xb8\xf0\xb8\xe8\xb8\xe0\xb8\xd8\xb8\xd0\xb8\xc8\xb8\xc0\xb8\xb8\xb8\xb0\xb8\xa8\xb8\xa0\xb8\x98\xb8\x90\xb8\x88\xb8\x80',
            b'\xb8x\xb8p\xb8h\xb8`\xb8X\xb8P\xb8H\xb8@\xb88\xb80\xb8(\xb8 \xb8\x18\xb8\x10\xb8\x08\xb8\x00',
            b'\xb0\xf8\xb0\xf0\xb0\xe8\xb0\xe0\xb0\xd8\xb0\xd0\xb0\xc8\xb0\xc0\xb0\xb8\xb0\xb0\xb0\xa8\xb0\xa0\xb0\x98\xb0\x90\xb0\x88\xb0\x80',
            b'\xb0x\xb0p\xb0h\xb0`\xb0X\xb0P\xb0H\xb0@\xb08\xb00\xb0(\xb0 \xb0\x18\xb0\x10\xb0\x08\xb0\x00',
            b'\xa8\xf8\xa8\xf0\xa8\xe8\xa8\xe0\xa8\xd8\xa8\xd0\xa8\xc8\xa8\xc0\xa8\xb8\xa8\xb0\xa8\xa8\xa8\xa0\xa8\x98\xa8\x90\xa8\x88\xa8\x80',
            b'\xa8x\xa8p\xa8h\xa8`\xa8X\xa8P\xa8H\xa8@\xa88\xa80\xa8(\xa8 \xa8\x18\xa8\x10\xa8\x08\xa8\x00',
            b'\xa0\xf8\xa0\xf0\xa0\xe8\xa0\xe0\xa0\xd8\xa0\xd0\xa0\xc8\xa0\xc0\xa0\xb8\xa0\xb0\xa0\xa8\xa0\xa0\xa0\x98\xa0\x90\xa0\x88\xa0\x80',
            b'\xa0x\xa0p\xa0h\xa0`\xa0X\xa0P\xa0H\xa0@\xa08\xa00\xa0(\xa0 \xa0\x18\xa0\x10\xa0\x08\xa0\x00',
            b'\x98\xf8\x98\xf0\x98\xe8\x98\xe0\x98\xd8\x98\xd0\x98\xc8\x98\xc0\x98\xb8\x98\xb0\x98\xa8\x98\xa0\x98\x98\x98\x90\x98\x88\x98\x80',
            b'\x98x\x98p\x98h\x98`\x98X\x98P\x98H\x98@\x988\x980\x98(\x98 \x98\x18\x98\x10\x98\x08\x98\x00',
            b'\x90\xf8\x90\xf0\x90\xe8\x90\xe0\x90\xd8\x90\xd0\x90\xc8\x90\xc0\x90\xb8\x90\xb0\x90\xa8\x90\xa0\x90\x98\x90\x90\x90\x88\x90\x80',
            b'\x90x\x90p\x90h\x90`\x90X\x90P\x90H\x90@\x908\x900\x90(\x90 \x90\x18\x90\x10\x90\x08\x90\x00',
            b'\x88\xf8\x88\xf0\x88\xe8\x88\xe0\x88\xd8\x88\xd0\x88\xc8\x88\xc0\x88\xb8\x88\xb0\x88\xa8\x88\xa0\x88\x98\x88\x90\x88\x88\x88\x80',
            b'\x88x\x88p\x88h\x88`\x88X\x88P\x88H\x88@\x888\x880\x88(\x88 \x88\x18\x88\x10\x88\x08\x88\x00',
            b'\x80\xf8\x80\xf0\x80\xe8\x80\xe0\x80\xd8\x80\xd0\x80\xc8\x80\xc0\x80\xb8\x80\xb0\x80\xa8\x80\xa0\x80\x98\x80\x90\x80\x88\x80\x80',
            b'\x80x\x80p\x80h\x80`\x80X\x80P\x80H\x80@\x808\x800\x80(\x80 \x80\x18\x80\x10\x80\x08\x80\x00',
            b'x\xf8x\xf0x\xe8x\xe0x\xd8x\xd0x\xc8x\xc0x\xb8x\xb0x\xa8x\xa0x\x98x\x90x\x88x\x80',
            b'xxxpxhx`xXxPxHx@x8x0x(x x\x18x\x10x\x08x\x00',
            b'p\xf8p\xf0p\xe8p\xe0p\xd8p\xd0p\xc8p\xc0p\xb8p\xb0p\xa8p\xa0p\x98p\x90p\x88p\x80',
            b'pxppphp`pXpPpHp@p8p0p(p p\x18p\x10p\x08p\x00',
            b'h\xf8h\xf0h\xe8h\xe0h\xd8h\xd0h\xc8h\xc0h\xb8h\xb0h\xa8h\xa0h\x98h\x90h\x88h\x80',
            b'hxhphhh`hXhPhHh@h8h0h(h h\x18h\x10h\x08h\x00',
            b'`\xf8`\xf0`\xe8`\xe0`\xd8`\xd0`\xc8`\xc0`\xb8`\xb0`\xa8`\xa0`\x98`\x90`\x88`\x80',
            b'`x`p`h```X`P`H`@`8`0`(` `\x18`\x10`\x08`\x00',
            b'X\xf8X\xf0X\xe8X\xe0X\xd8X\xd0X\xc8X\xc0X\xb8X\xb0X\xa8X\xa0X\x98X\x90X\x88X\x80',
            b'XxXpXhX`XXXPXHX@X8X0X(X X\x18X\x10X\x08X\x00',
            b'P\xf8P\xf0P\xe8P\xe0P\xd8P\xd0P\xc8P\xc0P\xb8P\xb0P\xa8P\xa0P\x98P\x90P\x88P\x80',
            b'PxPpPhP`PXPPPHP@P8P0P(P P\x18P\x10P\x08P\x00',
            b'H\xf8H\xf0H\xe8H\xe0H\xd8H\xd0H\xc8H\xc0H\xb8H\xb0H\xa8H\xa0H\x98H\x90H\x88H\x80',
            b'HxHpHhH`HXHPHHH@H8H0H(H H\x18H\x10H\x08H\x00',
            b'@\xf8@\xf0@\xe8@\xe0@\xd8@\xd0@\xc8@\xc0@\xb8@\xb0@\xa8@\xa0@\x98@\x90@\x88@\x80',
            b'@x@p@h@`@X@P@H@@@8@0@(@ @\x18@\x10@\x08@\x00',
            b'8\xf88\xf08\xe88\xe08\xd88\xd08\xc88\xc08\xb88\xb08\xa88\xa08\x988\x908\x888\x80',
            b'8x8p8h8`8X8P8H8@88808(8 8\x188\x108\x088\x00',
            b'0\xf80\xf00\xe80\xe00\xd80\xd00\xc80\xc00\xb80\xb00\xa80\xa00\x980\x900\x880\x80',
            b'0x0p0h0`0X0P0H0@08000(0 0\x180\x100\x080\x00',
            b'(\xf8(\xf0(\xe8(\xe0(\xd8(\xd0(\xc8(\xc0(\xb8(\xb0(\xa8(\xa0(\x98(\x90(\x88(\x80',
            b'(x(p(h(`(X(P(H(@(8(0((( (\x18(\x10(\x08(\x00',
            b' \xf8 \xf0 \xe8 \xe0 \xd8 \xd0 \xc8 \xc0 \xb8 \xb0 \xa8 \xa0 \x98 \x90 \x88 \x80',
            b' x p h ` X P H @ 8 0 (   \x18 \x10 \x08 \x00',
            b'\x18\xf8\x18\xf0\x18\xe8\x18\xe0\x18\xd8\x18\xd0\x18\xc8\x18\xc0\x18\xb8\x18\xb0\x18\xa8\x18\xa0\x18\x98\x18\x90\x18\x88\x18\x80',
            b'\x18x\x18p\x18h\x18`\x18X\x18P\x18H\x18@\x188\x180\x18(\x18 \x18\x18\x18\x10\x18\x08\x18\x00',
            b'\x10\xf8\x10\xf0\x10\xe8\x10\xe0\x10\xd8\x10\xd0\x10\xc8\x10\xc0\x10\xb8\x10\xb0\x10\xa8\x10\xa0\x10\x98\x10\x90\x10\x88\x10\x80',
            b'\x10x\x10p\x10h\x10`\x10X\x10P\x10H\x10@\x108\x100\x10(\x10 \x10\x18\x10\x10\x10\x08\x10\x00',
            b'\x08\xf8\x08\xf0\x08\xe8\x08\xe0\x08\xd8\x08\xd0\x08\xc8\x08\xc0\x08\xb8\x08\xb0\x08\xa8\x08\xa0\x08\x98\x08\x90\x08\x88\x08\x80',
            b'\x08x\x08p\x08h\x08`\x08X\x08P\x08H\x08@\x088\x080\x08(\x08 \x08\x18\x08\x10\x08\x08\x08\x00',
            b'\x00\xf8\x00\xf0\x00\xe8\x00\xe0\x00\xd8\x00\xd0\x00\xc8\x00\xc0\x00\xb8\x00\xb0\x00\xa8\x00\xa0\x00\x98\x00\x90\x00\x88\x00\x80',
            b'\x00x\x00p\x00h\x00`\x00X\x00P\x00H\x00@\x008\x000\x00(\x00 \x00\x18\x00\x10\x00\x08\x00\x00']


def code_fax_runs():
    """Every short run of either colour."""
    return [ccittfaxdecode(b'&\xa0\xceG\x06b\xe0\xb4`\x0b\x00\x04\x00@', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'6\x05g\x01d\xf0,\x1f\x02\x80\x01\x00\x10', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b"3\x02s@8'\x03r\x80$\x00\x10\x01", {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'$\x02\x99\x0c\x14\x8e\x80\xcau\x06@\x01\x00\x10', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'5\x02\xb9\xac\x15\x8apU#\x01P\x00@\x04', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'"\x03l\x97\r\xa2\x0c\x1bH@l\x00\x10\x01', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'*\x03\\\xab\rbL5J@\xd4\x00\x10\x01', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'&\x03L\x81\x06\x91\x03\x06\xb24\r@\x02\x00 ', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'#`\xd2D\x81\xa0\x89\x86i\x14\x0c\xc0\x01\x00\x10', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'"\xa1\x96E\x83(\x8b\x81\x82P\x05\xc0\x04\x00@', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'% \xa0\x95\x03rV\x1b\t`h\x00\x10\x01', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'%\xa1\x9c\x82\x01\x04\x14\x18!@\xb8\x00\x80\x08', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'!a\x82\xa4\x0eT\xc1\n\xa0p\x01\x00\x10', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'*\xa1I BJ!X\x14\x00@\x04', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b'+#+DV\xcc\xa50\x01\x00\x10', {'K': -1, 'Columns': 63}),
            ccittfaxdecode(b')q2\xc9\x9a&\x81\xb8\x00\x80\x08', {'K': -1, 'Columns': 63})]


def ref_fax_runs():
    return [b'\x00\x00\x00\x00\x00\x00\x00\x00\x80\x00\x00\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x00\xe0\x00\x00\x00\x00\x00\x00\x00',
            b'\xf0\x00\x00\x00\x00\x00\x00\x00\xf8\x00\x00\x00\x00\x00\x00\x00\xfc\x00\x00\x00\x00\x00\x00\x00\xfe\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\x00\x00\x00\x00\x00\x00\x00\xff\x80\x00\x00\x00\x00\x00\x00\xff\xc0\x00\x00\x00\x00\x00\x00\xff\xe0\x00\x00\x00\x00\x00\x00',
            b'\xff\xf0\x00\x00\x00\x00\x00\x00\xff\xf8\x00\x00\x00\x00\x00\x00\xff\xfc\x00\x00\x00\x00\x00\x00\xff\xfe\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\x00\x00\x00\x00\x00\x00\xff\xff\x80\x00\x00\x00\x00\x00\xff\xff\xc0\x00\x00\x00\x00\x00\xff\xff\xe0\x00\x00\x00\x00\x00',
            b'\xff\xff\xf0\x00\x00\x00\x00\x00\xff\xff\xf8\x00\x00\x00\x00\x00\xff\xff\xfc\x00\x00\x00\x00\x00\xff\xff\xfe\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\x00\x00\x00\x00\x00\xff\xff\xff\x80\x00\x00\x00\x00\xff\xff\xff\xc0\x00\x00\x00\x00\xff\xff\xff\xe0\x00\x00\x00\x00',
            b'\xff\xff\xff\xf0\x00\x00\x00\x00\xff\xff\xff\xf8\x00\x00\x00\x00\xff\xff\xff\xfc\x00\x00\x00\x00\xff\xff\xff\xfe\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\x80\x00\x00\x00\xff\xff\xff\xff\xc0\x00\x00\x00\xff\xff\xff\xff\xe0\x00\x00\x00',
            b'\xff\xff\xff\xff\xf0\x00\x00\x00\xff\xff\xff\xff\xf8\x00\x00\x00\xff\xff\xff\xff\xfc\x00\x00\x00\xff\xff\xff\xff\xfe\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\x00\x00\x00\xff\xff\xff\xff\xff\x80\x00\x00\xff\xff\xff\xff\xff\xc0\x00\x00\xff\xff\xff\xff\xff\xe0\x00\x00',
            b'\xff\xff\xff\xff\xff\xf0\x00\x00\xff\xff\xff\xff\xff\xf8\x00\x00\xff\xff\xff\xff\xff\xfc\x00\x00\xff\xff\xff\xff\xff\xfe\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\x00\x00\xff\xff\xff\xff\xff\xff\x80\x00\xff\xff\xff\xff\xff\xff\xc0\x00\xff\xff\xff\xff\xff\xff\xe0\x00',
            b'\xff\xff\xff\xff\xff\xff\xf0\x00\xff\xff\xff\xff\xff\xff\xf8\x00\xff\xff\xff\xff\xff\xff\xfc\x00\xff\xff\xff\xff\xff\xff\xfe\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\x00\xff\xff\xff\xff\xff\xff\xff\x80\xff\xff\xff\xff\xff\xff\xff\xc0\xff\xff\xff\xff\xff\xff\xff\xe0',
            b'\xff\xff\xff\xff\xff\xff\xff\xf0\xff\xff\xff\xff\xff\xff\xff\xf8\xff\xff\xff\xff\xff\xff\xff\xfc\xff\xff\xff\xff\xff\xff\xff\xfe']


def code_fax_damaged():
    """Rows before the damage stay."""
    return [ccittfaxdecode(b'.\xed\xdb\x04\n\x04UT', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xed\xdb\x04\n\x00\xd5T', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xed\xdb\x04\n@\x02\xaa\xa0', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xed\xdb\x04\n\\\x00\x15U', {'K': -1, 'Columns': 8}),
            ccittfaxdecode(b'.\xed\xdb\x04\n\x00\x00\x00\x04', {'K': -1, 'Columns': 8})]


def ref_fax_damaged():
    return [b'\xc3\xe1\xf0\x87',
            b'\xc3\xe1\xf0\x87',
            b'\xc3\xe1\xf0\x87',
            b'\xc3\xe1\xf0\x87',
            b'\xc3\xe1\xf0\x87']


def code_lzw_afresh():
    """Clearing makes codes short again."""
    return [lzwdecode(b'\x80\x00\x00\xe0\xe0\xa8pF*\x18\x8e\x07\xe4biP\xb6b4\x9c\x0e\xe7\xe4*1&\x9aP\xaa\x15\xebe\xeb\x11\x96\xd2l\xb8\x1c\xee\xe7\xa8\x04\x10\x0f\x0b\x07D\x82\xb1\x90\xe4\x80G\'\x15K\x863Q\xc4\xf0\x7fC#R\x89\xb5\x12\xa5`\xb7_1Y\x8d6\xd3\x85\xd0\xef{\x00\x81!\x00\xb8xJ,\x19\x8e\x88$\x82yX\xbad5\x9c\x8f(\x04:9*\x9cQ\xaa\x96+\x85\xfb\x19\x9a\xd4m\xb8\x9d/\x07\xb8\x0c\x14\x11\x0c\x07\xc4\xc2\xd1\xa0\xec\x84I(\x15\xcb\xc6Sa\xcc\xf4\x81D#\xd2\xc9\xd5"\xadd\xb9`1\xd9\xcdV\xe3\x8d\xd4\xf1|\x01\x01a \xc8\x80N.\x1a\x8f\x08d\xa2\x89`\xbef6\x9d\x0fh$JA.\x9eR\xab\x16k\xa6\x0b!\x9e\xd6n\xb9\x1do\'\xc8\x14\x18\x13\r\x08E\x02\xf1\xb0\xf4\x88K)\x16L\x06sq\xd4\xf8\x83E$S\t\xf52\xb5h\xbba2Z\rv\xf3\x95\xd8\xf3}\x01\x81\xa1@\xd8\x88R0\x1b\x8f\x88\xa4\xc2\x99h\xc2h7\x9d\x8f\xa8DZI2\xa0S\xab\x96\xab\xc6\x1b)\xa2\xd8o\xb9\x9d\xafH\x14\x12\x0c\x84!Hb\x1c\x88"H\xa2,\x8c#H\xe2<\x90$I"L\x07\x8c(\x01\x88\xc3\x021@@')]


def ref_lzw_afresh():
    return [b'\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0f\x16\x1d$+29@GNU\\cjqx\x7f\x86\x8d\x94\x9b\xa2\xa9\xb0\xb7\xbe\xc5\xcc\xd3\xda\xe1\xe8\xef\xf6\x02\t\x10\x17\x1e%,3:AHOV]dkry\x80\x87\x8e\x95\x9c\xa3\xaa\xb1\xb8\xbf\xc6\xcd\xd4\xdb\xe2\xe9\xf0\xf7\x03\n\x11\x18\x1f&-4;BIPW^elsz\x81\x88\x8f\x96\x9d\xa4\xab\xb2\xb9\xc0\xc7\xce\xd5\xdc\xe3\xea\xf1\xf8\x04\x0b\x12\x19 \'.5<CJQX_fmt{\x82\x89\x90\x97\x9e\xa5\xac\xb3\xba\xc1\xc8\xcf\xd6\xdd\xe4\xeb\xf2\xf9\x05\x0c\x13\x1a!(/6=DKRY`gnu|\x83\x8a\x91\x98\x9f\xa6\xad\xb4\xbb\xc2\xc9\xd0\xd7\xde\xe5\xec\xf3\xfa\x06\r\x14\x1b")07>ELSZahov}\x84\x8b\x92\x99\xa0\xa7\xae\xb5\xbc\xc3\xca\xd1\xd8\xdf\xe6\xed\xf4\x00\x07\x0e\x15\x1c#*18?FMT[bipw~\x85\x8c\x93\x9a\xa1\xa8\xaf\xb6\xbd\xc4\xcb\xd2\xd9\xe0\xe7\xee\xf5\x01\x08\x0fababab']
