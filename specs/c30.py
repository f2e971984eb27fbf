"""The built-in tables are those of the standards: what each code means, None for codes without a meaning."""
from pdfmajor.parser.EncodingDB import EncodingDB
from pdfmajor.utils import decode_text, name2unicode
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont.util import FontMetricsDB

# codes that are not assigned for good
OPEN = (127, 129, 141, 143, 144, 157)


def built_in(name):
    t = EncodingDB.get_encoding(name)
    return [t.get(c) for c in range(32, 256) if c not in OPEN]


def code_standard():
    """StandardEncoding, code for code."""
    return built_in('StandardEncoding')


def ref_standard():
    return [
        ' ', '!', '"', '#', '$', '%', '&', '\u2019', '(', ')', '*', '+', ',', '-', '.', '/',
        '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', ':', ';', '<', '=', '>', '?',
        '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O',
        'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '[', '\\', ']', '^', '_',
        '\u2018', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o',
        'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '{', '|', '}', '~', None,
        None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None,
        None, None, None, None, None, None, None, None, None, None, None, '\xa1', '\xa2', '\xa3', '\u2044', '\xa5',
        '\u0192', '\xa7', '\xa4', "'", '\u201c', '\xab', '\u2039', '\u203a', '\ufb01', '\ufb02', None, '\u2013', '\u2020', '\u2021', '\xb7', None,
        '\xb6', '\u2022', '\u201a', '\u201e', '\u201d', '\xbb', '\u2026', '\u2030', None, '\xbf', None, '`', '\xb4', '\u02c6', '\u02dc', '\xaf',
        '\u02d8', '\u02d9', '\xa8', None, '\u02da', '\xb8', None, '\u02dd', '\u02db', '\u02c7', '\u2014', None, None, None, None, None,
        None, None, None, None, None, None, None, None, None, None, None, '\xc6', None, '\xaa', None, None,
        None, None, '\u0141', '\xd8', '\u0152', '\xba', None, None, None, None, None, '\xe6', None, None, None, '\u0131',
        None, None, '\u0142', '\xf8', '\u0153', '\xdf', None, None, None, None]


def code_mac():
    """MacRomanEncoding, code for code."""
    return built_in('MacRomanEncoding')


def ref_mac():
    return [
        ' ', '!', '"', '#', '$', '%', '&', "'", '(', ')', '*', '+', ',', '-', '.', '/',
        '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', ':', ';', '<', '=', '>', '?',
        '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O',
        'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '[', '\\', ']', '^', '_',
        '`', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o',
        'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '{', '|', '}', '~', '\xc4',
        '\xc7', '\xc9', '\xd1', '\xd6', '\xdc', '\xe1', '\xe0', '\xe2', '\xe4', '\xe3', '\xe5', '\xe9', '\xeb', '\xed', '\xec', '\xee',
        '\xef', '\xf1', '\xf3', '\xf2', '\xf4', '\xf6', '\xf5', '\xfa', '\xfb', '\xfc', '\u2020', '\xb0', '\xa2', '\xa3', '\xa7', '\u2022',
        '\xb6', '\xdf', '\xae', '\xa9', '\u2122', '\xb4', '\xa8', None, '\xc6', '\xd8', None, '\xb1', None, None, '\xa5', '\xb5',
        None, None, None, None, None, '\xaa', '\xba', None, '\xe6', '\xf8', '\xbf', '\xa1', '\xac', None, '\u0192', None,
        None, '\xab', '\xbb', '\u2026', ' ', '\xc0', '\xc3', '\xd5', '\u0152', '\u0153', '\u2013', '\u2014', '\u201c', '\u201d', '\u2018', '\u2019',
        '\xf7', None, '\xff', '\u0178', '\u2044', '\xa4', '\u2039', '\u203a', '\ufb01', '\ufb02', '\u2021', '\xb7', '\u201a', '\u201e', '\u2030', '\xc2',
        '\xca', '\xc1', '\xcb', '\xc8', '\xcd', '\xce', '\xcf', '\xcc', '\xd3', '\xd4', None, '\xd2', '\xda', '\xdb', '\xd9', '\u0131',
        '\u02c6', '\u02dc', '\xaf', '\u02d8', '\u02d9', '\u02da', '\xb8', '\u02dd', '\u02db', '\u02c7']


def code_win():
    """WinAnsiEncoding, code for code."""
    return built_in('WinAnsiEncoding')


def ref_win():
    return [
        ' ', '!', '"', '#', '$', '%', '&', "'", '(', ')', '*', '+', ',', '-', '.', '/',
        '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', ':', ';', '<', '=', '>', '?',
        '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O',
        'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '[', '\\', ']', '^', '_',
        '`', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o',
        'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '{', '|', '}', '~', '\u20ac',
        '\u201a', '\u0192', '\u201e', '\u2026', '\u2020', '\u2021', '\u02c6', '\u2030', '\u0160', '\u2039', '\u0152', '\u017d', '\u2018', '\u2019', '\u201c', '\u201d',
        '\u2022', '\u2013', '\u2014', '\u02dc', '\u2122', '\u0161', '\u203a', '\u0153', '\u017e', '\u0178', ' ', '\xa1', '\xa2', '\xa3', '\xa4', '\xa5',
        '\xa6', '\xa7', '\xa8', '\xa9', '\xaa', '\xab', '\xac', '-', '\xae', '\xaf', '\xb0', '\xb1', '\xb2', '\xb3', '\xb4', '\xb5',
        '\xb6', '\xb7', '\xb8', '\xb9', '\xba', '\xbb', '\xbc', '\xbd', '\xbe', '\xbf', '\xc0', '\xc1', '\xc2', '\xc3', '\xc4', '\xc5',
        '\xc6', '\xc7', '\xc8', '\xc9', '\xca', '\xcb', '\xcc', '\xcd', '\xce', '\xcf', '\xd0', '\xd1', '\xd2', '\xd3', '\xd4', '\xd5',
        '\xd6', '\xd7', '\xd8', '\xd9', '\xda', '\xdb', '\xdc', '\xdd', '\xde', '\xdf', '\xe0', '\xe1', '\xe2', '\xe3', '\xe4', '\xe5',
        '\xe6', '\xe7', '\xe8', '\xe9', '\xea', '\xeb', '\xec', '\xed', '\xee', '\xef', '\xf0', '\xf1', '\xf2', '\xf3', '\xf4', '\xf5',
        '\xf6', '\xf7', '\xf8', '\xf9', '\xfa', '\xfb', '\xfc', '\xfd', '\xfe', '\xff']


def code_pdf():
    """PDFDocEncoding, code for code."""
    t = EncodingDB.get_encoding('PDFDocEncoding')
    return [t.get(c) for c in range(24, 256) if c not in (127, 159, 173)]


def document_encoding():
    return [
        '\u02d8', '\u02c7', '\u02c6', '\u02d9', '\u02dd', '\u02db', '\u02da', '\u02dc', ' ', '!', '"', '#', '$', '%', '&', "'",
        '(', ')', '*', '+', ',', '-', '.', '/', '0', '1', '2', '3', '4', '5', '6', '7',
        '8', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G',
        'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W',
        'X', 'Y', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'b', 'c', 'd', 'e', 'f', 'g',
        'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w',
        'x', 'y', 'z', '{', '|', '}', '~', '\u2022', '\u2020', '\u2021', '\u2026', '\u2014', '\u2013', '\u0192', '\u2044', '\u2039',
        '\u203a', '\u2212', '\u2030', '\u201e', '\u201c', '\u201d', '\u2018', '\u2019', '\u201a', '\u2122', '\ufb01', '\ufb02', '\u0141', '\u0152', '\u0160', '\u0178',
        '\u017d', '\u0131', '\u0142', '\u0153', '\u0161', '\u017e', '\u20ac', '\xa1', '\xa2', '\xa3', '\xa4', '\xa5', '\xa6', '\xa7', '\xa8', '\xa9',
        '\xaa', '\xab', '\xac', '\xae', '\xaf', '\xb0', '\xb1', '\xb2', '\xb3', '\xb4', '\xb5', '\xb6', '\xb7', '\xb8', '\xb9', '\xba',
        '\xbb', '\xbc', '\xbd', '\xbe', '\xbf', '\xc0', '\xc1', '\xc2', '\xc3', '\xc4', '\xc5', '\xc6', '\xc7', '\xc8', '\xc9', '\xca',
        '\xcb', '\xcc', '\xcd', '\xce', '\xcf', '\xd0', '\xd1', '\xd2', '\xd3', '\xd4', '\xd5', '\xd6', '\xd7', '\xd8', '\xd9', '\xda',
        '\xdb', '\xdc', '\xdd', '\xde', '\xdf', '\xe0', '\xe1', '\xe2', '\xe3', '\xe4', '\xe5', '\xe6', '\xe7', '\xe8', '\xe9', '\xea',
        '\xeb', '\xec', '\xed', '\xee', '\xef', '\xf0', '\xf1', '\xf2', '\xf3', '\xf4', '\xf5', '\xf6', '\xf7', '\xf8', '\xf9', '\xfa',
        '\xfb', '\xfc', '\xfd', '\xfe', '\xff']


def ref_pdf():
    return document_encoding()


def code_text():
    """Text strings without a byte order mark: each byte alone."""
    return [decode_text(bytes([c])) for c in range(24, 256) if c not in (127, 159, 173)]


def ref_text():
    return document_encoding()


def glyph(name):
    try:
        return name2unicode(name)
    except KeyError:
        return None


def code_glyphs1():
    """Glyph names whose characters follow from the names that Unicode gives to characters: A to Gjecyrillic."""
    return [glyph(n) for n in [
        'A', 'AE', 'Aacute', 'Abreve', 'Acaron', 'Acircle', 'Acircumflex', 'Adblgrave', 'Adieresis', 'Adotbelow',
        'Agrave', 'Ahookabove', 'Ainvertedbreve', 'Alpha', 'Amacron', 'Amonospace', 'Aogonek', 'Aring', 'Aringbelow', 'Atilde',
        'Aybarmenian', 'B', 'Bcircle', 'Bdotaccent', 'Bdotbelow', 'Becyrillic', 'Benarmenian', 'Beta', 'Bhook', 'Blinebelow',
        'Bmonospace', 'Btopbar', 'C', 'Caarmenian', 'Cacute', 'Ccaron', 'Ccedilla', 'Ccircle', 'Ccircumflex', 'Cdotaccent',
        'Chaarmenian', 'Checyrillic', 'Cheharmenian', 'Chi', 'Chook', 'Cmonospace', 'Coarmenian', 'D', 'Daarmenian', 'Dcaron',
        'Dcedilla', 'Dcircle', 'Dcircumflexbelow', 'Ddotaccent', 'Ddotbelow', 'Decyrillic', 'Delta', 'Dhook', 'Djecyrillic', 'Dlinebelow',
        'Dmonospace', 'Dtopbar', 'Dzecyrillic', 'Dzhecyrillic', 'E', 'Eacute', 'Ebreve', 'Ecaron', 'Echarmenian', 'Ecircle',
        'Ecircumflex', 'Ecircumflexbelow', 'Edblgrave', 'Edieresis', 'Edotaccent', 'Edotbelow', 'Efcyrillic', 'Egrave', 'Eharmenian', 'Ehookabove',
        'Eightroman', 'Einvertedbreve', 'Elcyrillic', 'Emacron', 'Emcyrillic', 'Emonospace', 'Encyrillic', 'Eogonek', 'Epsilon', 'Ercyrillic',
        'Escyrillic', 'Eta', 'Etarmenian', 'Eth', 'Etilde', 'Etildebelow', 'Euro', 'F', 'Fcircle', 'Fdotaccent',
        'Feharmenian', 'Fhook', 'Fitacyrillic', 'Fiveroman', 'Fmonospace', 'Fourroman', 'G', 'Gacute', 'Gamma', 'Gbreve',
        'Gcaron', 'Gcedilla', 'Gcircle', 'Gcircumflex', 'Gcommaaccent', 'Gdotaccent', 'Ghadarmenian', 'Ghook', 'Gimarmenian', 'Gjecyrillic']]


def ref_glyphs1():
    return [
        'A', '\xc6', '\xc1', '\u0102', '\u01cd', '\u24b6', '\xc2', '\u0200', '\xc4', '\u1ea0', '\xc0', '\u1ea2', '\u0202', '\u0391', '\u0100', '\uff21',
        '\u0104', '\xc5', '\u1e00', '\xc3', '\u0531', 'B', '\u24b7', '\u1e02', '\u1e04', '\u0411', '\u0532', '\u0392', '\u0181', '\u1e06', '\uff22', '\u0182',
        'C', '\u053e', '\u0106', '\u010c', '\xc7', '\u24b8', '\u0108', '\u010a', '\u0549', '\u0427', '\u0543', '\u03a7', '\u0187', '\uff23', '\u0551', 'D',
        '\u0534', '\u010e', '\u1e10', '\u24b9', '\u1e12', '\u1e0a', '\u1e0c', '\u0414', '\u2206', '\u018a', '\u0402', '\u1e0e', '\uff24', '\u018b', '\u0405', '\u040f',
        'E', '\xc9', '\u0114', '\u011a', '\u0535', '\u24ba', '\xca', '\u1e18', '\u0204', '\xcb', '\u0116', '\u1eb8', '\u0424', '\xc8', '\u0537', '\u1eba',
        '\u2167', '\u0206', '\u041b', '\u0112', '\u041c', '\uff25', '\u041d', '\u0118', '\u0395', '\u0420', '\u0421', '\u0397', '\u0538', '\xd0', '\u1ebc', '\u1e1a',
        '\u20ac', 'F', '\u24bb', '\u1e1e', '\u0556', '\u0191', '\u0472', '\u2164', '\uff26', '\u2163', 'G', '\u01f4', '\u0393', '\u011e', '\u01e6', '\u0122',
        '\u24bc', '\u011c', '\u0122', '\u0120', '\u0542', '\u0193', '\u0533', '\u0403']


def code_glyphs2():
    """Glyph names whose characters follow from the names that Unicode gives to characters: Gmacron to Oneroman."""
    return [glyph(n) for n in [
        'Gmacron', 'Gmonospace', 'Gstroke', 'H', 'Hbrevebelow', 'Hcedilla', 'Hcircle', 'Hcircumflex', 'Hdieresis', 'Hdotaccent',
        'Hdotbelow', 'Hmonospace', 'Hoarmenian', 'I', 'Iacute', 'Ibreve', 'Icaron', 'Icircle', 'Icircumflex', 'Idblgrave',
        'Idieresis', 'Idotaccent', 'Idotbelow', 'Iecyrillic', 'Igrave', 'Ihookabove', 'Iinvertedbreve', 'Imacron', 'Imonospace', 'Iniarmenian',
        'Iocyrillic', 'Iogonek', 'Iota', 'Istroke', 'Itilde', 'Itildebelow', 'Izhitsacyrillic', 'J', 'Jaarmenian', 'Jcircle',
        'Jcircumflex', 'Jecyrillic', 'Jheharmenian', 'Jmonospace', 'K', 'Kacute', 'Kacyrillic', 'Kappa', 'Kcaron', 'Kcedilla',
        'Kcircle', 'Kcommaaccent', 'Kdotbelow', 'Keharmenian', 'Kenarmenian', 'Khook', 'Kjecyrillic', 'Klinebelow', 'Kmonospace', 'Koppacyrillic',
        'Ksicyrillic', 'L', 'Lacute', 'Lambda', 'Lcaron', 'Lcedilla', 'Lcircle', 'Lcircumflexbelow', 'Lcommaaccent', 'Ldotbelow',
        'Liwnarmenian', 'Ljecyrillic', 'Llinebelow', 'Lmonospace', 'Lslash', 'M', 'Macute', 'Mcircle', 'Mdotaccent', 'Mdotbelow',
        'Menarmenian', 'Mmonospace', 'N', 'Nacute', 'Ncaron', 'Ncedilla', 'Ncircle', 'Ncircumflexbelow', 'Ncommaaccent', 'Ndotaccent',
        'Ndotbelow', 'Nineroman', 'Njecyrillic', 'Nlinebelow', 'Nmonospace', 'Nowarmenian', 'Ntilde', 'Nu', 'O', 'OE',
        'Oacute', 'Obreve', 'Ocaron', 'Ocircle', 'Ocircumflex', 'Odblgrave', 'Odieresis', 'Odotbelow', 'Ograve', 'Oharmenian',
        'Ohookabove', 'Ohorn', 'Ohungarumlaut', 'Oinvertedbreve', 'Omacron', 'Omega', 'Omegacyrillic', 'Omicron', 'Omonospace', 'Oneroman']]


def ref_glyphs2():
    return [
        '\u1e20', '\uff27', '\u01e4', 'H', '\u1e2a', '\u1e28', '\u24bd', '\u0124', '\u1e26', '\u1e22', '\u1e24', '\uff28', '\u0540', 'I', '\xcd', '\u012c',
        '\u01cf', '\u24be', '\xce', '\u0208', '\xcf', '\u0130', '\u1eca', '\u0415', '\xcc', '\u1ec8', '\u020a', '\u012a', '\uff29', '\u053b', '\u0401', '\u012e',
        '\u0399', '\u0197', '\u0128', '\u1e2c', '\u0474', 'J', '\u0541', '\u24bf', '\u0134', '\u0408', '\u054b', '\uff2a', 'K', '\u1e30', '\u041a', '\u039a',
        '\u01e8', '\u0136', '\u24c0', '\u0136', '\u1e32', '\u0554', '\u053f', '\u0198', '\u040c', '\u1e34', '\uff2b', '\u0480', '\u046e', 'L', '\u0139', '\u039b',
        '\u013d', '\u013b', '\u24c1', '\u1e3c', '\u013b', '\u1e36', '\u053c', '\u0409', '\u1e3a', '\uff2c', '\u0141', 'M', '\u1e3e', '\u24c2', '\u1e40', '\u1e42',
        '\u0544', '\uff2d', 'N', '\u0143', '\u0147', '\u0145', '\u24c3', '\u1e4a', '\u0145', '\u1e44', '\u1e46', '\u2168', '\u040a', '\u1e48', '\uff2e', '\u0546',
        '\xd1', '\u039d', 'O', '\u0152', '\xd3', '\u014e', '\u01d1', '\u24c4', '\xd4', '\u020c', '\xd6', '\u1ecc', '\xd2', '\u0555', '\u1ece', '\u01a0',
        '\u0150', '\u020e', '\u014c', '\u2126', '\u0460', '\u039f', '\uff2f', '\u2160']


def code_glyphs3():
    """Glyph names whose characters follow from the names that Unicode gives to characters: Oogonek to Xdotaccent."""
    return [glyph(n) for n in [
        'Oogonek', 'Oslash', 'Otcyrillic', 'Otilde', 'P', 'Pacute', 'Pcircle', 'Pdotaccent', 'Pecyrillic', 'Peharmenian',
        'Phi', 'Phook', 'Pi', 'Piwrarmenian', 'Pmonospace', 'Psi', 'Psicyrillic', 'Q', 'Qcircle', 'Qmonospace',
        'R', 'Raarmenian', 'Racute', 'Rcaron', 'Rcedilla', 'Rcircle', 'Rcommaaccent', 'Rdblgrave', 'Rdotaccent', 'Rdotbelow',
        'Reharmenian', 'Rho', 'Rinvertedbreve', 'Rlinebelow', 'Rmonospace', 'S', 'Sacute', 'Scaron', 'Scedilla', 'Schwacyrillic',
        'Scircle', 'Scircumflex', 'Sdotaccent', 'Sdotbelow', 'Seharmenian', 'Sevenroman', 'Shaarmenian', 'Shacyrillic', 'Shchacyrillic', 'Shhacyrillic',
        'Sigma', 'Sixroman', 'Smonospace', 'T', 'Tau', 'Tcaron', 'Tcedilla', 'Tcircle', 'Tcircumflexbelow', 'Tcommaaccent',
        'Tdotaccent', 'Tdotbelow', 'Tecyrillic', 'Theta', 'Thook', 'Thorn', 'Threeroman', 'Tiwnarmenian', 'Tlinebelow', 'Tmonospace',
        'Toarmenian', 'Tsecyrillic', 'Tshecyrillic', 'Tworoman', 'U', 'Uacute', 'Ubreve', 'Ucaron', 'Ucircle', 'Ucircumflex',
        'Ucircumflexbelow', 'Udblgrave', 'Udieresis', 'Udieresisbelow', 'Udotbelow', 'Ugrave', 'Uhookabove', 'Uhorn', 'Uhungarumlaut', 'Uinvertedbreve',
        'Ukcyrillic', 'Umacron', 'Umonospace', 'Uogonek', 'Upsilon', 'Uring', 'Utilde', 'Utildebelow', 'V', 'Vcircle',
        'Vdotbelow', 'Vecyrillic', 'Vewarmenian', 'Vhook', 'Vmonospace', 'Voarmenian', 'Vtilde', 'W', 'Wacute', 'Wcircle',
        'Wcircumflex', 'Wdieresis', 'Wdotaccent', 'Wdotbelow', 'Wgrave', 'Wmonospace', 'X', 'Xcircle', 'Xdieresis', 'Xdotaccent']]


def ref_glyphs3():
    return [
        '\u01ea', '\xd8', '\u047e', '\xd5', 'P', '\u1e54', '\u24c5', '\u1e56', '\u041f', '\u054a', '\u03a6', '\u01a4', '\u03a0', '\u0553', '\uff30', '\u03a8',
        '\u0470', 'Q', '\u24c6', '\uff31', 'R', '\u054c', '\u0154', '\u0158', '\u0156', '\u24c7', '\u0156', '\u0210', '\u1e58', '\u1e5a', '\u0550', '\u03a1',
        '\u0212', '\u1e5e', '\uff32', 'S', '\u015a', '\u0160', '\u015e', '\u04d8', '\u24c8', '\u015c', '\u1e60', '\u1e62', '\u054d', '\u2166', '\u0547', '\u0428',
        '\u0429', '\u04ba', '\u03a3', '\u2165', '\uff33', 'T', '\u03a4', '\u0164', '\u0162', '\u24c9', '\u1e70', '\u0162', '\u1e6a', '\u1e6c', '\u0422', '\u0398',
        '\u01ac', '\xde', '\u2162', '\u054f', '\u1e6e', '\uff34', '\u0539', '\u0426', '\u040b', '\u2161', 'U', '\xda', '\u016c', '\u01d3', '\u24ca', '\xdb',
        '\u1e76', '\u0214', '\xdc', '\u1e72', '\u1ee4', '\xd9', '\u1ee6', '\u01af', '\u0170', '\u0216', '\u0478', '\u016a', '\uff35', '\u0172', '\u03a5', '\u016e',
        '\u0168', '\u1e74', 'V', '\u24cb', '\u1e7e', '\u0412', '\u054e', '\u01b2', '\uff36', '\u0548', '\u1e7c', 'W', '\u1e82', '\u24cc', '\u0174', '\u1e84',
        '\u1e86', '\u1e88', '\u1e80', '\uff37', 'X', '\u24cd', '\u1e8c', '\u1e8a']


def code_glyphs4():
    """Glyph names whose characters follow from the names that Unicode gives to characters: Xeharmenian to bdotaccent."""
    return [glyph(n) for n in [
        'Xeharmenian', 'Xi', 'Xmonospace', 'Y', 'Yacute', 'Yatcyrillic', 'Ycircle', 'Ycircumflex', 'Ydieresis', 'Ydotaccent',
        'Ydotbelow', 'Ygrave', 'Yhook', 'Yhookabove', 'Yiarmenian', 'Yicyrillic', 'Yiwnarmenian', 'Ymonospace', 'Ytilde', 'Z',
        'Zaarmenian', 'Zacute', 'Zcaron', 'Zcircle', 'Zcircumflex', 'Zdotaccent', 'Zdotbelow', 'Zecyrillic', 'Zeta', 'Zhearmenian',
        'Zhecyrillic', 'Zlinebelow', 'Zmonospace', 'Zstroke', 'a', 'aabengali', 'aacute', 'aadeva', 'aagujarati', 'aagurmukhi',
        'aavowelsignbengali', 'aavowelsigndeva', 'aavowelsigngujarati', 'abengali', 'abopomofo', 'abreve', 'acaron', 'acircle', 'acircumflex', 'acyrillic',
        'adblgrave', 'adeva', 'adieresis', 'adotbelow', 'ae', 'agrave', 'agujarati', 'agurmukhi', 'ahiragana', 'ahookabove',
        'aibengali', 'aibopomofo', 'aideva', 'aigujarati', 'aigurmukhi', 'ainarabic', 'ainfinalarabic', 'aininitialarabic', 'ainmedialarabic', 'ainvertedbreve',
        'aivowelsignbengali', 'aivowelsigndeva', 'aivowelsigngujarati', 'akatakana', 'alefarabic', 'aleffinalarabic', 'alefhebrew', 'alpha', 'amacron', 'amonospace',
        'ampersand', 'anbopomofo', 'angbopomofo', 'anusvarabengali', 'anusvaradeva', 'anusvaragujarati', 'aogonek', 'approxequal', 'aring', 'aringbelow',
        'asciicircum', 'asciitilde', 'asmallhiragana', 'asmallkatakana', 'asterisk', 'at', 'atilde', 'aubengali', 'aubopomofo', 'audeva',
        'augujarati', 'augurmukhi', 'auvowelsignbengali', 'auvowelsigndeva', 'auvowelsigngujarati', 'avagrahadeva', 'aybarmenian', 'ayinhebrew', 'b', 'babengali',
        'backslash', 'badeva', 'bagujarati', 'bagurmukhi', 'bahiragana', 'bakatakana', 'bar', 'bbopomofo', 'bcircle', 'bdotaccent']]


def ref_glyphs4():
    return [
        '\u053d', '\u039e', '\uff38', 'Y', '\xdd', '\u0462', '\u24ce', '\u0176', '\u0178', '\u1e8e', '\u1ef4', '\u1ef2', '\u01b3', '\u1ef6', '\u0545', '\u0407',
        '\u0552', '\uff39', '\u1ef8', 'Z', '\u0536', '\u0179', '\u017d', '\u24cf', '\u1e90', '\u017b', '\u1e92', '\u0417', '\u0396', '\u053a', '\u0416', '\u1e94',
        '\uff3a', '\u01b5', 'a', '\u0986', '\xe1', '\u0906', '\u0a86', '\u0a06', '\u09be', '\u093e', '\u0abe', '\u0985', '\u311a', '\u0103', '\u01ce', '\u24d0',
        '\xe2', '\u0430', '\u0201', '\u0905', '\xe4', '\u1ea1', '\xe6', '\xe0', '\u0a85', '\u0a05', '\u3042', '\u1ea3', '\u0990', '\u311e', '\u0910', '\u0a90',
        '\u0a10', '\u0639', '\ufeca', '\ufecb', '\ufecc', '\u0203', '\u09c8', '\u0948', '\u0ac8', '\u30a2', '\u0627', '\ufe8e', '\u05d0', '\u03b1', '\u0101', '\uff41',
        '&', '\u3122', '\u3124', '\u0982', '\u0902', '\u0a82', '\u0105', '\u2248', '\xe5', '\u1e01', '^', '~', '\u3041', '\u30a1', '*', '@',
        '\xe3', '\u0994', '\u3120', '\u0914', '\u0a94', '\u0a14', '\u09cc', '\u094c', '\u0acc', '\u093d', '\u0561', '\u05e2', 'b', '\u09ac', '\\', '\u092c',
        '\u0aac', '\u0a2c', '\u3070', '\u30d0', '|', '\u3105', '\u24d1', '\u1e03']


def code_glyphs5():
    """Glyph names whose characters follow from the names that Unicode gives to characters: bdotbelow to dtopbar."""
    return [glyph(n) for n in [
        'bdotbelow', 'becyrillic', 'beharabic', 'behfinalarabic', 'behinitialarabic', 'behiragana', 'behmedialarabic', 'bekatakana', 'benarmenian', 'beta',
        'bethebrew', 'bhabengali', 'bhadeva', 'bhagujarati', 'bhagurmukhi', 'bhook', 'bihiragana', 'bikatakana', 'bindigurmukhi', 'blinebelow',
        'bmonospace', 'bohiragana', 'bokatakana', 'braceleft', 'braceright', 'bracketleft', 'bracketright', 'bstroke', 'btopbar', 'buhiragana',
        'bukatakana', 'bullet', 'c', 'caarmenian', 'cabengali', 'cacute', 'cadeva', 'cagujarati', 'cagurmukhi', 'candrabindubengali',
        'candrabindudeva', 'candrabindugujarati', 'cbopomofo', 'ccaron', 'ccedilla', 'ccircle', 'ccircumflex', 'cdotaccent', 'cent', 'chaarmenian',
        'chabengali', 'chadeva', 'chagujarati', 'chagurmukhi', 'chbopomofo', 'checyrillic', 'cheharmenian', 'chi', 'chook', 'cmonospace',
        'coarmenian', 'colon', 'comma', 'copyright', 'currency', 'd', 'daarmenian', 'dabengali', 'dadarabic', 'dadeva',
        'dadfinalarabic', 'dadinitialarabic', 'dadmedialarabic', 'dagger', 'daggerdbl', 'dagujarati', 'dagurmukhi', 'dahiragana', 'dakatakana', 'dalarabic',
        'dalethebrew', 'dalfinalarabic', 'dbopomofo', 'dcaron', 'dcedilla', 'dcircle', 'dcircumflexbelow', 'ddabengali', 'ddadeva', 'ddagujarati',
        'ddagurmukhi', 'ddalarabic', 'ddalfinalarabic', 'dddhadeva', 'ddhabengali', 'ddhadeva', 'ddhagujarati', 'ddhagurmukhi', 'ddotaccent', 'ddotbelow',
        'decyrillic', 'degree', 'dehiragana', 'dekatakana', 'dhabengali', 'dhadeva', 'dhagujarati', 'dhagurmukhi', 'dhook', 'dihiragana',
        'dikatakana', 'divide', 'djecyrillic', 'dlinebelow', 'dmonospace', 'dohiragana', 'dokatakana', 'dollar', 'dotlessi', 'dtopbar']]


def ref_glyphs5():
    return [
        '\u1e05', '\u0431', '\u0628', '\ufe90', '\ufe91', '\u3079', '\ufe92', '\u30d9', '\u0562', '\u03b2', '\u05d1', '\u09ad', '\u092d', '\u0aad', '\u0a2d', '\u0253',
        '\u3073', '\u30d3', '\u0a02', '\u1e07', '\uff42', '\u307c', '\u30dc', '{', '}', '[', ']', '\u0180', '\u0183', '\u3076', '\u30d6', '\u2022',
        'c', '\u056e', '\u099a', '\u0107', '\u091a', '\u0a9a', '\u0a1a', '\u0981', '\u0901', '\u0a81', '\u3118', '\u010d', '\xe7', '\u24d2', '\u0109', '\u010b',
        '\xa2', '\u0579', '\u099b', '\u091b', '\u0a9b', '\u0a1b', '\u3114', '\u0447', '\u0573', '\u03c7', '\u0188', '\uff43', '\u0581', ':', ',', '\xa9',
        '\xa4', 'd', '\u0564', '\u09a6', '\u0636', '\u0926', '\ufebe', '\ufebf', '\ufec0', '\u2020', '\u2021', '\u0aa6', '\u0a26', '\u3060', '\u30c0', '\u062f',
        '\u05d3', '\ufeaa', '\u3109', '\u010f', '\u1e11', '\u24d3', '\u1e13', '\u09a1', '\u0921', '\u0aa1', '\u0a21', '\u0688', '\ufb89', '\u095c', '\u09a2', '\u0922',
        '\u0aa2', '\u0a22', '\u1e0b', '\u1e0d', '\u0434', '\xb0', '\u3067', '\u30c7', '\u09a7', '\u0927', '\u0aa7', '\u0a27', '\u0257', '\u3062', '\u30c2', '\xf7',
        '\u0452', '\u1e0f', '\uff44', '\u3069', '\u30c9', '$', '\u0131', '\u018c']


def code_glyphs6():
    """Glyph names whose characters follow from the names that Unicode gives to characters: duhiragana to gabengali."""
    return [glyph(n) for n in [
        'duhiragana', 'dukatakana', 'dzecyrillic', 'dzhecyrillic', 'e', 'eacute', 'ebengali', 'ebopomofo', 'ebreve', 'ecaron',
        'echarmenian', 'ecircle', 'ecircumflex', 'ecircumflexbelow', 'edblgrave', 'edeva', 'edieresis', 'edotaccent', 'edotbelow', 'eegurmukhi',
        'efcyrillic', 'egrave', 'egujarati', 'eharmenian', 'ehbopomofo', 'ehiragana', 'ehookabove', 'eibopomofo', 'eight', 'eightarabic',
        'eightbengali', 'eightcircle', 'eightdeva', 'eightgujarati', 'eightgurmukhi', 'eightinferior', 'eightmonospace', 'eightperiod', 'eightpersian', 'eightroman',
        'eightsuperior', 'eightthai', 'einvertedbreve', 'ekatakana', 'elcyrillic', 'ellipsis', 'emacron', 'emcyrillic', 'emdash', 'emonospace',
        'enbopomofo', 'encyrillic', 'endash', 'engbopomofo', 'eogonek', 'epsilon', 'equal', 'erbopomofo', 'ercyrillic', 'escyrillic',
        'esmallhiragana', 'esmallkatakana', 'eta', 'etarmenian', 'eth', 'etilde', 'etildebelow', 'evowelsignbengali', 'evowelsigndeva', 'evowelsigngujarati',
        'exclam', 'f', 'fadeva', 'fagurmukhi', 'fbopomofo', 'fcircle', 'fdotaccent', 'feharabic', 'feharmenian', 'fehfinalarabic',
        'fehinitialarabic', 'fehmedialarabic', 'ff', 'ffi', 'ffl', 'fi', 'fitacyrillic', 'five', 'fivearabic', 'fivebengali',
        'fivecircle', 'fivedeva', 'fivegujarati', 'fivegurmukhi', 'fiveinferior', 'fivemonospace', 'fiveperiod', 'fivepersian', 'fiveroman', 'fivesuperior',
        'fivethai', 'fl', 'florin', 'fmonospace', 'four', 'fourarabic', 'fourbengali', 'fourcircle', 'fourdeva', 'fourgujarati',
        'fourgurmukhi', 'fourinferior', 'fourmonospace', 'fourperiod', 'fourpersian', 'fourroman', 'foursuperior', 'fourthai', 'g', 'gabengali']]


def ref_glyphs6():
    return [
        '\u3065', '\u30c5', '\u0455', '\u045f', 'e', '\xe9', '\u098f', '\u311c', '\u0115', '\u011b', '\u0565', '\u24d4', '\xea', '\u1e19', '\u0205', '\u090f',
        '\xeb', '\u0117', '\u1eb9', '\u0a0f', '\u0444', '\xe8', '\u0a8f', '\u0567', '\u311d', '\u3048', '\u1ebb', '\u311f', '8', '\u0668', '\u09ee', '\u2467',
        '\u096e', '\u0aee', '\u0a6e', '\u2088', '\uff18', '\u248f', '\u06f8', '\u2177', '\u2078', '\u0e58', '\u0207', '\u30a8', '\u043b', '\u2026', '\u0113', '\u043c',
        '\u2014', '\uff45', '\u3123', '\u043d', '\u2013', '\u3125', '\u0119', '\u03b5', '=', '\u3126', '\u0440', '\u0441', '\u3047', '\u30a7', '\u03b7', '\u0568',
        '\xf0', '\u1ebd', '\u1e1b', '\u09c7', '\u0947', '\u0ac7', '!', 'f', '\u095e', '\u0a5e', '\u3108', '\u24d5', '\u1e1f', '\u0641', '\u0586', '\ufed2',
        '\ufed3', '\ufed4', '\ufb00', '\ufb03', '\ufb04', '\ufb01', '\u0473', '5', '\u0665', '\u09eb', '\u2464', '\u096b', '\u0aeb', '\u0a6b', '\u2085', '\uff15',
        '\u248c', '\u06f5', '\u2174', '\u2075', '\u0e55', '\ufb02', '\u0192', '\uff46', '4', '\u0664', '\u09ea', '\u2463', '\u096a', '\u0aea', '\u0a6a', '\u2084',
        '\uff14', '\u248b', '\u06f4', '\u2173', '\u2074', '\u0e54', 'g', '\u0997']


def code_glyphs7():
    """Glyph names whose characters follow from the names that Unicode gives to characters: gacute to infinity."""
    return [glyph(n) for n in [
        'gacute', 'gadeva', 'gafarabic', 'gaffinalarabic', 'gafinitialarabic', 'gafmedialarabic', 'gagujarati', 'gagurmukhi', 'gahiragana', 'gakatakana',
        'gamma', 'gbopomofo', 'gbreve', 'gcaron', 'gcedilla', 'gcircle', 'gcircumflex', 'gcommaaccent', 'gdotaccent', 'gehiragana',
        'gekatakana', 'germandbls', 'ghabengali', 'ghadarmenian', 'ghadeva', 'ghagujarati', 'ghagurmukhi', 'ghainarabic', 'ghainfinalarabic', 'ghaininitialarabic',
        'ghainmedialarabic', 'ghhadeva', 'ghhagurmukhi', 'ghook', 'gihiragana', 'gikatakana', 'gimarmenian', 'gimelhebrew', 'gjecyrillic', 'gmacron',
        'gmonospace', 'gohiragana', 'gokatakana', 'grave', 'greater', 'greaterequal', 'gstroke', 'guhiragana', 'gukatakana', 'h',
        'habengali', 'hadeva', 'hagujarati', 'hagurmukhi', 'haharabic', 'hahfinalarabic', 'hahinitialarabic', 'hahiragana', 'hahmedialarabic', 'hakatakana',
        'hamzaarabic', 'hbopomofo', 'hbrevebelow', 'hcedilla', 'hcircle', 'hcircumflex', 'hdieresis', 'hdotaccent', 'hdotbelow', 'heharabic',
        'hehebrew', 'hehfinalarabic', 'hehinitialarabic', 'hehiragana', 'hehmedialarabic', 'hekatakana', 'hethebrew', 'hhook', 'hihiragana', 'hikatakana',
        'hiriqhebrew', 'hlinebelow', 'hmonospace', 'hoarmenian', 'hohiragana', 'hokatakana', 'holamhebrew', 'huhiragana', 'hukatakana', 'hyphen',
        'i', 'iacute', 'ibengali', 'ibopomofo', 'ibreve', 'icaron', 'icircle', 'icircumflex', 'idblgrave', 'ideva',
        'idieresis', 'idotbelow', 'iecyrillic', 'igrave', 'igujarati', 'igurmukhi', 'ihiragana', 'ihookabove', 'iibengali', 'iideva',
        'iigujarati', 'iigurmukhi', 'iinvertedbreve', 'iivowelsignbengali', 'iivowelsigndeva', 'iivowelsigngujarati', 'ikatakana', 'imacron', 'imonospace', 'infinity']]


def ref_glyphs7():
    return [
        '\u01f5', '\u0917', '\u06af', '\ufb93', '\ufb94', '\ufb95', '\u0a97', '\u0a17', '\u304c', '\u30ac', '\u03b3', '\u310d', '\u011f', '\u01e7', '\u0123', '\u24d6',
        '\u011d', '\u0123', '\u0121', '\u3052', '\u30b2', '\xdf', '\u0998', '\u0572', '\u0918', '\u0a98', '\u0a18', '\u063a', '\ufece', '\ufecf', '\ufed0', '\u095a',
        '\u0a5a', '\u0260', '\u304e', '\u30ae', '\u0563', '\u05d2', '\u0453', '\u1e21', '\uff47', '\u3054', '\u30b4', '`', '>', '\u2265', '\u01e5', '\u3050',
        '\u30b0', 'h', '\u09b9', '\u0939', '\u0ab9', '\u0a39', '\u062d', '\ufea2', '\ufea3', '\u306f', '\ufea4', '\u30cf', '\u0621', '\u310f', '\u1e2b', '\u1e29',
        '\u24d7', '\u0125', '\u1e27', '\u1e23', '\u1e25', '\u0647', '\u05d4', '\ufeea', '\ufeeb', '\u3078', '\ufeec', '\u30d8', '\u05d7', '\u0266', '\u3072', '\u30d2',
        '\u05b4', '\u1e96', '\uff48', '\u0570', '\u307b', '\u30db', '\u05b9', '\u3075', '\u30d5', '-', 'i', '\xed', '\u0987', '\u3127', '\u012d', '\u01d0',
        '\u24d8', '\xee', '\u0209', '\u0907', '\xef', '\u1ecb', '\u0435', '\xec', '\u0a87', '\u0a07', '\u3044', '\u1ec9', '\u0988', '\u0908', '\u0a88', '\u0a08',
        '\u020b', '\u09c0', '\u0940', '\u0ac0', '\u30a4', '\u012b', '\uff49', '\u221e']


def code_glyphs8():
    """Glyph names whose characters follow from the names that Unicode gives to characters: iniarmenian to macute."""
    return [glyph(n) for n in [
        'iniarmenian', 'integral', 'iocyrillic', 'iogonek', 'iota', 'ismallhiragana', 'ismallkatakana', 'istroke', 'itilde', 'itildebelow',
        'iubopomofo', 'ivowelsignbengali', 'ivowelsigndeva', 'ivowelsigngujarati', 'izhitsacyrillic', 'j', 'jaarmenian', 'jabengali', 'jadeva', 'jagujarati',
        'jagurmukhi', 'jbopomofo', 'jcaron', 'jcircle', 'jcircumflex', 'jecyrillic', 'jeemarabic', 'jeemfinalarabic', 'jeeminitialarabic', 'jeemmedialarabic',
        'jeharabic', 'jehfinalarabic', 'jhabengali', 'jhadeva', 'jhagujarati', 'jhagurmukhi', 'jheharmenian', 'jmonospace', 'k', 'kabengali',
        'kacute', 'kacyrillic', 'kadeva', 'kafarabic', 'kaffinalarabic', 'kafhebrew', 'kafinitialarabic', 'kafmedialarabic', 'kagujarati', 'kagurmukhi',
        'kahiragana', 'kakatakana', 'kappa', 'kasmallkatakana', 'kbopomofo', 'kcaron', 'kcedilla', 'kcircle', 'kcommaaccent', 'kdotbelow',
        'keharmenian', 'kehiragana', 'kekatakana', 'kenarmenian', 'kesmallkatakana', 'khabengali', 'khadeva', 'khagujarati', 'khagurmukhi', 'khaharabic',
        'khahfinalarabic', 'khahinitialarabic', 'khahmedialarabic', 'khhadeva', 'khhagurmukhi', 'khook', 'kihiragana', 'kikatakana', 'kjecyrillic', 'klinebelow',
        'kmonospace', 'kohiragana', 'kokatakana', 'koppacyrillic', 'ksicyrillic', 'kuhiragana', 'kukatakana', 'l', 'labengali', 'lacute',
        'ladeva', 'lagujarati', 'lagurmukhi', 'lamarabic', 'lambda', 'lamedhebrew', 'lamfinalarabic', 'laminitialarabic', 'lammedialarabic', 'lbopomofo',
        'lcaron', 'lcedilla', 'lcircle', 'lcircumflexbelow', 'lcommaaccent', 'ldotbelow', 'less', 'lessequal', 'liwnarmenian', 'ljecyrillic',
        'lladeva', 'llagujarati', 'llinebelow', 'llladeva', 'lmonospace', 'lozenge', 'lslash', 'm', 'mabengali', 'macute']]


def ref_glyphs8():
    return [
        '\u056b', '\u222b', '\u0451', '\u012f', '\u03b9', '\u3043', '\u30a3', '\u0268', '\u0129', '\u1e2d', '\u3129', '\u09bf', '\u093f', '\u0abf', '\u0475', 'j',
        '\u0571', '\u099c', '\u091c', '\u0a9c', '\u0a1c', '\u3110', '\u01f0', '\u24d9', '\u0135', '\u0458', '\u062c', '\ufe9e', '\ufe9f', '\ufea0', '\u0698', '\ufb8b',
        '\u099d', '\u091d', '\u0a9d', '\u0a1d', '\u057b', '\uff4a', 'k', '\u0995', '\u1e31', '\u043a', '\u0915', '\u0643', '\ufeda', '\u05db', '\ufedb', '\ufedc',
        '\u0a95', '\u0a15', '\u304b', '\u30ab', '\u03ba', '\u30f5', '\u310e', '\u01e9', '\u0137', '\u24da', '\u0137', '\u1e33', '\u0584', '\u3051', '\u30b1', '\u056f',
        '\u30f6', '\u0996', '\u0916', '\u0a96', '\u0a16', '\u062e', '\ufea6', '\ufea7', '\ufea8', '\u0959', '\u0a59', '\u0199', '\u304d', '\u30ad', '\u045c', '\u1e35',
        '\uff4b', '\u3053', '\u30b3', '\u0481', '\u046f', '\u304f', '\u30af', 'l', '\u09b2', '\u013a', '\u0932', '\u0ab2', '\u0a32', '\u0644', '\u03bb', '\u05dc',
        '\ufede', '\ufedf', '\ufee0', '\u310c', '\u013e', '\u013c', '\u24db', '\u1e3d', '\u013c', '\u1e37', '<', '\u2264', '\u056c', '\u0459', '\u0933', '\u0ab3',
        '\u1e3b', '\u0934', '\uff4c', '\u25ca', '\u0142', 'm', '\u09ae', '\u1e3f']


def code_glyphs9():
    """Glyph names whose characters follow from the names that Unicode gives to characters: madeva to oinvertedbreve."""
    return [glyph(n) for n in [
        'madeva', 'magujarati', 'magurmukhi', 'mahiragana', 'makatakana', 'mbopomofo', 'mcircle', 'mdotaccent', 'mdotbelow', 'meemarabic',
        'meemfinalarabic', 'meeminitialarabic', 'meemmedialarabic', 'mehiragana', 'mekatakana', 'memhebrew', 'menarmenian', 'mhook', 'mihiragana', 'mikatakana',
        'minus', 'mmonospace', 'mohiragana', 'mokatakana', 'mu', 'muhiragana', 'mukatakana', 'multiply', 'n', 'nabengali',
        'nacute', 'nadeva', 'nagujarati', 'nagurmukhi', 'nahiragana', 'nakatakana', 'nbopomofo', 'ncaron', 'ncedilla', 'ncircle',
        'ncircumflexbelow', 'ncommaaccent', 'ndotaccent', 'ndotbelow', 'nehiragana', 'nekatakana', 'ngabengali', 'ngadeva', 'ngagujarati', 'ngagurmukhi',
        'nhiragana', 'nihiragana', 'nikatakana', 'nine', 'ninearabic', 'ninebengali', 'ninecircle', 'ninedeva', 'ninegujarati', 'ninegurmukhi',
        'nineinferior', 'ninemonospace', 'nineperiod', 'ninepersian', 'nineroman', 'ninesuperior', 'ninethai', 'njecyrillic', 'nkatakana', 'nlinebelow',
        'nmonospace', 'nnabengali', 'nnadeva', 'nnagujarati', 'nnagurmukhi', 'nnnadeva', 'nohiragana', 'nokatakana', 'noonarabic', 'noonfinalarabic',
        'nooninitialarabic', 'noonmedialarabic', 'notequal', 'nowarmenian', 'ntilde', 'nu', 'nuhiragana', 'nukatakana', 'nuktabengali', 'nuktadeva',
        'nuktagujarati', 'nuktagurmukhi', 'numbersign', 'nunhebrew', 'nyabengali', 'nyadeva', 'nyagujarati', 'nyagurmukhi', 'o', 'oacute',
        'obengali', 'obopomofo', 'obreve', 'ocaron', 'ocircle', 'ocircumflex', 'ocyrillic', 'odblgrave', 'odeva', 'odieresis',
        'odotbelow', 'oe', 'ograve', 'ogujarati', 'oharmenian', 'ohiragana', 'ohookabove', 'ohorn', 'ohungarumlaut', 'oinvertedbreve']]


def ref_glyphs9():
    return [
        '\u092e', '\u0aae', '\u0a2e', '\u307e', '\u30de', '\u3107', '\u24dc', '\u1e41', '\u1e43', '\u0645', '\ufee2', '\ufee3', '\ufee4', '\u3081', '\u30e1', '\u05de',
        '\u0574', '\u0271', '\u307f', '\u30df', '\u2212', '\uff4d', '\u3082', '\u30e2', '\xb5', '\u3080', '\u30e0', '\xd7', 'n', '\u09a8', '\u0144', '\u0928',
        '\u0aa8', '\u0a28', '\u306a', '\u30ca', '\u310b', '\u0148', '\u0146', '\u24dd', '\u1e4b', '\u0146', '\u1e45', '\u1e47', '\u306d', '\u30cd', '\u0999', '\u0919',
        '\u0a99', '\u0a19', '\u3093', '\u306b', '\u30cb', '9', '\u0669', '\u09ef', '\u2468', '\u096f', '\u0aef', '\u0a6f', '\u2089', '\uff19', '\u2490', '\u06f9',
        '\u2178', '\u2079', '\u0e59', '\u045a', '\u30f3', '\u1e49', '\uff4e', '\u09a3', '\u0923', '\u0aa3', '\u0a23', '\u0929', '\u306e', '\u30ce', '\u0646', '\ufee6',
        '\ufee7', '\ufee8', '\u2260', '\u0576', '\xf1', '\u03bd', '\u306c', '\u30cc', '\u09bc', '\u093c', '\u0abc', '\u0a3c', '#', '\u05e0', '\u099e', '\u091e',
        '\u0a9e', '\u0a1e', 'o', '\xf3', '\u0993', '\u311b', '\u014f', '\u01d2', '\u24de', '\xf4', '\u043e', '\u020d', '\u0913', '\xf6', '\u1ecd', '\u0153',
        '\xf2', '\u0a93', '\u0585', '\u304a', '\u1ecf', '\u01a1', '\u0151', '\u020f']


def code_glyphs10():
    """Glyph names whose characters follow from the names that Unicode gives to characters: okatakana to rehiragana."""
    return [glyph(n) for n in [
        'okatakana', 'omacron', 'omegacyrillic', 'omicron', 'omonospace', 'one', 'onearabic', 'onebengali', 'onecircle', 'onedeva',
        'onegujarati', 'onegurmukhi', 'oneinferior', 'onemonospace', 'oneperiod', 'onepersian', 'oneroman', 'onesuperior', 'onethai', 'oogonek',
        'oogurmukhi', 'oslash', 'osmallhiragana', 'osmallkatakana', 'otcyrillic', 'otilde', 'oubopomofo', 'ovowelsignbengali', 'ovowelsigndeva', 'ovowelsigngujarati',
        'p', 'pabengali', 'pacute', 'padeva', 'pagujarati', 'pagurmukhi', 'pahiragana', 'pakatakana', 'paragraph', 'parenleft',
        'parenright', 'partialdiff', 'patahhebrew', 'pbopomofo', 'pcircle', 'pdotaccent', 'pecyrillic', 'peharabic', 'peharmenian', 'pehebrew',
        'pehfinalarabic', 'pehinitialarabic', 'pehiragana', 'pehmedialarabic', 'pekatakana', 'percent', 'period', 'phabengali', 'phadeva', 'phagujarati',
        'phagurmukhi', 'phi', 'phook', 'pi', 'pihiragana', 'pikatakana', 'piwrarmenian', 'plus', 'pmonospace', 'pohiragana',
        'pokatakana', 'product', 'psi', 'psicyrillic', 'puhiragana', 'pukatakana', 'q', 'qadeva', 'qafarabic', 'qaffinalarabic',
        'qafinitialarabic', 'qafmedialarabic', 'qamatshebrew', 'qbopomofo', 'qcircle', 'qhook', 'qmonospace', 'qofhebrew', 'qubutshebrew', 'question',
        'quotedbl', 'quotedblleft', 'quotedblright', 'quoteleft', 'quoteright', 'quotesingle', 'r', 'raarmenian', 'rabengali', 'racute',
        'radeva', 'radical', 'rafehebrew', 'ragujarati', 'ragurmukhi', 'rahiragana', 'rakatakana', 'rbopomofo', 'rcaron', 'rcedilla',
        'rcircle', 'rcommaaccent', 'rdblgrave', 'rdotaccent', 'rdotbelow', 'registered', 'reharabic', 'reharmenian', 'rehfinalarabic', 'rehiragana']]


def ref_glyphs10():
    return [
        '\u30aa', '\u014d', '\u0461', '\u03bf', '\uff4f', '1', '\u0661', '\u09e7', '\u2460', '\u0967', '\u0ae7', '\u0a67', '\u2081', '\uff11', '\u2488', '\u06f1',
        '\u2170', '\xb9', '\u0e51', '\u01eb', '\u0a13', '\xf8', '\u3049', '\u30a9', '\u047f', '\xf5', '\u3121', '\u09cb', '\u094b', '\u0acb', 'p', '\u09aa',
        '\u1e55', '\u092a', '\u0aaa', '\u0a2a', '\u3071', '\u30d1', '\xb6', '(', ')', '\u2202', '\u05b7', '\u3106', '\u24df', '\u1e57', '\u043f', '\u067e',
        '\u057a', '\u05e4', '\ufb57', '\ufb58', '\u307a', '\ufb59', '\u30da', '%', '.', '\u09ab', '\u092b', '\u0aab', '\u0a2b', '\u03c6', '\u01a5', '\u03c0',
        '\u3074', '\u30d4', '\u0583', '+', '\uff50', '\u307d', '\u30dd', '\u220f', '\u03c8', '\u0471', '\u3077', '\u30d7', 'q', '\u0958', '\u0642', '\ufed6',
        '\ufed7', '\ufed8', '\u05b8', '\u3111', '\u24e0', '\u02a0', '\uff51', '\u05e7', '\u05bb', '?', '"', '\u201c', '\u201d', '\u2018', '\u2019', "'",
        'r', '\u057c', '\u09b0', '\u0155', '\u0930', '\u221a', '\u05bf', '\u0ab0', '\u0a30', '\u3089', '\u30e9', '\u3116', '\u0159', '\u0157', '\u24e1', '\u0157',
        '\u0211', '\u1e59', '\u1e5b', '\xae', '\u0631', '\u0580', '\ufeae', '\u308c']


def code_glyphs11():
    """Glyph names whose characters follow from the names that Unicode gives to characters: rekatakana to takatakana."""
    return [glyph(n) for n in [
        'rekatakana', 'reshhebrew', 'rhabengali', 'rhadeva', 'rho', 'rihiragana', 'rikatakana', 'rinvertedbreve', 'rlinebelow', 'rmonospace',
        'rohiragana', 'rokatakana', 'rrabengali', 'rradeva', 'rragurmukhi', 'rreharabic', 'rrehfinalarabic', 'ruhiragana', 'rukatakana', 's',
        'sabengali', 'sacute', 'sadarabic', 'sadeva', 'sadfinalarabic', 'sadinitialarabic', 'sadmedialarabic', 'sagujarati', 'sagurmukhi', 'sahiragana',
        'sakatakana', 'samekhhebrew', 'sbopomofo', 'scaron', 'scedilla', 'schwacyrillic', 'scircle', 'scircumflex', 'sdotaccent', 'sdotbelow',
        'section', 'seenarabic', 'seenfinalarabic', 'seeninitialarabic', 'seenmedialarabic', 'segolhebrew', 'seharmenian', 'sehiragana', 'sekatakana', 'semicolon',
        'seven', 'sevenarabic', 'sevenbengali', 'sevencircle', 'sevendeva', 'sevengujarati', 'sevengurmukhi', 'seveninferior', 'sevenmonospace', 'sevenperiod',
        'sevenpersian', 'sevenroman', 'sevensuperior', 'seventhai', 'shaarmenian', 'shabengali', 'shacyrillic', 'shadeva', 'shagujarati', 'shagurmukhi',
        'shbopomofo', 'shchacyrillic', 'sheenarabic', 'sheenfinalarabic', 'sheeninitialarabic', 'sheenmedialarabic', 'shevahebrew', 'shhacyrillic', 'shinhebrew', 'shook',
        'sigma', 'sihiragana', 'sikatakana', 'six', 'sixarabic', 'sixbengali', 'sixcircle', 'sixdeva', 'sixgujarati', 'sixgurmukhi',
        'sixinferior', 'sixmonospace', 'sixperiod', 'sixpersian', 'sixroman', 'sixsuperior', 'sixthai', 'slash', 'smonospace', 'sohiragana',
        'sokatakana', 'space', 'ssabengali', 'ssadeva', 'ssagujarati', 'sterling', 'suhiragana', 'sukatakana', 'summation', 't',
        'tabengali', 'tadeva', 'tagujarati', 'tagurmukhi', 'taharabic', 'tahfinalarabic', 'tahinitialarabic', 'tahiragana', 'tahmedialarabic', 'takatakana']]


def ref_glyphs11():
    return [
        '\u30ec', '\u05e8', '\u09dd', '\u095d', '\u03c1', '\u308a', '\u30ea', '\u0213', '\u1e5f', '\uff52', '\u308d', '\u30ed', '\u09dc', '\u0931', '\u0a5c', '\u0691',
        '\ufb8d', '\u308b', '\u30eb', 's', '\u09b8', '\u015b', '\u0635', '\u0938', '\ufeba', '\ufebb', '\ufebc', '\u0ab8', '\u0a38', '\u3055', '\u30b5', '\u05e1',
        '\u3119', '\u0161', '\u015f', '\u04d9', '\u24e2', '\u015d', '\u1e61', '\u1e63', '\xa7', '\u0633', '\ufeb2', '\ufeb3', '\ufeb4', '\u05b6', '\u057d', '\u305b',
        '\u30bb', ';', '7', '\u0667', '\u09ed', '\u2466', '\u096d', '\u0aed', '\u0a6d', '\u2087', '\uff17', '\u248e', '\u06f7', '\u2176', '\u2077', '\u0e57',
        '\u0577', '\u09b6', '\u0448', '\u0936', '\u0ab6', '\u0a36', '\u3115', '\u0449', '\u0634', '\ufeb6', '\ufeb7', '\ufeb8', '\u05b0', '\u04bb', '\u05e9', '\u0282',
        '\u03c3', '\u3057', '\u30b7', '6', '\u0666', '\u09ec', '\u2465', '\u096c', '\u0aec', '\u0a6c', '\u2086', '\uff16', '\u248d', '\u06f6', '\u2175', '\u2076',
        '\u0e56', '/', '\uff53', '\u305d', '\u30bd', ' ', '\u09b7', '\u0937', '\u0ab7', '\xa3', '\u3059', '\u30b9', '\u2211', 't', '\u09a4', '\u0924',
        '\u0aa4', '\u0a24', '\u0637', '\ufec2', '\ufec3', '\u305f', '\ufec4', '\u30bf']


def code_glyphs12():
    """Glyph names whose characters follow from the names that Unicode gives to characters: tau to umonospace."""
    return [glyph(n) for n in [
        'tau', 'tavhebrew', 'tbopomofo', 'tcaron', 'tcedilla', 'tcheharabic', 'tchehfinalarabic', 'tchehinitialarabic', 'tchehmedialarabic', 'tcircle',
        'tcircumflexbelow', 'tcommaaccent', 'tdieresis', 'tdotaccent', 'tdotbelow', 'tecyrillic', 'teharabic', 'tehfinalarabic', 'tehinitialarabic', 'tehiragana',
        'tehmedialarabic', 'tekatakana', 'tethebrew', 'thabengali', 'thadeva', 'thagujarati', 'thagurmukhi', 'thalarabic', 'thalfinalarabic', 'theharabic',
        'thehfinalarabic', 'thehinitialarabic', 'thehmedialarabic', 'theta', 'thook', 'thorn', 'three', 'threearabic', 'threebengali', 'threecircle',
        'threedeva', 'threegujarati', 'threegurmukhi', 'threeinferior', 'threemonospace', 'threeperiod', 'threepersian', 'threeroman', 'threesuperior', 'threethai',
        'tihiragana', 'tikatakana', 'tiwnarmenian', 'tlinebelow', 'tmonospace', 'toarmenian', 'tohiragana', 'tokatakana', 'trademark', 'tsadihebrew',
        'tsecyrillic', 'tserehebrew', 'tshecyrillic', 'ttabengali', 'ttadeva', 'ttagujarati', 'ttagurmukhi', 'tteharabic', 'ttehfinalarabic', 'ttehinitialarabic',
        'ttehmedialarabic', 'tthabengali', 'tthadeva', 'tthagujarati', 'tthagurmukhi', 'tuhiragana', 'tukatakana', 'tusmallhiragana', 'tusmallkatakana', 'two',
        'twoarabic', 'twobengali', 'twocircle', 'twodeva', 'twogujarati', 'twogurmukhi', 'twoinferior', 'twomonospace', 'twoperiod', 'twopersian',
        'tworoman', 'twosuperior', 'twothai', 'u', 'uacute', 'ubengali', 'ubopomofo', 'ubreve', 'ucaron', 'ucircle',
        'ucircumflex', 'ucircumflexbelow', 'ucyrillic', 'udblgrave', 'udeva', 'udieresis', 'udieresisbelow', 'udotbelow', 'ugrave', 'ugujarati',
        'ugurmukhi', 'uhiragana', 'uhookabove', 'uhorn', 'uhungarumlaut', 'uinvertedbreve', 'ukatakana', 'ukcyrillic', 'umacron', 'umonospace']]


def ref_glyphs12():
    return [
        '\u03c4', '\u05ea', '\u310a', '\u0165', '\u0163', '\u0686', '\ufb7b', '\ufb7c', '\ufb7d', '\u24e3', '\u1e71', '\u0163', '\u1e97', '\u1e6b', '\u1e6d', '\u0442',
        '\u062a', '\ufe96', '\ufe97', '\u3066', '\ufe98', '\u30c6', '\u05d8', '\u09a5', '\u0925', '\u0aa5', '\u0a25', '\u0630', '\ufeac', '\u062b', '\ufe9a', '\ufe9b',
        '\ufe9c', '\u03b8', '\u01ad', '\xfe', '3', '\u0663', '\u09e9', '\u2462', '\u0969', '\u0ae9', '\u0a69', '\u2083', '\uff13', '\u248a', '\u06f3', '\u2172',
        '\xb3', '\u0e53', '\u3061', '\u30c1', '\u057f', '\u1e6f', '\uff54', '\u0569', '\u3068', '\u30c8', '\u2122', '\u05e6', '\u0446', '\u05b5', '\u045b', '\u099f',
        '\u091f', '\u0a9f', '\u0a1f', '\u0679', '\ufb67', '\ufb68', '\ufb69', '\u09a0', '\u0920', '\u0aa0', '\u0a20', '\u3064', '\u30c4', '\u3063', '\u30c3', '2',
        '\u0662', '\u09e8', '\u2461', '\u0968', '\u0ae8', '\u0a68', '\u2082', '\uff12', '\u2489', '\u06f2', '\u2171', '\xb2', '\u0e52', 'u', '\xfa', '\u0989',
        '\u3128', '\u016d', '\u01d4', '\u24e4', '\xfb', '\u1e77', '\u0443', '\u0215', '\u0909', '\xfc', '\u1e73', '\u1ee5', '\xf9', '\u0a89', '\u0a09', '\u3046',
        '\u1ee7', '\u01b0', '\u0171', '\u0217', '\u30a6', '\u0479', '\u016b', '\uff55']


def code_glyphs13():
    """Glyph names whose characters follow from the names that Unicode gives to characters: underscore to zaarmenian."""
    return [glyph(n) for n in [
        'underscore', 'uogonek', 'upsilon', 'uring', 'usmallhiragana', 'usmallkatakana', 'utilde', 'utildebelow', 'uubengali', 'uudeva',
        'uugujarati', 'uugurmukhi', 'uuvowelsignbengali', 'uuvowelsigndeva', 'uuvowelsigngujarati', 'uvowelsignbengali', 'uvowelsigndeva', 'uvowelsigngujarati', 'v', 'vadeva',
        'vagujarati', 'vagurmukhi', 'vakatakana', 'vavhebrew', 'vcircle', 'vdotbelow', 'vecyrillic', 'veharabic', 'vehfinalarabic', 'vehinitialarabic',
        'vehmedialarabic', 'vekatakana', 'vewarmenian', 'vhook', 'vikatakana', 'viramabengali', 'viramadeva', 'viramagujarati', 'visargabengali', 'visargadeva',
        'visargagujarati', 'vmonospace', 'voarmenian', 'vokatakana', 'vtilde', 'vuhiragana', 'vukatakana', 'w', 'wacute', 'wahiragana',
        'wakatakana', 'wasmallhiragana', 'wasmallkatakana', 'wawarabic', 'wawfinalarabic', 'wcircle', 'wcircumflex', 'wdieresis', 'wdotaccent', 'wdotbelow',
        'wehiragana', 'wekatakana', 'wgrave', 'wihiragana', 'wikatakana', 'wmonospace', 'wohiragana', 'wokatakana', 'wring', 'x',
        'xbopomofo', 'xcircle', 'xdieresis', 'xdotaccent', 'xeharmenian', 'xi', 'xmonospace', 'y', 'yabengali', 'yacute',
        'yadeva', 'yagujarati', 'yagurmukhi', 'yahiragana', 'yakatakana', 'yasmallhiragana', 'yasmallkatakana', 'yatcyrillic', 'ycircle', 'ycircumflex',
        'ydieresis', 'ydotaccent', 'ydotbelow', 'yeharabic', 'yehfinalarabic', 'yehinitialarabic', 'yehmedialarabic', 'yen', 'ygrave', 'yhook',
        'yhookabove', 'yiarmenian', 'yicyrillic', 'yiwnarmenian', 'ymonospace', 'yodhebrew', 'yohiragana', 'yokatakana', 'yosmallhiragana', 'yosmallkatakana',
        'yring', 'ytilde', 'yuhiragana', 'yukatakana', 'yusmallhiragana', 'yusmallkatakana', 'yyabengali', 'yyadeva', 'z', 'zaarmenian']]


def ref_glyphs13():
    return [
        '_', '\u0173', '\u03c5', '\u016f', '\u3045', '\u30a5', '\u0169', '\u1e75', '\u098a', '\u090a', '\u0a8a', '\u0a0a', '\u09c2', '\u0942', '\u0ac2', '\u09c1',
        '\u0941', '\u0ac1', 'v', '\u0935', '\u0ab5', '\u0a35', '\u30f7', '\u05d5', '\u24e5', '\u1e7f', '\u0432', '\u06a4', '\ufb6b', '\ufb6c', '\ufb6d', '\u30f9',
        '\u057e', '\u028b', '\u30f8', '\u09cd', '\u094d', '\u0acd', '\u0983', '\u0903', '\u0a83', '\uff56', '\u0578', '\u30fa', '\u1e7d', '\u3094', '\u30f4', 'w',
        '\u1e83', '\u308f', '\u30ef', '\u308e', '\u30ee', '\u0648', '\ufeee', '\u24e6', '\u0175', '\u1e85', '\u1e87', '\u1e89', '\u3091', '\u30f1', '\u1e81', '\u3090',
        '\u30f0', '\uff57', '\u3092', '\u30f2', '\u1e98', 'x', '\u3112', '\u24e7', '\u1e8d', '\u1e8b', '\u056d', '\u03be', '\uff58', 'y', '\u09af', '\xfd',
        '\u092f', '\u0aaf', '\u0a2f', '\u3084', '\u30e4', '\u3083', '\u30e3', '\u0463', '\u24e8', '\u0177', '\xff', '\u1e8f', '\u1ef5', '\u064a', '\ufef2', '\ufef3',
        '\ufef4', '\xa5', '\u1ef3', '\u01b4', '\u1ef7', '\u0575', '\u0457', '\u0582', '\uff59', '\u05d9', '\u3088', '\u30e8', '\u3087', '\u30e7', '\u1e99', '\u1ef9',
        '\u3086', '\u30e6', '\u3085', '\u30e5', '\u09df', '\u095f', 'z', '\u0566']


def code_glyphs14():
    """Glyph names whose characters follow from the names that Unicode gives to characters: zacute to zukatakana."""
    return [glyph(n) for n in [
        'zacute', 'zadeva', 'zagurmukhi', 'zaharabic', 'zahfinalarabic', 'zahinitialarabic', 'zahiragana', 'zahmedialarabic', 'zainarabic', 'zainfinalarabic',
        'zakatakana', 'zayinhebrew', 'zbopomofo', 'zcaron', 'zcircle', 'zcircumflex', 'zdotaccent', 'zdotbelow', 'zecyrillic', 'zehiragana',
        'zekatakana', 'zero', 'zeroarabic', 'zerobengali', 'zerodeva', 'zerogujarati', 'zerogurmukhi', 'zeroinferior', 'zeromonospace', 'zeropersian',
        'zerosuperior', 'zerothai', 'zeta', 'zhbopomofo', 'zhearmenian', 'zhecyrillic', 'zihiragana', 'zikatakana', 'zlinebelow', 'zmonospace',
        'zohiragana', 'zokatakana', 'zstroke', 'zuhiragana', 'zukatakana']]


def ref_glyphs14():
    return [
        '\u017a', '\u095b', '\u0a5b', '\u0638', '\ufec6', '\ufec7', '\u3056', '\ufec8', '\u0632', '\ufeb0', '\u30b6', '\u05d6', '\u3117', '\u017e', '\u24e9', '\u1e91',
        '\u017c', '\u1e93', '\u0437', '\u305c', '\u30bc', '0', '\u0660', '\u09e6', '\u0966', '\u0ae6', '\u0a66', '\u2080', '\uff10', '\u06f0', '\u2070', '\u0e50',
        '\u03b6', '\u3113', '\u056a', '\u0436', '\u3058', '\u30b8', '\u1e95', '\uff5a', '\u305e', '\u30be', '\u01b6', '\u305a', '\u30ba']


def code_marked():
    """Text strings with a byte order mark are UTF-16."""
    return [decode_text(b'\xfe\xff\x20\xac\xd8\x3d\xde\x00\0A'), decode_text(b'\xfe\xff'), decode_text(b''), decode_text(b'\xfe'), decode_text(b'\xff\xfeA'), decode_text(b'\xfe\xff\0A\0'), decode_text(b'\xfe\xff\xfe\xff\0A')]


def ref_marked():
    return ['\u20ac\U0001f600A', '', '', '\xfe', '\xff\xfeA', 'A', '\ufeffA']


def measured(name):
    (d, w) = FontMetricsDB.get_metrics(name)
    return [d['FontName'], name[0] == 'C' or (d['Ascent'], d['Descent']), [w.get(c) for c in [' ', '!', '"', '#', '$', '%', '&', '\u2019', '(', ')', '*', '+', ',', '-', '.', '/', '0', '1', '2', '3', '4', '5', '6', '7',
             '8', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O',
             'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '[', '\\', ']', '^', '_', '\u2018', 'a', 'b', 'c', 'd', 'e', 'f', 'g',
             'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '{', '|', '}', '~']]]


def code_metrics_courier():
    """Courier: how far letters reach, and how wide characters are."""
    return measured('Courier')


def ref_metrics_courier():
    return ['Courier', True, [
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600]]


def code_metrics_courier_bold():
    """Courier-Bold: how far letters reach, and how wide characters are."""
    return measured('Courier-Bold')


def ref_metrics_courier_bold():
    return ['Courier-Bold', True, [
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600]]


def code_metrics_courier_boldoblique():
    """Courier-BoldOblique: how far letters reach, and how wide characters are."""
    return measured('Courier-BoldOblique')


def ref_metrics_courier_boldoblique():
    return ['Courier-BoldOblique', True, [
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600]]


def code_metrics_courier_oblique():
    """Courier-Oblique: how far letters reach, and how wide characters are."""
    return measured('Courier-Oblique')


def ref_metrics_courier_oblique():
    return ['Courier-Oblique', True, [
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600,
        600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600, 600]]


def code_metrics_helvetica():
    """Helvetica: how far letters reach, and how wide characters are."""
    return measured('Helvetica')


def ref_metrics_helvetica():
    return ['Helvetica', (718, -207), [
        278, 278, 355, 556, 556, 889, 667, 222, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556,
        556, 556, 278, 278, 584, 584, 584, 556, 1015, 667, 667, 722, 722, 667, 611, 778, 722, 278, 500, 667, 556, 833, 722, 778,
        667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 278, 278, 278, 469, 556, 222, 556, 556, 500, 556, 556, 278, 556,
        556, 222, 222, 500, 222, 833, 556, 556, 556, 556, 333, 500, 278, 556, 500, 722, 500, 500, 500, 334, 260, 334, 584]]


def code_metrics_helvetica_bold():
    """Helvetica-Bold: how far letters reach, and how wide characters are."""
    return measured('Helvetica-Bold')


def ref_metrics_helvetica_bold():
    return ['Helvetica-Bold', (718, -207), [
        278, 333, 474, 556, 556, 889, 722, 278, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556,
        556, 556, 333, 333, 584, 584, 584, 611, 975, 722, 722, 722, 722, 667, 611, 778, 722, 278, 556, 722, 611, 833, 722, 778,
        667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 333, 278, 333, 584, 556, 278, 556, 611, 556, 611, 556, 333, 611,
        611, 278, 278, 556, 278, 889, 611, 611, 611, 611, 389, 556, 333, 611, 556, 778, 556, 556, 500, 389, 280, 389, 584]]


def code_metrics_helvetica_boldoblique():
    """Helvetica-BoldOblique: how far letters reach, and how wide characters are."""
    return measured('Helvetica-BoldOblique')


def ref_metrics_helvetica_boldoblique():
    return ['Helvetica-BoldOblique', (718, -207), [
        278, 333, 474, 556, 556, 889, 722, 278, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556,
        556, 556, 333, 333, 584, 584, 584, 611, 975, 722, 722, 722, 722, 667, 611, 778, 722, 278, 556, 722, 611, 833, 722, 778,
        667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 333, 278, 333, 584, 556, 278, 556, 611, 556, 611, 556, 333, 611,
        611, 278, 278, 556, 278, 889, 611, 611, 611, 611, 389, 556, 333, 611, 556, 778, 556, 556, 500, 389, 280, 389, 584]]


def code_metrics_helvetica_oblique():
    """Helvetica-Oblique: how far letters reach, and how wide characters are."""
    return measured('Helvetica-Oblique')


def ref_metrics_helvetica_oblique():
    return ['Helvetica-Oblique', (718, -207), [
        278, 278, 355, 556, 556, 889, 667, 222, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556,
        556, 556, 278, 278, 584, 584, 584, 556, 1015, 667, 667, 722, 722, 667, 611, 778, 722, 278, 500, 667, 556, 833, 722, 778,
        667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 278, 278, 278, 469, 556, 222, 556, 556, 500, 556, 556, 278, 556,
        556, 222, 222, 500, 222, 833, 556, 556, 556, 556, 333, 500, 278, 556, 500, 722, 500, 500, 500, 334, 260, 334, 584]]


def code_metrics_times_bold():
    """Times-Bold: how far letters reach, and how wide characters are."""
    return measured('Times-Bold')


def ref_metrics_times_bold():
    return ['Times-Bold', (683, -217), [
        250, 333, 555, 500, 500, 1000, 833, 333, 333, 333, 500, 570, 250, 333, 250, 278, 500, 500, 500, 500, 500, 500, 500, 500,
        500, 500, 333, 333, 570, 570, 570, 500, 930, 722, 667, 722, 722, 667, 611, 778, 778, 389, 500, 778, 667, 944, 722, 778,
        611, 778, 722, 556, 667, 722, 722, 1000, 722, 722, 667, 333, 278, 333, 581, 500, 333, 500, 556, 444, 556, 444, 333, 500,
        556, 278, 333, 556, 278, 833, 556, 500, 556, 556, 444, 389, 333, 556, 500, 722, 500, 500, 444, 394, 220, 394, 520]]


def code_metrics_times_bolditalic():
    """Times-BoldItalic: how far letters reach, and how wide characters are."""
    return measured('Times-BoldItalic')


def ref_metrics_times_bolditalic():
    return ['Times-BoldItalic', (683, -217), [
        250, 389, 555, 500, 500, 833, 778, 333, 333, 333, 500, 570, 250, 333, 250, 278, 500, 500, 500, 500, 500, 500, 500, 500,
        500, 500, 333, 333, 570, 570, 570, 500, 832, 667, 667, 667, 722, 667, 667, 722, 778, 389, 500, 667, 611, 889, 722, 722,
        611, 722, 667, 556, 611, 722, 667, 889, 667, 611, 611, 333, 278, 333, 570, 500, 333, 500, 500, 444, 500, 444, 333, 500,
        556, 278, 278, 500, 278, 778, 556, 500, 500, 500, 389, 389, 278, 556, 444, 667, 500, 444, 389, 348, 220, 348, 570]]


def code_metrics_times_italic():
    """Times-Italic: how far letters reach, and how wide characters are."""
    return measured('Times-Italic')


def ref_metrics_times_italic():
    return ['Times-Italic', (683, -217), [
        250, 333, 420, 500, 500, 833, 778, 333, 333, 333, 500, 675, 250, 333, 250, 278, 500, 500, 500, 500, 500, 500, 500, 500,
        500, 500, 333, 333, 675, 675, 675, 500, 920, 611, 611, 667, 722, 611, 611, 722, 722, 333, 444, 667, 556, 833, 667, 722,
        611, 722, 611, 500, 556, 722, 611, 833, 611, 556, 556, 389, 278, 389, 422, 500, 333, 500, 500, 444, 500, 444, 278, 500,
        500, 278, 278, 444, 278, 722, 500, 500, 500, 500, 389, 389, 278, 500, 444, 667, 444, 444, 389, 400, 275, 400, 541]]


def code_metrics_times_roman():
    """Times-Roman: how far letters reach, and how wide characters are."""
    return measured('Times-Roman')


def ref_metrics_times_roman():
    return ['Times-Roman', (683, -217), [
        250, 333, 408, 500, 500, 833, 778, 333, 333, 333, 500, 564, 250, 333, 250, 278, 500, 500, 500, 500, 500, 500, 500, 500,
        500, 500, 278, 278, 564, 564, 564, 444, 921, 722, 667, 667, 722, 611, 556, 722, 722, 333, 389, 722, 611, 889, 722, 722,
        556, 722, 667, 556, 611, 722, 722, 944, 722, 722, 611, 333, 278, 333, 469, 500, 333, 444, 500, 444, 500, 444, 333, 500,
        500, 278, 278, 500, 278, 778, 500, 500, 500, 500, 333, 389, 278, 500, 500, 722, 500, 500, 444, 480, 200, 480, 541]]
