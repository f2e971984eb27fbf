WHY = ('The tests run a handful of sample documents and compare overall structure; they never vary operand values, '
       'nesting or what precedes an operator.')

prop('C01', 'Saving and restoring the graphics state is exact',
     'Whatever operators run between a save (q) and its matching restore (Q), afterwards the transformation matrix, every text '
     'parameter (font, size, spacings, scaling, leading, rendering mode, rise) and every graphics parameter (colours, colour spaces, '
     'line style) are what they were at the save. Saves nest, a restore without a save changes nothing, and a save itself changes nothing.',
     ['programs', 'inputs'], 'all operator sequences between a save and its restore, all operand values, all starting states',
     WHY, [K + 'commands.py', K + 'state/__init__.py', K + 'state/PDFTextState/__init__.py', K + 'state/PDFGraphicState/__init__.py'],
     [('q and Q', K + 'commands.py'), ('copy of text and graphics state', K + 'state/')],
     [('saved states', 'stack of matrix, text state and graphics state', K + 'state/__init__.py')])

prop('C02', 'Graphics-state and colour operators set exactly what they name',
     'Each colour operator sets only the stroking or only the non-stroking colour, to the given components in order and in the colour space '
     'it implies or that was selected before; each line-style operator sets only its own parameter, and cm puts its matrix in front of the '
     'current one. Selecting an unknown colour space, or giving components before any space is selected, is refused with an error.',
     ['inputs', 'programs'], 'all operand values, all starting states, every predefined and resource colour space',
     WHY, [K + 'commands.py', K + 'state/PDFGraphicState/PDFColor.py', K + 'state/PDFGraphicState/PDFColorSpace.py'],
     [('colour and graphics operators', K + 'commands.py')])

prop('C03', 'Text-state and text-positioning operators follow the PDF text model',
     'Tc, Tw, Tz, TL, Tf, Tr and Ts each set exactly their parameter; Td, TD, Tm and T* place the line origin as the PDF text model '
     'prescribes (TD also sets the leading, T* moves by it); BT resets text and line matrices and nothing else. Parameters persist '
     'across text objects, and selecting a font the resources lack is refused.',
     ['inputs', 'programs'], 'all operand values and starting states', WHY, [K + 'commands.py', K + 'state/PDFTextState/__init__.py'],
     [('text operators', K + 'commands.py')])

prop('C04', 'Path-construction operators record exactly the described segments',
     'm, l, c, v, y, h and re append to the current path exactly the segments they describe, with control points in order (re is a '
     'closed rectangle starting at its origin). Building a path emits nothing and leaves every other parameter alone.',
     ['inputs', 'programs'], 'all operand values and operator sequences', WHY, [K + 'commands.py', K + 'state/Curves.py'],
     [('path operators', K + 'commands.py')], [('current path', 'segments since the last painting operator', K + 'state/__init__.py')])

prop('C05', 'Each painting operator emits its path once, in the current style',
     'Every path-painting operator emits exactly one item carrying the path, the line width and both colours of that moment and its winding '
     'rule, and then clears the path; the closing variants close it first; n discards it silently. Later changes of the state never alter '
     'an item that was emitted.',
     ['inputs', 'programs', 'histories'], 'all paths, styles and later operators', WHY,
     [K + 'commands.py', K + 'state/layout/__init__.py', K + 'state/PDFGraphicState/__init__.py'],
     [('painting operators', K + 'commands.py'), ('making of path items', K + 'state/layout/__init__.py')])

prop('C06', 'Painted paths are classified and boxed as they lie on the page',
     'A painted path becomes a line item (horizontal or vertical exactly when it is so on the page), a rectangle item (only when it is an '
     'upright rectangle on the page) or else a general curve item, and never vanishes. Its bounding box spans its points as transformed '
     'onto the page, with lower-left corner first.',
     ['inputs'], 'all coordinates and transformation matrices', WHY, [K + 'state/layout/__init__.py', U + 'types.py', U + 'matrix.py'],
     [('classification', K + 'state/layout/__init__.py'), ('bounding box', U + 'types.py')])

prop('C07', 'Glyphs are placed and measured by the PDF text-showing rules',
     'Every shown glyph gets the box of its advance width and the font\'s extent at the current text position under text matrix and '
     'transformation matrix; the position then advances by width, character spacing, word spacing (single-byte code 32 only) and TJ '
     'adjustments, scaled horizontally, within and across strings, and downwards for vertical fonts. The quote operators equal their '
     'expansions, and glyphs record font, size and fill colour of the moment.',
     ['inputs', 'programs'], 'all metrics, matrices, spacings and string/number sequences', WHY,
     [K + 'state/layout/utils/textdecoder.py', K + 'commands.py', K + 'state/layout/LTChar.py', K + 'state/layout/LTCharBlock.py'],
     [('glyph placement', K + 'state/layout/utils/textdecoder.py')], [('offset on the line', 'advance since the line origin', K + 'state/PDFTextState/__init__.py')])

prop('C08', 'Text objects become text blocks, one for each, complete and in order',
     'Each text object that shows a character becomes exactly one item at its end, holding one block per text-showing operator in order, '
     'with boxes that are the hull of their content; text objects without characters vanish. Nested text objects, text outside a text '
     'object and text without a font are refused, and unmapped characters are an error unless ignored (then they keep place and box).',
     ['inputs', 'programs'], 'all text objects', WHY,
     [K + 'commands.py', K + 'state/layout/LTTextBlock.py', K + 'state/layout/LTCharBlock.py', K + 'state/PDFTextState/__init__.py'],
     [('BT, ET, showing operators', K + 'commands.py')], [('open text block', 'block being filled', K + 'state/__init__.py')])

prop('C09', 'Operators take their own operands; unknown operators are skipped',
     'An operator consumes exactly as many operands as it takes, the most recent ones in order, and is refused when there are fewer. '
     'Unknown operators change nothing and do not stop the stream, and interpreting a content stream in pieces equals interpreting it whole, '
     'items appearing once and in drawing order.',
     ['programs', 'inputs'], 'all token sequences', WHY, [K + '__init__.py', K + 'PDFCommands.py', K + 'state/__init__.py'],
     [('dispatch loop', K + '__init__.py')], [('operand stack', 'operands not yet consumed', K + 'state/__init__.py')])

prop('C10', 'Form XObjects and images are placed, nested and isolated correctly',
     'An image is one item covering the unit square under the current matrix; a form is one item that holds what its content draws, placed by '
     'its own matrix and then the current one, starting from the invoking graphics state and using its own resources if it has any, else the '
     'invoker\'s. Nothing inside a form changes the invoking state; unknown names are refused, other kinds skipped.',
     ['programs', 'inputs'], 'all forms, nestings, matrices and states', WHY,
     [K + '__init__.py', K + 'commands.py', K + 'state/layout/__init__.py', K + 'utils.py'],
     [('Do and inline images', K + 'commands.py'), ('recursion into forms', K + '__init__.py')])

prop('C11', 'A page has the size and orientation its media box and rotation say',
     'The size of a page is that of its media box, whichever two opposite corners the box names, with width and height exchanged for quarter '
     'turns; rotations count modulo a full turn. Content is moved so that the visible lower-left corner of the turned page is the origin.',
     ['inputs'], 'all media boxes and rotations',
     'The samples are all upright pages whose box starts at the origin.', ['pdfmajor/interpreter/PageInterpreter.py'],
     [('page set-up', 'pdfmajor/interpreter/PageInterpreter.py')])

prop('C12', 'Passes over pages and documents are repeatable and independent',
     'Iterating a page or a document again, after giving up an earlier iteration, at the same time as another one, or with preloading, always '
     'yields the same pages with the same items. Nothing drawn or left open on one page affects another page or a later pass, and pages remain '
     'usable after the document was read.',
     ['histories', 'schedules'], 'all interleavings and repetitions of passes, all page contents',
     'The tests iterate each document once from start to end.', ['pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/__init__.py'],
     [('page interpreter', 'pdfmajor/interpreter/PageInterpreter.py'), ('document interpreter', 'pdfmajor/interpreter/__init__.py')],
     [('state of a pass', 'graphics and text state of the running pass', 'pdfmajor/interpreter/PageInterpreter.py')])

prop('C13', 'The page tree is walked in order with proper inheritance and selection',
     'Pages come in document order, each once, with resources, media box, crop box and rotation taken from the nearest node that gives them and '
     'nothing else inherited; without a page tree every page object counts once. A page selection yields exactly the pages at those positions '
     'and a limit the first so many of them; walking never changes the document.',
     ['inputs', 'histories'], 'all attribute values and placements in trees of the analysed shapes, all selections',
     'The samples have flat trees and the tests never select pages together with a limit.', ['pdfmajor/parser/PDFPage.py'],
     [('tree walk and selection', 'pdfmajor/parser/PDFPage.py')])

prop('C14', 'Objects are looked up in the newest table that has them',
     'An object is the one the newest cross-reference section names: newer sections win over older ones, the section over the stream of a hybrid '
     'file, and when the tables cannot be read the last definition in the file counts. Objects packed in object streams are found at their place, '
     'with and without caching the same, and a chain of references resolves to the object at its end; a file without a catalogue is refused.',
     ['inputs', 'histories'], 'all object numbers and contents in chains of sections of the analysed shapes',
     'The samples have one table each, and the tests never update a document or read it without caching.',
     [P + 'PDFDocument/__init__.py', P + 'PDFDocument/PDFXRef.py', P + 'PDFStream/PDFObjRef.py'],
     [('object lookup', P + 'PDFDocument/__init__.py'), ('references', P + 'PDFStream/PDFObjRef.py')],
     [('object cache', 'objects already read', P + 'PDFDocument/__init__.py')])

prop('C15', 'Circular structures never make reading run for ever',
     'Cross-reference sections, references, page trees, outlines, name trees and form XObjects that lead back to themselves, directly or over '
     'others, end all the same: each part counts once where it stands, what lies outside the circle is found as ever, and a reference that leads '
     'nowhere counts as missing.',
     ['inputs'], 'all contents of circular structures of the analysed shapes',
     'No sample is circular: a test would have to hang to notice.',
     [P + 'PDFDocument/__init__.py', P + 'PDFPage.py', P + 'PDFStream/PDFObjRef.py', I + '__init__.py', K + '__init__.py'],
     [('tables, outlines and names', P + 'PDFDocument/__init__.py'), ('page tree', P + 'PDFPage.py'), ('forms', K + '__init__.py')])

prop('C16', 'Outlines come in reading order and named destinations are found',
     'The outline lists every titled entry once, in reading order, with its depth below the top level, its title and where it leads; entries '
     'without a title or target are left out but their children are not, and a document without outlines says so. A name in the name tree or the '
     'catalogue gives exactly its value, whichever branch holds it, and an unknown name is refused.',
     ['inputs', 'histories'], 'all titles, targets, limits and values in trees of the analysed shapes',
     'No test reads outlines or names.', [P + 'PDFDocument/__init__.py'],
     [('outline walk and name lookup', P + 'PDFDocument/__init__.py')])

prop('C17', 'Options reach the reading of the document; output goes where it should',
     'Page limit and selection, password, caching, permission check, bad-character handling and log level reach the document as given, for '
     'every format, from the dispatcher and from the command line, whose page numbers count from one. The output type decides the format and '
     'the default name beside the input; an unknown type or a name that does not match is refused before anything is written.',
     ['inputs'], 'all option values, for each format and entry point',
     'The tests convert with default options.', [CONV + '__init__.py', CONV + 'text.py', CONV + 'json.py', CONV + 'xml.py', CONV + 'yaml.py',
                                                 CONV + 'html.py', 'tools/pdfconvert.py'],
     [('dispatcher', CONV + '__init__.py'), ('command line', 'tools/pdfconvert.py')])

prop('C18', 'Every item is rendered once, in order, with its geometry and attributes',
     'In JSON, XML, YAML and HTML each page, with number and size, holds each of its items exactly once in drawing order, forms holding theirs, '
     'with position, size, colours, font attributes and text; curves keep all their segments. Plain text holds all text of each page in order.',
     ['inputs'], 'all texts, coordinates, colours and font values on pages of the analysed shapes',
     'The tests only check that the output parses.', [CONV + 'text.py', CONV + 'json.py', CONV + 'xml.py', CONV + 'yaml.py', CONV + 'html.py'],
     [('rendering', CONV + f) for f in ('text.py', 'json.py', 'xml.py', 'yaml.py', 'html.py')])

prop('C19', 'Output is well formed and complete whatever the document contains',
     'Text, names and font values come out escaped as JSON, XML, YAML and HTML demand, so that any content gives a document that parses back to '
     'the same text; all of it is in the chosen encoding, which XML and HTML name. The output file is the one asked for and is closed in the end, '
     'also when reading a page fails.',
     ['inputs', 'crash_points'], 'all texts and values', 'The texts of the samples hold few characters that need escaping.',
     [CONV + 'writers/json.py', CONV + 'writers/xml.py', CONV + 'writers/yaml.py', CONV + 'writers/html.py', CONV + 'text.py', CONV + 'xml.py',
      CONV + 'yaml.py', CONV + 'html.py'],
     [('writers', CONV + 'writers/' + f) for f in ('json.py', 'xml.py', 'yaml.py', 'html.py')])

prop('C20', 'Encrypted documents open with their password only and are read in the clear',
     'User and owner passwords of every supported revision give the file key that ISO 32000 prescribes, a wrong one is refused, and so is any '
     'handler, algorithm, revision or crypt filter that is not known. Every string and stream is deciphered exactly once with the key of its own '
     'object, what is not encrypted stays as it is, and a document that forbids extraction gives no pages unless the caller says otherwise.',
     ['inputs', 'configurations'], 'all passwords, keys, identifiers, permission words, object numbers and data',
     'No test opens an encrypted document.', [P + 'PDFDocument/PDFSecurityHandler.py', P + 'PDFDocument/__init__.py', P + 'PDFStream/util.py',
                                             P + 'PDFPage.py', I + '__init__.py'],
     [('security handlers', P + 'PDFDocument/PDFSecurityHandler.py'), ('deciphering of objects', P + 'PDFDocument/__init__.py')])

prop('C21', 'Tokens are what is written, wherever the portions read end',
     'Names, numbers, strings, hexadecimal strings, keywords, brackets and comments are read as PDF syntax defines them, each with the position '
     'where it starts, however the data is divided into portions and also at the very end of the data. Seeking starts afresh, and lines come out '
     'complete whichever line end they have, forwards and backwards.',
     ['inputs', 'histories'], 'all words, digits and escapes in token sequences of the analysed shapes; all divisions into the analysed portions',
     'The test has one text, read in one portion.', [P + 'PSStackParser/PSBaseParser.py', P + 'PSStackParser/constants.py', P + 'PDFContentParser.py'],
     [('tokenizer', P + 'PSStackParser/PSBaseParser.py')])

prop('C22', 'Cross-reference data give each object the place that is written there',
     'A table, a cross-reference stream or, without them, a scan of the file gives for every number the position and generation, or the '
     'containing stream and index, that the file states, whatever the sections, ranges and field widths; free and unlisted numbers have no '
     'place, and exactly those with one are listed. The trailer comes with it, and damaged data are refused as no valid table, so that the scan '
     'takes over.',
     ['inputs'], 'all numbers, field values and names in tables and streams of the analysed shapes',
     'The samples hold a few well-formed tables.', [P + 'PDFDocument/PDFXRef.py', P + 'PDFDocument/__init__.py'],
     [('tables, streams and scan', P + 'PDFDocument/PDFXRef.py')])

prop('C23', 'Objects have the value that is written, however deeply nested',
     'Numbers, names, strings, arrays, dictionaries, null and references are read as PDF syntax defines them, in any nesting, in files and in '
     'object streams; keys with the value null are absent. A stream has its dictionary and exactly the bytes it says, or those up to its written '
     'end where its length cannot be relied on, and reading goes on behind it. An object that does not end or a dictionary that does not '
     'consist of pairs is refused.',
     ['inputs'], 'all names, numbers, strings and stream bytes in objects of the analysed shapes; all analysed divisions into portions',
     'The test has a handful of objects.', [P + 'PSStackParser/__init__.py', P + 'PDFParser.py', P + 'PDFStream/PDFObjRef.py'],
     [('objects', P + 'PSStackParser/__init__.py'), ('references and streams', P + 'PDFParser.py')])

prop('C24', 'Stream data come out decoded by the filters the stream names',
     'Data are deciphered once and then pass the filters in the order listed, by full or abbreviated name, each with its own parameters and '
     'predictor, whether these are written directly or as references; photographs stay as they are and what is not supported is refused. '
     'Hexadecimal, base 85 and run-length data and PNG predictors give the bytes their definitions prescribe, also where data are short, and '
     'reading a stream again gives the same.',
     ['inputs', 'histories'], 'all data bytes and parameters in filter arrays and data of the analysed shapes',
     'The samples use one filter at a time, and few of the predictors.',
     [P + 'PDFStream/__init__.py', P + 'PDFStream/util.py', P + 'PDFStream/constants.py', U + 'ascii85.py', U + 'generic.py'],
     [('filters', P + 'PDFStream/__init__.py'), ('byte decoders', U + 'ascii85.py'), ('predictors', U + 'generic.py')])
prop('C25', 'Content is read in order over all its streams, inline images exactly',
     'Operands and operators come in the order they are written, over all the content streams of a page, where a token ends with its stream but '
     'arrays and dictionaries may go on. An inline image has the bytes between the white space behind ID and the line end before EI, which '
     'counts as the end only where white space or the end of the content follows. Neither depends on where the portions read end, nor on whether '
     'there is any stream at all.',
     ['inputs'], 'all operands, names, strings and image data in contents of the analysed shapes',
     'The samples hold few inline images, and none whose data resemble their end.',
     [P + 'PDFContentParser.py', P + 'PSStackParser/__init__.py'],
     [('content parser', P + 'PDFContentParser.py'), ('object stack', P + 'PSStackParser/__init__.py')])
F = I + 'commands/state/PDFTextState/PDFFont/'
prop('C26', 'What each character code says comes from the maps and encodings of its font',
     'A code says what the ToUnicode map of its font says, by single codes or ranges with texts, names or lists; else what the encoding says, by '
     'name, by base and differences, or the standard one, and for fonts of many characters what their collection says. Texts are taken apart '
     'into codes as the CMap of the font prescribes, a predefined one or its own. Names of glyphs mean the characters the Adobe glyph list rules '
     'give them; what says nothing leaves the other codes as they are, and no font changes what another one says.',
     ['inputs', 'histories'], 'all codes, names and texts in fonts, encodings and maps of the analysed shapes',
     'The samples use few encodings and no embedded CMaps, and never damaged maps.',
     [F + 'PDFFont.py', F + 'fonts.py', F + '__init__.py', P + 'EncodingDB.py', P + 'cmapdb/__init__.py', U + 'encoding/__init__.py'],
     [('fonts', F + 'fonts.py'), ('character maps', P + 'cmapdb/__init__.py'), ('encodings', P + 'EncodingDB.py'), ('glyph names', U + 'encoding/__init__.py')])
prop('C27', 'Widths and heights of characters are those the font gives them',
     'The width of a character is the one its font lists for the code, alone or in a range, else the missing or default width, also where that is '
     'zero; standard fonts know the widths of their characters by name. Vertical fonts give how far down each character reaches and where it '
     'starts, and fonts with a space of their own measure in it. It does not matter which of the numbers are written as references or reals.',
     ['inputs'], 'all widths, positions and heights in fonts of the analysed shapes',
     'The samples hold few fonts, hardly any with vertical metrics, and none with references inside their widths.',
     [F + 'PDFFont.py', F + 'fonts.py', F + 'util.py'],
     [('fonts', F + 'fonts.py'), ('width lists', F + 'util.py'), ('metrics', F + 'PDFFont.py')])
prop('C28', 'Documents cannot name files or make the library run code',
     'While a document is read nothing is opened but the document itself and the predefined character maps in their folder, whatever names and '
     'paths the document holds; nothing is written, removed or renamed, and serialised objects come from those maps alone. Nothing in a document '
     'is run as code or reaches the network.',
     ['inputs'], 'all documents',
     'Samples name only maps that exist, and a test sees what happens, not what an attacker could cause.',
     [P + 'cmapdb/__init__.py', I + '__init__.py', F + 'fonts.py'],
     [('loader of predefined maps', P + 'cmapdb/__init__.py'), ('every call of the package that has effects outside', 'pdfmajor')])
prop('C29', 'Saved images hold the picture in a format that fits it',
     'A photograph is saved as it is stored, in the clear, also where it was read before or lies below other filters. Pictures of one bit for each '
     'point, and gray or RGB ones of eight, become bitmaps of the size of the picture that hold every row in its place with the right colours; '
     'all others are written decoded, with depth and size in the name. Sizes, depth and colour space may be references, and the file is the one '
     'asked for.',
     ['inputs'], 'all pictures of the analysed shapes',
     'The tests save the images of two samples and look at none of them.',
     [I + 'commands/state/layout/LTImage.py', 'pdfmajor/BMPWriter/__init__.py'],
     [('image items', I + 'commands/state/layout/LTImage.py'), ('bitmap writer', 'pdfmajor/BMPWriter/__init__.py')])
prop('C30', 'Built-in encodings, glyph names and font metrics are those of the standards',
     'The standard, MacRoman and WinAnsi encodings give each code the character the standards give it, and text strings mean what PDFDocEncoding '
     'says or, marked as such, UTF-16. Names of glyphs mean the characters they are named after, and the standard fonts reach as far and have '
     'characters as wide as their published metrics say.',
     ['inputs'], 'all codes of the encodings, all bytes of text strings, glyph names and characters of standard fonts of the analysed tables',
     'The samples use few codes, and no test looks at the tables; one wrong entry shows in no sample.',
     [U + 'encoding/latin_enc.py', U + 'encoding/glyphlist.py', U + 'text.py', P + 'EncodingDB.py', U + 'fontmetrics.py'],
     [('encoding tables', U + 'encoding/latin_enc.py'), ('encodings', P + 'EncodingDB.py'), ('text strings', U + 'text.py'),
      ('glyph list', U + 'encoding/glyphlist.py'), ('metrics', U + 'fontmetrics.py')])
prop('C31', 'LZW and fax data come out as what was packed',
     'Data packed with the LZW codes of Compress or TIFF come out as they were, however long the codes become, early or late as the stream says, '
     'with or without the code that clears and the one that ends. Fax data of Group 4 give the rows that were coded, of any width and mode, whether '
     'black is nothing or everything, aligned or not. Damage, or bytes behind the end, change nothing of what came before.',
     ['inputs'], 'packed data of the analysed shapes: all codes for runs, all neighbouring rows of five pixels, LZW codes of every length',
     'The samples have few such streams, and one wrong entry of the code tables, or a rare mode, shows in none of them.',
     [U + 'lzw.py', P + 'PDFStream/ccitt.py'],
     [('LZW', U + 'lzw.py'), ('fax', P + 'PDFStream/ccitt.py')])
na('N01', 'Documents are read in time and memory that fit their size',
   'Reading a document takes time and memory in proportion to its size and to the size of what its streams hold, whatever it contains. No '
   'small document keeps the library busy for long or fills the memory.',
   ['inputs'], 'all documents',
   'The samples are ordinary documents.',
   [I + '__init__.py', P + 'PDFDocument/__init__.py'],
   [('reading of documents', P + 'PDFDocument/__init__.py')],
   'Cost is a runtime quantity: how often loops run depends on the bytes of the document, compressed streams may be a thousand times larger '
   'than they look, and no sound static argument in reach bounds either. That loops on short input end is decided within the other properties.')
na('N02', 'Malformed documents raise nothing but the documented errors',
   'Whatever bytes are given, opening and reading them yields a result or one of the errors of the library; no other exception leaves it.',
   ['inputs'], 'all byte sequences',
   'The samples are well formed, but for a few.',
   ['pdfmajor/execptions.py', I + '__init__.py'],
   [('error classes', 'pdfmajor/execptions.py')],
   'Objects of a document have any type at run time, so that nearly every operation on them may raise as far as the sources tell; an exception '
   'analysis would report hundreds of places, most of which need conditions it cannot exclude. The damage that has an agreed meaning is '
   'decided, case by case, within the properties on files, streams, fonts and operators.')
na('N03', 'Compressed and encrypted bytes match the algorithms of the standards',
   'Data compressed by Deflate come out as they were, and digests and ciphers give the bytes the standards say, for all data.',
   ['inputs'], 'all data and keys',
   'Tests compare a few documents.',
   [P + 'PDFStream/__init__.py', P + 'PDFDocument/PDFSecurityHandler.py'],
   [('filters', P + 'PDFStream/__init__.py'), ('security handlers', P + 'PDFDocument/PDFSecurityHandler.py')],
   'The algorithms are those of zlib, hashlib and a cryptography library, whose sources are not part of the repository; how the repository '
   'calls them, with which keys and in which order, is decided within the properties on streams and encryption.')
