"""Writes properties.jsonl."""
import json, os
A = 'amazon/ion/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': [A + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
                          'mechanism': [{'name': n, 'where': A + w} for n, w in mech],
                          'observe_at': observe or ['amazon.ion.simpleion.dumps / loads'],
                          'hook_needed': None}})


prop('C01', 'Integers survive binary encoding',
     'For every Python integer v, loads(dumps(v, binary=True)) is an Ion INT equal to v, whatever its sign and '
     'magnitude. The encoding is minimal: no leading zero octet in the magnitude, zero is the single octet 0x20, and the '
     'length is spelt in the type descriptor when it is below 14 and in a following VarUInt otherwise.',
     ['inputs'], 'all integers of any size',
     'Tests list a few dozen integers around byte boundaries up to a few bytes; the encoding has boundaries at every '
     'octet and at the 14-octet and 128-octet lengths, for both signs.',
     ['writer_binary_raw.py', 'writer_binary_raw_fields.py', 'reader_binary.py'],
     [('_serialize_int, _write_length, _write_int_value', 'writer_binary_raw.py'),
      ('_write_base, _write_uint, _write_varuint', 'writer_binary_raw_fields.py'),
      ('_int_factory, _length_scalar_handler', 'reader_binary.py')])

prop('C02', 'Decimals survive binary encoding exactly',
     'For every finite Decimal, loads(dumps(d, binary=True)) is an Ion DECIMAL with the same sign, the same coefficient '
     'digits and the same exponent, so that -0, 0d-2, 1.0 and 1.00 all stay distinct. This holds regardless of the '
     'precision, rounding, traps and exponent limits of the current decimal context.',
     ['inputs'], 'all finite decimals (sign, coefficient, exponent)',
     'Tests use a short list of decimals; sign bits share an octet with the magnitude, so failures sit at particular '
     'coefficient sizes, at negative zero, and at VarInt boundaries of the exponent.',
     ['writer_binary_raw.py', 'writer_binary_raw_fields.py', 'reader_binary.py'],
     [('_serialize_decimal, _write_decimal_value', 'writer_binary_raw.py'),
      ('_write_signed, _write_varint, _write_int', 'writer_binary_raw_fields.py'),
      ('_parse_decimal, _parse_signed_int_components, _parse_var_int', 'reader_binary.py')])

prop('C03', 'Floats survive binary encoding bit for bit',
     'For every float f (64-bit pattern), loads(dumps(f, binary=True)) is an Ion FLOAT with the same bits, except that '
     'every NaN reads back as some NaN; signed zeros, infinities and subnormals are preserved. A binary float of '
     'length 0, 4 or 8 octets reads as the IEEE value it encodes and every other length is rejected with an exception.',
     ['inputs'], 'all 2**64 bit patterns for writing; all binary32/binary64 patterns and lengths for reading',
     'Tests use fewer than ten floats; zero and negative zero have special paths in the writer.',
     ['writer_binary_raw.py', 'reader_binary.py'],
     [('_serialize_float', 'writer_binary_raw.py'), ('_parse_float', 'reader_binary.py')])

prop('C04', 'Timestamps survive binary encoding',
     'For every Timestamp whose UTC instant is representable, with precision YEAR to SECOND (local offset known only from '
     'MINUTE on), loads(dumps(t, binary=True)) has the same precision, local date and time fields, microsecond, '
     'fractional seconds (coefficient and exponent) and offset, and an unknown offset stays unknown. The encoded '
     'date and time fields are those of the same instant in UTC.',
     ['inputs'], 'all calendar dates of years 1 to 9999, times, offsets -23:59 to +23:59, fractions, precisions',
     'Converting to UTC and back carries over minute, hour, day, month and year boundaries, with leap years; tests '
     'sample a handful of instants far from those boundaries.',
     ['writer_binary_raw.py', 'reader_binary.py', 'core.py'],
     [('_serialize_timestamp, _write_timestamp_fractional_seconds', 'writer_binary_raw.py'),
      ('_parse_timestamp', 'reader_binary.py'), ('Timestamp.__new__, adjust_from_utc_fields', 'core.py')])

prop('C05', 'Strings, symbols and lobs survive binary encoding',
     'For every text of Unicode scalar values and every octet sequence, of any length, strings, symbols, clobs and blobs '
     'written in binary read back with the same Ion type and content. This includes the empty value, and lengths on '
     'either side of the points where the length representation grows.',
     ['inputs'], 'all texts and octet sequences of any length',
     'Tests use a few ASCII words; multi-octet code points and lengths near 14, 128 and 16384 octets take other paths.',
     ['writer_binary_raw.py', 'writer_binary.py', 'reader_binary.py', 'reader_managed.py', 'symbols.py'],
     [('_serialize_string/_symbol/_lob_value', 'writer_binary_raw.py'),
      ('_parse_string, _lob_length_handler', 'reader_binary.py'),
      ('_managed_binary_writer_coroutine', 'writer_binary.py')])

prop('C06', 'Containers, annotations and field names survive binary encoding',
     'A tree of lists, s-expressions and structs with annotations and field names (including the empty field name, '
     'repeated field names, and annotated nulls) written in binary reads back with the same shape, order, types, '
     'annotations and leaf values. This holds for any nesting and for container and annotation-wrapper lengths of any '
     'size.',
     ['inputs', 'programs'], 'all value trees',
     'Tests fix a few shapes; nested lengths are computed by back-patching a buffer tree and go wrong for particular '
     'combinations of annotation, emptiness, depth and length.',
     ['writer_binary_raw.py', 'writer_buffer.py', 'writer_binary.py', 'simpleion.py', 'reader_binary.py',
      'reader_managed.py'],
     [('_raw_writer_coroutine, _serialize_annotation_wrapper, _serialize_container', 'writer_binary_raw.py'),
      ('BufferTree', 'writer_buffer.py'), ('_dump', 'simpleion.py'),
      ('_container_handler, _annotation_handler, _ordered_struct_start_handler', 'reader_binary.py')])

prop('C07', 'Numbers, booleans and typed nulls survive text encoding',
     'For every integer, finite Decimal, boolean and typed null, loads(dumps(v, binary=False)) has the '
     'same Ion type and the same value, with sign, coefficient and exponent of decimals preserved exactly. In '
     'particular a decimal never reads back as an int or a float. Every float, signed zeros, infinities and NaN included, '
     'reads back as the same FLOAT, and infinite and NaN decimals, which Ion cannot represent, are refused.',
     ['inputs'], 'all integers, finite decimals and floats, booleans, typed nulls',
     'Decimal notation switches between plain, scientific and point-less forms depending on coefficient length and '
     'exponent; tests hit a few of those forms.',
     ['writer_text.py', 'reader_text.py'],
     [('_decimal_str, _serialize_int, _serialize_scalar_from_string_representation_factory', 'writer_text.py'),
      ('_number_start_handlers, _numeric_handler_factory, _parse_decimal', 'reader_text.py')])

prop('C08', 'Timestamps survive text encoding',
     'For every Timestamp with precision YEAR to SECOND (local offset known only from MINUTE on), '
     'loads(dumps(t, binary=False)) has the same precision, date and time fields, microsecond, fractional seconds '
     '(coefficient and exponent) and offset, an unknown offset staying unknown. A plain datetime is written with its '
     'microseconds and reads back as the same instant and offset.',
     ['inputs'], 'all dates, times, offsets, fractions and precisions',
     'Zero padding of years, fractions and offsets, the sign of offsets below one hour, and fraction digits with leading '
     'or trailing zeros are sampled by few tests.',
     ['writer_text.py', 'reader_text.py', 'core.py'],
     [('_bytes_datetime, _bytes_utc_offset', 'writer_text.py'),
      ('_timestamp_handler, _parse_timestamp', 'reader_text.py'), ('Timestamp.__new__, timestamp', 'core.py')])

prop('C09', 'Text and octets survive text encoding whatever they contain',
     'Every string, symbol, field name and annotation made of Unicode scalar values, and every clob and blob, written as Ion text reads back '
     'with the same type and content. Symbols whose text looks like a keyword, an operator, a number, a symbol '
     'identifier ($10) or a version marker are quoted so that they are not read as anything else, both as values and '
     'inside s-expressions (an unannotated top-level symbol $ion_1_0 alone has no effect in Ion).',
     ['inputs'], 'all texts and octet sequences',
     'Escaping depends on each character and its neighbours (quotes, backslashes, control characters, astral code '
     'points, digits after a dollar sign); tests use a short list.',
     ['writer_text.py', 'reader_text.py', 'util.py'],
     [('_serialize_string, _serialize_symbol, _bytes_text, _symbol_needs_quotes', 'writer_text.py'),
      ('_quoted_symbol_handler, _short_string_handler, _escape_sequence handlers, _lob handlers', 'reader_text.py')])

prop('C10', 'Containers survive text encoding, indented or not',
     'A tree of lists, s-expressions and structs with annotations and field names written as Ion text reads back with '
     'the same shape, order, types, annotations and leaf values. Choosing an indent string of blanks or tabs changes '
     'only white space between tokens: what is read back is the same.',
     ['inputs', 'programs', 'configurations'], 'all value trees and blank indents',
     'Separators, trailing delimiters and symbols next to operators depend on combinations of neighbours and depth.',
     ['writer_text.py', 'simpleion.py', 'reader_text.py'],
     [('_raw_writer_coroutine, _container_delimiter_end', 'writer_text.py'),
      ('_container_handler, _list_handler, _sexp_handler, _struct_handler', 'reader_text.py')])

prop('C11', 'Binary reading does not depend on how input is chunked',
     'Feeding the same octets to the binary reader in any sequence of chunks, including one at a time and with a '
     'separate NEXT after each, yields the same sequence of events (or the same rejection) as feeding them at once. '
     'While input is short the reader reports INCOMPLETE or STREAM_END and resumes when more arrives.',
     ['inputs', 'histories'], 'all octet sequences and all ways of splitting them',
     'Tests split a few fixed streams at a few points; every state of the reader can be interrupted, and resumption is '
     'coded separately for each.',
     ['reader_binary.py', 'reader.py', 'reader_managed.py'],
     [('_read_data_handler, _raw_reader_coroutine', 'reader_binary.py'), ('BufferQueue, read_data_event', 'reader.py')],
     observe=['amazon.ion.reader_binary.binary_reader', 'amazon.ion.reader.blocking_reader'])

prop('C12', 'Text reading does not depend on how input is chunked',
     'Feeding the same text to the text reader in any sequence of chunks yields the same sequence of events (or the same '
     'rejection) as feeding it at once, provided a NEXT at the end of a chunk is only answered INCOMPLETE or STREAM_END '
     'and then followed by more data. This includes splits inside escapes, long strings, numbers, timestamps, comments '
     'and annotations.',
     ['inputs', 'histories'], 'all texts and all ways of splitting them',
     'Tests split a few fixed inputs; each tokenizer state resumes through its own code.',
     ['reader_text.py', 'reader.py'],
     [('_next_code_point, _next_code_point_handler, _container_handler', 'reader_text.py'),
      ('BufferQueue', 'reader.py')],
     observe=['amazon.ion.reader_text.reader'])

prop('C13', 'Skipping a value is the same as reading and dropping it',
     'Sending SKIP at a container start, or within a container, makes the reader continue with exactly the event that '
     'would follow had the remaining content of that container been read with NEXT and ignored. This holds for both '
     'readers, at any depth, and however the skipped input is chunked.',
     ['inputs', 'histories'], 'all well-formed streams, skip positions and chunkings',
     'Binary skipping advances by the declared length, text skipping re-tokenizes; tests exercise a few positions.',
     ['reader_binary.py', 'reader_text.py', 'reader.py', 'reader_managed.py'],
     [('_read_data_handler, _container_handler', 'reader_binary.py'), ('_skip_container, _container_handler',
                                                                       'reader_text.py')],
     observe=['amazon.ion.reader_binary.binary_reader', 'amazon.ion.reader_text.reader'])

prop('C14', 'Binary input is decoded exactly as Ion 1.0 specifies, or rejected',
     'For every octet sequence after the version marker, the reader either yields the values the Ion 1.0 binary format assigns to '
     'those octets (types, nulls, annotations, field names, NOP padding skipped) or rejects them: with an exception, at '
     'the event or when its value is taken, or by remaining incomplete. Reserved type descriptors, values overrunning '
     'their container, negative zero ints and malformed annotation wrappers are rejected. It never returns a wrong '
     'value, and where the rest of a container is skipped, reading goes on right behind that container.',
     ['inputs'], 'all octet sequences',
     'The type descriptor space, lengths and nesting combine freely; tests list good and bad samples.',
     ['reader_binary.py', 'reader.py', 'simpleion.py'],
     [('_bind_* handler tables, _type_handler, _length_scalar_handler, _annotation_handler, _read_data_handler',
       'reader_binary.py')],
     observe=['amazon.ion.reader_binary.raw_reader', 'amazon.ion.simpleion.loads'])

prop('C15', 'Text input is decoded exactly as Ion 1.0 specifies, or rejected',
     'A text is either read as the values the Ion 1.0 text grammar assigns to it (types, numbers, timestamps, escapes, '
     'line breaks, base64, annotations, field names, comments and white space anywhere between tokens) or, when the '
     'grammar does not accept it, rejected. No value is lost, added or changed, and reading always ends. Nothing is claimed '
     'where the grammar leaves room: a sign right behind a word outside s-expressions, underscores in exponents, other '
     'version markers, and operators touching comments or signed numbers.',
     ['inputs'], 'all texts',
     'The recogniser is a large table-driven automaton of coroutines with lookahead; what follows a token, and where '
     'comments stand, matters. Tests list good and bad samples of each class.',
     ['reader_text.py'],
     [('_container_handler, _number_*_handler, _timestamp_*_handler, _symbol_or_keyword_handler, _long_string_handler, '
       '_comment_handler, _parse_* thunks', 'reader_text.py')],
     observe=['amazon.ion.simpleion.loads', 'amazon.ion.reader_text.reader'])

prop('C16', 'The input buffer behaves as one byte or character sequence',
     'However data is added in non-empty chunks, reading, peeking, skipping and unreading through the buffer queue act exactly as '
     'on the concatenation of the chunks: reads return the right slice, the length and position stay right, and what '
     'was unread is read again. Asking for more than is there is refused without losing data.',
     ['inputs', 'histories'], 'all chunk sequences and operation sequences',
     'Chunk boundaries, exact fits and unread across a boundary take separate paths; tests run a few scripted histories.',
     ['reader.py'], [('BufferQueue', 'reader.py')], observe=['amazon.ion.reader.BufferQueue'])

prop('C17', 'Symbol tables map identifiers and texts consistently',
     'A symbol table assigns identifiers consecutively, system symbols first, then imports in order with exactly their '
     'declared number of slots, then local symbols; looking up an identifier gives the token that was assigned to it '
     'and looking up a text gives the lowest identifier carrying it. Adding a text that is present returns the '
     'existing token without using a new identifier, out-of-range lookups give nothing, and shared tables refuse '
     'additions.',
     ['inputs', 'histories'], 'all import lists, symbol lists and sequences of additions',
     'Duplicates within and across imports, gaps from padded imports and interning order combine freely.',
     ['symbols.py'], [('SymbolTable, _add, __add_shared, intern, __getitem__', 'symbols.py')],
     observe=['amazon.ion.symbols.SymbolTable'])

prop('C18', 'Catalog lookups return the exact or best shared table',
     'A catalog returns the registered table for an exact name and version; for a known name with another version it '
     'returns the highest registered version, adjusted to the requested max_id by truncation or padding; for an '
     'unknown name it returns a placeholder of max_id unknown slots. Imports without a usable max_id are refused '
     'unless an exact match exists.',
     ['inputs', 'histories'], 'all registrations and import declarations',
     'The version and max_id relations (below, equal, above) form many cases; tests list some.',
     ['symbols.py', 'reader_managed.py'],
     [('SymbolTableCatalog.resolve, substitute, placeholder', 'symbols.py')],
     observe=['amazon.ion.symbols.SymbolTableCatalog.resolve'])

prop('C19', 'Symbol identifiers resolve by the symbol table in force',
     'While reading, every symbol identifier in a value, field name or annotation resolves to the text given by the '
     'local symbol table in force at that point: a table replaces or (when it imports $ion_symbol_table) appends to the '
     'previous one, a version marker resets to the system table, and table structs inside other values are plain data. '
     'Malformed parts of a table are ignored or refused as the specification says. An identifier '
     'in range without text has unknown text, and one out of range is rejected.',
     ['inputs', 'histories'], 'all sequences of tables, version markers and values',
     'The outcome depends on the history of tables and their malformed or repeated fields; tests script a few.',
     ['reader_managed.py', 'symbols.py'],
     [('managed_reader, _ManagedContext.resolve, _local_symbol_table_handler, _managed_thunk_event',
       'reader_managed.py')],
     observe=['amazon.ion.reader_managed.managed_reader', 'amazon.ion.simpleion.loads'])

prop('C20', 'Binary output defines every symbol identifier it uses',
     'In everything the binary writer emits, each symbol identifier is defined by the version marker and symbol tables '
     'preceding it, so that a fresh reader with the same catalog recovers the texts written; this holds across any '
     'number of flushes, with and without shared imports. After a flush further output stays readable, and after '
     'finishing, a later stream starts with a version marker and its own table.',
     ['inputs', 'histories'], 'all sequences of values, flushes and import lists',
     'Which symbols are already defined depends on the whole history of writes and flushes.',
     ['writer_binary.py', 'symbols.py', 'reader_managed.py'],
     [('_managed_binary_writer_coroutine, _SymbolEventType handling, _writer_ivm/_lst', 'writer_binary.py')],
     observe=['amazon.ion.writer_binary.binary_writer'])

prop('C21', 'Data-model equality is an equivalence that separates distinct values',
     'ion_equals is reflexive (NaN included) and symmetric, and transitive among Ion-typed values; these are equal exactly when their Ion types, '
     'annotations and contents match in the data model: decimals by sign, coefficient and exponent, floats by sign of '
     'zero, timestamps by precision (fractional digits included), fields and offset, structs as unordered multisets of fields. With '
     'timestamps_instants_only, timestamps are equal exactly when they denote the same instant. A native Python value '
     '(lists, tuples, dicts and Multimaps and what they hold included) is equal to an Ion-typed one without annotations '
     'of the same content, and to a native one of the same content.',
     ['inputs'], 'all pairs and triples of values',
     'Equality is decided by many type-specific branches and by operand order; tests list pairs.',
     ['equivalence.py', 'core.py'],
     [('ion_equals, _ion_equals, _structs_eq, _sequences_eq, _decimals_eq, _timestamps_eq, _timestamp_instants_eq',
       'equivalence.py')],
     observe=['amazon.ion.equivalence.ion_equals'])

prop('C22', 'Timestamps keep microseconds, fraction and fractional precision consistent',
     'A Timestamp built from microseconds and fractional precision, or from fractional seconds, exposes a fraction, '
     'precision and microsecond that describe the same number, microseconds being the fraction truncated to six '
     'digits. Contradictory or out-of-range arguments (both forms together, a fraction outside [0, 1), a non-zero '
     'microsecond below the declared precision) raise ValueError and never a silently adjusted value.',
     ['inputs'], 'all microseconds, precisions and fractions of any length',
     'Tests use a few fractions; truncation, digit counts and long fractions interact with the decimal context.',
     ['core.py'], [('Timestamp.__new__, timestamp', 'core.py')],
     observe=['amazon.ion.core.Timestamp', 'amazon.ion.core.timestamp'])

prop('C23', 'Multimaps keep every value of a key in insertion order',
     'After any sequence of additions, assignments and deletions, a Multimap holds exactly the pairs a list-of-values '
     'model predicts: adding appends, assignment replaces all values of the key, deletion removes the key, indexing '
     'gives the last value, iteration gives each key once in order of first insertion, items gives every pair and '
     'length counts the pairs; the values of a key behave as a list. A struct with repeated fields read from Ion keeps '
     'every field value, in order.',
     ['inputs', 'histories'], 'all operation sequences',
     'Counts and iteration must agree after every history; tests run a few.',
     ['core.py', 'simple_types.py', 'simpleion.py'], [('Multimap', 'core.py')],
     observe=['amazon.ion.core.Multimap'])

prop('C24', 'Code points are recovered from UTF-16 style text',
     'Iterating the code points of any text gives the sequence of Unicode code points it encodes: valid surrogate pairs '
     'are combined into one code point and all other characters are passed through. A surrogate that is not part of a '
     'pair raises ValueError.',
     ['inputs'], 'all sequences of code units',
     'Pairs, lone halves and halves at the end combine in every order; tests list a few.',
     ['util.py'], [('unicode_iter, _generate_code_points', 'util.py')], observe=['amazon.ion.util.unicode_iter'])

prop('C25', 'Writers write just the events given, and refuse ill-formed sequences',
     'A well-formed sequence of events (container ends match starts, every value directly inside a struct has a field '
     'name, scalars carry null or a value of their Ion type, streams end and version markers come at depth zero) is '
     'accepted by the text writer, with or without indentation, by the binary writer and by the raw binary writer '
     '(which takes symbol identifiers), and whenever a writer answers COMPLETE, its output so far reads back as exactly '
     'those events: types, values, annotations, field names and nesting. In particular the events of one reader can be '
     'given to any writer. An event at which the sequence stops being well formed is refused with an exception. '
     '(The binary writer may also refuse a version marker after values that have not been ended.) A writer takes None '
     'when, and only when, it has pending output.',
     ['histories', 'programs'], 'all event sequences',
     'The state space is container nesting times event kind; tests list some illegal transitions.',
     ['writer.py', 'writer_text.py', 'writer_binary_raw.py', 'writer_binary.py'],
     [('validate_scalar_value, serialize_scalar', 'writer.py'), ('_raw_writer_coroutine', 'writer_text.py'),
      ('_raw_writer_coroutine', 'writer_binary_raw.py')],
     observe=['amazon.ion.writer_text.raw_writer', 'amazon.ion.writer_binary_raw._raw_binary_writer'])

prop('C26', 'dump and load options mean what they say',
     'sequence_as_stream writes the elements of a sequence as separate top-level values that load(single_value=False) '
     'returns in order; single_value=True returns the only value and raises IonException when there is none or more '
     'than one; tuple_as_sexp turns tuples, and only tuples, into s-expressions. Omitting the version marker in text '
     'changes nothing else in the output. An indent of white space only changes the layout, any other is refused. dump '
     'writes to a file what dumps returns, and binary dumps to one file one after the other are read as one stream.',
     ['inputs', 'configurations'], 'all values and option combinations',
     'Options interact with each other and with nesting; tests try a few combinations.',
     ['simpleion.py'], [('dump, dumps, load, loads, _dump, _load, _from_type', 'simpleion.py')])

prop('C27', 'Ion-typed Python values keep type, annotations and content',
     'Wrapping a native value with a type and annotations, converting it to a writer event, and copying it (copy, '
     'deepcopy) all preserve its Ion type, annotations and content, and never alias a mutable container of the '
     'original with the copy made by deepcopy. A wrapped value behaves like the native value it wraps.',
     ['inputs'], 'all native values, types and annotations',
     'Each wrapper class has its own constructor arguments; tests cover one or two values per class.',
     ['simple_types.py', 'core.py'], [('_IonNature, from_value, from_event, to_event, _copy', 'simple_types.py')],
     observe=['amazon.ion.simple_types'])

prop('C28', 'Primitive binary fields are minimal and lossless',
     'VarUInt, VarInt, UInt and Int fields written for a value decode to that value under the Ion 1.0 definition of the '
     'field, use as few octets as possible, and report the number of octets written. The tree of buffered fields they '
     'are collected in reports right lengths and gives its parts back in order, each container after its header.',
     ['inputs'], 'all integers of any size',
     'Off-by-one errors sit at each multiple of 7 or 8 bits and at the sign bit.',
     ['writer_binary_raw_fields.py'],
     [('_write_varuint, _write_varint, _write_uint, _write_int, _write_base, _write_signed, _CodedFieldCache',
       'writer_binary_raw_fields.py')],
     observe=['amazon.ion.writer_binary_raw_fields'])

prop('C29', 'JSON down-conversion follows the Ion cookbook',
     'Encoding any Ion value with the JSON encoder yields JSON text that parses to the down-converted value described '
     'by the Ion cookbook: nulls, timestamps and lobs as specified, annotations dropped, integers and booleans intact. '
     'Struct field order is kept.',
     ['inputs'], 'all value trees',
     'Tests cover one value of each type.',
     ['json_encoder.py'], [('IonToJSONEncoder', 'json_encoder.py')], observe=['amazon.ion.json_encoder'])

prop('C30', 'Text means the same as str, as UTF-8 and as a file',
     'Reading a text from a str, from its UTF-8 octets, and from a text or binary file give the same values, however many '
     'reads the file takes and from wherever it is positioned; so do binary octets and a file of them. Octets that are not valid UTF-8, or that end inside '
     'a character, are rejected and never read as other text.',
     ['inputs'], 'all texts and all octet sequences',
     'Multi-octet characters can stand in strings, symbols, comments and clobs, be malformed in many ways, and be cut '
     'between reads; tests use a few characters.',
     ['simpleion.py', 'reader_text.py', 'reader.py'],
     [('load, loads, _Utf8Reader', 'simpleion.py'), ('blocking_reader, BufferQueue', 'reader.py'),
      ('_next_code_point_handler', 'reader_text.py')])

prop('C31', 'What was read can be written again, in either format',
     'Values that load returned, written with dump as binary, as text or as indented text, are read back as the same '
     'values: same number, Ion types, annotations, field names and order of fields, and contents, with the digits of '
     'decimals and the precision, fraction and offset of timestamps. The events of a raw reader, sent to a raw text '
     'writer, are read back as the same events. (Not so for symbols of unknown text other than $0, and for offsets of '
     'timestamps without a time, which text cannot say.)',
     ['inputs'], 'all documents that can be read',
     'Tests write values built by hand; what a reader makes of an unusual token may be a value that no test builds.',
     ['simpleion.py', 'reader_text.py', 'reader_binary.py', 'writer_text.py', 'writer_binary.py', 'simple_types.py'],
     [('load, dump', 'simpleion.py'), ('to_event', 'simple_types.py'), ('_raw_writer_coroutine', 'writer_text.py'),
      ('binary_writer', 'writer_binary.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
