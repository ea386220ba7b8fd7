#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
A = 'amazon/ion/'

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[A + f for f in files],
                               mechanism=[dict(name=n, where=A + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=A + w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))

prop('C01', 'Binary reading yields exactly the values the octets denote',
     'Reading any well-formed Ion 1.0 binary stream yields, in order, exactly the values the Ion specification says '
     'its octets denote: type, value, annotations, field names, nesting, nulls, and the signs and precision of '
     'numbers and timestamps. This holds for every legal encoding of a value (padded or non-minimal length and '
     'symbol-ID fields, NOP padding anywhere it is legal, ordered structs, 32-bit floats, repeated version markers), '
     'and NOP padding never shows up as a value.',
     ['inputs'], 'every well-formed binary Ion stream, in every legal encoding of its values (nesting up to about 200)',
     'The tests list a few dozen hand-written byte strings with their events; legal encodings are unbounded and '
     'combine freely (padding inside annotated structs inside ordered structs ...).',
     ['reader_binary.py', 'reader_managed.py', 'simpleion.py'],
     [('octet dispatch table and length-limited handlers', 'reader_binary.py:_HANDLER_DISPATCH_TABLE'),
      ('scalar parsers behind value thunks', 'reader_binary.py:_int_factory,_decimal_factory,_timestamp_factory')],
     ['events of binary_reader through blocking_reader and managed_reader', 'result of load/loads'],
     [('container limit', 'absolute position at which the current container ends', 'reader_binary.py:_HandlerContext')])

prop('C02', 'Text reading yields exactly the values the characters denote',
     'Reading any well-formed Ion 1.0 text, given as Unicode text or as its UTF-8 bytes, yields, in order, exactly '
     'the values the Ion specification says it denotes: type, value, annotations, field names, nesting, nulls, and '
     'the signs and precision of numbers and timestamps. This holds for every legal notation of a value (radix and '
     'underscores in integers, exponent forms, short and long strings and their concatenation, every escape, quoted, '
     'unquoted and operator symbols, symbol identifiers, lobs) and for every placement of whitespace and comments.',
     ['inputs'], 'every well-formed Ion text document as Unicode or UTF-8 (nesting up to about 200)',
     'The tests pair sample documents with events; the grammar is infinite and its states interact (what ends one '
     'token begins the next), so samples cannot settle it.',
     ['reader_text.py', 'reader_managed.py', 'simpleion.py'],
     [('character-driven handler state machine', 'reader_text.py:_container_handler and the handlers it dispatches to')],
     ['events of text_reader through blocking_reader and managed_reader', 'result of load/loads'])

prop('C03', 'Binary output is legal Ion that denotes exactly what was written',
     'Whatever values are written with the binary writer (at event level or with dump and dumps), the bytes form a '
     'legal Ion 1.0 binary stream, starting with a version marker, that an independent strict reader of the '
     'specification decodes to exactly those values: types, annotations, field names including repeated ones and '
     'symbol zero, order, nesting, exact numbers and timestamps. Every length field agrees with what it covers and '
     'every symbol ID that is used is defined by the symbol tables in force.',
     ['inputs', 'configurations'], 'every sequence of Ion values, any shared-table imports, timestamps with a known '
     'offset having at least minute precision and whole-minute offsets',
     'The tests compare the bytes of a few values with constants; length and symbol bookkeeping depends on sizes '
     'and combinations (14-octet, 64/127/128-octet and 16 KiB boundaries at each level) that samples miss.',
     ['writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py', 'writer_buffer.py', 'simpleion.py'],
     [('buffer tree that prepends headers after contents', 'writer_buffer.py:BufferTree'),
      ('variable and fixed size integer fields', 'writer_binary_raw_fields.py:_write_base')],
     ['bytes produced by blocking_writer over binary_writer, by dump and by dumps'])

prop('C04', 'Text output is legal Ion that denotes exactly what was written',
     'Whatever values are written with the text writer (at event level or with dump and dumps), with any whitespace '
     'indentation and with or without the leading version marker, the output is legal Ion 1.0 text that an '
     'independent strict reader of the specification decodes to exactly those values, whatever characters appear in '
     'strings, symbols, field names, annotations and lobs. Indentation changes nothing but whitespace.',
     ['inputs', 'configurations'], 'every sequence of Ion values, every indent of Ion whitespace; timestamps with a '
     'known offset having at least minute precision and whole-minute offsets',
     'The tests compare sample output with constants; quoting and escaping must be right for every character in '
     'every position and for every following token.',
     ['writer_text.py', 'simpleion.py'],
     [('quoting and escaping', 'writer_text.py:_symbol_needs_quotes,_bytes_text'),
      ('delimiters and indentation', 'writer_text.py:_raw_writer_coroutine')],
     ['bytes produced by blocking_writer over text_writer, by dump and by dumps'])

prop('C05', 'Dump and load round-trip and transcode without loss',
     'Loading what was dumped gives back an equal value in the Ion data model (type, annotations, exact number, '
     'precision, structure, repeated struct fields), in text and in binary, and dumping the loaded value again gives '
     'the same output as the first dump of a loaded value. Text transcoded to binary and back, any number of times, '
     'never changes the data.',
     ['inputs', 'configurations'], 'every native Python or Ion-typed value that dump accepts and whose symbols all '
     'have text, in both formats, with any indentation, imports and catalog',
     'Round-trip is a law over all values and chains of formats; the tests sample single values and one hop.',
     ['simpleion.py', 'simple_types.py', 'reader_text.py', 'reader_binary.py', 'writer_text.py', 'writer_binary.py'],
     [('conversion between values and events', 'simpleion.py:_dump,_load'),
      ('Ion nature of Python values', 'simple_types.py:_IonNature')],
     ['dump, dumps, load, loads'])

prop('C06', 'How input is split into chunks never changes what is read',
     'An incremental reader yields the same events and the same accept-or-reject outcome for a given input however '
     'it is cut into non-empty pieces, including one byte or character at a time and cuts inside a multi-byte '
     'character, escape, token, length field or skipped value. Whenever it runs out of data it asks for more by '
     'signalling either an incomplete value or a possible end of stream, never fails or loses data because of a cut, '
     'and signals end of stream only where the data so far is a complete sequence of values.',
     ['schedules', 'inputs'], 'every text or binary input and every partition of it into chunks, every buffer size',
     'There are exponentially many partitions of each input; the tests feed whole values or single bytes for a '
     'few inputs.',
     ['reader.py', 'reader_binary.py', 'reader_text.py', 'reader_managed.py'],
     [('queue of buffer segments', 'reader.py:BufferQueue'), ('resumable handlers', 'reader.py:reader_trampoline')],
     ['events yielded for each DATA/NEXT sent to a reader'],
     [('queue position', 'how many units were consumed since the start', 'reader.py:BufferQueue.position')])

prop('C07', 'Skipping a container equals reading and discarding it',
     'Asking a reader to skip, at any moment inside a container of well-formed data, moves straight to the end of '
     'the innermost container that is open, and everything reported afterwards (values, symbol text, annotations, '
     'depths, field names) is what a reader that visited and discarded those values would have reported. This holds '
     'for any combination of skips, in text and binary, at any chunking. Skipping in input that is cut short ends in the same way as reading it: an open container is not taken for complete.',
     ['histories', 'inputs', 'schedules'], 'every well-formed document, every sequence of next/skip requests and every '
     'chunking', 'The set of skip points times documents times chunkings is unbounded; tests skip a few fixed '
     'containers.',
     ['reader_binary.py', 'reader_text.py', 'reader.py', 'reader_managed.py'],
     [('length-based skipping', 'reader_binary.py:_read_data_handler'),
      ('depth-tracking skip', 'reader_text.py:_skip'), ('system value skipping', 'reader_managed.py')],
     ['events after each SKIP'])

prop('C08', 'Reader event streams are well-formed',
     'The events any reader yields always form a properly nested tree: starts and ends match in type and depth, '
     'depths are exact, field names appear exactly on the children of structs, containers carry no value, end of '
     'stream appears only at the top level, and system data (version markers, local symbol tables, padding) is '
     'never shown by a managed reader. Requests that break the protocol (skipping at the top level, data when none '
     'was asked for, empty data, starting with anything but next, next when more data is required) are refused with '
     'an error instead of producing events.',
     ['histories', 'inputs', 'schedules'], 'every input, valid or not, and every legal or illegal sequence of requests',
     'It is a safety property of all event traces; tests compare traces of chosen inputs and a few misuses.',
     ['reader.py', 'reader_binary.py', 'reader_text.py', 'reader_managed.py'],
     [('trampoline checks on requests', 'reader.py:reader_trampoline'), ('depth bookkeeping', 'reader_binary.py:_HandlerContext')],
     ['every event and exception of raw and managed readers'])

prop('C09', 'Malformed or truncated Ion is rejected, never misread',
     'Reading input that is not well-formed Ion 1.0 (bad grammar, illegal characters or escapes, out-of-range '
     'numbers and dates, bad lengths, illegal type octets, undefined symbol IDs, truncation anywhere inside a value, '
     'malformed symbol tables) ends in an error and never silently yields made-up data, and the values reported '
     'before the error are exactly those the well-formed prefix denotes. The error is an IonException, or the ValueError '
     'or OverflowError of a value out of range (for binary data also the TypeError that says that data is missing), not '
     'an internal failure. Reading well-formed input never fails.',
     ['inputs'], 'every mutation or truncation of text and binary Ion that an independent strict decoder classifies '
     'with certainty',
     'The tests list some bad inputs; the set of malformed inputs is unbounded and each parser state has its own '
     'ways to accept too much.',
     ['reader_text.py', 'reader_binary.py', 'reader_managed.py', 'simpleion.py', 'core.py'],
     [('illegal-character errors', 'reader_text.py:_illegal_character'), ('length and limit checks', 'reader_binary.py')],
     ['outcome of load/loads and of readers at event level'])

prop('C10', 'Symbols are resolved by the tables in force at each point',
     'A managed reader resolves every symbol ID in values, field names and annotations to what the symbol tables in '
     'force at that point of the stream define: system symbols, imports in order (exact, substituted or missing per '
     'the catalog and their declared version and size), then local symbols, with appended, replaced and reset tables '
     'taking effect exactly from their position on. Values delivered earlier keep their meaning, symbols with '
     'unknown text keep their import location or stay unknown, and an undefined ID is an error.',
     ['histories', 'inputs', 'configurations'], 'every sequence of version markers, symbol table declarations (including '
     'odd but legal ones) and values, in text and binary, with every catalog content',
     'The state is a history of table declarations crossed with catalogs; tests run a few scripted histories.',
     ['reader_managed.py', 'symbols.py'],
     [('symbol table context', 'reader_managed.py:_ManagedContext,_local_symbol_table_handler'),
      ('import resolution', 'symbols.py:SymbolTableCatalog.resolve')],
     ['tokens in events of managed_reader', 'load with a catalog'],
     [('current context', 'the table that resolves symbol IDs', 'reader_managed.py:managed_reader')])

prop('C11', 'Symbol tables and catalogs behave like append-only ordered dictionaries',
     'Under any sequence of operations a symbol table assigns consecutive IDs starting after its system and imported '
     'symbols, lookups by text return the first definition, lookups by ID return the exact symbol, interning is '
     'idempotent and never changes existing entries, shared tables never change, and equality compares contents. A '
     'catalog resolves an import to the exact table when it is present, otherwise to a table of exactly the requested '
     'size built from the highest registered version and padded with unknown symbols or cut, and reports an error '
     'when that is impossible.',
     ['histories', 'inputs'], 'every sequence of constructions, interns, lookups, registrations and resolutions',
     'It is a law over operation histories; tests exercise short fixed ones.',
     ['symbols.py'],
     [('token list and text mapping', 'symbols.py:SymbolTable'), ('catalog', 'symbols.py:SymbolTableCatalog')],
     ['return values and exceptions of the symbol table and catalog API'])

prop('C12', 'The binary writer keeps symbol tables consistent across flushes and imports',
     'Over any history of values, flushes and imported tables, each flushed segment of binary output is on its own '
     'decodable, declares exactly the imports it was given and only the local symbols it uses, gives every text one '
     'ID (the imported one when an import defines it), and never refers to symbols of an earlier segment. Nothing is '
     'written before a flush except version markers, each value written is output exactly once and in order, and '
     'empty flushes add nothing.',
     ['histories', 'configurations'], 'every sequence of writes and flushes, every list of shared tables',
     'Tests check one or two flushes with one import; the guarantee is about unbounded histories.',
     ['writer_binary.py', 'writer_buffer.py', 'symbols.py'],
     [('symbol table coroutine', 'writer_binary.py:_symbol_table_coroutine'),
      ('managed writer state', 'writer_binary.py:_managed_binary_writer_coroutine')],
     ['data events of binary_writer, output of blocking_writer'],
     [('local symbols', 'symbols interned since the last flush', 'writer_binary.py:_symbol_table_coroutine')])

prop('C13', 'Ion equivalence is an equivalence relation that matches the data model',
     'The equality test for Ion values is reflexive, symmetric and transitive, and is true exactly when the Ion data '
     'model says the values are the same: type, annotations in order, exact decimals and floats with signed zeros '
     'and NaN, timestamps with precision and offset (or just the instant on request), lists in order and structs as '
     'unordered collections with repeated fields. It does not depend on how the value came about (loaded from text '
     'or binary, or built by hand), and native Python values equal the unannotated Ion values they stand for.',
     ['inputs'], 'every pair and triple of values, native, Ion-typed or mixed',
     'Laws over all pairs and triples cannot be sampled by a fixed table of pairs.',
     ['equivalence.py', 'core.py', 'simple_types.py'],
     [('type-directed comparison', 'equivalence.py:_ion_equals')], ['result of ion_equals'])

prop('C14', 'Timestamps keep their fields, precision and offset',
     'A timestamp made, read, written, copied or converted keeps its year-to-second fields, its precision, the exact '
     'fraction of a second with its number of digits, and its offset (unknown, or exact to the minute), also when '
     'conversion to or from UTC crosses a day, month, year or leap-day boundary. The microsecond field always equals '
     'the fraction truncated to six digits, contradictory or out-of-range arguments are refused with an error, and a '
     'plain datetime is written with all six microsecond digits.',
     ['inputs'], 'every date, time, fraction, precision and whole-minute offset whose local and UTC forms lie in years '
     '1 to 9999 (known offsets with at least minute precision)',
     'The field space is far beyond samples, and errors hide at calendar boundaries and digit counts.',
     ['core.py', 'reader_binary.py', 'reader_text.py', 'writer_text.py', 'writer_binary_raw.py', 'simple_types.py'],
     [('construction and normalisation', 'core.py:Timestamp'), ('UTC shift', 'core.py:Timestamp.adjust_from_utc_fields')],
     ['fields of Timestamp values', 'text and binary output'])

prop('C15', 'Numbers survive exactly',
     'Integers of any size, decimals of any precision and exponent (including negative zero and trailing zeros) and '
     'floats (every bit pattern up to the NaN payload, signed zeros, infinities, subnormals) are read, written and '
     'transcoded without any rounding or loss, independently of the decimal context of the calling thread. Decimals '
     'that Ion cannot represent (NaN and infinities) are refused.',
     ['inputs', 'configurations'], 'every integer, decimal and float, in text and binary, under every decimal context',
     'Precision loss shows only at particular magnitudes, digit counts and context settings.',
     ['reader_binary.py', 'reader_text.py', 'writer_text.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py'],
     [('binary numeric fields', 'writer_binary_raw_fields.py,reader_binary.py'), ('text numbers', 'reader_text.py,writer_text.py')],
     ['values of events and of dump/load under varied decimal contexts'])

prop('C16', 'Loaded values behave as the native Python values they extend',
     'A loaded value behaves under Python operations (arithmetic, comparison, hashing, iteration, indexing, slicing, '
     'formatting) as the native value it extends, and carries its Ion type and annotations. Copying, deep-copying '
     'and pickling it give a value that is equal, has the same Ion type and annotations and dumps to the same '
     'output, constructing one from a value or an event keeps type and annotations, and the null test is true for '
     'None and Ion nulls of every type and for nothing else.',
     ['inputs', 'programs'], 'every Ion value and native operation, every pickle protocol',
     'Tests check construction of single values; behaviour of all types under all operations is a cross product.',
     ['simple_types.py', 'core.py', 'util.py', 'symbols.py'],
     [('mix-in of Ion nature', 'simple_types.py:_IonNature,_ion_type_for')],
     ['results of operations on loaded values', 'copy, pickle'])

prop('C17', 'Structs behave as ordered multi-valued mappings',
     'Under any sequence of additions, assignments, deletions and lookups a struct keeps every value added under a '
     'field, in order, gives the most recent one for plain lookup, replaces all of them on assignment and removes all '
     'of them on deletion, and its length, iteration, item list and membership agree with that at every moment. '
     'Reading, writing and comparing structs see exactly these fields.',
     ['histories'], 'every sequence of operations on a struct value, and the structs read from any document',
     'It is a law over operation histories; the tests run a handful of short ones.',
     ['core.py', 'simple_types.py', 'simpleion.py'],
     [('multi-valued store', 'core.py:Multimap')], ['the mapping interface of struct values, dump and load'],
     [('store', 'field name to list of values', 'core.py:Multimap')])

prop('C18', 'Readers, writers and calls are independent of each other',
     'Any number of readers, writers, loads, dumps and comparisons interleaved in one thread or running in several '
     'threads give the results each would give alone: nothing leaks between them through shared tables, caches, '
     'catalogs or arguments. A call never modifies the values, catalog, tables or buffers it is given, repeating it '
     'gives the same result, and one that fails leaves no trace in later calls.',
     ['schedules', 'histories'], 'every interleaving of steps of independent readers and writers, threads with shared '
     'inputs, and failing calls in between',
     'Tests run one reader or writer at a time, in one thread, with fresh inputs.',
     ['reader.py', 'reader_binary.py', 'reader_text.py', 'reader_managed.py', 'writer_binary.py', 'writer_binary_raw.py',
      'writer_text.py', 'simpleion.py', 'symbols.py', 'core.py'],
     [('per-instance coroutines', 'reader.py:reader_trampoline, writer.py:writer_trampoline'),
      ('module-level tables meant to be read only', 'reader_binary.py:_HANDLER_DISPATCH_TABLE, writer_binary_raw.py:_NULLS')],
     ['results of interleaved, threaded and repeated calls compared with isolated ones'])

prop('C19', 'I/O faults and short reads surface, and lose or invent nothing',
     'With a source that returns short reads of any size, or a sink, that fails at any call, loading and dumping '
     'either complete with the same result as without the fault or raise that error to the caller: they never return '
     'partial data as if complete, never swallow the error and never loop. What reached the sink before the fault is '
     'a prefix of the fault-free output, and input is read from the current position of the source on.',
     ['fault_sequences', 'inputs'], 'every position of a read, write, seek or tell failure and every short-read pattern, '
     'in text and binary',
     'The tests use in-memory files that never fail and always return full buffers.',
     ['simpleion.py', 'reader.py', 'writer.py'],
     [('blocking loops', 'reader.py:blocking_reader, writer.py:blocking_writer')],
     ['load, dump, blocking_reader and blocking_writer over fault-injecting files'])

prop('C20', 'Writers enforce the event protocol and report pending output honestly',
     'For any sequence of events, a writer accepts exactly those that keep the output well-formed: ending a '
     'container that is not open, ending the stream inside one, a value that does not fit its declared type, an '
     'event while output is pending or no event when input is due are refused with an error. For accepted '
     'sequences the pieces it hands out form the output in order, it says output is pending as long as there is '
     'some, and it reports completion exactly when every event given so far has been fully handed out: in text after '
     'every top-level value, in binary at the end of a stream.',
     ['histories'], 'every sequence of legal and illegal events to the text and binary writers and every drain pattern',
     'The protocol is a property of all event histories; tests script a few.',
     ['writer.py', 'writer_text.py', 'writer_binary.py', 'writer_binary_raw.py'],
     [('trampoline checks', 'writer.py:writer_trampoline'), ('scalar type validation', 'writer.py:validate_scalar_value')],
     ['data events and exceptions of text_writer and binary_writer'])

prop('C21', 'Internal buffers conserve and order data',
     'Under any sequence of operations the read queue behaves as one contiguous sequence of bytes or characters: '
     'reads, single-unit reads, unreads and skips return and consume exactly the next units whatever the segment '
     'boundaries, and length and position always account for every unit. The write tree yields on drain exactly the '
     'pieces that were added, each container header directly before the contents of its container, with exact '
     'container lengths, and is empty afterwards.',
     ['histories'], 'every sequence of buffer operations and segmentations',
     'Model conformance over operation histories; tests run fixed ones.',
     ['reader.py', 'writer_buffer.py', 'writer_binary_raw_fields.py'],
     [('segment queue', 'reader.py:BufferQueue'), ('tree of buffers', 'writer_buffer.py:BufferTree')],
     ['return values, length and position after every operation'],
     [('segments, offset, size', 'queue contents', 'reader.py:BufferQueue')])

prop('C22', 'Events, records, enumerations and code points obey their value laws',
     'Events compare equal exactly when all their components are equal under the Ion rules for values, whether '
     'computed eagerly or lazily, deriving one changes only the named component, and a lazy value is computed at most '
     'once. Records and enumerations are immutable values with the declared fields, defaults and members, and '
     'iterating over the code points of a text yields each one exactly or reports an unpaired surrogate.',
     ['inputs', 'histories'], 'every combination of event components, every record declaration and every text',
     'Value laws over all components; tests compare a few pairs.',
     ['core.py', 'util.py'],
     [('event equality and derivation', 'core.py:IonEvent,IonThunkEvent,MemoizingThunk'),
      ('records, enumerations, code points', 'util.py')],
     ['results of the API of events, records, enumerations and text iteration'])

prop('C23', 'Load and dump options mean what they say',
     'The options of load and dump have exactly their documented effect on every input: a sequence dumped as a '
     'stream yields its elements as top-level values, tuples become s-expressions only on request at every depth, '
     'a single value is required exactly when asked for, the format is chosen by the version marker at the current '
     'position, text output is text and binary output is bytes, and file and string forms agree. Every Python value '
     'of a supported type maps to its documented Ion type and any other is refused with a type error.',
     ['inputs', 'configurations'], 'every value and every combination of the documented options',
     'Options multiply with values and nesting; the tests try each with a few values.',
     ['simpleion.py'],
     [('type table', 'simpleion.py:_ion_type'), ('stream handling', 'simpleion.py:dump,load')],
     ['dump, dumps, load, loads with options'])

prop('C24', 'JSON down-conversion keeps what JSON can express',
     'Encoding any Ion value, loaded from either format or made by the program, alone or inside lists and dictionaries '
     'of Python, with json.dumps and the JSON encoder of the library yields valid JSON under every option of json.dumps, and '
     'this JSON says what the value says: integers exactly, floats bit for bit, decimals as the nearest float (where '
     'there is a finite one), texts, symbols and clobs character by character, blobs in base64, timestamps as Python '
     'writes them, lists and s-expressions as arrays, structs as objects in the order of their fields (of repeated fields the '
     'last), and null for nulls of every type, non-finite floats and symbols without text. Annotations are dropped, and '
     'the value itself is not changed. (The encoder supports CPython only.)',
     ['inputs', 'configurations'], 'every value of every type at any depth, and every option of json.dumps',
     'A conversion over the whole data model; the tests try one value per type, and none under PyPy.',
     ['json_encoder.py', 'simple_types.py'],
     [('conversion by type', 'json_encoder.py:IonToJSONEncoder.default'), ('choice of values to convert', 'json_encoder.py:IonToJSONEncoder.isinstance')],
     ['json.dumps(value, cls=IonToJSONEncoder)'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
