J = 'src/core/json/'
ENC, DEC, TOK = J + 'encoder.rs', J + 'decoder.rs', J + 'tokenizer.rs'
DS = 'src/core/data_source.rs'
TYP = 'src/core/types/mod.rs'
UTIL = 'src/core/util.rs'
VAL = 'src/core/value.rs'
SYM = 'src/sql/symbols.rs'
STOR, SUTIL = 'src/storage/mod.rs', 'src/storage/utils.rs'
SCHEMA = 'src/sql/schema.rs'
SQLT = 'src/sql/ast/typing.rs'
NSM = 'src/core/nsm.rs'
MARSH = 'src/core/marshaller.rs'
GRAM = 'src/sql/parser.lalrpop'
TGRAM = 'src/core/types/parser.lalrpop'
AST = 'src/sql/ast/mod.rs'
PROPS = [
 dict(id='C01', title='JSON string encoding denotes exactly the stored characters',
      statement='For every string, field label, case label and single-character value, the JSON encoder writes a JSON string literal '
                'that is valid by RFC 8259 and denotes exactly the stored characters, in order, with none lost, repeated or altered. '
                'This holds for control characters, quotes, backslashes and every Unicode scalar value.',
      over=['inputs'], quant='all strings over all Unicode scalar values, at every nesting position of a document',
      why='the tests encode a few ASCII strings; escape and UTF-8 boundary values (U+0000..U+001F, U+007F/0080, U+07FF/0800, U+8000, U+FFFF/10000) are never written',
      files=[ENC], mech=[('string and character emitters', ENC)], na=''),
 dict(id='C02', title='JSON string literals decode to the characters they denote',
      statement='Reading a JSON string literal yields exactly the characters it denotes: raw characters as they are, the eight short '
                'escapes, four-digit unicode escapes in either letter case and surrogate pairs combined into one character. '
                'A literal with a raw control character, an unknown or incomplete escape, an unpaired surrogate or no closing quote is rejected.',
      over=['inputs'], quant='all string literals, of any length, after any earlier tokens',
      why='the tests read plain ASCII literals; the escape grammar has unboundedly many inputs and no malformed escape is tested',
      files=[TOK], mech=[('string literal scanner', TOK), ('escape decoding', TOK)], na=''),
 dict(id='C03', title='The JSON tokenizer accepts exactly the RFC 8259 token grammar',
      statement='The tokens delivered for an input are those of RFC 8259: the six punctuation marks, the three keywords, strings and numbers in the '
                'JSON number grammar, separated by the four JSON whitespace characters, and the end of input only at the end. '
                'The text delivered for a number is exactly the characters of that number, and input that is not a token sequence is reported as an error.',
      over=['inputs'], quant='all character sequences, token by token, from the start to the end of the input',
      why='the tests tokenise a handful of well-formed fragments; nothing checks malformed numbers, keyword prefixes or unusual whitespace',
      files=[TOK], mech=[('token dispatch, number and keyword scanners', TOK)], na=''),
 dict(id='C04', title='The JSON decoder accepts exactly the documents of its type',
      statement='For every type, decoding succeeds exactly on the documents of that type (unit, primitive, string, tuple as array, struct as object with '
                'each field once in any order, enum as kind/value object) with nothing but whitespace after them, and stores each value, string and '
                'case index under the component path it belongs to. Any other document is rejected, and an error of a nested value is never dropped.',
      over=['inputs', 'programs'], quant='all types (structs of arity 0..3 analysed field by field, nesting by induction) and all token sequences',
      why='three well-formed documents are decoded by the tests; rejection of ill-formed ones, field order and nesting are not tested',
      files=[DEC], mech=[('parser built from a type', DEC), ('per-kind parsers', DEC)], na=''),
 dict(id='C05', title='The JSON encoder writes the document of the type, nothing else',
      statement='For every type and data source, the encoder writes exactly one complete JSON document of that type: null for unit, a literal for primitives, '
                'an array of all components for tuples, an object with every field label once in declaration order for structs and a kind/value object for enums, '
                'each component read from its own path. Numbers that JSON cannot express are written as strings.',
      over=['inputs', 'programs'], quant='all types of any arity and nesting depth and all values of their components',
      why='the tests encode three fixed types; separators, empty tuples and structs, component order and non-finite floats are not covered',
      files=[ENC], mech=[('emitter built from a type', ENC), ('per-kind emitters', ENC)], na=''),
 dict(id='C06', title='JSON encoding reports success only when every byte was written',
      statement='When encoding reports success, every byte of the document has been accepted by the writer; a writer that fails, at whatever '
                'point and however little it accepts at a time, makes encoding fail with that error. No error of the writer is dropped or replaced by success.',
      over=['fault_sequences', 'inputs'], quant='every write may fail or accept fewer bytes than offered, at every point of every document',
      why='the tests write into a vector, which never fails and never writes short',
      files=[ENC], mech=[('all writes of the emitters', ENC)], na=''),
 dict(id='C07', title='Reading JSON never panics and always terminates',
      statement='Tokenising any input, valid or not, ends with tokens or an error after reading each character a bounded number of times; it never panics and never loops '
                'without consuming input.',
      over=['inputs'], quant='all character sequences',
      why='the tests use valid input only; a panic or endless loop on malformed input is invisible to them',
      files=[TOK, DEC], mech=[('tokenizer entry points', TOK)], na=''),
 dict(id='C18', title='A decode leaves nothing of an earlier decode in its destination',
      statement='Decoding into a destination that already holds values, strings or case indices from an earlier decode never lets any of them '
                'show through: whatever the input, valid or not, what the destination holds after decoding was written by this decode.',
      over=['histories', 'inputs'], quant='all sequences of decodes into one destination, whether each succeeds or fails',
      why='every test decodes into a fresh destination',
      files=[DEC, DS], mech=[('decode entry point', DEC), ('clear of the in-memory source', DS)], na=''),
 dict(id='C08', title='Every table over the primitive types agrees with the type it names',
      statement='For each primitive type the library says the same thing everywhere: a value of that type reports that type as its own, the type tag '
                'of the corresponding Rust type is that type, and its encoded size is the size of that Rust type. No two types are confused.',
      over=['inputs'], quant='all primitive types and all values of them',
      why='the tests use four of the fourteen types; nothing compares the tables with each other',
      files=[TYP, VAL], mech=[('size and tag tables', TYP), ('type of a value', VAL)], na=''),
 dict(id='C09', title='A component name resolves to the path of that component',
      statement='Resolving a dotted name in a type yields, label by label, the index of the struct field, enum case or tuple component it names, at any depth and '
                'for any number of components; a name that denotes nothing is rejected with an error and never panics. Extracting along a path yields exactly the type of that component.',
      over=['inputs', 'programs'], quant='all types and names (arities 0..3 and 300, kinds nested in each other, nesting depths up to 40)',
      why='the tests resolve three names in small types; wrong names, index limits, deep nesting and boundary indexes are not tested',
      files=[TYP], mech=[('name resolution', TYP), ('component extraction', TYP)], na=''),
 dict(id='C10', title='Component paths have a total order that agrees with equality and prefix',
      statement='Two paths are equal exactly when all their components are; the order is lexicographic, total and agrees with equality, so that ordered maps keep '
                'every path apart. A path is a prefix of another exactly when its components start the other, and a proper prefix when it is also shorter.',
      over=['inputs'], quant='all pairs of paths (lengths 0..3 with arbitrary components, up to 65 with an arbitrary differing component)',
      why='no test compares paths; the maps that rely on the order hold a handful of them',
      files=[TYP], mech=[('comparison of paths', TYP)], na=''),
 dict(id='C11', title='SQL names compare without regard to letter case, in any script',
      statement='Two SQL names are equal, and compare as equal in the order, exactly when their spellings agree up to the case of letters, for all letters and not just ASCII ones. '
                'Equality and order agree with each other and with comparison to plain text, and a name keeps and displays the spelling it was given.',
      over=['inputs'], quant='all pairs of names',
      why='names are not tested; letters whose other case has a different length or lies outside ASCII never occur',
      files=[SYM], mech=[('comparison of names', SYM)], na=''),
 dict(id='C27', title='An error value keeps its message and its cause',
      statement='An error shows exactly the message it was made with, whatever its length, reports failure to its formatter faithfully, names the error it wraps as its cause, and names none if it wraps none. '
                'Making, displaying or inspecting an error never panics.',
      over=['inputs', 'fault_sequences'], quant='all messages, causes and formatters, including failing ones',
      why='no test looks at an error value',
      files=[UTIL, 'src/sql/mod.rs'], mech=[('error type', UTIL), ('SQL error type', 'src/sql/mod.rs')], na=''),
 dict(id='C28', title='Every program identifies itself and the package it belongs to',
      statement='Each of the programs presents itself under its own role in its help and its banner, never that of another program, and shows the version, author and description of the package. '
                'The library constants agree with the package manifest.',
      over=['inputs'], quant='all programs of the package',
      why='the programs are not tested at all',
      files=['src/bin/cli.rs', 'src/bin/coordinator.rs', 'src/bin/router.rs', 'src/bin/storage.rs', 'src/lib.rs'], mech=[('main functions', 'src/bin')], na=''),
 dict(id='C30', title='The in-memory data source returns what was stored last under a path',
      statement='Asking the in-memory data source for a value, string or case index yields exactly what was stored last under that path, for every type and whatever was stored elsewhere or before; '
                'after clearing it holds nothing. The length of a string is its length in bytes.',
      over=['inputs', 'histories'], quant='all values of all types, all paths, stores in any order',
      why='the one test stores four values under distinct paths and never stores one twice',
      files=[DS], mech=[('stores and look-ups', DS)], na=''),
 dict(id='C19', title='A SQL statement is accepted only if every part of it was checked',
      statement='A statement passes validation only if every expression, condition, guard, sub-query, table, column list and clause in it was itself checked and found well-typed: '
                'an error in any part, however deep and in whichever position, makes the statement fail. No part is skipped and no error is dropped.',
      over=['inputs'], quant='all statements and expressions, part by part; nesting by induction (lists and CASE branches of 0..24 elements)',
      why='the tests only parse statements; none validates one, let alone an ill-typed one',
      files=[SQLT], mech=[('infer_type and validate_type of every construct', SQLT)], na=''),
 dict(id='C20', title='Every SQL expression has the type and nullability of its operator',
      statement='The type of an expression follows from the types of its operands by the rules of SQL: arithmetic needs numbers, logic needs logical values, ordering and comparison need operands of one type, '
                'a comparison is logical, a null test is logical and never null, CASE has the type of its branches, a sub-select that of its single column. A result may be null exactly when an operand may be '
                'or a branch is missing. Ill-typed operands are rejected and well-typed ones accepted.',
      over=['inputs'], quant='all operators with operands of every type and nullability, tuples included',
      why='no test infers the type of an expression',
      files=[SQLT], mech=[('infer_type of an expression', SQLT)], na=''),
 dict(id='C21', title='Validating a SQL statement never panics',
      statement='Validating a statement, whatever it contains (empty lists, tuples in place of values, unknown names, a schema that does not exist), '
                'ends with a type or an error and never panics.',
      over=['inputs'], quant='all constructs with operands of every type, unknown and ambiguous names',
      why='no test validates a statement; odd but parseable statements never occur',
      files=[SQLT], mech=[('infer_type and validate_type of every construct', SQLT)], na=''),
 dict(id='C22', title='Rows agree in number, type and name of columns wherever they meet',
      statement='Wherever SQL puts rows together they must agree: the rows of VALUES and the operands of UNION, INTERSECT and EXCEPT in number and type of columns, the columns of a join in name and type, '
                'the source of INSERT and the assignments of UPDATE with their target columns in number, type and nullability, each target named once and no mandatory column left out. '
                'Queries have the columns they select, in order, under their names, and a column of a table or view has the type and nullability its catalog entry gives it.',
      over=['inputs'], quant='all clauses with row shapes of 0..4 columns of differing types and nullability, up to 12 rows',
      why='no test validates an INSERT, UPDATE, join or set operation',
      files=[SQLT], mech=[('infer_type of set expressions and tables', SQLT), ('validate_type of statements', SQLT)], na=''),
 dict(id='C31', title='Every SQL name denotes the one column or table in scope',
      statement='A column name denotes the single column of that name among the relations in scope at its place, or, qualified, that of the relation of that name; a table name denotes the common table expression '
                'in scope, else the table of the default or given schema. Names that denote nothing or are ambiguous, and relations named twice, are rejected, and no name that denotes one thing is. '
                'Letter case does not matter. Result columns keep their names and never share one.',
      over=['inputs'], quant='all names, relations and schemas up to equality of names, at every place of a statement (joins, sub-selects, WITH, ORDER BY, LIMIT, INSERT, UPDATE, DELETE)',
      why='no test resolves a name',
      files=[SQLT], mech=[('scalar and set contexts', SQLT), ('result column names', SQLT)], na=''),
 dict(id='C24', title='The catalog holds the schemata created, each name once',
      statement='Creating a schema makes an empty schema under the name given, spelled as given, and leaves every other schema as it was; a name that is taken, in whatever letter case, is refused and '
                'nothing changes. Describing an object gives the columns of the table or view of that name in that schema, all of them, in order and as declared; a schema or object that is not there is an error. '
                'Neither panics. (Creating tables and views is not implemented and not covered.)',
      over=['histories', 'inputs'], quant='all names up to equality, over catalogs of 0 to 3 schemata with 0 to 3 objects each',
      why='no test creates a schema or describes an object',
      files=[SCHEMA], mech=[('create_schema, describe', SCHEMA)], na=''),
 dict(id='C25', title='Storage locations, sizes, volume parameters and identifiers are exact',
      statement='A storage location gives back the volume index it was made with and the offset, for every volume index and every offset below 2^56; a larger offset is refused. '
                'Sizes are rounded up to the next multiple of a power of two (where size plus alignment is representable) and a file takes exactly as many blocks as hold its bytes. '
                'Default volume parameters exist exactly for volumes of 1 to 2^32 whole blocks of 4096 bytes; they state that size, the logarithm of that block size, and a file header size that holds a name of 255 bytes and fits in a block. '
                'Every volume identifier is given out at most once, and running out of them is an error, never a panic.',
      over=['inputs', 'histories'], quant='all volume indexes, offsets, sizes and counters; every power-of-two alignment of every width; block sizes 2^9 to 2^18, 1, 2 and 2^31',
      why='no test covers the storage module',
      files=[STOR, SUTIL], mech=[('Location, VolumeParameters, VolumeManager::next_volume', STOR), ('align_*, calc_file_blocks', SUTIL)], na=''),
 dict(id='C26', title='The buffer pool keeps every buffer in its list, and buffers do not overlap',
      statement='A pool can be made for every number of buffers and every power-of-two buffer size, and for no other; it starts with all of its buffers available and clean, none in use or dirty, and memory for all of them. '
                'Putting a buffer in front of or behind a list, or removing one from it, changes the sequence of the list to exactly that, in both directions, for lists of any length and buffers at any position, and touches no other buffer. '
                'The bytes of different buffers are disjoint and inside the memory of the pool.',
      over=['inputs', 'histories'], quant='all lists of 0 to 5 buffers, at small and large indexes, and every operation on every position; all buffer sizes and indexes for the addresses',
      why='no test covers the buffer pool',
      files=[STOR], mech=[('BufferListHead, BufferPool::new, readable_slice, writable_slice', STOR)], na=''),
 dict(id='C29', title='A buffer answers for one location, and not for another while it is used or dirty',
      statement='Accessing a location gives the buffer that holds it, if one does, with its contents untouched and one more handle counted. Otherwise it gives a clean buffer without handles, whose contents are fetched '
                '(or cleared, when the access is to initialize) under the write lock of that buffer before anyone else can read it, and which no longer answers for the location it held before. '
                'When all buffers are in use or dirty, it waits for one to become available, changes nothing, and looks again after it was woken. '
                'A buffer with handles, or with contents not written back, is never given to another location, every location has at most one buffer, and no two buffers share a lock. '
                'Releasing a handle counts one less; releasing the last one takes the buffer out of use: to the dirty buffers, announced to the writer unless it was submitted before, if any handle could have written to it, '
                'else to the available ones, waking whoever waits for one. A lock that goes back to the pool is held by no handle. Read handles hold a read lock, write handles a write lock; '
                'a handle reads and writes the bytes of its own buffer, can be released once, and dropping one that was not released is an error. No other buffer changes.',
      over=['histories', 'schedules'], quant='every access and release from every consistent state of 1 to 3 buffers (4 in thorough), each unused, clean, dirty or in use, in two list orders; handle counts and dirty marks symbolic; what others do while an access waits',
      why='no test covers the buffer pool; a wrong step shows only after the buffer is given to another location',
      files=[STOR], mech=[('BufferPool::buffer_access, access_*, release_*, the buffer handles', STOR)], na=''),
 dict(id='C12', title='Encoded data reads back as what was encoded',
      statement='For every type made of the primitives, units, strings, tuples, structs and enums nested in any way, and for every value of it, encoding the value and reading it back from the bytes '
                'through the marshaller returns every primitive bit for bit, every string byte for byte with its length, and the case of every enum, at every path the value has. '
                'What the buffer held before does not matter, and neither do the values of the other parts.',
      over=['inputs'], quant='all leaf values, string lengths and previous buffer contents of each type and choice of enum cases in the family analysed (51 shapes: all primitives, up to 257 cases, packed bit fields, enums nested three deep)',
      why='a handful of values of five types is tested; offsets depend on every length and case before them',
      files=[MARSH, UTIL], mech=[('layout, encoder and getters', MARSH)], na=''),
 dict(id='C13', title='The encoded size is announced exactly',
      statement='The size the marshaller computes for a value before encoding it is the size encode returns; a buffer of exactly that size suffices, and in a longer one nothing behind that size is written.',
      over=['inputs'], quant='all leaf values, string lengths and buffer lengths of each type and choice of enum cases in the family analysed',
      why='two sizes are tested; the size is a sum of rounded lengths along the chosen cases',
      files=[MARSH, UTIL], mech=[('encoded size and encoder', MARSH)], na=''),
 dict(id='C14', title='Binary data is never accessed outside its buffer',
      statement='Whatever bytes a buffer holds and however long it is, encoding into it, reading parts of a value from it, and using it as a page or through the helpers for values in byte buffers '
                'accesses only bytes inside it (or panics), does not assume that an address is aligned, and does not write to a buffer given for reading. '
                'This holds for truncated and corrupted data, indexes and paths out of range, and sources whose lengths do not match their strings.',
      over=['inputs'], quant='all buffer lengths, contents, offsets and indexes; encoding for every type of the family, reading for every path of its types with up to 40 paths',
      why='accesses through raw pointers that are out of bounds or misaligned do not fail a test reliably',
      files=[MARSH, NSM, UTIL], mech=[('raw accesses of the marshaller', MARSH), ('page operations', NSM), ('get_value and set_value', UTIL)], na=''),
 dict(id='C16', title='A page is the list of its rows',
      statement='After any sequence of initialising a page, appending, inserting and removing rows, the page answers like a list: it has as many rows as the list and each row reads back '
                'byte for byte as it was stored, whatever the page size, the alignment, the lengths and contents of the rows and their positions. '
                'An operation on a row that fits never panics, and an index outside the list is refused.',
      over=['inputs', 'histories'], quant='all page sizes, row lengths and contents; all operation sequences up to the depth analysed (4 operations), alignments 1 to 64',
      why='two fixed histories on one page size and one alignment are tested; row lengths, positions and page sizes are unbounded',
      files=[NSM, UTIL], mech=[('page operations', NSM)], na=''),
 dict(id='C17', title='A page accepts exactly the rows it has room for',
      statement='The maximal row size a page reports is the length of the longest row that fits: the size of the page less its rows, each rounded up to the alignment, less the row count and the offsets of all rows and the new one, '
                'and 0 if that is negative. Appending or inserting a row that does not fit is refused, so rows and offsets never overlap.',
      over=['inputs', 'histories'], quant='all page sizes, row lengths and contents; pages of up to four rows, alignments 1 to 64',
      why='the capacity is checked at two fill levels of one page; the boundary between fitting and not fitting is not tested',
      files=[NSM, UTIL], mech=[('capacity of a page', NSM)], na=''),
 dict(id='C23', title='A SQL text parses to the statement it denotes, and no other text does',
      statement='Every text of the SQL dialect parses to the tree of the statement it denotes, with every clause, name, value and operator in its place: the statements SELECT, VALUES, INSERT, UPDATE, DELETE, ATTACH, DESCRIBE and EXPLAIN '
                'with WITH, joins, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT and set operations; operators bind (tightest first) sign, * / , + - ||, comparisons with IS, IN, BETWEEN and LIKE, NOT, AND, OR, and those of one level group to the left. '
                'Keywords are known in either letter case; names and literals are kept as written, strings without their quotes, lists in order. A text outside the dialect is refused, and none makes the parser panic.',
      over=['inputs'], quant='all texts: the lexer exactly, all productions and pairs of productions of the grammar, the admissible next tokens at every prefix of the sentences',
      why='the tests parse some thirty statements, mostly without looking at the tree',
      files=[GRAM, AST], mech=[('grammar and its actions', GRAM), ('tree constructors', AST)], na=''),
 dict(id='C32', title='A type parses to the type its text denotes, and no other text does',
      statement='Every text of the type language (the unit (), the primitives by name, string, tuples in parentheses, struct and enum with labelled members in braces and an optional trailing comma) parses to the type it denotes, '
                'with all members in order under their labels, at any nesting. Any other text is refused, and none makes the parser panic.',
      over=['inputs'], quant='all texts: the lexer exactly, all productions and pairs of productions of the grammar, the admissible next tokens at every prefix of the sentences',
      why='the tests parse a dozen types and few refusals; long member lists and near-keywords never occur',
      files=[TGRAM, TYP], mech=[('grammar and its actions', TGRAM), ('list construction', TYP)], na=''),
 dict(id='C33', title='Sizes are rounded and bits counted exactly',
      statement='Rounding a size up to a power of two gives the least multiple of it that is not smaller, and a number that is no power of two is refused as alignment. The number of bits of a size is the position of its highest bit, counted '
                'from one, and 0 for 0. The binary logarithm is the exponent of a power of two, and is refused for every other number. None of this depends on how large the numbers are.',
      over=['inputs'], quant='all sizes that can be rounded without overflow for all 64 alignments, all sizes for the bits, all numbers for the logarithm',
      why='the tests use numbers below 2^20; layouts, rows and pages of any size are computed with these functions',
      files=[UTIL], mech=[('align, required_bits, log2', UTIL)], na=''),
]
A = 'abstract interpretation of MIR (all paths) in product with a '
TECH = {
 'C01': (A + 'JSON string automaton; bit provenance of the UTF-8 bytes', 'all documents and characters; induction over the type by per-kind emitters with a symbolic path'),
 'C02': (A + 'string literal decoder automaton', 'all inputs; characters are symbolic, loops generalised to fixpoint'),
 'C03': (A + 'RFC 8259 token automaton', 'all inputs; characters are symbolic, loops generalised to fixpoint'),
 'C04': (A + 'token-level document grammar of the type; final map contents compared', 'struct arities 0..3 in all orders, 64/65 in declaration order; nesting by induction'),
 'C05': (A + 'document automaton generated from the type', 'all types by induction over nesting; loops generalised'),
 'C06': (A + 'writer fault monitor', 'every write call forks into success, short write and error'),
 'C07': ('panic reachability and read-free cycle search on the abstract transition graph', 'all inputs; 64-bit position overflow excluded by assumption'),
 'C08': ('abstract interpretation of MIR per table entry; agreement of the tables with the type layout', 'finite: every entry of every table'),
 'C09': (A + 'resolution oracle over symbolic labels and indexes', 'arities 0..3 and 300, every kind in every kind, depth up to 40; labels and names symbolic'),
 'C10': (A + 'lexicographic order oracle over symbolic components', 'all length pairs 0..3, lengths up to 65 with one symbolic component'),
 'C11': ('abstract interpretation of MIR: comparisons reduced to folded-sequence terms of both operands', 'all names; case folding functions of std are uninterpreted but named'),
 'C27': ('abstract interpretation of MIR with a formatter fault monitor; provenance of message and cause', 'all messages and causes; every formatter call may fail'),
 'C28': ('abstract interpretation of the MIR of every binary; constant provenance against Cargo.toml', 'all four programs'),
 'C30': ('abstract interpretation of MIR: look-up terms after symbolic store histories', 'two stores and a clear in every combination of kinds, on equal and distinct symbolic paths'),
 'C18': ('abstract interpretation of MIR: provenance of the final contents of every map', 'all types and inputs; nesting by induction'),
 'C19': (A + 'must-visit monitor: every sub-inference forks into error and every type', 'one level of each construct, sub-terms symbolic; nesting by induction'),
 'C20': ('abstract interpretation of MIR (all paths): result type against the operator tables of SQL', 'all operand types; one level of each construct, nesting by induction'),
 'C21': ('panic reachability in the abstract interpretation of MIR of every construct', 'one level of each construct with all outcomes of its sub-terms'),
 'C22': (A + 'row-shape oracle per clause', 'row shapes of 0..4 columns, 0..12 rows; names concrete or symbolic'),
 'C31': (A + 'reference interpreter of the scoping rules; names symbolic, every equality pattern is a path', 'three databases, 170 statement shapes; all names symbolic'),
 'C24': (A + 'list model of the catalog; the map that is left is read back name by name', 'all names up to equality; catalogs of up to 3 schemata with up to 3 objects each'),
 'C25': (A + 'arithmetic on the symbolic inputs; results compared as linear forms with residues, refusals by path enumeration', 'all values of the stated ranges, one obligation per width and alignment'),
 'C26': (A + 'sequence model of the lists (each step from every well-formed state: an induction over histories)', 'lists of up to 5 of 6, 300 and 66000 buffers; pools of up to 300 buffers; addresses symbolic'),
 'C29': (A + 'transition model of the pool (each step from every consistent state: an induction over histories); async bodies as the state machines in MIR', 'pools of 1 to 3 buffers (4 in thorough); handle counts, dirty and submitted marks symbolic; one step under the mutex at a time, pool of spare locks of 0 to 2'),
 'C12': ('abstract interpretation of MIR over a symbolic byte memory; every getter evaluated on the memory encode leaves', 'leaf values, string lengths, old contents symbolic; 51 types, all cases (first, second, middle and last of large enums)'),
 'C13': ('abstract interpretation of MIR over a symbolic byte memory; sizes compared as linear forms with residues', 'leaf values, string lengths and buffer length symbolic; 51 types'),
 'C14': ('bounds, alignment and permission analysis of every raw access by abstract interpretation of MIR; contents of the memory unknown', 'buffer length, contents, offsets symbolic; loops over rows generalised; types of the family'),
 'C16': ('abstract interpretation of MIR over a symbolic byte memory (linear offsets, residues, bit fields, polyhedral facts), compared with a list model', 'page size, row lengths and contents symbolic; operation sequences of length 4 (3 for alignments other than 8), six alignments'),
 'C17': ('abstract interpretation of MIR over a symbolic byte memory; capacity compared as a linear form, refusals by path enumeration', 'page size, row lengths and contents symbolic; up to four rows, six alignments'),
 'C23': ('LR table reading and abstract interpretation of the MIR of every production action, compared with a reference grammar; lexer patterns compared as automata', 'lexer exact; sentences cover all productions and production pairs, next-token sets compared at every prefix; the LR driver of lalrpop is trusted'),
 'C32': ('LR table reading and abstract interpretation of the MIR of every production action, compared with a reference grammar; lexer patterns compared as automata', 'lexer exact; sentences cover all productions and production pairs, next-token sets compared at every prefix; the LR driver of lalrpop is trusted'),
 'C33': ('abstract interpretation of MIR per alignment and per bit length, results compared as linear forms with remainders', 'complete: 64 alignments, 65 bit lengths; the size is symbolic in each'),
}
