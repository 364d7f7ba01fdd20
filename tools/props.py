"""The properties: one table for properties.jsonl and MANIFEST.json."""
PROPS, NA = [], []


def P(id, title, statement, over, quant, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), quant=' '.join(quant.split()),
                      why=' '.join(why.split()), files=files.split(), mech=mech, tech=tech, note=' '.join(note.split())))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), quant=' '.join(quant.split()),
                   why=' '.join(why.split()), files=files.split(), mech=mech, reason=' '.join(reason.split())))


P('C05', 'Scalar values survive encoding and decoding in both byte orders',
  """Every supported scalar type, written in either byte order and read back in that byte order, gives exactly the value written,
  for every value including NaN payloads, negative timestamps and any text. Reading consumes exactly the bytes written and never
  rejects bytes the library itself produced.""",
  'inputs', 'every value of each of the 16 storage types, both byte orders',
  'Tests encode one or two literals per type; the guarantee is about every bit pattern and both byte orders of every type.',
  'src/io/data_types/mod.rs src/io/data_types/native_numerics.rs src/io/data_types/strings.rs src/io/data_types/bool.rs src/io/data_types/complex.rs src/io/data_types/extended.rs src/io/data_types/timestamp.rs',
  [('per-type read_le/read_be/write_le/write_be', 'src/io/data_types/')],
  'abstract interpretation of MIR: composition of encoder and decoder summaries on byte-vector normal forms',
  'All paths of each codec pair; trusts the models of to/from_le_bytes, read_exact and write_all.')

P('C06', 'Declared value sizes equal the bytes stored, for every type',
  """The size the library declares for a value, the fixed step it uses to move through raw data and the number of bytes it stores for
  that value are all equal, for every type and in both byte orders. The size associated with each file type code is the published
  size and matches every type that can be read from it.""",
  'inputs', 'every value of every storage type and every type code',
  'Tests compare sizes for a few types only; positions of all later data in the file depend on every one of them.',
  'src/io/data_types/ src/raw_data/write.rs',
  [('size(), SIZE_BYTES', 'src/io/data_types/mod.rs'), ('DataType::size', 'src/io/data_types/mod.rs')],
  'abstract interpretation of MIR: symbolic byte counts compared as normal forms; constant tables extracted from the type-checked program',
  'All encoder paths; the published sizes are a table in the checker.')

P('C09', 'Segment flags use the same, published bits when read and written',
  """Each flag of the segment header (meta data, new object list, raw data, interleaved, big endian, DAQmx) is decoded from and encoded
  to the published bit, independently of all other bits. Decoding an encoded flag word gives the same flags for all combinations, and the flag word is
  little-endian whatever the segment's byte order.""",
  'inputs', 'all flag words (2^32) and all 64 combinations of flags, both byte orders',
  'Tests check individual example words; cross-talk between flags or a byte order slip needs particular combinations.',
  'src/meta_data.rs', [('ToC::from_u32 / as_bytes', 'src/meta_data.rs')],
  'abstract interpretation of MIR to single-bit mask normal forms; finite case split over the 64 flag combinations',
  'Every field as a bit test on the whole word; encoding evaluated on terms for all combinations.')

P('C10', 'Type codes are the published ones and unknown codes are refused',
  """Each data type is stored as its published TDMS code and that code is read back as the same data type. Every other 32-bit code is
  refused with an error; no code is mapped to a wrong or default type.""",
  'inputs', 'all 2^32 type codes and every data type',
  'Tests touch a handful of codes; a wrong code for a rarely used type only shows with files from other tools.',
  'src/io/data_types/mod.rs src/meta_data.rs', [('DataType', 'src/io/data_types/mod.rs'), ('DataType as TdmsMetaData', 'src/meta_data.rs')],
  'constant-table extraction plus abstract interpretation over the finite partition of the code space induced by the comparisons',
  'Exhaustive over the partition of the 32-bit range.')

P('C11', 'Property values keep their type: decoding and conversions are exact',
  """Each property value is stored under the type code of its payload and is decoded from that code into the same kind of value. Converting a Rust value
  into a property value and back gives the same value, and asking a property for any other type is reported as a mismatch naming the actual and the
  requested type rather than being coerced.""",
  'inputs', 'all 17 property kinds, every payload, every pair of stored and requested type',
  'Tests check a few kinds; the table has 17 x 30 entries and any single one can be wrong.',
  'src/properties.rs', [('PropertyValue::datatype/read/write', 'src/properties.rs'), ('From/TryFrom impls', 'src/properties.rs')],
  'abstract interpretation of MIR per variant; table extraction and cross-checking of sibling implementations',
  'Every variant against every conversion.')

P('C07', 'Meta data structures are read back exactly as they were written',
  """Every meta data structure the library writes (property values, raw data descriptions, objects with their properties, the whole object list) is read back
  as an equal structure, for all contents and list lengths and in both byte orders. The reader consumes exactly the bytes that were written, so everything that
  follows in the file stays aligned.""",
  'inputs', 'all meta data trees with fewer than 2^32 entries per list, all property kinds, both byte orders',
  'Tests encode a few small structures; a field order or width slip in one arm shifts everything after it only for files that use that arm.',
  'src/meta_data.rs src/properties.rs src/io/reader.rs src/io/writer.rs',
  [('TdmsMetaData read/write', 'src/meta_data.rs'), ('PropertyValue as TdmsMetaData', 'src/properties.rs'), ('TdmsReader/TdmsWriter', 'src/io/')],
  'abstract interpretation of MIR: composition of the wire grammars of writer and reader, codec by codec',
  'All paths of each codec per variant; nested codecs by induction. Raw data descriptions: fixed size types, which is all the library writes.')

P('C08', 'Declared meta data and data sizes equal the bytes written',
  """The size every meta data structure and data block declares is exactly the number of bytes written for it, for all contents. The segment header therefore holds
  offsets that lead a reader to the first byte of raw data and to the first byte of the next segment.""",
  'inputs', 'all meta data trees, all data slices of all types, meta data and data each present or absent',
  'Tests check sizes for a few examples; an offset that is wrong by a byte for one property kind makes the rest of that file unreadable.',
  'src/meta_data.rs src/properties.rs src/raw_data/write.rs src/io/writer.rs',
  [('TdmsMetaData::size', 'src/meta_data.rs'), ('WriteBlock::size', 'src/raw_data/write.rs'), ('TdmsWriter::write_segment', 'src/io/writer.rs')],
  'abstract interpretation of MIR: declared size and emitted bytes as the same symbolic normal form',
  'All paths; element sizes by C06. Sizes are sums over usize, overflow excluded.')

P('C12', 'Segment headers: layout and flags agree between writer and reader',
  """Every segment starts with tag, flags, version and the two offsets, 28 bytes in the segment's byte order, followed by meta data and raw data exactly when the flags say so.
  The reader accepts every header the writer produces and returns the flags, offsets and meta data that were written, and the description the writer hands to the
  index is equal to what a later reader gets.""",
  'inputs', 'all combinations of header flags, both byte orders, meta data and data present or absent',
  'Tests read and write a few fixed headers; combinations such as meta data absent with big endian data are not among them.',
  'src/meta_data.rs src/io/reader.rs src/io/writer.rs',
  [('write_segment', 'src/io/writer.rs'), ('Segment::read / read_segment', 'src/meta_data.rs')],
  'abstract interpretation of MIR: path-by-path composition of header writer and reader',
  'All paths of the segment writer and reader.')

P('C13', 'Segments without meta data repeat the whole previous channel list',
  """A raw data segment that carries no meta data holds one more block for every channel that was active before it, in the same order and with the same data
  descriptions, however many such segments follow each other. It is refused when no channel is active, and it changes nothing else that is known about the file.""",
  'histories', 'all active lists of one or two channels on an arbitrary earlier file state, one to three such segments',
  'The effect depends on every earlier segment; tests replay a few fixed histories and check a few of the resulting lists.',
  'src/index/building.rs src/index/mod.rs', [('Index::add_segment', 'src/index/building.rs')],
  'abstract interpretation of MIR: composition of function summaries over segment histories on an arbitrary symbolic index, compared with the format semantics as normal forms',
  'Histories bounded in length and channels; state before them, offsets, counts and types are arbitrary.')

P('C14', 'What the writer omits from meta data is exactly what can be inferred',
  """The writer may drop the meta data of a segment, or mark a channel as described before, only when a reader then still gets the channels, their order, the data type, the number of
  values and the layout that were asked for. This holds for every sequence of writes to the same, other, fewer or reordered channels, with
  properties written in between.""",
  'histories', 'channel lists of one to three channels after every list of one or two channels with the same, a longer or a differently typed description; any values, any element type',
  'Tests write a few repeated patterns; an omission that is wrong for one reordering or one count silently assigns data to the wrong channel.',
  'src/file/file_writer.rs src/index/writing.rs src/index/building.rs src/raw_data/write.rs',
  [('write_channels', 'src/file/file_writer.rs'), ('Index::check_write_values', 'src/index/writing.rs')],
  'abstract interpretation of MIR: composition of writer and index summaries over write histories on an arbitrary symbolic index',
  'Distinct channels per write; the segment writer by its C12 summary; values assumed present (C26 covers refusal).')

P('C15', 'Data block positions follow from the segment sizes and never overlap',
  """Every data block recorded for a file lies inside its segment: it starts after the header and meta data and ends where the next segment starts, and the next segment is looked for exactly
  there. Segment offsets that would wrap around, run backwards or leave no data are refused.""",
  'inputs', 'all 64-bit offsets and file positions, all segment flags, with and without meta data',
  'Tests use well-formed offsets; a wrap or off-by-28 needs particular 64-bit values.',
  'src/index/building.rs src/raw_data/mod.rs', [('Index::add_segment', 'src/index/building.rs'), ('DataBlock::from_segment', 'src/raw_data/mod.rs')],
  'abstract interpretation of MIR: positions as linear normal forms under the path conditions of each exit',
  'All paths of one segment step on an arbitrary position; longer files by induction on the position.')

P('C16', 'Channel lists change between segments exactly as the format prescribes',
  """A segment that starts a new object list holds data for exactly the channels it lists; any other segment keeps the active channels in order, replaces the
  descriptions it gives and appends the channels it adds. A channel marked as described before keeps its last description, and without one
  the segment is refused.""",
  'histories', 'all pairs of object lists of up to two objects over four channels with new, repeated or absent data descriptions, with and without a new list',
  'The result is a fold over all segments; tests cover a handful of the combinations of flag, repetition and order.',
  'src/index/building.rs', [('Index::add_segment', 'src/index/building.rs')],
  'abstract interpretation of MIR: composition of function summaries over segment histories on an arbitrary symbolic index, compared with the format semantics as normal forms',
  'Two or three segments with up to two objects each from an arbitrary earlier state.')

P('C17', 'The last value written for a property wins, everything else is kept',
  """After any sequence of segments a property has the value most recently given for it, whichever segment or object list entry gave it. Objects and properties a segment does not mention keep
  their values, objects without data still exist, and objects never mentioned are reported as missing.""",
  'histories', 'property lists on up to two objects over up to three segments, all names and values, from an arbitrary earlier state',
  'Tests set a property twice in one way; merge order matters for repeated names, repeated objects and later segments.',
  'src/index/building.rs src/index/querying.rs', [('Index::add_segment', 'src/index/building.rs'), ('get_object_property', 'src/index/querying.rs')],
  'abstract interpretation of MIR: composition of function summaries over segment histories on an arbitrary symbolic index',
  'Bounded histories; arbitrary earlier state, names compared by equality.')


P('C18', 'Data is only read as a type that represents it',
  """Reading a channel as a Rust type is refused with a type mismatch unless the stored data type is one that this type represents: its own type, its variant with a unit, or bytes as booleans.
  Text data, which cannot be read, is refused too. The refusal comes before anything is read and leaves the caller's buffers alone, for every channel of
  the request.""",
  'inputs', 'every pair of stored data type and requested type, for every position of the channel in the request',
  'Tests try one or two mismatches; there are 22 x 16 pairs and every reading entry point must refuse them.',
  'src/raw_data/records.rs src/raw_data/mod.rs src/io/data_types/', [('RecordPlan::build_record_plan', 'src/raw_data/records.rs'), ('SUPPORTED_TYPES', 'src/io/data_types/')],
  'abstract interpretation of MIR for every pair of stored and requested type (finite case split), with an effect trace of the reading calls',
  'The full product of types on the block readers, one or two channels.')

P('C20', 'Contiguous data: every value comes from its own place in the block',
  """Reading contiguous data gives sample k of a channel from exactly the bytes the layout assigns to it: chunk by chunk, channels in order, each with its own length and value size.
  This holds for any subset of channels, any number of samples to skip and any output length; outputs are filled in order without gaps and not touched beyond the
  available data.""",
  'inputs', 'all chunk lengths, value sizes, skips and buffer lengths; one to three channels; up to two (thorough: three) chunks and a trailing partial chunk',
  'Tests use equal channel lengths and a few skips; the position arithmetic depends on every other channel of the block.',
  'src/raw_data/contigious_multi_channel_read.rs src/raw_data/records.rs src/raw_data/mod.rs',
  [('DataBlock::read / read_from / read_with_per_channel_skip', 'src/raw_data/mod.rs')],
  'abstract interpretation of MIR: file position and buffer slot of every value read as symbolic normal forms, compared with the layout rule',
  'Chunks unrolled up to the bound with symbolic lengths; distinct channels per request; no I/O errors.')

P('C21', 'Interleaved data: every value comes from its own row and column',
  """Reading interleaved data gives sample k of a channel from row k and the channel's column, whatever the value sizes of the other columns. This holds for any subset of channels, any
  number of samples to skip per channel and any output lengths; a short output never shifts or truncates the data of another channel.""",
  'inputs', 'all value sizes; one to three channels; up to three (thorough: four) rows, all skips and output lengths within and beyond them',
  'Tests use equal skips and equal output lengths; the loop has several early exits that depend on their combination.',
  'src/raw_data/interleaved_multi_channel_read.rs src/raw_data/records.rs src/raw_data/mod.rs',
  [('DataBlock::read / read_from / read_with_per_channel_skip', 'src/raw_data/mod.rs')],
  'abstract interpretation of MIR: file position and buffer slot of every value read as symbolic normal forms, compared with the layout rule',
  'Rows unrolled up to the bound; distinct channels per request; no I/O errors.')

P('C22', 'Reading across blocks continues exactly where the previous block ended',
  """Reading one or several channels from any start position visits exactly the blocks that hold the wanted samples, in file order, and asks each for the right channel, the right number of
  samples to skip and the right part of the output. Channels may be spread differently over the blocks and have different output lengths. A channel that is
  not in the file is reported as missing before anything is read.""",
  'inputs', 'all sample counts and output lengths; start in or behind each block; up to three blocks for one channel, two channels in several placements',
  'Tests read two channels in step; mixed placements and starts that fall into different blocks per channel are rare and silently shift data.',
  'src/file/channel_reader.rs', [('read_channel / read_channels / read_channels_from', 'src/file/channel_reader.rs')],
  'abstract interpretation of MIR: plan of block reads as symbolic normal forms, compared with the sequence the channel locations call for',
  'Block readers by C20/C21; bounded number of blocks and channels; sample counts symbolic, placed by parametrisation.')

P('C23', 'Every value of a block is read in the byte order of its segment',
  """A data block has the byte order of the segment header it belongs to. Reading it uses the codec of that byte order for every value, in both
  layouts and for every reading method, and positions the stream by absolute offsets for blocks and relative steps within them.""",
  'inputs', 'both byte orders, both layouts, all reading methods, any number of channels',
  'Big endian interleaved data read with a start offset is one of twelve separate code paths; tests cover few of them.',
  'src/raw_data/mod.rs src/io/reader.rs src/io/writer.rs', [('DataBlock::read*', 'src/raw_data/mod.rs'), ('BigEndianReader / LittleEndianReader', 'src/io/reader.rs')],
  'effect analysis over composed MIR summaries: resolved callee of every reading and positioning call per byte order',
  'All paths of the block readers for one and two channels and rows.')


P('C24', 'Opening never changes a file and writing starts after its last segment',
  """Loading a file opens it for reading and writing without creating, truncating or appending; creating a file empties an existing one. No function that opens or reads can change
  the stream, and a stream that can only be read is enough for them. A writer is only handed out after the stream has been moved, absolutely and successfully, to where the index
  places the next segment, whatever the stream was used for before.""",
  'histories', 'all paths and stream outcomes; every reading function and everything it can call; histories of up to two segments before the writer is taken',
  'Tests write to fresh memory buffers, where appending, rewinding and the index position are the same place; a wrong open option destroys user data.',
  'src/file/mod.rs src/index/mod.rs', [('TdmsFile::load / create / writer', 'src/file/mod.rs')],
  'typestate of open options and stream position by abstract interpretation, effect reachability over the call graph, type-checked witness programs',
  'Trusts the models of std::fs::OpenOptions and Seek; effects inside std are taken from its documentation.')
P('C25', 'A writer has to be finished before its file is read, and loses nothing',
  """While a writer exists the file cannot be read, listed, queried or written through another writer, and the writer cannot outlive its file. Everything written is handed to the
  stream when the writer is synchronised, which reports success only if the buffer was flushed, and nothing keeps the buffer from being flushed when the writer is dropped.""",
  'schedules', 'all programs using the public interface (by the type rules); all outcomes of flushing; every function of the crate for leaking constructs',
  'Tests only contain programs that compile and streams that never fail, so neither the exclusion nor a swallowed flush error shows.',
  'src/file/file_writer.rs src/file/mod.rs src/io/writer.rs', [('TdmsFileWriter::sync', 'src/file/file_writer.rs'), ('TdmsWriter::sync', 'src/io/writer.rs'), ('TdmsFile::writer', 'src/file/mod.rs')],
  'type-level: compile-fail witnesses with a compiling control; abstract interpretation of the flush paths; scan for constructs that skip drops',
  'An error while dropping a writer that was never synchronised is not reported; that is the documented behaviour of the standard buffer.')
P('C26', 'Invalid writes are refused before any effect; the index follows the file',
  """Writing without channels, without values, with text values or with values that do not divide evenly over the channels is refused before anything reaches the stream; every other
  write is attempted. The index changes only after a segment was written successfully and then by exactly that segment, at most one per write. The result is a success only if both
  happened, and a writer's error is passed on.""",
  'inputs', 'any request on any file, with every outcome of writing and of the index update; validity for 0-4 channels, symbolic numbers of values and data types',
  'Tests never let a write fail; a segment that is in the file but not in the index, or the reverse, only shows in later reads or appends.',
  'src/file/file_writer.rs', [('TdmsFileWriter::write_channels / write_properties', 'src/file/file_writer.rs')],
  'effect-order analysis by abstract interpretation: paths as gated traces of segment writes and index updates',
  'What a segment write stores is C07/C08/C12, what the index does with it C13-C17.')
P('C27', 'Paths name the object they were built from, and parsing keeps them',
  """A path built from a group name and a channel name is a slash and each name in single quotes, with single quotes in names written as double quotes, and gives those names back. Parsing
  the text of a path accepts exactly the file, group and channel paths, whatever separators or doubled quotes their names contain, and the result has that same text; texts without the leading separator,
  without quotes, with an empty level or a third level are refused, and a channel path never comes from a file or group path.""",
  'inputs', 'all names of up to three (thorough: four) pieces, each piece a text of any length and content without quotes and slashes, or one of the characters single quote, double quote, slash',
  'Tests use plain words; separators, doubled or lone quotes and empty names decide whether a channel can be addressed at all.',
  'src/paths.rs', [('PropertyPath and ChannelPath: constructors, names, conversions from text', 'src/paths.rs')],
  'abstract interpretation over abstract strings (literal pieces and generic names); predicates run as automata over the pieces',
  'Different generic names stand for different texts; equal ones are enumerated separately.')
P('C28', 'Listings give exactly the stored groups and channels',
  """Listing the groups of a file gives the group name of every stored group or channel path, each once. Listing the channels of a group gives exactly the stored channels
  of that group, and for the file all of them. Each listed path is the stored text, so that the channel can be read with it.""",
  'inputs', 'every file with one or two stored objects whose paths are of the enumerated shapes (plain, with separators, with doubled quotes, empty, one name continuing the other), in every possible order; all queries',
  'Tests list files with names like group and group2; names that continue each other after a quote, or contain separators, are never listed.',
  'src/file/mod.rs', [('TdmsFile::list_groups, list_channels_in_group', 'src/file/mod.rs'), ('Index::all_paths, paths_starting_with', 'src/index/querying.rs')],
  'abstract interpretation of the listings on an ordered map with known symbolic keys; set comparison of the resulting texts',
  'A range over the ordered map is decided by the prefix order: a key before one that starts with the bound, and not itself starting with it, is smaller than the bound.')
P('C36', 'A write request stores exactly the values and properties it was given',
  """A property write stores one segment that lists exactly the given object with exactly the given properties, the last value given for a name winning, and no data.
  A data write stores exactly the given values, each once and in the given order, in the layout asked for, whatever the number of channels.""",
  'inputs', 'all paths, names and values; property lists of up to four entries (thorough: six) with and without repeated names; any number of values for one and two channels, up to three (thorough: five) values for up to three (five) channels, both layouts',
  'Tests write a few distinct properties and compare a few values; a list with a repeated name, a particular count or channel number is never among them.',
  'src/file/file_writer.rs src/raw_data/write.rs', [('TdmsFileWriter::write_properties, write_channels', 'src/file/file_writer.rs'), ('WriteBlock for slices', 'src/raw_data/write.rs')],
  'value-flow analysis (abstract interpretation with symbolic values) from the request to the segment writer and to the sequence of values written',
  'The segment writer itself is C12, the meta data codecs C07, what the index makes of the segment C14 and C17.')
P('C29', 'Sample counts and channel lengths follow from the block sizes',
  """The number of chunks in a data block is its length divided by the size of one chunk, rounded down, where a chunk is the values of all its channels; it is one when a channel has
  variable size and zero when no channel has values. A channel's length is the sum over its blocks of values per chunk times chunks, limited to 64 bits, and unknown
  channels have no length. Counts are only refused when they do not fit 64 bits.""",
  'inputs', 'all block lengths, value counts and sizes; up to three (thorough: four) channels of fixed, variable or no size; histories of up to three segments',
  'Tests use exact multiples; a rounding or overflow slip needs particular sizes and makes every later read stop early or run over.',
  'src/raw_data/mod.rs src/index/mod.rs src/index/building.rs', [('DataBlock::number_of_chunks / channel_samples', 'src/raw_data/mod.rs'), ('Index::channel_length', 'src/index/mod.rs')],
  'abstract interpretation of MIR: counts as symbolic normal forms (integer quotients of polynomials) under the path conditions',
  'Channel lists unrolled up to the bound; recorded counts per location also by C13-C17.')

P('C19', 'A failure reported by the stream or by a step never turns into success',
  """When any step of an operation fails - a read, write or seek of the underlying stream or an inner operation that reports an error - the operation reports an error too instead of
  success with data missing. The only exceptions are made while a file is opened: the end of the file ends the list of segments, and a segment whose end cannot be reached by seeking is the last.""",
  'inputs', 'every operation of the crate that can fail, every step it performs (also in loops and closures), either outcome of each step',
  'Tests run on streams that never fail; a swallowed error only shows when the disk does.',
  'src/file src/io src/index src/meta_data src/raw_data src/paths.rs', [('every function performing fallible steps', 'src')],
  'modular error-flow analysis on MIR: paths as gated traces of fallible steps with either outcome',
  'Each function is analysed with the fallible functions it calls as opaque steps, so the guarantee composes along the call graph. What happens to the data on the success path is decided by the other properties.')

P('C30', 'The library stays within memory-safe code for any input',
  """No file content, request or stream implementation can make the library read, write or expose memory it may not: its own code contains no construct that switches the
  compiler's memory checks off (unsafe blocks, functions or trait implementations, unions, mutable statics, foreign functions).""",
  'inputs', 'all code of the crate under all features, macro expansions of the crate included',
  'Undefined behaviour need not show in any test; which construct allows it is visible in the source.',
  'src', [('whole crate', 'src')],
  'effect scan of the type-checked source (HIR) for unsafe constructs',
  'The safety of the dependencies and of the standard library is taken for granted.')

P('C01', 'Opening any sequence of bytes never panics',
  """Whatever bytes a stream holds, opening it either gives a file or returns an error: no arithmetic overflow, no access out of bounds, no division by zero, no unwrapped
  absence and no other panic happens while segments are read and recorded.""",
  'inputs', 'every stream content and every outcome of its operations; reading a segment for all bytes, recording for all values in histories of up to three segments',
  'Tests open a few well formed and a few broken files; the offsets, counts, sizes and type codes that trip an unchecked step are numbers in a 64 bit range.',
  'src/meta_data.rs src/io src/index src/raw_data/mod.rs src/file/mod.rs', [('TdmsFile::new / load / create', 'src/file/mod.rs'), ('Segment::read', 'src/meta_data.rs'), ('Index::add_segment', 'src/index/building.rs')],
  'panic-freedom obligations of an abstract interpretation of MIR, with a polyhedral reachability test for those that are not proven',
  'An obligation that is neither proven nor certainly reachable is reported as not decided in the evidence and raises no alarm.')

P('C02', 'Reading, writing, listing and converting on an open file never panics',
  """Once a file is open, reading channels with any lengths and start positions, writing any values and properties, listing, counting and converting property values either succeed
  or return an error: no arithmetic overflow, access out of bounds, division by zero, unwrapped absence or other panic.""",
  'inputs', 'the operations analysed for the other properties in every state reached there (block and channel lists up to the bounds given there), quantities up to 2^20; conversions for all property values',
  'Panics hide in the combinations of block layout, lengths, skips and requests that no test happens to use.',
  'src/file src/raw_data src/index src/properties.rs', [('TdmsFile reading and writing', 'src/file'), ('DataBlock::read', 'src/raw_data/mod.rs'), ('conversions of PropertyValue', 'src/properties.rs')],
  'panic-freedom obligations of an abstract interpretation of MIR, with a polyhedral reachability test for those that are not proven',
  'As C01; some overflow conditions on sums of lengths in multi-channel reads stay not decided (see DESIGN.md).')

P('C03', 'A number in a file cannot make the program abort for lack of memory',
  """Counts and lengths found in a file never size a memory request that aborts the program when it cannot be served: they only size requests whose failure is
  reported as an error, or memory grows with the data that were really read.""",
  'inputs', 'all stream contents; every allocation on the paths of opening, reading a segment and recording it, and in every reading function by itself',
  'A test would have to contain the absurd count for the one field that lost its protection.',
  'src/meta_data.rs src/io src/index', [('reading of meta data, strings and lists', 'src/meta_data.rs'), ('TdmsReader::read_vec', 'src/io/reader.rs')],
  'allocation audit: sizes of infallible allocations as symbolic terms, their reachable magnitude by polyhedral reachability',
  'The sizes are judged large from 2^24 elements on. How much virtual memory the fallible requests may reserve is left to the allocator.')


P('C04', 'Opening a file and every operation on it come to an end',
  """No content of a file, no request and no end of the stream makes opening, reading, writing, listing or counting go on for ever.
  While a file is opened, each next segment is read from the place the one before it gives for it, and that place lies behind the start of the one before.""",
  'inputs', 'every loop of the crate, all stream contents, blocks without values, streams that end early, all segment lengths',
  'A loop that gets stuck needs one combination (a block with no values, a length that wraps around, a stream that ends inside a value) and a test that meets it only hangs.',
  'src', [('build_index', 'src/file/mod.rs'), ('read_plan', 'src/file/channel_reader.rs'), ('Index::add_segment', 'src/index/building.rs'), ('decoders', 'src/io')],
  'number of rounds of every loop in closed form from what it changes; rounds after which all that decides the loop is as before are violations',
  'Streams whose own operations do not return are outside; so is the time a huge but finite count takes.')


N('C31', 'Everything written is read back equal after reopening the file',
  """Any sequence of channel and property writes, followed by closing and reopening the file, gives back the same channels, lengths, values and properties.""",
  'histories', 'all sequences of writes of any length, all values, all ways of splitting reads',
  'Tests replay a few sequences.', 'src', [('whole crate', 'src')],
  """The end-to-end equality composes codecs, headers, omission rules, recording, placement and reading over unbounded histories; its links are decided
  separately (C05-C08, C12-C17, C20-C23, C26, C29), but the composition over an unbounded number of segments, blocks and chunks is an inductive argument about run-time data that this
  analysis does not make by itself.""")
N('C32', 'A crash while writing loses at most the segment being written',
  """If the program or machine stops at any point of a write, every segment that was completely written before is still read back after reopening the file.""",
  'crash_points', 'every prefix of the bytes written and every loss of buffered bytes',
  'Tests never cut a file at an arbitrary byte.', 'src/file src/io/writer.rs', [('TdmsFileWriter', 'src/file/file_writer.rs')],
  """Which bytes of a torn segment reached the disk is decided by the buffer and the operating system, and what the loader makes of a torn last segment depends on the bytes left there; the source contains no
  ordering or recovery mechanism (no fsync, no torn segment handling) whose correct use could be decided statically. The loader refuses a torn header today.""")
N('C33', 'Files of other TDMS implementations are read correctly',
  """Files written by LabVIEW and other TDMS implementations open and give the values those tools stored, and files written by this library open there.""",
  'inputs', 'all files other implementations produce, including text channels, DAQmx data and index files',
  'Tests contain a few such files.', 'src', [('whole crate', 'src')],
  """The other implementations and their files are outside the source. What is published about the format is used as the oracle of C06, C09, C10, C12, C15 and C16; the rest cannot be decided from this code.""")
N('C34', 'Reading uses few and large disk accesses and little memory',
  """Reading skips data it does not need with few accesses, and uses memory in proportion to the request rather than to the file.""",
  'inputs', 'all files and requests', 'Tests do not measure.', 'src/raw_data src/index', [('RecordPlan::compress_reads', 'src/raw_data/records.rs')],
  """A run-time quantity that depends on buffer sizes, the stream and the layout of the file. Reads and steps are determined by C20/C21 value by value; how the buffer turns them into accesses is not visible in the source.""")
N('C35', 'Timestamps convert to calendar dates and back without loss of precision',
  """Converting a timestamp to a calendar date and back gives the same instant to the precision of the date type.""",
  'inputs', 'all timestamps', 'Tests convert the current time rounded to seconds.', 'src/properties.rs', [('chrono_support', 'src/properties.rs')],
  """The conversion is done by the labview-interop dependency with floating point arithmetic on the fraction; only the range check that guards it is code of this crate (covered by C02).""")
