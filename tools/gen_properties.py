#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(obs), hook_needed=None)))

HD='hpack/src/decoder/mod.rs'; HDP='hpack/src/decoder/primitives.rs'; HE='hpack/src/encoder/mod.rs'; HEP='hpack/src/encoder/primitives.rs'
HT='hpack/src/table/mod.rs'; HDY='hpack/src/table/dynamic.rs'; HS='hpack/src/table/static.rs'; HI='hpack/src/table/iter.rs'
FD='huffman/src/decoder/mod.rs'; FR='huffman/src/decoder/reader.rs'; FE='huffman/src/encoder/mod.rs'; FET='huffman/src/encoder/table.rs'
FF='huffman/src/flattener/mod.rs'; FP='huffman/src/parser/mod.rs'
PD='protos/src/decoder/mod.rs'; PDP='protos/src/decoder/primitives.rs'; PDL='protos/src/decoder/lit.rs'
PE='protos/src/encoder/mod.rs'; PEP='protos/src/encoder/primitives.rs'; PEL='protos/src/encoder/lit.rs'; PT='protos/src/typ.rs'
dyn=('dynamic table','entries, their total size and the current maximum size, one per direction of a connection',HDY)
lim=('hard limit','largest table size the decoder lets the peer choose',HD)

p('H01','Header lists survive encoding and decoding',
 'Whatever header list an application encodes on one side of a connection, with any mix of indexed, name-indexed and literal forms, flags and in-band table size changes, the decoder on the other side returns exactly the same names and values in the same order. This holds for any history of earlier header blocks on the connection and however the encoder output is grouped into decode calls.',
 ['histories','inputs','configurations'],'all sequences of encode operations (forms x flags x names x values), all table size configurations, all groupings of the output into decode calls',
 'Tests decode a few hand-made blocks and recorded stories; round trips over evolving dynamic tables with eviction and resizing are not sampled beyond those, and no test combines every form and flag.',
 [HE,HD,HT,HDY],[('encode dispatch',HE),('decode dispatch',HD),('shared indexing table',HT)],[dyn],['Encoder::encode','Decoder::decode'])
p('H02','Both ends of a connection keep identical dynamic tables',
 'After any history of successfully encoded and decoded header blocks, the dynamic table of the encoder and the dynamic table of the decoder hold the same entries in the same order under the same maximum size. In particular insertions, evictions, oversized entries and size changes happen on both ends at the same point of the stream.',
 ['histories','configurations'],'all histories of encode operations and size changes, all initial table sizes shared by both ends',
 'Unit tests look at one table after one or two insertions; desynchronisation needs a history in which both ends evict, resize or skip entries.',
 [HE,HD,HDY],[('encoder side insertion','hpack/src/encoder/mod.rs encode_literal, encode_indexed_name'),('decoder side insertion','hpack/src/decoder/mod.rs decode_literal'),('size change',HDY)],[dyn],['indices that resolve on either end','Encoder::max_dynamic_size'])
p('H03','Index lookup, search and iteration agree on one address space',
 'In every table state, index 0 and indices past the end resolve to nothing, indices 1 to 61 resolve to the static entries and indices from 62 on resolve to the dynamic entries from newest to oldest; iteration yields exactly those entries in index order. Searching for a header reports an index whose entry equals both name and value whenever one exists, otherwise one whose name is equal whenever one exists, otherwise nothing.',
 ['histories','inputs'],'all insertion and resize histories, all queried indices, names and values',
 'Tests query one- and two-entry tables; ordering, duplicates, evicted entries and search priority depend on the history.',
 [HT,HDY,HI],[('combined address space','hpack/src/table/mod.rs get'),('search','hpack/src/table/mod.rs find'),('iteration',HI)],[dyn],['Table::get','Table::find','Table::iter','Table::len'])
p('H04','The dynamic table never exceeds its limit and evicts oldest first',
 'At every moment the size of the dynamic table equals the sum over its entries of name length plus value length plus 32 and does not exceed the current maximum. An insertion or a reduction of the maximum drops entries strictly from the oldest end and only as many as needed; an entry larger than the maximum leaves the table empty and is not stored.',
 ['histories','configurations'],'all insertion and resize histories over entry sizes around the limits, all maximum sizes',
 'Tests cover one eviction and one resize; exact fits, off-by-one sizes, zero limits, growth after shrinkage and long insertion runs are not sampled.',
 [HDY,HT],[('insert and consolidate',HDY),('maximum update',HDY)],[dyn],['Table::dynamic_size','Table::dynamic_len','Table::max_dynamic_size'])
p('H05','Table size limits are enforced and reported',
 'A decoder accepts an in-band table size change exactly when the new size does not exceed the limit last set on it, applies it by evicting entries, and rejects a larger one with the dedicated error leaving the table as it was. Changing the limit alone changes no entry, the reported limit is always the one last set, and an encoder reports the size it last signalled.',
 ['histories','configurations','inputs'],'all size values, all limits, all interleavings of limit changes, size changes and header fields',
 'One test accepts one value and rejects another; boundaries, repeated changes and changes of the limit between blocks are not explored.',
 [HD,HE,HDY],[('limit check','hpack/src/decoder/mod.rs update_max_dynamic_size'),('limit setter','hpack/src/decoder/mod.rs set_max_dynamic_size'),('size signal','hpack/src/encoder/mod.rs update_max_dynamic_size')],[dyn,lim],['Decoder::decode','Decoder::max_dynamic_size','Encoder::max_dynamic_size','Encoder::update_max_dynamic_size'])
p('H06','The header decoder interprets every byte string as RFC 7541 defines',
 'For any byte string and any prior history, the decoder yields exactly the fields (name, value, indexing and sensitivity marks), table changes and accept/reject verdict that RFC 7541 prescribes under the documented limit of five octets per integer. Non-minimal but valid encodings are accepted, and index 0, unknown indices, malformed Huffman strings, over-long integers and truncated input are rejected with the matching error.',
 ['inputs','histories'],'all byte strings, from all decoder states',
 'The tests decode valid stories and a dozen hand-made blocks; arbitrary bytes, and arbitrary bytes after a history, are not covered.',
 [HD,HDP,HT],[('representation dispatch','hpack/src/decoder/mod.rs decode_exact'),('integer decoding','hpack/src/decoder/primitives.rs decode_integer'),('string decoding','hpack/src/decoder/primitives.rs decode_string')],[dyn,lim],['Decoder::decode','Decoder::decode_exact'])
p('H07','The header decoder survives every input',
 'No byte string, however truncated, corrupted or adversarial, and no history of earlier blocks makes the header decoder panic, loop forever or allocate memory out of proportion to the input; it always returns fields or an error, and remains usable for correct further input.',
 ['inputs','histories'],'all byte strings including every truncation of valid blocks, from all decoder states',
 'Tests feed well-formed input almost exclusively.',
 [HD,HDP,FR],[('bounds checks',HDP),('bit reader',FR)],[dyn],['Decoder::decode','Decoder::decode_exact'])
p('H08','A rejected header field leaves no trace',
 'When decoding stops with an error, the fields decoded before the offending one have been delivered in order, and the offending field and everything after it remains unread in the input buffer. The offending field contributes nothing to the output and changes neither the dynamic table nor the limits.',
 ['inputs','histories'],'all malformed or truncated fields in all positions of a block, from all decoder states',
 'No test inspects buffer, output or table after an error.',
 [HD],[('consume after success','hpack/src/decoder/mod.rs buf.drain'),('insert after both strings are read','hpack/src/decoder/mod.rs decode_literal')],[dyn],['Decoder::decode','Decoder::decode_exact'])
p('H09','Header blocks may arrive in arbitrary pieces',
 'If a valid header block is delivered in any number of fragments, each appended to the unread remainder of the previous ones and decoded, every attempt either succeeds or reports missing octets and never anything else. The fields finally delivered and the resulting table are the same as when the block is decoded in one call.',
 ['histories','inputs'],'all valid blocks, all ways of cutting them into fragments',
 'Tests always pass complete blocks.',
 [HD,HDP],[('underflow detection',HDP),('incremental consumption','hpack/src/decoder/mod.rs decode')],[dyn],['Decoder::decode'])
p('H10','Sensitive headers are never indexed',
 'A header encoded with the never-indexed flag always travels as a never-indexed literal, whatever else is in the tables and whichever way of encoding is chosen, and enters the dynamic table of neither end. The decoder reports such a field as sensitive, reports no other field as sensitive, and headers encoded without the indexing flag likewise enter no table.',
 ['histories','inputs'],'all histories, all headers and flag combinations, all encoding entry points',
 'One test encodes one sensitive literal on a fresh table; matches with static or dynamic entries are not tried.',
 [HE,HD],[('flag dispatch','hpack/src/encoder/mod.rs encode, encode_literal, encode_indexed_name'),('flag reporting','hpack/src/decoder/mod.rs decode_literal')],[dyn],['Encoder::encode','Decoder::decode'])
p('H11','Encoder output has exactly the requested representation',
 'Each encode call appends exactly one well-formed field of the requested kind: an indexed field for an index, the literal kind selected by the flags otherwise, with name and value strings in Huffman form exactly when their flag is set, and it leaves what the buffer already held unchanged. In best-format mode the field uses an index whose entry equals the header if one exists, otherwise an index whose entry has the name, otherwise a full literal.',
 ['inputs','histories'],'all headers, flags and entry points, from all table states',
 'Tests check a handful of encodings per form, on tables with at most one dynamic entry.',
 [HE,HEP,HT],[('representation selection',HE),('string encoding','hpack/src/encoder/primitives.rs encode_string')],[dyn],['Encoder::encode','Encoder::encode_indexed','Encoder::encode_indexed_name','Encoder::encode_literal'])
p('H12','Integers use the minimal RFC 7541 form and read back unchanged',
 'Every index, string length and table size the encoder writes has the unique minimal prefix-integer form of RFC 7541, for every prefix width in use, and leaves the representation bits of the first octet intact. The decoder reads each such integer of up to five octets back to the same number and rejects integers that are longer or cut short.',
 ['inputs','configurations'],'all integer values and prefix widths reachable through the public interface (up to the documented five octets), all integer octet strings',
 'Tests use three integers; carry and continuation boundaries at each prefix width are not enumerated.',
 [HEP,HDP],[('integer encoding','hpack/src/encoder/primitives.rs encode_integer'),('integer decoding','hpack/src/decoder/primitives.rs decode_integer')],[],['Encoder::encode_indexed','Encoder::update_max_dynamic_size','string lengths','Decoder::decode'])
p('H13','Bounded decoding and byte counts are exact',
 'Decoding into an empty output vector of a given capacity yields exactly that many header fields, or all of them if the input holds fewer, and stops right after the last one; continuing in this way yields the same fields as decoding everything at once. Every decode call that succeeds returns exactly the number of octets it removed from the front of the input, table size changes included.',
 ['inputs','histories'],'all blocks, all sequences of capacities',
 'One test uses one capacity on one block and ignores the returned count.',
 [HD],[('capacity limit','hpack/src/decoder/mod.rs decode_exact'),('octet accounting','hpack/src/decoder/mod.rs')],[],['Decoder::decode','Decoder::decode_exact'])
p('H14','Invalid encoding requests are rejected without effect',
 'A request to encode an index that does not exist at that moment (0, past the end, evicted) fails with the index error through every entry point. It appends nothing to the output and changes neither table entries nor sizes, so that the connection continues as if it had not been made.',
 ['inputs','histories'],'all indices in all table states, all entry points and flags',
 'Tests check one bad index on a fresh table and do not inspect output or table afterwards.',
 [HE],[('index validation','hpack/src/encoder/mod.rs encode_indexed, encode_indexed_name')],[dyn],['Encoder::encode','Encoder::encode_indexed','Encoder::encode_indexed_name'])
p('H15','The static table is the one of RFC 7541 Appendix A',
 'In every state of either end, indices 1 to 61 denote exactly the 61 name and value pairs of RFC 7541 Appendix A, for decoding, encoding, lookup and search alike. No history of insertions, evictions or size changes alters them.',
 ['inputs','histories'],'all 61 entries through all entry points in all table states',
 'Tests look at four entries of a fresh table.',
 [HS,HT],[('static entries',HS),('address split','hpack/src/table/mod.rs get')],[],['Decoder::decode','Encoder::encode','Table::get','Table::find'])
p('H16','Connections do not influence each other',
 'Any number of encoders and decoders can be used in any interleaving, and each behaves exactly as if it were alone. Dropping, failing or resizing one of them has no effect on another, and a freshly created one always starts with an empty dynamic table.',
 ['schedules','histories'],'all interleavings of operation sequences on two connections, including creation and disposal',
 'Every test uses one encoder or decoder at a time.',
 [HE,HD,HT,HS],[('state owned by the instance','hpack/src/table/mod.rs Table'),('shared immutable static table',HS)],[dyn],['Encoder','Decoder'])
p('H17','Connections on different threads do not disturb each other',
 'However the operating system schedules the threads of a program, every call on an encoder, a decoder or a table returns exactly what it would return without the other threads, and leaves its object in the same state. This also holds for the first calls of a process and for several threads reading one shared table.',
 ['schedules','histories'],'all interleavings of the machine instructions of calls made by different threads, from fresh and warmed-up processes',
 'All tests that run side by side use the library a few times each; a harmful interleaving is a window of a few instructions that a test run practically never hits.',
 [HE,HD,HT,HS,FD,FE],[('state owned by the instance','hpack/src/table/mod.rs Table'),('shared immutable tables',HS)],[dyn],['Encoder::encode','Decoder::decode','Table::find','Table::get'])
p('H18','A long-lived connection does not accumulate memory',
 'However long an encoder, decoder or table is used and whatever is sent, refused or evicted, the memory it keeps between calls stays bounded by a constant plus a multiple of the largest dynamic table limit it has had. Headers that were evicted, rejected, left unfinished or never added are released, and dropping the object releases everything.',
 ['histories','inputs'],'all lengths of use, all sequences of operations, all contents',
 'Tests end after a few headers and do not look at memory; what is kept per header shows after thousands.',
 [HE,HD,HT,HS],[('eviction','hpack/src/table/dynamic.rs'),('state owned by the instance','hpack/src/table/mod.rs Table')],[dyn],['Encoder','Decoder','Table'])

p('F01','Huffman encoding follows RFC 7541 Appendix B bit for bit',
 'Encoding any byte string appends to the output exactly the concatenation of the Appendix B codes of its bytes, completed to a whole octet with at most seven 1-bits and nothing when already whole. What the output held before stays unchanged, and encoding never fails.',
 ['inputs'],'all byte strings, all earlier output contents',
 'Tests encode single characters and a few sentences; alignment of every symbol at every bit offset is not covered.',
 [FE,FET],[('code concatenation',FE),('code table',FET)],[],['encode'])
p('F02','Huffman encoding followed by decoding is the identity',
 'For every byte string and every decoding speed, decoding the encoded form appends exactly the original bytes to the output and reports success.',
 ['inputs','configurations'],'all byte strings, all five speeds',
 'Tests decode single characters and a few strings; symbol pairs at every bit offset and chunk phase are not covered.',
 [FE,FD,FR],[('encoder',FE),('bit reader',FR),('translation matrices','huffman/src/decoder/table1.rs .. table5.rs')],[],['encode','decode'])
p('F03','The Huffman decoder accepts exactly the valid strings',
 'The decoder succeeds exactly on octet strings that are a sequence of complete Appendix B codes followed by fewer than eight 1-bits, and then returns exactly the corresponding symbols. Longer padding, padding with a 0-bit, an explicit end-of-string code and incomplete codes are rejected.',
 ['inputs','configurations'],'all octet strings, all five speeds',
 'Tests reject one or two malformed strings; the decoder is a state machine of hundreds of states whose final states and invalid transitions are never enumerated.',
 [FR,'huffman/src/decoder/table1.rs','huffman/src/decoder/table2.rs','huffman/src/decoder/table3.rs','huffman/src/decoder/table4.rs','huffman/src/decoder/table5.rs'],[('bit reader','huffman/src/decoder/reader.rs decode_next'),('padding validation','huffman/src/decoder/reader.rs finalize')],[('reader state','position in the code tree, pending bits and bits since the last symbol',FR)],['decode'])
p('F04','All decoding speeds give the same answer',
 'For every octet string, valid or not, decoding with one, two, three, four or five bits at a time gives the same verdict and, on success, the same bytes. The order and number of earlier decodings at other speeds is irrelevant.',
 ['inputs','configurations'],'all octet strings, all pairs of speeds',
 'Tests run the same few inputs at each speed; equivalence of five different state machines needs all their joint states.',
 [FR,FD],[('chunked reading',FR),('one matrix per speed','huffman/src/decoder/table1.rs .. table5.rs')],[],['decode','DecoderSpeed::known'])
p('F05','Generated translation matrices decode their code table',
 'For any prefix-free code table and any chunk width from one to five bits, walking the generated matrix chunk by chunk as documented (next row, symbol, leftover bits) yields for every code word its symbol with the exact leftover, and no symbol or transition for bit strings that are not prefixes of code words. The matrices shipped with the decoder are the ones generated from the shipped code table.',
 ['inputs','configurations'],'all prefix-free code tables within the 256-row limit, all chunk widths',
 'Tests flatten one five-symbol table per speed.',
 [FF,'huffman/src/decoder/table1.rs','huffman/src/decoder/table2.rs','huffman/src/decoder/table3.rs','huffman/src/decoder/table4.rs','huffman/src/decoder/table5.rs'],[('row creation','huffman/src/flattener/mod.rs flatten'),('path variants','huffman/src/flattener/mod.rs generate_coding_paths')],[],['flattener::flatten','decoder::table1..5::DECODE_TABLE'])
p('F06','The code table parser reads the RFC layout faithfully',
 'Parsing text in the layout of RFC 7541 Appendix B returns, line by line and in order, the number of code bits and the code value written there. Parsing the bundled table yields exactly the code table used for encoding.',
 ['inputs'],'all code lengths and values printable in the RFC layout, all line orders and counts',
 'Tests parse two lines.',
 [FP,FET,'huffman/assets/hpack-huffman.txt'],[('line parser',FP)],[],['parser::parse','encoder::table::ENCODE_TABLE'])
p('F07','The Huffman decoder terminates with bounded output on any input',
 'For every octet string and speed the decoder returns without panicking, appends at most eight bytes for every five input octets, and never alters what the output held before. This includes inputs of any length and inputs rejected half way.',
 ['inputs','configurations'],'all octet strings, all speeds, all earlier output contents',
 'Tests use short, mostly valid inputs and empty outputs.',
 [FR,FD],[('bit reader',FR)],[],['decode'])
p('F08','Huffman functions can be called from several threads at once',
 'However the operating system schedules the threads of a program, every call of the encoder, the decoder, the flattener and the parser returns exactly what it returns alone. This also holds for the first calls of a process and for threads decoding at different speeds.',
 ['schedules','inputs'],'all interleavings of the machine instructions of calls made by different threads, from fresh and warmed-up processes',
 'Tests share no data between threads on purpose and cannot choose the instruction at which a thread is preempted.',
 [FE,FD,FR,FF,FP],[('shared immutable tables',FET),('reader owned by the call',FR)],[],['encode','decode','flattener::flatten','parser::parse'])

p('F09','Huffman calls do not depend on earlier calls',
 'Encoding, decoding, flattening a table and parsing a code listing give the same result, output and error whatever the process called before, how often, in which order and in which thread: after failures, after other speeds and other inputs, and as the first call of a process or of a thread.',
 ['histories','inputs'],'all sequences of calls, failed ones included, over all threads that make them',
 'Every test makes one call and looks at its result; what a call leaves behind for the next is not looked at.',
 [FE,FD,FR,FF,FP],[('shared immutable tables',FET),('reader owned by the call',FR)],[],['encode','decode','flattener::flatten','parser::parse'])
p('F10','Huffman calls leave no memory behind',
 'However often the encoder, the decoder, the flattener and the parser are called, and with whatever inputs, good or rejected, the memory still held after the calls (apart from the outputs given to the caller) stays bounded by a constant.',
 ['histories','inputs'],'all numbers and sequences of calls, all contents',
 'Tests make a few calls and do not look at memory.',
 [FE,FD,FR,FF,FP],[('reader owned by the call',FR)],[],['encode','decode','flattener::flatten','parser::parse'])

p('P01','Every value survives protobuf encoding and decoding',
 'For every supported field type, tag and value, decoding an encoded field returns one entry with the same tag and the matching wire type, and converting its bytes to the same type gives back the same value. Repeated fields keep length and order, and floating point values are preserved bit for bit.',
 ['inputs','configurations'],'all 27 field types, all tags, all values and repeated sequences, all encoding entry points',
 'Tests check two or three values per type and never join encoder and decoder.',
 [PE,PEP,PD,PDP,PDL],[('typed encoders',PEP),('field extraction',PD),('typed conversions',PDL)],[],['Encoder::encode','Decoder::decode','DecoderLit'])
p('P02','Encoded fields are canonical proto3',
 'The bytes produced for a field are exactly those of the proto3 specification: minimal varint key, minimal varints, sign-extended negative integers, zigzag for signed types, little-endian fixed-width values, and packed length-delimited repeated fields. The generic and the type-specific ways of encoding produce identical bytes, appended after whatever the destination held.',
 ['inputs','configurations'],'all field types, tags, values and repeated sequences, all encoding entry points',
 'Tests pin a few byte strings per type; varint and zigzag boundaries and multi-octet keys and lengths are not enumerated.',
 [PE,PEP,PEL],[('varint','protos/src/encoder/primitives.rs encode_varint'),('key','protos/src/encoder/primitives.rs encode_key'),('type dispatch','protos/src/encoder/mod.rs encode'),('conversions',PEL)],[],['Encoder::encode and Encoder::encode_*'])
p('P03','Reported sizes are the bytes written and consumed',
 'Every successful encode call returns exactly the number of bytes it appended to the destination. Every successful decode call returns exactly the number of bytes it removed from the front of the input buffer.',
 ['inputs','histories'],'all field types and values; all byte strings and all ways of feeding them',
 'Tests check the size of a few encodings; decode sizes across calls and for multi-field input are not checked.',
 [PE,PEP,PD],[('size accumulation',PE),('consumption accounting','protos/src/decoder/mod.rs decode')],[],['Encoder::encode','Decoder::decode'])
p('P04','Protobuf decoding is independent of how the input is chunked',
 'If a byte stream is fed to the decoder in any sequence of chunks, each appended to the unread remainder, the fields delivered and the verdict are the same as when it is fed at once, and the same bytes are consumed. A decoder waiting for more data returns success without delivering a partial field and leaves the unread bytes in place.',
 ['histories','inputs'],'all byte streams, all sequences of chunk boundaries, calls without new data included',
 'One test splits one message once; the decoder keeps state between calls, so every split point of every field kind matters.',
 [PD],[('resumable state','protos/src/decoder/mod.rs Decoder'),('underflow handling','protos/src/decoder/mod.rs decode_key, extract_*')],[('current key','tag and wire type of the field being decoded',PD),('pending length','announced length of a length-delimited field',PD)],['Decoder::decode'])
p('P05','The protobuf decoder parses every byte string correctly or rejects it',
 'For any byte string the decoder delivers exactly the fields that the wire format defines, in order, up to the first malformed or incomplete one; a malformed one (unknown wire type, tag 0, key above 32 bits, varint above ten octets) gives the invalid input error, an incomplete one is left pending. It never panics, never loops forever and allocates no more than the input justifies.',
 ['inputs'],'all byte strings',
 'Tests decode well-formed fields and a few malformed keys.',
 [PD,PDP,PT],[('varint','protos/src/decoder/primitives.rs decode_varint'),('key','protos/src/decoder/primitives.rs decode_key'),('wire types',PT)],[],['Decoder::decode'])
p('P06','Tag numbers are validated on both sides',
 'Encoding succeeds for exactly the tags from 1 to 2^29-1 and fails with the tag error for any other, for every field type and entry point, writing nothing. The decoder delivers every tag from 1 to 2^29-1 unchanged and rejects tag 0.',
 ['inputs','configurations'],'all 2^32 tag numbers, all field types and entry points',
 'Tests try a few tags on one primitive.',
 [PEP,PDP,PE],[('encoder validation','protos/src/encoder/primitives.rs encode_key'),('decoder validation','protos/src/decoder/primitives.rs decode_key')],[],['Encoder::encode and Encoder::encode_*','Decoder::decode'])
p('P07','Encoding through a faulty writer never reports false success',
 'For any writer that accepts bytes in arbitrary portions or interrupts calls, a successful encode has passed on exactly the canonical bytes. If the writer fails permanently or stops accepting bytes, encode returns the interruption error, and the bytes the writer accepted until then are a prefix of the canonical bytes.',
 ['fault_sequences','inputs'],'all sequences of writer answers (short write, interruption, zero-length write, error) at every write call, all field types',
 'Tests write to memory only, which never fails and never writes short.',
 [PE,PEP],[('complete writes','protos/src/encoder/primitives.rs write_all'),('error mapping','protos/src/encoder/error.rs')],[],['Encoder::encode with any io::Write'])
p('P08','Typed conversions are total with safe defaults',
 'Converting decoded bytes to any target type never panics: it gives the value the bytes denote if they are a well-formed encoding of the named type and that type converts to the target, and the default value (zero, false, empty) otherwise. A repeated value whose bytes are malformed anywhere converts to the empty sequence, and text that is not valid UTF-8 converts to the empty text.',
 ['inputs','configurations'],'all byte strings, all named types, all target types',
 'Tests convert a few well-formed values.',
 [PDL,PDP],[('conversions',PDL),('packed decoding','protos/src/decoder/primitives.rs decode_*_vec')],[],['From<DecoderLit>'])
p('P09','A protobuf decoding error is clean and stable',
 'When decoding fails, the fields before the malformed element have been delivered, the malformed element and everything after it remains unread, and no partial field is delivered. Repeating the call gives the same error and changes nothing, and other decoders are unaffected.',
 ['inputs','histories'],'all streams with a malformed element at every position, all chunkings, repeated calls',
 'No test inspects the buffer, the output or the decoder after an error.',
 [PD],[('consume after success','protos/src/decoder/mod.rs buf.drain')],[('current key','kept across calls',PD)],['Decoder::decode'])
p('P10','Messages compose: fields come back complete and in order',
 'Encoding any sequence of fields one after another into one destination, and decoding the result with a single call, returns all of them in the same order, each with its own tag, type and content. Empty strings, empty repeated fields and embedded messages anywhere in the sequence are no exception, and a decoder that has finished a message is ready for the next.',
 ['histories','inputs'],'all sequences of fields, including empty ones and nested messages, and all sequences of messages through one decoder',
 'Tests decode one or two fields per message.',
 [PE,PD],[('field loop','protos/src/decoder/mod.rs decode'),('state reset','protos/src/decoder/mod.rs reset')],[('current key','must be cleared after each field',PD)],['Encoder::encode','Decoder::decode'])
p('P11','Protobuf encoding and decoding on several threads do not disturb each other',
 'However the operating system schedules the threads of a program, every call on an encoder or decoder and every value conversion returns, writes and consumes exactly what it does without the other threads. This also holds for the first calls of a process and for threads sharing one encoder.',
 ['schedules','inputs'],'all interleavings of the machine instructions of calls made by different threads, from fresh and warmed-up processes',
 'Tests share no data between threads on purpose and cannot choose the instruction at which a thread is preempted.',
 [PE,PEP,PEL,PD,PDP,PDL],[('state owned by the instance',PD),('scalar conversions',PEP)],[('current key','kept across calls of one decoder',PD)],['Encoder::encode','Decoder::decode','DecoderLit','EncoderLit'])

p('P12','Protobuf decoders and encoders do not influence each other',
 'Any number of decoders and encoders can be used in any interleaving, and each behaves exactly as if it were alone, also when it is in the middle of a field. Dropping one, or a failure in one, has no effect on another, a freshly created decoder always starts at the beginning of a field, and conversions and encodings give the same result whatever was called before.',
 ['histories','schedules'],'all interleavings of operation sequences on several decoders and encoders, including creation and disposal',
 'Every test uses one decoder at a time and gives it one message.',
 [PE,PEP,PEL,PD,PDP,PDL],[('state owned by the instance',PD),('scalar conversions',PEP)],[('current key','kept across calls of one decoder',PD)],['Encoder::encode','Decoder::decode','DecoderLit','EncoderLit'])
p('P13','Protobuf coders accumulate no memory',
 'However many fields a decoder has received, however many fields have been encoded or converted, and however many decoders were dropped or failed in the middle of a field, the memory held between calls (apart from the buffers of the caller) stays bounded by a constant; in particular a claimed length alone reserves nothing.',
 ['histories','inputs'],'all lengths of use, all sequences of operations, all contents',
 'Tests decode one short message and do not look at memory.',
 [PE,PEP,PEL,PD,PDP,PDL],[('state owned by the instance',PD)],[('current key','kept across calls of one decoder',PD)],['Encoder::encode','Decoder::decode','DecoderLit','EncoderLit'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
