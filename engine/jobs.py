"""Which harness entries decide which property."""
JOBS = {}
def prop(id, jobs, level='proof', **kw):
    JOBS[id] = dict(jobs=jobs, level=level, **kw)
def J(harness, entries='vf_.*', **kw):
    return dict(harness=harness, entries=entries, **kw)

prop('C01', [J('c01')],
     functions=['Value::paste<T>', 'Switch<numeric>::Paste/Apply', 'TpTools::apply_type', 'TpTools::Aux::try_apply', 'TpTools::Aux::overflows', 'Value::Value<T>'],
     note='every (stored type, destination type) pair over all bit patterns; no loops, no bounds')

prop('C02', [J('c02', 'vf_rt.*')],
     functions=['PSrl::write', 'PSrl::read', 'PSrl::read_num', 'PSrl::write_head', 'PSrl::read_head', 'build_flag', 'encode_integer', 'decode_integer', 'Out::write', 'Out::flush', 'In::read_move'],
     note='every scalar type and bit pattern, unnamed, in no scope, an array and an object; the varint loops end after at most ten groups and are unrolled completely')
prop('C03', [J('c02', 'vf_varint.*')],
     functions=['encode_integer', 'decode_integer', 'In::read_move', 'In::read_block', 'In::peek'],
     note='all 64-bit numbers; all byte sequences of any length up to 2^40 (the decoder loop ends after at most ten groups, established by unrolling it completely)')
prop('C05', [J('c05', 'vf_wr_(i8|u8|i16|u16|i32|u32|i64|u64|bool|f32|f64|null)|vf_rd_scalar')],
     functions=['PMsgPack::write', 'PMsgPack::read', 'srl_to_msgp', 'write_scalar', 'read_scalar', 'read_num', 'read_fixnum', 'swap_bytes'],
     note='all values on write; all inputs of any length up to 2^40 on read; oracle: an independent reading of the MessagePack specification in the harness')
prop('C06', [J('c05', 'vf_wr_(str|bin|name|array|map)|vf_rd_(block|scope|close|member.*)')],
     functions=['write_str', 'write_bin', 'PMsgPack::write_scope', 'PMsgPack::write', 'PMsgPack::read', 'get_scope_info', 'get_str_size', 'get_bin_size', 'read_name', 'Out::reserve', 'Out::write(Ticket)'],
     note='all lengths and counts below 2^32, payload compared at an arbitrary index; container writes start from an arbitrary element count (each element counted once by the contract of write)')
prop('C11', [J('c11', opts=dict(time=400, unroll=3, weight=5))],
     functions=['Tools::bytes_to_base64', 'Tools::base64_to_bytes', 'Tools::get_base64_decoded_size'],
     note='all byte strings and all texts of any length up to 2^39; the encode and decode loops are cut with inferred inductive invariants and decided at an arbitrary ghost position; oracle: RFC 4648 written out in the harness. Decoding what was encoded follows from "every character is the standard one", "valid text is accepted" and "every byte is the one the text denotes"')
prop('C12', [J('c12', opts=dict(time=300, unroll=3))],
     functions=['Tools::bytes_to_hex', 'Tools::hex_to_bytes'],
     note='all byte strings and all texts of any length up to 2^40; loops cut with inferred invariants, decided at an arbitrary ghost position')
prop('C13', [J('c13', 'vf_write.*', opts=dict(time=300)),
             J('c13', 'vf_read.*', opts=dict(time=300, unroll=3)),
             J('c13', 'vf_fp.*', opts=dict(time=300, weight=4), contracts={r'conv_type<\(Srl::Type\)7>': 'stub_i64', r'^fpconv_dtoa$': 'stub_dtoa'})],
     functions=['Tools::type_to_str', 'conv_type<integer>', 'conv_type<floating point>', 'Tools::str_to_type', 'str_to_int', 'Tools::trim_space'],
     note='write: all values of all integer types, digit loop unrolled completely (at most 20 digits); floating-point values that are integers: against the contract of the integer conversion; read: digit texts of any length up to 2^39 with any number of leading zeros, loop cut with the invariant "value so far = fold of the digits read"')

_heap = {r'Heap::alloc\(': 'stub_alloc'}
_ostream = {r'ostream<.*::write\(char': 'stub_owrite', r'ostream<.*::tellp': 'stub_tellp', r'ostream<.*::seekp\(std::fpos': 'stub_seekp', r'ostream<.*::flush': 'stub_oflush'}
prop('C09', [J('c09', 'vf_mem_(writes|scalars|times|ticket)|vf_step_.*|vf_flush3', opts=dict(time=300), contracts=_heap),
             J('c09', 'vf_mem_(again|arena)', opts=dict(time=300))],
     functions=['Out::write', 'Out::write<T>', 'Out::write_byte', 'Out::write_times', 'Out::reserve', 'Out::write(Ticket)', 'Out::alloc', 'Out::flush', 'Out::write_to_buffer', 'Out::set', 'Heap::get_mem (with the contract of Heap::alloc, C17)'],
     note='step lemmas: from any reachable state, writing appends exactly the bytes written (all states, all sizes up to 2^36); black-box histories of up to five operations with pieces of any size; collecting the segments in flush: bounded, at most three segments of any size and fill (the loop over the segment list has no bound in the code)',
     bounds='flush: three segments; histories: five operations. Everything else unbounded', level='model_checking', trusted=['contract of Heap::alloc (new segment at the end of the list, large enough, disjoint): established in C17'])
prop('C10', [J('c09', 'vf_str_.*|vf_sstep_.*', opts=dict(time=300), contracts=dict(_heap, **_ostream))],
     functions=['Out::write', 'Out::write<T>', 'Out::write_byte', 'Out::write_times', 'Out::reserve', 'Out::write(Ticket)', 'Out::alloc', 'Out::inc_cap', 'Out::flush', 'Out::write_to_stream', 'Out::set'],
     note='from any reachable state of a streaming output (any bytes already sent, any buffer fill and size): after any operation every byte is in the stream or in the buffer, in order, and flushing completes the concatenation; slots reserved in any state and filled after more output; any start position of the stream',
     trusted=['contracts of std::ostream::write/tellp/seekp/flush: a seekable byte sink that accepts everything', 'contract of Heap::alloc: established in C17'])

prop('C17', [J('c17', opts=dict(time=300))],
     functions=['Heap::get_mem<T>', 'Heap::create<T>', 'Heap::alloc', 'Heap::find_free_seg', 'Heap::put_mem', 'Heap::clear', 'Heap::operator=', 'Heap::destroy', 'SList::append/prepend/remove/find_rm', 'Heap::Chain::get_link'],
     note='from an arbitrary reachable arena (current segment of any size and fill, up to two free segments of any size) and from a new arena: two further requests of any size and of several element types, blocks given back, reset, move, refused requests; disjointness decided by marks at arbitrary places of two arbitrary blocks. Every size up to 2^34 elements; the number of free segments is bounded by two (the list search has no bound in the code)',
     bounds='at most two free segments, two requests per step', level='model_checking')

prop('C18', [J('c18', opts=dict(time=300))],
     functions=['HTable::insert', 'HTable::upsert', 'HTable::get', 'HTable::insert_hash/get_hash', 'HTable::remove', 'HTable::extract', 'HTable::remove_if', 'HTable::foreach', 'HTable::clear', 'HTable::redistribute', 'HTable::Iterator', 'HTable::operator=', 'HTable::~HTable', 'Heap::get_mem/put_mem (executed, not by contract)'],
     note='arbitrary keys (with equal and different hashes, in equal and different buckets), arbitrary order of keys in histories of up to four operations followed by a look-up of an arbitrary key; growth forced by a small limit',
     bounds='histories of at most four modifying operations, at most three entries, tables of 1, 2 and 4 buckets', level='model_checking')

_istream = {r'istream<.*::read\(char': 'stub_iread'}
prop('C08', [J('c08', 'vf_fetch_.*', opts=dict(time=400, weight=3), contracts=_istream),
             J('c08', 'vf_(str|new)_.*', opts=dict(time=400, weight=2), contracts=dict(_istream, **{r'In::try_fetch_data': 'stub_fetch'})),
             J('c08', 'vf_mem_.*', opts=dict(time=300)),
             J('c08', 'vf_parse_(native_(array|names|values)|msgpack_.*|json_(member|number))', opts=dict(time=400), contracts={r'In::try_fetch_data': 'stub_refill', r'^strtod$': 'stub_strtod'}, nofuzz=True),
             J('c08', 'vf_parse_(native_index|json_(escape|comment))', thorough=True, opts=dict(time=600), contracts={r'In::try_fetch_data': 'stub_refill', r'^strtod$': 'stub_strtod'}, nofuzz=True)],
     functions=['In::set', 'In::try_fetch_data', 'In::fetch_data', 'In::peek', 'In::try_peek', 'In::move', 'In::read_block', 'In::read_move<T>', 'In::move_until', 'In::read_block_until', 'In::move_while/skip_space', 'In::is_at_token', 'In::read_substitue/substitute_token', 'PSrl::read', 'PMsgPack::read', 'PJson::read'],
     note='from any reachable cursor state (any part read, any part buffered, any buffer size, anchored or not), any text up to 2^36 bytes: refilling keeps the position and everything from the anchor on and delivers what the text has; each operation, against that contract, delivers what the text determines and leaves a reachable state. The searching loops are run from an arbitrary state for one step, which with the preserved state covers every step except for what the step counter and the substitution buffer accumulate (bounded)',
     bounds='searching operations: delimiter at most one byte away from the (arbitrary) start position; parsers: texts of at most six arbitrary bytes (native, MessagePack) or with one arbitrary character (JSON), buffered up to any byte', level='model_checking',
     trusted=['contract of std::istream::read/gcount: delivers the next bytes, fewer than asked only at the end', 'contract of In::try_fetch_data: established by the vf_fetch entries'])

_iconv = {r'^iconv$': 'stub_iconv', r'^iconv_open$': 'stub_open', r'^iconv_close$': 'stub_close', r'^__errno_location$': 'stub_errno'}
prop('C24', [J('c24', 'vf_conv_(trivial|8_16|8_32|16_8|16_32|vector)', opts=dict(time=400, weight=2), contracts=_iconv),
             J('c24', 'vf_conv_32_.*', thorough=True, opts=dict(time=400, weight=2), contracts=_iconv),
             J('c24', 'vf_native_.*', quickfuzz=5)],
     functions=['Tools::conv_charset (both byte variants)', 'get_charset_string'],
     note='all texts up to 2^30 bytes, every pair of encodings, any buffer size and start index, every behaviour the contract of iconv allows (any split into consumed and produced bytes, output full, incomplete or invalid input, converter not available, stale errno); the conversion loop is unrolled completely (it asks for enough room after the first stop). A short native run with the real iconv accompanies the proof as a cross-check',
     trusted=['contract of iconv(3): at most 4 bytes out per byte in, E2BIG only when fewer than 4 bytes are left, consumes everything on success'])

_strtod = {r'^strtod$': 'stub_strtod'}
prop('C07', [J('c07', 'vf_srl_(top|array.*|names)', opts=dict(time=300)),
             J('c07', 'vf_srl_object.*', opts=dict(time=300), contracts={r'decode_integer': 'stub_varint'}),
             J('c07', 'vf_msgp_.*', opts=dict(time=400)),
             J('c07', 'vf_json_.*', opts=dict(time=300), contracts=dict(_iconv, **_strtod))],
     functions=['PSrl::read', 'PSrl::read_head', 'PSrl::read_num', 'decode_integer', 'PMsgPack::read', 'read_scalar', 'read_name', 'get_scope_info', 'PJson::read', 'PJson::process_*', 'read_unescape', 'skip_comment', 'In::peek/try_peek/move/move_until/read_block/read_block_until/read_substitue', 'Tools::str_to_type', 'Tools::hex_to_bytes'],
     note='native format and MessagePack: one read of any input of any length up to 2^40 from any scope state (top level, in an array, in an object, two levels), any element count left and any number of names, every memory access of everything that runs is an obligation; JSON: every text of up to four or five bytes, and every text of a few bytes behind the beginnings of longer tokens (escapes, surrogates, comments, literals, numbers)',
     bounds='JSON: texts up to five bytes, behind given beginnings up to five further bytes; scope depth up to two (native, MessagePack: the depth only matters through the enclosing scope)', level='model_checking',
     trusted=['contract of the variable-length integer decoder in objects: established in C03', 'contracts of strtod(3) and iconv(3)'])
prop('C14', [J('c14', 'vf_(read|write)_.*', opts=dict(time=400), contracts=_iconv), J('c14', 'vf_native_.*', quickfuzz=5)],
     functions=['PJson::write', 'write_escape', 'insert_in_quotes', 'Out::write_substitute/substitute_token', 'PJson::read', 'read_unescape', 'In::read_substitue', 'read_code_unit', 'uc_literal', 'Tools::conv_charset', 'Tools::hex_to_bytes'],
     note='writing: every string and name of up to two arbitrary bytes and every byte at any place of a longer string, against an independent reading of RFC 8259; the writer treats each byte on its own. Reading: every literal of up to five characters of plain characters and short escapes, every escape at any place of a longer literal, every four-digit escape of the basic plane between neighbours and next to another, every pair of surrogates, every way to cut one off. A short native run of long texts through writer and reader accompanies the proof',
     bounds='strings: two arbitrary bytes, or 20 with one arbitrary; literals: five arbitrary characters, or 26 with one arbitrary escape', level='model_checking',
     trusted=['contract of iconv(3) from UTF-16LE to UTF-8, written out in the harness'])
prop('C15', [J('c15', 'vf_(compact|indented|types)_.*', opts=dict(time=400, weight=2)), J('c15', 'vf_native_.*', quickfuzz=5)],
     functions=['PJson::write', 'PJson::insert_spacing', 'insert_in_quotes', 'PJson::clear', 'Out::write_times'],
     note='every sequence of up to five items (literal, string, object, array, end of scope) below an object or an array and its completion, compact and indented, then a further document after clear; the bytes are read by an independent JSON parser that must find exactly these items with these names. Every value type next to another. A short native run of long documents accompanies the proof',
     bounds='five items below the root', level='model_checking')
prop('C16', [J('c16', opts=dict(time=400, weight=2), contracts=_strtod)],
     functions=['PJson::read', 'PJson::process_quote/process_bracket/process_string/process_char/process_literal', 'skip_comment', 'Tools::str_to_type', 'str_to_int', 'str_to_double', 'In::move_until', 'In::read_block_until'],
     note='every unquoted token of up to five arbitrary characters, as an element and as a member, before any delimiter, against an independent reading of RFC 8259; every document of up to three items of any kind in any nesting with white space of any kind at any one place or at all places; every bracket against every scope',
     bounds='tokens of five characters, documents of three items', level='model_checking',
     trusted=['contract of strtod(3): a number of the JSON grammar is converted completely; it takes nothing that starts like a literal'])

_names = dict(_iconv, **{r'Aux::hash_fnc': 'stub_hash'})
prop('C22', [J('c22', opts=dict(time=400, weight=2), contracts=_names)],
     functions=['Node::value/node/get/try_get', 'Node::has_value/has_node', 'Node::find_values/find_nodes', 'Node::remove_value/remove_node', 'Node::all_values/all_nodes', 'Node::insert', 'Aux::find_link', 'Aux::get_link_at_index', 'Aux::hash_string', 'Environment::store_value/store_node/store_string/conv_string/create_link', 'String::operator=='],
     note='all orders and repetitions of names and children up to the bound, every child asked for by name (also one not there) and by index (also past the end); names in UTF-8, UTF-16 and UTF-32; with a hash without and a hash with nothing but collisions; the contents are arbitrary',
     bounds='at most three values and three nodes under one node, names from four (short, prefix of another, two long)', level='model_checking',
     trusted=['contract of the name hash: any function of the bytes', 'contract of iconv for characters below 128'])

_hash = {r'Aux::hash_fnc': 'stub_hash'}
prop('C20', [J('c20', opts=dict(time=400, weight=2), contracts=_hash)],
     functions=['Node::read_source', 'Tree::prologue_in', 'Tree::read_source', 'Node::consume_item', 'Node::consume_value', 'Node::consume_scope', 'Node::has_value/has_node', 'Environment::store_node', 'PJson::read', 'PMsgPack::read', 'PSrl::read/write'],
     note='chains of 0 to 600 nested scopes (arrays, objects, alternating), also with siblings, delivered one by one by a parser and as bytes of the three formats: read up to 128 scopes below the root, rejected when the scope number 129 is read, before anything further is looked at (so whatever follows)',
     bounds='depths 0, 1, 2, 64, 127, 128, 129, 130, 400 and 600; three shapes of siblings', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
prop('C21', [J('c21', opts=dict(time=500, weight=3), contracts=_hash)],
     functions=['Node::paste/paste_field', 'Node::consume_node/consume_value/consume_item/consume_scope', 'Node::read_source', 'Node::has_node/has_value', 'Context', 'Switch<class>/<container>/<array>/<pair>/<tuple>/<HTable>/<Union>::Paste', 'Tree::unpack', 'Tree::load_source', 'Environment::store_node/store_value/store_string/create_link/conv_string'],
     note='documents of two and three members (numbers, texts, nodes, nodes with nodes) under a root, every order of requests, one of them for a member that is not there or is of the other kind, every way of reading nothing, a part or all of a nested node in any order; optional members; Unions; requests by index; containers, arrays, pairs, tuples, maps with members of the other kind and unread members in the elements; requests that fail inside of a member. Restored while reading and from a loaded tree. The parser frees what it delivered on the next read: any later use of it is an obligation that fails. The contents are arbitrary',
     bounds='three members, nodes two levels deep', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
prop('C28', [J('c28', opts=dict(time=500, weight=3), contracts=_hash)],
     functions=['Tree::store/pack/to_source/load_source/restore/unpack/load_object/clear/prologue_in', 'Environment::clear/set_input/set_output/DirectOutput', 'Node::insert_shared/find_shared', 'PSrl/PMsgPack/PJson::clear/read/write', 'In::set', 'Out::set', 'HTable::clear', 'Heap::clear'],
     note='one operation (store, pack, build and write, load an object, load, restore, unpack; each format), completed or left by an exception at any member, or with the input cut off after any byte, then one operation (store, pack, load and write, restore, load an object and write) with the same tree and the same parser: its result is byte for byte that of a new tree and parser. Objects with nested and shared parts, also parts shared between the two operations',
     bounds='two operations, one kind of object each', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
prop('C27', [J('c27', opts=dict(time=500, weight=3), contracts=_hash)],
     functions=['Registrations::add/create/insert/find', 'TypeRegistration', 'PolymorphicFns', 'Switch<polymorphic>::Insert/Paste', 'Switch<pointer>/<unique_ptr>/<shared_ptr>::Paste', 'Node::paste_field of srl_type_id', 'GetFunction::srl_type_id'],
     note='the type name in the document is every one out of the registered names, their prefixes, unregistered ones and the reserved field name, the requested type every class of the hierarchy (base, derived, a class derived as a second base with an offset, an unrelated one), restored through every kind of pointer; the restored object has to be of exactly the class whose name was stored, in the right place of it, and everything created is destroyed once',
     bounds='four registered classes, type names out of the alphabet', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
prop('C04', [J('c04', 'vf_(names_.*|index|huge|string_.*|binary_.*|any_name_(short|mixed))', opts=dict(time=500, weight=2), contracts=_hash),
             J('c04', 'vf_any_name_(mixed2|medium|long|huge)', thorough=True, opts=dict(time=900), contracts=_hash)],
     functions=['PSrl::write_head', 'PSrl::read_head', 'PSrl::write', 'PSrl::read', 'PSrl::push_scope/pop_scope/clear', 'encode_integer', 'decode_integer', 'HTable<MemBlock, size_t>::get/insert (executed)', 'Aux::copy / Heap::get_mem (executed)', 'PackedBlock::PackedBlock'],
     note='strings and binary data of any length up to 2^30 with any bytes; two names of any length (quick: up to 127 and 2^20 bytes) with any bytes, equal or not; indexes: any input, any number of names before; histories of up to five items with names from four (short, prefix of another, long), with and without hash collisions, in objects and arrays in any nesting, one document after the other, 140 names (indexes of two bytes, growth of the table); the memory of every name and string is given up as soon as it was written',
     bounds='histories: five items below the root, names from an alphabet', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
prop('C23', [J('c23', 'vf_(array|char|numbers|bits|vec|bytes|stored|null).*', opts=dict(time=400), contracts=_iconv),
             J('c23', 'vf_elements_.*', opts=dict(time=300), contracts=_hash)],
     functions=['Switch<TChar[N]>::Paste/Wrap/WrapArray', 'Aux::copy_string', 'Aux::check_size/check_size_max/check_type_string', 'Switch<BitWrap>::Insert/Paste', 'Switch<VecWrap<T>>::Paste', 'VecWrap::VecWrap', 'Switch<Bytes>::Paste', 'Switch<T[N]>::Paste', 'Tools::conv_charset', 'Tools::base64_to_bytes', 'Value::paste'],
     note='character arrays of 1, 2, 5 and 64 characters of one, two and four bytes and single characters: text of any length up to 2^30, any bytes, any encoding, any behaviour the contract of iconv allows; binary data of any length into memory provided by the application and vectors of elements of 1, 2, 4 and 8 bytes; base64 text of any length; each destination is an object of exactly its size, every write outside is a failed obligation. Arrays of other elements: bounded',
     bounds='arrays of numbers, classes and arrays: up to three elements, documents with up to two more; character arrays: the four sizes', level='proof',
     trusted=['contract of iconv(3)', 'contract of the name hash: any function of the bytes'])
prop('C26', [J('c26', opts=dict(time=500, weight=3), contracts=_hash)],
     functions=['Switch<shared_ptr>/<weak_ptr>/<unique_ptr>/<pointer>::Insert/Paste', 'Node::insert_shared/find_shared', 'Environment::SharedKey', 'Environment::DirectOutput', 'HTable<const void*, ...>, HTable<size_t, shared_ptr<void>>', 'Switch<container>/<class>::Paste', 'Tree::store/load_object/to_source/restore/load_source'],
     note='three objects with every set of edges between them (without cycles) and every choice of three root pointers; stored directly or through a tree, restored directly or from a loaded tree, all formats; the restored graph is compared with the stored one, every construction and destruction is counted, and every access to freed memory is an obligation that fails; weak pointers before and behind the shared ones; temporaries whose address is given out again while storing; restoring cut off after any byte with raw, unique and shared pointers that had an object before',
     bounds='three objects, three root pointers, no cycles', level='model_checking', trusted=['contract of the name hash: any function of the bytes'])
