#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so the file stays valid JSON lines)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
L = 'src/lib/'; I = 'include/Srl/'
p('C01', 'Numbers are restored exactly or the restore is rejected',
  'Restoring a stored number into a numeric destination yields exactly that number (a floating-point source going to an integer is truncated towards zero, a destination of floating-point type receives the nearest representable value) or throws. A value outside the range of an integer destination, and NaN or an infinity into an integer destination, is always rejected and leaves the destination untouched.',
  ['inputs'], 'every stored numeric type x every numeric destination type x every bit pattern of the value',
  'Tests restore a few dozen hand-picked numbers; boundary values between 64-bit integers and floating point, NaN and infinities are not among them, and 13 x 12 type pairs times 2^64 values cannot be sampled.',
  [I+'Tools.hpp', I+'Resolve.hpp', I+'Value.hpp', L+'ToolsStrConv.cpp'],
  [('checked narrowing conversion', I+'Tools.hpp try_apply/conv_type'), ('dispatch on stored type', I+'Tools.hpp apply_type')],
  ['value delivered by paste / unwrap', 'exception'])
p('C02', 'Native format: every scalar survives a write/read round trip',
  'A scalar of any type written in the native binary format is read back with the same type class and exactly the same value, and reading consumes exactly the bytes that were written.',
  ['inputs'], 'all scalar types, all 2^64 bit patterns, with and without a name',
  'Tests round-trip fixed sample values; length-class boundaries of the variable-size encoding, the sign bit and float bit patterns are not enumerated.',
  [L+'PSrl.cpp', I+'PSrl.h'], [('scalar writer', L+'PSrl.cpp write'), ('scalar reader', L+'PSrl.cpp read')], ['bytes produced', 'value parsed'])
p('C03', 'Native format: variable-length integers decode exactly or are rejected',
  'Every unsigned 64-bit number written as a variable-length integer decodes to the same number and uses at most ten bytes. Any other byte sequence either decodes to the number its groups denote or is rejected with an exception: over-long and overflowing encodings are never silently wrapped, and no byte after the terminating one is consumed.',
  ['inputs'], 'all 2^64 numbers; all byte sequences of any length',
  'Tests only decode what the library itself encoded, for small numbers.',
  [L+'PSrl.cpp'], [('varint encoder/decoder', L+'PSrl.cpp encode_integer/decode_integer')], ['decoded number', 'exception'])
p('C04', 'Native format: names, indexes and strings resolve to what was stored',
  'After writing any sequence of named items and strings, reading gives back every name and every string byte for byte, whether it was stored inline or as a back-reference, and back-references that do not denote an earlier entry are rejected.',
  ['inputs', 'histories'], 'all names/strings (any bytes, any length) and any order of repeats',
  'Tests use short distinct ASCII names.', [L+'PSrl.cpp', I+'PSrl.h', I+'Hash.hpp'],
  [('string table', L+'PSrl.cpp write_substitute / index lookup')], ['names and strings parsed'])
p('C05', 'MessagePack: scalars use the standard encoding and decode exactly',
  'Every integer, boolean, null, float and double is written in a valid MessagePack encoding of exactly that value, and every MessagePack scalar encoding, whether or not this library would emit it, is read as the value the MessagePack specification assigns to it.',
  ['inputs'], 'all scalar types and bit patterns on write; all prefixes and payloads on read',
  'Tests read only the encodings the library emits for sample values; other valid encodings and boundaries between size classes are not sampled.',
  [L+'PMsgPack.cpp', I+'PMsgPack.h'], [('prefix table and payload writer', L+'PMsgPack.cpp write'), ('reader', L+'PMsgPack.cpp read')], ['bytes produced', 'value parsed'])
p('C06', 'MessagePack: strings, blobs and container headers follow the standard',
  'String, binary, array and map headers carry the exact length or element count in the standard MessagePack form on write, and on read every header form yields exactly that many bytes or elements with nesting closed at the right place.',
  ['inputs'], 'all lengths and counts below 2^32, all header forms',
  'Tests use small containers, so the 16- and 32-bit header forms are hardly exercised and are only read back by the same code.',
  [L+'PMsgPack.cpp'], [('header writer', L+'PMsgPack.cpp write'), ('header reader', L+'PMsgPack.cpp read')], ['bytes produced', 'value parsed'])
p('C07', 'Parsing untrusted bytes never touches memory outside the input',
  'Reading the next element from any input of any length in any of the three formats either delivers an element or throws; it never reads outside the input or writes outside its own buffers, whatever the bytes are, and data handed to the application lies inside the input or a live buffer.',
  ['inputs'], 'all byte strings of all lengths, from every parser state reachable between two elements',
  'The malicious-input tests sample random data; an out-of-bounds read by one byte or a huge declared length goes unnoticed.',
  [L+'PSrl.cpp', L+'PMsgPack.cpp', L+'PJson.cpp', L+'In.cpp', I+'In.hpp'],
  [('input cursor bounds check', I+'In.hpp peek/try_peek/read'), ('parsers', L+'P*.cpp read')], ['memory accesses', 'exception'])
p('C08', 'Reading from a stream gives the same bytes as reading from memory',
  'For every sequence of cursor operations (skip, read a block, move to a delimiter, read until a condition, skip white space) over a stream delivered in chunks of any size, the bytes and results obtained are the same as over one contiguous memory block, also when an item spans several refills.',
  ['inputs', 'histories'], 'all contents, all chunk boundaries, all operation sequences',
  'Stream tests use inputs around one buffer size and never an item that spans three refills.',
  [L+'In.cpp', I+'In.hpp', I+'In.h'], [('refill with anchor', L+'In.cpp try_fetch_data')], ['bytes delivered', 'end-of-input results'])
p('C09', 'Memory output is the exact concatenation of what was written',
  'Output collected in memory equals the concatenation, in order, of everything written, with each reserved slot holding the bytes later put into it; nothing is lost, duplicated or reordered when internal buffers fill up.',
  ['inputs', 'histories'], 'all sequences of writes of all sizes, all positions of reserved slots',
  'Tests write small documents; the branches for a write that exactly fills or exceeds a buffer are not sampled.',
  [L+'Out.cpp', I+'Out.hpp', I+'Out.h'], [('buffer switch', L+'Out.cpp alloc / I/Out.hpp write')], ['bytes returned'])
p('C10', 'Stream output is the exact concatenation of what was written',
  'Output sent to a stream equals the concatenation, in order, of everything written, with each reserved slot holding the bytes later put into it, wherever the stream was positioned at the start, and after completion nothing remains buffered.',
  ['inputs', 'histories'], 'all sequences of writes of all sizes, all initial stream positions',
  'Tests write to an empty string stream only.',
  [L+'Out.cpp', I+'Out.hpp', I+'Out.h'], [('flush', L+'Out.cpp flush'), ('reserved slots', I+'Out.hpp write(Ticket)')], ['bytes in the stream'])
p('C11', 'Base64 text is standard and decodes to the original bytes',
  'Encoding any byte string gives its standard padded base64 text; decoding that text gives the bytes back; and text that is not valid base64 (bad length, foreign character, misplaced padding) is rejected without reading outside the text.',
  ['inputs'], 'all byte strings of all lengths; all candidate texts',
  'Tests encode a few strings; 64-symbol table entries and malformed texts are sampled sparsely.',
  [L+'ToolsBtsConv.cpp'], [('base64', L+'ToolsBtsConv.cpp bytes_to_base64/base64_to_bytes')], ['text', 'bytes', 'rejection'])
p('C12', 'Hex text is standard and decodes to the original bytes',
  'Encoding any byte string gives two hex digits per byte in order; decoding gives the bytes back, accepting upper and lower case; text of odd length or with a foreign character is rejected without reading outside the text.',
  ['inputs'], 'all byte strings of all lengths; all candidate texts',
  'Tests encode a few strings; malformed texts are sampled sparsely.',
  [L+'ToolsBtsConv.cpp'], [('hex', L+'ToolsBtsConv.cpp bytes_to_hex/hex_to_bytes')], ['text', 'bytes', 'rejection'])
p('C13', 'Integers and their decimal text convert exactly',
  'Every 64-bit integer, signed or unsigned, and every floating-point value that is a signed 64-bit integer, is written as its canonical decimal text, and decimal text is read as exactly the integer it denotes. Decimal text denoting a number outside the 64-bit range is never read as a wrapped integer.',
  ['inputs'], 'all 2^64 signed and unsigned values; all digit strings',
  'Tests convert sample values; the overflow test on 20-digit strings is not sampled.',
  [L+'ToolsStrConv.cpp', I+'Tools.hpp'], [('conversion', L+'ToolsStrConv.cpp')], ['text', 'value'])
p('C14', 'JSON strings and names are escaped so that they read back unchanged',
  'Every string and every name written as JSON is a valid JSON string literal, so that quotes, backslashes and control characters never break out of it, and reading the literal back gives the original characters; every standard escape sequence, including four-digit Unicode escapes, is decoded to the character it denotes.',
  ['inputs'], 'all byte strings of all lengths; all escape sequences',
  'Tests use a handful of strings and escape sequences, and names that need no escaping.',
  [L+'PJson.cpp', L+'ToolsStrConv.cpp'], [('escape/unescape', L+'PJson.cpp')], ['bytes produced', 'string parsed'])
p('C15', 'JSON writer produces well-formed documents',
  'For every sequence of well-nested items (named or not), the JSON writer puts separators, names, brackets and the values (strings in quotes, literals by their given text) so that the result is one well-formed JSON document with the items in order, in compact and in indented mode.',
  ['histories', 'configurations'], 'all item kinds in all scope states, both layout modes',
  'Tests read back their own output for a few trees.',
  [L+'PJson.cpp'], [('separator/scope state', L+'PJson.cpp write')], ['bytes produced'])
p('C16', 'JSON reader recognises exactly the literals and structure of the text',
  'For any JSON text the reader delivers the literals true, false, null, numbers, strings and scopes that the text denotes, in order; a token that is none of these (nor a number in the notation of strtod) is delivered as a plain string or rejected, never as a different literal, and scopes close only on their own closing bracket.',
  ['inputs'], 'all texts', 'Tests parse a few documents.',
  [L+'PJson.cpp', L+'ToolsStrConv.cpp'], [('token reader', L+'PJson.cpp read')], ['value parsed', 'exception'])
p('C17', 'The arena hands out disjoint, aligned, sufficiently large blocks',
  'Every block obtained from the memory arena is aligned as requested, lies entirely inside memory owned by the arena and overlaps no other block handed out since the last reset, for every size and order of requests, also when a block or a whole arena is given back and reused.',
  ['inputs', 'histories'], 'all request sizes and alignments, all sequences of requests, releases and resets',
  'Tests do not look at addresses at all.', [L+'Heap.cpp', I+'Heap.hpp', I+'Heap.h'],
  [('segment carving', I+'Heap.hpp alloc/get_mem'), ('segment reuse', L+'Heap.cpp')], ['addresses returned'])
p('C18', 'The hash map behaves as a map',
  'After any sequence of insertions and look-ups the hash map returns for each key the value first inserted for it and nothing for keys never inserted, across growth, colliding hashes, clearing and moving.',
  ['inputs', 'histories'], 'all keys and hash values, all operation sequences',
  'Tests use it only indirectly with a few keys; growth and collision chains are not sampled.',
  [I+'Hash.hpp', I+'Hash.h'], [('bucket chains and redistribution', I+'Hash.hpp insert/get/redistribute')], ['results of look-ups'])
p('C19', 'Equal strings are identified, different strings are kept apart',
  'String hashing depends only on the bytes of the string, interning gives the same identity to equal strings and different identities to different strings even when their hashes collide, and an interned string keeps its contents.',
  ['inputs', 'histories'], 'all byte strings; all hash collisions',
  'Tests never produce a hash collision.', [L+'Hash.cpp', L+'Environment.cpp', I+'Hash.hpp'],
  [('hash', L+'Hash.cpp'), ('string pool', L+'Environment.cpp conv/store_string')], ['names of nodes'])
p('C20', 'Nesting depth is bounded on reading',
  'Loading a document into a tree never recurses deeper than the nesting limit: any document nested deeper than 128 scopes below its root is rejected with an exception in every format, and documents up to the limit are accepted; the same holds for members that are stored while others are searched for, and skipping members does not recurse.',
  ['inputs'], 'all nesting depths, all formats', 'The malicious tests try a few depths.',
  [L+'Node.cpp', I+'Node.hpp', L+'Environment.cpp'], [('depth check', L+'Node.cpp/Environment.cpp')], ['exception'])
p('C21', 'Members are restored regardless of order and of unknown members',
  'Restoring the members of a document by name in any order, or by index in sequence, each once and with any other members in between, gives the values stored under those names or at those indexes; a member that is not there is reported as missing, never another one; skipping a nested member, or one whose restoring failed, consumes exactly that member.',
  ['inputs', 'histories'], 'all member orders, all request orders, all nesting of skipped members',
  'Tests permute a few members with flat skipped values.',
  [L+'Node.cpp', I+'Node.hpp', L+'Environment.cpp'], [('lazy parse queues', L+'Node.cpp consume_*')], ['values pasted', 'exceptions'])
p('C22', 'Node access by name and index is exact',
  'Access to a child by index or name returns exactly the child stored at that position or under that name; an index or name that does not exist is reported by an exception (or an absent result), never by touching invalid memory; removal removes exactly the named child.',
  ['inputs', 'histories'], 'all indexes and names, all shapes of the node',
  'Tests access existing children and one missing name.',
  [L+'Node.cpp', I+'Node.hpp', I+'Node.h'], [('item queues', L+'Node.cpp')], ['returned node/value', 'exception'])
p('C23', 'Fixed-size destinations are never overrun',
  'Restoring text or binary data into a destination of fixed size (character array, bit wrapper, vector wrapper, plain memory) writes only inside the destination, restores exactly the stored data when it fits and throws when it does not; character arrays are always terminated.',
  ['inputs'], 'all data lengths and contents, all destination sizes',
  'Tests restore matching sizes.', [I+'Resolve.hpp', I+'BitWrap.h', I+'String.hpp', I+'Value.hpp'],
  [('size checks', I+'Resolve.hpp Paste')], ['destination memory', 'exception'])
p('C24', 'Character-set conversion is complete and stays inside its buffers',
  'Conversion of text between character encodings delivers all converted characters in order for every input length and every way the converter stops early (output full, incomplete input, invalid input), or reports failure; buffers are grown in time and never overrun.',
  ['inputs', 'fault_sequences'], 'all inputs; all conforming behaviours of the system converter',
  'Tests convert short strings that fit the first buffer.', [L+'ToolsStrConv.cpp'],
  [('conversion loop', L+'ToolsStrConv.cpp conv_charset')], ['converted text', 'failure'])
p('C25', 'Floating-point text never overruns its buffer',
  'Converting any double to text writes at most the documented buffer size and returns exactly the number of characters written; special values are written as their fixed texts.',
  ['inputs'], 'all 2^64 doubles', 'Tests convert sample values.',
  [L+'fpconv/fpconv.c', L+'ToolsStrConv.cpp'], [('formatter', L+'fpconv/fpconv.c')], ['text length'])
p('C26', 'Shared objects keep their identity across a round trip',
  'In object graphs without cycles, pointers that shared one object when stored share one restored object, pointers to different objects restore to different objects, and each restored object is destroyed exactly once, also when restoring fails midway.',
  ['inputs', 'histories'], 'all sharing patterns', 'Tests share one object twice.',
  [I+'Resolve.hpp', L+'Environment.cpp', L+'Tree.cpp'], [('shared tables', I+'Resolve.hpp')], ['pointers restored'])
p('C27', 'Polymorphic objects restore as the registered type or are rejected',
  'A polymorphic object is restored as exactly the registered type whose name was stored; a name that is not registered, or not usable as the requested base, is rejected with an exception and no object is leaked or mis-typed.',
  ['inputs'], 'all type names', 'Tests use registered names only.',
  [L+'Registration.cpp', I+'Registration.h', I+'Resolve.hpp'], [('registry look-up', L+'Registration.cpp')], ['object restored', 'exception'])
p('C28', 'Trees can be reused after completion or failure',
  'A tree that has been used to store or load a document, successfully or ended by an exception at any point, behaves like a new one for the next store or load; nothing of the previous document shows up.',
  ['histories', 'fault_sequences'], 'all sequences of operations, an exception at any point',
  'Tests use a fresh tree each time.', [L+'Tree.cpp', L+'Environment.cpp'],
  [('clear', L+'Tree.cpp/Environment.cpp clear')], ['result of the next operation'])
p('C29', 'Shortest floating-point text denotes the same double',
  'The decimal text written for any finite double reads back as exactly the same double.',
  ['inputs'], 'all 2^64 doubles', 'Tests convert sample values.',
  [L+'fpconv/fpconv.c'], [('grisu2', L+'fpconv/fpconv.c')], ['text'])
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    for x in P:
        assert len(x['title']) <= 80, x['id']
