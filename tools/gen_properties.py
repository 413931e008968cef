#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(q.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
D = "dash7/src/"
CODEC = [D+"app/action.rs", D+"app/command.rs", D+"app/operation/mod.rs", D+"app/query.rs", D+"app/interface.rs",
         D+"network/addressee.rs", D+"session/mod.rs", D+"data/mod.rs", D+"physical/mod.rs", D+"file/mod.rs"]

p("C01", "Decoding arbitrary bytes never panics, aborts or hangs",
  """For every byte string, every public decoder (ALP command, action, operand, query, interface configuration and status,
  addressee, system file, link, network and transport frame) returns either a value or an error. It never panics, overflows,
  aborts the process or runs without end, in any protocol variant.""",
  ["inputs", "configurations"], "all byte strings up to the sizes tried, every public decode entry point, the three protocol variants, overflow checks on",
  "The tests decode about 60 well-formed byte strings and no malformed or truncated one; the input space is unbounded.",
  CODEC+[D+"link/frame.rs", D+"network/network.rs", D+"transport/mod.rs", D+"utils.rs", D+"types.rs"],
  [("reader for actions, opcode peek and seek back", D+"app/action.rs"), ("command loop and end detection", D+"app/command.rs"), ("remainder computation", D+"utils.rs pad_rest")],
  ["return of every decode call", "process exit status"])

p("C02", "Encoding then decoding gives back the same command",
  """Every ALP command built through the public API from consistent, in-range, exactly representable parts encodes successfully, and decoding the result
  yields an equal command with nothing left over. The same holds for each action and for every operand type on its own.""",
  ["inputs", "configurations"], "all consistent values: every action, every query, interface, address, security state and file kind, all lengths, in all three variants",
  "The tests round-trip one or two hand-picked values per type; interactions between fields, lengths and neighbouring actions are not sampled.",
  CODEC+[D+"types.rs", D+"app/operation/length.rs"],
  [("derived and hand written encoders and decoders", D+"app"), ("length prefix writers", D+"utils.rs")],
  ["bytes returned by the encoder", "value and remainder returned by the decoder"])

p("C03", "Encoded bytes follow the DASH7 wire layout",
  """For every consistent value, the encoder emits exactly the bytes the protocol layout prescribes for the selected variant: field order, bit widths,
  byte order, operation codes, flags, presence of optional fields, zeroed reserved bits, and minimal length and compressed-number encodings.""",
  ["inputs", "configurations"], "all consistent values of every encodable type, in all three variants",
  "A layout error that encoder and decoder share survives every round trip; the tests pin the bytes of a few dozen values only.",
  CODEC+[D+"types.rs", D+"app/operation/length.rs", D+"session/interface_final.rs", D+"app/interface_final.rs"],
  [("field order and attributes of every type", D), ("operation codes", D+"app/action.rs OpCode")],
  ["bytes returned by the encoder, compared with an independent reference encoder"])

p("C04", "Decoding accepts exactly the well-formed input and yields its meaning",
  """A decoder accepts an ALP command or action exactly when the bytes are well formed for the selected variant (known operation code, defined enumeration values,
  all operands present), and the value it returns is the one those bytes denote. Reserved bits are ignored, and non-minimal lengths and compressed numbers are understood;
  encoding an accepted value again gives the canonical form, which decodes to the same value.""",
  ["inputs", "configurations"], "all byte strings, well formed or not: exhaustively for the first bytes, sampled with mutation beyond, in all three variants",
  "The tests contain no input that must be rejected and none with reserved bits set or non-minimal encodings.",
  CODEC+[D+"types.rs", D+"app/operation/length.rs"],
  [("decoders of every type", D), ("dispatch on the operation code", D+"app/action.rs")],
  ["value or error returned by the decoder, compared with an independent reference decoder"])

p("C05", "Every input byte is accounted for",
  """A decoder reports exactly the bytes it did not use as remainder, and the whole-buffer conversions reject input with bytes left over instead of dropping them.
  The decoding of concatenated commands is the concatenation of their decodings, except that nothing after an indirect forward is interpreted.
  A command cut inside an action is rejected, never completed with invented or partial actions.""",
  ["inputs", "configurations"], "all action sequences, all cut points and all suffixes, in all three variants",
  "The tests decode complete single commands only and never look at the remainder, at suffixes, or at cut input.",
  [D+"app/command.rs", D+"app/action.rs", D+"utils.rs", D+"link/frame.rs", D+"transport/mod.rs"],
  [("remainder computation", D+"utils.rs pad_rest"), ("command loop and end detection", D+"app/command.rs"), ("whole-buffer conversions", D+"app/command.rs TryFrom")],
  ["remainder and value returned by the decoder"])

p("C06", "Length-prefixed operands never leak into their neighbours",
  """File data and interface status operands occupy exactly the number of bytes their length field declares, whatever file or interface type they carry and whatever
  their content is. The actions that follow decode as if the operand were absent; file data that is not a whole file of its type is kept verbatim,
  and a status whose length does not match its type is rejected.""",
  ["inputs", "configurations"], "all file and interface ids, all declared lengths and contents, all following actions, in all three variants",
  "The tests only use operands whose declared length agrees with their content, mostly as the last action.",
  [D+"app/operation/mod.rs", D+"app/interface_final.rs", D+"utils.rs", D+"file/mod.rs", D+"session/mod.rs"],
  [("bounded operand reader", D+"utils.rs"), ("file data reader", D+"app/operation/mod.rs FileData")],
  ["the decoded sequence of actions and the remainder"])

p("C07", "Compressed numbers round as documented and never out of range",
  """Compressing any number up to the maximum yields the smallest exponent (at most 3 bits) whose range reaches the number, and the mantissa (at most 5 bits) rounded down, or up with ceiling:
  the result is off by less than one step, never above (with ceiling: never below) the number, and exact for representable numbers. Larger numbers, exponents and mantissas are refused with the matching error,
  and every byte decompresses to mantissa times four to the exponent.""",
  ["inputs"], "all 32 bit numbers up to well past the maximum, both rounding modes, all exponent and mantissa bytes, all encoded bytes",
  "The tests check five decompressions, four exact encodings and no rounding, boundary or refusal.",
  [D+"types.rs"], [("compress, decompress, validity check", D+"types.rs VarInt")], ["results of compress, decompress, encode and decode"])

p("C08", "Length fields are minimal, lossless and bounded",
  """Every number below 2^30 encodes into the shortest of the 1, 2, 3 or 4 byte forms, the form is recognisable from the two leading bits, and decodes to the same number;
  distinct numbers have distinct encodings. Numbers from 2^30 up are refused, never truncated, and every 1 to 4 byte form decodes to the number in its remaining bits.""",
  ["inputs"], "all 32 bit numbers (boundaries and dense samples quick, far denser thorough), all encoded forms",
  "The tests encode three numbers.",
  [D+"app/operation/length.rs"], [("length reader and writer", D+"app/operation/length.rs")], ["bytes of the encoder, value of the decoder"])

p("C09", "Out-of-range values are refused on encoding, never truncated",
  """Encoding a value with a number too large for its field (access specifier or mask, error tolerance, channel index, length or offset, compressed number, more channel statuses than
  the count can tell, a LoRaWAN key or identifier of other than its fixed size) returns an error. Whenever encoding succeeds for such a field, the bytes decode to that very value.""",
  ["inputs", "configurations"], "all values of the narrower-than-type fields, wherever they occur in a command or file, in all three variants",
  "The tests never encode an out-of-range number.",
  [D+"link/mod.rs", D+"app/query.rs", D+"physical/mod.rs", D+"app/operation/length.rs", D+"types.rs", D+"file/phy_status.rs"],
  [("bit width checks of the writers", D), ("channel status count check", D+"file/phy_status.rs")], ["result of the encoder, decoding of the bytes"])

p("C10", "All ways of feeding the same bytes decode alike",
  """Decoding from a slice, from a slice at a byte offset, from a reader at any stream position, and from a reader that delivers its data in arbitrarily small or interrupted pieces give the same value
  and count the same bits as used. Items stored one after the other in one stream can be decoded one after the other.""",
  ["inputs", "configurations", "histories"], "all decodable and undecodable inputs, all chunkings and start positions, sequences of items in one stream",
  "The tests only decode from a slice at offset zero.",
  [D+"utils.rs", D+"app/action.rs", D+"app/command.rs", D+"link/frame.rs"],
  [("slice and reader entry points", D+"utils.rs from_bytes, from_reader"), ("opcode peek and seek back", D+"app/action.rs"), ("end detection", D+"app/command.rs")],
  ["value, bit count and final stream position of each entry point"])

p("C11", "I/O failures surface as errors, never as data",
  """When the source or the sink of a decode or encode fails at any single read, seek or write, the call returns an error and no value; it neither panics nor takes the failure for the end of the input
  or for data. When the failure point lies beyond what is needed, the result is that of the failure-free run. Likewise, printing into a text sink that fails at any call reports the failure.""",
  ["fault_sequences", "inputs"], "every operation index of the stream calls a decode or encode makes, several error kinds, all item types",
  "The tests only use in-memory buffers, which never fail.",
  [D+"app/action.rs", D+"app/command.rs", D+"utils.rs"],
  [("error propagation of peek, seek and end detection", D+"app")], ["result of the call at each injected fault"])

p("C12", "Decoding and encoding never cause undefined behaviour",
  """No decode, encode, clone, comparison or drop of any value, on success or failure, at any truncation point, reads uninitialised or freed memory, drops what was never initialised, leaks, or breaks an aliasing or validity rule.""",
  ["inputs", "configurations"], "all inputs including every truncation of the array-carrying files, in all three variants",
  "Tests assert on values; undefined behaviour is invisible to them, and none decodes a truncated array.",
  [D+"utils.rs", D+"link/mod.rs"], [("unsafe array initialisation with a drop guard", D+"utils.rs read_array")], ["Miri (tree borrows) and AddressSanitizer reports"])

p("C13", "Memory use is bounded by the input size",
  """The memory allocated while decoding is at most a fixed amount plus a constant multiple of the size of the input, whatever lengths and counts the input declares. A few bytes can therefore never make a decoder reserve
  megabytes.""",
  ["inputs"], "all inputs, in particular those that declare more data than they carry",
  "The tests never measure memory and never declare absent data.",
  [D+"app/query.rs", D+"file/mod.rs", D+"app/operation/mod.rs", D+"utils.rs"], [("element-wise growth of length-prefixed data", D)], ["a counting allocator around each call"])

p("C14", "Decoding and encoding are pure and silent",
  """The result of a decode or encode depends on nothing but its arguments: not on earlier calls, not on calls running in other threads, not on how often it is repeated. The library writes nothing to standard output or
  standard error.""",
  ["histories", "schedules", "inputs"], "all call histories, thread interleavings of up to 16 threads, repeated calls, first calls in a fresh process",
  "Every test calls the codec once or twice in a fresh state and captures output.",
  [D+"utils.rs", D+"app", D+"file"], [("absence of shared state", D)], ["results across histories and threads, bytes on fds 1 and 2, ThreadSanitizer reports"])

p("C15", "Link, network and transport frames decode and encode per layout",
  """Foreground, background, network and transport frames are accepted exactly when well formed, with every header field, conditional field and the embedded command taking the value the layout prescribes,
  the embedded command ending where the frame's length says so, and the checksum following it. Encoding an accepted frame gives back the bytes it was decoded from, in canonical form.""",
  ["inputs", "configurations"], "all frames: all flag combinations, address types, length values, embedded commands and cut points, in all three variants",
  "There is no test of any frame.",
  [D+"link/frame.rs", D+"network/network.rs", D+"transport/mod.rs", D+"app/command.rs"],
  [("conditional fields", D+"transport/mod.rs"), ("length of the embedded command", D+"app/command.rs")], ["decoded fields (debug output, public fields), remainder, re-encoded bytes"])

p("C16", "System files keep their identity and layout",
  """Each file identifier selects one fixed structure; decoding that many well-formed bytes yields its fields and re-encoding gives the bytes back. Malformed enumeration values, invalid text and missing bytes are rejected,
  identifiers without a known structure keep exactly the requested bytes, and named identifiers convert to and from their number without loss.""",
  ["inputs", "configurations"], "all 256 file identifiers, all contents and lengths, in all three variants",
  "There is no test of any system file structure.",
  [D+"file/mod.rs", D+"file/access_profile.rs", D+"file/factory_settings.rs", D+"file/firmware_version.rs", D+"file/engineering_mode.rs", D+"file/phy_status.rs", D+"file/dll_config.rs", D+"file/dll_status.rs", D+"file/security_key.rs", D+"link/mod.rs", D+"utils.rs"],
  [("selection by identifier", D+"file/mod.rs File"), ("fixed width text and arrays", D+"utils.rs")], ["decoded file, remainder, re-encoded bytes"])

p("C17", "Command queries and text report what the command contains",
  """For every command, the tag, request, response, interface status and last-response queries report the first matching action (a request tag taking precedence for the command's tag), the list without interface statuses
  holds all other actions in order, and the text form states tag, completion, actions and interface status accordingly. A status code counts as an error exactly when its value is 0x80 or above.""",
  ["inputs", "histories"], "all sequences of actions, with any number and order of tags and statuses; all 256 status codes",
  "The tests query commands with at most one tag or status.",
  [D+"app/command.rs", D+"app/operation/mod.rs", D+"session/mod.rs"], [("linear searches", D+"app/command.rs"), ("text form", D+"app/command.rs Display")], ["results of the queries and of the text form"])

p("C18", "The command line tool prints exactly what the library decodes",
  """For every input and requested type, the tool exits with success and prints the library's decoding when the library accepts the input, and otherwise exits with failure and prints nothing on standard output. Whitespace and letter case
  of the hexadecimal text do not matter, and without a requested type it tries foreground, background, command and file in this order.""",
  ["inputs", "configurations"], "all hexadecimal texts, requested types and file ids, in all three variants",
  "There is no test of the tool.",
  ["dash7-cli/src/main.rs", "dash7-cli/src/parse.rs"], [("type dispatch", "dash7-cli/src/parse.rs")], ["exit status, standard output"])

p("C19", "The wire format does not depend on the host's byte order",
  """A value encodes to the same bytes, and bytes decode to the same value, on little-endian and big-endian hosts.""",
  ["configurations", "inputs"], "all item types with multi-byte fields, on a little-endian and an interpreted big-endian target, in all three variants",
  "The tests only run on the build host.",
  [D+"file/security_key.rs", D+"link/frame.rs", D+"app/interface.rs", D+"session/interface_final.rs", D+"physical/mod.rs"],
  [("explicit byte order on every multi-byte field", D)], ["digest of all results on both targets"])

p("C20", "Updating a value makes its derived fields consistent",
  """After changing the public parts of an addressee, query, channel status list or indirect forward and asking for an update, the value encodes to the same bytes as one built from scratch with those parts;
  updating a value that was built from its parts changes nothing.""",
  ["inputs", "histories"], "all sequences of changes to public parts followed by an update",
  "The tests never mutate a value and never call update.",
  [D+"network/addressee.rs", D+"app/query.rs", D+"file/phy_status.rs", D+"app/operation/mod.rs"], [("update attributes", D)], ["encoding after the update"])

p("C21", "Building, converting, encoding and printing values never panics",
  """Every constructor, conversion, update, encode, comparison and text or debug form returns normally for all field values, consistent or not, in range or not: problems are reported as errors.""",
  ["inputs", "configurations"], "all values reachable through the public API, including inconsistent ones",
  "The tests only build valid values.",
  CODEC+[D+"types.rs", D+"session/interface_final.rs", D+"app/interface_final.rs"], [("error returns of the writers", D), ("identifier conversions", D+"session/mod.rs, "+D+"file/mod.rs")], ["return of every call"])

p("C22", "Work grows linearly with the input",
  """Decoding, encoding, printing, comparing, copying, querying and dropping a command takes time, total memory requested and stream operations in proportion to its size, whatever the actions are made of.""",
  ["inputs"], "all commands: many small actions of any kind and mix, single operands of any length, up to the sizes a transport can deliver",
  "The tests decode at most a few dozen bytes, where any growth looks alike.",
  [D+"app/command.rs", D+"app/action.rs", D+"utils.rs", D+"app/operation/mod.rs", D+"app/query.rs"], [("reading actions up to the end", D+"app/command.rs"), ("reading a counted number of bytes", D+"utils.rs")],
  ["CPU time, bytes requested from the allocator, calls to the stream at sizes that grow eightfold"])

p("C23", "Equality, copies and debug text tell values apart as their encoding does",
  """Two decoded values of the same type are equal exactly when they encode to the same bytes, and exactly when their debug texts are the same; equality is symmetric; a copy is equal to its original, prints the same and encodes the same.""",
  ["inputs"], "all pairs of values of one type, in particular pairs that differ in a single bit",
  "The tests compare each value with the one expected and never with a nearly equal one.",
  CODEC+[D+"types.rs"], [("equality of operands and of whole actions", D)], ["equality, debug text, encoding of pairs of values"])

p("C24", "Every way of encoding gives the same bytes",
  """A value encodes to the same bytes, or is refused, whether it is encoded to a buffer, converted into bytes or a bit string, written into a slice that is large enough, into a stream at any position that takes any part of what it is offered, or behind other values
  through one writer. The stream ends up right behind the value, nothing outside it is overwritten, and a slice that is too small is an error.""",
  ["inputs", "schedules", "histories"], "all values, slice sizes, stream positions and contents, piece sizes, interruptions, and sequences of values of any types",
  "The tests encode to a fresh buffer only.",
  [D+"app/action.rs", D+"app/command.rs", D+"utils.rs", D+"types.rs"], [("writers", D+"utils.rs"), ("conversion into bytes", D)], ["bytes, position and surroundings in each sink"])

p("C25", "Input cut short is told apart from malformed input",
  """A decode that fails because the input ends before the item does reports Incomplete; one that fails because of bytes that are malformed whatever follows them reports something else. So a receiver that waits for more bytes on Incomplete
  always gets on: every proper prefix of an item is accepted or Incomplete, and garbage is never Incomplete once all its declared bytes are there.""",
  ["inputs", "schedules"], "all prefixes of well-formed input and all malformed inputs of all types, from slices and streams",
  "The tests hardly check which error is returned.",
  CODEC, [("operands bound by a declared length", D+"utils.rs"), ("end of a command", D+"app/command.rs")], ["kind of the error returned"])

p("C26", "Identifiers, named codes and default values mean what is on the wire",
  """The identifier a tagged value reports (action, query, status, interface, address, security state, file, enumeration) is the one on the wire that it was decoded from; the named operation and status codes have the numbers the specification gives them;
  the default of every type decodes to itself once encoded (frames whose length the caller has to set and LoRaWAN configurations, whose keys have no default, excepted), and a default operand takes the operation code of the action it is placed in.""",
  ["inputs", "configurations"], "all actions, all values of all enumerations, all default values, in all three variants",
  "The tests never ask a value for its identifier and hardly use defaults.",
  [D+"app/action.rs", D+"app/operation/mod.rs", D+"app/query.rs", D+"session/mod.rs", D+"network/mod.rs", D+"file/mod.rs", D+"physical/mod.rs", D+"data/mod.rs"],
  [("identifier of an action", D+"app/action.rs"), ("default variants", D)], ["reported identifiers, encodings of defaults"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
