#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ITEMS = "the ~105 public decodable types (commands, actions, frames, operands, queries, interfaces, addressees, files, header parts)"
C = {
 "C01": ("panic, crash and hang monitor over exhaustive short and generated hostile inputs, overflow checks on",
   "All inputs of up to two bytes of every item are run, and generated ones beyond (well formed, loosely coded, malformed, mutated, cut, noise, lying lengths, tens of kilobytes). A panic, an abort or a case that runs over 40 s is a violation.",
   "Inputs of " + ITEMS + ": exhaustive to two bytes, then drawn from the reference grammar, loosened, mutated, cut and noise; each decoded from a slice, as a whole buffer, from a reader and at a byte offset. Nontrivial: distinct input bytes per item."),
 "C02": ("round-trip monitor over values generated from an independent model", "Round trips of every action and operand type and of whole commands, values drawn from the model with edge-biased fields and all lengths.",
   "Values of every action, operand and whole commands drawn from the model, encoded by the library to a buffer and a stream, decoded from the slice and as a whole buffer and compared. Nontrivial: distinct encodings."),
 "C03": ("differential monitor against an independent reference encoder", "Encodings compared byte by byte with a reference encoder written from the specification's layout tables; sampling, no proof.",
   "Values drawn from the model together with the bytes the layout prescribes; the library's encoding must equal them. Nontrivial: distinct expected encodings."),
 "C04": ("differential monitor against an independent reference decoder", "Accepting, rejecting, value, remainder and canonical re-encoding compared with the reference decoder; all pairs of first two bytes of an action and all first bytes of each type are enumerated, the tails sampled.",
   "Bytes drawn canonical, loosely coded, with undefined values, mutated and cut; all first two bytes of actions; every byte of each type in turn. Nontrivial: distinct accepted inputs, and distinct rejected ones of over one byte."),
 "C05": ("metamorphic monitor of remainders, concatenation and cuts", "Concatenations, cuts at every position, and suffixes of generated commands; remainders of every item.",
   "Sequences of encoded actions, concatenated, cut at every byte and extended; every item followed by arbitrary bytes. Nontrivial: distinct inputs."),
 "C06": ("differential monitor of delimited operands", "All file and interface ids, lengths around the structure's own size, valid and malformed contents, followers valid and invalid.",
   "File data and status operands with a declared length around (also far from) the structure's size, contents valid, malformed or noise, followed by actions; cut short at every byte in turn. Nontrivial: distinct inputs."),
 "C07": ("exhaustive monitor of compression against arithmetic", "Every number up to the maximum in both modes and all byte pairs are run every time; numbers above are sampled quick and exhausted thorough (2^32).",
   "All numbers 0..=507904 and beyond in blocks of 1024, both roundings; all 65536 exponent and mantissa pairs; all encoded bytes. An evaluation is a block; nontrivial: distinct blocks."),
 "C08": ("monitor of length coding against the reference coding", "Dense around all form boundaries, sampled blocks elsewhere; thorough runs every number below 2^30 and beyond.",
   "Numbers in blocks of 4096 around every power of two and random ones, encoded, compared with the reference form, decoded; all two-byte forms with tails; random forms. Nontrivial: distinct blocks and forms."),
 "C09": ("monitor of refusals at encoding", "All values of the narrow fields are swept, also in place within commands and files.",
   "Values with a number in or out of its field's range, alone and inside commands, statuses and files, encoded to a buffer and a stream: refused, or decoded back equal. Nontrivial: distinct field and number."),
 "C10": ("stream monitor: same bytes, different delivery", "Slices, offsets of up to 16 bytes, readers at any position, pieces of 1 to 7 bytes and interruptions compared; sequences of items in one stream.",
   "Each input decoded from a slice and then with varied offset, stream position, chunk size and interruptions, value and bit count compared; items decoded in turn from one stream. Nontrivial: distinct inputs."),
 "C11": ("fault injection at every stream operation", "A run without faults counts the reads, seeks and writes; each is then failed in turn with several error kinds, once and lasting, with whole and one-byte pieces; so are the calls that printing makes to a text sink.",
   "For every input the operations of the failure-free run are counted, then every single one is made to fail (read, seek, write, write without progress); also past the last. Nontrivial: distinct inputs, each with all its fault points."),
 "C12": ("Miri (tree borrows) and AddressSanitizer with LeakSanitizer, allocation balance", "Interpreted: a whole decode, two cuts, a failing stream, clone, update, encode and drop of each item in each variant. Sanitized: natively at every cut. MIR inlining is on to make the interpreter affordable.",
   "Items decoded whole and cut at every byte from exactly sized buffers, from failing and interrupted streams, cloned, compared, updated, encoded, dropped; a third of the cases are the array-carrying files. Nontrivial: distinct inputs."),
 "C13": ("counting allocator around every decode", "The peak of live bytes per decode stays within 8 KiB + 1 KiB per input byte (observed at most half of that), whatever the input declares.",
   "Inputs that declare more than they carry in every length and count field, and the hostile inputs of C01, decoded three ways under a counting allocator. Nontrivial: distinct inputs whose decode allocates."),
 "C14": ("ThreadSanitizer, and monitors of repeated, reordered, concurrent and isolated calls", "Results compared across orders, histories, six threads at once, and processes that differ in history, environment, place, locale and clock; standard streams captured.",
   "Windows of 20 calls repeated, reversed, paired and run in six threads at once; 1500 calls in processes: forward, reverse, after 60000 others, one thread each, without and with odd environment, with shifted clock and all variables set, alone in a fresh process. Nontrivial: distinct windows and calls."),
 "C15": ("differential monitor against reference frame decoders", "All pairs of leading bytes of each frame and header enumerated, bodies sampled with embedded commands; fields observed through debug output with names removed.",
   "Frames with all leading byte pairs, generated headers with all flags, lengths around the right one, embedded commands well formed and not, cut. Nontrivial: distinct inputs of over three bytes."),
 "C16": ("differential monitor of system files", "All 256 identifiers with all requested lengths to 40, and generated contents of each structure.",
   "All file identifiers with random bytes and with contents from the model (canonical, loose, malformed, mutated, cut), decoded, compared field by field, re-encoded. Nontrivial: distinct inputs."),
 "C17": ("monitor of queries against a plain search", "Sequences of up to eight actions in which tags and statuses abound; all 256 status codes.",
   "Commands of up to eight actions, half of them tags and statuses, queried and printed; results compared with a plain scan. Nontrivial: distinct commands."),
 "C18": ("process monitor of the tool against the library", "The tool of each variant is run on generated command lines; exit status and standard output compared with the library's result.",
   "Command lines with every type option, file ids, hexadecimal texts spelled with varying case and blanks, some not hexadecimal; inputs as in C04. Nontrivial: distinct command lines."),
 "C19": ("Miri on a big-endian target compared with native runs", "Every item once or twice per variant, interpreted for s390x, compared line by line with the native result.",
   "For every item a generated input is decoded, printed and re-encoded natively and on interpreted s390x. Nontrivial: every compared result (item and input differ)."),
 "C20": ("monitor of updates against values built from scratch", "Changes to all public parts of the updatable types, then update; all other types must not change.",
   "Updatable values changed in up to all their public parts, updated, compared with one built from scratch, encoded and decoded; all types updated as built. Nontrivial: distinct encodings after the update."),
 "C21": ("panic monitor over inconsistent and out-of-range values", "Values scrambled field by field, every conversion on all bytes, all encodes, updates and debug forms.",
   "Sets of values with every public field overwritten at random (out of range, inconsistent counts and types), encoded, updated, compared, printed, decoded; every conversion for all bytes. Nontrivial: distinct seeds and bytes."),
 "C22": ("cost monitor (thread CPU time, allocator totals, stream calls) at growing sizes", "Eighteen shapes of commands at 4, 32 and 256 KiB (thorough also 2 MiB): counts must stay within fixed factors, CPU time must not grow over 4.5 times faster than the size, confirmed by repeats.",
   "Commands of eighteen shapes (runs of one small action, single huge operands, mixes of all kinds) at sizes growing eightfold, each put through eleven operations. Nontrivial: distinct shape and seed."),
 "C23": ("metamorphic monitor of equality, copies and debug text against encodings", "Pairs of decoded values of every type, most of them one bit apart.",
   "Each item decoded, copied, and compared with six variations of its bytes (its own encoding, one bit flipped, mutated). Nontrivial: distinct inputs."),
 "C24": ("monitor of sinks: same value, different destination", "Each value through buffer, conversion, bit string, slices of all sizes around its own, streams with varied position, content, piece size and interruptions; sequences through one writer.",
   "Values of every item encoded every way there is, results and surroundings compared; sequences of two to ten values of any types through one writer. Nontrivial: distinct inputs and sequences."),
 "C25": ("monitor of error kinds against the reference decoder", "Every cut of well-formed items, and malformed ones with enough bytes behind them that nothing can be missing.",
   "Items cut at every byte from slice and stream; malformed operands, actions and frames extended by 300 bytes, with the reference decoder saying whether the input is short or malformed. Nontrivial: distinct inputs."),
 "C26": ("monitor of reported identifiers, codes and defaults", "All bytes of every enumeration, all file ids, generated actions of every operation code, every default value.",
   "All 256 first bytes of each enumeration, 20 contents of every file id, generated actions of every operation code asked for the identifiers in them; the default of 67 types and 27 actions encoded and decoded. Nontrivial: distinct bytes and actions."),
}
LEVEL = {"C11": "fault_enumeration"}
checks = [dict(property=k, quick_cmd="python3 check.py %s quick" % k, thorough_cmd="python3 check.py %s thorough" % k, technique=t, level=LEVEL.get(k, "exploration"), level_note=n)
          for k, (t, n, _) in C.items()]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
   notes="No hooks in /repo were needed. Checks build the harness in /verif/harness (path dependency on /repo/dash7) once per protocol variant into /verif/target. See DESIGN.md."),
   open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
rules = {k: r for k, (_, _, r) in C.items()}
rules["assumptions"] = ["the reference model in harness/src/model.rs, written from the DASH7 specification and the documented layouts, is right where code and model agree",
                        "inputs of the sizes tried stand for larger ones", "the compiler, deku and the sanitizers are right"]
json.dump(rules, open(os.path.join(HERE, "rules.json"), "w"), indent=1)
