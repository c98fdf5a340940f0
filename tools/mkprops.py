#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A section survives packetisation into TS packets and back",
 "For every finalised section of 8 to 4096 bytes, any PID and any starting continuity counter, packetising appends to the output exactly the minimal number of 188-byte packets: sync byte, the given PID, payload flag only, unit-start flag and a zero pointer field on the first packet only, consecutive counters modulo 16, and 0xFF after the last section byte; bytes already in the output are untouched and the counter is left at the value for the next packet. "
 "Feeding those packets to a reassembler, whatever it has seen before, reproduces the section byte for byte and it is reported complete only after its last packet.",
 ["inputs","histories"],
 "all section contents and lengths 8..4096, all 8192 PIDs, all 16 counters, any bytes already in the output, any earlier reassembler history",
 "tests/psi.rs and the table tests packetise a handful of fixed sections; they never sweep the length/packet-boundary residues, counters or output prefixes.",
 ["src/psi/mod.rs","src/ts/mod.rs"],
 [("section to packets","src/psi/mod.rs Psi::demux"),("packets to section","src/psi/mod.rs Psi::mux")],
 ["bytes appended by Psi::demux","Psi.cc after the call","Psi.buffer/size/check() after each mux"],
 [("cc","continuity counter of the last packet","src/psi/mod.rs Psi.cc")])

prop("C02", "Sections are reassembled from every legal in-order packetisation",
 "For every in-order, loss-free packet stream on one PID in which at most one section begins per packet (unit-start flag, any pointer field; a section that begins behind the tail of another continues into a later packet), the reassembler reports every section of the stream exactly once, in order and byte-exact, at the packet that completes it. "
 "This holds whatever mix of adaptation fields shortens the payloads, whatever packets without payload or with nothing but stuffing lie between, however the section header is split, whichever counter the stream starts with, and when reception starts in the middle of a section (the partial section is not reported and the next one is not lost).",
 ["inputs","histories"],
 "all section sequences and all packetisations: per-packet payload sizes 1..184, pointer fields, aligned or back-to-back sections, interleaved adaptation-only packets, any join point and start counter",
 "The tests reassemble fixed captures with full-size payloads; one capture has a nonzero pointer field and none has adaptation fields, split headers or a section continuing after a shared packet.",
 ["src/psi/mod.rs","src/ts/mod.rs"],
 [("pointer field and continuation handling","src/psi/mod.rs Psi::mux"),("section size from header","src/psi/mod.rs Psi::push"),("payload offset","src/ts/mod.rs get_payload_offset")],
 ["Psi::check() and Psi.buffer[..size] after every packet"],
 [("buffer/size","bytes collected so far and expected size","src/psi/mod.rs Psi")])

prop("C03", "Loss, repetition or damage of packets never yields a wrong section",
 "For every history of packets of valid sections suffering any combination of dropped, repeated, reordered or bit-damaged packets, whenever the reassembler reports a checksummed section complete, that section is byte-exact one of the sections sent. "
 "After any such history the next section that begins with a zero pointer field and arrives undamaged and in order is reported, and a section begun with a nonzero pointer field is reported too when it is the first to begin behind a counter gap; the memory held never exceeds one maximal section plus a few packets.",
 ["histories","fault_sequences"],
 "all sequences of drop/repeat/swap/bit-flip faults applied to streams of valid sections, aligned or back-to-back",
 "Existing tests feed only undamaged captures (one repeats a packet); no test drops, reorders or corrupts a packet.",
 ["src/psi/mod.rs","src/psi/utils/crc32.rs"],
 [("counter check drops the partial section","src/psi/mod.rs Psi::mux"),("checksum gate","src/psi/mod.rs Psi::check")],
 ["Psi::check() and Psi.buffer[..size] after every packet","Psi.buffer.len()"],
 [("cc","last accepted counter","src/psi/mod.rs Psi.cc")])

prop("C04", "Section checksum: right value, accepted exactly when intact",
 "The checksum of any byte string equals the MPEG-2 CRC-32 (polynomial 0x04C11DB7, initial value all ones, no reflection, no final inversion), and finalising a section stores the 12-bit length and that checksum so that the section checks as complete while the other header bits are kept. "
 "A section checks as complete if and only if all its bytes are present and the stored checksum matches: every error burst of up to 32 bits and every one to three flipped bits is refused, and trailing bytes after the section do not matter. "
 "Comparing two section buffers never fails, a buffer equals its copy, and two buffers compare equal exactly when length and checksum agree.",
 ["inputs"],
 "all byte strings, all sections up to 4096 bytes, all burst and sparse-bit error patterns, all truncations",
 "Tests compute the checksum of one or two strings and never show a damaged or incomplete section being refused.",
 ["src/psi/utils/crc32.rs","src/psi/mod.rs"],
 [("table-driven CRC","src/psi/utils/crc32.rs crc32b"),("completeness check","src/psi/mod.rs Psi::check"),("finalisation","src/psi/mod.rs Psi::finalize")],
 ["crc32b result","Psi::check()","Psi == Psi"])

prop("C05", "Arbitrary TS packets never crash or exhaust the packet-level code",
 "For every sequence of arbitrary 188-byte packets the reassembler, the header, adaptation-field and clock accessors and their debug output return without panicking, the reassembler's memory stays bounded, and after every packet each table decoder accepts the reassembler's state (complete or not) without panicking. "
 "A packet whose adaptation field leaves no room for payload, or that carries none, has no payload offset (zero is returned) and begins no section.",
 ["inputs","histories"],
 "all sequences of arbitrary 188-byte packets, including inconsistent adaptation lengths, pointer fields and partial sections",
 "Tests only use well-formed packets; none exercises adaptation lengths above 183, a pointer field past the packet end, or decoding an incomplete section.",
 ["src/ts/mod.rs","src/ts/pcr.rs","src/ts/debug.rs","src/psi/mod.rs"],
 [("payload offset validation","src/ts/mod.rs get_payload_offset"),("pointer field validation","src/psi/mod.rs Psi::mux"),("debug output","src/ts/debug.rs")],
 ["no panic, termination, Psi.buffer.len()"])

prop("C06", "Any section or descriptor content is decoded without crashing",
 "For every section whose checksum is valid, and every byte string offered as a descriptor loop, descriptor or text, decoding it, printing the result, copying it and encoding it again return without panicking, in bounded memory and time, and encoding produces well-formed sections. "
 "Lengths that point outside the enclosing section, descriptor or loop, non-decimal BCD digits, dates before 1970 and unknown character tables are all included.",
 ["inputs"],
 "all section bodies for all table ids with a correct checksum, all descriptor loops, all text byte strings",
 "Tests decode well-formed captures only; hostile lengths, undefined times (all ones) and reserved text selectors are never tried.",
 ["src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs","src/psi/descriptors/mod.rs","src/psi/utils/bcd.rs","src/psi/utils/mjd.rs","src/textcode/mod.rs"],
 [("length checks in table decoders","src/psi/*.rs parse"),("descriptor validation before typed decoding","src/psi/descriptors/*.rs check"),("total time conversions","src/psi/utils")],
 ["no panic, termination, well-formed output"])

prop("C07", "Sections a table does not accept leave the decoded table untouched",
 "Offering a table decoder a section with a foreign table id, a wrong checksum (for checksummed tables), missing bytes, a size below the table's minimum, or a table-level descriptor loop that overruns the section changes nothing in the table; a fresh table stays at its defaults. "
 "Every table id the table is documented to accept is accepted: 0x00; 0x02; 0x40 and 0x41; 0x42 and 0x46; 0x4E through 0x6F; 0x70; 0x73. The acceptance tests that program map and network tables offer say yes to every valid section of theirs and no to each of these but one whose loop overruns.",
 ["inputs","histories"],
 "all tables x all 256 table ids x all corruptions and truncations of valid sections, offered to a fresh or already filled table",
 "No test offers a section that must be refused.",
 ["src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],
 [("acceptance check","src/psi/*.rs check()")],
 ["all public fields of the table before and after parse"])

def table(id, title, stmt, f, extra_text, why, mech):
    prop(id, title, stmt, ["inputs"], extra_text, why, f, mech,
         ["TS packets from demux","public fields of the decoded table"])

table("C08", "PAT: every program survives encoding and decoding",
 "Encoding any program association table (version, transport stream id, any list of program number / PID pairs) gives sections that follow the standard layout - at most 1024 bytes, consecutive section numbers, common last section number, valid checksum - and together carry every program exactly once, in order, with nothing dropped when one section is not enough. "
 "Decoding those sections, or sections of an independent encoder, one after another gives back exactly the same values.",
 ["src/psi/pat.rs","src/psi/mod.rs"],
 "all versions 0..31, stream ids, 0..~2500 programs, all program numbers and PIDs",
 "tests/pat.rs encodes and decodes one fixed table that fits one section.",
 [("encode","src/psi/pat.rs psi_list_assemble"),("decode","src/psi/pat.rs parse")])
table("C09", "PMT: every stream and descriptor survives encoding and decoding",
 "Encoding any program map (version, program number, clock PID, program descriptors, streams with type, PID and descriptors) gives standard sections of at most 1024 bytes with consecutive section numbers and valid checksums, the program descriptors in the first section only and every stream exactly once in order. "
 "Decoding those sections, or sections of an independent encoder (also with arbitrary reserved bits), one after another gives back exactly the same values, including the program descriptors.",
 ["src/psi/pmt.rs","src/psi/mod.rs"],
 "all field values, 0..~150 streams, any descriptor lists that fit, sizes crossing section boundaries",
 "tests/pmt.rs uses fixed small tables and none with program-level descriptors to decode.",
 [("encode","src/psi/pmt.rs psi_list_assemble"),("decode","src/psi/pmt.rs parse")])
table("C10", "NIT: every transport stream survives encoding and decoding",
 "Encoding any network table (actual or other, version, network id, network descriptors, streams with ids and descriptors) gives standard sections of at most 1024 bytes with consecutive section numbers, correct descriptor and stream loop lengths and valid checksums, network descriptors in the first section only and every stream exactly once in order. "
 "Decoding those sections, or sections of an independent encoder, one after another gives back exactly the same values.",
 ["src/psi/nit.rs","src/psi/mod.rs"],
 "both table ids, all field values, 0..~150 streams, any descriptor lists that fit",
 "tests/nit.rs uses fixed tables; section boundaries and loop lengths are not swept.",
 [("encode","src/psi/nit.rs psi_list_assemble"),("decode","src/psi/nit.rs parse")])
table("C11", "SDT: every service survives encoding and decoding",
 "Encoding any service table (actual or other, version, stream and network ids, services with schedule and present/following flags, running status, scrambling flag and descriptors) gives standard sections of at most 1024 bytes with consecutive section numbers and valid checksums carrying every service exactly once in order. "
 "Decoding those sections, or sections of an independent encoder, one after another gives back exactly the same values.",
 ["src/psi/sdt.rs","src/psi/mod.rs"],
 "both table ids, all flag combinations, 0..~150 services, any descriptor lists that fit",
 "tests/sdt.rs uses fixed tables with few flag combinations.",
 [("encode","src/psi/sdt.rs psi_list_assemble"),("decode","src/psi/sdt.rs parse")])
table("C12", "EIT present/following: each event in its own correct section",
 "Encoding a present/following event table (0x4E or 0x4F) gives one section per event, numbered from 0 with common last section number and segment last section number, last table id equal to the table id, at most 4096 bytes and a valid checksum; an empty table gives no packets. "
 "Decoding those sections, or sections of an independent encoder, gives back every event exactly: id, start time (1970 to 2038), duration up to 99:59:59, status, scrambling flag and descriptors.",
 ["src/psi/eit.rs","src/psi/utils/bcd.rs","src/psi/utils/mjd.rs"],
 "all ids, versions, start seconds 1970-01-01..2038-04-22, durations 0..359999 s, statuses, any descriptor lists that fit",
 "tests/eit.rs decodes and encodes one fixed present/following table.",
 [("encode","src/psi/eit.rs psi_list_assemble"),("decode","src/psi/eit.rs parse"),("time conversion","src/psi/utils")])
table("C13", "EIT schedule: every event once, in order, in well-numbered sections",
 "Encoding a schedule table (0x50 to 0x6F, always from the base id of its group) with chronological events gives sections of at most 4096 bytes with valid checksums whose (table id, section number) pairs start at the base id and 0 and strictly increase: the next number follows a section without room for the next event, otherwise the next multiple of eight is taken and 248 is followed by 0 of the next table id. "
 "Every section states the largest section number of its table id and the id of the last section; every event appears exactly once and in order, behind one empty section per three-hour period of the day up to the first event's, and a new segment is begun exactly for an event that starts at or after the end of the current one's three hours (six hours for the first segment with events). "
 "Decoding them in order, or schedule sections (0x50 to 0x6F) of an independent encoder, gives back every event exactly.",
 ["src/psi/eit.rs","src/psi/utils/bcd.rs","src/psi/utils/mjd.rs"],
 "all chronological event lists of 1..~400 events spanning minutes to weeks, at most eight full sections per three-hour period, any first start time",
 "tests/eit.rs encodes one fixed schedule with all events in a single evening.",
 [("encode","src/psi/eit.rs psi_list_assemble"),("decode","src/psi/eit.rs parse")])
table("C14", "TDT and TOT carry every date, time and local offset exactly",
 "Encoding any UTC second from 1970-01-01 to 2038-04-22 in a time-and-date or time-offset table gives one standard single-packet-start section (with checksum and correctly sized descriptor loop for the offset table) which, read by the standard's date formula, denotes that second. "
 "Decoding it, or a section of an independent encoder, gives back exactly the same second and the same descriptors.",
 ["src/psi/tdt.rs","src/psi/tot.rs","src/psi/utils/bcd.rs","src/psi/utils/mjd.rs"],
 "all representable seconds, any descriptor list that fits one section",
 "tests/tdt.rs and tests/tot.rs each check one instant.",
 [("encode/decode","src/psi/tdt.rs, src/psi/tot.rs"),("date conversion","src/psi/utils/mjd.rs")])

prop("C15", "Every supported descriptor keeps its values and standard wire layout",
 "For each of the fourteen supported descriptor types and all values within its field widths, the encoded bytes read by an independent implementation of the standard layout give the same values, the length byte and announced size equal the bytes written, and decoding gives back exactly the same values. "
 "Bytes of an independent encoder (with arbitrary reserved bits and symbol rate digits below the resolution of the field) decode to the right values, local time offsets up to 23:59 and any three language-code bytes included.",
 ["inputs"],
 "all field values and list lengths of 0x09 0x0A 0x0E 0x40 0x41 0x43 0x44 0x48 0x4D 0x4E 0x52 0x58 0x5A 0x83 that fit 255 bytes",
 "Each descriptor has one or two fixed examples; list lengths, extreme values and item lists are not covered.",
 ["src/psi/descriptors/x09.rs","src/psi/descriptors/x0a.rs","src/psi/descriptors/x0e.rs","src/psi/descriptors/x40.rs","src/psi/descriptors/x41.rs","src/psi/descriptors/x43.rs","src/psi/descriptors/x44.rs","src/psi/descriptors/x48.rs","src/psi/descriptors/x4d.rs","src/psi/descriptors/x4e.rs","src/psi/descriptors/x52.rs","src/psi/descriptors/x58.rs","src/psi/descriptors/x5a.rs","src/psi/descriptors/x83.rs"],
 [("typed codecs","src/psi/descriptors/x*.rs parse/assemble/size")],
 ["Descriptors::assemble output","fields after downcast"])

prop("C16", "Descriptor lists keep their framing and pass unknown content through",
 "A descriptor loop decodes into its descriptors in order; a descriptor of unknown type, or of a supported type whose content does not fit that type's layout, is kept as tag plus raw bytes and encodes back to identical bytes, and an incomplete descriptor at the end is ignored without affecting those before it. "
 "For every list the announced size equals the number of bytes encoding appends, existing output is untouched, and the result is a well-formed loop containing every descriptor that fits in 255 bytes; one that does not fit is left out whole instead of corrupting its neighbours, descriptor types from outside the library included.",
 ["inputs"],
 "all descriptor loops (all 256 tags, valid, malformed and truncated) and all lists built from typed and raw descriptors, also oversized ones",
 "Tests hold single well-formed descriptors; mixing, malformed content, truncation and oversize are untested.",
 ["src/psi/descriptors/mod.rs","src/psi/descriptors/raw.rs"],
 [("loop walk","src/psi/descriptors/mod.rs Descriptors::parse"),("raw fallback","src/psi/descriptors/raw.rs"),("size and encode","src/psi/descriptors/mod.rs")],
 ["Descriptors::iter/tag/size/assemble"])

prop("C17", "Copies of descriptor lists and events are equal and independent",
 "Copying any descriptor list or event - including ones holding raw descriptors under a supported tag - never fails and gives a value that prints, measures and encodes identically. "
 "Changing, replacing or adding descriptors on either side afterwards leaves the other side as it was, and indexed access and iteration agree on number, order and content.",
 ["inputs","histories"],
 "all descriptor lists decoded from bytes or built by hand, followed by any sequence of push/edit operations on the copy or the original",
 "No test copies a list of descriptors.",
 ["src/psi/descriptors/mod.rs","src/psi/eit.rs"],
 [("Clone by tag","src/psi/descriptors/mod.rs impl Clone for Descriptor")],
 ["Debug output and assembled bytes of both sides"])

prop("C18", "Text is encoded and decoded by the right character table",
 "Decoding text of any supported character table gives for every byte the standard's character (ASCII unchanged, 0x80-0x9F omitted, unassigned bytes as '?', UTF-8 as is), and encoding a string into a table gives each character's byte in that table, omits U+0080-U+009F, replaces typographic quotes and the ellipsis by ASCII when the table lacks them, and writes '?' for everything else - characters beyond U+FFFF included. "
 "Hence text made of characters of the table survives encoding and decoding unchanged; asking for an unknown table gives UTF-8.",
 ["inputs"],
 "all 16 tables x all bytes, all Unicode scalar values, all strings",
 "textcode tests round-trip a few words in some of the tables.",
 ["src/textcode/mod.rs","src/textcode/data.rs"],
 [("code tables","src/textcode/data.rs"),("encode/decode","src/textcode/mod.rs from_str, Display")],
 ["StringDVB::as_bytes","StringDVB::to_string"])

prop("C19", "Text fields on the wire select the right table and re-encode faithfully",
 "A text field's leading bytes select its character table as in the DVB standard (none, 0x01-0x0B one byte, 0x10 0x00 n three bytes, 0x15 UTF-8), the announced size equals the bytes written, with or without the length prefix, and what is written selects the same table and text again (an empty text is written as nothing, so its table is not kept). "
 "Any received byte string gives printable text, reserved or unsupported selectors the text '?', and re-encoding then decoding it again changes neither text nor table.",
 ["inputs"],
 "all texts in all tables, all received byte strings up to 255 bytes",
 "Tests assemble a few strings; reserved selectors and arbitrary received bytes are not covered.",
 ["src/textcode/mod.rs"],
 [("selector parsing","src/textcode/mod.rs From<&[u8]>"),("selector writing","src/textcode/mod.rs assemble, assemble_sized, size")],
 ["assembled bytes, codepage, to_string"])

prop("C20", "Splitting and truncating text respects size limits and characters",
 "Splitting any text with a limit of at least 8 bytes gives pieces in the same table that each encode into at most the limit, are non-empty unless the text is empty, and concatenate to the original bytes; UTF-8 text is never cut inside a character. "
 "Truncating to any limit leaves text that fits untouched, and otherwise leaves at most the limit in bytes: the longest fitting prefix of the text, on a character boundary for UTF-8, followed by three dots (as many as fit when the limit is below three).",
 ["inputs"],
 "all texts in all tables with 1- to 4-byte characters, all limits (split from 8, truncate from 0)",
 "Tests split one Cyrillic text and truncate one ASCII text at fixed sizes.",
 ["src/textcode/mod.rs"],
 [("split","src/textcode/mod.rs split"),("truncate","src/textcode/mod.rs truncate")],
 ["pieces' bytes, size(), to_string()"])

prop("C21", "Reading packets from a byte stream does not depend on how it arrives",
 "For every byte source, the packet reader returns exactly the packets found by scanning the whole byte string from the start for a sync byte, taking 188 bytes and repeating, however the source splits its data into short reads or interrupts them; bytes beyond the packet in the caller's buffer are not touched. "
 "At end of data - also in the middle of a packet - it reports zero and keeps doing so, and other source errors are passed on to the caller unchanged without losing packets when they occur between packets.",
 ["inputs","schedules","fault_sequences"],
 "all byte strings with and without garbage, all splits into short reads, interruptions anywhere, errors between packets, any buffer size from 188",
 "tests/reader.rs reads a few in-memory packets with one short-read pattern.",
 ["src/reader/mod.rs","src/ts/mod.rs"],
 [("sync search and fill loop","src/reader/mod.rs TsReader::read")],
 ["returned counts and packet bytes"])

prop("C22", "Draining packets into any buffer sizes keeps every byte in order",
 "For every sequence of read calls with any buffer lengths, including zero and more than one packet, the byte-stream adapter delivers exactly the concatenation of the packets the packet source yields, reports zero only for an empty buffer or after the source's end, and touches no buffer byte beyond the returned count when it returns bytes. "
 "A source error is passed on and no byte already taken from the source is lost or repeated.",
 ["inputs","schedules","fault_sequences"],
 "all packet sequences, all sequences of buffer lengths 0..600, errors at any packet",
 "tests/reader.rs drains with one or two buffer sizes.",
 ["src/reader/drain.rs"],
 [("internal packet buffer","src/reader/drain.rs TsDrain::read")],
 ["bytes returned by Read::read"],
 [("pos","bytes of the buffered packet already delivered","src/reader/drain.rs TsDrain.pos")])

prop("C23", "TS header accessors read and write exactly their own bits",
 "For every 188-byte packet the header accessors (sync, error, unit start, PID, scrambling, adaptation and its length, payload, counter) return the values of the standard's bit positions, and every setter makes its accessor return the value set while changing no other bit of the packet. "
 "The payload offset is 4 plus the adaptation field when payload follows and 0 when the packet has none; the predefined null packet is a valid null packet.",
 ["inputs"],
 "all packet headers (exhaustive over the header bytes that matter) and all values of each field",
 "src/ts/tests.rs checks accessors on single packets and never that setters keep the other bits.",
 ["src/ts/mod.rs"],
 [("bit masks","src/ts/mod.rs")],
 ["accessor results and packet bytes"])

prop("C24", "Clock reference fields and clock arithmetic are exact",
 "Writing any clock reference (0 to 2^33*300-1) into a packet and reading it gives the same value, changes only its six bytes and uses the standard's bit layout; a packet has a clock reference exactly when its adaptation field has the flag and at least seven bytes. "
 "Differences are the ticks elapsed modulo the clock period, the estimated clock is the exact proportional extrapolation modulo the period, jitter is the signed distance in nanoseconds also across the wrap, and conversions to micro- and milliseconds and bitrate truncate the exact quotient.",
 ["inputs"],
 "all clock values, deltas and byte counts within a day, values around the wrap",
 "src/ts/tests.rs checks single values.",
 ["src/ts/pcr.rs"],
 [("field codec","src/ts/pcr.rs set_pcr/get_pcr"),("modular arithmetic","src/ts/pcr.rs pcr_delta, pcr_to_stc, pcr_jitter_ns")],
 ["function results"])

prop("C25", "PES header fields and timestamp arithmetic are exact",
 "For every PES header built by the standard's layout the accessors return its prefix validity, packet length, payload offset (6 for the stream ids without extended header, otherwise 9 plus the header data length), timestamp flags and all 33 bits of presentation and decoding timestamps whatever the marker bits. "
 "Timestamp differences are the ticks elapsed modulo 2^33 and milliseconds the truncated quotient.",
 ["inputs"],
 "all stream ids, lengths, flags, all 33-bit timestamps, pairs around the wrap",
 "tests/pes.rs reads one header.",
 ["src/es/pes.rs"],
 [("bit layout","src/es/pes.rs")],
 ["function results"])

prop("C26", "BCD, BCD time and Julian date conversions are exact inverses",
 "For every decimal value of 2, 4 and 8 digits BCD encoding gives the digits as nibbles and decoding gives the value back; for every time of day (minutes or seconds) BCD time does the same with the hour taken modulo 24, and decoding accepts hours up to 99. "
 "For every day from 1970-01-01 to 2038-04-22 the Modified Julian Date is the standard's day number and converts back to that day's midnight, any second of a day mapping to its day; dates before 1970 give the epoch.",
 ["inputs"],
 "all values in range (exhaustive for 2 and 4 digits, minutes, seconds of a day and days)",
 "tests/bcd.rs and tests/mjd.rs check a few values.",
 ["src/psi/utils/bcd.rs","src/psi/utils/mjd.rs"],
 [("conversions","src/psi/utils/bcd.rs, src/psi/utils/mjd.rs")],
 ["function results"])

prop("C27", "Language code conversion is the ISO 639 correspondence, both ways",
 "For every string, the language conversion gives the bibliographic three-letter code of a listed two-letter code, the two-letter code of a listed three-letter code in its terminological or bibliographic form, and nothing for any other string. "
 "Converting a two-letter code there and back gives the same code.",
 ["inputs"],
 "all strings; exhaustive over all ASCII letter strings of length 0..3",
 "Tests convert two or three codes.",
 ["src/textcode/lang.rs"],
 [("code list","src/textcode/lang.rs")],
 ["convert result"])

prop("C28", "Stream classification follows stream type and first telling descriptor",
 "For every stream type and descriptor list the classification is video, audio, application signalling, subtitles, teletext or data as by the documented stream types; private streams (0x05, 0x06) are classified by the first descriptor with a listed tag, and everything else is data. "
 "It is the same before encoding and after decoding the stream from a program map.",
 ["inputs"],
 "all 256 stream types x all descriptor lists (any tags, order, content)",
 "tests/pmt.rs sees a few stream types.",
 ["src/psi/pmt.rs","src/es/mod.rs"],
 [("classification","src/psi/pmt.rs get_stream_type")],
 ["get_stream_type result"])

prop("C29", "Byte-order and bit-packing helpers are exact and touch nothing else",
 "Reading 16-, 24- and 32-bit values from any byte slice gives the big-endian value of its first bytes, and writing them stores exactly those bytes and changes no other byte (24-bit writes store the low 24 bits). "
 "Packing values into bit fields places each value of its stated width after the previous ones from the top bit and leaves the remaining bits zero.",
 ["inputs"],
 "all values, all slice lengths and offsets, all field widths summing to at most the word size",
 "Unit tests check one value each.",
 ["src/bytes.rs","src/bits.rs"],
 [("Bytes for [u8]","src/bytes.rs"),("set_bits!","src/bits.rs")],
 ["values and bytes"])

prop("C30", "Named constants carry the code points of the standards",
 "Every named constant for orbital position, polarisation, roll-off, modulation, outer and inner error correction, bandwidth, hierarchy, code rate, guard interval and transmission mode has the code point EN 300 468 gives that meaning, and a delivery descriptor built with it carries exactly that code point in its field. "
 "The table PIDs, packet size, null PID, the null packet's header, clock rates and clock limits and character table numbers have their standard values.",
 ["configurations","inputs"],
 "all named public constants, each in its descriptor field with all other fields arbitrary",
 "No test uses most of the constants.",
 ["src/constants.rs","src/ts/mod.rs","src/ts/pcr.rs","src/es/pes.rs","src/textcode/mod.rs","src/psi/pat.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],
 [("constants","src/constants.rs"),("delivery descriptors","src/psi/descriptors")],
 ["constant values","descriptor bytes"])

prop("C31", "The debug view of a packet shows its true header fields",
 "For every 188-byte packet the debug output of the packet view shows sync validity, error indicator, unit start, PID, scrambling bits, payload flag and counter as they are in the header, and the adaptation field view shows its length, each of its eight flags when the length is not zero, and the clock reference when it is flagged and fits and never unflagged; a packet without adaptation field shows false in its place.",
 ["inputs"],
 "all packet headers and adaptation fields",
 "No test prints a packet.",
 ["src/ts/debug.rs","src/ts/mod.rs","src/ts/pcr.rs"],
 [("packet view","src/ts/debug.rs TsPacket, TsAdaptation")],
 ["formatted text of TsPacket and TsAdaptation"])

prop("C32", "Tables survive a whole multiplex: encode, mix, read, dispatch, decode",
 "For every set of tables encoded on their PIDs (different kinds of tables may share a PID and its continuity counter, any packet may carry the priority bit), mixed in any order that keeps each PID's packets in sequence with null packets, packets of other PIDs and bytes other than the sync byte between packets, and read through the packet reader or the byte-stream adapter from any fragmented source, dispatching the packets by PID to one reassembler per PID and offering each complete section to every kind of table gives every table back equal to what was encoded. "
 "Tables that were not sent stay empty.",
 ["inputs","schedules","histories"],
 "all sets of up to four PIDs with up to three tables each, all interleavings, noise and read fragmentations",
 "Tests take one table at a time through fixed packets; no test combines reader, dispatch and decoding.",
 ["src/reader/mod.rs","src/reader/drain.rs","src/ts/mod.rs","src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],
 [("packet reading","src/reader"),("dispatch","src/ts/mod.rs get_pid"),("reassembly","src/psi/mod.rs Psi::mux"),("table id checks","src/psi/*.rs check")],
 ["the decoded tables"],
 [("reassembler","one per PID","src/psi/mod.rs Psi")])

prop("C33", "The packetising trait numbers and finalises sections of any table",
 "For every implementation of the packetising trait that supplies a list of up to 256 sections, the default packetiser emits exactly those sections in order, sets section number and last section number, calls the finalising hook once per section after these numbers are set and before length and checksum are computed, and continues the counter across sections; an empty list emits nothing and leaves output and counter alone.",
 ["inputs"],
 "all section counts 0..256, section bodies, table ids, versions, hooks that change the body, output prefixes, counters",
 "No test implements the trait; the hook has no user in the repository.",
 ["src/psi/mod.rs"],
 [("default packetiser","src/psi/mod.rs PsiDemux::demux")],
 ["emitted packets","hook arguments"])

prop("C34", "Encoding a table is repeatable and leaves the table alone",
 "For every table of every kind, encoding does not change the table, and encoding again, on another PID, with another counter or behind other output, or encoding an equal table, gives the same sections. "
 "The listed sections, numbered and finalised, are the emitted ones, and decoding the emitted packets and encoding the result gives the same packets.",
 ["inputs","histories"],
 "all tables of all kinds, PIDs, counters, output prefixes",
 "Tests encode each fixed table once.",
 ["src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],
 [("list of sections","src/psi/*.rs psi_list_assemble"),("packetising","src/psi/*.rs demux")],
 ["emitted packets","debug output of the table before and after"])

prop("C35", "Only the section counts: bytes behind it in the buffer change nothing",
 "For every checksummed section and every table kind, decoding gives the same result whatever bytes follow the section in the reassembly buffer (stuffing, part of the next section, anything) and whatever PID and counter the buffer carries. "
 "Converting a section into a table equals decoding it into a new table.",
 ["inputs"],
 "all sections with usual and unusual content, all trailing bytes",
 "Tests decode sections reassembled from whole packets, whose buffer is already cut.",
 ["src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],
 [("decoders","src/psi/*.rs parse, From<&Psi>")],
 ["debug output of the decoded tables"])

prop("C36", "A wrong length loses only what it covers",
 "In a checksummed section an entry whose descriptor loop would reach behind the section ends the reading of that section with all earlier entries kept, and a descriptor that would reach behind its loop is left out with what follows it in that loop, everything else being read as sent. "
 "Bytes too few for another entry or descriptor are ignored, and a section whose table-wide descriptor loop reaches behind the section adds nothing to the table.",
 ["inputs"],
 "all tables in all sections, one section damaged at any entry, descriptor or loop, with any too large length",
 "Tests decode well-formed sections only.",
 ["src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tot.rs","src/psi/descriptors/mod.rs"],
 [("entry loops","src/psi/*.rs parse"),("descriptor loop","src/psi/descriptors/mod.rs Descriptors::parse")],
 ["the decoded tables"])

prop("C37", "Reserved bits of encoded sections and descriptors are ones",
 "Every reserved bit of every section header, table header, entry and known descriptor that is encoded is one, in the first and in every following section; the bit after the syntax indicator of program association and program map sections is zero.",
 ["inputs"],
 "all tables of all kinds in one or more sections and all known descriptors",
 "Tests compare a few fixed sections, mostly the first of a table.",
 ["src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/nit.rs","src/psi/sdt.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs","src/psi/descriptors/x09.rs","src/psi/descriptors/x44.rs","src/psi/descriptors/x58.rs","src/psi/descriptors/x5a.rs"],
 [("encoders","src/psi/*.rs psi_init, assemble"),("descriptor encoders","src/psi/descriptors")],
 ["emitted bytes"])

prop("C38", "The table generator turns mapping files into the right character tables",
 "Given a directory of Unicode mapping files of any of the fifteen ISO 8859 parts, the generator prints one table per file in ascending order of the part number, named after the file and headed by the part's region, with 96 entries: the mapped code point for each byte from 0xA0, in whatever order and letter case the lines come, and zero for bytes not mapped; comment lines, blank lines, lower bytes and hidden files are ignored. "
 "For the published mappings the output compiles and its tables are the ones the library decodes with.",
 ["inputs"],
 "all subsets of the fifteen parts, all mappings, line orders, comments, blank lines and line ends",
 "The generator has no tests.",
 ["tools/iso8859-parser.rs","src/textcode/data.rs"],
 [("reading of a mapping file","tools/iso8859-parser.rs read_file"),("order of the parts","tools/iso8859-parser.rs main")],
 ["the output of the generator program"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
