#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable in diffs)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "include/novatel_edie/"
prop("C01", "Checksums equal their mathematical definition however they are computed",
     "For every byte string, the 32-bit CRC computed in one call, byte by byte, or over any split into consecutive pieces is the same value and equals the reflected CRC with polynomial 0xEDB88320, initial value 0 and no final inversion. "
     "The in-message verification accepts a buffer exactly when the trailing CRC matches, and the NMEA checksum is the XOR of the covered bytes.",
     ["inputs"], "all byte strings (0 bytes to tens of KiB), all splits, all starting CRC values",
     "The unit tests use about ten fixed vectors; a wrong table entry, word-at-a-time tail or alignment case shows only on specific lengths and bytes.",
     [I + "common/crc.hpp", I + "decoders/oem/crc.hpp"],
     [("slicing tables and tail loop", "crc.hpp CalculateBlockCrc32"), ("single-byte step", "crc.hpp CalculateCharacterCrc32")])
prop("C02", "The stream buffer is a bounded FIFO",
     "Under every sequence of writes, reads, erasures and searches the stream buffer behaves like a bounded first-in-first-out byte string: it returns exactly the bytes written, in order, finds a pattern at its first position, and rejects a write that does not fit without changing its content. "
     "No operation touches memory outside the buffer.",
     ["histories"], "all operation histories over all capacities, including wrap/compaction points",
     "The repository has no test of the buffer; compaction happens only after specific histories.",
     [I + "common/fixed_buffer.hpp"], [("two-times storage with compaction", "fixed_buffer.hpp write/erase_begin")])
prop("C03", "Framing conserves every byte and always terminates",
     "For every byte stream, repeatedly asking the framer for the next frame ends after finitely many steps, and the returned pieces (frames and unknown bytes) followed by the bytes still buffered are exactly the bytes written, in order, none lost, duplicated or altered. "
     "A call on a non-empty buffer either returns bytes or reports that more data is needed, and the reported length is the number of bytes delivered.",
     ["inputs", "histories"], "all byte streams (random, sync-dense, truncated and mutated messages), all write chunkings, JSON and unknown-byte reporting on or off",
     "The tests feed a few hand-written messages; loss or duplication depends on the exact byte at which a false sync or truncated message is abandoned.",
     ["src/decoders/oem/src/framer.cpp", I + "decoders/common/framer.hpp", I + "common/fixed_buffer.hpp"],
     [("byte-wise state machine and unknown byte hand-back", "framer.cpp GetFrame / HandleUnknownBytes")])
prop("C04", "Every valid message in a stream is recovered intact and classified right",
     "When a stream consists of valid messages of the supported formats (ASCII, short ASCII, abbreviated ASCII, NMEA, binary, short binary, proprietary binary, JSON when enabled) separated by bytes that cannot start a message, the framer returns exactly those messages, byte-identical and in order, each with its own format, length, response and payload attributes, and everything else as unknown bytes. "
     "In payload-only mode the returned bytes are the message body without header and CRC.",
     ["inputs", "histories"], "all sequences of valid messages of every format and size up to the maximum, with arbitrary inert bytes between them, and all chunkings",
     "Tests frame one or two fixed messages per format.",
     ["src/decoders/oem/src/framer.cpp"], [("format classification by sync and header length", "framer.cpp state machine")])
prop("C05", "Framing does not depend on how the bytes arrive",
     "Delivering the same byte stream in one write, byte by byte or in any other chunks, asking for frames at any points in between, gives the same sequence of recognised frames with the same metadata and the same total sequence of unknown bytes, and a flush at the end returns exactly the bytes that remain.",
     ["schedules", "inputs"], "all byte streams and all chunkings of them",
     "Tests use one or two chunkings of fixed inputs; the defect class is a state that is lost or counted twice when data runs out at a particular byte.",
     ["src/decoders/oem/src/framer.cpp", I + "decoders/common/framer.hpp"], [("incomplete state kept between calls", "framer.cpp GetFrame INCOMPLETE returns")])
prop("C06", "A message with a wrong checksum is never delivered as valid",
     "Every frame that the framer reports as a complete checksummed message carries a checksum that matches its content under an independent computation, has the length its header or terminator implies, and is never longer than the maximum message size. "
     "In particular no corruption of a message's covered bytes or of its checksum lets that message be delivered as valid.",
     ["inputs"], "all byte streams; all single and multi-byte corruptions of valid messages of every checksummed format",
     "Tests corrupt one fixed message per format at one position.",
     ["src/decoders/oem/src/framer.cpp", I + "decoders/oem/crc.hpp"], [("running CRC over header and body", "framer.cpp WAITING_FOR_*_CRC states")])
prop("C07", "Framing respects the caller's output buffer",
     "Whatever the size of the output buffer given to the framer, it never writes beyond it, reports a length only for bytes it delivered, reports a frame that does not fit as such without losing it, and delivers the same frame once a sufficient buffer is offered.",
     ["inputs", "configurations"], "all streams and all output-buffer sizes, including 0 and sizes around frame boundaries",
     "One or two tests use a too-small buffer with one message.",
     ["src/decoders/oem/src/framer.cpp", I + "decoders/common/framer.hpp"], [("BUFFER_FULL results and length accounting", "framer.hpp GetFrame, framer.cpp HandleUnknownBytes")])
prop("C08", "Cooperating framers recover the same messages as the stream contains",
     "The framer manager, with any set of registered format framers, recovers every valid message of the registered formats from a stream, intact, in order and attributed to the framer of its format, and conserves all other bytes as unknown bytes in order. "
     "Each single-format framer on its own accepts only messages of its format with a valid checksum.",
     ["inputs", "configurations", "histories"], "all subsets of framers, all streams of valid messages with garbage between them, all chunkings",
     "Tests run the manager with all framers over a few messages.",
     ["src/decoders/common/src/framer_manager.cpp", I + "decoders/common/framer_manager.hpp", I + "decoders/common/framer.hpp", I + "decoders/oem/framer.hpp"],
     [("per-framer offsets arbitrated by earliest sync", "framer_manager.cpp GetFrame")])
prop("C09", "Header decoding reports the transmitted header fields in every format",
     "For every header content, decoding a message's header yields the message id, sibling, source port, sequence, idle time, time status, week, time, receiver status, definition checksum and software version that were transmitted, the same from the ASCII, binary, abbreviated and JSON forms as far as the form carries them, with the header length equal to the position where the body starts. "
     "Encoding a header and decoding it again gives the same values.",
     ["inputs"], "all header field values, all long and short header forms, all message names including ones with sibling suffixes and without a definition",
     "Tests decode one fixed header per format.",
     ["src/decoders/oem/src/header_decoder.cpp", "src/decoders/oem/src/encoder.cpp"],
     [("per-format header decoders", "header_decoder.cpp Decode"), ("per-format header encoders", "encoder.cpp Encode*Header")])
prop("C10", "Decoding and re-encoding a binary message reproduces it exactly",
     "For every message definition and every valid binary message of it, decoding yields exactly the field values laid out in the message under the documented field-size and alignment rules, and encoding the decoded message to binary reproduces the original bytes including length and CRC. "
     "The result depends only on the message, not on buffer addresses or on earlier contents of the output buffer.",
     ["inputs", "configurations"], "all message definitions (simple, enum, string, fixed and variable arrays, nested field arrays) and all field values",
     "Tests cover a handful of messages from one fixed database; layout and alignment errors depend on the combination of field types and array lengths.",
     ["src/decoders/common/src/message_decoder.cpp", I + "decoders/common/message_decoder.hpp", I + "decoders/common/encoder.hpp", "src/decoders/oem/src/encoder.cpp"],
     [("binary decoder", "message_decoder.cpp DecodeBinary"), ("binary encoder", "encoder.hpp EncodeBinaryBody")])
prop("C11", "Text output shows every field value in the documented format",
     "For every message definition and every field value, the ASCII, abbreviated ASCII and JSON renderings consist of the header and the fields in definition order, each formatted as its conversion specifies (width, precision, base, quoting, enumerator name, array counts and separators), ASCII carries a correct checksum, and JSON is well-formed with values equal to the field values.",
     ["inputs", "configurations"], "all message definitions, all field conversions and values, every text format",
     "Tests compare a few fixed messages.",
     [I + "decoders/common/encoder.hpp", "src/decoders/oem/src/encoder.cpp"],
     [("conversion dispatch tables", "encoder.hpp InitFieldMaps, encoder.cpp InitFieldMaps"), ("text body encoders", "encoder.hpp EncodeAsciiBody/EncodeAbbrevAsciiBody/EncodeJsonBody")])
prop("C12", "Text forms decode back to the values they show",
     "For every message definition and field values that the textual form can represent, decoding the ASCII, abbreviated ASCII or JSON form of a message gives the field values it shows, so that re-encoding it in the same format reproduces the text and converting it to binary gives the same message as the original up to the precision printed.",
     ["inputs", "configurations"], "all message definitions and all representable field values, every ordered pair of formats",
     "Tests convert a few fixed messages between fixed pairs of formats.",
     ["src/decoders/common/src/message_decoder.cpp", "src/decoders/oem/src/message_decoder.cpp", I + "decoders/common/encoder.hpp"],
     [("ASCII and JSON field decoders", "message_decoder.cpp DecodeAscii/DecodeAbbrevAscii/DecodeJson")])
prop("C13", "Flattened binary places every field at a fixed offset",
     "For every message definition, the flattened binary form of a message has a size that does not depend on the values, places every field at the same offset for all values of that definition, carries the same field values as the message, fills unused array elements with zero bytes, and its reported header and body lengths tell where the header and the body are.",
     ["inputs", "configurations"], "all message definitions, all array fill levels and values",
     "Tests flatten one or two messages.",
     [I + "decoders/common/encoder.hpp", "src/decoders/oem/src/encoder.cpp"], [("padding arrays to their maximum", "encoder.hpp EncodeBinaryBody flatten path")])
prop("C14", "Encoding never writes outside the caller's buffer",
     "For every message, format and output-buffer size, encoding either succeeds with all reported pieces inside the caller's buffer, or reports that the buffer is too small, and never writes a byte outside it. "
     "A buffer that is at least moderately larger than the encoded message is always accepted, and the text produced does not depend on the buffer size.",
     ["inputs", "configurations"], "all messages, all output formats, every buffer size from 0 to beyond the needed size",
     "Tests try one too-small size per format with one message.",
     [I + "decoders/common/encoder.hpp", "src/decoders/oem/src/encoder.cpp"], [("remaining-size bookkeeping in the write helpers", "encoder.hpp / common.hpp CopyToBuffer, PrintToBuffer")])
prop("C15", "Decoding arbitrary bytes never crashes or reads out of bounds",
     "For every byte sequence that the framer delivers or that is a truncated or altered body of such a message, in any format, header decoding and message decoding return a status, terminate, read only the bytes of the given message, and let no exception escape; a truncated or contradictory message (array counts beyond the definition or the data) is reported as an error or decoded only from bytes that belong to its fields (its checksum is none).",
     ["inputs", "fault_sequences"], "all byte strings, all truncations and mutations of valid messages, all message definitions and formats",
     "Tests check a few malformed messages by hand.",
     ["src/decoders/common/src/message_decoder.cpp", "src/decoders/oem/src/message_decoder.cpp", "src/decoders/oem/src/header_decoder.cpp"],
     [("bounds and status checks of the decoders", "message_decoder.cpp Decode*")])
prop("C16", "A filter passes exactly the messages its configuration selects",
     "For every configuration history of a filter and every message, the filter's verdict is the conjunction of its conditions on time window, time status, message id, message name, response flag, format and decimation, each inverted when so configured, with a cleared or never configured condition accepting everything.",
     ["inputs", "histories", "configurations"], "all sequences of include/exclude/remove/clear calls and all message headers",
     "Tests set one condition at a time on a few messages.",
     ["src/decoders/oem/src/filter.cpp", I + "decoders/oem/filter.hpp"], [("one predicate per condition", "filter.cpp DoFiltering")])
prop("C17", "The parser equals the composition of its stages, independent of chunking",
     "For every stream, configuration and chunking, reading messages through the parser or the file parser gives the messages, in order, that framing, header decoding, filtering, decompression, decoding and encoding give when applied by hand; abbreviated-ASCII responses and unknown bytes are dropped or reported as configured. "
     "Resetting a parser or file parser and feeding the same data again gives the same results, and flushing returns the unparsed bytes.",
     ["inputs", "schedules", "configurations", "histories"], "all streams of valid, corrupted and unknown messages, all chunkings, all parser options and filters",
     "Tests parse one file with one filter.",
     ["src/decoders/oem/src/parser.cpp", I + "decoders/oem/parser.hpp", "src/decoders/oem/src/file_parser.cpp", I + "decoders/common/file_parser.hpp"],
     [("read loop over the components", "parser.cpp Read/ReadIntermediate"), ("chunked file reading", "file_parser.hpp")])
prop("C18", "Message counts equal the messages decoded",
     "After any history of decoded headers, merges, resets and snapshots, the reported counts equal the number of successfully decoded messages per message id, format and sibling since the last reset, and a snapshot or copy is not changed by later decoding.",
     ["histories"], "all histories of decode, count, merge, clear and copy operations",
     "Six unit tests use fixed short histories.",
     [I + "decoders/oem/message_counts_tracker.hpp", "src/decoders/oem/src/header_decoder.cpp"], [("count map keyed by id, format and sibling", "message_counts tracker")])
prop("C19", "Message names, identifiers and enumerators translate consistently",
     "Packing message number, sibling, format and response flag into an identifier and unpacking it returns the same parts, translating an identifier to a message name and back returns the same identifier for every defined message, every format and every sibling, and translating an enumerator value to its name and back returns the same value.",
     ["inputs", "configurations"], "all message numbers, formats, siblings 0-31, response flags, and all databases",
     "Tests look up a few names.",
     ["src/decoders/common/src/message_database.cpp", "src/decoders/common/src/common.cpp", "src/common/src/common.cpp", I + "decoders/common/message_database.hpp"],
     [("name suffix composition", "message_database.cpp MsgIdToMsgName/MsgNameToMsgId"), ("identifier packing", "common CreateMsgId/UnpackMsgId")])
prop("C20", "Editing a message database behaves like editing a dictionary",
     "After any sequence of append, remove, merge and lookup operations, the database answers lookups by identifier, name and field-definition checksum exactly as a plain dictionary of the definitions last added and not removed would, for messages and for enumerations, and editing a copy does not change what the original answers to those lookups.",
     ["histories"], "all operation histories over message and enumeration definitions, including duplicate names and ids",
     "Tests do one append and one remove.",
     ["src/decoders/common/src/message_database.cpp", I + "decoders/common/message_database.hpp"], [("vectors with lookup maps kept in step", "message_database.cpp Append*/Remove*/Generate*")])
prop("C21", "Loading a JSON database yields exactly the definitions it describes",
     "Every well-formed JSON database loads into definitions with the same messages, fields, types, lengths, conversions, array attributes, enumerations and metadata, whether read from a file or from memory, and a malformed or incomplete one is reported as a load failure without a crash or a partial result.",
     ["inputs", "fault_sequences"], "all databases and all truncations or structural mutations of their JSON text",
     "Tests load the one production database.",
     ["src/decoders/common/src/json_db_reader.cpp"], [("recursive definition parser", "json_db_reader.cpp")])
prop("C22", "Commands are encoded as the definition and the command text require",
     "For every command definition and every parameter list that fits it, the encoded ASCII command has the command's name, the parameters in order and a valid checksum, the binary command carries the same parameter values under the command's message id, and both decode to the same values; text that is not a valid command is rejected without a crash.",
     ["inputs", "configurations"], "all command definitions, all parameter lists and all arbitrary command text",
     "Tests encode one command.",
     ["src/decoders/oem/src/commander.cpp", I + "decoders/oem/commander.hpp"], [("command text to message conversion", "commander.cpp Encode")])
prop("C23", "Range decompression reproduces the compressed observations",
     "For every set of channels and observations, decompressing a compressed range message of any supported version yields a range message with one entry per observation whose tracking status and measurements equal the transmitted ones, to the scaling of the compressed form, including messages that depend on an earlier reference message. "
     "Truncated or arbitrary compressed payloads are rejected without reading or writing out of bounds.",
     ["inputs", "histories"], "all range message versions, all satellite systems, signals, observation values and reference/differential histories",
     "Tests compare a few recorded messages.",
     ["src/decoders/oem/src/rangecmp/range_decompressor.cpp", I + "decoders/oem/rangecmp/common.hpp"],
     [("bit-field extraction and reference block map", "range_decompressor.cpp")])
prop("C24", "The channel tracking status packs and unpacks without loss",
     "For every 32-bit channel tracking status, unpacking it into its components and packing it again returns the same value up to the reserved bits, and the derived satellite system, signal type and wavelength agree with the documented tables for each compressed range encoding.",
     ["inputs"], "all 2^32 status words, all component values and all compressed range headers",
     "No test covers it directly.",
     ["src/decoders/oem/src/rangecmp/channel_tracking_status.cpp", I + "decoders/oem/rangecmp/channel_tracking_status.hpp"], [("mask and shift tables", "channel_tracking_status")])
prop("C25", "Receiver-configuration messages are converted with their embedded message",
     "For every embedded command message, converting a receiver-configuration message between ASCII, abbreviated ASCII, binary and JSON gives both messages in the target format with the same header and field values, a correct inner and outer checksum, and lengths that match, within the caller's buffer.",
     ["inputs", "configurations"], "all embedded messages and every pair of input and output formats",
     "Tests convert one recorded message.",
     ["src/decoders/oem/src/rxconfig/rxconfig_handler.cpp", I + "decoders/oem/rxconfig/rxconfig_handler.hpp"], [("embedded header and body conversion", "rxconfig_handler.cpp Convert")])
prop("C26", "Decoded field containers return what was decoded or stored",
     "For every message definition, each field of a decoded message read by name, index or iteration has the type and value that the wire format defines, writing a field changes exactly that field, and copies, moves and assignments of a message give an equal and independent message.",
     ["inputs", "histories"], "all definitions and all sequences of reads, writes, copies and moves",
     "Tests read a few fields of fixed messages.",
     [I + "decoders/common/message_decoder.hpp", I + "decoders/common/message_database.hpp"], [("fixed-field blob with offsets plus ordinal variable fields", "message_decoder.hpp CompositeField")])
prop("C27", "Generated flat structures match the flattened binary layout",
     "For every message definition, the C++ structure that the generator script emits has the size of the flattened message body and places each member where the flattened encoding places that field, so that reading a flattened body through the structure gives the field values.",
     ["configurations", "inputs"], "all databases accepted by the loader and all field values",
     "No test covers the script.",
     ["scripts/gen_flat_cpp_structs.py", I + "decoders/common/encoder.hpp"], [("type table of the generator", "gen_flat_cpp_structs.py")])
prop("C28", "A component given another database behaves as one built with it",
     "After another message database is loaded into a header decoder, message decoder, encoder, parser, file parser, receiver-configuration handler or range decompressor, it decodes, names, converts and reports every message and response exactly as a component constructed with that database does, whatever it was used for before.",
     ["histories", "configurations"], "all sequences of loading databases and using the component in between, for all pairs of databases",
     "Tests build each component once.",
     [I + "decoders/common/message_decoder.hpp", I + "decoders/oem/parser.hpp", "src/decoders/oem/src/header_decoder.cpp", "src/decoders/oem/src/message_decoder.cpp", "src/decoders/oem/src/encoder.cpp"], [("definitions and enumerations cached at load", "LoadJsonDb of each component")])
prop("C29", "Components used in different threads do not affect each other",
     "Framers, framer managers, decoders, encoders, parsers, file parsers, commanders, receiver-configuration handlers, range decompressors and database loaders that are each used by one thread give the same results as when used alone, and cause no data race, when several threads run them at the same time over the same message database or over copies of it to which messages are added.",
     ["schedules"], "all interleavings of independent components in different threads, which share process-wide state and the database",
     "Tests use one thread.",
     [I + "decoders/common/message_database.hpp", "src/decoders/common/src", "src/decoders/oem/src", I + "decoders/common/framer_factory.hpp"], [("definitions shared by copies of a database", "MessageDatabase::MapMessageEnumFields"), ("process-wide registries", "framer_registration.cpp, logger.cpp")])
prop("C30", "Definitions and message records compare equal exactly when their content is equal, and copies are independent",
     "Message definitions, fields, enumerators, metadata, binary headers, satellite identifiers and encoded-message records compare equal to a copy or to the same content loaded again and unequal as soon as one attribute that is not a cache differs at any depth, symmetrically; copying, assigning, moving or cloning a definition or enumeration keeps every attribute and lookup, and changing or destroying either side leaves the other as it was.",
     ["inputs"], "all definitions and records, and all single changes of them",
     "Tests compare a few definitions.",
     [I + "decoders/common/message_database.hpp", I + "decoders/common/common.hpp", I + "decoders/oem/common.hpp"], [("comparison of nested definitions", "equalsImpl, operator=="), ("deep copies", "clone(), copy constructors")])
prop("C31", "Type stubs generated for a database declare exactly its definitions",
     "For every message database, the files written by the stub generator are valid Python and declare, for each enumeration, a class with its members (names made identifiers) and values and the unknown member one above the largest value, and, for each definition of each message, a class named after the message and its checksum with the fields in order under the Python type the bindings give them, constructor arguments for the fields that can be set, classes for the elements of field arrays, and aliases for the latest definition.",
     ["inputs"], "all message databases",
     "No test runs the generator.",
     ["python/novatel_edie_files/stubgen.py"], [("names, types and aliases derived from the JSON", "StubGenerator")])
prop("C32", "Log records reach exactly the configured outputs",
     "For every sequence of logger registrations, level changes, added files and consoles, every record at or above the level of its logger and of an output appears there exactly once, complete, with its level and text and in the order its thread wrote it, whichever loggers and threads share the output, and nothing else does; a name always gives the same logger, limits of file size and number hold, files are complete after shutdown, and enabling logging on a parser changes nothing but the log.",
     ["histories", "schedules"], "all histories of configuring and using the logger manager, with records from any number of threads",
     "No test configures outputs.",
     [I + "common/logger.hpp", "src/common/src/logger.cpp", "src/decoders/oem/src/parser.cpp"], [("files added to loggers", "CPPLoggerManager::AddRotatingFileLogger, Shutdown"), ("loggers by name", "RegisterLogger")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
