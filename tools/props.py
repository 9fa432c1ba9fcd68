#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl.  Run by hand when a property changes.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- transport stream
prop("T01", "Transport packet header and payload decode exactly as the standard lays out",
 "For every 188-byte transport packet starting with the sync byte, reading it yields exactly the header fields (error, unit-start, priority, PID, scrambling, adaptation control, continuity counter) at their ISO 13818-1 bit positions, and a payload equal to exactly those packet bytes that follow the header and the adaptation field (none when the adaptation control says there is no payload). Reading consumes exactly the 188 bytes, so the next packet is read from the byte that follows.",
 ["inputs"], "all contents of two consecutive 188-byte packets (all header bits and payload bytes; every adaptation field length 0..183)",
 "Tests decode four fixed packets and look at PID and counter only; the statement quantifies over all header bit patterns, payload bytes and adaptation lengths.",
 ["ts/packet.go", "ts/adaptation_field.go"], [("Packet.Next field-by-field read", "ts/packet.go"), ("payload size = 184 - (adaptation length + 1)", "ts/packet.go")],
 ["ts.Packet fields after NewPacket/Next", "bytes left in the source"])
prop("T02", "Adaptation field optional fields decode to their coded values",
 "For every well-formed adaptation field, the flags, PCR and OPCR (base*300+extension), splice countdown, private-data presence and extension fields (legal time window, piecewise rate, seamless splice with its 33-bit DTS) equal the values coded at their standard positions, whichever combination of flags is set. Stuffing and reserved bytes, inside the extension as well as after it, are skipped without disturbing the payload that follows.",
 ["inputs"], "all flag combinations and field values of well-formed adaptation fields, with private data up to 3 bytes and up to 2 reserved bytes in the extension",
 "One test parses one adaptation field with no optional content; the optional fields interact through a running length, so any combination can break.",
 ["ts/adaptation_field.go"], [("newAdaptationField running remainLength", "ts/adaptation_field.go"), ("newAdaptationExt", "ts/adaptation_field.go")],
 ["ts.Packet.AdaptationField", "ts.Packet.Payload"])
prop("T03", "A reused packet carries nothing over from the packet read before it",
 "Reading a transport packet into a packet value that already held any other packet gives the same observable result (all fields, adaptation field presence and content, payload) as reading it into a fresh one.",
 ["inputs", "histories"], "every ordered pair of packets over all adaptation-control values and header bits",
 "No test reads packets of different kinds into one value; the carried-over state only shows for particular pairs of kinds.",
 ["ts/packet.go"], [("Packet.Next overwrites per-packet state", "ts/packet.go")], ["ts.Packet after the second Next"])
prop("T04", "Arbitrary transport bytes never crash, hang or over-allocate the parser",
 "For every byte sequence, reading a transport packet terminates without panicking, allocates no more than a packet's worth of memory for variable-length fields, and either succeeds or returns an error. A clean end before any byte of a packet is reported as io.EOF, an end inside a packet as io.ErrUnexpectedEOF, and an adaptation field that claims more bytes than the packet has is reported as an error.",
 ["inputs"], "all byte sequences of bounded length, including truncations at every byte and inconsistent length fields",
 "Tests cover one truncation point of one packet; malformed lengths and truncations inside each field are never exercised.",
 ["ts/packet.go", "ts/adaptation_field.go"], [("length validation", "ts/packet.go"), ("EOF mapping", "ts/adaptation_field.go")], ["error value", "panic", "allocation size"])
prop("T05", "Transport parsing re-synchronises at the next sync byte",
 "When the stream is not positioned on a sync byte, reading a packet discards bytes up to the next sync byte and reads the packet that starts there. If none of the next 188 bytes is a sync byte, an error reporting that no sync byte was found is returned instead.",
 ["inputs"], "all garbage prefixes free of the sync byte, of every length from 0 to 188, followed by any packet",
 "No test feeds a misaligned stream.",
 ["ts/packet.go"], [("isAligned/realign", "ts/packet.go")], ["ts.Packet after NewPacket", "error value"])
prop("T06", "Transport payload reader yields exactly the selected payload bytes in order",
 "The bytes obtained from a transport payload reader are exactly the concatenation, in stream order, of the payloads of the packets that match the selector, with nothing lost, duplicated or taken from other packets. This does not depend on the sizes of the caller's read buffers or on how the source chunks its data, and the stream ends with io.EOF at a packet boundary.",
 ["inputs", "histories"], "all streams of up to 3 packets (any PID, any adaptation control), any payload bytes, sequences of read sizes around packet boundaries, whole or split source reads",
 "Tests read a few fixed streams with buffers that end on packet boundaries.",
 ["ts/payload_reader.go", "ts/packet.go"], [("remainder buffer", "ts/payload_reader.go"), ("packet filter", "ts/payload_reader.go")], ["bytes and error returned by Read"])
prop("T07", "Skip-until and take-while select exactly the same window in every reader",
 "With a skip condition, delivery starts at the first packet for which it holds; with a take condition, delivery ends just before the first packet from there on for which it fails, and everything before the start or from the end on is never delivered. The same window applies to the payload reader, independently of read buffer sizes, and to the demultiplexer; if the skip condition never holds, nothing is delivered and the end of the stream is reported.",
 ["inputs", "histories"], "all streams of up to 3 packets with arbitrary PIDs and arbitrary skip/take outcomes per packet; read sizes around packet boundaries",
 "One test uses one fixed window on one stream with the demultiplexer only.",
 ["ts/demuxer.go", "ts/payload_reader.go"], [("Demuxer.Go window", "ts/demuxer.go"), ("payloadReader.realign / takeWhile", "ts/payload_reader.go")], ["bytes/packets delivered", "error"])
prop("T08", "Payload unit reader splits the stream into complete payload units",
 "Each payload unit, meaning the payloads of the selected packets from one unit-start packet up to but not including the next, is delivered exactly once, completely and in order, followed by the end-of-unit signal; bytes before the first unit start are skipped. The last unit of the stream is delivered too, after which io.EOF is reported, and none of this depends on read buffer sizes.",
 ["inputs", "histories"], "all streams of up to 4 packets with arbitrary unit-start flags, PIDs and payload presence; read sizes smaller, equal and larger than units",
 "The payload unit reader has no test at all.",
 ["ts/payload_unit_reader.go"], [("fill until next start indicator", "ts/payload_unit_reader.go"), ("ready/drained state", "ts/payload_unit_reader.go")], ["bytes and error returned by Read"])
prop("T09", "Demultiplexer routes every packet to its channels and always completes",
 "Under every goroutine schedule, each registered channel receives exactly the packets its condition accepts, once each and in stream order; when the input ends every channel is closed, completion is signalled and the recorded error is the one that ended parsing (none when the take condition ended it). There is no data race between the demultiplexer and its consumers.",
 ["schedules", "inputs"], "all interleavings (at communication points, with race detection) of the demultiplexer and its consumers, for streams of up to 3 packets with arbitrary PIDs",
 "Tests run one schedule per execution and only count packets.",
 ["ts/demuxer.go"], [("Demuxer.Go loop", "ts/demuxer.go"), ("channel close and done", "ts/demuxer.go")], ["packets received", "channel closing", "Err"])
prop("T10", "A delivered transport packet never changes afterwards",
 "A packet received from a demultiplexer channel keeps the header fields and payload it was parsed with for as long as the consumer holds it, however many further packets are parsed and under every schedule. The same holds for payload slices handed out by the channel adapters.",
 ["schedules", "histories"], "all interleavings of producer and a consumer that holds packets while later ones are parsed; arbitrary packet contents",
 "Tests look at a packet only immediately after receiving it.",
 ["ts/demuxer.go", "ts/packet_channel.go", "ts/packet.go"], [("one packet value per delivery", "ts/demuxer.go")], ["contents of earlier packets after later receives"])
prop("T11", "Packet channel adapters forward every payload and regroup payload units",
 "The payload-only adapters (transport and PES) deliver the payload of every packet put in, in order, and close when the input closes. The payload-unit adapter delivers one complete unit, starting at a unit-start packet and running up to the next one, per output item, including the last unit, and nothing from before the first unit start.",
 ["schedules", "inputs"], "all interleavings; input sequences of up to 4 packets with arbitrary unit-start flags and payloads",
 "The adapters have no tests.",
 ["ts/packet_channel.go", "pes/packet_channel.go"], [("PayloadOnly", "ts/packet_channel.go"), ("PayloadUnit", "ts/packet_channel.go"), ("PayloadOnly", "pes/packet_channel.go")], ["items received from the output channel"])
prop("T12", "Packet selectors compose as Boolean algebra",
 "For every packet, a PID selector accepts exactly the packets with that PID and the unit-start selector exactly those with the unit-start flag; negation, conjunction and disjunction of selectors accept exactly what the Boolean combination of their operands accepts, for any nesting.",
 ["inputs"], "all packets (PID, flags), all selector PIDs, all nestings to depth 3",
 "Tests try two selectors on three packets; disjunction is never tested.",
 ["ts/packet_tester.go"], [("Not/And/Or/IsPID/IsPayloadUnitStart", "ts/packet_tester.go")], ["selector result"])
prop("T13", "Transport readers deliver what precedes a source failure, then that failure",
 "When the underlying source fails with an error of its own, packet reading, payload reader, payload unit reader and demultiplexer all report exactly that error and never take it for the end of the stream. The payloads of the packets read completely before the failure are delivered first, and nothing else is.",
 ["inputs", "crash_points"], "sources that fail after any number of bytes, at packet boundaries and inside packets (header, adaptation field, payload), any read buffer sizes",
 "No test uses a failing source.",
 ["ts/packet.go", "ts/adaptation_field.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go"], [("error returned by every read of Packet.Next", "ts/packet.go"), ("bytes first, then the error", "ts/payload_reader.go")], ["bytes and error returned by Read", "error of NewPacket/Next", "Demuxer.Err"])
# ---------------------------------------------------------------- PES
prop("P01", "PES headers decode to the coded values",
 "For every well-formed PES packet with an optional header, the stream id, lengths, scrambling, priority, alignment, copyright, original and flag bits, presentation and decoding time stamps, private data and buffer-size extension equal the values coded at their ISO 13818-1 positions; optional parts that are not decoded (ESCR, rate, trick mode, copy info, CRC, pack header field, sequence counter, second extension) are stepped over exactly. A missing marker bit or prefix in a time stamp, or a missing fixed '10' prefix, is reported as a marker error.",
 ["inputs"], "all values of all header bits and time stamps, all combinations of optional parts; up to 3 stuffing bytes",
 "The only test parses one packet and checks that an extension is present.",
 ["pes/header.go", "pes/extension.go", "pes/packet.go"], [("readHeader", "pes/header.go"), ("readTimeStamp", "pes/header.go"), ("readExtension", "pes/extension.go")], ["pes.Packet fields", "error"])
prop("P02", "PES framing: exact payload, exact consumption, for every stream id",
 "Reading a PES packet with a non-zero length consumes exactly the six leading bytes plus the declared length, and the payload is exactly the declared bytes after the optional header and its stuffing (empty for padding streams, everything after the length field for stream ids that carry no optional header). A packet with the optional header and length zero takes everything up to the end of the input, and a packet value reused for a later packet keeps nothing from the earlier one.",
 ["inputs", "histories"], "all stream ids, all declared lengths up to the bound, all payload bytes, every pair of consecutive packets",
 "One packet of one stream id is parsed by the tests.",
 ["pes/packet.go", "pes/header.go", "pes/stream_assigments.go"], [("payload length = packet length - header length", "pes/packet.go"), ("hasPESHeader", "pes/stream_assigments.go")], ["pes.Packet.Payload", "position of the source"])
prop("P03", "Arbitrary PES bytes never crash, hang or over-allocate the parser",
 "For every byte sequence, reading a PES packet terminates without panicking and allocates no more than the 16-bit length allows; a declared length too small for the header, or an input that ends early, is reported as an error.",
 ["inputs"], "all byte sequences up to the bound",
 "No malformed PES packet is tested.",
 ["pes/packet.go", "pes/header.go", "pes/extension.go"], [("length checks", "pes/packet.go")], ["panic", "error value"])
prop("P04", "PES payload reader yields exactly the payload bytes in order",
 "The bytes obtained from a PES payload reader are exactly the concatenation of the payloads of the packets in the source, in order, with nothing lost, duplicated or invented (padding contributes nothing), independent of the caller's buffer sizes and of how the source chunks its data.",
 ["inputs", "histories"], "all sequences of up to 3 packets with arbitrary payload bytes, small payload sizes (0 included) and mixed stream ids; read sizes around packet boundaries",
 "The PES payload reader has no test.",
 ["pes/payload_reader.go", "pes/packet.go"], [("remainder buffer", "pes/payload_reader.go")], ["bytes and error returned by Read"])
prop("P05", "Chaining transport and PES readers recovers the elementary stream",
 "When an elementary stream is packed into PES packets (declared or zero length) and those into transport packets, reading it back through the payload unit reader and the PES payload reader yields exactly the elementary stream bytes, for any split of the data over packets, ending with an end-of-stream condition only after the last byte.",
 ["inputs", "histories"], "all elementary stream bytes, one to three PES packets each spread over one or two transport packets with any adaptation stuffing from a list, other PIDs interleaved",
 "No test combines the packages, although this is the documented way to use them.",
 ["ts/payload_unit_reader.go", "pes/payload_reader.go", "pes/packet.go"], [("end-of-unit propagation", "pes/packet.go")], ["bytes read from the chain"])
prop("P06", "PES readers deliver what precedes a source failure, then that failure",
 "When the underlying source fails with an error of its own, reading a PES packet or through the PES payload reader reports exactly that error, wherever in the packet the failure falls. The payloads of the packets read completely before the failure are delivered first, and nothing else is.",
 ["inputs", "crash_points"], "sources that fail after any byte of any kind of packet, any read buffer sizes",
 "No test uses a failing source.",
 ["pes/packet.go", "pes/header.go", "pes/extension.go", "pes/payload_reader.go"], [("error returned by every read of the header", "pes/header.go"), ("bytes first, then the error", "pes/payload_reader.go")], ["bytes and error returned by Read", "error of NewPacket"])
# ---------------------------------------------------------------- PS
prop("S01", "Program stream pack headers decode to the coded values",
 "For every well-formed pack header the clock reference base and extension and the mux rate equal the coded values, any number of stuffing bytes is skipped, and the position after the header is exact. A wrong start code or any cleared marker bit is reported as an error.",
 ["inputs"], "all field values, all marker patterns, all stuffing lengths 0..7",
 "Package ps has no tests.",
 ["ps/pack_header.go", "ps/start_code.go"], [("NewPackHeader", "ps/pack_header.go")], ["ps.PackHeader fields", "position of the source", "error"])
prop("S02", "Program stream system headers decode to the coded values",
 "For every well-formed system header the length, rate bound, audio bound, video bound, flags and the list of stream bound entries (id, scale, size), for any number of entries, equal the coded values; cleared marker bits are reported as errors. Whether a pack header has a system header attached follows the bit stream.",
 ["inputs"], "all field values; 0 to 3 stream entries; all marker patterns",
 "Package ps has no tests.",
 ["ps/system_header.go", "ps/pack_header.go"], [("readSystemHeader", "ps/system_header.go")], ["ps.SystemHeader fields", "error"])
prop("S03", "Program stream pack reader yields the packet payloads in order and terminates",
 "Reading a program stream through the pack reader yields exactly the concatenation of the payloads of its packets in order, independent of read buffer sizes and of how packets are grouped into packs (empty packs included), and then io.EOF at the program end code. On truncated or malformed input reading ends with an error rather than repeating empty reads forever.",
 ["inputs", "histories"], "all payload bytes for up to 3 packets in up to 3 packs, with and without system headers, read sizes around boundaries, every truncation point",
 "Package ps has no tests.",
 ["ps/pack_reader.go"], [("STEP/PACK/MORE_PACKETS loop", "ps/pack_reader.go"), ("remainder buffer", "ps/pack_reader.go")], ["bytes and error returned by Read"])
prop("S04", "Program stream decoder delivers packs and packets in order and always completes",
 "Under every goroutine schedule a consumer that drains the pack channel and each pack's packet channel receives every pack and every packet exactly once, in stream order and attached to the right pack; all channels are closed, completion is signalled with success exactly when the program end code was reached, and the error is available then. There is no data race and no deadlock.",
 ["schedules", "inputs"], "all interleavings at communication points with race detection; streams of up to 2 packs with up to 2 packets each, and their truncations",
 "Package ps has no tests.",
 ["ps/decoder.go", "ps/pack.go"], [("decoder.Go", "ps/decoder.go"), ("readPack goroutine handshake", "ps/pack.go")], ["packs and packets received", "completion value", "Err"])
prop("S05", "Arbitrary program stream bytes never crash or hang the parsers",
 "For every byte sequence, reading a pack header (with or without system header) or reading through the pack reader terminates without panicking and reports an error or the end of the stream.",
 ["inputs"], "all byte sequences up to the bound after any valid prefix",
 "Package ps has no tests.",
 ["ps/pack_header.go", "ps/system_header.go", "ps/pack_reader.go"], [("error propagation", "ps/pack_reader.go")], ["panic", "error value", "termination"])
# ---------------------------------------------------------------- video: syntax
prop("S06", "Program stream readers deliver what precedes a source failure, then it",
 "When the underlying source fails with an error of its own, reading a pack header, reading through the pack reader and decoding with the program stream decoder report exactly that error. The packets read completely before the failure are delivered first, and nothing else is.",
 ["inputs", "crash_points"], "sources that fail after any byte of a pack header, and at and inside packs and packets of a program stream; every schedule of the decoder and its consumer",
 "The package has no tests.",
 ["ps/pack_header.go", "ps/system_header.go", "ps/pack_reader.go", "ps/decoder.go", "ps/pack.go"], [("error returned by every read of the headers", "ps/pack_header.go"), ("decoder error", "ps/decoder.go")], ["bytes and error returned by Read", "Decoder.Err"])
prop("V01", "Start code search and start code checks are exact",
 "Aligning to a start code stops exactly at its first byte-aligned occurrence, skipping everything before it and consuming nothing of it, and reports an error only if it never occurs. Checking a start code or extension id never consumes input, and asserting one consumes exactly its bits when it matches and nothing when it does not, returning the matching error.",
 ["inputs"], "all byte sequences up to the bound before and around the start code; all codes",
 "No test calls any of these directly.",
 ["video/video_sequence.go", "video/start_codes.go", "video/extension_id.go", "video/next_start_code.go", "ps/start_code.go"], [("AlignTo", "video/video_sequence.go"), ("Check/Assert", "video/start_codes.go"), ("Check/Assert", "video/extension_id.go"), ("Check/Assert", "ps/start_code.go")], ["position of the source", "error"])
prop("V02", "Sequence size and group-of-pictures time codes decode to the coded values",
 "The reported picture size is the 14-bit combination of the sequence header value and the sequence extension bits, and is undefined (-1,-1) before a header was read; a group header's time code, closed-group and broken-link flags equal the coded bits. A sequence header with a cleared marker bit, or without the sequence extension that MPEG-2 requires, is rejected with its documented error.",
 ["inputs"], "all header field values",
 "One test parses one sequence header; size, extension and time codes are never checked.",
 ["video/sequence_header.go", "video/sequence_extension.go", "video/video_sequence.go", "video/group_of_pictures_header.go", "video/frame_provider.go"], [("Size", "video/video_sequence.go"), ("ReadGOPHeader/TimeCode", "video/group_of_pictures_header.go"), ("ReadSequenceHeader", "video/sequence_header.go")], ["Size()", "TimeCode()", "error"])
prop("V03", "Stuffing, user data and skippable extensions do not affect decoded pictures",
 "Inserting user data, zero stuffing before start codes, extra picture or slice information, or a sequence display extension at the places where the syntax allows them leaves every decoded picture unchanged. Decoding always makes progress: no placement of these elements makes it loop forever.",
 ["inputs", "histories"], "all contents (free of start codes) of the inserted elements up to the bound, at every allowed place, including after a group header",
 "No test decodes a picture.",
 ["video/extension_and_user_data.go", "video/user_data.go", "video/picture_header.go", "video/slice.go", "video/sequence_display_extension.go", "video/next_start_code.go"], [("extension_and_user_data", "video/extension_and_user_data.go"), ("user_data", "video/user_data.go")], ["frames from Next()"])
# ---------------------------------------------------------------- video: reconstruction
prop("V04", "Variable-length codes decode exactly as the standard's tables",
 "Every code word of the standard's tables for macroblock address increment, macroblock type (I, P, B), coded block pattern, motion code, DC size and DCT coefficients (both tables, escape coding and end of block included) decodes to the table's value and consumes exactly its length, and bit patterns outside the tables are rejected with an error.",
 ["inputs"], "all bit patterns at the position of each code word",
 "No test decodes macroblock data.",
 ["video/dtc_coefficients.go", "video/macroblock_addressing.go", "video/macroblock_type.go", "video/coding_block_pattern.go", "video/motion_vectors.go", "video/block.go"], [("Huffman tables", "video/dtc_coefficients.go")], ["decoded frame for a stream containing the code word", "error"])
prop("V05", "Intra blocks reconstruct with correct DC prediction and coefficient placement",
 "For intra macroblocks the DC coefficient is the per-component predictor plus the coded difference, with predictors reset at slice starts, after skipped macroblocks and after non-intra macroblocks to the value given by the DC precision; AC coefficients are placed at the scan position reached by their runs in the selected scan. All decoded samples equal those of the standard's decoding process.",
 ["inputs", "histories"], "all DC differences and precisions over several macroblocks; all run/level pairs; both scans",
 "No test decodes a macroblock.",
 ["video/block.go", "video/dc_dct_predictors.go", "video/decode_block.go", "video/macroblock.go", "video/slice.go"], [("block.read", "video/block.go"), ("createResetter", "video/dc_dct_predictors.go"), ("inverse scan", "video/decode_block.go")], ["samples of frames from Next()"])
prop("V06", "Inverse quantisation follows the standard for every coefficient",
 "For every coded level, quantiser scale code, scale type, macroblock kind, DC precision and quantiser matrix (default, or loaded in a sequence header or quantiser matrix extension, which are transmitted in zigzag order), the reconstructed coefficient is the standard's: weighted, truncated toward zero, saturated to 12 bits, with mismatch control applied to the last coefficient. A changed quantiser scale takes effect from the macroblock that carries it on.",
 ["inputs", "histories"], "all levels, scale codes and types, matrix entries; single and few non-zero coefficients per block",
 "No test decodes a block; matrices are tested only as raw header data.",
 ["video/decode_block.go", "video/quantiser_scale_table.go", "video/quantisation_matrix.go", "video/quant_matrix_extension.go", "video/sequence_header.go"], [("decode_block", "video/decode_block.go"), ("matrix loading", "video/quant_matrix_extension.go")], ["samples of frames from Next()"])
prop("V07", "The inverse DCT is accurate for every block a conforming stream can contain",
 "For every block of 12-bit coefficients whose exact inverse transform lies within -256..256, each sample of the decoded picture differs by at most 1 from the exact real-valued inverse DCT of the coefficients, added to the prediction and clipped to 0..255; in particular no intermediate arithmetic overflows, and the shortcuts for rows without AC coefficients change nothing.",
 ["inputs"], "blocks with every coefficient used, and blocks with chosen rows or columns only; all values of the coefficients used whose exact transform lies within [-256,256]",
 "No test exercises the transform; its error depends on all 64 inputs at once.",
 ["video/idct.go"], [("fixed-point 8x8 IDCT", "video/idct.go")], ["samples of frames from Next()"])
prop("V08", "Motion vectors are reconstructed exactly from prediction and coded difference",
 "Each motion vector component equals its predictor plus the coded difference (motion code and residual scaled by the f_code), wrapped into the f_code's range; predictors carry over from macroblock to macroblock per direction and are reset at slice starts, by intra macroblocks without concealment vectors, and in P pictures by skipped macroblocks and macroblocks without a forward vector.",
 ["inputs", "histories"], "all motion codes and residuals, f_codes 1 to 3, sequences of up to 3 macroblocks of every kind",
 "No test decodes a P or B picture.",
 ["video/motion_vectors.go", "video/macroblock.go", "video/motion_vector_info.go"], [("update_actual", "video/motion_vectors.go"), ("reset rules", "video/macroblock.go")], ["samples of frames from Next()"])
prop("V09", "Motion-compensated prediction samples the right pixels with standard rounding",
 "A predicted macroblock takes, for each luma and chroma sample, the reference sample displaced by the vector (chroma vectors halved toward zero), half-sample positions are averaged from two or four neighbours rounding half up, forward and backward predictions are averaged rounding half up, and the coded residual is added before clipping to 0..255.",
 ["inputs"], "all vectors with components within the bound (all half-sample phases), arbitrary reference sample values, forward, backward and bidirectional",
 "No test decodes a P or B picture.",
 ["video/motion_compensation.go", "video/macroblock.go", "video/block.go"], [("motion_compensation", "video/motion_compensation.go"), ("clamp", "video/block.go")], ["samples of frames from Next()"])
prop("V10", "Macroblock addressing and skipped macroblocks follow the standard",
 "Each coded macroblock lands at the column given by the accumulated address increments (escapes included) in the row of its slice. Skipped macroblocks in P pictures copy the co-located reference samples, and in B pictures repeat the previous macroblock's prediction with its vectors.",
 ["inputs", "histories"], "all address increments that fit the picture, all positions of skips, P and B pictures",
 "No test decodes a P or B picture.",
 ["video/macroblock.go", "video/copy_macroblocks.go", "video/macroblock_addressing.go", "video/slice.go"], [("address accumulation", "video/macroblock.go"), ("pframe/bframe_copy_macroblocks", "video/copy_macroblocks.go")], ["samples of frames from Next()"])
prop("V11", "Coded block pattern and DCT type place residuals correctly",
 "For inter macroblocks exactly the blocks selected by the coded block pattern receive a residual and the others show the pure prediction; with field DCT coding the luma residual lines are interleaved between the block pairs while the prediction stays in frame order, with frame DCT they are not.",
 ["inputs"], "all 64 coded block patterns, both DCT types, intra and inter macroblocks",
 "No test decodes a macroblock.",
 ["video/coding_block_pattern.go", "video/macroblock.go", "video/motion_compensation.go"], [("pattern decode", "video/coding_block_pattern.go"), ("updateFrameSlice", "video/macroblock.go")], ["samples of frames from Next()"])
prop("V12", "Frames come out complete, once, and in display order",
 "For every valid arrangement of I, P and B pictures (with reordering, several groups, open groups, or no group headers at all and temporal references that wrap), successive calls for the next frame return every picture exactly once, in the order of temporal reference within each group and group by group, and then the end-of-sequence condition.",
 ["histories", "inputs"], "all valid picture-type and temporal-reference arrangements up to the bound, including wrap at 1024",
 "No test asks for a frame.",
 ["video/video_sequence.go", "video/frame_store.go", "video/frame_provider.go"], [("Next/tryGet", "video/video_sequence.go"), ("frameStore", "video/frame_store.go")], ["sequence of frames from Next()"])
prop("V13", "P and B pictures predict from the right reference pictures",
 "A P picture predicts from the most recently decoded I or P picture; a B picture's forward prediction uses the earlier and its backward prediction the later, in display order, of the two most recently decoded I or P pictures, across group boundaries as well. B pictures are never used as references.",
 ["histories", "inputs"], "all valid arrangements up to the bound with distinguishable pictures, including open groups",
 "No test decodes a P or B picture.",
 ["video/frame_store.go", "video/frame_provider.go"], [("frameStore.set/add/gop", "video/frame_store.go")], ["samples of frames from Next()"])
prop("V14", "Frame geometry and slice placement are exact",
 "A decoded frame has the coded size rounded up to whole macroblocks with 4:2:0 planes, each slice fills only the macroblock row its start code (with the vertical position extension for pictures taller than 2800 lines) names, and slices are decoded independently of each other: their order and grouping within a row do not change the picture.",
 ["inputs", "histories"], "all picture sizes up to the bound, all slice rows, all splits of a row into slices",
 "No test decodes a picture.",
 ["video/picture_data.go", "video/slice.go"], [("createFrameBuffer", "video/picture_data.go"), ("slice row window", "video/slice.go")], ["frame rectangle and samples"])
prop("V15", "Arbitrary slice and macroblock data never crashes or hangs the video decoder",
 "For every bit sequence following valid headers, decoding terminates without panicking, other than on features documented as unsupported, and yields frames or an error: coefficient runs beyond the block, macroblocks or slices outside the picture, vectors pointing outside the reference, missing references and truncation are all reported as errors.",
 ["inputs"], "all bit sequences up to the bound at each syntax position (slice header, macroblock, block, motion vectors)",
 "No malformed video data is tested.",
 ["video/slice.go", "video/macroblock.go", "video/block.go", "video/motion_compensation.go", "video/copy_macroblocks.go"], [("range checks", "video/macroblock.go")], ["panic", "error", "termination"])
prop("V16", "Arbitrary header data never crashes or hangs the video decoder",
 "For every bit sequence in place of sequence, group, picture or extension headers, decoding terminates without panicking, other than on features documented as unsupported, and reports an error or continues.",
 ["inputs"], "all bit sequences up to the bound at the position of each header",
 "No malformed header is tested.",
 ["video/frame_provider.go", "video/sequence_header.go", "video/sequence_extension.go", "video/picture_header.go", "video/picture_coding_extension.go", "video/extension_and_user_data.go"], [("error propagation", "video/frame_provider.go")], ["panic", "error", "termination"])

prop("V17", "Sequences in one stream decode one after another as if each were alone",
 "When a stream holds several video sequences, each closed by a sequence end code, every one of them yields the frames it yields when decoded alone, followed by the end-of-sequence condition. This holds whatever the picture sizes, matrices, group headers and picture arrangements of the sequences, and with stuffing between them.",
 ["inputs", "histories"], "pairs (triples in the thorough tier) of sequences of up to four pictures with differing sizes, matrices, group headers and arrangements, with or without stuffing in between",
 "No test decodes pictures, let alone two sequences; leftover state shows only for particular pairs.",
 ["video/frame_provider.go", "video/video_sequence.go", "video/frame_store.go"], [("resuming after the sequence end code", "video/frame_provider.go"), ("frame counter and stored frames", "video/video_sequence.go")], ["frames and error returned by Next"])
prop("V18", "Decoding does not depend on how the source delivers, and failures surface",
 "The decoded frames and the way decoding ends are the same however the source divides the stream over its reads. When the source fails with an error of its own, the frames complete before the failure are returned unchanged and then exactly that error, never an end-of-sequence condition.",
 ["inputs", "crash_points"], "sources that hand out 1, 2, 3, 5, 7 or varying numbers of bytes, and sources that fail after any byte of a stream",
 "No test decodes pictures or uses a failing source.",
 ["video/video_sequence.go", "video/frame_provider.go", "video/slice.go", "video/macroblock.go"], [("error propagation", "video/frame_provider.go")], ["frames and error returned by Next"])
prop("X01", "The documented reader chains decode to the elementary stream's frames",
 "A video decoder fed by the documented chains (transport stream, payload reader or payload unit reader, PES payload reader; or program stream, pack reader) returns exactly the frames of decoding the elementary stream itself, followed by the end-of-sequence condition. This holds for every packetisation of the stream, and also when reading starts inside a picture and the decoder is aligned to the next sequence header first.",
 ["inputs"], "elementary streams of up to four pictures under packetisations that differ in PES packet size, declared or undeclared length, header kind, transport payload size and interleaved packets, and source chunk sizes",
 "Tests exercise each layer alone on fixed data.",
 ["ts/payload_unit_reader.go", "ts/payload_reader.go", "pes/payload_reader.go", "ps/pack_reader.go", "video/video_sequence.go"], [("end-of-unit signal between layers", "pes/payload_reader.go"), ("look-ahead of bit readers", "video/frame_provider.go")], ["frames and error returned by Next"])
prop("X02", "Decoders and readers that work side by side do not affect each other",
 "Any two decoders or readers give the same results when used in turn as when used alone. They can be used by different goroutines at once without a data race.",
 ["schedules", "histories"], "pairs of video decoders on different streams used in turn, and pairs of video decoders, transport, PES and program stream readers used by two goroutines",
 "Every test uses one instance in one goroutine.",
 ["video/video_sequence.go", "video/decode_block.go", "video/idct.go", "video/quantisation_matrix.go", "ts/packet.go", "pes/packet.go", "ps/pack_reader.go"], [("package-level tables are only read", "video/")], ["frames returned by Next", "races"])

ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
