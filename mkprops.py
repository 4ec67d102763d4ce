import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe="return values, errors and output bytes of the exported functions"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=False)))
p("B01","Bit reads and writes are exact",
 "Reading N bits (0 to 64) at any bit position returns exactly those bits of the buffer, most significant first, advances the position by exactly N, and either succeeds or reports an error without moving the position when fewer than N bits remain. Writing N bits of a value into a zeroed region stores exactly the N low bits there, changes no bit outside the written range, advances the position by N, and reading them back yields the value. Flags behave as one-bit reads and writes.",
 ["inputs"],"every buffer content and length, every bit position inside it, every width 0..64 and every 64-bit value",
 "The tests read and write one hand-picked sequence of five widths; the claim ranges over all positions, widths and contents, where shift amounts and byte boundaries interact.",
 ["pkg/bits/read.go","pkg/bits/write.go"],[("bit reader","pkg/bits/read.go"),("bit writer","pkg/bits/write.go")])
p("B02","Exp-Golomb decoding is exact or refused",
 "Decoding an Exp-Golomb code word at any position either returns exactly the number that the code word denotes (for the signed form, mapped to +k / -k as the H.264 and H.265 specifications prescribe) and moves the position exactly past the code word, or returns an error. It never returns a wrong number: code words that are truncated or whose number does not fit the 32-bit result are refused.",
 ["inputs"],"every buffer and every start position inside it, including code words of maximal length",
 "Tests decode three short code words; wrong results live in the 31 and 32 leading-zero range and at buffer ends.",
 ["pkg/bits/read.go"],[("Exp-Golomb readers","pkg/bits/read.go")])
p("C01","Codec header parsers never panic and always terminate",
 "Given any bytes whatsoever, every codec-level parser (AV1 sequence and OBU headers and bitstreams, VP9 headers, H.264 and H.265 parameter sets and slice-derived information, AC-3, E-AC-3, MPEG-1 audio, MPEG-4 audio configurations, streams and multiplexes, MPEG-4 video configurations, Opus and FLAC headers, JPEG segments) returns: either successfully or with an error, in time bounded by its input and without reading outside the input. No input makes it panic.",
 ["inputs"],"every byte string of every length handed to each exported codec parser, and every parameter value of those parsers",
 "Fuzz corpora and unit tests run a finite sample; index and shift arithmetic driven by attacker-chosen lengths needs every input.",
 ["pkg/codecs/av1/sequence_header.go","pkg/codecs/vp9/header.go","pkg/codecs/h264/sps.go","pkg/codecs/h265/sps.go","pkg/codecs/h265/pps.go","pkg/codecs/mpeg4audio/audio_specific_config.go","pkg/codecs/mpeg4audio/stream_mux_config.go","pkg/codecs/mpeg4audio/adts.go","pkg/codecs/ac3/bsi.go","pkg/codecs/eac3/sync_info.go","pkg/codecs/mpeg1audio/frame_header.go"],
 [("bounds checks before unsafe bit reads","HasSpace calls in every parser"),("loop bounds","all parser loops")])
p("C02","H.264/H.265 DTS and random-access helpers never panic",
 "Feeding any sequence of access units, with arbitrary NAL unit contents (including empty NAL units and parameter sets with extreme values) and arbitrary timestamps, to the H.264 or H.265 DTS extractor, to the random-access detectors, or to the parameter-set accessors (width, height, frame rate) never panics: each call returns a value or an error.",
 ["inputs","histories"],"every list of NAL units, every timestamp and every extractor state reachable by earlier calls",
 "State left by an earlier, differently-shaped parameter set selects the widths and loops of the next call; tests use a handful of well-formed streams.",
 ["pkg/codecs/h264/dts_extractor.go","pkg/codecs/h265/dts_extractor.go","pkg/codecs/h264/is_random_access.go","pkg/codecs/h265/is_random_access.go"],
 [("DTS extraction","DTSExtractor.Extract"),("picture order count","getPictureOrderCount / getPTSDTSDiff")])
p("D01","Extracted H.264 DTS is ordered and failures leave the timeline intact",
 "For every sequence of calls, each decoding timestamp the H.264 extractor returns is greater than or equal to the one it returned before, and once decoding order has settled (no start-up or re-ordering pause pending) is not after the presentation timestamp of its access unit. A call that fails does not change the reference for later calls. Stream re-ordering depth never exceeds ten frames without being reported as an error.",
 ["inputs","histories"],"every history of access units and timestamps, from the initial state",
 "An invariant over unbounded histories: tests replay about ten short sequences.",
 ["pkg/codecs/h264/dts_extractor.go"],[("monotonicity and DTS<=PTS guard","DTSExtractor.Extract"),("reorder bookkeeping","DTSExtractor.extractInner")])
p("D02","Extracted H.265 DTS is ordered and failures leave the timeline intact",
 "For every sequence of calls, each decoding timestamp the H.265 extractor returns is greater than or equal to the one it returned before and, except while a re-ordering pause is pending or for the very first unit, is not after the presentation timestamp of its access unit. A call that fails does not change the reference for later calls.",
 ["inputs","histories"],"every history of access units and timestamps, from the initial state",
 "An invariant over unbounded histories: tests replay a few short sequences.",
 ["pkg/codecs/h265/dts_extractor.go"],[("monotonicity and DTS<=PTS guard","DTSExtractor.Extract")])
p("V01","AV1 LEB128 and OBU framing are lossless",
 "Encoding any 32-bit number as LEB128 produces exactly the announced number of bytes, and decoding them returns the same number and consumes exactly those bytes. Serializing any list of valid OBUs and parsing the result returns the same OBUs in the same order (size fields removed), and parsing never accepts an OBU whose declared size exceeds the remaining bytes.",
 ["inputs"],"every 32-bit number and every list of OBUs",
 "Tests check a few numbers and one bitstream; carry boundaries at 7-bit multiples and size-field handling need all values.",
 ["pkg/codecs/av1/leb128.go","pkg/codecs/av1/bitstream.go","pkg/codecs/av1/obu_header.go"],[("LEB128 codec","pkg/codecs/av1/leb128.go"),("OBU list codec","pkg/codecs/av1/bitstream.go")])
p("N01","AVCC and Annex-B framing are lossless and size-limited",
 "Serializing any list of non-empty NAL units as AVCC, or as Annex-B when no unit contains a start code, and parsing it back yields the same units in the same order. Every unit a successful parse returns is non-empty and is a verbatim piece of the input, and the documented maximum access unit size and maximum number of NAL units are never exceeded by a successful parse.",
 ["inputs"],"every list of NAL units and every byte string",
 "Tests parse six streams; start-code search, zero-length units and limits interact over unbounded inputs.",
 ["pkg/codecs/h264/annexb.go","pkg/codecs/h264/avcc.go"],[("Annex-B codec","pkg/codecs/h264/annexb.go"),("AVCC codec","pkg/codecs/h264/avcc.go")])
p("N02","Emulation prevention removal follows the standard",
 "Removing emulation prevention from a NAL unit drops exactly the 0x03 bytes that follow two zero bytes of the unit, scanning as H.264 section 7.4.1 prescribes, and keeps every other byte in order. A unit without such bytes comes back unchanged, and the input is never modified.",
 ["inputs"],"every byte string",
 "Tests cover a few patterns; adjacent and overlapping escape patterns and those at the very end need every string.",
 ["pkg/codecs/h264/emulation_prevention.go"],[("two-pass removal","EmulationPreventionRemove")])
p("A01","MPEG-4 audio configurations survive encode and decode",
 "Any valid audio specific configuration or stream multiplex configuration, once serialized and parsed, comes back identical, and its serialized length is exactly what the encoder wrote with no unwritten or overwritten bytes. Anything the parser accepts can be serialized again and parses to the same configuration.",
 ["inputs"],"every configuration the types can express within the ranges of the format, and every byte string accepted by the parsers",
 "Optional fields (extension types, explicit rates, frame length types, core coder delays) combine into thousands of layouts; tests list about a dozen.",
 ["pkg/codecs/mpeg4audio/audio_specific_config.go","pkg/codecs/mpeg4audio/stream_mux_config.go"],[("ASC codec","pkg/codecs/mpeg4audio/audio_specific_config.go"),("StreamMuxConfig codec","pkg/codecs/mpeg4audio/stream_mux_config.go")])
p("A02","ADTS packets survive encode and decode",
 "Serializing any list of AAC access units with a valid sample rate, channel count and a size that fits the 13-bit frame length, and parsing the stream back, yields the same packets; units that do not fit are refused rather than written with a corrupt header. Every packet returned by a successful parse is a verbatim piece of the input, within the maximum access unit size and with a valid sample rate and channel count.",
 ["inputs"],"every list of packets and every byte string",
 "Tests use two packets of a few bytes; length-field overflow and header bit packing need every size.",
 ["pkg/codecs/mpeg4audio/adts.go"],[("ADTS codec","pkg/codecs/mpeg4audio/adts.go")])
p("A03","LATM and LOAS framing are lossless",
 "Any list of audio mux elements that fit the 13-bit length field, serialized as a LOAS audio sync stream and parsed back, comes back identical; elements that do not fit are refused. A payload length or payload written into an audio mux element is read back with the same length and content.",
 ["inputs"],"every list of elements and payload size",
 "Tests use three streams; length escapes at multiples of 255 and at 13-bit limits need every size.",
 ["pkg/codecs/mpeg4audio/audio_sync_stream.go","pkg/codecs/mpeg4audio/payload_length_info.go","pkg/codecs/mpeg4audio/payload_mux.go","pkg/codecs/mpeg4audio/audio_mux_element.go"],[("LOAS codec","audio_sync_stream.go"),("payload length and payload","payload_length_info.go, payload_mux.go")])
p("H01","Audio frame headers give only values the standards define",
 "Whenever an AC-3, E-AC-3, MPEG-1/2 audio or Opus header or packet parses successfully, the sample rate, channel count, frame size, samples per frame and duration derived from it are exactly those the standard's tables assign to the header bits. Reserved or out-of-range header values are refused.",
 ["inputs"],"every header bit pattern",
 "Tests sample three to six headers of millions; the tables are indexed by attacker-chosen fields.",
 ["pkg/codecs/ac3/sync_info.go","pkg/codecs/ac3/bsi.go","pkg/codecs/eac3/sync_info.go","pkg/codecs/mpeg1audio/frame_header.go","pkg/codecs/opus/packet_duration.go"],[("derived quantities","FrameSize, SampleRate, ChannelCount, FrameLen, SampleCount, PacketDuration2")])
p("O01","Opus and FLAC headers survive encode and decode",
 "Any Opus identification header or FLAC stream information whose fields fit their format survives serialization and parsing unchanged, into a buffer of exactly the serialized size. Anything the parsers accept serializes to bytes that parse to the same value.",
 ["inputs"],"every header value and every accepted byte string",
 "Tests use one or two headers; bit fields crossing bytes need every value.",
 ["pkg/codecs/opus/id_header.go","pkg/codecs/flac/stream_info.go"],[("Opus ID header","pkg/codecs/opus/id_header.go"),("FLAC STREAMINFO","pkg/codecs/flac/stream_info.go")])
p("G01","G.711 companding is exact and stable",
 "Decoding any A-law or mu-law byte gives exactly the 16-bit sample defined by ITU-T G.711, and encoding a decoded sample gives back a byte that decodes to the same sample, for buffers of any length. Encoding picks a companded value of the same sign and within half a quantization step of the sample (of the nearest representable value beyond the clipping level), and odd-sized sample buffers are refused.",
 ["inputs"],"every sample value and every buffer",
 "Tests check a few dozen samples of 65536.",
 ["pkg/codecs/g711/alaw.go","pkg/codecs/g711/mulaw.go","pkg/codecs/g711/invert_table.go"],[("tables","pkg/codecs/g711"),("loops","Marshal/Unmarshal")])
p("J01","JPEG segments survive encode and decode",
 "A start-of-frame, quantization-table, restart-interval, Huffman-table or scan segment serialized from valid values has exactly the declared marker and length, and parsing the body gives back the same values. Every value read from an accepted segment lies inside the segment.",
 ["inputs"],"every segment value and every byte string",
 "Tests use one instance per segment.",
 ["pkg/codecs/jpeg/define_quantization_table.go","pkg/codecs/jpeg/start_of_frame1.go","pkg/codecs/jpeg/define_restart_interval.go"],[("segment codecs","pkg/codecs/jpeg")])
p("T01","MPEG-TS timestamps unwrap without jumps or drift",
 "Decoding a sequence of 33-bit timestamps returns 0 first and afterwards values whose difference to the first one equals the raw difference modulo 2^33, and consecutive values never differ by more than half the 33-bit range. Hence a clock that wraps any number of times, in either direction, is followed exactly.",
 ["inputs","histories"],"every sequence of timestamps",
 "A property of unbounded histories with any number of wraps; tests unwrap two short sequences.",
 ["pkg/formats/mpegts/time_decoder.go"],[("33-bit unwrap","TimeDecoder.Decode")])
p("T02","MPEG-TS descriptors and access-unit headers survive encode and decode",
 "Every Opus control header, Opus access unit and Opus or metadata descriptor, and every metadata access-unit cell, whose fields fit the format, serializes into exactly the announced size and parses back to the same value with exactly the written bytes consumed. No input makes their parsers panic.",
 ["inputs"],"every field value within the format and every byte string",
 "Optional fields and length escapes (multiples of 255, optional trims, registration ids) combine; tests list one to five cases each.",
 ["pkg/formats/mpegts/substructs/opus_control_header.go","pkg/formats/mpegts/substructs/opus_access_unit.go","pkg/formats/mpegts/substructs/metadata_descriptor.go","pkg/formats/mpegts/substructs/metadata_std_descriptor.go","pkg/formats/mpegts/substructs/metadata_au_cell.go","pkg/formats/mpegts/substructs/opus_audio_descriptor.go"],[("substructure codecs","pkg/formats/mpegts/substructs")])
p("T03","MPEG-TS resynchronization and interception keep the byte stream aligned",
 "Whatever the underlying reader returns (short reads, errors, garbage between packets), the packet aligner delivers only whole packets beginning with the sync byte, in input order and never altered, never panics, and reports the underlying error once no further packet can be assembled. The buffered reader hands out exactly the bytes it was given, in order.",
 ["inputs","fault_sequences"],"every byte stream and every pattern of short reads and errors of the underlying reader",
 "Tests use a single in-memory reader that never splits a packet.",
 ["pkg/formats/mpegts/pre_demuxer.go","pkg/formats/mpegts/buffered_reader.go"],[("packet aligner","pre_demuxer.go"),("buffered reader","buffered_reader.go")])
p("S01","The seekable buffer behaves like a file",
 "After any sequence of writes, seeks and resets, the buffer's content is what a file would contain: writing at a position overwrites exactly the following bytes and extends the content when it runs past the end, seeking past the end fills with zeros, seeking to a negative position is refused without effect, and every call returns the position or count a file would.",
 ["histories","inputs"],"every sequence of operations with every argument",
 "State is an arbitrary history of operations; the test performs one short sequence.",
 ["pkg/formats/fmp4/seekablebuffer/seekablebuffer.go"],[("overwrite then append","Buffer.Write"),("gap filling","Buffer.Seek")])
p("S02","The rewindable reader replays the stream byte for byte",
 "Bytes returned after the rewind are exactly the bytes returned before it, in order, followed by the rest of the underlying stream, for any sequence of read sizes before and after; nothing is lost, repeated or altered. More than the recording limit is never silently dropped: it is reported as an error.",
 ["histories","inputs","fault_sequences"],"every sequence of read sizes and every behaviour of the underlying reader",
 "The test performs two reads; the claim is over all interleavings of sizes, short reads and errors.",
 ["pkg/rewindablereader/reader.go"],[("record and replay","Reader.Read"),("rewind","Reader.Rewind")])
p("F01","fMP4 samples carry access units unchanged",
 "Filling a fragmented-MP4 sample from an AV1, H.264 or H.265 access unit and reading it back yields the same access unit, and the sample is marked as a sync sample exactly when the access unit contains a random-access picture (for AV1: a sequence header) of its codec.",
 ["inputs"],"every access unit",
 "Tests use one access unit per codec.",
 ["pkg/formats/fmp4/sample.go","pkg/codecs/h264/is_random_access.go","pkg/codecs/h265/is_random_access.go","pkg/codecs/av1/is_random_access.go"],[("fill and get","pkg/formats/fmp4/sample.go")])
p("F02","Fragmented and progressive MP4 parsers never panic",
 "Given any bytes, reading an fMP4 initialization segment, a list of fMP4 fragments, or a progressive MP4 presentation (including fetching the payload of every sample it lists) returns successfully or with an error, and never panics, loops forever or allocates without bound.",
 ["inputs"],"every byte string, including boxes in any order and with any counts and offsets",
 "Fuzzing samples a few thousand inputs; table-driven counts, zero divisors and box ordering need every input.",
 ["pkg/formats/fmp4/init.go","pkg/formats/fmp4/parts.go","pkg/formats/pmp4/presentation.go","pkg/formats/pmp4/track.go","internal/mp4/codec_boxes.go"],[("box state machines","Init.Unmarshal, Parts.Unmarshal, Presentation.Unmarshal")])
p("F03","MP4 presentations and fragments survive write and read",
 "A progressive MP4 presentation or a list of fragments that the writers accept, once written and read back, has the same tracks with the same time scales, codecs, and the same samples in the same order with equal durations, composition offsets, sync flags and payloads.",
 ["inputs","configurations"],"every presentation and fragment list the types can express",
 "Run-length tables, offsets and flags depend on sample values; tests write a few presentations.",
 ["pkg/formats/pmp4/track.go","pkg/formats/pmp4/presentation.go","pkg/formats/fmp4/part_track.go","pkg/formats/fmp4/parts.go","internal/mp4/codec_boxes.go"],[("table writers","pmp4 track marshalSTTS/CTTS/STSC"),("table readers","Presentation.Unmarshal")])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
