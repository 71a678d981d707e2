#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Ring block buffer never corrupts a block that is still held",
  "A block fetched from the ring block buffer contains exactly the bytes written into it and keeps them unchanged until that block itself is released or the buffer is cleared, whatever mixture of writes, multi-part writes, releases from either end, wrap-arounds and growth happens meanwhile. Head releases free blocks strictly in the order they were produced and back releases free the newest one, including blocks produced before a growth, and every release of an existing block is accepted. The size reported for the unfinished block is always the number of bytes written to it, and a buffer that has been split off is no longer writable and shares no memory with its successor.",
  ["histories"], "every sequence of write/alloc/fetch/pop/pop-back/clear operations with every block size relative to the capacity",
  "The only existing test never touches the ring buffer (both sub-tests construct the linear one) and compares no bytes; corruption needs a particular order of sizes, releases and growth.",
  ["collections/buffer_rb.go", "collections/block_buffer.go", "streams_buffer.go"],
  [("wrap/grow decision", "collections/buffer_rb.go Alloc"), ("deferred accounting of blocks left in the old memory", "collections/buffer_rb.go Pop")],
  ["bytes of every fetched, not yet released slice after every operation", "pending size"],
  [("blocks", "offset/size of the live blocks", "collections/buffer_rb.go"), ("discardBlockCount", "blocks abandoned by growth and not yet released by the user", "collections/buffer_rb.go")])

p("C02", "Linear block buffer keeps held blocks and splits off disjoint memory",
  "A block fetched from the linear block buffer contains exactly the bytes written into it and keeps them until it is released or the buffer is cleared, also when the buffer grows, and the whole-data view of a buffer from which nothing was released is the concatenation of everything written. After a split the old buffer refuses every further write, fetch and release until it is cleared, while the new buffer starts empty, owns exactly the free bytes the old one reported and accepts any amount of data. From then on no operation on one of the two, including clearing and refilling either, changes a byte held in the other.",
  ["histories"], "every sequence of write/fetch/release/clear/split operations over both halves with every block size relative to the capacity",
  "The existing test writes and pops 100 one-byte blocks and compares nothing; split-off is never called.",
  ["collections/buffer_direct.go", "collections/block_buffer.go"],
  [("sealing flag and re-slicing of the free tail", "collections/buffer_direct.go SplitOff"), ("copying growth", "collections/buffer_direct.go Alloc")],
  ["bytes of held slices", "panics on a sealed buffer", "AvailableBytes of the new buffer"])

p("C03", "Queue and ring buffer behave as FIFO sequences",
  "The queue behaves like an unbounded double-ended list: whatever mixture of pushes, pops from the front, pops from the back, peeks, clears and internal growth occurs, size, head, tail, indexed peeks, emptiness and the two-part data view always equal those of a plain list. The ring buffer behaves like a list of bounded capacity whose push on a full buffer drops the oldest element. A structure is full exactly when its size equals the capacity it reports. On an empty one, popping yields the zero value, and asking for the first or last element or popping from the back is refused.",
  ["histories"], "every sequence of push/pop/pop-back/peek/clear operations from every initial capacity, past several growths and wrap-arounds",
  "The queue test pushes 100 and pops 100 from the back without comparing; the ring buffer test panics before it checks anything, so wrap-around with head not at zero is never exercised.",
  ["collections/queue.go", "collections/ring_buffer.go"],
  [("unwrap on growth", "collections/queue.go Push"), ("modular head/tail", "collections/ring_buffer.go")],
  ["return values of every accessor after every operation"])

p("C04", "Linked list behaves as an indexed sequence",
  "After any sequence of appends and removals at any valid index, reading every index, the size, and the value returned by each removal are those of a plain list, and an appended element always becomes the last one. An index beyond the size is refused rather than answered.",
  ["histories"], "every sequence of append/remove(i) up to the depth bound, for every valid i",
  "The existing test only appends 100 items and removes from the front; removing the last or a middle node and then appending is never tried.",
  ["collections/linked_list.go"], [("first/last pointer maintenance", "collections/linked_list.go Remove")],
  ["Get of all indices, Size, value returned by Remove"])

p("C05", "Exactly one release of a shared reference reports the last use",
  "However the references and releases of any number of goroutines interleave, as long as every release is matched by an earlier reference, exactly one release (the one that drops the count to zero) returns true and no earlier one does. The use count read at a quiescent moment equals references minus releases, starting from one for a newly created counter, and the stored value is returned unchanged.",
  ["schedules"], "every interleaving of concurrent refer/release/use-count calls",
  "The test calls the three methods once from one goroutine; lost updates and double 'last release' need a preemption inside the operation.",
  ["collections/reference_counter.go"], [("atomic add deciding the zero transition", "collections/reference_counter.go Release")],
  ["boolean results of Release, UseCount"], hook="none in /repo: the file is instrumented on the fly through go build -overlay")

p("C06", "Pooled packets are exclusive and never carry an earlier life's state",
  "A packet obtained from a constructor carries exactly the constructor's arguments and the documented defaults in every other attribute, whatever an earlier user did with the same recycled object, including any format conversions cached in it. Whatever the interleaving of goroutines creating and freeing packets and whichever pooled object the pool hands out, two live packets are never the same object and a live packet's attributes change only through its owner.",
  ["histories", "schedules"], "every history of create/mutate/convert/free over recycled objects, every pool answer, and every interleaving of 2-3 goroutines creating and freeing",
  "The root package has no tests at all; leaking state requires a recycle after a specific use, and aliasing requires a preemption between two steps of freeing.",
  ["av_packet.go"], [("field reset before returning to the pool", "av_packet.go FreePacket")],
  ["all packet attributes and the results of the two format conversions"], hook="none in /repo: av_packet.go is instrumented through go build -overlay")

p("C07", "Demuxer callbacks follow tracks, completion, then packets",
  "For any input, a demuxer announces every track exactly once and in index order, then reports completion exactly once, and only afterwards delivers packets, each belonging to an announced track. If probing ends with no usable track it reports 'no track' exactly once and never delivers or announces anything afterwards. No track is announced or accepted once probing has completed. This holds too when the handler itself asks for completion from within a callback, and callbacks always go to the handler set last.",
  ["histories", "configurations"], "every sequence of track announcements, good/bad/keyless audio and video packets, probe-complete and try-complete requests, for each container type and option",
  "There is no test for the demuxer; the order depends on which packet arrives first, on rejected packets and on when probing ends.",
  ["demuxer.go", "tracks.go", "handler.go"], [("probe gate and replay of buffered packets", "demuxer.go OnProbeComplete"), ("refusal after completion", "demuxer.go AddTrack")],
  ["sequence of handler callbacks"])

p("C08", "Demuxer delivers every accepted packet once, in order, with duration",
  "Every packet accepted for a track is delivered exactly once, with its own timestamps, key flag, codec, framing and track index, except the newest packet of each track, which is held back until a successor arrives. Each delivered packet's duration is the decoding-time difference to the next packet of the same track, packets of one track with non-decreasing timestamps are delivered in arrival order, and the packets buffered during probing are delivered merged in non-decreasing decoding time. Which track's packet arrives first, or how many packets were buffered, makes no difference. An installed preprocessing hook sees every accepted video packet exactly once, before it is delivered, and what it changes is what is delivered.",
  ["histories", "inputs"], "every interleaving of packets of up to three tracks with equal, increasing and decreasing time steps, and every probing backlog length",
  "No test; loss, duplication, cross-track mixing and tie reordering depend on arrival order across tracks and on backlog length.",
  ["demuxer.go", "collections/linked_list.go"], [("per-track packet lists with one-packet lookahead", "demuxer.go processBufferedPacket"), ("timestamp merge of the backlog", "demuxer.go OnProbeComplete")],
  ["packets seen by the handler"])

p("C09", "Demuxed payloads arrive intact and buffer space is accounted exactly",
  "The payload a handler receives is byte for byte what was written into the demuxer's data pipeline for that packet, even if pipeline memory wraps, grows or is reused in between. Every unit placed in the pipeline is released exactly once and on the right stream: rejected packets and codec headers immediately from the back, delivered packets after their callback from the front when automatic freeing is on (and not at all by the demuxer when it is off). A delivered packet names the buffer its memory lies in, so that its owner can free it there. Consequently the units outstanding per stream always equal the accepted packets not yet freed.",
  ["histories", "configurations"], "every sequence of accepted and rejected packets and codec headers over several streams, with automatic freeing on and off, on small real ring buffers",
  "No test; a wrong or double release only shows when a later write overwrites a packet still queued.",
  ["demuxer.go", "streams_buffer.go", "collections/buffer_rb.go", "data_pipeline.go"], [("discard-on-reject and discard-after-callback", "demuxer.go OnAudioPacket/OnVideoPacket/forwardPacket"), ("stream-to-buffer index map", "demuxer.go streamIndex2BufferIndex")],
  ["payload at OnPacket", "discard calls per stream"])

p("C10", "Probing ends at the right moment with the right track parameters",
  "Probing completes by itself exactly when the buffered duration of some track reaches the configured probe time (never less than 200 ms), or when completion is requested; a tentative request is declined while any raw PCM or G.726 track has fewer than two packets. A track is opened only by a usable packet or codec header: AAC with a valid ADTS header (giving its rate and channel count), other audio with 8 kHz mono defaults, video by a key frame or header carrying complete parameter sets (giving its resolution), or, without any of its own, with those of an earlier track of the same codec. A stream opens at most one track, however often it is announced. On completion the rate of 16-bit PCM and the bit rate of G.726 tracks are the ones implied by the first packet's size and duration. A track's codec header and parameter sets stay as they were when it was opened, however often the pipeline reuses the memory they came in.",
  ["histories", "configurations"], "every sequence of packets with time steps around the threshold, every configured probe time, each codec, and every packet size class",
  "No test; the thresholds and the per-codec estimation only meet at particular combinations of timestamps and sizes.",
  ["demuxer.go", "video_stream.go", "av_stream.go"], [("probe duration comparison", "demuxer.go processBufferedPacket"), ("bandwidth estimation", "demuxer.go calculatePCMFrequency/calculateG726BitRate"), ("tentative completion", "demuxer.go TryCompleteProbe")],
  ["when completion is reported", "stream parameters at OnNewTrack"])

p("C11", "Start-code scanning finds every NAL unit and nothing else",
  "For every byte string, the scanner reports the first three- or four-byte start code that is followed by at least one byte, with the right position and length, and reports none exactly when there is none. Splitting a string into NAL units yields contiguous pieces that concatenate to the original and cut exactly at the start codes beyond the first one, and stripping a start code removes exactly one leading start code or nothing. The reader-based scanner agrees and advances just past the NAL header.",
  ["inputs"], "every byte string up to the length bound over an alphabet that distinguishes all comparisons made, plus long strings with start codes at every offset",
  "No test in the package calls the scanner; the skip arithmetic depends on the position of every byte relative to the start code.",
  ["avc/util.go"], [("Boyer-Moore-like skip loop", "avc/util.go FindStartCode"), ("cutting", "avc/util.go SplitNalU, RemoveStartCode")],
  ["return values, callback slices"])

p("C12", "Length-prefixed and start-code framing convert without losing NAL units",
  "Converting an H.264 Annex B stream to four-byte length-prefixed form yields exactly its non-empty NAL units in order, and converting back yields an Annex B stream with the same NAL units (SEI units may be dropped by the in-place converter, never by the writer-based one). Converting H.265 length-prefixed data with any length-field size yields the same NAL units, parameter sets supplied for insertion appear before the first key unit and nowhere else, and malformed length fields are reported or cut off without inventing data. The number of bytes reported equals the number written, and it never exceeds what the destination must hold.",
  ["inputs"], "every list of up to the bounded number of NAL units with every type class, size, start-code length and empty-unit placement, and every truncation of the converted form",
  "Neither converter has a test; errors depend on combinations of start-code lengths, consecutive empty units, unit types and truncation points.",
  ["avc/util.go", "hevc/util.go"], [("framing loops", "avc/util.go AVCC2AnnexB, AnnexB2AVCC, Mp4ToAnnexB; hevc/util.go Mp4ToAnnexB")],
  ["bytes produced"])

p("C13", "A packet converts to either framing on demand, correctly and idempotently",
  "Asking a video packet for its Annex B or length-prefixed form yields the same NAL units as its payload (SEI aside), for every number and size of NAL units, and yields the payload itself when it already has that form or is not H.264/H.265. Length-prefixed payloads are read with the length size (1, 2 or 4 bytes) the stream's decoder configuration record announces. The Annex B form of a key packet starts with the stream's parameter sets whenever the stream has them, non-key packets get none. Asking again returns identical bytes, the payload itself is never modified, and a caller-supplied allocator is honoured with identical results.",
  ["inputs", "histories"], "every packet over codec, framing, key flag, stream parameters, allocator and NAL list, and every sequence of conversion requests on it",
  "The root package has no tests; buffer sizing and caching errors need many units, absent parameters or repeated calls.",
  ["packet_utils.go", "av_packet.go"], [("conversion caching", "packet_utils.go AVCCPacket2AnnexB, AnnexBPacket2AVCC")],
  ["returned bytes, payload bytes"])

p("C14", "H.264 decoder configuration records round-trip and reject truncation",
  "Serialising any non-empty lists of sequence and picture parameter sets (with or without start codes) and parsing the result returns the same parameter sets in the same order with profile, compatibility, level and four-byte length size, and serialising reports an error only when a list is missing, a set is malformed or the record cannot represent them; the record itself is laid out as the format requires, reserved bits set. Parsing any well-formed record returns its fields and sets, and no others even when the same object read a record before; every proper prefix of it and every record without parameter sets is rejected with an error. Every conversion of a record to Annex B yields the same start-code-prefixed parameter sets in order.",
  ["inputs"], "all numbers and sizes of parameter sets up to the bounds (including sizes around the internal limits), all header field values, every truncation point",
  "The single test parses one record with one SPS and one PPS and compares nothing.",
  ["avc/mp4.go", "avc/util.go", "codec_paraments.go"], [("Marshal/Unmarshal", "avc/mp4.go"), ("independent converter", "avc/util.go M4VCExtraDataToAnnexB")],
  ["parsed lists and fields, serialised bytes, errors"])

p("C15", "H.265 decoder configuration records round-trip and reject truncation",
  "Serialising any non-empty lists of video, sequence and picture parameter sets and parsing the result returns the same sets in the same order; serialising reports an error only when a kind is missing, a set is malformed or the record cannot represent the lists. The header of a serialised record carries the profile, tier, level, chroma format, bit depths and temporal layers of its sequence parameter set, four-byte length fields and the reserved bits the format requires. Parsing any well-formed record returns every header field and, whatever the order and number of its arrays and of the units in them, exactly its own video, sequence and picture sets in order (also when the same object read a record before), ignoring units of other types; records lacking one of the three, and every proper prefix of a record, are rejected with an error. Converting a record to Annex B yields those sets, start-code prefixed, in the order video, sequence, picture.",
  ["inputs"], "all array orders, numbers and sizes of parameter sets up to the bounds, all values of the bit-packed header fields, every truncation point",
  "The single test parses one record with one unit per array in the canonical order and compares nothing.",
  ["hevc/mp4.go"], [("Marshal/Unmarshal", "hevc/mp4.go")], ["parsed lists and fields, serialised bytes, errors"])

p("C16", "H.264 sequence parameter sets yield the true picture size and rate",
  "For every syntactically valid sequence parameter set, the parser returns its profile, level, id and constraint flags, the cropped display width and height defined by the standard (including frame/field coding, chroma format and cropping units), and the frame rate from its timing information. Optional syntax (high-profile fields, scaling lists, all picture-order-count types, every VUI part) and emulation-prevention bytes never shift later fields. A set cut before its last needed field yields an error.",
  ["inputs"], "every combination of syntax branches with small and boundary field values, with and without start code, every truncation point",
  "One sample SPS is parsed and printed, not compared; each optional element shifts every later bit.",
  ["avc/sps.go", "bufio/golomb_reader.go"], [("bit-level parse", "avc/sps.go ParseSPS")], ["fields of the parsed SPS"])

p("C17", "H.265 sequence parameter sets yield the true picture size",
  "For every syntactically valid H.265 sequence parameter set, the parser returns the coded size and the display width and height after applying the conformance window in chroma units. Any number of temporal sub-layers with any combination of their profile and level flags, every chroma format, and emulation-prevention bytes never shift later fields. A set cut before its last needed field yields an error.",
  ["inputs"], "every combination of syntax branches and sub-layer flags with small and boundary values, with and without start code, every truncation point",
  "One sample SPS is parsed and printed, not compared; sub-layer flags and emulation bytes each shift every later bit.",
  ["hevc/sps.go", "bufio/golomb_reader.go"], [("bit-level parse", "hevc/sps.go ParseSPS, parsePTL, nal2rbsp")], ["fields of the parsed SPS"])

p("C18", "Parameter sets extracted from key frames and records agree in every view",
  "From any Annex B key frame containing the codec's parameter sets, in any order and among any other NAL units, extraction returns those sets (the last of each kind) with a four-byte start code, and fails with an error when one kind is missing. A codec description built from them reports the parsed width and height, its Annex B view is the sets in codec order, its record view parses back to the same sets, and a description built from a record returns that record unchanged and the record's sets as Annex B. Streams created from key frames carry the same description.",
  ["inputs"], "every order, multiplicity and start-code length of parameter sets mixed with other NAL units, for both codecs and both construction paths",
  "The root package has no tests; the views are never compared with each other.",
  ["codec_paraments.go", "video_stream.go", "avc/util.go", "hevc/util.go"], [("extraction", "avc/util.go and hevc/util.go ParseExtraDataFromKeyNALU"), ("views", "codec_paraments.go")],
  ["extracted bytes, CodecData accessors"])

p("C19", "Key frames are recognised exactly",
  "An H.264 access unit in Annex B form is a key frame exactly when, after any number of SEI, delimiter and parameter-set units, the first other unit is an IDR slice; an H.265 one exactly when, after any number of parameter-set, SEI and delimiter units, the first other unit has an intra-random-access type. Data without a start code, and other codecs, are never key frames.",
  ["inputs"], "every sequence of NAL unit types up to the length bound (all type values), with every start-code length",
  "The H.265 test needs a file that is not in the repository; the H.264 function has no test.",
  ["avc/util.go", "hevc/util.go", "packet_utils.go"], [("type scan", "avc/util.go IsKeyFrame, hevc/util.go IsKeyFrame, packet_utils.go IsKeyFrame")], ["boolean result"])

p("C20", "AAC headers and audio configurations convert consistently",
  "Writing an ADTS header and reading it back returns every field written (version, profile, rate index, channel configuration, frame length) with valid sync word and no CRC, and every 7-byte header is decoded field by field as the standard lays it out or refused when the sync word is missing. The audio configuration derived from an ADTS header parses to the same object type, rate and channel configuration, and the stream parameters extracted from ADTS data agree with it. Rate-to-index and index-to-rate lookups are inverse to each other on all standard rates.",
  ["inputs"], "all combinations of header fields (exhaustive), all 2-byte audio configurations",
  "No test covers AAC; a wrong shift only shows for particular field combinations.",
  ["utils/aac_util.go", "video_stream.go"], [("bit packing", "utils/aac_util.go")], ["header bytes, parsed values"])

p("C21", "Byte readers and writers never cross bounds and are big-endian",
  "Any sequence of reads, writes and relative seeks on a byte buffer either performs exactly the requested big-endian access at the current offset and advances by its size, or, when it would leave the buffer on either side, returns an error and changes neither offset nor data; it never panics. Values written are read back identically, and the offset, remaining and written views always describe the same position.",
  ["histories", "inputs"], "every sequence of operations up to the depth bound over every buffer length, including negative, zero and overflowing sizes",
  "No test uses the byte reader or writer; the boundary is a matter of offset and size combinations.",
  ["bufio/bytes_buffer.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go", "bufio/util.go"], [("single bounds check", "bufio/bytes_buffer.go peekN")], ["results, errors, offset, buffer contents"])

p("C22", "Bit reads and writes address exactly the requested bits",
  "Writing a value of any width up to 64 bits at any bit position changes exactly those bits, and reading them back returns the value modulo its width; consecutive reads and writes advance the position by the width. Reads and writes that extend beyond the data touch only what exists and never panic, and byte-wise access at a byte-aligned position inside the data agrees with bit-wise access.",
  ["inputs", "histories"], "every offset, width and boundary value over small buffers, and every sequence of mixed operations up to the depth bound",
  "The existing test prints one value.",
  ["bufio/bits_reader.go", "bufio/bits_writer.go"], [("per-bit addressing", "bufio/bits_reader.go ReadBits, bufio/bits_writer.go WriteBits")], ["value, buffer contents, offset"])

p("C23", "Exponential-Golomb decoding is exact for every source behaviour",
  "Decoding a sequence of bits, fixed-width fields and unsigned or signed Exponential-Golomb codes returns exactly the encoded values (signed ones as the two's-complement of their sign) and consumes exactly their bits. The result is the same however the underlying byte source delivers its data within the reader contract (including empty reads and an end-of-data notice together with the last byte), and running out of data, or a failure of the source, is reported by the read it cuts short and never yields a value made of missing bits; exhausted data stays exhausted.",
  ["inputs", "fault_sequences"], "every sequence of fields up to the depth bound over boundary values, every placement of short and empty reads up to the deviation bound, every truncation, a source failure at every position",
  "No test; sign errors and source misbehaviour are invisible on the one sample used elsewhere.",
  ["bufio/golomb_reader.go"], [("one-byte refill", "bufio/golomb_reader.go ReadBit")], ["values, errors"])

p("C24", "Timestamp conversion between time bases is exact",
  "Converting a timestamp or duration between time bases returns the exact rational result truncated toward zero, for positive and negative values and every pair of time bases used by media formats. Hence conversion is the identity for equal bases, is monotone, and round-trips through any base that is a multiple of the original; packet-level conversions of decoding time, presentation time, their difference and duration all agree with it.",
  ["inputs"], "all timestamps in a dense range and around every power of two up to days of 90 kHz time, for all pairs of common time bases",
  "No test; rounding errors appear only at particular timestamp/base combinations.",
  ["packet_utils.go", "av_packet.go"], [("rescaling", "packet_utils.go ConvertTs")], ["returned integers"])

p("C25", "No byte sequence from the network can crash the parsers",
  "Parsing entry points for untrusted media data (parameter-set extraction and parsing, configuration records, ADTS and audio configurations, start-code scanning, framing conversion into a sufficiently large buffer, key-frame detection, and the demuxer's packet inputs) always terminate and return a result or an error for every byte string, including empty and truncated ones. They never panic, never loop, and never modify their input. (Callers announce an AAC stream without ADTS headers together with its configuration, and describe length-prefixed streams with length fields of 1, 2 or 4 bytes.)",
  ["inputs"], "every byte string up to the length bound over a structural alphabet, and every truncation and single-byte corruption of well-formed samples",
  "Tests feed only well-formed samples.",
  ["avc/util.go", "avc/sps.go", "avc/mp4.go", "hevc/util.go", "hevc/sps.go", "hevc/mp4.go", "utils/aac_util.go", "video_stream.go", "codec_paraments.go", "demuxer.go"],
  [("length checks", "all parsers")], ["panics, termination, input bytes"])

p("C26", "Data pipelines keep streams separate and return what was written",
  "For every stream index used in any order, fetching from a pipeline returns exactly the bytes written to that stream since its previous fetch, across any number of partial writes, and pending size reports their count. On the multi-stream pipeline a fetched packet stays intact until it is discarded, discarding or writing on one stream never affects another, and back and head discards release the newest and oldest packet. On the direct pipeline growth never loses bytes and seeking back withdraws exactly the last bytes written.",
  ["histories"], "every sequence of write/fetch/discard operations over up to three stream indices and both media types, with packet sizes around the internal capacities",
  "The root package has no tests; first use of a higher stream index and capacity crossings need specific sequences.",
  ["streams_buffer.go", "direct_pipeline.go", "data_pipeline.go", "collections/buffer_rb.go"], [("per-index ring buffers", "streams_buffer.go"), ("doubling growth", "direct_pipeline.go Write")], ["fetched bytes, pending size"])

p("C27", "Track registries keep stable indices and muxers one track per media type",
  "Tracks keep the index under which they were added and lookups by codec, media type or index return the first matching track or none. A muxer accepts at most one track per media type, returns consecutive indices for accepted ones and an error, changing nothing, for the others. A demuxer maps each distinct stream marker to one stable buffer index, numbered consecutively from zero in order of first use.",
  ["histories"], "every sequence of additions and lookups up to the depth bound over media types, codecs and markers",
  "No test.",
  ["tracks.go", "muxer.go", "demuxer.go", "track.go"], [("append-only list", "tracks.go"), ("type check", "muxer.go AddTrack"), ("ordered marker list", "demuxer.go FindBufferIndex")], ["indices, lookups, errors"])

p("C28", "Dumping a stream to files writes each track's elementary stream",
  "The file-dumping handler creates one file per announced track, named after the track's type, index and codec (different types and codecs have different names), and after any sequence of packets each file contains exactly that track's payloads in delivery order, video in Annex B form, with parameter sets in front of length-prefixed key packets. Nothing is lost, duplicated or written to another track's file, content left by an earlier dump of the same name does not remain, and the owner of the dump can read it back and dump again. An output that cannot be created or written is reported (by panicking) by the call concerned, and does not disturb the other tracks.",
  ["histories"], "every sequence of packets over up to three tracks with both framings, key and non-key, in a fresh and in a previously used directory",
  "No test.",
  ["handler.go", "packet_utils.go"], [("per-index file table", "handler.go OnNewTrack/OnPacket")], ["file contents in a scratch directory"])

p("C29", "Random helpers stay in range and can produce every value",
  "A random integer requested for an interval always lies within it, both ends included and both reachable, for every interval, and an inverted interval is refused. A random string has exactly the requested length and consists only of ASCII letters and digits, all of which can occur.",
  ["inputs", "fault_sequences"], "every answer the random source can give, for all small intervals and lengths",
  "No test; a sampled test cannot establish that the extreme values are reachable or never exceeded.",
  ["utils/random_util.go"], [("offset and span arithmetic", "utils/random_util.go")], ["returned values"], hook="none in /repo: the random source is replaced through go build -overlay")

p("C30", "Long runs stay within bounded memory and released memory is used again",
  "However long a run lasts, buffers, queues, lists, pipelines and the demuxer keep no more memory than a constant factor of the largest content their user ever held at one time: space released by popping, discarding, clearing or fetching is used again, and repeating any balanced sequence of operations never makes them grow without limit. An emptied linear buffer offers all of its room again (at least its capacity and the largest content it held), and a write that fits in the room it reports does not reallocate.",
  ["histories"], "every prefix of operations followed by every balanced cycle up to the length bounds, the cycle repeated hundreds of times",
  "A leak of room shows only after a specific cycle is repeated many times; tests run each operation once or twice.",
  ["collections/buffer_direct.go", "collections/buffer_rb.go", "collections/queue.go", "collections/ring_buffer.go", "collections/linked_list.go", "streams_buffer.go", "direct_pipeline.go", "demuxer.go"],
  [("offset reset when empty", "collections/buffer_direct.go Pop, PopBack"), ("wrap-around before growth", "collections/buffer_rb.go Write"), ("index wrap", "collections/ring_buffer.go")], ["bytes and cells reachable from the object, AvailableBytes"])

p("C31", "Separate streams do not affect each other, one by one or in parallel",
  "Streams that are processed with objects of their own share nothing that can be observed: whatever runs before, afterwards or at the same time in other goroutines, every parse, conversion, buffer, queue, pipeline, demuxer, packet and muxer gives the result it gives alone. What a call returns belongs to its caller: it does not change when other streams are processed later, and overwriting it, or the input once the call's results are no longer needed, never shows in the results for another stream. One stream description may be used by several goroutines at once, each with packets of its own.",
  ["histories", "schedules"], "every sequence of jobs (parsers, converters, buffers, demuxers, packets) up to the bound, and every pair and group of jobs in threads under all schedules up to a preemption bound with switches between any two statements of the library",
  "A shared scratch buffer, pool or memo goes unnoticed until two streams meet in one process in just the wrong order or at just the wrong statement; tests process one stream at a time.",
  ["avc/sps.go", "avc/mp4.go", "avc/util.go", "hevc/sps.go", "hevc/mp4.go", "hevc/util.go", "utils/aac_util.go", "bufio/golomb_reader.go", "codec_paraments.go", "packet_utils.go", "av_packet.go", "demuxer.go", "video_stream.go"],
  [("results in fresh memory", "avc/mp4.go Marshal, hevc/mp4.go ExtraDataToAnnexB, avc/util.go ParseExtraDataFromKeyNALU"), ("per-call readers", "avc/sps.go ParseSPS, hevc/sps.go ParseSPS"), ("value receivers", "codec_paraments.go AnnexBExtraData, MP4ExtraData"), ("packet pool", "av_packet.go PacketPool")], ["results of every call, compared with those of the same call alone; retained results over time"])

p("C32", "A chain of demuxers and packet conversions preserves the streams end to end",
  "When the packets of one demuxer are converted with the library's helpers and fed to a demuxer of the same or another container style (length-prefixed or start-code framing, 1/1000 or 1/90000 time base, headers out of band or in band), and so on over several stages, every stage delivers for each stream exactly the packets that went in, in order, each stage holding back at most the newest: the same NAL units and AAC frames, the same decoding and presentation times (for times every time base represents), the same key flags; and every stage announces the same picture size, parameter sets, sampling rate and channels, while ring buffers reuse their memory underneath.",
  ["sequences"], "every chain of two and three container styles x codec x placement of parameter sets x end of probing x every packet sequence up to the bound",
  "Each helper can look right alone while their combination loses a unit, a parameter set or a tick, in one of many combinations of styles and orders; no test chains them.",
  ["demuxer.go", "packet_utils.go", "codec_paraments.go", "video_stream.go", "av_packet.go", "collections/buffer_rb.go", "avc/util.go", "hevc/util.go", "utils/aac_util.go"],
  [("probing and delivery", "demuxer.go processBufferedPacket, OnProbeComplete"), ("packet framing", "packet_utils.go AVCCPacket2AnnexB, AnnexBPacket2AVCC"), ("decoder configuration", "codec_paraments.go MP4ExtraData, AnnexBExtraData"), ("AAC headers", "utils/aac_util.go SetADtsHeader, ADtsHeader2MpegAudioConfigData"), ("time bases", "packet_utils.go ConvertTs")], ["packets and tracks delivered by every stage"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if x["anchors"]["hook_needed"] is None: pass
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
