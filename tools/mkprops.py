"""Source of properties.jsonl (one property per entry)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **extra):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(extra)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


M = "migen_src/"
p("C01", "An encoded frame decodes back to exactly the pixels that were fed in",
  "For every frame fed to the encoder core (1, 2 or 4 pixels per cycle, bit depth 2 to 16, with or without AXI-lite "
  "configuration) the output words up to and including the end-marked one are exactly the lossless-JPEG entropy code of "
  "that frame: four interleaved components, predictor 1, first row predicted from half scale, later rows from the row "
  "above, 16-bit differences modulo 65536, the core's Huffman table, first code in the most significant bits. Decoding "
  "those words therefore yields every pixel exactly, in order, with only zero padding left over.",
  ["inputs", "configurations", "histories"],
  "all pixel values and frame shapes (rows of at least 4 pixels and 3 pixel groups), all parallelism/bit-depth/output-width "
  "combinations, all input gaps and output stalls",
  "The integration tests compare one random 4096-pixel frame prefix in one or two configurations and never decode; they "
  "cannot reach row wraps at other widths, 16-bit wrap-around, every ssss class at every bit depth or unusual packer widths.",
  [M + "integration_1.py", M + "integration_2.py", M + "integration_3.py", M + "predictor_p1_c4_px4.py",
   M + "predictor_p1_c4_pix1_2.py", M + "difference.py", M + "normalize.py", M + "encode.py", M + "merge.py",
   M + "converter.py", M + "vbits_to_cbits.py"],
  [("pipeline composition", "integration_1.Integration1.elaborate .. integration_3.Integration3.elaborate")])
p("C02", "Stalls and gaps never lose, duplicate, reorder or alter output",
  "For every pattern of input gaps and output stalls the encoder core delivers the same sequence of output words for the "
  "same accepted pixels: a pixel group counts as accepted exactly when it is valid while the core is ready, and an output "
  "word as delivered exactly when it is valid while the sink is not busy. A presented word stays unchanged until it is "
  "taken, ready is withdrawn early enough that no buffer ever overflows however long the sink stalls, and when the stall "
  "ends the core always resumes and drains.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of valid/busy, including stalls long enough to fill every buffer and releases at every moment",
  "The tests use one random 5%/15% stall schedule; a buffer never fills in them, so back-pressure is never exercised.",
  [M + "integration_2.py", M + "integration_3.py", M + "lj92_pipeline_fifo.py", M + "converter_fifo.py",
   M + "converter.py", M + "vbits_to_cbits.py"],
  [("ready generation", "integration_2.Integration2.elaborate nready"), ("early full", "lj92_pipeline_fifo close_full, converter_fifo close_full")])
p("C03", "A frame ends exactly at its configured last pixel",
  "For every configured height and width the core accepts exactly height x width pixels per frame, refuses any pixel after "
  "the last one until it is reset, marks the last output word - and no earlier one - with end, and pads it with zeros on the "
  "right. Row starts are flagged exactly at each first group of a row; without AXI-lite the geometry is 4096 x 3072 with a "
  "6666000 cycle limit, and for some cycles after reset no pixel is accepted.",
  ["inputs", "configurations", "schedules"],
  "all heights/widths up to 65535 (rows of at least 3 groups), all parallelism, all gaps between pixels",
  "signals_test_1 uses a single 4x12 frame at 4 pixels per cycle; the integration tests never reach an end of frame with "
  "back-pressure, and no test looks past the end.",
  [M + "signals.py", M + "integration_2.py", M + "vbits_to_cbits.py", M + "register_file.py"],
  [("geometry counters", "signals.Signals.elaborate"), ("closing", "integration_2 nready_end, nready_reset"),
   ("last word", "vbits_to_cbits.OutputHandler")])
p("C04", "Every 0xFF data byte is followed by one stuffed zero, and nothing else changes",
  "The stuffing stages turn the stream of 16-bit code words into the same byte sequence with exactly one 0x00 inserted after "
  "each 0xFF byte, repacked into 16-bit words in order, zero-padded to a whole word at the end, with the end mark on the last "
  "word. Removing the stuffed bytes gives back the code words for every byte pattern and every stall schedule.",
  ["inputs", "schedules"], "all byte patterns, all interleavings of input valid and output busy, all frame lengths",
  "No test covers the stuffing modules at all.",
  [M + "fix_0xff.py", M + "fix_0xff2.py"],
  [("stuff", "fix_0xff.logic, Fix0xFF.elaborate"), ("repack", "fix_0xff2.normal_logic, clean_logic, Fix0xFF2.elaborate")])
p("C05", "Each frame leaves as start marker, stuffed data, end marker",
  "The complete encoder designs emit, per frame, exactly eight 0xFFFF words, then all stuffed data words of the frame, then "
  "exactly eight 0xFFFF words, with the end flag on the last of them only. This holds under every stall schedule and for "
  "every frame content; no data word is lost, repeated or swallowed at the marker boundaries.",
  ["inputs", "schedules", "histories"], "all frames, all stall schedules, all moments at which data arrives relative to the markers",
  "markers_test_1 asserts nothing, and the complete designs have no test.",
  [M + "markers.py", M + "beta_integration.py", M + "micro_integration.py", M + "auto_reset.py"],
  [("marker state machine", "markers.Markers.elaborate"), ("wiring", "beta_integration, micro_integration elaborate")])
p("C06", "An overlong frame is cut with the distinct forced end marker",
  "If a frame has not been closed when its allowed number of cycles since the first accepted pixel has passed, the output is "
  "cut and exactly eight 0xFFFE words are emitted, the last one flagged as end; the data words before them are a prefix of the "
  "frame's regular stuffed data after a complete start marker. A frame that ends in time never gets a forced marker.",
  ["schedules", "inputs", "configurations"], "all limits (24 bit), all arrival times of pixels, all stalls",
  "No test drives the timeout.",
  [M + "force_end.py", M + "markers.py", M + "beta_integration.py", M + "micro_integration.py"],
  [("cycle counter", "force_end.ForceEnd.elaborate"), ("forced marker", "markers FORCE_ENDING_MARKER")])
p("C07", "After a frame the core restarts by itself and frames are independent",
  "When the last word of a frame is taken, the complete designs reset themselves once and are ready again without host action; "
  "the next frame's output depends only on its own pixels and the configuration registers, which survive. No word of the old "
  "frame appears after its end flag, and nothing of it - prediction, bit buffer, counters, end or timeout state - leaks into the next.",
  ["histories", "schedules", "inputs"], "all sequences of frames (normal and forced ends), all contents, all stalls at the frame boundary",
  "No test runs two frames.",
  [M + "auto_reset.py", M + "beta_integration.py", M + "micro_integration.py", M + "core_axi_lite.py"],
  [("auto reset", "auto_reset.AutoReset.elaborate; CORE.rst in beta/micro_integration")])
p("C08", "Each pixel is predicted from the right neighbour of its own component",
  "The prediction stage outputs each accepted pixel unchanged together with its prediction: the pixel four positions earlier in "
  "the row; for the first four pixels of a row the pixels at the same positions of the row above; for the first row half scale. "
  "This holds for 1, 2 and 4 pixels per cycle at every bit depth, one cycle after acceptance, for any gaps between pixel groups.",
  ["inputs", "schedules", "configurations"], "all pixel values, row lengths of at least 4 pixels, gaps anywhere, all bit depths",
  "predictor_test_1 uses one short sequence in the 4-pixel version at 12 bits; the 1/2-pixel version, rows and gaps are untested.",
  [M + "predictor_p1_c4_px4.py", M + "predictor_p1_c4_pix1_2.py"],
  [("neighbour buffers", "buffs, lbuffs in both predictor classes")])
p("C09", "Differences are classified exactly as lossless JPEG prescribes",
  "For every pixel/prediction pair the difference stages produce the exact difference (modulo 65536 at 16 bits), and the "
  "normalisation stage its category - the number of bits of its magnitude - and its additional bits, the value itself or, if "
  "negative, the value minus one in that many bits. This holds for every difference at every bit depth and every lane.",
  ["inputs", "configurations"], "all differences in range, bit depths 2..16, 1..4 lanes",
  "diff_test_1 and normalize_test_1 sample some differences at 16 bits only.",
  [M + "difference.py", M + "normalize.py"],
  [("difference", "difference.Difference.elaborate"), ("category", "normalize.build_neg_tree, build_pos_tree")])
p("C10", "The coding stages emit the Huffman code and extra bits, in pixel order",
  "The coding stage emits, for each category and additional bits, the category's Huffman code followed by exactly that many "
  "bits (none for category 16), with the exact length, for every lane and bit depth; the default code table is prefix-free "
  "and covers every category of the bit depth. The merge stage concatenates the lanes' codes in pixel order with the summed "
  "length, carrying the valid and end flags along, for any number of lanes.",
  ["inputs", "configurations"], "all categories and values, all bit depths, 1..8 lanes, all code lengths",
  "encode_test_1 does not run in the baseline and merge_test_1 covers 2..4 sample vectors at fixed lengths.",
  [M + "encode.py", M + "merge.py"],
  [("code table", "encode.get_ssss, init_huff_table"), ("coder", "encode.SingleEncoder"), ("merge tree", "merge.Merge, SingleMerger")])
p("C11", "A Huffman table programmed over AXI-lite is the table that is used",
  "After any sequence of AXI-lite writes to the code table entries - whole entries or single bytes and halves, in any order - "
  "the next frame is coded with exactly the written table and the table reads back as written; entries and bytes that were "
  "not written keep their value.",
  ["inputs", "histories", "configurations"], "all write sequences, byte strobes, tables and bit depths 2..16",
  "core_axi_lite_test_1 asserts nothing; no test programs a table and encodes.",
  [M + "core_axi_lite.py", M + "encode.py", M + "integration_1.py"],
  [("table port", "core_axi_lite write_to_ssss/read_ssss"), ("dual-port table", "encode.Encode extern ports")])
p("C12", "Splitting long code groups preserves every bit and the end mark",
  "The splitter turns each input chunk of n valid bits into chunks of at most the configured width whose concatenation is that "
  "chunk's bits in order, forwards short chunks unchanged, puts the end mark on the last piece of an end-marked chunk only, "
  "and consumes each input exactly once. After the downstream full flag rises it emits at most the slack the next FIFO reserves, "
  "and it resumes when the flag drops.",
  ["inputs", "schedules", "configurations"], "all chunk lengths and contents, all availability and full-flag schedules, all widths",
  "Only exercised by an integration test at one width with no back-pressure.",
  [M + "converter.py", M + "converter_fifo.py"],
  [("splitter", "converter.Converter.elaborate")])
p("C13", "The bit packer emits exactly the concatenated bits in fixed-size words",
  "For every sequence of variable-length chunks the packer outputs their concatenation, most significant bit first, cut into words "
  "of the configured size, the final word left-aligned and zero-padded and flagged end exactly once. It never loses, repeats or "
  "reorders bits under any availability and stall schedule, at any supported buffer size down to input plus output width.",
  ["inputs", "schedules", "configurations"], "all chunk length sequences, all schedules, all supported widths",
  "Only exercised by one integration test at one configuration.",
  [M + "vbits_to_cbits.py"],
  [("input side", "vbits_to_cbits.InputHandler"), ("output side", "vbits_to_cbits.OutputHandler")])
p("C14", "The FIFOs keep order and signal full/empty early enough",
  "Each FIFO stage delivers exactly the items written, in order, with code, length and end flag unchanged. Its early-full flag is "
  "raised while at least the slack its producer needs is still free and falls again once drained; the DMA FIFO's 16-entry "
  "thresholds are true only if 16 items can really be read or written.",
  ["schedules", "inputs", "configurations"], "all read/write interleavings, all supported depths and widths",
  "The one FIFO test does not run in the baseline and checks a short fill.",
  [M + "lj92_pipeline_fifo.py", M + "converter_fifo.py", M + "axihp_fifo.py"],
  [("early full", "close_full"), ("thresholds", "axihp_fifo readable16, writable16")])
p("C15", "The core's AXI-lite registers behave as a register file",
  "Frame height, width and cycle limit written over AXI-lite take effect on the core and read back as written, byte strobes "
  "update only the selected bytes, addresses select the documented registers and table entries, unmapped addresses answer with "
  "a decode error and debug counters are read-only. No access changes any other register.",
  ["histories", "inputs", "configurations"], "all sequences of reads and writes, addresses, data and strobes, bit depths, debug on/off",
  "core_axi_lite_test_1 performs one read without checking its data.",
  [M + "core_axi_lite.py", M + "debug_module.py"],
  [("decode", "ssss_enable, hw_enable, debug_enable in CoreAxiLite"), ("registers", "read_hw, write_to_hw, read_debug")])
p("C16", "Each AXI-lite request gets exactly one response, in order",
  "Both AXI-lite slaves accept each address and each write datum exactly once and answer each accepted request with exactly one "
  "response carrying the data and code of that request, whatever the timing of the master's valid signals, also for simultaneous "
  "reads and writes. Neither slave ever hangs: while the master keeps its ready asserted, a request with no other request ahead of it (reads are "
  "served before writes) is answered within a bounded number of cycles.",
  ["schedules", "inputs"], "all timings of address/data valid, all request interleavings; masters that keep ready asserted while a response is outstanding",
  "The single test performs one transaction with everything asserted.",
  [M + "core_axi_lite.py", M + "dma_axi_lite.py"],
  [("slave FSM", "core_axi_lite.CoreAxiLite.elaborate, dma_axi_lite.DMAAxiLite.elaborate")])
p("C17", "The DMA control registers hold what the host wrote and report status",
  "Read address, write address and start register keep exactly the bytes the host wrote and drive the engines with them; the nine "
  "status words read back the live values in their documented order, reject writes with an error and are not changed by them; "
  "addresses outside the register block answer with a decode error.",
  ["histories", "inputs"], "all access sequences, strobes, data",
  "No test covers the module.", [M + "dma_axi_lite.py"],
  [("registers", "read_basic, write_to_basic")])
p("C18", "The AXI read engine fetches every requested burst exactly once",
  "For every behaviour of a legal AXI slave and of the buffer behind it, each address taken from the address source is issued "
  "exactly once as a 16-beat incrementing burst with valid held until accepted, every data beat is delivered once and in order, "
  "no beat is accepted while the buffer lacks room, at most eight bursts are outstanding, and the idle and error flags are exact.",
  ["schedules", "inputs"], "all ready/valid/last timings, buffer-full and enable schedules",
  "No test covers the module.", [M + "axihp_reader.py"],
  [("address/data pipelines", "axihp_reader.AxiHPReader.elaborate"), ("accounting", "active counter")])
p("C19", "The AXI write engine writes complete 16-beat bursts, each beat once",
  "For every behaviour of a legal AXI slave, each address taken is issued exactly once, every burst consists of exactly 16 data "
  "beats with last on the sixteenth only, each word taken from the buffer is written exactly once in order, valid and data stay "
  "stable until accepted, and the in-flight, idle and error indications are exact.",
  ["schedules", "inputs"], "all ready/response timings, data availability and enable schedules",
  "No test covers the module.", [M + "axihp_writer.py"],
  [("data pipeline", "wlast circuit"), ("accounting", "active, unconf counters")])
p("C20", "Generated burst addresses are consecutive and none is skipped",
  "The address generator presents the configured start address until it is first taken and then start + k x step for the k-th "
  "address, each exactly once, whatever the timing of the take signal.",
  ["schedules", "inputs", "configurations"], "all start addresses, steps and take timings (first take at least one cycle after the start address is set)",
  "No test covers the module.", [M + "address_generator.py"],
  [("counter", "address_generator.AddressGenerator.elaborate")])
p("C21", "Width converters repack the stream without losing or reordering bits",
  "The 16-to-64, 16-to-40, 64-to-32 and 64-to-2x24 converters output exactly the bits of the accepted input words, in order and "
  "most significant first, under every input-gap and output-stall schedule; a presented word stays stable until taken and the "
  "converters never deadlock.",
  ["schedules", "inputs"], "all data, all valid/busy interleavings",
  "No test covers any of them.", [M + "b16_b64.py", M + "b16_b40.py", M + "b64_b32.py", M + "b64_b32_2.py"],
  [("double buffering", "B16B64, B16B40"), ("halving", "B64B32, B64B32_2")])
p("C22", "Sensor words reach the encoder as the right pixels in the right order",
  "Each top-level wrapper feeds the encoder the 12-bit pixels of its input stream in order - from the documented bit positions of "
  "32-, 48-, 64-bit words or 16-bit LVDS/FIFO words - and its stream output equals that of the bare encoder for those pixels, with "
  "ready/valid/last handshakes that transfer each word exactly once. The memory-to-memory design fetches each source word exactly once "
  "from consecutive addresses and stores the output of all frames at consecutive addresses; only an incomplete last burst stays inside.",
  ["inputs", "schedules", "configurations"], "all pixel data, gaps and stalls, all wrappers",
  "No test covers any wrapper.",
  [M + "beta_integration_axistream.py", M + "micro_integration_axistream.py", M + "beta_integration_fifo_axistream.py",
   M + "beta_integration_fifo_lvds.py", M + "integration_3_axi_stream.py", M + "beta_integration_fullaxi.py"],
  [("pixel lanes", "pixel_in1/pixel_in2 slices"), ("AXI-stream mapping", "tready/tvalid/tlast wiring")])
p("C23", "liblj92: decode(encode(image)) returns the identical image",
  "For every image and tile geometry lj92_encode accepts, the produced file is a standard lossless JPEG (every header field as the "
  "standard asks, a valid code table without an all-ones code, end marker), parses, reports the same width, height and bit depth, "
  "and decodes to exactly the samples that were encoded - including row stride (skip) handling, delinearization on encode and "
  "linearization on decode. Nothing outside the given tiles and buffers is read or written, and all memory is released.",
  ["inputs", "configurations"], "all samples, sizes, bit depths 2..16, strides and lookup tables",
  "The C library has no tests.", ["liblj92/lj92.c", "liblj92/lj92.h"],
  [("encoder", "frequencyScan, createEncodeTable, writeBody"), ("decoder", "parseScan, parsePred6, nextdiff")])
p("C24", "liblj92 decodes every valid lossless-JPEG scan to its exact samples",
  "For every standard lossless-JPEG stream (predictors 1 to 7, one or more interleaved components sharing any valid "
  "Huffman table, stuffed bytes, skippable segments) lj92_decode of whole rows writes exactly the sample values the standard defines; a "
  "sample outside a given linearization table is reported as corrupt data instead. lj92_close releases all memory.",
  ["inputs", "configurations"], "all images, predictors 1..7, 1..4 components, valid Huffman tables, bit depths 2..16",
  "The C library has no tests.", ["liblj92/lj92.c"],
  [("header parsing", "parseHuff, parseSof3, parseBlock, find"), ("prediction", "parseScan, parsePred6")])
p("C25", "The core's stream, with a standard header, is decoded exactly by liblj92",
  "The stuffed output of the encoder design, stripped of its markers and wrapped in a standard header carrying the core's "
  "Huffman table, four components and predictor 1, decodes with liblj92 to exactly the pixels fed to the core.",
  ["inputs", "configurations", "schedules"], "all frames and stall schedules of the complete encoder designs",
  "No test combines hardware and library.",
  [M + "beta_integration.py", "liblj92/lj92.c", M + "encode.py"],
  [("code table agreement", "encode.get_ssss vs DHT"), ("prediction agreement", "predictor vs lj92 parseScan")])
p("C26", "The host driver reads and writes exactly the registers it names",
  "Each accessor of the board software accesses exactly the documented device register with the documented bit layout: setting "
  "height, width or cycle limit and reading it back returns the value and leaves the other fields unchanged, and the code table "
  "report covers every category of the bit depth with its code and length. The DMA accessors write each channel's control, address "
  "and length registers only, and synchronisation returns exactly when the transfer is reported both complete and idle.",
  ["inputs", "histories"], "all values, all call sequences",
  "The board software has no tests.", ["software/src"],
  [("accessors", "core_axi_lite.cpp"), ("dma programming", "software/src dma classes")])

p("C27", "The board program's verdict tells whether the core's output is right",
  "The board test program lays a packed 12-bit picture out in memory exactly as the core's bus wrapper expects its pixels, programs core "
  "and DMA before starting them, looks at the result only after both transfers are complete, and reports 'Validation succeeded.' exactly "
  "when every coded byte in memory equals the reference file, and the first marker, the normal or forced end marker and its offset "
  "exactly as they are in memory.",
  ["inputs", "histories"], "all pictures, reference files of any (also odd) length, memory contents",
  "The board program has no tests and its picture loop covers 4096x3072 pixels.", ["software/src/xilinx_test.cpp"],
  [("layout", "re_order_set_raw12_64bits/_32bits, re_order_lj92"), ("verdicts", "check_first_marker, check_last_marker, validate"),
   ("sequence", "main")])

p("C28", "The stand-alone building blocks do exactly what they say",
  "The AXI3-to-AXI-lite bridge passes every request, datum and answer on unchanged and in the same cycle, and answers with the id of the "
  "outstanding request as a single last beat. Auto-reset raises its reset in the cycle after the transfer of an end-marked word and at no "
  "other time, and keeps it until it is reset. The delayer raises its output exactly the configured number of cycles after its input "
  "first rises and keeps it. The reverser shows the bits in reverse order, in the same cycle or one cycle later.",
  ["inputs", "histories"], "all inputs in all reachable states; one bridge transaction at a time",
  "Only the delayer has a test, of a single delay; auto-reset decides when the core restarts.",
  ["migen_src/axi_lite.py", "migen_src/auto_reset.py", "migen_src/delayer.py", "migen_src/reverser.py"],
  [("bridge", "AxiLite.elaborate"), ("restart", "AutoReset"), ("delay", "Delayer"), ("reverse", "Reverser")])

p("C29", "The generated Verilog behaves as the modules it is generated from",
  "For every source file with a top level, `generate_verilog.py` (that is, `python migen_src/FILE.py generate`) writes a Verilog module "
  "in the configuration the file ships that a user can drive through its ports alone: it has a clock and reset port for "
  "every domain it uses and a port for every input and output of the design, and with these it behaves exactly "
  "as the module does according to the other properties: the complete designs and partial pipelines code frames, the stages compute their "
  "tables, buffers and converters keep their streams, the register files and engines keep their protocols.",
  ["inputs", "schedules", "configurations"],
  "every file's top level as generated, all inputs through its ports, all schedules of valid, busy, bursts and resets",
  "The tests simulate the Python objects; the Verilog, the ports and the configuration in each file's main block, which are what reaches the "
  "FPGA, are never looked at.",
  ["generate_verilog.py", M + "beta_integration.py", M + "micro_integration.py", M + "clk_domains.py", M + "integration_1.py",
   M + "integration_2.py", M + "integration_3.py"],
  [("ports and configuration", "`main(...)` and `config` in each file's `__main__` block"), ("port lists", "self.ios of each class")])

p("C30", "The pre-generated Verilog files behave as the modules they stand for",
  "Each file of verilog_src, which the README offers for direct use, is a complete Verilog module for the configuration it was generated "
  "for: it has the ports of the current source's top level, and driven through them it behaves exactly as the module does "
  "according to the other properties (the beta and micro designs code frames, wrappers deliver them, stages, buffers, converters, "
  "register files and engines keep their tables, streams and protocols).",
  ["inputs", "schedules"],
  "every committed Verilog file, all inputs through its ports, all schedules of valid, busy, bursts and resets",
  "No test reads these files; they were generated once and keep defects that the sources no longer have.",
  ["verilog_src/beta_integration.v", "verilog_src/micro_integration.v", "verilog_src/beta_integration_fullaxi.v", "README.md"],
  [("pre-generated designs", "verilog_src/*.v"), ("offered for use", "README.md, Usage")])

p("C31", "The debug counters of the complete designs are exact",
  "With AXI-lite and axi_lite_debug switched on, debug registers 1 to 8 of both complete designs count exactly the cycles in which valid_in "
  "is 0, valid_in is 1, valid_out is 0, valid_out is 1, nready is 1, nready is 0, busy_in is 1 and busy_in is 0. Counting starts in the cycle "
  "after pixels were first offered (in the beta design in every frame anew), leaves out the cycles in which the last word (end) is shown, and "
  "is never cleared by the automatic restart between frames. A read over AXI-lite returns the count of a moment a constant few cycles back, "
  "whatever the core is doing, and is never refused.",
  ["schedules", "histories"],
  "all gaps and stalls, several frames in a row, complete and cut by the cycle limit, reads at any moment",
  "No test switches the debug option on.",
  [M + "debug_module.py", M + "beta_integration.py", M + "micro_integration.py", M + "core_axi_lite.py"],
  [("conditions", "debug_en in BetaIntegration/MicroIntegration.elaborate"), ("counters", "DebugModule"), ("registers", "CoreAxiLite")])

p("C32", "The complete designs work in the other configurations they offer",
  "Beta and micro designs built with other legal settings - AXI-lite on or off (with its ports present when on), debug counters on or off, "
  "pixels of fewer bits, other converter widths and buffer depths - still code every frame exactly as they do as shipped: start marker, "
  "stuffed code words, end marker, nothing else, under all gaps and stalls, one frame after the other.",
  ["configurations", "inputs", "schedules"],
  "the legal entries of the config dictionaries of beta_integration.py and micro_integration.py, all frames, gaps and stalls",
  "The designs have no test of their own in any configuration, and the integration tests use one or two.",
  [M + "beta_integration.py", M + "micro_integration.py", M + "integration_3.py", M + "lj92_pipeline_fifo.py", M + "converter_fifo.py",
   M + "vbits_to_cbits.py", M + "config.py"],
  [("configuration", "config of BetaIntegration/MicroIntegration"), ("ports", "self.ios")])

p("C33", "liblj92 survives damaged files and reports what it cannot decode",
  "For every sequence of bytes, lj92_open and lj92_decode return, access nothing outside the given file and a target of the reported size, "
  "depend on no uninitialised memory and release what they took. Where the headers and the whole scan are still readable the samples are "
  "decoded as the standard defines; a scan that ends early (end of file before the last sample) or holds a code that is not in the table "
  "is reported with a status other than LJ92_ERROR_NONE.",
  ["inputs", "fault_sequences"], "truncation at every byte, every header byte at extreme values, random damage, lost, repeated and reordered segments",
  "The C library has no tests.", ["liblj92/lj92.c", "liblj92/lj92.h"],
  [("segments", "find, parseImage, parseHuff, parseSof3, parseBlock"), ("scan", "parseScan, parsePred6, nextdiff, exhausted")])

p("C34", "The memory-to-memory design stays in its windows and reports true progress",
  "Used as a bus master, the full-AXI design issues no burst before the host has written all ones to the start register, asks for bursts of 16 "
  "words at consecutive addresses from the read and the write address it was given, never for more than one frame of reads (196608 bursts) and "
  "never for more than 16 MiB of writes (131072 bursts), never has more than 8 bursts of either kind or 15 unconfirmed writes under way, moves "
  "only words it has asked for with all byte lanes enabled and the last flag on every sixteenth, finishes what it has asked for, and asks for at "
  "most one burst more in each direction once the host has changed the start register. Its status registers give the current addresses, the numbers of bursts, the bursts under "
  "way, and the inactive and end flags as they are at the moment of the read.",
  ["schedules", "histories", "inputs"],
  "memories that pause on any channel, addresses up to the end of the address space, output of more than 16 MiB, stops at any moment, status reads at any time",
  "The full-AXI design has no test.",
  [M + "beta_integration_fullaxi.py", M + "dma_axi_lite.py", M + "address_generator.py", M + "axihp_reader.py", M + "axihp_writer.py"],
  [("limits", "read_end and write_end in BetaIntegrationFullAxi.elaborate"), ("status", "dma_axi_lite.in1 to in5"), ("start", "axihp_reader.enable, axihp_writer.enable")])

p("C35", "The board software loads and maps exactly, and stops at a failed request",
  "Loading a file of any size gives exactly its bytes, followed by at least 128 zero bytes that belong to the buffer; an empty, missing or unreadable "
  "file is refused. Physical memory is reached through /dev/mem opened for reading and writing and synchronous access, mapped shared, readable and "
  "writable, at the address asked for and with at least the length asked for (for the register blocks: all their registers), and the device is "
  "closed with the object that opened it. Wrong arguments (a bit depth outside 2 to 16, a wrong number of program arguments, a raw picture that is too "
  "short) are refused. When any of these requests fails, at whichever point of the program, nothing else is touched and the program ends with a failure status.",
  ["inputs", "fault_sequences"],
  "files of any size and content, any addresses and lengths, any request failing at any point of the program",
  "The board software has no test.",
  ["software/src/tools.cpp", "software/src/mmap_handler.cpp", "software/src/core_axi_lite.cpp", "software/src/xilinx_dma.cpp", "software/src/xilinx_test.cpp"],
  [("files", "load_file"), ("mapping", "MMapHandler"), ("stop", "assert_term")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
