#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run to regenerate it.
import json,os
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Decoded pixels do not depend on scheduling or parallelism",
  "For a given input, a decode produces bit-identical pixels and the same success-or-error outcome for every goroutine interleaving, every configured parallelism limit and every CPU count of the host. Work that is split over groups, low-frequency groups or row ranges is never lost, done twice with different effect, or placed elsewhere because of who ran first.",
  ["schedules","configurations"],"all interleavings of the decoder's worker goroutines, parallelism limits from 1 to far more than there are groups or rows, and host CPU counts",
  "Tests decode each fixture once or twice with one parallelism setting under whatever interleaving the Go runtime happens to choose; none compares results between schedules or settings.",
  ["frame/Frame.go","frame/PassGroup.go","frame/LFGroup.go","frame/HFCoefficients.go","options/jxl_options.go"],
  [("WaitGroup/semaphore/errChan around LF group decode","frame/Frame.go decodeLFGroups"),("worker pool over pass groups","frame/Frame.go decodePassGroupsConcurrent/startWorker"),("row-range split of Gaborish, EPF, upsampling","frame/Frame.go performGabConvolution/performEdgePreservingFilter/performUpsampling")],
  ["core JXLDecoder.Decode result buffers"])
p("C02","Decoding is free of data races",
  "No two goroutines ever access the same memory without synchronisation when at least one of them writes, neither inside a single decode with any parallelism limit nor between decodes, header queries and exports of different images running at the same time in one process.",
  ["schedules","configurations","inputs"],"all interleavings of one decode's workers and of up to four concurrent callers, over image features and parallelism limits",
  "The suite is not run under the race detector, and a race detector only sees the interleavings and worker counts that happened to occur.",
  ["frame/Frame.go","util/buffer_pool.go","util/MathsHelper.go","entropy/EntropyStream.go","frame/HFGlobal.go","core/jxl_codestream_decoder.go"],
  [("per-group copies of the entropy decoder state","entropy/EntropyStream.go LoadWithStream"),("disjoint output ranges per worker","frame/Frame.go"),("locks and atomics in the shared buffer pools","util/buffer_pool.go")],
  ["happens-before race reports of the instrumented decoder"])
p("C03","Concurrent decodes in one process do not affect one another",
  "When several callers decode, query or export images at the same time in one process, each obtains exactly the result it would have obtained alone, including when some of the others fail on bad input or on I/O errors.",
  ["schedules","histories","fault_sequences"],"all interleavings of up to four callers with different or equal inputs, some of which fail",
  "Tests decode one image at a time; no test runs two decoders concurrently, although recycled buffers and lookup tables are process-wide.",
  ["util/buffer_pool.go","frame/Frame.go","frame/HFCoefficients.go","frame/HFGlobal.go","core/jxl_codestream_decoder.go"],
  [("process-wide recycled matrices owned by one holder at a time","util/buffer_pool.go"),("no mutable package state outside the pools","frame, util, colour, bundle")],
  ["results of each caller"])
p("C04","A decode does not depend on what the process decoded before",
  "The result of decoding an input is the same as in a fresh process whatever was decoded, queried or exported earlier, whether those operations succeeded, failed half-way or met I/O errors, and whatever the state of recycled buffers. No pixels, tables or parameters of an earlier image ever show up in a later one.",
  ["histories","fault_sequences"],"all sequences of earlier successful, failing and fault-interrupted operations, and all legal behaviours of the recycling pools (hit, miss, drop, any order)",
  "Tests compare at most one decode of each file per process and never after a failed decode; recycled-buffer state differs between runs and is not controlled.",
  ["util/buffer_pool.go","frame/Frame.go","frame/HFCoefficients.go","frame/HFGlobal.go","frame/PassGroup.go"],
  [("clear-on-return and ownership rules of the pools","util/buffer_pool.go"),("release of coefficients and weights at frame end","frame/HFCoefficients.go, frame/HFGlobal.go Release")],
  ["result of the last decode of each history"])
p("C05","A returned image is stable and exporting it changes nothing",
  "Once a decode has returned an image, its pixels never change because of later decodes, header queries or buffer recycling. Converting it to a standard image, extracting a channel and writing it as PNG or PFM give the same bytes every time, in any order and from several goroutines at once, and leave the image's own pixel data as it was.",
  ["histories","schedules"],"all orders and interleavings of exports of one image, mixed with later decodes, header queries and failing operations",
  "Tests export an image at most once and never look at the image again afterwards or after another decode.",
  ["core/jxl_image.go","core/png_writer.go","core/pfm_writer.go","image/imagebuffer.go","util/buffer_pool.go","frame/Frame.go"],
  [("copying of channel buffers before conversion","core/jxl_image.go getBuffer"),("frame output buffers never recycled","frame/Frame.go, util/buffer_pool.go")],
  ["digest of the image's channel data, bytes of each export"])
p("C06","The result does not depend on how the source delivers its bytes",
  "Decoding or querying an image gives the same result however the source splits the data into reads: single bytes, arbitrary short reads, reads that return no bytes, and a last read that returns data together with end-of-file. This holds for bare codestreams and for container files with any box layout.",
  ["fault_sequences","inputs"],"all legal behaviours of a seekable byte source that delivers the same bytes",
  "Every test reads from an in-memory reader or local file that always fills the buffer, so a short or empty read is never seen.",
  ["jxlio/bitreader.go","core/read_jxl_boxes.go","frame/Frame.go","bundle/image_header.go"],
  [("byte and bulk reads of the bit reader","jxlio/bitreader.go readBit/ReadBits/ReadBytesToBuffer/SkipBits"),("section reads","frame/Frame.go readBuffer/setupBitReaders")],
  ["decode result; bytes consumed from the simulated source"])
p("C07","Every error of the source is reported by the operation that hit it",
  "If a read or seek on the source fails during a decode or a header query, the operation returns a non-nil error and no image, whatever the instant and the number of bytes delivered with the error, unless it had already obtained all it needed and then its result is the correct one. It never panics, hangs, returns neither image nor error, or passes off a wrong image as good; a later attempt on a healthy source succeeds.",
  ["fault_sequences","crash_points","histories"],"an error (transient or permanent, with or without partial data) at every read and seek position of an operation, plus a retry afterwards",
  "No test injects an error from the source after the first bytes; fault positions are as many as there are reads.",
  ["jxlio/bitreader.go","core/read_jxl_boxes.go","core/jxl_codestream_decoder.go","bundle/image_header.go","frame/Frame.go","frame/MATree.go","entropy/EntropyStream.go","reader.go"],
  [("error returns of every reading function","jxlio, bundle, entropy, frame, core"),("end-of-data probe before parsing","core/jxl_codestream_decoder.go atEnd")],
  ["outcome of the operation against the faults that fired"])
p("C08","A truncated file is never accepted as a different image",
  "If the source ends before the complete file, at whatever byte, a decode either reports an error or, when the missing bytes carry nothing it needs, returns exactly the image of the complete file; a header query likewise returns an error or the right header. It never panics, hangs, returns neither image nor error, or returns an image with missing parts.",
  ["crash_points","inputs"],"every truncation point of every corpus and generated file, with every read chunking",
  "Tests hold a few hand-written truncated headers; truncation points are as many as there are bytes.",
  ["jxlio/bitreader.go","core/read_jxl_boxes.go","core/jxl_codestream_decoder.go","frame/Frame.go","frame/MATree.go","entropy/EntropyStream.go"],
  [("end-of-file errors of the bit reader","jxlio/bitreader.go"),("section lengths in the table of contents","frame/Frame.go readBuffer")],
  ["outcome of the operation per truncation point"])
p("C09","Damaged bytes never bring the process down",
  "When stored bytes of a file are flipped, zeroed, overwritten, duplicated or dropped, decoding it or querying its header returns an error or some image, as long as the sizes its headers declare fit in memory; it never panics into the caller, never kills the process from a background goroutine and never deadlocks. Valid files decoded afterwards or at the same time in that process still give correct results.",
  ["inputs","fault_sequences","schedules"],"all damage patterns to stored bytes over corpus and generated files, under all interleavings of the decoder's workers",
  "Tests contain a handful of malformed headers; damage inside group data, where background goroutines meet it, is not tested at all.",
  ["core/jxl_decoder.go","frame/Frame.go","frame/HFCoefficients.go","frame/ModularChannel.go","frame/ModularStream.go","entropy/ANSSymbolDistribution.go","entropy/PrefixSymbolDistribution.go","bundle/image_header.go","core/read_jxl_boxes.go"],
  [("validation of parsed values","bundle, frame, entropy"),("error paths of worker goroutines","frame/Frame.go")],
  ["outcome of the operation, state of the process"])
p("C10","A failing part of a frame fails the whole decode",
  "If any independently stored part of a frame, such as a low-frequency group or a pass group, is torn (cut short) so that decoding it fails, the decode returns an error: never an image with that part blank, stale or partly filled, and never a crash or a hang. This holds whichever and however many parts fail and in whatever order the workers meet the failures.",
  ["fault_sequences","schedules"],"any subset of sections torn at any length, under all interleavings and parallelism limits",
  "Tests check single reading functions with fakes; none lets a worker goroutine of a real decode fail, let alone several in different orders.",
  ["frame/Frame.go","frame/PassGroup.go","frame/LFGroup.go","frame/ModularStream.go"],
  [("error channel of LF group workers","frame/Frame.go decodeLFGroups"),("error handling of pass group workers","frame/Frame.go startWorker/doProcessing"),("error channel of inverse transform workers","frame/Frame.go decodePassGroupsConcurrent")],
  ["outcome of the decode"])
p("C11","The file layout around the codestream does not change the image",
  "A codestream gives the same pixels bare or wrapped in a container, in one complete-codestream box or as partial-codestream boxes split at arbitrary points, between any number of other boxes of any size, with normal, extended or to-end-of-file box lengths, and with the sections of a frame stored in any permuted order. Inconsistent box lengths give an error, never a panic or an endless read.",
  ["inputs","fault_sequences"],"all container layouts and section orders around a given codestream, with all read chunkings",
  "The fixtures contain only a few container layouts, all read with full reads, and only identity section order.",
  ["core/read_jxl_boxes.go","core/jxl_codestream_decoder.go","frame/Frame.go","jxlio/bitreader.go"],
  [("box scan and seek to codestream","core/read_jxl_boxes.go, core/jxl_codestream_decoder.go"),("section table and permutation","frame/Frame.go ReadTOC/getBitreader")],
  ["decode result per layout"])
p("C12","Header queries agree with the decode",
  "For every file that decodes, a header query on the same bytes succeeds and reports the width and height the decode delivers, whatever the container layout and the way the source delivers its bytes; and a query never depends on, or alters, decodes running before it or at the same time.",
  ["inputs","fault_sequences","histories"],"all layouts, chunkings, histories and concurrent operations around a query",
  "Tests query one or two headers directly; none relates a query to the decode of the same source.",
  ["reader.go","core/jxl_codestream_decoder.go","core/read_jxl_boxes.go","bundle/image_header.go"],
  [("shared header parsing","bundle.ParseImageHeader"),("box selection","core GetImageHeader")],
  ["DecodeConfig/GetImageHeader result against decode result"])
p("C13","A recycled buffer has one owner, the right shape and only zeros",
  "Every matrix obtained from the shared buffer pools has the requested dimensions, contains only zeros and shares no memory with any matrix some other holder has obtained and not yet returned, whatever the interleaving of callers and whatever the pool keeps or drops. Every request for a non-empty matrix is counted exactly once in the pool metrics, as a hit if the memory was recycled and as a miss if it was not.",
  ["schedules","histories"],"all interleavings of up to six callers getting, filling and returning matrices of mixed shapes and element types, and all legal behaviours of the underlying pool",
  "One test starts ten goroutines on one shape under an uncontrolled schedule and checks nothing about sharing; the runtime decides what the pool keeps.",
  ["util/buffer_pool.go"],
  [("read-lock, double-checked create, clear on return","util/buffer_pool.go")],
  ["contents, shape and backing memory of each matrix obtained; pool metrics"])
p("C14","A failing or short destination is reported; success means a complete file",
  "When writing an image as PNG or PFM, any error of the destination at any write is returned to the caller. When writing returns success the destination holds one complete, well-formed file with the image's dimensions whose samples are those of the image, however earlier writes failed; writing again after a failure yields the same bytes as a first write.",
  ["fault_sequences","crash_points","histories"],"an error at every write position (with any part of the data accepted), full destinations, and repetition after failure",
  "Tests write one chunk kind to an in-memory buffer; no destination ever fails.",
  ["core/png_writer.go","core/pfm_writer.go","core/jxl_image.go"],
  [("error return of each write","core/png_writer.go WritePNG, core/pfm_writer.go WritePFM"),("chunk lengths and checksums","core/png_writer.go")],
  ["returned error and the bytes accepted by the simulated destination"])
p("C15","Every operation ends and leaves nothing running",
  "A decode, header query or export finishes within a number of steps bounded by its input, its output and the sizes its headers declare, under every interleaving and every fault or damage met, and when it returns, with success or failure, no goroutine it started is still running or blocked.",
  ["schedules","fault_sequences","inputs"],"all interleavings including unfair ones, all source faults, truncations, torn sections and damage, all parallelism limits",
  "Tests would only hang or leak silently; no test counts goroutines, and the blocking paths need particular orders of failures.",
  ["frame/Frame.go","core/jxl_codestream_decoder.go","core/read_jxl_boxes.go","jxlio/bitreader.go"],
  [("buffered error channels, semaphores, closed work channels","frame/Frame.go"),("loops that end on end-of-data","core/read_jxl_boxes.go, jxlio/bitreader.go, frame, entropy")],
  ["simulated step count, set of live simulated goroutines after return"])
p("C16","The bit reader behaves like a plain bit string",
  "Any sequence of bit, byte, bulk, peek, skip, align, seek and variable-length reads returns the values and positions that the same sequence gives on an ideal in-memory bit string, however the source chunks its data. A peek never moves the position, even when it fails; an operation that cannot be satisfied returns an error, never invented bits.",
  ["histories","fault_sequences"],"all sequences of operations over all contents, chunkings, source errors and end-of-data positions",
  "Tests call single operations on short full-read buffers; sequences, chunking and errors in mid-operation are not covered.",
  ["jxlio/bitreader.go"],
  [("current byte, bit index and bit counter","jxlio/bitreader.go BitStreamReader")],
  ["values, errors and bit counts of each call against the reference model"])
p("C17","The parallelism limit is honoured",
  "A decode with a parallelism limit of N never has more than N background goroutines doing decoding work at the same time, for every N from 1 upwards, whatever the schedule, the image and the host's CPU count.",
  ["schedules","configurations"],"all interleavings, limits from 1 to 64, host CPU counts from 1 to 128",
  "No test observes how many goroutines work at once, and the number seen depends on the schedule.",
  ["options/jxl_options.go","frame/Frame.go"],
  [("option copying","options/jxl_options.go NewJXLOptions"),("semaphores and worker counts","frame/Frame.go")],
  ["number of simulated goroutines that are past their start and neither finished nor waiting"])
p("C18","Losslessly coded images come back exactly, however they were split",
  "An image coded without loss decodes to exactly the samples that were encoded, in every channel, whatever its division into groups, low-frequency groups, passes and frames, whatever reversible transforms, orientation and extra channels it uses, and whatever parallelism limit and schedule the decode runs under. No group, row, column or channel is missing, displaced, swapped or taken from another.",
  ["inputs","schedules","configurations"],"all image sizes, channel counts, bit depths, group sizes, pass counts, transforms and frame sequences of losslessly coded images, under all interleavings and parallelism limits",
  "The fixtures are a handful of encoder outputs, mostly compared with stored decoder output; sizes around group boundaries, multi-pass and transform combinations are not among them.",
  ["frame/Frame.go","frame/ModularStream.go","frame/ModularChannel.go","frame/PassGroup.go","frame/LFGroup.go","core/jxl_codestream_decoder.go","entropy","util"],
  [("group and channel geometry","frame/Frame.go, frame/LFGroup.go, frame/PassGroup.go"),("copying of group results into the frame","frame/Frame.go decodeLFGroups/decodePassGroups"),("inverse modular transforms","frame/ModularStream.go, frame/ModularChannel.go"),("frame composition, orientation","core/jxl_codestream_decoder.go")],
  ["decoded samples against the samples handed to the built-in encoder of the simulator"])
p("C19","The parts of a lossy image are independent and land in their places",
  "In a lossy (VarDCT) image every group shows exactly the samples that its own data yield when that group is stored as an image of its own, away from the reach of filters across group borders: whatever the number of groups and low-frequency groups, transform sizes, coefficient orders, context sets, extra channels and section order, and whatever parallelism limit, schedule and earlier decode. No group is missing, displaced, or decoded with another group's tables, contexts, coefficients or colour factors.",
  ["inputs","schedules","configurations"],"all sizes, block structures, context sets and section orders of lossy images, under all interleavings and parallelism limits",
  "The lossy fixtures are few encoder outputs compared with stored results of this decoder or within tolerances; none relates a group to its surroundings.",
  ["frame/Frame.go","frame/LFGroup.go","frame/lfcoefficients.go","frame/hfmetadata.go","frame/HFGlobal.go","frame/HFPass.go","frame/HFCoefficients.go","frame/PassGroup.go","entropy","util"],
  [("group and LF group geometry","frame/Frame.go, frame/hfmetadata.go placeBlock"),("coefficient contexts and scratch","frame/HFCoefficients.go"),("inverse transforms into the frame","frame/PassGroup.go invertVarDCT"),("row ranges of the filters","frame/Frame.go")],
  ["decoded samples of the whole image against those of each of its groups as an image"])
p("C20","Lossy, filtered and upsampled images show what their bitstream describes",
  "Every sample of a decoded lossy (VarDCT) image, and of a losslessly coded image with restoration filters or upsampling, equals within floating-point tolerance what the bitstream describes: entropy-coded coefficients in their order and context, default and stored quantisation tables, quantiser scales and biases, every kind and size of inverse transform, chroma from luma, adaptive smoothing of the low frequencies, Gaborish and edge-preserving filters with default or stored parameters, chroma and frame upsampling with default or stored weights, mirroring at the true edge of the frame, YCbCr and XYB conversion with default or stored matrices, biases, primaries, white point and intensity, extra channels and orientation. This holds for every size, division into groups and block structure, and under every parallelism limit and schedule.",
  ["inputs","schedules","configurations"],"all lossy, filtered and upsampled images made of the features that the decoder accepts, under all interleavings and parallelism limits",
  "Tests compare a few encoder outputs with stored results of this decoder, and pin single formulas at a few values; most transforms, tables and filter parameters occur in no fixture.",
  ["frame/HFGlobal.go","frame/HFCoefficients.go","frame/HFPass.go","frame/PassGroup.go","frame/LFGroup.go","frame/lfcoefficients.go","frame/LFGlobal.go","frame/hfmetadata.go","frame/Frame.go","frame/RestorationFilter.go","colour","util","core/jxl_codestream_decoder.go"],
  [("quantisation tables and weights","frame/HFGlobal.go"),("coefficients, dequantisation, chroma from luma","frame/HFCoefficients.go"),("inverse transforms","frame/PassGroup.go, util"),("LF dequantisation and smoothing","frame/lfcoefficients.go"),("filters, subsampling, upsampling","frame/Frame.go"),("colour matrices","colour"),("YCbCr, XYB, composition","core/jxl_codestream_decoder.go")],
  ["decoded samples against those that a plain double-precision model computes from what the simulator's bitstream writer wrote"])
p("C21","Exports show the decoded samples in the colours they claim",
  "A PNG file or Go image that is made from a decoded image whose colours are meant for standard displays has, in every component of every pixel, the decoded sample expressed in the exported colour space: linear light of XYB images converted from the image's primaries and white point to sRGB and sent through the sRGB transfer curve, other samples unchanged, clamped and rounded to the nearest value of the export's depth (8 bits, or 16 in PNG for deeper images), alpha untouched by colour conversion and opaque where there is none, grey images grey. A PNG says what its colours are: sRGB, or the image's own profile whose samples it then holds unconverted. A PFM file has the samples themselves. This holds for lossy, filtered, upsampled and lossless images, repeatedly, in any order of exports, when exports of the same or other images run at the same time, and under every parallelism limit and schedule; every such image can be exported.",
  ["inputs","schedules","histories"],"all decodable images meant for standard displays (no HDR transfer functions or primaries), all orders and interleavings of exports",
  "Tests export one or two fixtures in sRGB and compare stored bytes or check that there is no error; conversion from other primaries occurs in none.",
  ["core/jxl_image.go","core/png_writer.go","core/pfm_writer.go","colour/colour_management.go","colour/transfer_function.go","colour/CIEXY.go","image/imagebuffer.go"],
  [("conversion and transfer","core/jxl_image.go transform, toneMapLinear, transferImage, transferInPlace"),("matrices and curves","colour"),("depths, rounding, clamping","image/imagebuffer.go"),("what the file says","core/png_writer.go, core/pfm_writer.go")],
  ["components of the exported PNG, Go image and PFM against a double-precision conversion of the decoded samples"])
p("C22","Headers and embedded colour profiles are reported as written",
  "Whatever an image header says is what the decoder reports, for every combination of its fields and every form in which they may be written: size in all its encodings and ratios, orientation and oriented size, preview size, sample format, buffer hint, number and description of extra channels (kind, depth, shift, name, premultiplication, spot colour, filter array index) and which of them are alpha, colour space, white point, primaries, transfer function and intent, tone mapping, extensions and their contents, opsin matrix, biases, upsampling weights, and the embedded ICC profile byte by byte; a correct header is never refused. It holds for headers at the front of a bare codestream or in any container layout, under every delivery of the bytes, alone or next to other decodes, when only the header is asked for and when the image is decoded with it; a PNG export carries the same profile, or the same intent when there is none.",
  ["inputs","schedules","histories"],"all headers that the decoder supports (no animation), all encodings of their values, all deliveries",
  "Tests parse a few hand-made headers; profiles occur in one or two fixtures, whose coding uses a few of the commands of the profile's encoding.",
  ["bundle/image_header.go","bundle/extra_channel_info.go","bundle/BitDepthHeader.go","bundle/Extensions.go","colour","entropy","jxlio/bitreader.go","core/jxl_codestream_decoder.go","core/png_writer.go"],
  [("fields of the header","bundle/image_header.go ParseImageHeader, readSizeHeader, readPreviewHeader"),("extra channels, depths, extensions","bundle"),("profile contexts, prediction and commands","bundle/image_header.go GetICCContext, GetDecodedICC, GetICCPrediction, shuffle"),("colour encoding, tone mapping, matrices","colour"),("profile in exports","core/png_writer.go")],
  ["fields of the parsed header and the decoded profile against what the simulator's header writer wrote; chunks of the exported PNG"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(d)+"\n" for d in P))
