HOOK_GUARD = "none"
HOOK_ENABLE = "no hooks: the monitors observe /repo through its public APIs, its binary and its sockets"
HOOK_COMMITS = []
NOT_APPLICABLE = []
NOTES = "All checks are one entry point, /verif/check.sh; see DESIGN.md."

prop("C01", "Converting to DNG preserves every sensor sample bit-exactly",
 "For every raw image the tool can decode, writing it to DNG (uncompressed or lossless, any predictor 1-7, any crop mode) stores an image of the same dimensions in which every sample equals the decoded sample bit for bit, as judged by any conforming DNG reader and by the tool's own decoder. Decoding a DNG source yields exactly the samples that its file encodes, whatever its byte order, strip or tile layout, bit depth, float format, predictor or compression (none, lossless JPEG, deflate).",
 ["inputs", "configurations"], "all images (size, planes, CFA kind, bit depth, int/float content) x all writer settings x all legal source layouts",
 "Unit tests round-trip a few tiny buffers; the integration tests need sample files that are not in the repository. Sample loss only shows for particular widths, values (e.g. differences of -32768), strip gaps or layouts.",
 ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/decoders/dng.rs", "rawler/src/decoders/mod.rs", "rawler/src/tiles.rs", "rawler/src/decompressors/"],
 [("tile/strip writer", "dng/writer.rs dng_put_raw_ljpeg, dng_put_raw_uncompressed"), ("strip/tile reader", "decoders/mod.rs plain_image_from_ifd"), ("tiling", "tiles.rs ImageTiler, IntoTilesIter")],
 "output DNG bytes; RawImage returned by the decoder", "exploration",
 "runtime oracle: independent TIFF/LJPEG/deflate decoder compares every sample of generated images",
 "generated images and reference-written source DNGs; every stored sample re-read by an independent decoder")

prop("C02", "Lossless JPEG codec agrees with ITU-T T.81 in both directions",
 "For every image of 1-4 components, 2-16 bit precision and predictor 1-7, the lossless JPEG encoder emits a well-formed T.81 process-14 stream (valid Huffman tables, no all-ones code, correct header) that a conforming decoder expands to exactly the input samples. The lossless JPEG decoder expands every conforming stream of 2-16 bit precision (point transform 0), with any legal Huffman tables and per-component table selection, to exactly the encoded samples, writes nothing outside the requested output rectangle and ignores data after the end of the image.",
 ["inputs"], "all sample contents, dimensions, component counts, precisions, predictors, Huffman tables, output placements",
 "Existing tests cover fixed small frames; code-length limiting, table selection and bit-stuffing faults depend on the statistics of the content.",
 ["rawler/src/ljpeg92.rs", "rawler/src/decompressors/ljpeg/", "rawler/src/pumps.rs"],
 [("encoder", "ljpeg92.rs LjpegCompressor"), ("code length limiting (K.3)", "ljpeg92.rs HuffTableBuilder::adjust_bits"), ("decoder", "decompressors/ljpeg/decompressors.rs decode_ljpeg"), ("Huffman decode cache", "decompressors/ljpeg/huffman.rs")],
 "encoded byte stream; decoded buffer", "exploration",
 "runtime oracle: independent T.81 codec cross-decodes every stream",
 "own encoder vs reference decoder, reference encoder with random Huffman tables vs own decoder")

prop("C03", "Written DNG tags describe geometry, colour and levels of the decoded image",
 "In every DNG the tool writes, ActiveArea, DefaultCropOrigin/Size, CFAPattern (relative to ActiveArea), CFARepeatPatternDim, PhotometricInterpretation, BlackLevel/BlackLevelRepeatDim (relative to ActiveArea), WhiteLevel, AsShotNeutral, ColorMatrix/CalibrationIlluminant, Make, Model and UniqueCameraModel are such that a DNG reader assigns to every photosite the same colour, black level, white level, white balance and active/crop membership as the decoded source image (CropMode selects None, ActiveArea or Best for the default crop). Decoding such a DNG again, or any legal DNG, restores the same description.",
 ["inputs", "configurations"], "all CFA kinds and phases, odd and even active-area offsets, black patterns 1x1..6x6, crops, illuminants, crop modes",
 "Tests check single dimensions; phase errors only show at odd active-area offsets, non-square patterns or particular matrix sets.",
 ["rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/cfa.rs", "rawler/src/rawimage.rs", "rawler/src/imgop/xyz.rs"],
 [("raw tags", "dng/writer.rs SubFrameWriter::raw_image"), ("base tags", "dng/writer.rs load_base_tags"), ("reader", "decoders/dng.rs raw_image, get_cfa, get_blacklevels"), ("pattern shift", "cfa.rs CFA::shift, rawimage.rs BlackLevel::shift")],
 "tags of the output file by an independent TIFF parser; RawImage of re-decoding", "exploration",
 "runtime oracle: per-photosite semantic comparison of tags read by an independent parser",
 "generated images and reference-written DNG sources, all crop modes")

prop("C04", "Embedded original raw file is restored byte for byte",
 "With embedding enabled, OriginalRawFileData/-Name/-Digest of the written DNG hold, per the DNG specification, a fork whose decompression by any conforming reader equals the source file byte for byte for every file length (including 0, exact multiples of 65536 and neighbours), the file name, and the MD5 of the stored tag data; extraction by the tool writes exactly the source bytes and reports exactly their number. Any conforming producer's blob (any zlib block type) is extracted likewise. Without embedding none of the three tags is present.",
 ["inputs", "schedules"], "all source contents and lengths, names, thread interleavings of the parallel block compressor",
 "Tests cover one small sample; block order, tail block and offset-table errors need specific lengths and schedules.",
 ["rawler/src/dng/original.rs", "rawler/src/dng/convert.rs"],
 [("block compressor", "dng/original.rs OriginalCompressed::compress"), ("block decompressor", "dng/original.rs OriginalCompressed::decompress"), ("embedding", "dng/convert.rs internal_convert")],
 "OriginalRawFile* tags; bytes written by decompress", "exploration",
 "runtime oracle: independent fork decoder and MD5 over embedded blobs; extraction byte compare",
 "generated blobs up to several 64K blocks, conversions from memory and from files")

prop("C05", "A damaged embedded original is never extracted as valid",
 "If any byte of a DNG's OriginalRawFileData or OriginalRawFileDigest is altered, or the data is truncated, extraction with verification reports an error rather than success with wrong content; whatever is altered in the blob, success is reported only if the bytes produced are exactly the original ones and the digest matches.",
 ["inputs", "fault_sequences"], "all single and multi byte alterations, truncations, block swaps, index edits, digest edits",
 "Tests never tamper; a check that is skipped for some offsets or compared to the wrong bytes is invisible without alterations.",
 ["rawler/src/dng/original.rs", "bin/dnglab/dnglab-lib/src/jobs/extractraw.rs"],
 [("digest verification", "dng/original.rs OriginalCompressed::new / decompress with verify"), ("extract job", "jobs/extractraw.rs")],
 "result and produced bytes of OriginalCompressed::new/decompress", "fault_enumeration",
 "fault injection on stored blobs with an oracle that compares success against the true bytes",
 "byte flips at structured and random positions, truncations, swaps, index and digest edits")

prop("C06", "Every DNG and TIFF written is a structurally well-formed file",
 "Every file the tool writes (DNG conversion, makedng, developed TIFF) parses completely under the TIFF 6.0/DNG rules: valid header, acyclic IFD chain and sub-IFDs, entries sorted ascending without duplicates, every value and strip/tile/preview range inside the file, even offsets, and no two data ranges overlapping each other or an IFD. Strip and tile counts, byte counts, RowsPerStrip, BitsPerSample/SamplesPerPixel, Compression, Predictor and dimensions agree with the stored data and use legal TIFF types, also for dimensions beyond 65535; a file that would exceed the 4 GiB offset range is reported as an error instead of being written with wrapped offsets.",
 ["inputs", "configurations"], "all images, sub-image sets, tag sets, writer settings, file sizes",
 "Tests parse files back with the same library that wrote them and only at small sizes; another reader's view, overlaps and wrap-around are never checked.",
 ["rawler/src/formats/tiff/writer.rs", "rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/imgop/", "bin/dnglab/dnglab-lib/src/jobs/process_raw.rs"],
 [("directory writer", "formats/tiff/writer.rs DirectoryWriter::build, TiffWriter"), ("sub-frame writer", "dng/writer.rs SubFrameWriter"), ("strips", "dng/writer.rs dng_put_raw_uncompressed"), ("developed TIFF", "formats/tiff, imgop/develop")],
 "bytes of the output file by an independent strict TIFF validator", "exploration",
 "runtime monitor: independent strict TIFF/DNG structure validator over every written file",
 "generated writer sessions, conversions, developed images, sparse >4 GiB sink, wide images")

prop("C07", "TIFF values are written and read without alteration",
 "For every TIFF value (all 13 types, any element count, inline or out of line) written through the tool's TIFF writer, an independent reader sees the same type, count and content in every IFD, sub-IFD and chained IFD. Reading any legal TIFF (either byte order, any base or correction offset, any entry layout) yields exactly the values and sub-IFD structure stored; a malformed or unknown entry affects neither the other entries of its IFD nor the position of the next IFD.",
 ["inputs"], "all value types, counts, bit patterns, byte orders, layouts, offset corrections, positions of bad entries",
 "Unit tests write a few SHORT/LONG values; sign, float bit patterns, 1-4 byte inline packing and big-endian inline arrays are not sampled.",
 ["rawler/src/formats/tiff/"],
 [("value serialisation", "formats/tiff/entry.rs, value.rs Entry::to_writer, as_embedded"), ("IFD parsing", "formats/tiff/ifd.rs IFD::new"), ("entry parsing", "formats/tiff/entry.rs Entry::parse"), ("reader", "formats/tiff/reader.rs")],
 "bytes by an independent parser; Entry/Value objects returned by the reader", "exploration",
 "runtime oracle: independent TIFF encoder/parser compared value by value",
 "random directories in both byte orders with bad entries injected")

prop("C08", "Shooting metadata survives conversion and development unchanged",
 "Every Exif photo tag and GPS tag of a source that the tool models (exposure, aperture, ISO and sensitivity fields, dates, sub-second and time-zone fields, APEX values, metering/light/flash, focal length, subject distance, owner/serial/lens-serial texts, scene fields; all GPS fields) and, for DNG sources, the DNG-private colour, profile, opcode and noise tags it carries over, reappear in the converted DNG with the same type, count and value, in the IFD where a DNG reader looks for them; a tag absent in the source is not invented. Artist is replaced only by the user's override, Software names the tool, Orientation and the metadata of a developed TIFF equal the source's. Metadata handed to the DNG writer (including lens description and unique id) is stored as given and read back equal.",
 ["inputs", "configurations"], "all tag subsets and value contents (extreme rationals, negative values, empty and long texts), both byte orders, all conversion settings",
 "The fixtures compare digests of files that are not in the repository; a tag that is dropped, swapped, truncated or given the wrong type for some value is invisible to the remaining tests.",
 ["rawler/src/exif.rs", "rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/decoders/dng.rs", "bin/dnglab/dnglab-lib/src/jobs/process_raw.rs"],
 [("Exif model", "exif.rs Exif::extend_from_ifd, write_tags"), ("metadata writer", "dng/writer.rs load_metadata"), ("DNG tag carry-over", "dng/convert.rs, decoders/dng.rs ifd WellKnownIFD::VirtualDngRootTags")],
 "tags of output files by an independent parser; RawMetadata re-read", "exploration",
 "runtime oracle: tag-by-tag comparison by an independent parser of source and output",
 "DNG sources with random tag subsets written by the reference writer; RawMetadata objects through DngWriter")

prop("C10", "Results do not depend on threads, timing, environment or call history",
 "The content of every file and of the standard output a command produces, and its exit code, are a function of its input files and options only: the same for every number of worker threads and every schedule, under other load, when other conversions run in the same process at the same time, for relative and absolute paths, other locales, working directories and log levels, and in every repetition (time of conversion and tool name tags and the order of JSON members excepted). A decoder object asked repeatedly, in any order of calls, gives the same image, metadata and previews every time.",
 ["schedules", "configurations", "histories"], "all thread counts, schedules, environments and call histories, for all inputs and options",
 "Tests run one schedule on one machine and never compare two runs.",
 ["rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs", "rawler/src/dng/original.rs", "rawler/src/imgop/", "rawler/src/decoders/mod.rs", "rawler/src/pixarray.rs", "bin/dnglab/dnglab-lib/src/jobs/"],
 [("parallel strips and tiles", "dng/writer.rs dng_put_raw_ljpeg, formats/tiff/writer.rs write_strips_lzw"), ("block compressor", "dng/original.rs OriginalCompressed::compress"), ("development", "imgop/sensor/bayer/ppg.rs, imgop/develop.rs"), ("decoder cache", "decoders/mod.rs DecoderCache")],
 "files, standard output and exit codes of repeated executions; results of repeated decoder calls", "exploration",
 "differential runtime oracle over perturbed executions: pool sizes, background load, injected delays, environments, concurrent jobs",
 "conversions, developments and whole commands repeated under other thread counts, load, delays and environments; decoder call histories")

prop("C11", "No input makes safe code touch memory it does not own",
 "Whatever bytes a file contains and whatever arguments the public decoding, encoding, demosaicing and conversion functions are called with, the library never reads or writes outside the memory it owns, never uses freed memory and never frees twice: hostile input ends in a result, an error or a panic.",
 ["inputs"], "all byte strings offered as files, all arguments of the public image functions",
 "rawler contains dozens of unchecked accesses (get_unchecked, raw pointers, shared mutable pixel buffers) behind safe functions; tests pass well formed data and run without instrumentation.",
 ["rawler/src/pixarray.rs", "rawler/src/decompressors/", "rawler/src/ljpeg92.rs", "rawler/src/imgop/", "rawler/src/decoders/", "rawler/src/packed.rs", "rawler/src/bits.rs"],
 [("unchecked pixels", "pixarray.rs Pix2D::at/at_mut, Color2DPtr, SharedPix2D"), ("unchecked encoder", "ljpeg92.rs ljpeg92_diff"), ("demosaicers", "imgop/sensor/"), ("area arithmetic", "imgop/mod.rs, decoders/dng.rs")],
 "AddressSanitizer reports of instrumented worker processes", "exploration",
 "AddressSanitizer (compiler instrumentation of the code, its dependencies and the standard library) over hostile and mutated workloads",
 "all codecs with damaged payloads and dimensions, CRX and LJPEG streams, encoder arguments, demosaicing with hostile regions, DNG files with changed tags and geometry through decode, metadata, previews, development and conversion")

prop("C12", "Parallel code is free of data races",
 "On every thread pool and schedule, no two threads access the same memory without synchronisation where one of them writes: parallel decompressors, demosaicers, encoders and the block compressor only write the pixels and buffers that belong to their task.",
 ["schedules", "inputs"], "all inputs, pool sizes and schedules of the parallel code",
 "A race shows up in a test only if it changes a result in the schedule that ran; the shared pixel buffers are mutable from several threads through unsafe code.",
 ["rawler/src/pixarray.rs", "rawler/src/decompressors/", "rawler/src/imgop/", "rawler/src/dng/", "rawler/src/ljpeg92.rs"],
 [("shared pixel buffer", "pixarray.rs SharedPix2D, decoders/mod.rs decode_threaded*"), ("PPG raw pointers", "imgop/sensor/bayer/ppg.rs"), ("strips and tiles", "dng/writer.rs"), ("block compressor", "dng/original.rs")],
 "ThreadSanitizer reports of instrumented worker processes", "exploration",
 "ThreadSanitizer (happens-before race detection, standard library and dependencies instrumented) over parallel workloads",
 "all codecs, CRX, demosaicing, embedding, whole decodes, developments and conversions on pools of 2 to 8 threads, several jobs at once")

prop("C13", "Demosaicing computes its documented interpolation at every pixel",
 "For every sensor image and region of interest, PPG (RGB Bayer), the four colour bilinear, the superpixel and the X-Trans bilinear demosaicers return an image of the documented size in which measured samples are kept, every interpolated value is the one the algorithm defines for that neighbourhood (including image borders and odd region offsets), flat fields stay flat per colour, and no value depends on pixels outside its neighbourhood.",
 ["inputs", "configurations"], "all images, CFA patterns and phases, sizes from the smallest on, regions of interest",
 "Tests check pattern strings and tiny buffers; phase errors and border errors need specific sizes and offsets.",
 ["rawler/src/imgop/sensor/bayer/", "rawler/src/imgop/sensor/xtrans/", "rawler/src/cfa.rs"],
 [("PPG", "imgop/sensor/bayer/ppg.rs"), ("four colours", "imgop/sensor/bayer/bilinear.rs"), ("superpixel", "imgop/sensor/bayer/superpixel.rs"), ("X-Trans", "imgop/sensor/xtrans/bilinear.rs"), ("phase", "cfa.rs CFA::shift")],
 "every pixel of the demosaiced image", "exploration",
 "runtime oracle: independent reference in interval arithmetic over rounding and undecidable gradient comparisons",
 "generated mosaics (flat, ramps, edges, noise, impulses), all Bayer, four colour and X-Trans phases, random regions")

prop("C14", "Development renders levels, areas, rotation and colour as the image describes",
 "For every raw image the developed picture equals, within rounding, the pipeline its description defines: samples scaled between the black level of their photosite (any repeat pattern, any number of planes) and the white level, demosaiced, rotated for diagonal sensors, cropped to active and default crop area, white balanced, converted by the colour matrix of the best available illuminant (adapted to D65) to sRGB primaries, highlights clipped by the documented rule, gamma encoded and quantised to 16 bit; any subset of steps composes, and process-raw writes exactly this picture for the selected crop mode.",
 ["inputs", "configurations"], "all images, black patterns, areas, matrices, illuminants, white balances, step subsets, crop modes",
 "The development tests need sample files that are not in the repository and compare against stored results of the same code.",
 ["rawler/src/imgop/develop.rs", "rawler/src/imgop/raw.rs", "rawler/src/imgop/xyz.rs", "rawler/src/imgop/srgb.rs", "rawler/src/imgop/matrix.rs", "rawler/src/rawimage.rs", "bin/dnglab/dnglab-lib/src/jobs/process_raw.rs"],
 [("pipeline", "imgop/develop.rs RawDevelop::develop_intermediate"), ("scaling", "rawimage.rs RawImage::apply_scaling"), ("calibration", "imgop/raw.rs map_3ch_to_rgb, map_4ch_to_rgb"), ("rotation", "imgop/fuji_rotate.rs fuji_normalize_rotation"), ("adaption", "imgop/chromatic_adaption.rs")],
 "developed image; pixels of the TIFF written", "exploration",
 "runtime oracle: independent reference pipeline in interval arithmetic",
 "generated Bayer, X-Trans, four colour, monochrome and linear images, all step subsets, whole files through process-raw")

prop("C15", "Existing files are never clobbered and sources are never modified",
 "Without --override, convert, process-raw, extract and makedng never alter, truncate, replace or delete any file system entry that existed before (regular file, symlink, dangling symlink, link target, directory), also when another process creates the target at the same moment or the command fails; an existing single target is reported as AlreadyExists (exit 6). With --override only the target entry itself is replaced: a symlink is replaced and never followed, and a job never destroys its own input, even if output and input are the same file. Nothing outside the target paths is created.",
 ["schedules", "inputs", "fault_sequences"], "all input/output layouts, kinds of pre-existing entries, link structures, races between two writers, write failures",
 "Tests never run the commands; the guarantee concerns every kind of existing entry and the instant between checking and creating.",
 ["bin/dnglab/dnglab-lib/src/jobs/", "bin/dnglab/dnglab-lib/src/makedng.rs", "bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/filemap.rs"],
 [("output creation", "jobs/mod.rs create_output"), ("convert job", "jobs/raw2dng.rs internal_exec"), ("process-raw job", "jobs/process_raw.rs internal_exec"), ("extract job", "jobs/extractraw.rs internal_exec"), ("makedng", "makedng.rs makedng")],
 "file tree (content, inode, mode, mtime) before and after; libc call log", "exploration",
 "system-call event log plus file-tree snapshots around the real executable, with injected delays between racing processes",
 "generated directory layouts with 8 kinds of pre-existing entries, single and directory mode, in-place runs, write faults, two racing processes")

prop("C16", "A failing job leaves no partial output and is reported",
 "If a job of convert, process-raw, extract or makedng fails (undecodable or damaged input, decoder panic, I/O error on create, on any write or flush, when setting the file time, or a file size limit), its output file does not exist afterwards; every output that exists is complete and equals what a fault-free run produces. The exit code is zero exactly if all requested outputs are complete, the summary counts and lists exactly the failed inputs, the process neither hangs nor dies, and no other file is touched.",
 ["fault_sequences", "inputs"], "every position of create/write/utime failure, size limits, damaged inputs, configurations and job counts",
 "Tests run without I/O faults; the property is about every failure point.",
 ["bin/dnglab/dnglab-lib/src/jobs/", "bin/dnglab/dnglab-lib/src/convert.rs", "bin/dnglab/dnglab-lib/src/process_raw.rs", "bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/makedng.rs"],
 [("failure cleanup", "jobs/mod.rs remove_output_on_failure, jobs/*.rs write_output"), ("result summary", "convert.rs, process_raw.rs, extract.rs"), ("exit codes", "bin/dnglab/src/main.rs")],
 "file tree after the run, output content, exit code, summary lines", "fault_enumeration",
 "fault injection at the libc boundary (errno at the n-th create/write/futimens, RLIMIT_FSIZE) with an oracle over file tree, output content, exit code and summary",
 "generated inputs (good, damaged in several ways, panicking) times commands, options and fault positions")

prop("C17", "Batch runs terminate and treat every input exactly once, isolated",
 "Converting, developing or extracting a directory (recursive or not) with any number of jobs terminates, selects exactly the supported files, gives every input its own output (sub directories mirrored; FOO.dng, colliding names FOO_1.dng, FOO_2.dng ...) and the output of each input equals that of a single-file run, independent of the other inputs, of unreadable or damaged entries, of dangling links, of the number of threads and of the schedule. No input is dropped, converted twice or written to another input's output, and the summary counts them all.",
 ["schedules", "inputs", "configurations"], "all directory trees and name collisions, bad entries, job and thread counts, schedules",
 "Tests do not run batches; lost inputs, name collisions and deadlocks depend on the combination of files, threads and timing.",
 ["bin/dnglab/dnglab-lib/src/convert.rs", "bin/dnglab/dnglab-lib/src/process_raw.rs", "bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/filemap.rs", "bin/dnglab/dnglab-lib/src/jobs/", "rawler/src/dng/original.rs"],
 [("directory mapping", "filemap.rs MapMode, DirMap::file_list"), ("name disambiguation", "convert.rs generate_job, process_raw.rs generate_job"), ("job driver", "convert.rs chunks/join_all, jobs/raw2dng.rs execute"), ("embedding pool", "dng/original.rs COMPRESS_POOL")],
 "file tree after the run, output contents, summary, termination", "exploration",
 "offline checker over the resulting file tree (bijection inputs/outputs, content per input) under varied thread counts and injected delays, watchdog for hangs",
 "generated trees with colliding stems, mixed case, links, bad files; RAYON_NUM_THREADS 1..6, -j 0..16, injected create/mkdir/write delays")

prop("C18", "Extracting stays inside the output directory and yields exactly the originals",
 "Whatever OriginalRawFileName a DNG carries (absolute paths, .. components, separators, special characters, names without a final component), extract creates files only below the chosen output directory (sub directories mirrored from the input) under the last path component of that name, or exactly at the chosen output file; each extracted file equals the embedded original byte for byte. A DNG without usable name, without embedded data or with a failing digest yields no file and is reported, and two DNGs naming the same original never replace each other.",
 ["inputs"], "all original names, directory layouts with links, damaged containers, single and directory mode",
 "No test runs the extract command; the name is attacker-controlled data of the DNG.",
 ["bin/dnglab/dnglab-lib/src/extract.rs", "bin/dnglab/dnglab-lib/src/jobs/extractraw.rs", "rawler/src/dng/original.rs"],
 [("output name", "extract.rs get_original_name, generate_job"), ("extraction", "jobs/extractraw.rs internal_exec"), ("duplicate names", "extract.rs claimed set")],
 "file tree of a surrounding area before and after; content of extracted files; exit code", "exploration",
 "file-tree monitor around the real executable, run unprivileged in a nested scratch area with canaries",
 "hostile names written into DNGs by the tool's own writer, canary files on every level above the output directory")

prop("C19", "Preserving the modification time transfers the source's date exactly",
 "With --keep-mtime the modification time of every file written by convert and process-raw is the image's modification date if the source carries one (Exif/TIFF DateTime, in the zone given by TimeZoneOffset or OffsetTime, else in local time), otherwise the source file's modification time to the nanosecond; this holds for blank or malformed dates and for dates before 1970, and the option never makes the command fail. Without the option the output has the current time. The source's times stay untouched.",
 ["inputs", "configurations"], "all dates including absent, blank and malformed ones, time zones, mtimes with nanoseconds and negative times",
 "Tests never set file times.",
 ["bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs", "bin/dnglab/dnglab-lib/src/jobs/process_raw.rs"],
 [("copy time", "jobs/raw2dng.rs copy_mtime_from_rawsource"), ("process-raw", "jobs/process_raw.rs internal_exec")],
 "mtime of output and input files", "exploration",
 "runtime oracle: expected time recomputed from the generated source, compared with the file system",
 "generated sources with absent, blank, malformed and extreme dates")

prop("C20", "FTP clients never reach anything outside the served directory",
 "Whatever paths a logged-in FTP client sends (.. components, absolute paths, glob patterns, paths through symlinks inside the root that lead outside, dangling links), no command of the FTP server reads, lists, creates, modifies or deletes anything outside the served directory, the served directory itself is never removed, and automatic conversion does not write through links leaving the root. The root may be given relative, absolute or through a link; ordinary operations inside it keep working.",
 ["inputs", "histories"], "all command sequences and path arguments, link structures below the root, forms of the root argument",
 "No test talks to the server; an escape needs a particular combination of path, working directory and link.",
 ["embedftp/src/client.rs", "embedftp/src/server.rs", "bin/dnglab/dnglab-lib/src/ftpconv.rs"],
 [("path containment", "client.rs complete_path, complete_entry_path, invalid_path"), ("upload", "client.rs put_file"), ("listing", "client.rs nlst, list"), ("conversion target", "ftpconv.rs stor_file")],
 "file tree outside the root before and after; all bytes received by the client", "exploration",
 "runtime monitor: canary files and secrets outside the root, file-tree snapshots around hostile sessions against the real server running unprivileged",
 "hostile path generator over 13 commands; plain embedftp server and dnglab ftpserver")

prop("C21", "FTP commands need a valid login",
 "Before a successful login (USER of a known user followed by that user's password, or a user without password, or anonymous if enabled) every file-system and data-transfer command is refused, has no effect on the file tree, opens no data connection and discloses nothing. A wrong password never logs in; naming another password-protected user ends the previous authorisation until its password is given; sessions are independent. Every configured account can log in with its password, also if anonymous access is enabled.",
 ["histories", "configurations"], "all sequences of USER, PASS and other commands, all user tables",
 "No test covers login; the gate is a state machine over command histories.",
 ["embedftp/src/client.rs"],
 [("login state", "client.rs Client::is_logged, handle_cmd USER/PASS"), ("command gate", "client.rs handle_cmd")],
 "replies, received data, file tree", "exploration",
 "online checker: authentication state machine fed with every command/reply, file-tree check at the end",
 "random user tables and login histories against the real embedftp server")

prop("C22", "FTP server behaves like a file system",
 "Within a session every STOR, RETR, LIST, NLST, MKD, RMD, DELE, CWD, CDUP and PWD has exactly the effect and result a file system would give: uploads are stored byte for byte and downloads return them (any size, any content, both transfer types, PASV, EPSV and PORT), listings show exactly the entries with right kind, size and time, failing commands are reported and change nothing, an aborted upload leaves an existing file as it was and the session usable. Concurrent sessions working in different directories do not affect each other.",
 ["histories", "inputs", "schedules"], "all operation sequences, names, contents, transfer modes, concurrent sessions, connection resets",
 "No test runs sessions; the property relates whole histories to the resulting tree.",
 ["embedftp/src/client.rs", "embedftp/src/codec.rs", "embedftp/src/command.rs"],
 [("commands", "client.rs mkd, rmd, dele, cwd, list, nlst, retr, stor"), ("data connections", "client.rs pasv, epsv, initiate_data_connection, receive_data")],
 "replies, data connections, file tree", "exploration",
 "online model-based checker (reference file system) over session histories, final tree compared with the model",
 "random operation histories, 1-6 concurrent sessions, aborted uploads")

prop("C23", "Every FTP command gets exactly one final reply",
 "However command lines arrive (pipelined, split anywhere including between CR and LF, malformed, over-long, non-UTF-8), each line is answered in order with exactly one syntactically valid final reply fitting the command, preceded by at most one preliminary reply for transfers; unknown or malformed commands are answered with an error and neither end the session nor the server; a broken data connection does not end the session; QUIT is answered with 221 and closes the connection.",
 ["histories", "inputs"], "all command line sequences, argument bytes and fragmentations",
 "Codec tests feed one complete line; missing or surplus replies only show in sequences.",
 ["embedftp/src/codec.rs", "embedftp/src/command.rs", "embedftp/src/client.rs"],
 [("framing", "codec.rs FtpCodec"), ("parser", "command.rs Command::new"), ("replies", "client.rs handle_cmd, transfer_aborted")],
 "byte stream of the control connection", "exploration",
 "online protocol monitor on the control connection matching replies to command lines",
 "random valid and malformed command lines in four fragmentation styles against embedftp and dnglab ftpserver")

prop("C24", "FTP auto-conversion stores complete DNGs and keeps originals as configured",
 "Every supported raw file uploaded to dnglab ftpserver yields FOO.dng equal (apart from tool name and time of conversion) to what the convert command produces with the same options; the original is stored byte for byte if and only if --keep-original is set; files of other types are stored unchanged and not converted. If a conversion fails (damaged or panicking input, I/O error at any point) the upload is answered with an error, no partial DNG stays behind and the server keeps working; concurrent uploads do not affect each other.",
 ["inputs", "fault_sequences", "schedules", "configurations"], "all uploads, switches, failure points, concurrent sessions",
 "No test runs the server.",
 ["bin/dnglab/dnglab-lib/src/ftpconv.rs", "embedftp/src/client.rs"],
 [("conversion callback", "ftpconv.rs FtpState::stor_file"), ("upload", "client.rs put_file, stor")],
 "stored files, replies", "fault_enumeration",
 "differential runtime oracle: stored DNG compared tag by tag with `dnglab convert`, libc fault injection into the server",
 "generated uploads (raw, damaged, panicking, other), switches, parallel sessions, create/write faults")

prop("C09", "Camera sensor encodings decode to exactly the stored samples",
 "Every sensor data encoding the tool implements itself (8 bit tables, all packed 10/12/14/16 bit layouts, Sony ARW1/ARW2/SRF, Olympus ORF, Samsung SRW 1-3, Panasonic v4, Kodak 65000, Pentax PEF Huffman, Canon CRW, Leaf, Nikon NEF lossless/lossy/split and small NEF, Canon CRX of CR3 files: lossless and wavelet coded, tiled, with quantization tables) decodes to exactly the samples that an independent encoder of the published format stored, for every legal width, height, sample value, code table and linearisation curve, in image order, without depending on what follows the data. (Where the codec dithers a lookup curve the value before the dither is what counts.)",
 ["inputs"], "all sample contents, dimensions and code tables of each encoding",
 "The sample files of the decoder tests are not part of the repository; unit tests cover two short packed buffers. Codec errors show only for particular difference lengths, block ends or odd dimensions.",
 ["rawler/src/decompressors/", "rawler/src/decoders/unwrapped.rs", "rawler/src/decoders/arw.rs", "rawler/src/decoders/orf.rs", "rawler/src/decoders/srw.rs", "rawler/src/decoders/rw2.rs", "rawler/src/decoders/dcr.rs", "rawler/src/decoders/kdc.rs", "rawler/src/decoders/pef.rs", "rawler/src/decoders/crw.rs", "rawler/src/decoders/mos.rs", "rawler/src/decoders/nef.rs", "rawler/src/decompressors/crx/mod.rs", "rawler/src/decompressors/crx/decoder.rs", "rawler/src/decompressors/crx/idwt.rs", "rawler/src/decompressors/crx/iquant.rs"],
 [("packed layouts", "decompressors/packed.rs"), ("vendor codecs", "decoders/unwrapped.rs decode_unwrapped"), ("bit pumps", "bits.rs, pumps.rs"), ("lookup curves", "decompressors and bits.rs LookupTable"), ("Canon CRX", "decompressors/crx/ decompress_crx_image")],
 "decoded sample buffers", "exploration",
 "differential runtime oracle: independent reference encoders, decoded samples compared with what was encoded",
 "45 encodings x random dimensions, contents, tables; CRX encoder with 0-3 wavelet levels, 1 or 4 planes, tiles, QP tables")

prop("C25", "analyze reports exactly what the file contains",
 "dnglab analyze prints for every readable file the raw samples (PGM/PPM of the decoded size; floats scaled between black and white level), the MD5 of the little endian samples, JSON and YAML metadata that agree with each other and with the file's dimensions, levels, areas, white balance, make, model, Exif and GPS values, and preview, thumbnail, full and sRGB images equal to those embedded in the file, or to what process-raw develops. It writes nothing but its standard output; a damaged, empty or missing file yields an error exit code and no output.",
 ["inputs", "configurations"], "all readable files, dump modes and output formats; all damaged files",
 "The analyze tests compare against sample files that are not part of the repository.",
 ["bin/dnglab/dnglab-lib/src/analyze.rs", "rawler/src/analyze.rs", "rawler/src/pixarray.rs"],
 [("command", "bin/dnglab/dnglab-lib/src/analyze.rs analyze"), ("analysis", "rawler/src/analyze.rs"), ("embedded images", "rawler/src/decoders/dng.rs full_image, preview_image, thumbnail_image")],
 "standard output and exit code of the command; file tree", "exploration",
 "differential runtime oracle: every dump compared with an independent reading of the generated file",
 "generated DNG sources, converted files with preview/thumbnail, damaged files")

prop("C26", "makedng assembles exactly what was mapped and requested",
 "The DNG written by makedng contains, for every mapped input (raw, preview, thumbnail, exif, xmp from DNG/raw, PNG, TIFF, PNM or JPEG files, any map order), exactly that input's content: raw samples bit for bit with matching levels and linearisation table, preview and thumbnail of that picture, the Exif photo tags and XMP packet; unmapped parts are absent. Each option (artist, make, model, unique camera model, colorimetric reference, backward version, matrices with illuminants, white balance as neutral or xy, linearisation table by name or list) appears with the given value rounded to 1/10000 and wins over inputs. Unusable inputs or map indices yield an error and no output; no input makes it hang.",
 ["inputs", "configurations"], "all input files, map orders and option combinations",
 "No test runs makedng.",
 ["bin/dnglab/dnglab-lib/src/makedng.rs", "rawler/src/formats/jfif.rs", "rawler/src/dng/writer.rs"],
 [("command", "makedng.rs makedng_internal"), ("argument types", "makedng.rs as_tiff_value, LinearizationTableArgParser"), ("JPEG segments", "formats/jfif.rs Jfif::parse")],
 "the written DNG, exit code, file tree", "exploration",
 "runtime oracle: written file read by an independent parser and compared with every mapped input and option",
 "generated inputs, JPEG segment structures, options, damaged inputs")
prop("C27", "Canon CR3/CRM containers decode to every frame and description they store",
 "For a Canon CR3/CRM file (ISO base media container with CRX tracks), the number of images reported equals the number of frames stored, and decoding image k yields exactly frame k's samples, together with the white balance, black and white levels, crop and active area, camera identity, Exif and GPS tags, copyright and artist, unique image id, XMP packet and preview that the file stores - whatever the order of the boxes and tracks, the grouping of samples into chunks, 32- or 64-bit box and chunk offset sizes, constant or listed sample sizes, and unknown boxes in between. An image index beyond the last frame is an error. convert --image-index all writes exactly one output per frame holding that frame, --image-index k exactly the output for frame k, without the switch frame 0; an index out of range fails without output.",
 ["inputs", "configurations"], "all container layouts, frame counts and image indices",
 "Tests decode a few single-frame camera files (not part of the repository); none sees several frames or other layouts.",
 ["rawler/src/formats/bmff/", "rawler/src/decoders/cr3.rs", "rawler/src/decoders/cr2/colordata.rs", "bin/dnglab/dnglab-lib/src/convert.rs"],
 [("container", "formats/bmff/* boxes"), ("sample tables", "formats/bmff/stsc.rs, stsz.rs, co64.rs"), ("frames and metadata", "decoders/cr3.rs Cr3Decoder"), ("image index", "convert.rs, rawler/src/dng/convert.rs")],
 "decoded samples and metadata, written DNGs, exit codes", "exploration",
 "runtime oracle: files built by an independent container and CRX writer, decoded result compared item by item with what was stored",
 "generated box orders, chunkings, frame counts, tile layouts, colour data versions, image indices")

prop("C28", "Camera raw files decode to the image and description they store",
 "For an uncompressed or compressed raw file of a supported camera in one of the formats MEF, ERF, DCS, DCR, KDC, ARI, MRW, 3FR, MOS, PEF, ORF, SRW, ARW, SRF, NEF/NRW, RW2/RAW (Panasonic, Leica) or a headerless dump (CHDK, NKD), decoding yields exactly the samples stored for each encoding the format has, at the stored width and height, together with the stored or camera-defined white balance, black levels (averaged from the masked area where the camera is defined so) and white level, active and crop area, colour filter pattern and camera identity; the stored preview is returned; a decode without image data reports the same geometry. Converting the file to DNG stores the same samples, keeps the Exif, GPS, XMP and description tags of the file, and names the camera by its clean make and model - whatever the byte order, the order and place of directories, the field types used for offsets and counts, and unrelated directories or data in between.",
 ["inputs", "configurations"], "all images, cameras, encodings, layouts and stored values",
 "Tests decode no camera files of these formats in this repository (the sample archive is not part of it); only a few decompressor unit tests exist.",
 ["rawler/src/decoders/", "rawler/src/decompressors/", "rawler/src/formats/tiff/", "rawler/data/cameras/"],
 [("decoders", "decoders/{mef,erf,dcs,dcr,kdc,ari,mrw,tfr,mos,pef,orf,srw,arw,nef,nrw,rw2,nkd}.rs"), ("levels and areas", "rawimage.rs RawImage::new"), ("encodings", "decompressors/, decoders/rw2/, decoders/nef/"), ("metadata", "dng/convert.rs, exif.rs")],
 "decoded samples and description, preview, written DNGs", "exploration",
 "runtime oracle: files built by independent per-format writers and encoders, decoded result compared item by item with what was stored and with the camera definition files",
 "generated encodings, camera definitions, directory layouts, byte orders, tag values")
