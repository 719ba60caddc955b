FTP = ["embedftp/src/client.rs", "embedftp/src/server.rs"]
T_REPLAY = "TLA+ model checked with TLC; TLC's state graph replayed edge by edge into the running server"

prop("P01", "FTP: nothing but login and status is possible before a successful login",
     "For every user table and every sequence of FTP commands, a session that has not logged in gets 530 for every command that would touch files, the working directory or a data connection, and such a command has no effect. "
     "A session becomes logged in only by naming a configured user together with exactly that user's password (or a configured user without password, or the anonymous user when anonymous access is enabled), and asking to log in as another user that needs a password ends the previous login.",
     ["histories", "configurations"], "all command sequences over all login states, for several user tables",
     "The two existing embedftp tests only cover the line codec; the gate has to hold in every reachable login state for every command.",
     FTP + ["embedftp/src/config.rs"], [("login gate", "embedftp/src/client.rs handle_cmd/is_logged"), ("USER/PASS state", "embedftp/src/client.rs handle_cmd")],
     T_REPLAY + " for three user tables", "Exhaustive over the login state machine of spec/Ftp.tla (MCFtpAuth); every edge replayed over TCP. Trusts the small command alphabet.",
     state=["logged-in user", "pending user", "file tree"], observe=["control replies", "file tree"])

prop("P02", "FTP: clients can never reach anything outside the served directory",
     "Whatever commands a client sends, with relative, absolute, dot-dot and symbolic-link paths, no file or directory outside the directory the server was started on is created, changed, deleted, listed or read, and the served directory itself is not removed. "
     "This also holds when the served directory is given through a symbolic link.",
     ["histories", "inputs"], "all command sequences with all path shapes over trees with links pointing inside, outside and nowhere",
     "Escapes need a particular combination of working directory, link and dot-dot components.",
     FTP, [("path resolution and prefix check", "embedftp/src/client.rs complete_path"), ("upload target", "embedftp/src/client.rs put_file"), ("glob filter", "embedftp/src/client.rs nlst")],
     T_REPLAY, "Exhaustive over spec/Ftp.tla with MCFtpFs' two-level trees; the server runs unprivileged, the whole tree is compared after every command. Concurrent re-linking by third parties is not covered.",
     state=["file tree inside and outside the root", "working directory"], observe=["file tree", "data connection"])

prop("P03", "FTP: exactly one final reply per command, in order, and none after QUIT",
     "Every command line is answered by exactly one final reply (preceded by at most one preliminary reply for a transfer), in the order of the commands, whether the operation succeeds or fails and whatever state the data connection is in; malformed lines and uploads to a dot-dot path close the connection instead. "
     "Once QUIT is received it is answered, the connection is closed and nothing that follows it is executed or answered.",
     ["histories", "fault_sequences"], "all sequences of commands, data-connection modes (passive, extended, active, refused) and failing operations; lock-step and pipelined",
     "An extra or missing reply only shows on particular failure paths and then shifts every later reply.",
     FTP + ["embedftp/src/codec.rs"], [("command dispatch", "embedftp/src/client.rs handle_cmd"), ("transfer commands", "embedftp/src/client.rs list/nlst/retr/stor"), ("session loop", "embedftp/src/client.rs client")],
     T_REPLAY + ", with a barrier command after each step and pipelined sessions", "Exhaustive over spec/Ftp.tla with MCFtpData (data-connection machine) and MCFtpFs; hang = 20 s without reply.",
     state=["data connection", "pending replies"], observe=["control replies"])

prop("P04", "FTP: stores, reads, lists and deletes exactly what was asked",
     "After a successful upload the file holds exactly the uploaded bytes and a later download returns exactly those bytes, in both transfer types; listings show exactly the directory's entries; directory and delete commands change exactly the named object. "
     "A command that is refused changes nothing, and a success reply is given if and only if the operation took effect; this holds for absolute, relative and linked forms of the served directory.",
     ["histories", "inputs"], "all command sequences on small trees; payload sizes around buffer boundaries; awkward file names",
     "Needs the state of the tree to be tracked over histories of commands.",
     FTP, [("transfers", "embedftp/src/client.rs retr/stor/put_file/receive_data"), ("directory commands", "embedftp/src/client.rs mkd/rmd/dele/cwd/list/nlst")],
     T_REPLAY, "Exhaustive over spec/Ftp.tla with MCFtpFs and MCFtpData, plus payload-size and file-name sweeps.",
     state=["file tree", "working directory"], observe=["file tree", "data connection", "control replies"])

prop("P05", "FTP: replies depend on the bytes received, not on how they are segmented",
     "The sequence of commands the server executes and answers is a function of the control connection's byte stream alone: a command ends at CR LF and nowhere else, verbs are case-insensitive, and any division of the stream into network segments (including between CR and LF) gives the same replies.",
     ["inputs", "schedules"], "all byte streams up to a length over an alphabet of verbs, blanks, CR and LF; all segmentations in the model, sampled segmentations on the wire",
     "A unit test feeds a decoder one buffer; the guarantee is about all cuts.",
     ["embedftp/src/codec.rs", "embedftp/src/command.rs"], [("line decoder", "embedftp/src/codec.rs decode"), ("verb parser", "embedftp/src/command.rs Command::new")],
     "TLA+ model of the incremental line decoder checked with TLC for all segmentations; its streams sent to the running server in different segmentations",
     "Exhaustive in the model up to the length bound; on the wire one-piece, byte-wise, torn CR LF and random cuts.",
     observe=["control replies"])

prop("P06", "FTP: concurrent sessions are independent",
     "Each session has its own login, working directory and data connection: whatever other sessions do, a session observes exactly what it would observe alone on the same file tree, and sessions working concurrently in different directories never see each other's data.",
     ["schedules", "histories"], "all interleavings of two sessions' commands; concurrent runs of many sessions",
     "Interference needs a specific interleaving of two sessions.",
     FTP, [("per-connection state", "embedftp/src/client.rs Client"), ("accept loop", "embedftp/src/server.rs serve")],
     "TLA+ two-client model checked with TLC and replayed; histories of truly concurrent sessions validated by TLC against the same specification",
     "All command-level interleavings of two clients on a small alphabet; concurrent runs depend on the OS scheduler.",
     state=["per-session state", "file tree"], observe=["control replies", "data connection"])

L = "bin/dnglab/dnglab-lib/src/"
BATCH = [L + "convert.rs", L + "process_raw.rs", L + "extract.rs", L + "filemap.rs", L + "jobs/raw2dng.rs", L + "jobs/extractraw.rs"]
T_BATCH = "TLA+ model of a batch run (scan, plan, interleaved jobs, accounting) checked with TLC; every explored scenario's set of allowed outcomes replayed against the real command"

prop("P08", "Batch: without -f nothing that already exists is overwritten or removed, even under races",
     "convert, process-raw and extract run without --override never change, truncate or remove a file, directory or link that exists when the output name is claimed, whatever the mix of inputs, output directory content and options, and report the job as failed instead. "
     "When several processes want the same output name at the same time exactly one of them gets it, its output is complete, and the others report that the file exists.",
     ["inputs", "schedules"], "all small input sets x existing outputs x options in the model; every interleaving of jobs and of a foreign process creating an output",
     "A test checks one existing file; the guarantee is about every name the planner may choose and every moment another process may create it.",
     BATCH, [("output creation", L + "jobs/raw2dng.rs"), ("output creation", L + "jobs/extractraw.rs"), ("output creation", L + "process_raw.rs")],
     T_BATCH + "; races of real processes", "Exhaustive over spec/Batch.tla's scenario pool (2 files quick, 3 thorough) with interleaved jobs; replay samples the pool. Races depend on the OS scheduler.",
     state=["file tree", "planned jobs"], observe=["file tree", "exit status"])

prop("P09", "Batch: every selected source gets its own output, named and placed predictably",
     "In a batch run exactly the files with a known raw extension (for extract: DNG), in the directory or - with --recursive - in its sub-directories, are processed; the output of each is stored under the same relative directory of the output root with the source's stem and the new extension (for extract: the embedded original name), and two different sources never end up in the same output: later ones get a numbered name. "
     "After the run every output holds the conversion of exactly its own source.",
     ["inputs", "configurations"], "all small sets of colliding stems, extensions, sub-directories and modes",
     "Collisions need specific combinations of stems, extensions and directories in any directory order.",
     BATCH, [("directory scan", L + "filemap.rs"), ("name choice", L + "convert.rs"), ("name choice", L + "process_raw.rs"), ("name choice", L + "extract.rs")],
     T_BATCH + ", outputs identified by their decoded content", "Exhaustive over spec/Batch.tla's scenario pool for all directory orders; replay samples the pool.",
     state=["file tree", "planned jobs"], observe=["file tree"])

prop("P10", "Batch: a failing job leaves no partial output, and success means a complete one",
     "When a job of convert, process-raw or extract fails - undecodable or truncated input, a panic in a decoder, or a disk that fills up at any byte of the output, including the last buffered bytes - no file is left under the output name and the failure is reported. A job that reports success has written its complete output.",
     ["fault_sequences", "crash_points"], "all failing input classes; disk full at every sampled byte position of the output, for several option sets",
     "The error may surface only at the final flush; a test does not fill the disk.",
     BATCH, [("write and clean up", L + "jobs/raw2dng.rs"), ("write and clean up", L + "jobs/extractraw.rs"), ("write and clean up", L + "process_raw.rs")],
     T_BATCH + "; TLA+ model of buffered writing onto a full disk, its verdicts replayed with a file-size limit at sampled byte positions",
     "Disk-full positions are sampled (all interesting boundaries plus random ones). Power loss is not covered.",
     level="fault_injection", state=["output file", "write buffer"], observe=["file tree", "exit status"])

prop("P11", "Batch: exit status and summary tell exactly what happened; one bad file never harms another",
     "The exit status of convert, process-raw and extract is 0 if and only if every selected input was processed successfully, and otherwise is the documented status of a failure that occurred; the printed summary counts exactly the successful and failed files and names the failed ones. "
     "A file that cannot be decoded, read or written, or that makes a decoder panic, fails alone: all other files of the run are processed as if it were absent.",
     ["inputs", "fault_sequences"], "all small mixes of good, bad, unsupported, unreadable, dangling and panicking inputs, any directory order and job count",
     "Abort-on-first-error paths only show for particular mixes and orders.",
     BATCH + ["bin/dnglab/src/main.rs", L + "app.rs"], [("job accounting", L + "convert.rs"), ("job accounting", L + "process_raw.rs"), ("job accounting", L + "extract.rs"), ("exit code", "bin/dnglab/src/main.rs")],
     T_BATCH + ", plus the input/output usage table", "Exhaustive over spec/Batch.tla's scenario pool; replay samples the pool.",
     state=["job results"], observe=["exit status", "printed summary", "file tree"])

prop("P12", "Batch: input files are never modified",
     "No run of convert, process-raw or extract changes, truncates, renames or removes any of its input files - not with --override, not when input and output directory are the same, and not when an output name coincides with another input.",
     ["inputs", "configurations"], "all small input sets with output names colliding with inputs, same or different directories, with and without --override",
     "Needs an output name that coincides with another input of the same run.",
     BATCH, [("override", L + "jobs/raw2dng.rs"), ("override", L + "jobs/extractraw.rs"), ("planning", L + "convert.rs")],
     T_BATCH, "Exhaustive over spec/Batch.tla's scenario pool; replay samples the pool.",
     state=["input files"], observe=["file tree"])

RAWHOST = "; calls into the real library through harness/rawhost"
prop("P13", "Embedded originals come back byte for byte; damage is never extracted as if it were the original",
     "For every raw file of any size and content, a DNG made with the original embedded carries data from which extraction (of dnglab or an independent reader following the DNG container format) restores exactly the original bytes under the original name. "
     "If the embedded data, its index, its blocks (content, number, order) or its digest have been damaged, extraction with checks fails and leaves no file - it never delivers other bytes; without checks it delivers what the blocks hold or fails, and never crashes.",
     ["inputs", "fault_sequences"], "all sizes around block boundaries (in the model: all lengths in units), all single faults of the container, with and without checks",
     "Block-boundary sizes and damaged containers need enumeration; a test has one well-formed sample.",
     ["rawler/src/dng/original.rs", "rawler/src/dng/embedded.rs", "rawler/src/dng/convert.rs", L + "jobs/extractraw.rs"],
     [("compression into blocks", "rawler/src/dng/original.rs OriginalCompressed::compress"), ("decompression and digest", "rawler/src/dng/original.rs decompress"), ("embedding", "rawler/src/dng/convert.rs / writer.rs original_file"), ("extraction", L + "jobs/extractraw.rs")],
     "TLA+ model of the container, its damage and extraction checked with TLC; every explored (length, fault, mode) replayed through the real writer, library reader and `dnglab extract`",
     "Exhaustive in the model (3 units per block, up to 8/13 units); concrete positions of flips and truncations are sampled.",
     state=["container", "fault"], observe=["extracted file", "exit status", "embedded tags"])

prop("P14", "Extraction never writes outside the chosen directory, whatever name the DNG stores",
     "The name stored in a DNG for its original is untrusted: with every stored name (dot-dot and absolute paths, empty names, separators at either end, several strings, control characters, over-long names) extract creates at most one file, directly in the directory the user chose (or the exact file the user named), and touches nothing else, with or without --override. "
     "An ordinary file name is kept unchanged.",
     ["inputs", "configurations"], "all names over a component alphabet up to 4 (5) components x target modes x override",
     "A hostile name is not something a round-trip test contains.",
     [L + "extract.rs", L + "jobs/extractraw.rs"], [("stored name", L + "extract.rs get_original_name/generate_job"), ("output creation", L + "jobs/extractraw.rs")],
     "TLA+ model of name resolution (all component sequences) checked with TLC; the explored names replayed with the real command on a tree with victims around the target, compared completely",
     "Exhaustive over the component alphabet in the model; quick replays all short names and a sample of long ones, thorough all.",
     state=["stored name", "mode"], observe=["file tree", "exit status"])

prop("P19", "Lossless JPEG codec: decode inverts encode, and every valid stream decodes to its image",
     "For every image (any size, 1 to 4 components, 2 to 16 bit precision, any content including maximal jumps) and every predictor 1-7 the lossless JPEG encoder produces a standard-conforming stream from which the standard's decoding procedure, and the own decoder, restore every sample. "
     "The decoder restores the image of every valid stream of other writers too: any canonical Huffman code, shared or separate tables, any component identifiers, skipped application segments, and decoding into a window of a wider strip touches nothing outside the window.",
     ["inputs"], "all images up to a size over the extreme sample values x predictors; generated larger ones of all kinds, including code length distributions beyond 16 bits",
     "Difference categories, over-long codes, marker stuffing and edge predictors appear only for particular contents and sizes.",
     ["rawler/src/ljpeg92.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/decompressors/ljpeg/decompressors.rs", "rawler/src/pumps.rs"],
     [("encoder", "rawler/src/ljpeg92.rs LjpegCompressor"), ("decoder", "rawler/src/decompressors/ljpeg/mod.rs"), ("predictors", "rawler/src/decompressors/ljpeg/decompressors.rs")],
     "TLA+ specification of the lossless process of T.81 (prediction, differences, canonical codes, stuffing); TLC enumerates small images and validates the byte streams recorded from the real encoder" + RAWHOST,
     "Exhaustive over small images of extreme values; streams are interpreted bit by bit by the specification; large images go through an independent decoder.",
     state=["predictors", "code tables", "bit stream"], observe=["stream bytes", "decoded samples"])

prop("P15", "Conversion keeps every sensor sample exactly",
     "The raw image stored in a DNG that dnglab writes holds exactly the samples decoded from the input, all of them, in their place: for every image size, number of samples per pixel, bit depth, photometric type (CFA, linear, monochrome), compression mode, predictor and crop mode. The masked borders are included; cropping only sets tags. "
     "Floating point samples are stored bit for bit without compression; with lossless compression they are scaled so that the white level becomes 65535, truncated to integers. "
     "The tile or strip structure of the file announces exactly the blocks it stores, and padding never becomes part of the image.",
     ["inputs", "configurations"], "all small geometries in the model; sizes around the tile, strip and row rules x photometric x predictor x crop, through the library, the converter and the command",
     "Losses sit in particular sizes (odd widths, one row or column more than a tile), predictors and sample types.",
     ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/tiles.rs", "rawler/src/ljpeg92.rs"],
     [("tiling and strips", "rawler/src/dng/writer.rs raw_image / dng_put_raw_*"), ("tile iterators", "rawler/src/tiles.rs"), ("conversion", "rawler/src/dng/convert.rs convert_raw_stream")],
     "TLA+ model of cutting a raster into blocks checked with TLC on every small geometry; the geometries replayed in the real tiler, the rasters of real output files validated by TLC against the specification" + RAWHOST,
     "Exhaustive over small geometries in the model and in the tiler; the blocks of output files are decoded by an independent reader and probed by TLC, complete rasters compared sample by sample.",
     state=["blocks written", "samples"], observe=["output DNG", "decoded samples"])

prop("P24", "Damaged DNG files yield an error or what is intact: no crash, no hang, no invented samples",
     "Whatever entry of a DNG file's directories is missing, has a wrong type, a wrong count, a pointer beyond the file or a damaged value, alone or together with a second one, and wherever the file is cut off, decoding and converting it end with an image or a reported error, never with a crash, an abort or a hang, and the samples delivered are as many as the image announces. "
     "Damage to descriptive entries (EXIF, GPS, XMP, copyright, dates, thumbnail) leaves the samples of decoding and conversion and all other EXIF and GPS entries as they are; damage to levels, patterns, areas, orientation and colour entries leads to an error or to the same samples. "
     "When the raw image's directory, dimensions or block lists are lost, or a file ends before its directories or before a block of samples is complete, an error is reported. "
     "In a directory with damaged and intact files all intact ones are converted, nothing is left of those that fail, and the command's exit status tells of the failure.",
     ["inputs", "fault_sequences"], "all single and pairs of directory entry faults of the model's kinds over strip and tile files, all cuts at and around part boundaries",
     "A damaged file must take exactly one of the permitted outcomes; each pair of entry and damage reaches other code.",
     ["rawler/src/decoders/mod.rs", "rawler/src/decoders/dng.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/entry.rs", "rawler/src/decompressors/mod.rs", "rawler/src/dng/convert.rs", "bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs"],
     [("plain images", "rawler/src/decoders/mod.rs plain_image_from_ifd/decode_strips/decode_tiles"), ("directories", "rawler/src/formats/tiff/ifd.rs, reader.rs"), ("levels and areas", "rawler/src/decoders/dng.rs"), ("failed jobs", L + "jobs/raw2dng.rs")],
     "TLA+ model of the reading stages and of faults in what each stage needs, checked with TLC; every set of faults it explores is put into real files, decoded and converted and the outcome compared with the model's verdict, outcomes of cut files are validated by TLC" + RAWHOST,
     "All single faults; pairs are sampled in the quick tier. A panic that is caught and reported counts as a reported error. Damage within compressed samples and formats other than DNG are not part of the check.",
     state=["faults", "reading stage"], observe=["decode result", "converted DNG", "exit status", "output directory"])

prop("P26", "A camera file is understood as the image its own metadata and the camera database say",
     "For every supported camera of the uncompressed TIFF-like formats (Nikon NEF/NRW, Sony ARW, Panasonic RW2, Olympus ORF, Pentax PEF, Samsung SRW, Minolta MRW, Hasselblad 3FR, Leaf/Mamiya MOS and MEF, Kodak KDC and DCS, Epson ERF, Arri ARI) the decoded image has the size, colour pattern, white balance, black and white levels, active and crop area which the file's tags and the camera's database entry (for the mode the file is in) define: "
     "database levels come before the file's, per-colour levels belong to the colours of the pattern, scaled or encrypted values are restored, areas are taken from the borders; every sample is read from its place in the raster for the layout, bit depth and byte order of the file. Cameras the database does not know are refused. "
     "The DNG written from such a file, in every crop mode, says the same about the image.",
     ["inputs"], "every camera of the database in these formats; random metadata, byte orders, storage variants and sizes; three crop modes, lossless and uncompressed DNG",
     "There are over 500 cameras with their own borders, levels, patterns and hints and a dozen metadata dialects; sample files exist in no test for most of them.",
     ["rawler/src/decoders/nef.rs", "rawler/src/decoders/arw.rs", "rawler/src/decoders/rw2.rs", "rawler/src/decoders/orf.rs", "rawler/src/decoders/pef.rs", "rawler/src/decoders/srw.rs", "rawler/src/decoders/mrw.rs", "rawler/src/decoders/tfr.rs", "rawler/src/decoders/mos.rs",
      "rawler/src/decoders/mef.rs", "rawler/src/decoders/kdc.rs", "rawler/src/decoders/dcs.rs", "rawler/src/decoders/erf.rs", "rawler/src/decoders/ari.rs", "rawler/src/decoders/camera.rs", "rawler/src/decoders/mod.rs", "rawler/src/rawimage.rs", "rawler/src/dng/writer.rs"],
     [("camera lookup", "rawler/src/decoders/mod.rs get_decoder, check_supported_with_mode, RawLoader::new"), ("image rules", "rawler/src/rawimage.rs RawImage::new"), ("metadata", "rawler/src/decoders/*.rs get_wb, get_blacklevel, get_crop"), ("DNG", "rawler/src/dng/writer.rs raw_image")],
     "TLA+ specification of what a file's facts and a camera's database entry say about the image; files are written from those facts for every camera of the database, decoded and converted by the real code, and TLC validates each result against the specification" + RAWHOST,
     "All cameras of the listed formats, a few files each; rasters below about 200x150. Compressed rasters are P27's subject; Canon, Fuji, Phase One and cameras with masked black areas are not included.",
     observe=["decoded images", "decoded DNG files"])

prop("P27", "Camera sample codecs decode every stream to exactly the samples it stands for",
     "For every stream of the camera makers' own sample codings the decoded image has the size announced and every sample the value the coding defines: Sony ARW 1, ARW 2 with its curve and encrypted SRF, Olympus, Samsung 1, 2 and 3, Panasonic 4 to 8 (12 and 14 bit, split chunks, strips, curves), Kodak 65000, Pentax with fixed and with stored code tables, Nikon lossless and lossy with linearization tables and split rows in both byte orders, Canon CRW with and without low bits, and Leaf's lossless strips with and without interlacing. "
     "This includes every code length, escape codes, the largest differences, predictor changes, clipping at the ends of the range and streams which end with their last code. Where a tone curve is dithered, a sample lies within the dither of its curve value.",
     ["inputs"], "all small images of the encoder model; random streams over all parameters of every codec",
     "A sample codec depends on the whole history of the stream; a wrong branch damages pictures only for rare values and parameters, silently.",
     ["rawler/src/decoders/arw.rs", "rawler/src/decoders/orf.rs", "rawler/src/decoders/srw.rs", "rawler/src/decoders/rw2/v4decompressor.rs", "rawler/src/decoders/rw2/v5decompressor.rs", "rawler/src/decoders/rw2/v6decompressor.rs", "rawler/src/decoders/rw2/v7decompressor.rs", "rawler/src/decoders/rw2/v8decompressor.rs",
      "rawler/src/decoders/dcr.rs", "rawler/src/decoders/pef.rs", "rawler/src/decoders/nef.rs", "rawler/src/decoders/crw.rs", "rawler/src/decoders/mos.rs", "rawler/src/decompressors/ljpeg/huffman.rs", "rawler/src/pumps.rs", "rawler/src/tiles.rs"],
     [("Sony", "rawler/src/decoders/arw.rs decode_arw1, decode_arw2, sony_decrypt"), ("Olympus", "rawler/src/decoders/orf.rs decode_compressed"), ("Samsung", "rawler/src/decoders/srw.rs decode_srw1/2/3"), ("Panasonic", "rawler/src/decoders/rw2/v*decompressor.rs"),
      ("Kodak", "rawler/src/decoders/dcr.rs decode_kodak65000"), ("Pentax", "rawler/src/decoders/pef.rs do_decode"), ("Nikon", "rawler/src/decoders/nef.rs do_decode"), ("Canon", "rawler/src/decoders/crw.rs do_decode"), ("Leaf", "rawler/src/decoders/mos.rs")],
     "TLA+ interpreters of every coding; a TLA+ model of the encoders checked with TLC (whatever is coded sample by sample is read back) whose every finished stream is decoded by the real code; outputs of the real decoders on random streams of independent writers are validated by TLC against the interpreters" + RAWHOST,
     "Images of at most 64x64 samples. Canon CR3, Fuji, Phase One, Kodak RADC and QuickTake codings, JPEG XL and Nikon's small RAW are not modelled.",
     state=["bit position", "predictors", "adaptive lengths"], observe=["decoded samples"])

prop("P28", "Every DNG storage layout is read as exactly the samples stored",
     "Unsigned samples of 1 to 16 bits are read exactly as stored whatever the layout: strips or tiles of any size, adjacent, scattered or in any order in the file, offsets and counts as SHORT or LONG, RowsPerStrip absent or larger than the image, either byte order (8 bit as bytes, 16 bit in the byte order of the file, other depths as bit strings with byte aligned rows), uncompressed or as lossless JPEG in any component arrangement. "
     "Floating point samples of 16, 24 and 32 bits keep their exact value, uncompressed or deflated with any of the three floating point predictors. Interleaved rows and columns are put back in order for all factors, and a linearization table is applied to every sample, dithered by at most half the distance of the neighbouring entries.",
     ["inputs", "configurations"], "all storages of small images over depths, byte orders, blocks; all 16 bit floats; generated larger images of every kind",
     "A layout is a combination of a dozen independent choices; the tests contain a handful of sample files.",
     ["rawler/src/decoders/mod.rs", "rawler/src/decoders/dng.rs", "rawler/src/decompressors/packed.rs", "rawler/src/decompressors/deflate.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/bits.rs", "rawler/src/pixarray.rs"],
     [("block readers", "rawler/src/decoders/mod.rs plain_image_from_ifd/decode_strips/decode_tiles"), ("unpackers", "rawler/src/decompressors/packed.rs"), ("floats", "rawler/src/decompressors/deflate.rs, rawler/src/bits.rs extend_binary_floating_point"),
      ("strip and tile access", "rawler/src/formats/tiff/ifd.rs strip_data/tile_data"), ("linearization", "rawler/src/bits.rs LookupTable")],
     "TLA+ model of storing an image in blocks of packed samples, of the narrow float formats and of interleaving, checked with TLC; every storage TLC reaches is built into a DNG and read by the real decoder, recorded linearizations are validated by TLC" + RAWHOST,
     "Exhaustive over small images x 12 depths x byte orders x layouts, over all half floats; larger images are generated. JPEG XL and lossy JPEG are not covered (no independent encoder here).",
     state=["blocks", "samples"], observe=["decoded samples"])

prop("P16", "Colour pattern, levels, areas, calibration and orientation survive conversion",
     "Every sensor site of the converted DNG has the colour and the black level it has in the source, and white levels, colour plane assignment and the white balance are those of the source (white balance to five decimals), for every repeat pattern, sensor border and crop mode. "
     "The active area and the default crop written are those of the source with crop mode best; with mode activearea the crop is the active area; with mode none the whole sensor is active and nothing is cropped. Patterns are stored relative to the active area written. "
     "Colour matrices, calibration illuminants, forward and calibration matrices, the other profile tags, black level deltas (unless crop mode is none), masked areas, pixel aspect ratio and noise profile of a DNG source are stored unchanged; the orientation is that of the source. "
     "Reading the written DNG again gives these same facts.",
     ["inputs", "configurations"], "all sensor borders of a family x CFA pattern sizes x black level repeat sizes x samples per pixel x crop modes, with random calibration values",
     "Shifts of patterns by borders only show for particular odd offsets, pattern sizes and crop modes together.",
     ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/decoders/dng.rs", "rawler/src/rawimage.rs", "rawler/src/cfa.rs"],
     [("writing of geometry and levels", "rawler/src/dng/writer.rs write_rawimage"), ("white balance, matrices", "rawler/src/dng/writer.rs wbcoeff_to_tiff_value/matrix_to_tiff_value"), ("reading", "rawler/src/decoders/dng.rs get_blacklevels/get_cfa/make_camera"),
      ("copied tags", "rawler/src/dng/convert.rs convert_raw_source"), ("pattern shift", "rawler/src/rawimage.rs BlackLevel::shift, rawler/src/cfa.rs shift")],
     "TLA+ model of the DNG geometry tags, their reading and their writing, checked with TLC; every geometry explored is built into a DNG, converted, and the recorded tags and images are validated by TLC against the specification" + RAWHOST,
     "Exhaustive over the family of geometries in the model; calibration values are sampled. Sensor types dnglab does not support at all (patterns other than 2x2 and 6x6) must be rejected or right; AsShotWhiteXY is not covered (approximated by design).",
     state=["geometry tags", "levels", "calibration tags"], observe=["output DNG", "decoded image"])

prop("P17", "Every DNG that is written is a well-formed TIFF and DNG file",
     "Every DNG that conversion or the DNG writer produces has the structure the TIFF and DNG specifications demand: byte ranges lie inside the file and do not overlap, tags are in ascending order with permitted types and counts that fit (samples per pixel, colours, repeat patterns), exactly one raw image, as many strips or tiles as the dimensions call for, each holding exactly the rows announced or a JPEG stream of the announced size and precision, "
     "white level and black levels that fit, active area, masked areas and default crop inside the sensor, one black level delta per active row and column, versions that permit the features used, at most one form of white balance, and previews of the announced size.",
     ["inputs", "configurations"], "random sources with every optional feature x conversion options; random images through the writer, both validated completely",
     "Rules relate tags to each other; a test looks at the tags its author thought of.",
     ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/formats/tiff/writer.rs", "rawler/src/formats/tiff/value.rs"],
     [("raw image", "rawler/src/dng/writer.rs raw_image/dng_put_raw_*"), ("whole file", "rawler/src/dng/convert.rs convert_raw_source"), ("tiff structure", "rawler/src/formats/tiff/writer.rs")],
     "TLA+ schema and structural rules of DNG files; the structure of every file recorded from the real program (by an independent strict parser) is validated by TLC" + RAWHOST,
     "Sampled over sources, options and images; each file is judged completely. BlackIsZero is accepted for monochrome raw images (deliberate deviation of dnglab from the DNG specification, which lists CFA and LinearRaw).",
     state=["directories", "byte ranges", "data blocks"], observe=["output DNG"])

prop("P20", "A directory tree survives the TIFF structure",
     "Whatever tree of TIFF directories is written - entries of every type (including signed, floating point and rational ones), any number of values, sub directories, data blocks - the file denotes exactly this tree: parts do not overlap, values are stored bit for bit, offsets beyond 4 GiB are refused. "
     "The reader understands every valid file of other writers as the tree it denotes: either byte order, parts in any order and place, values inside the entry or elsewhere, sub directories given as LONG or IFD offsets, chained directories, a TIFF structure inside of a larger stream, and offsets that need a correction.",
     ["inputs"], "all placements of the parts of small trees x byte orders x corrections; all types x counts around the inline limit x bit patterns; generated large trees",
     "Values at the inline limit, unusual types and unusual orders of parts do not occur in sample files.",
     ["rawler/src/formats/tiff/writer.rs", "rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/entry.rs", "rawler/src/formats/tiff/value.rs"],
     [("writer", "rawler/src/formats/tiff/writer.rs DirectoryWriter::build"), ("inline values", "rawler/src/formats/tiff/value.rs as_embedded/write"), ("reader", "rawler/src/formats/tiff/entry.rs parse, ifd.rs IFD::new, reader.rs parse_file")],
     "TLA+ definition of the tree a byte sequence denotes; TLC explores a writer that places the parts in any order and proves that the result denotes the tree; all files explored are read by the real reader, files of the real writer are interpreted by TLC" + RAWHOST,
     "Exhaustive over placements of small trees; large trees are generated, small written files interpreted by TLC, all of them read back.",
     state=["placed parts", "directories"], observe=["file bytes", "directories read"])

prop("P21", "Damaged and cyclic TIFF structures are read to the end, and what is intact is found",
     "Whatever the directories of a TIFF file refer to - each other, themselves, nothing, places outside of the file - reading ends, soon, with a result or an error: never a crash, an endless loop or a large allocation. "
     "Every directory of the chain is delivered once and in order, up to the end of the chain or the first directory already read; a directory keeps every entry that is intact whatever happens to its other entries (values beyond the end of the file, absurd counts, unknown types, bytes all ones), and every sub directory that can be read. "
     "A file that ends within a directory keeps the entries in front of the cut. A chained directory which is unreadable or has no entry is an error.",
     ["inputs"], "all graphs of small directories, all sequences of intact and damaged entries, all cuts of a directory, at random places of the file, byte orders and offset corrections",
     "Cycles and damage are properties of the graph of all directories; sample files are trees.",
     ["rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/entry.rs"],
     [("chain", "rawler/src/formats/tiff/reader.rs parse_file"), ("directory", "rawler/src/formats/tiff/ifd.rs IFD::new"), ("entry", "rawler/src/formats/tiff/entry.rs Entry::parse")],
     "TLA+ model of a reader walking an arbitrary directory graph, checked with TLC (termination, each directory once, intact entries kept); every graph explored is built into a file and read by the real reader" + RAWHOST,
     "Exhaustive over graphs of up to 3 (quick) directories and the entry and cut families; places and contents are random.",
     state=["directories visited", "entries read"], observe=["directories and entries delivered", "errors", "time"])

prop("P22", "ISO base media files (CR3) are understood box by box",
     "The boxes of a file are found whatever their order, nesting, size field (32 bit, 64 bit, to the end of the file) and whatever unknown boxes lie between them; a box never reads beyond its end. "
     "Boxes whose size is smaller than their header or leads out of the surrounding box, a file that is cut, missing mandatory boxes and announced counts that cannot be are an error: no crash of the process, no endless loop, no large allocation. "
     "The position and the length of every sample of a track follow from the sample tables: chunk offsets, samples per chunk by runs, sizes common or individual.",
     ["inputs"], "all permutations of the boxes of each container, all nestings of unknown boxes, all damaged sizes and cuts of a family; all sample tables with small runs and chunks",
     "Which box is found where depends on everything before it; cameras always write the same order.",
     ["rawler/src/formats/bmff/mod.rs", "rawler/src/formats/bmff/stbl.rs", "rawler/src/formats/bmff/stsc.rs", "rawler/src/formats/bmff/stsz.rs", "rawler/src/formats/bmff/co64.rs"],
     [("boxes", "rawler/src/formats/bmff/mod.rs BoxHeader::parse, FileBox::parse"), ("sample tables", "rawler/src/formats/bmff/stbl.rs get_sample_offset")],
     "TLA+ model of nested boxes with a reader that keeps a stack of box ends, and of sample tables, checked with TLC; every box tree and every table explored is written as a file and read by the real parser" + RAWHOST,
     "Exhaustive over the families; the contents of Canon's own boxes (CNCV, CTBO, CMT) are not modelled.",
     state=["stack of boxes", "position"], observe=["boxes and offsets found", "sample positions", "errors"])

prop("P23", "JPEG segments and Canon heap directories are found exactly",
     "Reading a JPEG file finds every segment up to the end of the image with its kind, position and contents, whatever the order of segments, whatever lies in scans (stuffed bytes, restart markers) and behind the image; unknown or damaged application segments are passed over by their length, and the EXIF and XMP data are those of the first intact segment of the kind. "
     "Reading a Canon heap (CRW) finds every entry of all directories; a value is looked up in a directory first and then in its sub directories in order. "
     "Cut files, wrong lengths, directories that contain themselves or each other and tables out of range end in an error or what can still be read: never a crash or an endless loop.",
     ["inputs"], "all sequences of segment kinds, cuts and wrong lengths; all small trees of heap directories and all damaged references",
     "The first segments decide where the next ones are looked for.",
     ["rawler/src/formats/jfif.rs", "rawler/src/formats/ciff/mod.rs"],
     [("segments", "rawler/src/formats/jfif.rs Jfif::parse"), ("heap", "rawler/src/formats/ciff/mod.rs CiffIFD")],
     "TLA+ models of a segment reader and of a depth first heap search, checked with TLC; every file explored is built and read by the real parsers" + RAWHOST,
     "Exhaustive over sequences of up to 3 (quick) segments and heap trees of up to 4 directories; contents are random. Fill bytes before markers are not modelled.",
     state=["segments read", "directory stack"], observe=["segments, EXIF, XMP found", "heap values found"])

prop("P25", "Packed samples are taken from exactly their bits",
     "The readers of uncompressed camera rasters take every sample from exactly the bits its layout assigns, for every size of image and whatever the unused bits contain: 8 to 16 bit samples, big and little endian, in 16 or 32 bit words, with control bytes, padded rows, interlaced fields, skipped lines, left or right aligned, and packed strips of 1 to 16 bits per sample; data that are too short are an error. "
     "The bit readers (LSB, MSB, MSB32, JPEG) deliver every bit of their data once and in order, however the bits are asked for: any mixture of reading, looking ahead, skipping, sign extension and counting zeros gives the same bits; in JPEG data stuffed bytes are removed, a marker or the end of the data is followed by zeros.",
     ["inputs", "histories"], "all packed layouts x sizes, random contents; all short schedules of bit reader operations on small data and random long schedules",
     "A mistake shows for one sample position or one alignment of reads and data end only.",
     ["rawler/src/decompressors/packed.rs", "rawler/src/pumps.rs", "rawler/src/decoders/unwrapped.rs", "rawler/src/decompressors/mod.rs"],
     [("layouts", "rawler/src/decompressors/packed.rs decompress_*"), ("bit readers", "rawler/src/pumps.rs"), ("lines and strips", "rawler/src/decompressors/mod.rs")],
     "TLA+ definition of each layout as a placement of sample bits with a writer proved injective by TLC, and of the bit streams with all operations; the placements explored pack random images for the real unpackers, all short schedules are replayed and random long ones validated by TLC" + RAWHOST,
     "Exhaustive over layouts and a family of sizes (contents random), and over schedules of 3 operations; longer schedules are random.",
     state=["bits used", "stream position"], observe=["decoded samples", "values of bit reader operations"])

prop("P29", "The EXIF facts of a photograph are kept by conversion and development",
     "The photographic facts of the source's main, Exif and GPS directories - exposure, aperture, sensitivity, dates with their zones and fractions, lens specification, make, model and serial numbers, flash, focal length, subject, scene and rendering settings, artist, copyright, image number, orientation and the complete GPS position - are in the converted DNG and in the developed TIFF with the same values in the types Exif prescribes; the Exif directory has precedence over the main directory. "
     "Option --artist replaces the artist of the source; make and model are stored as known to the camera database; a missing orientation is stored as normal; the DNG's LensInfo equals the lens specification. Software and modification date are the conversion's own. "
     "No fact is made up which the source does not contain. With --keep-mtime the output file has the date of the last change given by the source (in its time zone), or the file time of the source where there is none.",
     ["inputs", "configurations"], "all single entries and pairs of entries of the model's values over both directories; random complete sources x convert and process-raw options",
     "A photograph carries some eighty independent facts; one lost or retyped fact is seen by nobody until it is needed.",
     ["rawler/src/exif.rs", "rawler/src/decoders/mod.rs", "rawler/src/decoders/dng.rs", "rawler/src/decoders/camera.rs", "rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/lens.rs", L + "jobs/raw2dng.rs", L + "process_raw.rs"],
     [("reading", "rawler/src/exif.rs Exif::new, extend_from_ifd, extend_from_gps_ifd"), ("writing", "rawler/src/exif.rs write_tags; rawler/src/dng/writer.rs load_metadata"), ("file time", "rawler/src/decoders/mod.rs RawMetadata::last_modified"), ("development", L + "process_raw.rs")],
     "TLA+ specification of the metadata as read directory by directory, changed by options and written; TLC checks that what is written is exactly what the sources and options stand for; every source explored and random complete ones are built, converted and developed by the real program, and TLC validates the entries recorded from the outputs" + RAWHOST,
     "Exhaustive over single entries and pairs of the model, sampled for complete sources. User comments, maker notes, flash energy, second strings of a value and text which is not UTF-8 are not included.",
     state=["facts known", "options"], observe=["directories of the output", "file time"])

prop("P30", "The developed picture shows every sensor site in its place and colour",
     "A raw image developed by process-raw becomes a picture of exactly the size of the crop mode: the default crop (best), the active area, or the whole sensor (none); each pixel shows its own sensor site, with the colour pattern and black levels repeating from the active area's corner. "
     "A monochrome pixel is the sRGB curve of (sample - black) / (white - black). A colour pixel is the colour for which the camera, by its colour matrix (that for D65 if there is one, otherwise adapted from its illuminant), would have measured the white balanced light of that site: in the own colour of the site for mosaic sensors, in all colours where the surroundings are of one colour or change evenly, and in all colours for linear raw images. "
     "This holds for Bayer patterns, X-Trans, four colour mosaics, linear raw and monochrome images of every size, border and parity.",
     ["inputs", "configurations"], "all active areas x crops x patterns of small sensors x crop modes; random images, levels, white balances, matrices and illuminants",
     "Off-by-one shifts of pattern, crop or black level show only for particular odd borders; colours are wrong without anything failing.",
     ["rawler/src/imgop/develop.rs", "rawler/src/imgop/raw.rs", "rawler/src/imgop/xyz.rs", "rawler/src/imgop/srgb.rs", "rawler/src/imgop/matrix.rs", "rawler/src/imgop/sensor/bayer/ppg.rs", "rawler/src/imgop/sensor/bayer/bilinear.rs", "rawler/src/imgop/sensor/bayer/superpixel.rs", "rawler/src/imgop/sensor/xtrans/markesteijn.rs", "rawler/src/rawimage.rs", "rawler/src/cfa.rs", L + "process_raw.rs"],
     [("steps", "rawler/src/imgop/develop.rs RawDevelop::develop_intermediate"), ("demosaicing", "rawler/src/imgop/sensor/*"), ("calibration", "rawler/src/imgop/raw.rs map_3ch_to_rgb, map_4ch_to_rgb"), ("options", L + "process_raw.rs")],
     "TLA+ specification of which site each pixel shows and in what colour, with the steps of development (separate colours in a region, crop) checked against it by TLC; every geometry explored and random images are developed by the real code; TLC validates size, place and value of the pixels, given the light each pixel stands for" + RAWHOST,
     "Geometry exhaustive for small sensors; pixel values sampled. How colours are interpolated at edges of objects is a matter of quality, not of this property; pixels with a channel at its limits are only checked where the limit has no influence on the others.",
     state=["picture", "place of the pattern"], observe=["developed TIFF"])

prop("P31", "makedng writes exactly the DNG it was told to, or nothing",
     "makedng leaves whatever is at its output name untouched unless --override is given and a complete DNG takes its place; inputs are never changed; a failed run leaves nothing of its output and its exit status is not zero, a successful one ends with zero and a complete DNG. "
     "Raw samples, preview and thumbnail are those of the inputs mapped to them (DNG, PNG or TIFF pictures of 8 or 16 bits), EXIF facts and XMP those of the inputs mapped to them, and artist, make, model, unique model name, colour matrices with their illuminants, white balance or white point, linearization table, colorimetric reference and version those of the options.",
     ["inputs", "configurations", "faults"], "all combinations of what is at the output name x override x outcome of the inputs; random mappings, pictures and options",
     "The command has some twenty options and six mappings; a mistake in one of them writes a plausible DNG.",
     [L + "makedng.rs", L + "lib.rs", L + "app.rs", "rawler/src/dng/writer.rs"],
     [("command", L + "makedng.rs makedng, makedng_internal"), ("writer", "rawler/src/dng/writer.rs")],
     "TLA+ specification of the output name (what is there, override, success, crash of the run) checked with TLC, every end state replayed with the real program; the contents of the DNGs written from random pictures and options are recorded by an independent parser and validated by TLC",
     "Outcome space exhaustive; contents sampled. Vignette correction options and lossy inputs are not included.",
     state=["output name", "temporary file"], observe=["files", "exit status", "DNG contents"])
