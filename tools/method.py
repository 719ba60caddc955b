M["P01"] = """*Specified*: `spec/Ftp.tla` - the session as a state machine (login state, working directory, data connection, file tree), one action per command.
`MCFtpAuth` explores every login state for three user tables (password users, password-less users, anonymous on/off). *Oracle*: the reply codes and the tree of the
model's successor state. *Cost*: seconds in TLC, ~10 s replay. The login state is history dependent; tests have no notion of it."""
M["P02"] = """*Specified*: path resolution in `Ftp.tla` over trees with links to inside, outside and nowhere, and a sibling whose name extends the root's name.
TLC checks that no action changes anything outside the root; every edge is replayed on a real tree and the complete tree, inside and outside, is compared after each command."""
M["P03"] = """*Specified*: the reply sequence of every command in every data-connection state (`MCFtpData`). Replay issues a barrier command after each step, so an extra or missing reply is seen at once; pipelined sessions check order and QUIT."""
M["P04"] = """*Specified*: the tree effect of each command; replay compares complete trees and transferred bytes. Sweeps over payload sizes around buffer boundaries and awkward names extend the model's abstract contents."""
M["P05"] = """*Specified*: `spec/FtpLine.tla`, the incremental decoder fed by arbitrary segments; TLC proves that its output depends on the concatenation only. The streams are sent to the server in several segmentations."""
M["P06"] = """*Specified*: two sessions over one tree (`MCFtpIso`), all interleavings replayed; histories of truly concurrent sessions are recorded and validated by TLC (`FtpTrace.tla`)."""
M["P08"] = """*Specified*: `spec/Batch.tla` - scan, plan (name choice), per-job make-room / exclusive-create / finish steps interleaved up to the concurrency, a foreign `Race` action. Invariant `NoClobber`.
*Conformance*: the model's scenarios are materialised and run; the `Race` action is realised with an interposer which creates the foreign file immediately before the process creates (or renames onto) the output, plus races of real processes."""
M["P09"] = """*Specified*: `Plan`, `Name`, `Wanted` of Batch.tla for every listing order; outputs are attributed to sources by decoding their pixels."""
M["P10"] = """*Specified*: `NoPartial`/`FailedLeavesNothing` of Batch.tla and `spec/DiskFull.tla` (a buffered writer onto a bounded disk; errors surface at a spill or at the last flush). Its verdict for (size, room) is replayed with RLIMIT_FSIZE."""
M["P11"] = """*Specified*: `Accounted`, `Isolation`, `FirstErr`, `UsageExit` of Batch.tla."""
M["P12"] = """*Specified*: `InputsStay` of Batch.tla."""
M["P13"] = """*Specified*: `spec/Original.tla` - embedding as blocks + index + digest, a `Tamper` step with every single fault, extraction. TLC checks `NeverWrong`, `RoundTrip`, `Blocks`.
*Conformance*: containers of all boundary sizes from the real writer are read by an independent parser; foreign containers are given to the real reader; each (length, fault, checks) of TLC is realised on concrete bytes and given to `dnglab extract`."""
M["P14"] = """*Specified*: `spec/ExtractName.tla` - a stored name as a sequence of components (including empty, dot, dot-dot), target modes, override; invariants `Contained`, `Kept`. Every name is materialised (absolute ones point into the scratch directory), the complete tree around the target is compared."""
M["P19"] = """*Specified*: `spec/Ljpeg.tla` - T.81's lossless process: predictors, modulo-2^16 differences, categories, canonical codes, byte stuffing, as a decoder working on a byte stream.
`MCLjpeg` enumerates small images of extreme values and proves predictor round trips; the images go through the real encoder, whose streams `LjpegTrace` interprets, and through the real decoder. Foreign streams (random canonical tables) come from an independent writer."""

M["P15"] = """*Specified*: `spec/Layout.tla` - the grid of blocks, the sample at every position of every block and its inverse; `MCLayout` proves on every small geometry that each sample is stored once and found again.
*Conformance*: the geometries go through the real tile iterators; rasters of files written by the library, the converter and the command are decoded by an independent reader, compared completely with the source and handed to TLC (`LayoutTrace.tla`) as announced geometry, block lengths and probes. *Cost*: 15 s quick."""
M["P26"] = """*Specified*: `spec/Cameras.tla`: which entry of the camera database belongs to a file (make, model, mode), the raster layout (names of `Packing.tla`), white balance in every maker's dialect (Nikon's plain, NRW and encrypted records, Sony's SR2 block, Olympus' image processing directory ...), black and white levels, active and crop areas, and the value of each sample as bits of the raster. `CamTrace.tla` judges decoder results and the DNG written from the file.
*Bound to the code*: `lib/cams.py` writes a file from random facts for every camera of `rawler/data/cameras` in these formats; the real decoder's and converter's results are validated by TLC record by record. White balance is compared in units of 1/4096 (the written neutral point in its own resolution); DCS samples within the dither of their table. Files whose crop is not inside their active area contradict themselves and are only decoded.
*Oracle*: the specification; the database is read by an independent TOML reader, so the loader's rules (modes, aliases, borders) are part of what is checked."""
M["P28"] = """*Specified*: `spec/Storage.tla` (bit strings, byte order, byte aligned rows) over the blocks of `Layout.tla`, `MCFloats.tla` (widening of narrow floats with exact integer values), `MCInterleave.tla` (a field-by-field writer against the reader's address computation), `LinearTrace.tla` (table with bounded dither).
*Conformance*: every terminal state of `MCStorage` carries the stored bytes and the image; it is wrapped into a DNG with varying placement, types, photometric and nesting and read by the real decoder. *Cost*: 30 s quick."""
M["P16"] = """*Specified*: `spec/Geometry.tla` - what active area, default crop, CFA pattern and black level tags say about every sensor site; reading (patterns moved to the sensor's corner) and writing for each crop mode; `MCGeometry` proves on the family of geometries that reading, writing and reading again keeps every site's colour and black level and that areas stay where they are.
*Conformance*: each geometry explored is built into a DNG with random calibration (matrices of three illuminants, neutral, deltas, masked areas, profile tags, orientation) or handed to the writer in sensor coordinates, converted, parsed by an independent strict parser and decoded again; `GeometryTrace.tla` validates tags, images and values. *Cost*: 30 s quick."""

M["P17"] = """*Specified*: `spec/DngTrace.tla` - permitted types and counts of every tag, and the rules relating tags, blocks and byte ranges. *Conformance*: 1,200 (thorough 16,000) files made by the converter, the writer and the command from random sources and options are recorded by the strict parser `lib/tiff.py` and validated by TLC, which names the rule broken. *Cost*: 15 s quick."""
M["P20"] = """*Specified*: `spec/Tiff.tla` - `FileDenotes`: header, directories, entries, inline and external values, sub directories, chains, corrections. `MCTiff` is a writer placing the parts of a tree in any order with gaps; TLC proves `Meaning` (the file denotes the tree) and `Laid` (no overlap).
*Conformance*: each finished file is given to the real reader (alone and inside a larger stream, through both entry points); each tree is written by the real writer and the bytes are interpreted by TLC (`TiffTrace.tla`). Positions around 4 GiB are tried with a contentless stream. *Cost*: 35 s quick."""
M["P21"] = """*Specified*: `spec/MCLinks.tla` - a reader walking an arbitrary graph of directories (chain pointers, sub directory pointers, damaged entries, a cut). TLC checks that it ends, delivers each directory of the chain once and keeps what is intact.
*Conformance*: each explored graph is laid out at random places, in either byte order, with a base and an offset correction, and read by the real reader; directories, entries, values and errors are compared, with a time limit. *Cost*: 27 s quick."""
M["P22"] = """*Specified*: `spec/MCBoxes.tla` - boxes of 32 bit, 64 bit and open size, unknown boxes, damaged sizes and counts, cuts, and a reader with a stack of box ends; `spec/MCSamples.tla` - chunk runs, sizes and offsets against a walk over all samples.
*Conformance*: every tree and table is written as a file and read by the real parser; offsets and sizes of all boxes, brands, and sample positions are compared. *Cost*: 53 s quick."""
M["P23"] = """*Specified*: `spec/MCJfif.tla` (markers, lengths, scans, first intact EXIF/XMP, cuts and wrong lengths) and `spec/MCCiff.tla` (depth first look up in a heap with repeated, cyclic and broken directories). *Conformance*: files of all sequences and trees with random contents against the real parsers. *Cost*: 26 s quick."""
M["P25"] = """*Specified*: `spec/Packing.tla` - `Place(layout, w, h, r, c, b)`, the bit of the file that holds bit b of a sample, for 20 camera and 17 strip layouts; `MCPacking` writes row by row and TLC proves that no bit is used twice and all lie in the bytes needed. `spec/Pump.tla` - the four bit streams and the result of each operation; `MCPump` proves that every schedule delivers a prefix of the stream.
*Conformance*: the placements pack random images (unused bits random) for the real unpackers; every schedule of 3 operations on a family of data is replayed; random schedules are recorded and validated by `PumpTrace.tla`. *Cost*: 50 s quick."""
M["P24"] = """*Specified*: `spec/MCFaults.tla` - reading in stages (structure, selection, location, decoding, levels, description), each needing some entries; a fault stops its stage or changes what this stage delivers. TLC checks that every run ends within `Allowed`, the verdict derived from the places of the faults. `FaultsTrace.tla` judges cut files from the ends of their parts.
*Conformance*: every fault set is realised in strip/tile, raw/lossless-JPEG, II/MM files and decoded and converted; batches mix damaged and intact files. *Oracle*: the verdict, and the samples and entries of the undamaged file. *Cost*: 35 s."""
M["P27"] = """*Specified*: `spec/Codecs.tla` - for each coding an interpreter from bytes to samples (bit order, prefix codes, difference signs, predictors, adaptive lengths, curves), and whether the bytes are a well formed stream at all. `spec/MCCodecs.tla` codes images sample by sample (Sony 1, Olympus, Pentax, Samsung 2, Panasonic 8); TLC checks for all images of the shapes that the interpreter reads back what was coded.
*Conformance*: all 16,000 streams of the model go through the real decoders; `CodecTrace.tla` validates the real decoders' samples on random streams written by `lib/codecs.py`, which shares nothing with the interpreters (a stream the interpreter calls malformed is a tool error, not an alarm). *Oracle*: the interpreters. *Cost*: 25 s."""
M["P29"] = """*Specified*: `spec/Metadata.tla` - the list of facts (tag, type, kind of value, directory) and `Output(src, opt)`, the entries the output must contain; `MCMetadata` reads the directories one after another, applies the options and writes, TLC checks `Kept`, `Honest`, `OneEach` and `Same`.
*Conformance*: every source explored is built as a DNG and converted/developed by the real code; random sources with dozens of facts go through the command line; `MetadataTrace.tla` validates the entries of the output in both directions (nothing lost, nothing made up); file times are compared in seconds. *Oracle*: the specification, and an independent strict TIFF parser."""
M["P30"] = """*Specified*: `spec/Develop.tla` - `Picture`, `Site`, `ColourAt`; `MCDevelop` performs the steps of development on every small geometry and TLC checks `Shown` and `Coloured`. `DevelopTrace.tla` states the law of the values: size, and for each pixel the light measured at its site against the light the camera would measure of the developed colour.
*Conformance*: all geometries and random images (random levels, white balances, matrices for up to two illuminants; images with noise, plain areas and ramps, so that interpolation is forced) are developed by the library and by the command. The inverse of the colour pipeline (sRGB curve, XYZ, Bradford) is an independent numpy computation; tolerances cover its rounding only."""
M["P31"] = """*Specified*: `spec/MakeDng.tla` - the output name before, during and after a run, with `Kept` and `Ended`; `MakeTrace.tla` - what a DNG made from given inputs and options must contain. *Conformance*: every end of `MCMakeDng` (what is there x override x outcome) is run with the real program as an unprivileged user in a scratch directory, and the tree compared; 150+ random calls with pictures from independent writers are validated by TLC."""
