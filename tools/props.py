PATHS = "abstract interpretation (path- and exception-sensitive typestate)"
PROPS = [
dict(id="P01",
 title="Editing the stored files of an SRR never loses the SRR",
 statement="Adding, removing or renaming stored files either ends with the "
 "complete edited SRR under its own name or leaves the original SRR as it "
 "was: the original is only given up for a replacement that was completely "
 "written and closed, it is never modified in place, and no failure (read "
 "error, write error, failing remove or rename) deletes both copies. A "
 "failure before the replacement takes over, and every normal end, leaves no "
 "temporary file behind.",
 over=["fault_sequences", "inputs", "crash_points"],
 quant="every single failing read, write, close, remove or rename (and every "
 "exception of the block reader) at every point of every editing call, for "
 "every SRR",
 why="The tests edit healthy files on a healthy disk; no test makes a write, "
 "a remove or a rename fail, so every cleanup path is unexecuted.",
 files=["rescene/main.py"],
 mech=[("temporary copy + remove + rename in add_stored_files",
        "rescene/main.py:add_stored_files"),
       ("same for removal", "rescene/main.py:remove_stored_files"),
       ("same for renaming", "rescene/main.py:rename_stored_file")],
 tech=PATHS,
 note="All paths of the three editing entry points with every callee that "
 "touches files inlined, loops to a fixpoint; one failure per call; trusts "
 "the model of the file operations in sa/fs.py."),
dict(id="P02",
 title="A failed or declined creation leaves existing output alone",
 statement="When creating an SRR fails for any reason, is interrupted or is "
 "declined, no partly written SRR stays behind under the name that was being "
 "written and no file that the call did not write itself is removed. The "
 "command line tools for SRR creation, SRS creation and sample rebuilding "
 "give up an existing output file only for a completely written result, so a "
 "failing final rename never leaves the user without both.",
 over=["fault_sequences", "inputs", "crash_points"],
 quant="every exception (I/O error, corrupt archive, missing volume, "
 "unsupported compression, Ctrl+C) at every point of SRR creation and of the "
 "tool functions around it",
 why="Tests cover a few bad inputs; they do not fail writes, renames or "
 "deletes, do not interrupt, and do not look at what was under the output "
 "name before.",
 files=["rescene/main.py", "rescene/srr.py", "rescene/utility.py",
        "resample/srs.py", "bin/pyrescene.py"],
 mech=[("cleanup handlers of the creation functions",
        "rescene/main.py:create_srr, create_srr_single_volume, create_srr_fh"),
       ("temporary name + replace_result", "rescene/utility.py"),
       ("tool level handlers", "rescene/srr.py:create_srr, "
        "resample/srs.py:main")],
 tech=PATHS,
 note="Every normal and exceptional path, Ctrl+C included, of the creation "
 "functions and their tool callers; one failure per call, cleanup calls "
 "succeed."),
dict(id="P03",
 title="An existing file is never overwritten without consent",
 statement="Extracting stored files, rebuilding archives, creating an SRR "
 "(library and command line), creating an SRS and rebuilding a sample never "
 "replace an existing file unless the overwrite question was asked for exactly "
 "that path and allowed it. Each tool's question allows it only when the file "
 "does not exist, with the always-yes option, or after the user answered y; "
 "other answers are asked again, and always-no refuses. After a refusal the "
 "existing file is not touched.",
 over=["inputs", "histories"],
 quant="every option combination, every state of the output directory, every "
 "answer of the user, every archive and stored file of an SRR",
 why="Tests run in empty output directories or replace the question by one "
 "that always agrees; no test has an existing file and a refusing user at "
 "each place that writes.",
 files=["rescene/main.py", "rescene/srr.py", "resample/srs.py",
        "bin/pyrescene.py", "bin/retag.py"],
 mech=[("question before extraction", "rescene/main.py:_extract"),
       ("question per volume", "rescene/main.py:reconstruct"),
       ("question before creation", "rescene/main.py:create_srr, "
        "create_srr_single_volume"),
       ("question of the tools", "rescene/srr.py:main, resample/srs.py:"
        "can_overwrite, bin/pyrescene.py:main, bin/retag.py:main")],
 tech=PATHS,
 note="Merging SRRs, USENET creation and preprardir have no overwrite question "
 "by design and are outside. Files below the working directory of a run count "
 "as its own."),
dict(id="P04",
 title="Names recorded in a file never lead outside the chosen folder",
 statement="Whatever names an SRR, SRS or RAR file contains, extracting, "
 "rebuilding archives, rebuilding samples and fixing tags only create, replace "
 "or remove files below the output folder the user chose, and rebuilding only "
 "opens data files below the input folder: a name with an empty, '.', '..', "
 "null device or separator-carrying element is refused or reduced to its last "
 "part. Conversely, when paths are stored, a file outside the base folder is "
 "stored under its bare name.",
 over=["inputs"],
 quant="every byte string an SRR/SRS/RAR can hold as a name, with either path "
 "option, at every place where a name becomes a path",
 why="Tests use well-behaved release names; containment is about all names "
 "and all places that build a path from one.",
 files=["rescene/utility.py", "rescene/rar.py", "rescene/main.py",
        "resample/srs.py", "bin/retag.py"],
 mech=[("element check", "rescene/utility.py:joinpath"),
       ("name conversion", "rescene/rar.py:os_file_name"),
       ("output path", "rescene/main.py:_opath, _locate_file"),
       ("stored name", "rescene/main.py:_store"),
       ("sample output", "resample/srs.py:main, bin/retag.py:fix_tagging")],
 tech="taint analysis (path-sensitive, interprocedural) with a verified "
 "sanitizer",
 note="Names given by the user on the command line (hints included) are "
 "trusted. Symbolic links on disk are not modelled."),
dict(id="P05",
 title="A created SRR holds every block of every RAR volume exactly once",
 statement="Creating an SRR from an SFV, a RAR or from open files writes the "
 "SRR header first and once, then for each volume one RAR file block followed "
 "by every block of that volume, in order, complete and exactly once (headers "
 "of packed files without the file data, recovery records without the "
 "recoverable data). No block type or flag makes a block disappear from, "
 "double in or reach the SRR incompletely in a creation that is reported as "
 "successful.",
 over=["inputs"],
 quant="every sequence of RAR block types (one of each known type and an "
 "unknown one) in every number of volumes, on all successful paths",
 why="The test archives hold a handful of block sequences; a dropped or "
 "doubled block only shows for archives with that block type at that place.",
 files=["rescene/main.py", "rescene/rar.py"],
 mech=[("copy loop over the volumes and blocks",
        "rescene/main.py:create_srr, create_srr_single_volume, create_srr_fh"),
       ("block types of the reader", "rescene/rar.py:BTYPES_CLASSES")],
 tech="abstract interpretation counting, per block type, how often header and "
 "data of an arbitrary block reach the output",
 note="Decides that the header bytes and data parts of an arbitrary block "
 "reach the output once; trusts that block.block_bytes() returns the bytes "
 "that were read (structurally visible in RarBlock)."),
dict(id="P06",
 title="Reconstruction emits every block of the SRR exactly once",
 statement="Full reconstruction writes, for every volume, every RAR block "
 "that the SRR stores, in order and exactly once, to the output volume of "
 "that name: packed files as header followed by the file data, recovery "
 "records and other blocks as a whole, padding as its bytes; SRR own blocks "
 "are never written. Stored files are extracted once. A successful return "
 "cannot skip a block.",
 over=["inputs"],
 quant="every sequence of block types the SRR reader can return, for every "
 "option combination, on all successful paths",
 why="The tests rebuild a few small volumes with few block types; loss of "
 "e.g. comment, authenticity or padding blocks goes unnoticed without a "
 "matching sample.",
 files=["rescene/main.py"],
 mech=[("block dispatch of reconstruct", "rescene/main.py:reconstruct")],
 tech="abstract interpretation counting, per block type, how often an "
 "arbitrary block reaches the volume being written",
 note="The copying of packed file data (_repack) and the regeneration of "
 "recovery records are taken as one event each; P12 looks inside _repack."),
dict(id="P07",
 title="Edits and merges keep every block they are not asked to change",
 statement="Adding, removing and renaming stored files and merging SRRs copy "
 "every other block of the SRR unchanged, complete, in order and exactly "
 "once; stored files keep their contents directly behind their header. New "
 "files are added exactly once wherever they are placed, exactly the listed "
 "files are removed, and a rename changes only the block of the named file. "
 "A merge drops nothing but the surplus SRR headers.",
 over=["inputs", "histories"],
 quant="every SRR (any sequence of block types), every list of files to add, "
 "remove or rename, on all successful paths",
 why="Each edit test uses one or two SRRs; an SRR with another block order "
 "(no volumes, stored files last, OSO hashes) takes another path.",
 files=["rescene/main.py"],
 mech=[("copy loops", "rescene/main.py:add_stored_files, "
        "remove_stored_files, rename_stored_file, merge_srrs")],
 tech="abstract interpretation counting, per block type, how often an "
 "arbitrary block and its contents reach the new SRR",
 note="Decides block flow on all paths; comparison of names is taken as "
 "written in the code."),
dict(id="P08",
 title="The block reader returns every block as it was written",
 statement="Every SRR block the program writes, and every RAR 1.5-4.x block "
 "of a volume or an SRR, is read back with the fields it was written with: "
 "names, sizes (64 bit ones included), hashes, CRCs, flags. Its block bytes "
 "are exactly the bytes in the file (with the body where it is kept: old "
 "comments, authenticity, kept recovery records, padding behind the archive "
 "end), reading goes on exactly behind the block, and a header that is too "
 "short or longer than the file is refused. SRR blocks keep the documented "
 "on-disk layout.",
 over=["inputs"],
 quant="every value of every field, every name and body length, every "
 "combination of flags, in SRR and in RAR files",
 why="Tests read the blocks of some twenty sample files; a wrong offset, size "
 "or skip only shows with flags, sizes and block types those do not have.",
 files=["rescene/rar.py"],
 mech=[("reader", "rescene/rar.py:RarReader._read"),
       ("fields", "rescene/rar.py:RarPackedFileBlock, RarNewSubBlock, "
        "RarOldRecoveryBlock, RarEndArchiveBlock"),
       ("own blocks", "rescene/rar.py:SrrHeaderBlock, SrrStoredFileBlock, "
        "SrrRarFileBlock, SrrOsoHashBlock, SrrRarPaddingBlock")],
 tech="abstract interpretation over a byte layout domain (fields, symbolic "
 "lengths), write/read agreement per block type",
 note="The decoding of the unicode name and of extended times inside a RAR "
 "file header is not covered."),
dict(id="P09",
 title="An SRS stores the sample without its tracks and is read back as written",
 statement="The SRS made of a sample (AVI, MKV, MP4/MOV, WMV, FLAC, MP3, "
 "M2TS and stream files) is the sample without the data of its tracks, in "
 "order, with the SRS records where the container format allows them. The "
 "file record read back has the application, sample name, size and CRC "
 "written (4 GiB files included), each track record its number, codec data, "
 "size, position and signature, and the music fingerprint is kept.",
 over=["inputs"],
 quant="every value of every size, position and CRC, every name, signature "
 "and content, samples of less and more than 4 GiB, tracks that were and "
 "were not found in the main file, with and without big-file records",
 why="Tests read SRS files made by older versions; whether a new one is "
 "written as it is read depends on flags set for big sizes, positions "
 "and track numbers, which no sample in the tests has.",
 files=["resample/main.py", "resample/srs.py"],
 mech=[("writers", "resample/main.py:avi_create_srs, mkv_create_srs, "
        "mp4_create_srs, wmv_create_srs, flac_create_srs, mp3_create_srs, "
        "stream_create_srs, m2ts_create_srs"),
       ("records", "resample/main.py:FileData, TrackData"),
       ("loaders", "resample/main.py:avi_load_srs, mkv_load_srs, "
        "mov_load_srs, wmv_load_srs, flac_load_srs, mp3_load_srs, "
        "stream_load_srs")],
 tech="abstract interpretation over a byte layout domain (fields, symbolic "
 "lengths), write/read agreement per container",
 note="The samples analysed are fixed container shapes with unknown field "
 "values and contents; other nestings of the containers are not covered."),
dict(id="P10",
 title="A rebuilt sample is only accepted when its CRC matches the SRS file",
 statement="The SRS tool gives a rebuilt sample its final name, and ends with "
 "success, only when the CRC32 over everything written to that file equals "
 "the CRC stored in the SRS file; a mismatch ends with a failure status and "
 "leaves nothing under the final name, unless the user asked to keep failed "
 "results. For every container format the reported CRC covers each written "
 "byte exactly once and in writing order.",
 over=["inputs", "configurations"],
 quant="every container format, every element kind and order in the SRS file, "
 "every combination of retries and options",
 why="The repository carries no media samples, so no test rebuilds AVI, MKV, "
 "MP4 or WMV samples; padding, lacing and retry branches need special files.",
 files=["resample/main.py", "resample/srs.py"],
 mech=[("rebuild functions", "resample/main.py:*_rebuild_sample"),
       ("acceptance of the result", "resample/srs.py:main")],
 tech="abstract interpretation: linear CRC chains matched with the writes; "
 "typestate of the rebuilt file (compared / published / failed); where the "
 "code is of another form, rebuilding over byte layouts of samples",
 note="All paths and loop fixpoints; trusts zlib.crc32, that reading a file "
 "again from the start gives the same bytes, and that elements hold what "
 "their reader parsed."),
dict(id="P11",
 title="Profiling a sample covers every byte; incomplete samples get no SRS",
 statement="When a sample is profiled, every byte of every element (header, "
 "contents, padding) enters the sample CRC exactly once and in file order, for "
 "every supported container. Profiling ends normally only when the parsed size "
 "equals the file size (AVI, MKV, MP4, WMV, FLAC, MP3), and no SRS file is "
 "created for a sample that proved to be incomplete.",
 over=["inputs"],
 quant="every container, every sequence and kind of elements, every element "
 "size, truncation at any point",
 why="There are no media samples among the test files; which element kinds "
 "miss the checksum only shows for files that contain them.",
 files=["resample/main.py", "resample/srs.py"],
 mech=[("profiling functions", "resample/main.py:*_profile_sample"),
       ("SRS creation", "resample/srs.py:main")],
 tech="abstract interpretation: typestate of the parsed element (which parts "
 "were hashed) and linear CRC chain; where the code is of another form, "
 "profiling over byte layouts of samples",
 note="All paths and loop fixpoints over the element readers' interface; what "
 "the readers return as header and contents of an element is trusted."),
dict(id="P12",
 title="Reconstructed archives are verified against their CRCs",
 statement="Unless CRC checking was switched off, every packed file that "
 "reconstruction copies into a volume is hashed over exactly the bytes that "
 "are written, the hash is compared with the CRC stored in the RAR headers, "
 "and a difference is reported. A source file of the wrong size is refused, "
 "data that runs short is never passed off as complete, and zero bytes take "
 "the place of a missing file only when that was asked for.",
 over=["inputs", "configurations"],
 quant="every source file, every split of a packed file over volumes, every "
 "option combination",
 why="The tests rebuild intact sources; they do not try a truncated, modified "
 "or absent source with every combination of volumes and options.",
 files=["rescene/main.py"],
 mech=[("CRC chain over the volumes of a packed file",
        "rescene/main.py:reconstruct, _repack"),
       ("source lookup and size check", "rescene/main.py:_locate_file")],
 tech="abstract interpretation with CRC chain terms: which data enters which "
 "hash, what is compared, what is written; reconstruction over byte layouts "
 "of intact and changed files in several volumes",
 note="CRC chains as terms over the data that is read and written, all paths, "
 "loops to a fixpoint; the arithmetic of zlib.crc32 is trusted."),
dict(id="P13",
 title="Verifying extracted files never accepts a bad file",
 statement="Verification reports success only when every file with a known "
 "CRC exists and the CRC over its whole contents equals the recorded one; a "
 "missing file, a differing CRC or an unreadable file always yields a failure "
 "result. The hash covers the file from first to last byte whatever its size.",
 over=["inputs"],
 quant="every set of recorded files and CRCs, every file content and length",
 why="A test checks a few good and bad files; a last chunk left out, a CRC "
 "restarted per chunk or one bad file masked by a later good one needs "
 "particular sizes and orders.",
 files=["rescene/srr.py", "rescene/main.py"],
 mech=[("verification loop", "rescene/srr.py:verify_extracted_files"),
       ("file CRC", "rescene/main.py:calculate_crc32")],
 tech="abstract interpretation with CRC chain terms and outcome typestate",
 note="All paths of the verification; trusts zlib.crc32 and that info() "
 "returns the recorded CRCs."),
dict(id="P14",
 title="The command line tools exit with failure when the work failed",
 statement="When an operation of one of the command line tools (create, "
 "rebuild, extract, verify, store, sample profiling and rebuilding, retag) "
 "fails, is interrupted by Ctrl+C or reports that it could not do its work, "
 "the tool does not end with exit status 0. Used as a function, the SRS tool "
 "raises an exception instead.",
 over=["inputs", "fault_sequences"],
 quant="every exception and every failure result of every operation the tools "
 "call, for every option combination",
 why="The tests hardly run the tool entry points and check few exit codes; "
 "scripts that drive the tools rely on the status.",
 files=["rescene/srr.py", "resample/srs.py", "bin/pyrescene.py",
        "bin/retag.py", "bin/srr.py", "bin/srs.py"],
 mech=[("exit codes", "rescene/srr.py:main, manage_srr; resample/srs.py:main"),
       ("return codes of the scripts", "bin/pyrescene.py:main, "
        "bin/retag.py:main")],
 tech=PATHS,
 note="Each operation is replaced by its possible outcomes, all paths of the "
 "entry points and the helpers between; uncaught exceptions count as failure "
 "status (traceback)."),
dict(id="P15",
 title="A sample rebuilt from its SRS and track data is the original sample",
 statement="Rebuilding a sample from its SRS and the extracted data of its "
 "tracks writes the sample byte for byte, whatever the container, and "
 "returns the CRC of all bytes written, in order, and none else.",
 over=["inputs"],
 quant="every value of the sizes and positions, every content, per container "
 "shape (lacing, id3 and end tags, several tracks, odd chunks)",
 why="Tests rebuild no sample: the media files are too large to be kept "
 "with them. A wrong CRC or a frame put back at a wrong place is only seen "
 "by a user with the original release.",
 files=["resample/main.py"],
 mech=[("rebuild", "resample/main.py:avi_rebuild_sample, "
        "mkv_rebuild_sample, mp4_rebuild_sample, wmv_rebuild_sample, "
        "flac_rebuild_sample, mp3_rebuild_sample, stream_rebuild_sample"),
       ("container readers", "resample/riff.py, ebml.py, mov.py, asf.py, "
        "flac.py, mp3.py, stream.py")],
 tech="abstract interpretation over a byte layout domain: create, load and "
 "rebuild composed, output compared with the sample",
 note="The track data is taken as extracted correctly; other nestings of "
 "the containers than those analysed are not covered. M2TS rebuilding is "
 "not implemented by the program."),
dict(id="P16",
 title="Volumes rebuilt from their SRR and the files are the original volumes",
 statement="Creating an SRR from a set of (uncompressed) RAR volumes and "
 "rebuilding them from that SRR and the unpacked files gives back every volume "
 "(or every volume asked for), byte for byte, under its name, and nothing "
 "else: for any number of files and volumes, both naming schemes, several sets "
 "with paths, empty files, directories, comments, recovery records and bytes "
 "behind the end. No file that is read is changed. A source file that is "
 "missing or of another size is refused, one with other contents is reported.",
 over=["inputs", "configurations"],
 quant="every content of the files, every value of the fields the tool does "
 "not interpret, per shape of the RAR set",
 why="The tests have a dozen small archives, none of more than 64 KiB of data "
 "in a volume, with paths, several sets or a part of the volumes wanted.",
 files=["rescene/main.py", "rescene/rar.py"],
 mech=[("creation", "rescene/main.py:create_srr, create_srr_fh, _handle_sfv, "
        "_handle_rar"),
       ("reconstruction", "rescene/main.py:reconstruct, _repack, "
        "_write_recovery_record, _locate_file, extract_files"),
       ("RAR blocks", "rescene/rar.py:RarReader")],
 tech="abstract interpretation over a byte layout domain: creation and "
 "reconstruction composed over layouts of RAR sets, the volumes compared",
 note="Shapes of sets are enumerated (some 35), their contents symbolic. "
 "Compressed files need rar.exe and are not covered. The recovery record "
 "arithmetic is compared as terms (XOR of the right sectors, the right CRCs)."),
dict(id="P17",
 title="Files stored in an SRR go in, stay and come out byte for byte",
 statement="An SRR made from RAR volumes holds exactly the header with the "
 "application name, the stored files (unchanged, under their relative path or "
 "bare name, in the order given) and, for every volume, its name and all that "
 "is not file data. Adding, removing or renaming stored files, merging SRR "
 "files and taking files out change or give just what was asked for: all other "
 "stored files, volumes, padding and hash blocks stay, in their order, and "
 "stored bytes come out as they went in. Wrong requests (a name that is there "
 "or is not there, illegal characters, a missing volume, unwanted compressed "
 "files) change nothing and leave nothing behind.",
 over=["inputs", "configurations", "histories"],
 quant="every content of the stored files and volumes, every field value the "
 "tool does not interpret, per shape of the SRR file and of the request",
 why="Tests add, rename or remove one small file in one small SRR file; SRR "
 "files with padding, OSO hashes or no volumes, long contents and sequences "
 "of changes are not among them.",
 files=["rescene/main.py", "rescene/rar.py"],
 mech=[("stored files", "rescene/main.py:extract_files, add_stored_files, "
        "remove_stored_files, rename_stored_file, merge_srrs"),
       ("creation", "rescene/main.py:create_srr, create_srr_single_volume"),
       ("SRR blocks", "rescene/rar.py:SrrStoredFileBlock, SrrHeaderBlock, "
        "SrrRarFileBlock")],
 tech="abstract interpretation over a byte layout domain: the operations on "
 "layouts of SRR files, the results compared with the format",
 note="Requests and shapes are enumerated (some 90), contents symbolic. "
 "Overwrite questions are P03, failure clean-up P01 and P02."),
dict(id="P18",
 title="Profiling a sample records its size, its CRC and all of its tracks",
 statement="Reading a sample (AVI, MKV, MP4, WMV, FLAC, MP3, VOB, M2TS) to make "
 "an SRS records its size, the CRC of all of its bytes, in order, and for each "
 "track of it the number of bytes the track has in the sample and, as "
 "signature, the first bytes of them. A complete sample is never refused as "
 "incomplete.",
 over=["inputs"],
 quant="every value of the fields, sizes and positions, every content, per "
 "container shape",
 why="Tests profile no sample of most kinds: the media files are too large to "
 "be kept with them. A wrong track length or signature shows up as a sample "
 "that cannot be found back years later.",
 files=["resample/main.py"],
 mech=[("profile", "resample/main.py:avi_profile_sample, "
        "mkv_profile_sample, mp4_profile_sample, wmv_profile_sample, "
        "flac_profile_sample, mp3_profile_sample, stream_profile_sample, "
        "m2ts_profile_sample"),
       ("container readers", "resample/riff.py, ebml.py, mov.py, asf.py, "
        "flac.py, mp3.py, stream.py, m2ts.py")],
 tech="abstract interpretation over a byte layout domain: the profiler is run "
 "on layouts of samples, what it records compared with the layout",
 note="Other nestings of the containers than those analysed are not covered; "
 "the audio fingerprint (an external program) is taken as given."),
dict(id="P23",
 title="The listing of an SRR tells what the SRR was made of",
 statement="info() of an SRR file lists its application, its stored files with "
 "their sizes, its volumes with their original sizes and the CRCs the stored "
 "SFVs give, the packed files with their size and CRC, whether they are "
 "compressed, the size of the recovery data and the OSO hashes. content_hash() "
 "is taken over what is kept of the RAR volumes, in the order of their "
 "lower-case names, and depends on neither the stored files, the application "
 "name nor the order of the volumes in the SRR.",
 over=["inputs"],
 quant="every content, size, CRC and hash value of the SRR's blocks, per SRR "
 "shape",
 why="Tests list some SRRs of few shapes: none has recovery records over "
 "several volumes, padding, upper-case SFV names or several sets in one.",
 files=["rescene/main.py"],
 mech=[("listing", "rescene/main.py:info"),
       ("content hash", "rescene/main.py:content_hash")],
 tech="abstract interpretation over a byte layout domain: info() and "
 "content_hash() are run on layouts of SRR files, what they return is compared "
 "with what the layout was made of",
 note="Shapes other than those analysed and the printed form of the listing "
 "are not covered."),
dict(id="P24",
 title="Track data is taken out of the main file from the found place on",
 statement="Given where the tracks of a sample start in the main file (AVI, MKV, "
 "MP4, WMV, FLAC, MP3, VOB and other stream files), extracting them keeps for "
 "each track exactly its bytes from there on, in order and none of another "
 "track, at least as many as the sample has of it. MKV frames get the start "
 "that the main file strips and the sample does not, and lose the start that "
 "only the sample strips; attachments in front of the data come out whole.",
 over=["inputs"],
 quant="every content of the tracks and other parts, start position and length "
 "as the cases say, per container shape",
 why="Tests hold no main movies: the extraction of AVI, MKV and WMV tracks "
 "runs in none of them from another place than the start.",
 files=["resample/main.py", "resample/riff.py", "resample/ebml.py"],
 mech=[("extraction", "resample/main.py:avi_extract_sample_streams and its "
        "counterparts for the other containers"),
       ("lacing and stripping", "resample/main.py:_mkv_block_extract; "
        "resample/ebml.py:GetBlockFrameLengths"),
       ("MP4 chunks", "resample/main.py:TrackStream")],
 tech="abstract interpretation over a byte layout domain: the extraction is run "
 "on layouts of main files, what it keeps of the tracks is compared with the "
 "layout",
 note="Where the tracks are is given (P20 is not claimed). M2TS is left out, "
 "such samples cannot be rebuilt; starts inside of a WMV payload and AVI "
 "starts found by the index are not covered."),
dict(id="P25",
 title="A packed file read through its RAR volumes is that file",
 statement="RarStream over RAR volumes (any number, both naming schemes, the "
 "named file or else the first one, from its first volume or from a later one) "
 "answers every sequence of seek, read, tell and length calls as a plain file "
 "with the bytes of the packed file would; compressed files, unknown names and "
 "a wrong first volume are refused. The OSO hash that is computed for a file or "
 "a packed file, and that a created SRR stores for a video file with its bare "
 "name and size, is the size plus the 64 bit little endian words of the first "
 "and the last 64 KiB modulo 2**64; smaller files are refused.",
 over=["inputs", "histories"],
 quant="every content of the packed file and of the volumes' other parts, per "
 "set of volumes and sequence of calls",
 why="Tests read one small set; reads and seeks across several volume borders, "
 "empty parts, other files and long headers in front are not among them, nor "
 "is a hash over more than one volume.",
 files=["rescene/rarstream.py", "rescene/osohash.py"],
 mech=[("reading", "rescene/rarstream.py:RarStream"),
       ("hash", "rescene/osohash.py:_osorg_hash; rescene/main.py:create_srr")],
 tech="abstract interpretation over a byte layout domain: the stream is driven "
 "over layouts of RAR volumes, each answer compared with that of a plain file; "
 "the hash is compared as a multiset of symbolic words",
 note="Sets and sequences of calls are enumerated, contents symbolic. FakeFile "
 "is not covered."),
dict(id="P19",
 title="Compressed archives are rebuilt bit for bit",
 statement="Given the RAR executables, reconstruction of compressed archives "
 "finds the version and settings that were used and gives back the original "
 "volumes byte for byte.",
 over=["inputs", "configurations"],
 quant="every compressed file, every installed RAR version",
 why="No RAR executable comes with the tests.",
 files=["rescene/main.py"],
 mech=[("search for the version", "rescene/main.py:CompressedRarFile, "
        "search_matching_rar_executable")],
 na="Whether a volume comes out right is decided by what an external, closed "
 "program (rar) writes for a given input; its output is no function of the "
 "source that is analysed. What follows from the source (nothing outside the "
 "folders, CRCs compared, exit status) is in P03, P04, P12 and P14."),
dict(id="P20",
 title="A sample's tracks are found in the main movie where they are",
 statement="Searching the main file for the signatures of an SRS finds, for "
 "each track, the position from which the track data is that of the sample, "
 "whenever there is one.",
 over=["inputs"],
 quant="every main file that contains the sample's data",
 why="Tests hold no movie of which a sample can be found.",
 files=["resample/main.py"],
 mech=[("search", "resample/main.py:avi_find_sample_streams and its "
        "counterparts for the other containers")],
 na="The answer depends on where in gigabytes of unknown data a signature "
 "matches and on false matches before it: a runtime quantity over unbounded "
 "contents with no invariant in the source that bounds it. A wrong position "
 "is never passed off as success (P10), and what is taken from a right "
 "position is decided in P24."),
dict(id="P21",
 title="The audio fingerprint is the one Chromaprint defines",
 statement="The fingerprint stored for music equals what Chromaprint defines, "
 "for all files.",
 over=["inputs"],
 quant="every content of the files",
 why="Tests sample a few files of fixed size.",
 files=["resample/fpcalc.py"],
 mech=[("fingerprint", "resample/fpcalc.py:fingerprint")],
 na="The fingerprint is computed by an external program (fpcalc), whose output "
 "is no function of the source that is analysed. The OSO hash is decided in "
 "P25; that a stored fingerprint is kept is part of P09."),
dict(id="P22",
 title="Reading any damaged file comes to an end",
 statement="Whatever bytes a RAR, SRR, SRS or media file holds, reading it ends "
 "with a result or an exception in time proportional to its size.",
 over=["inputs"],
 quant="every byte sequence as file",
 why="Tests hold a handful of damaged files.",
 files=["rescene/rar.py", "resample/riff.py", "resample/ebml.py",
        "resample/mov.py", "resample/asf.py", "resample/flac.py",
        "resample/mp3.py", "resample/stream.py", "resample/m2ts.py"],
 mech=[("readers", "the read and move_to_child/skip_contents methods of the "
        "readers")],
 na="Progress of the readers hangs on sizes read from the file against the "
 "position after a seek; a ranking argument needs relations between these "
 "numbers that the term domain does not keep. Not claimed also because it "
 "does not hold: an MP4 atom with a 64 bit size of 0 and an ASF object of "
 "size 0 are read again and again (see DESIGN.md)."),
]
