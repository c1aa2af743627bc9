D = r'''# Static verification of pyReScene

Every check parses `/repo`'s current Python source on each run and decides one
property from it. Nothing of `/repo` is imported or executed, no solver is
involved. A finding names file, line, function and the rule.

## Machinery

| file | what it does |
|---|---|
| `check.py ID [tier]` | runs one rule, prints findings, writes `evidence/ID.json`; exit 0 / 1 / 2 (2: an anchor vanished, never a silent pass) |
| `sa/project.py` | parses all modules below `rescene`, `resample`, `bin`, `usenet`, `scripts`; resolves names, imports, classes, methods; transitive "may reach" relation of the call graph (decides which callees are looked into) |
| `sa/absint.py` | abstract interpreter over the syntax tree: path sensitive, exception sensitive, interprocedural (callees that can reach an observed operation are inlined, the others are one abstract result), loops to a fixpoint. Values are terms over inputs; facts are learnt on branches and met on joins; the state of the property automaton keeps paths apart |
| `sa/fs.py` | the model of file operations (open, temp files, write, close, remove, rename, exists) shared by the rules |
| `sa/blockflow.py` | how often header and data of an arbitrary block reach the output |
| `sa/crc.py`, `sa/crcflow.py` | CRC chains as terms (which data, starting value, order) |
| `sa/layout.py` | the byte layout domain: a file is a sequence of constant bytes, fields (format, value) and runs of unknown bytes with a (symbolic) length; read, write, seek, tell, slices, `struct`, comparison of layouts |
| `sa/srs.py`, `sa/samples.py` | layouts of samples and SRS files of all containers, the operations of the SRS tool on them |
| `sa/volumes.py`, `sa/rarsets.py` | the same for RAR volumes, SRR files and the folders around them |
| `sa/live.py` | liveness of names, to merge states that differ only in dead values |
| `sa/rules/pNN.py` | one rule per property |
| `tools/props.py`, `tools/meta.py` | table of properties; writes MANIFEST.json and properties.jsonl |
| `tools/mutants/`, `tools/refactor.py`, `tools/sweep.py`, `tools/seed.py` | development only: hand written mutants (bugs and edits that must stay quiet), behaviour keeping transformations of the whole tree, mechanical mutation sweep, bug planting |

What a rule looks at is found by role (the function the tools call for an
operation, a parameter, a returned object), and what it judges is the sequence
of observable operations and the data that flows into them, so extracting a
helper, reordering independent statements or rewriting a loop does not change
the verdict. Each mutant table holds such refactorings next to the bugs.

When an analysis exceeds its budget (steps, states, or wall clock: 300 s for one
analysis, 660 s for a check) it is reported as "NOT DECIDED" in the evidence
notes and never as an alarm. A value the domain cannot express makes the path
"vague" from there on: nothing is claimed about it, and a difference on it is no
alarm. Both are counted in the evidence.

### Two kinds of analysis

*Typestate / flow rules* (P01-P07, P10-P14) quantify over every input: the
functions are interpreted with unknown arguments and unknown file contents,
every call may raise, loops go to a fixpoint. Their verdict holds for all
inputs, schedules of failures and histories, up to the model of the library
calls.

*Layout rules* (P08, P09, P15-P18, P23-P25 and a part of P10-P12) quantify over contents
but not over shapes: numbers, CRCs, hashes and the bytes of the files are
unknown, while what follows what in the file (which blocks, how many volumes,
how long a run of bytes is where the code branches on it) is that of a finite
family of layouts. The layouts are generated so that every block type, every
flag that changes a size, every container element, boundary sizes (0, 1, the
width of a field, beyond 32 bits) and every operation of the API occurs. It is
abstract interpretation of the source in a domain of byte layouts: the result
of a run is the layout of what is written, which is compared part by part with
the format. A program that treats a *shape* outside the families differently is
out of reach of these rules (it is not out of reach of the flow rules that
cover the same functions).

## Properties and how they are decided

**P01 Editing never loses the SRR.** Typestate of the edited SRR and its
replacement over `add_stored_files`, `remove_stored_files`,
`rename_stored_file`/`renameto`: file contents by path (original, new, partial,
gone), handles by state (open, written, closed). Each call may raise. On every
exit the SRR name holds the original or a closed, completely written
replacement; no temporary file is left. Oracle: the automaton. Reaches every
failure point, tests reach none.

**P02 A failed creation leaves existing output alone.** Same typestate for the
four creation functions and the three command line tools including the
"temporary name, then replace" helpers; also the interruption by Ctrl+C and a
declined question. Removing is only allowed for files the call itself wrote.

**P03 No overwrite without consent.** Every open for writing, rename target and
external extraction must be dominated by a positive answer of the overwrite
question about exactly that path (term equality modulo path normalisation) or by
the knowledge that it does not exist; then the question functions themselves are
interpreted: True only when the file does not exist, always-yes, or an answer
starting with y.

**P04 Names do not lead outside.** Taint of names read from SRR/SRS/RAR
files into path arguments; the sanitizer is not trusted by name: it is
interpreted itself on all element classes (empty, `.`, `..`, separators,
absolute, NUL). Conversely `_store` on layouts of paths.

**P05/P06/P07 No block is lost.** An arbitrary block (unknown type and flags, then
per type) is followed through the loop over the reader: how often header, data
are written to the output per path; more or less than once, out of order, or a
path that skips a block and still reports success is the violation. Type and
flag conditions are learnt on branches, so "never for type X" is found.

**P08 Block reader.** For every block class: the layout written by the
constructor is read back by the reader; RAR blocks of all types from layouts
with all size-changing flags. The fields, `block_bytes`, and the position after
the block are compared. Too short headers must be refused.

**P24 Extraction.** The samples of P18 serve as main files. For each container the
positions where tracks start (first frame, later frames, inside of a frame, the
last frame of a cluster, different places per track) and the wanted lengths are
given; what the extraction writes to the temporary file of each track must begin
with the wanted bytes of that track of the layout, whatever these bytes are. For
MKV all four combinations of stripped frame starts, with every lacing.

**P25 Reading packed files.** `RarStream` is driven by scripts (all at once, in
parts, forwards and backwards around every volume border, relative to here and to
the end, behind the end) on layouts of sets: other files, folders, comments and
long headers in front, empty parts, both naming schemes, starts in the middle. A
plain file with the bytes of the packed file says what each call answers. The OSO
hash: sums of 64 bit words are held in a normal form (multiset of symbolic words
and a constant, modulo 2**64), so order, grouping and place of the masking do not
matter but each word must enter exactly once; sizes that are no multiple of 8, one
to four volumes. Found and repaired: without a name the first file of *every*
volume was glued together.

**P23 Listing.** `info()` and `content_hash()` are run on layouts of SRR files
(stored files before and behind, recovery records, comments, sizes that only the last volume tells, padding, several sets,
compressed members, OSO hashes, SFVs); each field of what they return is compared with
the term the layout was made of: a size must be the size of the volume that the
SRR came from, a CRC the CRC of that member, the hash the digest of exactly the
kept blocks in name order.

**P09/P15/P18 SRS files.** For each container (AVI, MKV, MP4/MOV, WMV, FLAC, MP3,
M2TS, VOB and the other stream files) a family of samples. P18: profile
the sample, compare size, CRC chain, track sizes and signatures. P09: write the
SRS, compare with sample minus tracks plus records; load it back. P15: rebuild
from SRS and track data, compare with the sample byte for byte, and the CRC
chain returned.

**P10 A rebuilt sample is accepted by CRC only.** (1) typestate of the rebuilt
file in the tool: published only on the branch where the compared CRC is that of
the SRS record; (2) per rebuilder: the CRC is a linear chain over exactly the
data written, in order.

**P11 Profiling looks at every byte.** Typestate of the element: header,
contents, padding each enter the CRC once, in order; then the size test that ends
profiling; then the tool: no SRS after an incomplete sample.

**P12 Reconstruction checks CRCs.** The CRC chain in `_repack` and the packers
covers what is written, it is compared with the recorded CRC and a difference
fires the CRC event; sizes are tested before; short data raises. Cases on
layouts with changed, short, missing files over several volumes decide the
same end to end.

**P13 Verification.** Every path that ends in success has, for each file of the
list, an existing file and an equality between the CRC over all its contents and
the recorded one.

**P14 Exit status.** Exceptional and "reported failure" results of every
operation are followed through `main()` of the tools to `exit`/return; status 0
on such a path is the violation.

**P16 RAR sets come back.** Create and reconstruct composed over families of sets:
volumes, naming schemes, flags, Unicode names, directories, comments, recovery
records, padding, several sets, partial reconstruction, renamed files. Output
folder compared with the original volumes.

**P17 Stored files.** The API operations on layouts of SRR files; the
resulting SRR is compared with the format description, file by file.

## Not applicable

Listed with the reason in MANIFEST.json (`not_applicable`):

NA_TABLE

## Limits

* The model of the libraries (os, glob, struct, zlib.crc32 as an uninterpreted
  linear chain, tempfile) is trusted and written for Linux, Python 3.
* `-s` wildcards: the documentation of `add_stored_files` says wildcards are
  accepted, `escape_glob` escapes them, so a wildcard never matches more
  than itself. The two contradict each other on purpose (names with brackets must
  work), nothing is claimed about wildcards.
* Crash points inside one library call (a torn `write`, power loss between
  `remove` and `rename`) are not distinguished: between `os.remove` and
  `os.rename` the complete new file exists under its temporary name, which P01
  accepts as "not lost".
* Concurrency of two processes editing the same SRR is not modelled.
* Unconditional trust in `RarReader` for P05-P07 is discharged by P08.

## Genuine defects found and repaired

One `fix:` commit each in /repo; `known_findings.txt` lists them
(`fixed:` lines, suppressing nothing):

FIXED

No finding is left unrepaired in the claimed properties (no `finding:` lines).
Seen outside the claimed properties and not repaired: parsers that do not
terminate on some malformed files (mov.py: 64 bit atom of length 0; asf.py:
object of size 0; stream.py: marker size 0; mp3.py: files below 128 bytes),
`MakeEbmlUInt(127)`, the wrong seek in m2ts.py's search, `explain` texts of
some RAR blocks, `info()` of Unicode names, `merge_srrs` not asking before it
overwrites.

## Planted bugs and the checks that catch them

Every change below passes the stable tests, has a demonstration, and is caught by
the check of its property (`VIOLATION property=...`). Bugs that the stable
tests turned out to notice were dropped.

SEEDS

Misses on first contact of the last round, and what was strengthened:

* p17-add-drops-late-data, p17-merge-order: no layout had a stored file behind
  the RAR blocks, and no merge had two stored files in its first SRR; such
  layouts were added.
* p17-merge-order, p17-sfv-first: `sorted(key=...)`, `list.sort`, slice
  assignment and `del` of items made a value unknown ("not decided"); they are
  modelled now.

Beyond them, `tools/mutants/*.py` holds some 360 hand written edits (bugs,
for which the named check must alarm, and refactorings, marked `=`, for which
it must stay quiet), and `tools/sweep.py` applies mechanical mutations to the
code in scope and gives those that the stable tests let pass to the checks.

## False alarms met and corrected

`tools/refactor.py` rewrites the whole tree in 22 ways that keep the
behaviour (conditions inverted or nested, early returns, augmented assignments
expanded, results and arguments in temporaries, `for` to `while`, helpers
extracted, names changed, `with` to `try`, conditional expressions, f-strings,
comparisons unchained, guards, `else` behind a jump, ...). All checks are run on all
trees. What alarmed or gave no answer was corrected in the machinery, never by
loosening a rule; the last ones:

* P10, P11: the CRC chain was followed syntactically; where the code is of another
  form, the layouts decide now (sum of what was written against what was
  hashed).
* P12: the same, by cases with intact and changed files in several volumes.
* P16: `super()` with arguments in nested functions, comprehensions over more
  than six items cut short, `any(map(...))` and constant strings in loops were
  modelled too coarsely.
* live names: states that differ in dead names only are merged, extracted helpers
  no longer make the number of states explode.
* time: a value that was unknown at the head of a nested loop made a check run
  without end; every analysis has a time limit now (not decided, no alarm).

SWEEP
'''
import glob, json
seeds = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"].strip(), d["what_it_breaks"].strip()))
D = D.replace("SEEDS", "| change | check | needs | breaks |\n|---|---|---|---|\n" + "\n".join(seeds))
fx = []
for l in open("/verif/known_findings.txt"):
    if l.startswith("fixed:"):
        p = l.split(None, 3); fx.append("* %s (%s): %s" % (p[1][9:], p[2], p[3].strip()))
D = D.replace("FIXED", "\n".join(fx))
TT = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("/verif/properties.jsonl")}
m = json.load(open("/verif/MANIFEST.json"))
D = D.replace("NA_TABLE", "\n".join("* **%s** %s. %s" % (x["property"], TT[x["property"]], x["reason"]) for x in m.get("not_applicable", [])) or "(none)")
try: D = D.replace("SWEEP", open("/tmp/sweep.md").read())
except OSError: D = D.replace("SWEEP", "")
open("/verif/DESIGN.md", "w").write(D)
