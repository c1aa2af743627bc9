"""P16: RAR volumes rebuilt from their SRR and the files in them are the
volumes."""
from .. import rarsets
from ..core import Result, analyse, parallel
from ..project import AnalysisError
from ..rarsets import DIR, Member, P, Set, fixed, record, volume
from ..absint import K, is_k
from ..layout import driver, pieces
from ..srs import lay, raw
from ..volumes import Volumes

ID = "P16"
NEW, FIRST, VOL = 0x10, 0x100, 0x1

# names with Unicode, and how they are in a RAR header (see unrar, encname.cpp)
NAMES = (
	("UTF-8", "\u00e9\u4e16.bin", "\u00e9\u4e16.bin".encode("utf-8")),
	("Latin", "\u00e9t\u00e9.bin", b"_t_.bin\0\0\x00\xe9t\xe9.\x00bin"),
	("one high byte", "\u0434\u0430.bin",
	 b"__.bin\0\x04\x50\x34\x30.b\x00in"),
	("two bytes", "\u0434\u4e16\u00e9.n", b"___.n\0\x04\x60\x34\x16\x4e\xe9."
	 b"\x00n"),
	("runs of the plain name", "dir\u4e16\u0444abc.bin",
	 b"dir__abc.bin\0\x04\xe7\x01\x16\x4e\x44\x05"),
	("runs of the plain name, moved", "\u0451\u0452\u0453a.bin",
	 b"ABCa.bin\0\x04\xf0\x81\x10\x03"),
	("runs of the plain name, moved round", "\u0431\u0432\u0433.bin",
	 b"abc.bin\0\x04\xf0\x81\xd0\x02"),
	("nine characters", "\u0431\u0432\u0433\u0434.b\u0131\u4e16n",
	 b"____.bi_n\0\x04\x55\x31\x32\x33\x34\x0a\x2e\x62\x31\x01\x16\x4e"
	 b"\x00n"),
)


def cases(tier):
	count = [0]

	def member(name, *sizes, **kw):
		"""a file with so many bytes in every volume"""
		parts = []
		for n in sizes:
			count[0] += 1
			parts.append([raw("d%d" % count[0], n)] if n else [])
		return Member(name, parts, **kw)

	def one(title, *ms, **kw):
		src = {m.name.decode().replace("\\", "/"): m.all() for m in ms
		       if m.flags & DIR != DIR}
		body = [x for m in ms for x in m.part(0)]
		body = list(kw.pop("first", ())) + body + list(kw.pop("last", ()))
		v = {k: kw.pop(k) for k in ("end", "pad") if k in kw}
		src.update(kw.pop("sources", {}))
		return Set(title, {"a.rar": volume(0, kw.pop("arc", 0), *body, **v)},
		           src, ["a.rar"], **kw)

	def old(title, **kw):
		m = member(b"movie.bin", 5000, 5000, 300)
		return Set(title, {
			"a.rar": volume(0, VOL, *m.part(0)),
			"a.r00": volume(1, VOL, *m.part(1)),
			"a.r01": volume(2, VOL, *m.part(2))},
			{"movie.bin": m.all()}, ["a.rar"], **kw)

	yield one("one volume", member(b"movie.bin", 1000))
	yield one("one volume and stored files", member(b"movie.bin", 1000),
	          stored={"a.nfo": lay(raw("nfo", 77)), "b.m3u": lay()})
	yield old("volumes with old names")
	m = member(b"movie.bin", 5000, 5000, 300)
	yield Set("volumes with new names", {
		"a.part1.rar": volume(0, VOL | NEW | FIRST, *m.part(0)),
		"a.part2.rar": volume(1, VOL | NEW, *m.part(1)),
		"a.part3.rar": volume(2, VOL | NEW, *m.part(2))},
		{"movie.bin": m.all()}, ["a.part1.rar"])
	def several(title, **kw):
		a, b = member(b"a.bin", 800), member(b"b.bin", 200, 1000, 10)
		c = member(b"c.bin", 500)
		return Set(title, {
			"a.rar": volume(0, VOL, *(a.part(0) + b.part(0))),
			"a.r00": volume(1, VOL, *b.part(1)),
			"a.r01": volume(2, VOL, *(b.part(2) + c.part(0)))},
			{"a.bin": a.all(), "b.bin": b.all(), "c.bin": c.all()},
			["a.rar"], **kw)

	yield several("several files in several volumes")
	for n in ("a.rar", "a.r00", "a.r01"):
		yield several("%s of a set with several files is wanted" % n,
		              expect=[n], rebuild=", srr_part=%r" % n)
	yield several("all but the first volume are wanted",
	              expect=["a.r00", "a.r01"], rebuild=", srr_part='a.r0*'")
	yield several("one volume is wanted, no CRCs", expect=["a.r01"],
	              rebuild=", srr_part='a.r01', skip_rar_crc=True")
	m = member(b"movie.bin", 0x20000 + 123, 0x10000, 0x10001)
	yield Set("volumes of more than 64 KiB", {
		"a.rar": volume(0, VOL, *m.part(0)),
		"a.r00": volume(1, VOL, *m.part(1)),
		"a.r01": volume(2, VOL, *m.part(2))},
		{"movie.bin": m.all()}, ["a.rar"])
	yield one("an empty file and a directory", member(b"dir", 0, flags=DIR),
	          member(b"none.bin", 0), member(b"dir\\movie.bin", 100))
	yield one("comments", member(b"movie.bin", 1000), first=pieces(fixed(
		"ccrc", 0x7A, 0x8000, ("f", "<L", K(50)), ("f", "<L", K(90)),
		("f", "<B", K(2)), ("f", "<L", P("x1")), ("f", "<L", P("x2")),
		("f", "<B", K(20)), ("f", "<B", K(0x33)), ("f", "<H", K(3)),
		("f", "<L", K(0)), ("kb", b"CMT"))) + (raw("cmt", 50),))
	yield one("an old comment block", member(b"movie.bin", 1000),
	          first=pieces(fixed("ccrc", 0x75, 0, ("f", "<H", K(20)),
	                             ("f", "<B", K(20)), ("f", "<B", K(0x30)),
	                             ("f", "<H", P("cc")), raw("oldcmt", 20))))
	yield one("bytes behind the archive end", member(b"movie.bin", 1000),
	          pad=(
		("f", "<H", P("p1")), ("f", "<B", P("p2")), ("f", "<H", P("p3")),
		("f", "<H", P("p4")), raw("pad", 33)))
	yield one("two bytes behind the archive end",
	          member(b"movie.bin", 1000), pad=(("kb", b"\0\0"),))
	yield one("no archive end block", member(b"movie.bin", 1000),
	          end=("kb", b""))
	for what, before, n in (("", False, 2), ("", False, 1), ("old ", True, 2)):
		a = member(b"movie.bin", 1200)
		h, b = record(pieces(volume(0, 0, *a.part(0), end=lay())), n, before)
		yield one("a %srecovery record with %d sectors" % (what, n), a,
		          last=h + b)
	yield one("LARGE_FILE", member(b"movie.bin", 1000, large=True))
	yield one("extended times", member(b"movie.bin", 1000, flags=0x1000,
	                                   tail=(raw("ext", 5),)))
	yield old("one volume of many is wanted", expect=["a.r00"],
	          rebuild=", srr_part='a.r00'")
	yield old("the last volume is wanted", expect=["a.r01"],
	          rebuild=", srr_part='a.r01'")
	yield old("some volumes are wanted", expect=["a.r00", "a.r01"],
	          rebuild=", srr_part='a.r0*'")
	yield old("the first volume is wanted", expect=["a.rar"],
	          rebuild=", srr_part='a.rar'")
	m = member(b"movie.bin", 1000)
	yield Set("a renamed file", {"a.rar": volume(0, 0, *m.part(0))},
	          {"other.bin": m.all()}, ["a.rar"],
	          rebuild=", hints={'movie.bin': 'other.bin'}")
	yield one("files of the same name", member(b"x\\movie.bin", 500),
	          member(b"y\\movie.bin", 400), member(b"movie.bin", 300),
	          member(b"x", 0, flags=DIR), member(b"y", 0, flags=DIR))
	m = member(b"movie.bin", 1000)
	yield Set("a renamed file, to be searched for",
	          {"a.rar": volume(0, 0, *m.part(0))},
	          {"sub/other.bin": m.all(), "sub/a.bin": lay(raw("nope", 999)),
	           "movie.avi": lay(raw("nope2", 1000))}, ["a.rar"],
	          rebuild=", auto_locate_renamed=True")
	yield one("stored files not wanted", member(b"movie.bin", 1000),
	          stored={"a.nfo": lay(raw("nfo2", 77))}, expect=["a.rar"],
	          rebuild=", extract_files=False")
	for what, name, raws in NAMES:
		m = member(raws, 100, flags=0x200)
		yield Set("a name that is not ASCII, %s" % what,
		          {"a.rar": volume(0, 0, *m.part(0))}, {name: m.all()},
		          ["a.rar"])
	a, b = member(b"a.bin", 800), member(b"b.bin", 700)
	yield Set("two sets, paths kept", {
		"CD1/a.rar": volume(0, 0, *a.part(0)),
		"CD2/b.rar": volume(1, 0, *b.part(0))},
		{"a.bin": a.all(), "b.bin": b.all()}, ["CD1/a.rar", "CD2/b.rar"],
		create=", True")
	a, b = member(b"a.bin", 800), member(b"b.bin", 700)
	yield Set("two sets, paths not wanted", {
		"CD1/a.rar": volume(0, 0, *a.part(0)),
		"CD2/b.rar": volume(1, 0, *b.part(0))},
		{"a.bin": a.all(), "b.bin": b.all()}, ["CD1/a.rar", "CD2/b.rar"],
		create=", True", rebuild=", False", flat=True)
	a, b = member(b"a.bin", 800), member(b"b.bin", 700)
	yield Set("two sets of the same name, paths kept", {
		"CD1/a.rar": volume(0, 0, *a.part(0)),
		"CD2/a.rar": volume(1, 0, *b.part(0))},
		{"a.bin": a.all(), "b.bin": b.all()}, ["CD1/a.rar", "CD2/a.rar"],
		create=", True")
	many = 102 if tier == "thorough" else 13
	for first, names in (
			("a.rar", ["a.rar"] + ["a.%s%02d" % (c, i) for c in "rs"
			                       for i in range(100)][:many]),
			("a.part001.rar", ["a.part%03d.rar" % (i + 1)
			                  for i in range(many)]),
			("a.part01.rar", ["a.part%02d.rar" % (i + 1) for i in range(11)]),
			("a.001", ["a.%03d" % (i + 1) for i in range(12)])):
		m = member(b"movie.bin", *[9] * len(names))
		new = NEW if "part" in first else 0
		yield Set("%s, %d volumes" % (first, len(names)), {
			n: volume(i, VOL | new, *m.part(i))
			for i, n in enumerate(names)}, {"movie.bin": m.all()}, [first])
	a = member(b"movie.bin", 1000)
	rar = {"a.rar": volume(0, 0, *a.part(0))}
	yield Set("a file with other contents", rar,
	          {"movie.bin": lay(raw("other", 1000))}, ["a.rar"],
	          warn=("CRC",), others={"/out/a.rar": volume(
	              0, 0, *(a.kept(0) + (raw("other", 1000),)))}, expect=())
	yield Set("a file of another size", rar,
	          {"movie.bin": lay(raw("short", 999))}, ["a.rar"],
	          fails=("InvalidFileSize",))
	yield Set("a file that is not there", rar, {}, ["a.rar"],
	          fails=("FileNotFound", "FileNotFoundError"))
	yield Set("not the first volume", {"a.r00": rar["a.rar"]}, {}, ["a.r00"],
	          fails=("ValueError",))
	a = member(b"movie.bin", 1000, method=0x33)
	yield Set("a compressed file, not wanted",
	          {"a.rar": volume(0, 0, *a.part(0))}, {}, ["a.rar"],
	          fails=("ValueError",))
	a, b = member(b"a.bin", 700, 800), member(b"b.bin", 9)
	yield Set("an SFV file", {
		"a.rar": volume(0, VOL, *a.part(0)),
		"a.r00": volume(1, VOL, *(a.part(1) + b.part(0)))},
		{"a.bin": a.all(), "b.bin": b.all()}, ["a.sfv"],
		{"a.sfv": lay(b"; made by\r\na.r00 12345678\r\n"
		              b"a.rar 9abcdef0\r\n")},
		steps='\tcreate_srr("/srr/x.srr", ["/in/a.sfv"], "/in")\n'
		'\treconstruct("/srr/x.srr", "/data", "/out")\n')


def names(p, res):
	"""the name of the next volume, for whole sets"""
	old = ["a.rar"] + ["a.%s%02d" % (c, i) for c in "rstuv"
	                   for i in range(100)]
	fi = p.func("rescene.utility", "next_archive")
	for seq, args in ((old, ""), (["A.part01." + x[2:] for x in old], ", True"),
	                  (["a.part%03d.rar" % i for i in range(1, 1000)], ""),
	                  (["a.part%02d.RAR" % i for i in range(1, 100)], ""),
	                  (["a.%03d" % i for i in range(1000)], "")):
		for a, b in zip(seq, seq[1:]):
			src = "def f(x):\n\treturn next_archive(%r%s)\n" % (a, args)
			m = Volumes(p)
			I, outs = analyse(p, res, m, driver(p, "rescene.utility", src))
			got = [v for k, _st, v in outs if k == "return"]
			if len(got) != 1 or len(outs) != 1 or not is_k(got[0]):
				res.incomplete = True
				res.notes.append("NOT DECIDED: next_archive(%r)" % a)
			elif got[0] != K(b):
				res.bad("volume-names", "%s:%d" % (
					fi.mod.rel, fi.node.lineno), fi.full,
					"after %s comes %s" % (a, got[0][2]))
				break
			else:
				res.ok("after %s comes %s" % (a, b))


def run(p, tier="quick"):
	cs = list(cases(tier))
	res = Result(
		"round trip over byte layouts: create_srr() and then reconstruct() "
		"are interpreted, all paths, on %d kinds of RAR sets whose file data, "
		"CRC fields and times are symbols: every volume made is the volume "
		"there was, part by part; the CRC, size and missing-file messages "
		"come when they should and only then; no input changes and no other "
		"file is left" % len(cs))
	res.assumptions.append(
		"the header CRC fields of the sets are right; a CRC over different "
		"data is different; os.path and glob as on Linux; rar.exe is not run")

	def job(c):
		return lambda r: rarsets.rebuilt(p, r, c)
	ns = parallel(res, [job(c) for c in cs])
	for c, n in zip(cs, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing is rebuilt" % c.title)
	names(p, res)
	res.need(4 * len(cs) + 1500, "comparisons")
	return res
