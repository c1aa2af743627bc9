"""P17: files kept in an SRR go in, stay and come out as they are."""
from .. import rarsets
from ..core import Result, parallel
from ..layout import length, pieces
from ..project import AnalysisError
from ..rarsets import BEFORE, Member, P, Set, arc, end, padding, record, srr, \
	stored, volume
from ..absint import K
from ..rules.p08 import RAR_MARK, hdr
from ..srs import lay, raw

ID = "P17"
X = "/srr/x.srr"
APP = b"pyReScene other"


def oso(name):
	return hdr(K(0x6B6B), K(0x6B), K(0), ("f", "<Q", P("osize")),
	           ("f", "<Q", P("ohash")), ("f", "<H", K(len(name))),
	           ("kb", name))


def cases(tier):
	count = [0]

	def some(n=77):
		count[0] += 1
		return lay(raw("s%d" % count[0], n))

	def member(name, *sizes, **kw):
		parts = []
		for n in sizes:
			count[0] += 1
			parts.append([raw("sd%d" % count[0], n)] if n else [])
		return Member(name, parts, **kw)

	def two():
		"""a set of two volumes, what is kept of them"""
		m = member(b"movie.bin", 500, 400)
		return m, {"a.rar": volume(0, 1, *m.part(0)),
		           "a.r00": volume(1, 1, *m.part(1))}, (
			("a.rar", pieces(volume(0, 1, *m.kept(0)))),
			("a.r00", pieces(volume(1, 1, *m.kept(1)))))

	def made(title, infiles, stored, want, vols=None, kept=None, args="",
	         **kw):
		m, v, k = two()
		v, k = vols or v, kept or k
		kw.setdefault("others", {X: srr(want, *k)})
		kw.setdefault("expect", ())
		kw.setdefault("value", True)
		return Set(title, v, {}, infiles, dict(stored), steps=(
			"\tgot = create_srr(%r, %r, '/in', %r%s)\n" % (
				X, ["/in/" + n for n in infiles],
				kw.pop("names", ["/in/" + n for n, _b in stored]), args)),
			**kw)

	# -- making an SRR ---------------------------------------------------
	a, b, c = ("a.nfo", some()), ("sub/b.srs", some(9)), ("e.m3u", lay())
	yield made("nothing stored", ["a.rar"], [], [])
	yield made("stored files, no paths", ["a.rar"], [a, b, c], [
		a, ("b.srs", b[1]), c])
	m, v, k = two()
	yield made("stored files and paths", ["a.rar"], [a, b, c], [a, b, c],
	           args=", True")
	yield made("stored files by relative names", ["a.rar"], [a, b, c],
	           [b, a], names=["sub/b.srs", "a.nfo"], args=", True")
	d = [("[1] a.nfo", some()), ("1.nfo", some(3)), ("x/b[c].nfo", some(4)),
	     ("x/bc.nfo", some(5))]
	yield made("names with brackets", ["a.rar"], d, d[::2], args=", True",
	           names=["/in/[1] a.nfo", "x/b[c].nfo"])
	yield made("a name no SRR file may have", ["a.rar"], [("b?.nfo", some())],
	           [], fails=("AttributeError",), others={})
	yield made("stored files that are not there", ["a.rar"], [a, b, c],
	           [a], names=["/in/b.nfo", "a.nfo", "sub/c.srs"],
	           warn=("FILE_NOT_FOUND",))
	s = ("a.sfv", lay(b"a.rar 12345678\na.r00 12345678\n"))
	yield made("the SFV is stored", ["a.sfv"], [a, s], [a, s], names=[
		"/in/a.nfo"])
	yield made("only the SFV is stored", ["a.sfv"], [s], [s], names=[])
	yield made("OSO hashes", ["a.rar"], [], [], vols={
		"a.rar": volume(0, 0, *member(b"a.bin", 10).part(0))},
		others={X: None}, args=", oso_hash=True")
	m = member(b"movie.bin", 40, 50, 60)
	names = ["sub/a.part1.rar", "sub/a.part2.rar", "sub/a.part3.rar"]
	fl = [0x111, 0x11, 0x11]
	vols = {n: volume(i, fl[i], *m.part(i)) for i, n in enumerate(names)}
	kept = [(n, pieces(volume(i, fl[i], *m.kept(i))))
	        for i, n in enumerate(names)]
	yield made("volumes in a folder, paths", names[:1], [a], [a], vols, kept,
	           args=", True")
	yield made("volumes in a folder, no paths", names[:1], [a], [a], vols, [
		(n[4:], k) for n, k in kept])
	behind = (("f", "<H", P("p1")), ("f", "<B", P("p2")), ("f", "<H", P("p3")),
	          ("f", "<H", P("p4")), raw("behind1", 33))
	m = member(b"movie.bin", 1000)
	yield made("bytes behind the end", ["a.rar"], [], [], {"a.rar": volume(
		0, 0, *m.part(0), pad=behind)}, [("a.rar", pieces(
			volume(0, 0, *m.kept(0), pad=padding(*behind)[1:])))])
	h, body = record(pieces(volume(0, 0, *m.part(0), end=lay())), 2)
	yield made("a recovery record", ["a.rar"], [], [], {"a.rar": volume(
		0, 0, *(m.part(0) + h + body))}, [("a.rar", pieces(volume(
			0, 0, *(m.kept(0) + h))))])
	m = member(b"movie.bin", 5 << 30, large=True)
	e = member(b"end.bin", 10)
	yield made("more than 4 GiB", ["a.rar"], [], [], {"a.rar": volume(
		0, 0, *(m.part(0) + e.part(0)))}, [("a.rar", pieces(volume(
			0, 0, *(m.kept(0) + e.kept(0)))))])
	m = member(b"movie.bin", 1000, method=0x33)
	packed = {"a.rar": volume(0, 0, *m.part(0))}
	yield made("compressed files", ["a.rar"], [], [], packed, [
		("a.rar", pieces(volume(0, 0, *m.kept(0))))], args=", False, True")
	yield made("compressed files are not wanted", ["a.rar"], [], [], packed,
	           fails=("ValueError",), others={})
	yield made("a volume of the SFV is missing", ["a.sfv"], [a, s], [], {
		"a.rar": v["a.rar"]}, fails=("FileNotFound",), others={})
	yield made("not the first volume", ["a.r00"], [a, s], [], {
		"a.r00": v["a.r00"]}, fails=("ValueError",), others={})
	m, v, k = two()
	yield made("another file name to write to", ["a.rar"], [a], [], v, k,
	           args=", tmp_srr_name='/srr/y.srr'",
	           others={"/srr/y.srr": srr([a], *k)})
	yield Set("one volume", v, {}, [], expect=(), value=True, steps=(
		"\tgot = create_srr_single_volume(%r, '/in/a.r00')\n" % X),
		others={X: srr([], k[1])})

	# -- changing one ------------------------------------------------------
	old = [("a.nfo", some()), ("sub/b.srs", some(9)), ("e.m3u", lay()),
	       ("Zz/\u00c9.txt", some(100000))]

	def change(title, steps, want, files=(), start=old, more=None, **kw):
		m, v, k = two()
		if more is not None:
			k, kw["more"] = (), more
		opt = {x: kw.pop(x) for x in ("app", "more") if x in kw}
		was = srr(start, *k, **opt)
		now = {} if "fails" in kw else {X: srr(want, *k, **opt)}
		now.update(kw.pop("others", {}))
		return Set(title, {}, {}, [], dict(files), files=dict(
			{X: was}, **kw.pop("inputs", {})), expect=(),
			steps="".join("\t%s\n" % t for t in steps), others=now, **kw)

	new = [("n.nfo", some()), ("CD1/n.sfv", some(5))]
	flat = [(n.split("/")[-1], l) for n, l in new]
	add = "add_stored_files(%r, ['/in/n.nfo', '/in/CD1/n.sfv'], '/in'%s)"
	music = []
	tail = list(pieces(lay(
		hdr(K(0x7171), K(0x71), K(1), ("f", "<H", K(5)), ("kb", b"x.rar")),
		RAR_MARK, arc(7), end(8), padding(raw("behind2", 44)),
		oso(b"m.mkv"))))
	late = ("late.sfv", some(50))
	blocks = list(tail)
	tail += pieces(stored(late[0], *pieces(late[1])))
	for what, more in (("", None), (" to an SRR without volumes", music),
	                   (" to an SRR with all kinds of blocks", tail)):
		yield change("files added" + what, [add % (X, ", True")], old + new,
		             new, more=more)
		yield change("files added without paths" + what, [add % (X, "")],
		             old + flat, new, more=more)
		yield change("one file removed" + what, [
			"remove_stored_files(%r, ['sub/b.srs'])" % X],
			old[:1] + old[2:], more=more)
		yield change("files removed" + what, [
			"remove_stored_files(%r, ['a.nfo', 'Zz/\u00c9.txt'])" % X],
			old[1:3], more=more)
		yield change("all files removed" + what, [
			"remove_stored_files(%r, %r)" % (X, [n for n, _b in old])],
			[], more=more)
		for a, b in (("a.nfo", "some/longer name.nfo"), (
				"sub/b.srs", "b.srs"), ("e.m3u", "f.m3u"),
				("Zz/\u00c9.txt", "\u4e16\u754c.txt")):
			yield change("%s renamed to %s%s" % (a, b, what), [
				"rename_stored_file(%r, %r, %r)" % (X, a, b)],
				[(b if n == a else n, l) for n, l in old], more=more)
	yield change("one file added to an SRR without volumes", [
		"add_stored_files(%r, '/in/n.nfo', '/in')" % X], old + new[:1],
		new[:1], more=music)
	yield change("files added and removed", [add % (X, ", True"), (
		"remove_stored_files(%r, ['n.nfo', 'CD1/n.sfv'])" % X)], old, new)
	yield change("a file added, renamed and taken out", [
		"add_stored_files(%r, ['/in/n.nfo'], '/in')" % X,
		"rename_stored_file(%r, 'n.nfo', 'info/n.txt')" % X,
		"extract_files(%r, '/out')" % X],
		old + [("info/n.txt", new[0][1])], new[:1], others=dict(
			[("/out/" + n, l) for n, l in old + [("info/n.txt", new[0][1])]]))
	yield change("renamed there and back", [
		"rename_stored_file(%r, 'sub/b.srs', 'sub/bbbb.srs')" % X,
		"rename_stored_file(%r, 'sub/bbbb.srs', 'sub/b.srs')" % X], old)
	yield change("no file of that name to remove", [
		"remove_stored_files(%r, ['b.srs', 'nothing'])" % X], old)
	yield change("no file of that name to rename", [
		"rename_stored_file(%r, 'b.srs', 'c.srs')" % X], old,
		fails=("FileNotFound",))
	yield change("a new name with illegal characters", [
		"rename_stored_file(%r, 'a.nfo', 'a:b.nfo')" % X], old,
		fails=("AttributeError",))
	yield change("a file that is there added", [
		"add_stored_files(%r, ['/in/x.nfo', 'a.nfo'], '/in')" % X], old,
		[("a.nfo", some()), ("x.nfo", some())], fails=("DupeFileName",))
	yield change("no file to add", [
		"add_stored_files(%r, ['b.jpg'], '/in')" % X], old,
		warn=("FILE_NOT_FOUND",))
	yield change("the first volume is no SRR", [
		"add_stored_files('/in/v.rar', ['/in/n.nfo'], '/in')"], old,
		new[:1] + [("v.rar", two()[1]["a.rar"])], fails=("NotSrrFile",))

	# -- taking files out ---------------------------------------------------
	def out(title, args, names, flat=False, **kw):
		ps = ["/out/" + (n.split("/")[-1] if flat else n) for n in names]
		all = dict(kw.get("start", old) + kw.pop("found", []))
		return change(title, ["got = extract_files(%r, '/out'%s)" % (
			X, args)], kw.get("start", old), others=dict(zip(ps, [
				all[n] for n in names])),
			value=[(n, True) for n in ps], **kw)

	every = [n for n, _b in old]
	yield out("all files taken out", "", every)
	yield out("all files taken out, no paths", ", False", every, True)
	yield out("one file taken out", ", packed_name='a.nfo'", ["a.nfo"])
	yield out("one file taken out by its base name", ", packed_name='b.srs'",
	          ["sub/b.srs"])
	yield out("one file taken out by its path",
	          ", packed_name='sub/b.srs'", ["sub/b.srs"])
	yield out("no such file to take out", ", packed_name='c.srs'", [])
	yield out("no such path to take out", ", packed_name='other/b.srs'", [])
	yield out("files taken out by a function",
	          ", matcher=lambda n: n.endswith('.srs')", ["sub/b.srs"])
	yield out("files behind the volumes taken out", "", every + ["late.sfv"],
	          more=tail, found=[late])
	same = [("x/s.txt", some(4)), ("y/s.txt", some(5))]
	yield out("two files of the same name taken out",
	          ", packed_name='s.txt'", ["x/s.txt", "y/s.txt"], start=same)
	yield out("one of two files of the same name taken out",
	          ", packed_name='y/s.txt'", ["y/s.txt"], start=same)

	# -- several put together -----------------------------------------------
	m = member(b"two.bin", 66)
	k2 = (("b.rar", pieces(volume(5, 0, *m.kept(0)))),)
	m = member(b"one.bin", 55)
	k1 = (("a.rar", pieces(volume(6, 0, *m.kept(0)))),)
	s1 = [("a.nfo", some()), ("d", some(7))]
	s2 = [("b.nfo", some(3)), ("e", lay())]
	for what, app1, app2, arg, app in (
			("", b"one", b"two", "", b"one"),
			(", the first without name", b"", b"two", "", b"two"),
			(", new name", b"one", b"two", ", 'pyReScene other'", APP)):
		yield Set("two SRR files merged" + what, {}, {}, [], files={
			"/srr/1.srr": srr(s1, *k1, app=app1),
			"/srr/2.srr": srr(s2, *k2, app=app2)}, expect=(), steps=(
				"\tmerge_srrs(['/srr/1.srr', '/srr/2.srr'], %r%s)\n" % (
					X, arg)), others={X: srr(s1 + s2, *(k1 + k2), app=app)})
	yield Set("three SRR files with all kinds of blocks merged", {}, {}, [],
	          files={"/srr/1.srr": srr(s1, *k1), "/srr/2.srr": srr(
		          [], more=tail), "/srr/3.srr": srr(s2, *k2)}, expect=(),
	          steps="\tmerge_srrs(['/srr/%%d.srr' %% i for i in (1, 2, 3)], "
	          "%r)\n" % X, others={X: srr(
		          s1 + [late] + s2, *k1, more=blocks + list(pieces(
			          rarsets.volumes(*k2))))})


def run(p, tier="quick"):
	cs = list(cases(tier))
	res = Result(
		"the byte layouts of SRR files: making one, adding, removing, "
		"renaming and taking out stored files and merging SRR files are "
		"interpreted, all paths, on %d cases; the SRR files and the files "
		"taken out are compared with what the format says, part by part; "
		"nothing else changes and nothing is left behind" % len(cs))
	res.assumptions.append(
		"os.path, glob and temporary files as on Linux; answers to questions "
		"about overwriting are yes (see P03)")

	def job(c):
		return lambda r: rarsets.rebuilt(p, r, c, "stored-files",
		                                 "extract_files")
	ns = parallel(res, [job(c) for c in cs])
	for c, n in zip(cs, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing comes out" % c.title)
	res.need(3 * len(cs), "layout comparisons")
	return res
