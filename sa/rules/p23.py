"""P23: what is listed of an SRR is what it was made of."""
from .. import rarsets
from ..absint import K, is_k
from ..core import Result, parallel
from ..layout import length, pieces
from ..project import AnalysisError
from ..rarsets import APPNAME, DIR, Text, Member, Set, P, fixed, padding, \
	record, srr, stored as stored_file, volume
from ..srs import lay, raw
from .p08 import hdr

ID = "P23"
X = "/srr/x.srr"
LIST = '''	i = info(%r)
	got = [i["appname"], i["compression"],
		[[f.file_name, f.file_size] for f in i["stored_files"].values()],
		[[f.file_name, f.file_size] for f in i["rar_files"].values()],
		[[f.file_name, f.file_size, f.crc32]
			for f in i["archived_files"].values()],
		i["recovery"].file_size if i["recovery"] else "none",
		[[e.file_name, e.crc32] for e in i["sfv_entries"]],
		[[f.file_name, f.crc32] for f in i["rar_files"].values()
			if hasattr(f, "crc32")],
		[[n, s] for n, _h, s in i["oso_hashes"]]]
'''


def oso(name, size=7):
	return hdr(K(0x6B6B), K(0x6B), K(0), ("f", "<Q", K(size)),
	           ("f", "<Q", P("lhash")), ("f", "<H", K(len(name))),
	           ("kb", name))


def size(l):
	n = length(l)
	assert is_k(n), n
	return n[2]


def crc(m):
	return Text(("crcof", m.all())) if pieces(m.all()) else "00000000"


def new_block(name, n):
	nm = name.decode("ascii")
	return pieces(fixed(
		"ncrc" + nm, 0x7A, 0x8000, ("f", "<L", K(n)), ("f", "<L", K(90)),
		("f", "<B", K(2)), ("f", "<L", P("x1")), ("f", "<L", P("x2")),
		("f", "<B", K(20)), ("f", "<B", K(0x33)), ("f", "<H", K(len(name))),
		("f", "<L", K(0)), ("kb", name))) + (raw("data" + nm, n),)


def old_comment():
	return pieces(fixed(
		"ocrc", 0x75, 0, ("f", "<H", K(20)), ("f", "<B", K(20)),
		("f", "<B", K(0x30)), ("f", "<H", P("cc")), raw("oldcmt", 20)))


def cases(tier):
	count = [0]

	def some(n=77):
		count[0] += 1
		return lay(raw("i%d" % count[0], n))

	def member(name, *sizes, **kw):
		parts = []
		for n in sizes:
			count[0] += 1
			parts.append([raw("id%d" % count[0], n)] if n else [])
		return Member(name, parts, **kw)

	def listed(title, stored, vols, kept, files, compressed=False, rec="none",
	           others=(), crcs=(), hashes=(), **kw):
		"""vols: the sizes of the volumes; files: those packed"""
		opt = {x: kw.pop(x) for x in ("more", "app") if x in kw}
		was = srr(stored, *kept, **opt)
		return Set(title, {}, {}, [], files={X: was}, expect=(), steps=(
			LIST % X), value=[
				opt.get("app", APPNAME).decode("ascii"), compressed,
				[[n, size(b)] for n, b in stored],
				[[n, size(b)] for n, b in vols], [
					[m.name.decode("utf-8"), size(m.all()), crc(m)] for m in files],
				rec, [list(e) for e in others], [list(c) for c in crcs],
				[list(h) for h in hashes]],
			others={X: was}, **kw)

	def one(n, name, flags, *members, **kw):
		"""a volume and what is kept of it"""
		body, kept = (), ()
		for m, i in members:
			body += m.part(i)
			kept += m.kept(i)
		return (name, volume(n, flags, *body, **kw)), (
			name, pieces(volume(n, flags, *kept, **kw)))

	def several(*vs):
		return [v for v, _k in vs], [k for _v, k in vs]

	a, b = ("a.nfo", some()), ("sub/b.srs", some(9))
	yield listed("no volumes", [a, b, ("e.m3u", lay())], [], [], [])
	m = member(b"one.bin", 500)
	yield listed("nothing stored", [], *several(one(
		0, "a.rar", 0, (m, 0))), files=[m])
	yield listed("no application name", [a], [], [], [], app=b"")
	m = member(b"movie.bin", 500, 400, 3)
	three = several(one(0, "a.rar", 1, (m, 0)), one(1, "a.r00", 1, (m, 1)),
	                one(2, "a.r01", 1, (m, 2)))
	mv = [m]
	yield listed("three volumes", [a, b], *three, files=mv)
	f, d, m = member(b"first.bin", 10), member(b"dir", 0, flags=DIR), \
		member(b"two.bin", 20, 30)
	e = member(b"empty.bin", 0)
	v = several(
		one(0, "CD1/a.part1.rar", 0x111, (d, 0), (f, 0), (m, 0)),
		one(1, "CD1/a.part2.rar", 0x11, (m, 1), (e, 0)))
	yield listed("files and folders, paths", [a], *v, files=[
		d, f, m, e])
	for k in (0x31, 0x33, 0x35):
		m, f = member(b"one.bin", 500, method=k), member(b"two.bin", 4)
		yield listed("a compressed file, method %x" % k, [a], *several(one(
			0, "a.rar", 0, (m, 0))), files=[m], compressed=True)
		for fs in ([m, f], [f, m]):
			yield listed("one of the files compressed, method %x" % k, [a],
			             *several(one(0, "a.rar", 0, *[(x, 0) for x in fs])),
			             files=fs, compressed=True)
	m = member(b"movie.bin", 5 << 30, 3 << 30, large=True)
	yield listed("more than 4 GiB", [a], *several(one(
		0, "a.rar", 1, (m, 0)), one(1, "a.r00", 1, (m, 1))), files=[m])
	top = 0xFFFFFFFFFFFFFFFF
	sizes = [
		("no size but in the last volume", (5 << 30, 3 << 30, 7), True,
		 (top, top, (8 << 30) + 7)),
		("no size but in the last volume, small", (500, 3), True, (top, 503)),
		("the largest 32 bit number as size", (500, 400, 300), False,
		 (0xFFFFFFFF,) * 3),
		("the largest 32 bit number as size, one volume", (500,), False,
		 (0xFFFFFFFF,))]
	for what, ns, large, told in sizes:
		for more in (False, True):
			m, f = member(b"movie.bin", *ns, large=large, told=told), \
				member(b"one.txt", 9)
			vs = []
			for i, _n in enumerate(ns):
				vs.append(one(i, "a.part%d.rar" % (i + 1), 0x11, *([
					(f, 0)] if more and not i else []) + [(m, i)]))
			yield listed(what + (", a file before it" if more else ""), [a],
			             *several(*vs), files=[f, m] if more else [m])
	for what, nm in (("UTF-8", b"m\xc3\xb6vie.bin"),):
		m = member(nm, 500, 40, 3, flags=0x200)
		yield listed("a name in " + what, [a], *several(*[one(
			i, "a.r0%d" % i, 1, (m, i)) for i in range(3)]), files=[m])
	m = member(b"movie.bin", 500, 40)
	for what, b1 in (("a comment", new_block(b"CMT", 50)),
	                 ("a verification block", new_block(b"AV", 120)),
	                 ("an access list", new_block(b"ACL", 12)),
	                 ("an old comment", old_comment())):
		for first in (False, True):
			vs = [[n, volume(i, 1, *(b1 + m.part(i) if first else
			                         m.part(i) + b1))]
			      for i, n in enumerate(("a.rar", "a.r00"))]
			ks = [[n, pieces(volume(i, 1, *(b1 + m.kept(i) if first else
			                                m.kept(i) + b1)))]
			      for i, n in enumerate(("a.rar", "a.r00"))]
			yield listed(what + (" in front" if first else ""), [a], vs, ks,
			             [m])
	for old in (False, True):
		vs, ks, total = [], [], 0
		m = member(b"movie.bin", 1500, 700)
		for i, n in enumerate(("a.rar", "a.r00")):
			h, body = record(pieces(volume(i, 1, *m.part(i), end=lay())), 2,
			                 old)
			total += size(lay(*body))
			vs.append((n, volume(i, 1, *(m.part(i) + h + body))))
			ks.append((n, pieces(volume(i, 1, *(m.kept(i) + h)))))
		yield listed("recovery records" + (", old" if old else ""), [a], vs,
		             ks, [m], rec=total)
	sfv = ("a.sfv", lay(b"; made by hand\r\nA.RAR 1234abcd\r\n"
	                    b"a.r00 0000beef\r\nb.txt 87654321\r\n"
	                    b"a.r01 DEADBEEF\r\n"))
	yield listed("the CRCs of an SFV", [sfv, a], *three, files=mv, others=[("b.txt", "87654321")], crcs=[
			("a.rar", "1234ABCD"), ("a.r00", "0000BEEF"),
			("a.r01", "DEADBEEF")])
	two = [("CD1/a.sfv", lay(b"x.rar 00000001\n")), b,
	       ("CD2/a.sfv", lay(b"a.rar 00000002\n"))]
	yield listed("two SFV files", two, *three, files=mv,
	             others=[("x.rar", "00000001")], crcs=[("a.rar", "00000002")])
	behind = raw("ibehind", 44)
	m = member(b"movie.bin", 100)
	n, full = "a.rar", lay(volume(0, 0, *m.part(0)), behind)
	yield listed("bytes behind the end, a hash", [a], [(n, full)], [(
		n, pieces(volume(0, 0, *m.kept(0), pad=pieces(padding(behind)))))],
		[m], more=list(pieces(oso(b"movie.bin"))
		) + list(pieces(oso(b"m.mkv", 5 << 30))),
		hashes=[("movie.bin", 7), ("m.mkv", 5 << 30)])

	# -- the content hash: of what is kept of the volumes ------------------
	def hashed(title, stored, *kept, **kw):
		was = srr(stored, *kept, **kw)
		order = sorted(kept, key=lambda k: k[0].split("/")[-1].lower())
		return Set(title, {}, {}, [], files={X: was}, expect=(), steps=(
			"\tgot = content_hash(%r)\n" % X), others={X: was}, value=Text(
				("digestof", K("sha1"), lay(*[x for _n, k in order for x in k]))))

	k = three[1]
	k2 = [("b/B.rar", k[0][1]), ("a/c.rar", k[1][1]), ("a.rar", k[2][1])]
	yield hashed("content hash", [a, b], *k)
	yield hashed("content hash, nothing stored", [], *k)
	yield hashed("content hash, other order", [a], *k[::-1])
	yield hashed("content hash, paths and capitals", [sfv], *k2)
	yield hashed("content hash, other name", [], k[0], app=b"other program")
	yield hashed("content hash, no volumes", [a])
	yield hashed("content hash, an OSO hash behind the volumes", [a], *k,
	             more=list(pieces(oso(b"m.mkv"))))
	yield hashed("content hash, stored files behind the volumes", [a], *k,
	             more=list(pieces(stored_file(a[0], *pieces(a[1])))))


def run(p, tier="quick"):
	cs = list(cases(tier))
	res = Result(
		"the listing of an SRR is interpreted, all paths, on %d layouts of "
		"SRR files; what it says is compared with the stored files, volumes "
		"and packed files the layout was made of" % len(cs))

	def job(c):
		return lambda r: rarsets.rebuilt(p, r, c, "listing", "info")
	ns = parallel(res, [job(c) for c in cs])
	for c, n in zip(cs, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing comes out" % c.title)
	res.need(2 * len(cs), "listings")
	return res
