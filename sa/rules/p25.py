"""P25: a packed file read through its RAR volumes is that file."""
import hashlib
import struct

from .. import layout, rarsets
from ..absint import K, is_k, NONE
from ..core import Result, parallel
from ..layout import isbytes, isint, length, mklay, norm, pieces
from ..project import AnalysisError
from ..rarsets import DIR, Member, P, Set, Text, fixed, srr, volume
from ..srs import lay, raw
from ..volumes import Volumes
from .p16 import NAMES
from .p23 import hdr, new_block, old_comment

ID = "P25"
HASHER = "rescene.osohash:_osorg_hash"
TOP = (1 << 64) - 1
CHUNK = 64 * 1024


def word(parts, fmt):
	"""the number of which these are the bytes, pieces and parts of them"""
	if all(x[0] == "kb" for x in parts):
		return ("msum", struct.unpack(fmt, b"".join(
			x[1] for x in parts))[0], 0, False)
	return ("msum", 0, int(hashlib.sha256(repr(
		(parts, fmt)).encode()).hexdigest(), 16), False)


def total(xs):
	return ("msum", sum(x[1] for x in xs), sum(x[2] for x in xs) & (
		(1 << 256) - 1), True)


def words(l, fmt="<Q"):
	"""the numbers in a string of bytes, None: not known"""
	size, out, parts, got = struct.calcsize(fmt), [], [], 0
	for x in pieces(l):
		n = length(mklay((x,)))
		if not isint(n):
			return None
		i = 0
		while i < n[2]:
			j = min(n[2], i + size - got)
			parts.append(layout.subcut(x, i, j))
			got += j - i
			i = j
			if got == size:
				out.append(word(parts, fmt))
				parts, got = [], 0
	return None if parts else out


class Sums(Volumes):
	"""sums of 64 bit numbers, modulo 2**64: the order does not matter"""
	opaque = tuple(x for x in Volumes.opaque if x != HASHER)

	def rule_call(self, I, st, name, recv, args, kw, node):
		args = tuple(args)
		if name == "P:" + HASHER:
			return None
		if name in ("struct.unpack", "struct.unpack_from") and args and \
				is_k(args[0]) and len(args) > 1 and isbytes(args[1]):
			fs = layout.fields(args[0][2])
			off = norm(args[2]) if len(args) > 2 else norm(
				kw.get("offset", K(0)))
			if fs and fs[0] in ("<Q", ">Q", "Q") and len(set(fs)) == 1 \
					and isint(off):
				c = layout.cut(args[1], off, K(off[2] + 8 * len(fs)))
				ws = None if c is None or length(c) != K(8 * len(fs)) else \
					words(c, "<Q" if fs[0] == "Q" else fs[0])
				if ws is not None:
					return [("ok", st, ("tup",) + tuple(ws))]
		if name == "int.from_bytes" and len(args) == 2 and not kw and \
				isbytes(args[0]) and length(args[0]) == K(8) and is_k(args[1]):
			ws = words(args[0], "<Q" if args[1][2] == "little" else ">Q")
			if ws:
				return [("ok", st, ws[0])]
		if name == "int" and len(args) == 2 and args[0][0] == "hexfmt" and \
				args[1] == K(16):
			return [("ok", st, args[0][2])]
		if name == "len" and args and args[0][0] == "hexfmt":
			if args[0][1:] == ("016x", args[0][2]) and args[0][2][3]:
				return [("ok", st, K(16))]
		if name == "format" and len(args) == 2 and args[0][0] == "msum" and \
				is_k(args[1]):
			return [("ok", st, ("hexfmt", args[1][2], args[0]))]
		if name == ".format" and recv and is_k(recv) and len(args) == 1 and \
				args[0][0] == "msum" and recv[2][:1] == "{" and \
				recv[2][-1:] == "}" and recv[2].count("{") == 1:
			return [("ok", st, (
				"hexfmt", recv[2][1:-1].split(":")[-1], args[0]))]
		if name == "sum" and args and len(args) <= 2:
			it = args[0] if args[0][0] == "tup" else I.items_of(args[0], st)
			if it is not None and it[0] == "tup" and len(it) > 1:
				r = args[1] if len(args) > 1 else it[1]
				for x in it[1:] if len(args) > 1 else it[2:]:
					r = r and self.on_binop(I, st, "Add", r, x, node)
				if r:
					return [("ok", st, r)]
		return Volumes.rule_call(self, I, st, name, recv, args, kw, node)

	def on_binop(self, I, st, op, a, b, node):
		if op == "Mod" and is_k(a) and isinstance(a[2], str):
			x = b[1] if b[0] == "tup" and len(b) == 2 else b
			if x[0] == "msum" and a[2][:1] == "%":
				return ("hexfmt", a[2][1:], x)
		if "msum" in (a[0], b[0]):
			xs = [x if x[0] == "msum" else ("msum", norm(x)[2], 0, False)
			      if isint(norm(x)) else None for x in (a, b)]
			if op == "Add" and None not in xs:
				return ("msum", xs[0][1] + xs[1][1],
				        (xs[0][2] + xs[1][2]) & ((1 << 256) - 1), False)
			if op == "BitAnd" and K(TOP) in (norm(a), norm(b)) or \
					op == "Mod" and norm(b) == K(TOP + 1):
				x = a if a[0] == "msum" else b
				return ("msum", x[1] & TOP, x[2], True)
			if op in ("BitXor", "BitOr", "Mult") and None not in xs:
				return ("msum", 0, int(hashlib.sha256(repr(
					(op, xs)).encode()).hexdigest(), 16), False)
			return ("unk", I.site(st, node))
		return Volumes.on_binop(self, I, st, op, a, b, node)


	def truth(self, I, st, t):
		if t[0] == "cmp" and t[1] in ("==", "is") and \
				t[2][0] in ("hexfmt", "msum") and t[3] == NONE:
			return False
		if t[0] == "hexfmt":
			return True
		return Volumes.truth(self, I, st, t)


class Streamed(Set):
	def limits(self, m):
		r = Set.limits(self, m)
		m.seq_limit = m.max_rounds = 200
		return r


class Hashing(Set):
	def monitor(self, p):
		return Sums(p)

	def limits(self, m):
		m.seq_limit = m.max_rounds = 4 * CHUNK
		return {"LIMIT": 200, "MAX_STEPS": 10 ** 7, "seconds": 500}


def hashed(l):
	"""the OSO hash of these contents"""
	n = length(l)[2]
	ws = words(layout.cut(l, K(0), K(CHUNK))) + words(
		layout.cut(l, K(n - CHUNK), K(n)))
	t = total(ws + [("msum", n, 0, False)])
	return ("hexfmt", "016x", ("msum", t[1] & TOP, t[2], True))


class Script(object):
	"""calls on the stream and what a file with these bytes would answer"""

	def __init__(self, l):
		self.l, self.n, self.at = l, length(l)[2], 0
		self.lines, self.got, self.files = [], [], {}
		self.ask("length()", self.n)

	def ask(self, what, answer):
		self.lines.append("\tgot.append(r.%s)\n" % what)
		self.got.append(answer)
		return self

	def seek(self, *where):
		o = where[0]
		if len(where) > 1:
			o += (0, self.at, self.n)[where[1]]
		self.at = o
		return self.ask("seek(%s)" % ", ".join(map(str, where)), o)

	def read(self, *n):
		end = self.n if not n or n[0] < 0 else min(self.n, self.at + n[0])
		name = "/out/%d" % len(self.files)
		if end > self.at:
			self.files[name] = layout.cut(self.l, K(self.at), K(end))
			self.at = end
		else:
			self.files[name] = lay()
		self.lines.append('\twith open(%r, "wb") as f:\n\t\tf.write(r.read(%s'
		                  '))\n' % (name, ", ".join(map(str, n))))
		return self.ask("tell()", self.at)


def scripts(l, edges):
	"""edges: positions where a volume starts"""
	n = length(l)[2]
	yield "all at once", Script(l).read().read().read(5)
	yield "all at once, with a number", Script(l).read(n).read(1).seek(
		0).read(n + 1).seek(0).read(-1)
	s = Script(l)
	step = max(1, n // 7)
	for _i in range(9):
		s.read(step)
	yield "in parts", s
	ps = sorted({q for e in list(edges) + [0, n] for q in (e - 1, e, e + 1)
	             if 0 <= q})
	s = Script(l)
	for q in ps:
		s.seek(q).read(1).seek(q).read(2)
	yield "forwards", s
	s = Script(l)
	for q in ps[::-1]:
		s.seek(q, 0).read(0).read(3)
		if q <= n:
			s.seek(q - n, 2).read()
	yield "backwards", s
	s = Script(l).seek(0, 2).read().seek(-n, 1).read(step)
	for q in ps:
		s.seek(q - s.at, 1).read(step)
		s.seek(-1 if s.at else 0, 1).read(1)
	yield "from here and from the end", s


def stream(title, vols, script, args, **kw):
	return Streamed(title, vols, {}, [], expect=(), steps=(
		"\tfrom rescene.rarstream import RarStream\n\tgot = []\n"
		"\tr = RarStream(%s)\n" % args) + "".join(script.lines),
		value=script.got, others=dict(script.files), **kw)


def cases(tier):
	count = [0]

	def member(name, *sizes, **kw):
		parts = []
		for n in sizes:
			count[0] += 1
			parts.append([raw("id%d" % count[0], n)] if n else [])
		return Member(name, parts, **kw)

	def read(title, vols, m, args, few=True):
		edges, at = [], 0
		for ps in m.parts[:-1]:
			at += length(lay(*ps))[2]
			edges.append(at)
		for what, s in scripts(m.all(), edges):
			yield stream("%s, %s" % (title, what), vols, s, args)
			if few and tier == "quick" and what == "in parts":
				break

	m = member(b"movie.bin", 500)
	one = {"/".join(["a.rar"]): volume(0, 0, *m.part(0))}
	yield from read("one volume", one, m, "'/in/a.rar'", False)
	m = member(b"movie.bin", 500, 400, 30)
	old = {n: volume(i, 1, *m.part(i))
	       for i, n in enumerate(("a.rar", "a.r00", "a.r01"))}
	yield from read("three volumes", old, m, "'/in/a.rar', 'movie.bin'", False)
	new = {"a.part%d.rar" % (i + 1): volume(i, 0x11 | (0 if i else 0x100),
	                                        *m.part(i)) for i in range(3)}
	yield from read("three volumes, new names", new, m, "'/in/a.part1.rar'")
	f, t, e, g = member(b"sub\\one.txt", 9), member(b"two.bin", 20, 30), \
		member(b"empty.bin", 0), member(b"last.bin", 1)
	d = member(b"dir", 0, flags=DIR)
	many = {
		"a.rar": volume(0, 1, *(f.part(0) + d.part(0) + m.part(0))),
		"a.r00": volume(1, 1, *(m.part(1))),
		"a.r01": volume(2, 1, *(m.part(2) + e.part(0) + t.part(0))),
		"a.r02": volume(3, 1, *(t.part(1) + g.part(0)))}
	for what, x, args in (
			("the first file", f, "'/in/a.rar'"),
			("a file with a path", f, "'/in/a.rar', 'sub/one.txt'"),
			("a file with a path as stored", f, "'/in/a.rar', 'sub\\\\one.txt'"),
			("a file behind others", m, "'/in/a.rar', 'movie.bin'"),
			("an empty file", e, "'/in/a.rar', 'empty.bin'"),
			("a file that starts later", t, "'/in/a.rar', 'two.bin'"),
			("a file that starts later, from there", t,
			 "'/in/a.r01', 'two.bin', True"),
			("the last file", g, "'/in/a.rar', 'last.bin'"),
			("the last file, from there", g,
			 "'/in/a.r02', packed_file_name='last.bin', middle=True")):
		yield from read("several files, " + what, many, x, args,
		                x not in (e, g))
	m = member(b"movie.bin", 40, 0, 30)
	yield from read("a volume with nothing of the file", {
		n: volume(i, 1, *m.part(i))
		for i, n in enumerate(("a.rar", "a.r00", "a.r01"))}, m, "'/in/a.rar'",
		False)
	m = member(b"movie.bin", 40, 50)
	yield from read("comments and other blocks", {
		"a.rar": volume(0, 1, *(new_block(b"CMT", 50) + m.part(0) + new_block(
			b"AV", 12))),
		"a.r00": volume(1, 1, *(old_comment() + m.part(1)), pad=(
			("f", "<H", P("p1")), ("f", "<B", P("p2")), ("f", "<H", P("p3")),
			("f", "<H", P("p4")), raw("pad", 33)))}, m, "'/in/a.rar'")
	m = member(b"movie.bin", 40, 50, method=0x33)
	packed = {"a.rar": volume(0, 1, *m.part(0)),
	          "a.r00": volume(1, 1, *m.part(1))}
	yield from read("compressed", packed, m, "'/in/a.rar', compressed=True")
	m = member(b"movie.bin", 40, 50, large=True, tail=(
		("kb", b"12345678"), raw("ext", 5)), flags=0x1400)
	yield from read("large, encrypted, with extended times", {
		"a.rar": volume(0, 1, *m.part(0)),
		"a.r00": volume(1, 1, *m.part(1))}, m, "'/in/a.rar'")
	for what, vols, args in (
			("compressed", packed, "'/in/a.rar'"),
			("a file that is not there", old, "'/in/a.rar', 'Movie.bin'"),
			("not the first volume", old, "'/in/a.r00'"),
			("no files", {"a.rar": volume(0, 0)}, "'/in/a.rar'"),
			("no files, from there", {"a.rar": volume(0, 0)},
			 "'/in/a.rar', None, True")):
		yield Set(what + ", refused", vols, {}, [], expect=(), steps=(
			"\tfrom rescene.rarstream import RarStream\n"
			"\tr = RarStream(%s)\n" % args), fails=("AttributeError",))
	if tier != "quick":
		for what, text, name in NAMES:
			m = Member(name, [[raw("i", 50)], [raw("j", 40)]], flags=0x200)
			yield from read(what, {
				"a.rar": volume(0, 1, *m.part(0)),
				"a.r00": volume(1, 1, *m.part(1))}, m, "'/in/a.rar', %r" % text)

	# -- hashes --------------------------------------------------------------
	def oso(name, l):
		return hdr(K(0x6B6B), K(0x6B), K(0), ("f", "<Q", K(length(l)[2])),
		           ("f", "<Q", hashed(l)[2]), ("f", "<H", K(len(name))),
		           ("kb", name))

	def sizes(*n):
		return member(b"cd\\movie.avi", *n)
	for what, ns in (("of 64 KiB", (CHUNK,)), ("of 128 KiB, two volumes", (
			CHUNK + 8, CHUNK - 8)), ("of more, four volumes", (
				CHUNK - 16, 40, 800, CHUNK)), ("of an odd size", (
					2 * CHUNK + 8192, 77, 512))):
		m = sizes(*ns)
		names = ["a.rar"] + ["a.r%02d" % i for i in range(len(ns) - 1)]
		vols = {n: volume(i, 1, *m.part(i)) for i, n in enumerate(names)}
		h = hashed(m.all())
		n = length(m.all())[2]
		yield Hashing("the hash " + what, vols, {}, [], expect=(), steps=(
			'\tgot = osohash_from("/in/a.rar")\n'), value=(Text(h), n))
		if len(ns) == 2:
			kept = [(x, pieces(volume(i, 1, *m.kept(i))))
			        for i, x in enumerate(names)]
			yield Hashing(
				"the hash stored, " + what, vols, {}, ["a.rar"], expect=(),
				steps='\tcreate_srr("/srr/x.srr", ["/in/a.rar"], "/in", [], '
				'False)\n', others={"/srr/x.srr": srr(
					[], *kept, more=pieces(oso(b"movie.avi", m.all())))})
	m = member(b"movie.avi", CHUNK + 2000)
	yield Hashing("the hash of a file", {}, {}, [], expect=(), steps=(
		"\tfrom rescene.osohash import compute_hash\n"
		'\tgot = compute_hash("/in/m.avi")\n'), files={
			"/in/m.avi": m.all()}, value=(Text(hashed(m.all())), CHUNK + 2000))
	m = member(b"movie.avi", CHUNK - 1)
	yield Hashing("the hash of a small file, refused", {
		"a.rar": volume(0, 0, *m.part(0))}, {}, [], expect=(), steps=(
			'\tgot = osohash_from("/in/a.rar")\n'), fails=("ValueError",))


def run(p, tier="quick"):
	cs = list(cases(tier))
	res = Result(
		"RarStream and the OSO hash are interpreted, all paths, on %d RAR "
		"sets and orders of calls; every answer must be that of a plain file "
		"with the bytes of the packed file, the hash the sum of its words"
		% len(cs))

	def job(c):
		return lambda r: rarsets.rebuilt(
			p, r, c, "reading", "rescene.osohash:osohash_from"
			if "hash" in c.title else "rescene.rarstream:RarStream.read")
	ns = parallel(res, [job(c) for c in cs])
	for c, n in zip(cs, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing comes out" % c.title)
	res.need(2 * len(cs), "answers")
	return res
