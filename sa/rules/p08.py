"""P08: the block reader hands out every block of a volume or SRR file with
the fields as written, and goes on exactly behind it."""
import ast

from .. import layout
from ..absint import FALSE, K, NONE, TRUE, is_k, show
from ..core import Result, analyse, parallel
from ..layout import LayoutMonitor, driver, flat, layout_show, length, \
	mklay, norm, pieces, unmodelled
from ..project import AnalysisError, loc

ID = "P08"
MOD = "rescene.rar"
D = ("param", "D")          # body of a block
N = ("param", "N")          # bytes of a name
H = ("param", "H")          # hex digits
RAR_MARK = ("kb", b"Rar!\x1a\x07\x00")


class Blocks(LayoutMonitor):
	assertions_hold = True
	opaque = ("rescene.rar:_parse_ext_time", "rescene.rar:UnicodeFilename",
	          "rescene.utility:is_good_srr", "rescene.rar:_parse_dos_time")
	force_inline = ("rescene.rar:RarReader.__init__",
	                "rescene.rar:RarReader.__next__",
	                "rescene.rar:RarReader._read")
	inline_small = 60
	events = LayoutMonitor.events + (".read", ".seek", ".tell")

	def foreign(self, I, st, name, recv, args, kw, node):
		if name == "P:rescene.utility:is_good_srr":
			return [("ok", st, TRUE)]
		if name == "N:rescene.rar:RarReader":
			st.mon["reading"] = True
		if name.startswith(("P:rescene.rar:UnicodeFilename",
		                    "N:rescene.rar:UnicodeFilename")):
			return [("ok", st, ("r", I.site(st, node), "unicode", ()))]
		if name == "isinstance" and args and (args[0], "$lay") in st.heap:
			return [("ok", st, TRUE)]
		if name == "hasattr" and args and (args[0], "$lay") in st.heap:
			return [("ok", st, TRUE)]
		if name in ("open", "io.open") and args and \
				args[0] == ("param", "streamname"):
			lay = [v for k, v in st.heap.items() if k[1] == "$lay"]
			t = st.fresh(("r", I.site(st, node), "open", ()))
			st.heap[(t, "$lay")] = lay[0]
			st.heap[(t, "$pos")] = K(0)
			return [("ok", st, t)]
		if name == ".close" and (recv, "$lay") in st.heap:
			st.heap[(recv, "closed")] = TRUE
			return [("ok", st, NONE)]
		return None

	def attr_load(self, I, st, base, name, node):
		if (base, "$lay") in st.heap:
			if name == "closed":
				return st.heap.get((base, "closed"), FALSE)
			if name == "name":
				return ("param", "streamname")
		return LayoutMonitor.attr_load(self, I, st, base, name, node)


def hdr(crc, typ, flags, *body):
	"""a block header: fields the specification gives, size filled in"""
	b = pieces(mklay(body))
	n = length(("lay",) + tuple(b)) if b else K(0)
	return mklay((("f", "<H", crc), ("f", "<B", typ), ("f", "<H", flags),
	              ("f", "<H", layout.add(K(7), n))) + tuple(b))


def P(n):
	return ("param", n)


def flags(on, off):
	"""any flags with these bits set and those not"""
	t = ("op", "BitAnd", P("flags"), K(0xFFFF & ~(on | off)))
	return ("op", "BitOr", t, K(on)) if on else t


def split(t):
	return ("lo", t), ("hi", t)


ARC = hdr(P("acrc"), K(0x73), ("op", "BitAnd", P("aflags"), K(0x7FFF)),
          ("f", "<H", K(0)),
          ("f", "<L", K(0)))


def packed(typ, name, on, off, tail=(), large=False, body=D):
	fl = flags(on | (0x100 if large else 0), off | (0 if large else 0x100))
	ps, us = ("c", "len", (body,)), ("nat", "unpacked")
	f = []
	if large:
		(pl, ph), (ul, uh) = split(ps), split(us)
		f = [("f", "<L", ph), ("f", "<L", uh)]
	else:
		pl, ul = ps, us
	nm = pieces(name)
	return hdr(P("fcrc"), K(typ), fl, ("f", "<L", pl), ("f", "<L", ul),
	           ("f", "<B", P("os")), ("f", "<L", P("crc32")),
	           ("f", "<L", P("ftime")), ("f", "<B", P("ver")),
	           ("f", "<B", P("method")), ("f", "<H", length(name)),
	           ("f", "<L", P("attr")), *(tuple(f) + tuple(nm) + tuple(tail)))


FILE_ATTRS = [("packed_size", ("c", "len", (D,))),
              ("unpacked_size", ("nat", "unpacked")),
              ("file_crc", P("crc32")), ("compression_method", P("method")),
              ("os", P("os")), ("rar_version", P("ver")),
              ("file_attributes", P("attr")),
              ("add_size", ("c", "len", (D,)))]


def rar_cases():
	"""(title, mode, header bytes, body in the stream, body handed out,
	    expected attributes)"""
	out = []
	for mode in ("RAR", "SRR"):
		here = D if mode == "RAR" else K(b"")
		for long in (0x8000, 0):
			for large in (False, True):
				h = packed(0x74, N, long, 0x8000 - long | 0x200 | 0x1000,
				           large=large)
				out.append(("file header%s%s in %s" % (
					", LARGE_FILE" if large else "",
					"" if long else " without LONG_BLOCK", mode),
					mode, h, here, K(b""),
					FILE_ATTRS + [("orig_filename", N)]))
		h = packed(0x74, N, 0x8000, 0x200, tail=(("raw", P("T")),))
		out.append(("file header with extra fields in " + mode, mode, h,
		            here, K(b""), FILE_ATTRS + [("orig_filename", N)]))
		h = packed(0x7A, K(b"RR"), 0x8000, 0x200 | 0x400 | 0x1000,
		           tail=(("kb", b"Protect+"), ("f", "<L", P("rsec")),
		                 ("f", "<Q", P("dsec"))))
		at = [("recovery_sectors", P("rsec")), ("data_sectors", P("dsec")),
		      ("is_recovery", TRUE), ("add_size", ("c", "len", (D,)))]
		out.append(("recovery record in " + mode, mode, h, here, K(b""), at))
		old = hdr(P("fcrc"), K(0x78), flags(0x8000, 0),
		          ("f", "<L", ("c", "len", (D,))), ("f", "<B", P("ver")),
		          ("f", "<H", P("rsec")), ("f", "<L", P("dsec")),
		          ("kb", b"Protect!"))
		oat = [("recovery_sectors", P("rsec")), ("data_sectors", P("dsec")),
		       ("add_size", ("c", "len", (D,))),
		       ("packed_size", ("c", "len", (D,)))]
		out.append(("old style recovery record in " + mode, mode, old, here,
		            K(b""), oat))
		if mode == "SRR":
			out.append(("recovery record kept in the SRR", "KEPT", h, D, D,
			            at))
			out.append(("recovery record before any RAR file in the SRR",
			            "BARE", h, K(b""), K(b""), at))
			out.append(("old style recovery record kept in the SRR", "KEPT",
			            old, D, D, oat))
		for nm in (b"CMT", b"AV", b"ACL"):
			for long in (0x8000, 0):
				h = packed(0x7A, K(nm), long, 0x8000 - long | 0x200 | 0x1000)
				out.append(("%s block%s in %s" % (
					nm.decode(), "" if long else " without LONG_BLOCK",
					mode), mode, h, D, D,
					[("is_recovery", FALSE),
					 ("add_size", ("c", "len", (D,)))]))
		for t in (0x75, 0x76, 0x77, 0x79):
			h = hdr(P("fcrc"), K(t), flags(0x8000, 0),
			        ("f", "<L", ("c", "len", (D,))), ("raw", P("T")))
			out.append(("old style block %#x in %s" % (t, mode), mode, h, D,
			            D, []))
			h = hdr(P("fcrc"), K(t), flags(0, 0x8000), ("f", "<H", P("x")),
			        ("raw", P("T")))
			out.append(("old style block %#x without LONG_BLOCK in %s" %
			            (t, mode), mode, h, K(b""), K(b""), []))
		h = hdr(P("fcrc"), K(0x7B), flags(0, 0x8000))
		out.append(("archive end in " + mode, mode, h, K(b""), K(b""), []))
		h = hdr(P("fcrc"), K(0x7B), flags(0x2 | 0x8, 0x8000),
		        ("f", "<L", P("arcrc")), ("f", "<H", P("vol")),
		        ("raw", P("T")))
		out.append(("archive end with fields in " + mode, mode, h, K(b""),
		            K(b""), []))
		h = hdr(P("fcrc"), K(0x73), flags(0, 0x8000), ("f", "<H", P("r1")),
		        ("f", "<L", P("r2")), ("raw", P("T")))
		out.append(("archive header in " + mode, mode, h, K(b""), K(b""),
		            []))
	h = hdr(P("fcrc"), K(0), flags(0, 0x8000), ("raw", P("T")))
	h = hdr(P("fcrc"), K(0), K(0), *[("kb", b"\0" * 13)])
	out.append(("zeroed archive end in SRR", "SRR", h, K(b""), K(b""), []))
	return out


#: what the program itself writes: (constructor, body, body handed out,
#: attributes as (name, expression in terms of the parameters))
NAME = ("c", ".encode", (("param", "n"), K("utf-8")))
NAMEF = (("f", "<H", ("c", "len", (NAME,))), ("raw", NAME))
OWN = [
	("SrrStoredFileBlock(file_name=n, file_size=len(D))", "D",
	 (0x6A, 0x8000, (("f", "<L", ("c", "len", (D,))),) + NAMEF, ()),
	 [("file_name", "w.file_name"), ("file_size", "len(D)"),
	  ("srr_data()", "D")]),
	("SrrRarFileBlock(file_name=n)", None, (0x71, 1, NAMEF, ()),
	 [("file_name", "w.file_name")]),
	("SrrOsoHashBlock(file_name=n, oso_hash=H, file_size=s)", None,
	 (0x6B, 0, (("f", "<Q", P("s")),
	            ("f", "<Q", ("c", "int", (H, K(16))))) + NAMEF, ()),
	 [("file_name", "w.file_name"), ("oso_hash", "H"), ("file_size", "s")]),
	("SrrRarPaddingBlock(padding_bytes=D)", None,
	 (0x6C, 0x8000, (("f", "<L", ("c", "len", (D,))),), (("raw", D),)),
	 [("padding_size", "len(D)")]),
]


def position(I, st, t):
	pos = st.heap[(t, "$pos")]
	return length(st.heap[(t, "$lay")]) if pos == NONE else norm(pos)


READ = """def read(stream%s):
	rr = RarReader(stream)
	rr.__next__()
%s	b = rr.__next__()
	at = stream.tell()
	return (rr, b, at, b.block_bytes())
"""

WRITE = """def roundtrip(n, s, D, H, rest):
	w = %s
	stream = BytesIO(SrrHeaderBlock(appname="pyReScene Auto").block_bytes()
	                 + w.block_bytes()%s + rest)
	rr = RarReader(stream)
	rr.__next__()
	b = rr.__next__()
	at = stream.tell()
	return (w, b, at, b.block_bytes(), w.block_bytes(), %s)
"""

HEADER = """def header(a, rest):
	w = SrrHeaderBlock(appname=a)
	stream = BytesIO(w.block_bytes() + rest)
	rr = RarReader(stream)
	b = rr.__next__()
	at = stream.tell()
	return (w, b, at, b.block_bytes(), w.block_bytes(), b.appname, a)
"""


class Check(object):
	def __init__(self, p, res):
		self.p, self.res = p, res
		self.st = None

	def run(self, source, title, heap=None, args=None):
		fi = driver(self.p, MOD, source)
		m = Blocks(self.p)
		I, outs = analyse(self.p, self.res, m, fi, LIMIT=400,
		                  MAX_STEPS=60000, heap=heap, args=args)
		self.m, self.I = m, I
		if m.reports:
			return I, []
		return I, outs

	def where(self):
		f = self.p.modules[MOD].all_funcs.get("RarReader._read") or \
			self.p.modules[MOD].all_funcs.get("RarReader.__next__")
		if f is None:
			raise AnalysisError("anchor vanished: the block reader")
		return f

	def bad(self, title, msg):
		f = self.where()
		if self.st is not None and self.st.mon.get("vague"):
			self.res.incomplete = True
			self.res.notes.append("NOT DECIDED: %s: a condition on a value "
			                      "that is not modelled" % title)
			return
		self.res.bad("block-reader", loc(f, f.node), f.full,
		             "%s: %s" % (title, msg))

	def same(self, title, what, got, want):
		if self.eq(self.known(got), self.known(want)):
			self.res.ok("%s: %s" % (title, what))
		elif unmodelled(got):
			self.res.incomplete = True
			self.res.notes.append("NOT DECIDED: %s: %s comes from something "
			                      "that is not modelled" % (title, what))
		else:
			self.bad(title, "%s is %s, written: %s" % (
				what, layout_show(got), layout_show(want)))

	def known(self, t):
		"""t with what the path says is empty left out"""
		def zero(x):
			return layout.nonneg(x) and (
				self.I.decide(("cmp", "<", K(0), x), self.st) is False or
				self.I.decide(("cmp", "==", x, K(0)), self.st) is True or
				self.I.decide(x, self.st) is False)
		if layout.isbytes(t) and t[0] == "lay":
			return mklay([x for x in t[1:] if x[0] != "raw" or
			              not zero(("c", "len", (x[1],)))])
		c, a = layout.lin(t)
		if any(zero(x) for x in a):
			return layout.mklin(c, {x: k for x, k in a.items()
			                        if not zero(x)})
		return t

	def eq(self, a, b):
		if layout.isbytes(a) or layout.isbytes(b):
			return flat(a) == flat(b)
		return norm(a) == norm(b)


def foreign_case(p, case):
	title, mode, h, body, out, attrs = case

	def job(res):
		c = Check(p, res)
		first = pieces(h)
		rest = ("raw", P("rest"))
		skip = ""
		if mode == "RAR":
			pre = (RAR_MARK,) + pieces(ARC)
			skip = "\trr.__next__()\n"
		else:
			pre = pieces(hdr(K(0x6969), K(0x69), K(1),
			                 ("f", "<H", K(14)), ("kb", b"pyReScene Auto")))
			if mode != "BARE":
				pre += pieces(hdr(K(0x7171), K(0x71),
				                  K(0 if mode == "KEPT" else 1),
				                  ("f", "<H", K(5)), ("kb", b"a.rar")))
				skip = "\trr.__next__()\n"
		stream = P("stream")
		lay = mklay(pre + first + tuple(pieces(body)) + (rest,))
		if lay[0] != "lay":
			raise AnalysisError("case %s" % title)
		heap = {(stream, "$lay"): lay, (stream, "$pos"): K(0)}
		I, outs = c.run(READ % ("", skip), title, heap)
		begin = length(mklay(pre))
		end = layout.add(layout.add(begin, length(h)),
		                 length(mklay(pieces(body))))
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise":
				c.bad(title, "the reader gives up (%s)" % str(v[1:]))
				continue
			b = v[2]
			n += 1
			c.same(title, "the position behind the block", v[3], end)
			want = mklay(first + tuple(pieces(out)))
			c.same(title, "block_bytes()", v[4], want)
			for a, w in attrs + [("rawtype", fld(h, 1)), ("flags", fld(h, 2)),
			                     ("header_size", length(h)),
			                     ("block_position", begin)]:
				g = st.heap.get((b, a))
				if g is None:
					c.bad(title, "no attribute %s" % a)
				else:
					c.same(title, a, g, w)
		return n
	return job


def fld(h, i):
	return layout.read(h, K((0, 2, 3)[i]), ("<H", "<B", "<H")[i])[0]


def own_case(p, spec):
	ctor, body, fmt, attrs = spec
	title = ctor.split("(")[0]
	src = WRITE % (ctor, " + " + body if body else "", ", ".join(
		"b.%s, %s" % (a, e) for a, e in attrs))

	def job(res):
		c = Check(p, res)
		I, outs = c.run(src, title)
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise":
				if made(st, v):
					continue
				c.bad(title, "the reader gives up (%s)" % str(v[1:]))
				continue
			n += 1
			w, b, at, got, wrote = v[1:6]
			c.same(title, "block_bytes()", got, wrote)
			typ, flg, fs, more = fmt
			c.same(title, "the block written", wrote, mklay(pieces(hdr(
				K(typ * 0x101), K(typ), K(flg), *fs)) + more))
			head = length(hdr(K(0), K(0), K(0), ("f", "<H", K(14)),
			                  ("kb", b"pyReScene Auto")))
			end = layout.add(head, length(wrote))
			if body:
				end = layout.add(end, ("c", "len", (D,)))
			c.same(title, "the position behind the block", at, end)
			if w[0] == "new" and b[0] == "new" and w[2] != b[2]:
				c.bad(title, "read back as %s" % b[2])
			for i, (a, _e) in enumerate(attrs):
				c.same(title, a, v[6 + 2 * i], v[7 + 2 * i])
			c.same(title, "header_size", st.heap.get((b, "header_size"), NONE),
			       length(wrote) if title != "SrrRarPaddingBlock" else K(11))
			for a in ("rawtype", "flags", "crc"):
				c.same(title, a, st.heap.get((b, a), NONE),
				       st.heap.get((w, a), NONE))
		return n
	return job


def made(st, exc):
	"""the block could not be built from these parameters: said before
	anything is written"""
	if st.mon.get("reading") and \
			st.facts.get(("param", "streamname")) is not False:
		return False
	return exc[:2] in (("exc", "AttributeError"), ("exc", "AssertionError"))


def header_case(p):
	def job(res):
		c = Check(p, res)
		title = "SrrHeaderBlock"
		heap = {}
		I, outs = c.run(HEADER, title, heap, {"rest": mklay((
			("f", "<H", K(0x6a6a)), ("f", "<B", K(0x6a)),
			("f", "<H", K(0x8000)), ("f", "<H", K(30)),
			("raw", P("rest"))) + (("kb", b"x" * 20),))})
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise":
				if made(st, v):
					continue
				c.bad(title, "the reader gives up (%s)" % str(v[1:]))
				continue
			n += 1
			w, b, at, got, wrote, name, a = v[1:8]
			c.same(title, "block_bytes()", got, wrote)
			c.same(title, "the position behind the block", at, length(wrote))
			if name == K("") and a != name and \
					(I.decide(a, st) is False or I.decide(
						("cmp", "==", ("c", "len", (a,)), K(0)), st) or
					 I.decide(("c", "len", (a,)), st) is False):
				name = a
			c.same(title, "appname", name, a)
			enc = ("c", ".encode", (a, K("utf-8")))
			full = hdr(K(0x6969), K(0x69), K(1),
			           ("f", "<H", ("c", "len", (enc,))), ("raw", enc))
			c.same(title, "the block written", wrote, full
			       if v[6] != K("") else
			       hdr(K(0x6969), K(0x69), K(0)))
		return n
	return job


END = """def tail(stream):
	rr = RarReader(stream)
	rr.__next__()
	rr.__next__()
	rr.__next__()
	b = rr.__next__()
	return (b, b.block_bytes())
"""

STOP = """def stop(stream):
	rr = RarReader(stream)
	rr.__next__()
	rr.__next__()
	try:
		rr.__next__()
	except StopIteration:
		return True
	return False
"""


def padding_case(p, pad, name):
	"""bytes behind the archive end block are kept, as they are"""
	def job(res):
		c = Check(p, res)
		stream = P("stream")
		title = "padding behind the archive end (%s)" % name
		lay = mklay((RAR_MARK,) + pieces(ARC) + pieces(
			hdr(P("ecrc"), K(0x7B), flags(0, 0x8000))) + pad)
		I, outs = c.run(END, title, {(stream, "$lay"): lay,
		                             (stream, "$pos"): K(0)})
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise":
				c.bad(title, "the reader gives up (%s)" % str(v[1:]))
				continue
			n += 1
			b, got = v[1:3]
			want = hdr(K(0x6C6C), K(0x6C), K(0x8000),
			           ("f", "<L", length(mklay(pad))))
			want = mklay((("f", "<H", K(0x6C6C)), ("f", "<B", K(0x6C)),
			              ("f", "<H", K(0x8000)), ("f", "<H", K(11)),
			              ("f", "<L", length(mklay(pad)))) + pad)
			c.same(title, "block_bytes()", got, want)
		return n
	return job


def stop_case(p):
	def job(res):
		c = Check(p, res)
		stream = P("stream")
		lay = mklay((RAR_MARK,) + pieces(ARC))
		I, outs = c.run(STOP, "end of the file", {
			(stream, "$lay"): lay, (stream, "$pos"): K(0)})
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise" or v != TRUE:
				c.bad("end of the file", "no end is reported behind the last "
				      "block")
			else:
				n += 1
				res.ok("end of the file: reported")
		return n
	return job


def broken_case(p, mode, size, what):
	"""a header that cannot be true is refused"""
	def job(res):
		c = Check(p, res)
		stream = P("stream")
		pre = (RAR_MARK,) + pieces(ARC)
		h = (("f", "<H", P("c")), ("f", "<B", K(0x74)), ("f", "<H",
		     flags(0, 0x8000)), ("f", "<H", size), ("raw", P("rest")))
		I, outs = c.run(READ % ("", "\trr.__next__()\n"), what, {
			(stream, "$lay"): mklay(pre + h), (stream, "$pos"): K(0)})
		n = 0
		for kind, st, v in outs:
			c.st = st
			if kind == "raise" and v[:2] in (("exc", "EnvironmentError"),
			                                 ("exc", "OSError"),
			                                 ("exc", "IOError"),
			                                 ("exc", "ValueError")):
				n += 1
				res.ok("%s: refused" % what)
			else:
				c.bad(what, "is not refused as a corrupt file")
		return n
	return job


def run(p, tier="quick"):
	res = Result(
		"Byte layout analysis of the block reader: the bytes of every kind "
		"of block (for SRR blocks: the fields its constructor packs; for RAR "
		"blocks: the fields of the RAR format, flags not under test "
		"unknown) are put in front of RarReader as a symbolic stream of "
		"fields, unknown strings and unknown rest. On every path through "
		"the reader and the block's class the block must come back with "
		"these field values, block_bytes() must be the written bytes (plus "
		"the body where it is part of the file), and the stream must stand "
		"exactly behind the block. Headers that cannot be true are refused.")
	cases = rar_cases()
	jobs = [foreign_case(p, c) for c in cases]
	jobs += [own_case(p, s) for s in OWN] + [header_case(p)]
	jobs += [padding_case(p, (("f", "<H", P("p1")), ("f", "<B", P("p2"))),
	                      "3 bytes"),
	         padding_case(p, (("f", "<H", P("p1")), ("f", "<B", P("p2")),
	                          ("f", "<H", P("p3")), ("f", "<H", P("p4")),
	                          ("raw", P("more"))), "7 or more bytes"),
	         stop_case(p),
	         broken_case(p, "RAR", K(6), "a header of less than 7 bytes"),
	         broken_case(p, "RAR", layout.add(K(8), ("c", "len",
	                                                 (P("rest"),))),
	                     "a header longer than the file")]
	ns = parallel(res, jobs)
	for i, n in enumerate(ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("case %d: no path reads the block" % i)
	res.need(300, "block fields read back")
	res.assumptions += [
		"struct packs and unpacks as documented; a field read at the offset "
		"and with the format it was written with has the written value",
		"numbers fit the fields they are packed in (struct.pack raises "
		"otherwise)",
		"names in a RAR header without the unicode flag; extended times "
		"and the unicode name encoding are not decoded"]
	return res
