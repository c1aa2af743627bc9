"""P11: profiling a sample looks at every byte, an incomplete sample never
becomes an SRS file."""
import ast

from .. import srs
from ..absint import FALSE, K, NONE, TRUE, is_k, mentions, show
from ..core import Result, analyse, parallel
from ..crc import ZERO, unmask
from ..crcflow import CUR, Linear
from ..fs import FSMonitor, base
from ..project import AnalysisError

ID = "P11"

#: containers of which the parsed size must be compared with the file size
SIZED = ("avi", "mkv", "mp4", "wmv", "flac", "mp3")

#: containers that say how long their parts are
CUT = ("avi", "mkv", "mp4", "wmv")


def strip(t):
	"""element and padding attributes are looked at without versions"""
	return base(t)


class Profile(Linear):
	events = ("zlib.crc32", "binascii.crc32", "calculate_crc32")
	opaque = ("resample.main:show_spinner", "resample.main:remove_spinner",
	          "resample.main:mp4_signature_bytes", "resample.main:stsc",
	          "rescene.main:calculate_crc32")

	def __init__(self, p, data):
		Linear.__init__(self, p)
		self.data = data            # the FileData parameter
		self.readers = set()
		self.elements = set()
		self.whole = 0
		self.unhashed, self.partsites = {}, set()

	# -- what belongs to the current element ------------------------------
	def rd(self, st, t):
		"""the reader a term is an attribute (of an attribute) of"""
		b = base(t)
		while b[0] == "attr":
			b = base(b[1])
		return b if b[0] == "rd" and b == st.mon.get("rd") else None

	def generates(self, rd):
		mod, c = rd[2].split(":")
		f = self.p.func(mod, c + ".read")
		return any(isinstance(n, (ast.Yield, ast.YieldFrom))
		           for n in ast.walk(f.node))

	def e(self, st):
		return dict(st.mon.get("E", ()))

	def set(self, st, **kw):
		d = self.e(st)
		d.update(kw)
		st.mon["E"] = tuple(sorted(d.items(), key=repr))

	def has(self, rd, attr):
		"""does the module of the reader know this kind of element part"""
		mod = self.p.modules[rd[2].split(":")[0]]
		return any(isinstance(n, ast.Attribute) and n.attr == attr
		           for n in ast.walk(mod.tree))

	def settle(self, I, st, node):
		"""the current element has been dealt with"""
		if "E" not in st.mon:
			return
		d = self.e(st)
		rd = st.mon["rd"]
		del st.mon["E"]
		if self.has(rd, "raw_header") and d.get("head", 0) != 1:
			self.rep(I, st, node, "every-byte", "the header of an element is "
			         "hashed %d times" % d.get("head", 0))
		if d.get("block") and d.get("bhead", 0) != 1:
			self.rep(I, st, node, "every-byte", "the block header of an "
			         "element is hashed %d times" % d.get("bhead", 0))
		b = d.get("body")
		if b is None and not d.get("marker"):
			self.rep(I, st, node, "every-byte",
			         "the contents of an element are not hashed")
		elif isinstance(b, tuple):
			self.rep(I, st, node, "every-byte", "the contents of an element "
			         "are read but not hashed")
		elif b == "skip" and not d.get("marker") and not d.get("parts"):
			self.rep(I, st, node, "every-byte", "the contents of an element "
			         "are skipped without being hashed")
		if self.has(rd, "has_padding") and b == "done":
			if d.get("pad") is None:
				self.rep(I, st, node, "every-byte",
				         "a padding byte is not hashed")
			elif d["pad"] is True:
				self.rep(I, st, node, "every-byte", "the padding byte of an "
				         "element is not hashed")

	def start(self, I, st, rd, node):
		self.settle(I, st, node)
		self.elements.add(I.site(st, node))
		st.mon["E"] = ()

	def on_hash(self, I, st, d, node):
		b = base(d)
		st.mon["hashed"] = True
		if "E" not in st.mon:
			if not is_k(b):
				st.mon["loose"] = True
			return
		e = self.e(st)
		if b[0] == "attr" and b[2] == "raw_header" and self.rd(st, b):
			if e.get("head"):
				self.rep(I, st, node, "every-byte",
				         "the header of an element is hashed twice")
			if e.get("body"):
				self.rep(I, st, node, "every-byte", "the header of an element "
				         "is hashed after its contents")
			self.set(st, head=1)
		elif b[0] == "attr" and b[2] == "raw_block_header" and \
				self.rd(st, b):
			if e.get("bhead") or e.get("body") == "done":
				self.rep(I, st, node, "every-byte", "the block header is not "
				         "hashed once between header and contents")
			self.set(st, bhead=1)
		elif isinstance(e.get("body"), tuple) and e["body"][0] == b:
			if self.has(st.mon["rd"], "raw_header") and not e.get("head"):
				self.rep(I, st, node, "every-byte", "the contents of an "
				         "element are hashed before its header")
			self.set(st, body="done")
		elif ("part", b) in st.mon:
			self.partsites.add(b[1])
			off, n, kind = st.mon.pop(("part", b))
			if kind == "rel":
				self.part(I, st, off, n, node)
			self.set(st, parts=1, body=e.get("body") or "parts")
		elif ("piece", b) in st.mon:
			if st.mon.pop(("piece", b)) is not True:
				self.rep(I, st, node, "every-byte", "a piece of an element is "
				         "hashed twice")
		elif mentions(b, None) or self.padding(st, b):
			if e.get("body") != "done":
				self.rep(I, st, node, "every-byte", "the padding byte is "
				         "hashed before the contents")
			self.set(st, pad="done")
		else:
			self.rep(I, st, node, "every-byte", "%s is hashed, which is not "
			         "the next part of the file" % show(b))

	def size_of(self, st, t):
		"""is the term the size of the current element"""
		b = base(t)
		return b[0] == "attr" and b[2] in ("size", "length") and (
			self.rd(st, b) is not None or
			("elem", base(b[1])) in st.mon)

	def rest(self, n, off, st):
		"""min(k, size - off)"""
		b = base(n)
		return b[0] == "c" and b[1] == "min" and any(
			base(x)[0] == "op" and base(x)[1] == "Sub" and
			self.size_of(st, base(x)[2]) and base(base(x)[3]) == base(off)
			for x in b[2])

	def ranged(self, st, off):
		"""offset out of range(0, size, step)"""
		b = base(off)
		if b[0] != "elem" or b[2][0] != "c" or b[2][1] != "range":
			return None
		a = b[2][2]
		return len(a) > 1 and a[0] == ZERO and self.size_of(st, a[1])

	def part(self, I, st, off, n, node):
		"""a part (offset, size) is hashed"""
		rng = self.ranged(st, off)
		if rng is not None:
			if not rng or not self.rest(n, off, st):
				self.rep(I, st, node, "every-byte", "the parts of an element "
				         "that are hashed do not cover it")
			return
		prev = st.mon.get("step")
		if prev is None and not self.e(st).get("parts") and \
				ZERO not in I.parts(off):
			self.rep(I, st, node, "every-byte", "the first part of an element "
			         "is not hashed")
		st.mon["step"] = (off, n)
		# never more than what is left
		b = base(n)
		if b[0] == "op" and b[1] == "Sub" and self.size_of(st, b[2]) and (
				b[3] == off or base(b[3])[0] == "phi"):
			return
		if self.rest(b, off, st):
			return
		if b[0] == "phi" or "phi" in repr(off):
			# merged over several passes: the parts were judged before
			return
		end = I.binop("Add", off, n, st, node)
		if not any(
				f[0] == "cmp" and f[1] == "<" and (
					f[3] == end and self.size_of(st, f[2]) and v is False
					or f[2] == end and self.size_of(st, f[3]) and v)
				for f, v in st.facts.items()):
			self.rep(I, st, node, "every-byte", "a part may go past the "
			         "end of an element")

	def stepped(self, I, st, node):
		"""at the end of a pass: the next offset follows the part"""
		if "step" not in st.mon:
			return
		off, n = st.mon.pop("step")
		end = I.binop("Add", off, n, st, node)
		alt = ("op", "Add", n, off)
		if not any(v in (end, alt) for f in st.frames
		           for v in f.env.values()):
			self.rep(I, st, node, "every-byte", "the parts of an element that "
			         "are hashed do not follow each other")

	def loop_exit(self, I, st, node):
		st.mon.pop("step", None)
		if "E" in st.mon and not self.e(st).get("body"):
			self.set(st, body="parts")

	def padding(self, st, t):
		if t[0] == "attr" and t[2] == "padding_byte":
			return self.rd(st, t) is not None
		return any(isinstance(x, tuple) and x and self.padding(st, x)
		           for x in t)

	def other(self, I, st, name, recv, args, kw, node):
		r = self.crc(I, st, name, args, kw, node)
		if r is not None:
			return r
		if name.startswith("N:resample.") and name.endswith("Reader"):
			t = ("rd", I.site(st, node), name[2:])
			if "rd" not in st.mon:
				st.mon["rd"] = t
				self.readers.add(I.site(st, node))
				src = [x for x in list(args) + list(kw.values())
				       if base(x) == ("attr", self.data, "name")]
				if not src:
					self.rep(I, st, node, "every-byte", "another file than "
					         "the sample is parsed")
			return [("ok", st, t)]
		if name.split(":")[-1].split(".")[-1] == "calculate_crc32" or \
				name.endswith("calc_crc32"):
			self.whole += 1
			if not args or base(args[0]) != ("attr", self.data, "name"):
				self.rep(I, st, node, "every-byte", "the checksum of another "
				         "file than the sample is used")
			st.mon["hashed"] = True
			return [("ok", st, CUR)]
		rd = base(recv) if recv is not None else None
		if rd is None or rd != st.mon.get("rd"):
			if rd is not None and rd[0] == "rd":
				t = st.fresh(("r", I.site(st, node), name, ()))
				return [("ok", st, t)]
			return None
		m = name.split(".")[-1].split(":")[-1]
		t = st.fresh(("r", I.site(st, node), m, (rd,) + tuple(args)))
		# the reader moves on
		st.facts = {f: v for f, v in st.facts.items() if not mentions(f, rd)
		            or m != "read" and not mentions(
			f, ("attr", rd, "read_done"))}
		if m == "read":
			if not self.generates(rd):
				self.start(I, st, rd, node)
				st.mon["next"] = t
			return [("ok", st, t)]
		if "E" not in st.mon:
			return [("ok", st, t)]
		e = self.e(st)
		if m == "read_contents":
			if e.get("body"):
				if e["body"] == "child":
					self.rep(I, st, node, "every-byte", "the contents of an "
					         "element are read and its children too")
			else:
				self.set(st, body=(base(t), 0))
		elif m == "move_to_child":
			if e.get("body"):
				self.rep(I, st, node, "every-byte", "the contents of an "
				         "element are read and its children too")
			self.set(st, body="child")
		elif m == "skip_contents":
			if not e.get("body"):
				self.set(st, body="skip")
		elif m == "read_part":
			n = args[0] if args else kw.get("size", NONE)
			off = args[1] if len(args) > 1 else kw.get("offset", ZERO)
			st.mon[("part", base(t))] = (off, n, "rel")
		elif m == "read_data_part":
			if len(args) > 1 and not any(
					mentions(x, args[1]) for x in I.parts(args[0])):
				self.rep(I, st, node, "every-byte", "the parts of an element "
				         "that are hashed do not follow each other")
			st.mon[("part", base(t))] = (args[0] if args else NONE,
			                             args[1] if len(args) > 1 else NONE,
			                             "abs")
		return [("ok", st, t)]

	def iterate(self, I, st, itv, elem, node):
		b = base(itv)
		if b[0] == "r" and b[2] == "read" and b[3] and \
				b[3][0] == st.mon.get("rd"):
			# for block in reader.read()
			st.mon["any"] = True
			self.start(I, st, b[3][0], node)
			st.mon[("elem", base(elem))] = True
		elif b[0] == "r" and b[2] == "read_contents_chunks" and \
				"E" in st.mon:
			st.mon[("piece", base(elem))] = True
			self.set(st, body="pieces")

	def iter_end(self, I, st, itv, node):
		b = base(itv)
		if b[0] == "r" and b[2] == "read" and b[3] and \
				b[3][0] == st.mon.get("rd"):
			self.settle(I, st, node)
			st.mon["end"] = True
		elif b[0] == "r" and b[2] == "read_contents_chunks" and \
				"E" in st.mon:
			self.set(st, body="done")

	def loop_back(self, I, st, node):
		for k in [k for k in st.mon if isinstance(k, tuple)
		          and k[0] in ("piece", "part")]:
			if k[0] == "piece":
				self.rep(I, st, node, "every-byte",
				         "a piece of an element is not hashed")
			else:
				self.unhashed[k[1][1]] = (I.site(st, node), node,
				                          st.frames[-1].fi)
			st.mon.pop(k)
		self.stepped(I, st, node)

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		b = base(t)
		if "next" in st.mon and b == base(st.mon["next"]):
			st.mon["any" if val else "end"] = True
			if not val:
				st.mon.pop("E", None)
		if b[0] == "attr" and b[2] == "has_padding" and self.rd(st, b) and \
				"E" in st.mon:
			if self.e(st).get("pad") != "done":
				self.set(st, pad=val)
		if t[0] != "cmp":
			return
		if t[1] == "<" and not val and "E" in st.mon and \
				self.size_of(st, t[3]) and not is_k(t[2]) and \
				self.in_test(st, node) and \
				not any(t[2] == v for v in st.env.values()):
			self.rep(I, st, node, "every-byte", "the last part of an element "
			         "may not be hashed")
		if t[1] == "==" and val and "E" in st.mon:
			for x, y in ((t[2], t[3]), (t[3], t[2])):
				x = base(x)
				if x[0] != "attr" or not (
						self.rd(st, x) or ("elem", base(x[1])) in st.mon):
					continue
				if x[2] == "element_type" and self.is_block(I, st, y):
					self.set(st, block=True)
				if x[2] in ("block_type", "type") and y == K("fLaC") and \
						self.rd(st, x):
					self.set(st, marker=True)
		if t[1] == "==" and val and "E" not in st.mon:
			for x, y in ((t[2], t[3]), (t[3], t[2])):
				if base(x) == ("attr", self.data, "size") and \
						(self.is_total(I, y) or not st.mon.get("any")):
					st.mon["sized"] = True

	def in_test(self, st, node):
		"""the condition of a while loop"""
		return any(isinstance(w, ast.While) and
		           w.test.lineno <= node.lineno <= w.test.end_lineno
		           for w in ast.walk(st.frames[-1].fi.node))

	def is_block(self, I, st, y):
		"""the constant for an element with a block header"""
		mod = self.p.modules[st.mon["rd"][2].split(":")[0]]
		for c in mod.classes.values():
			r = self.p.find_class_attr(c, "Block")
			if r and I.const_eval(r[1], r[0].mod, r[0]) == y:
				return True
		return False

	def is_total(self, I, t):
		"""a computed amount, not something else that is known of the file"""
		return any(base(x)[0] in ("op", "phi", "unk", "r", "c")
		           for x in I.parts(t)) and \
			not any(mentions(x, self.data) and base(x)[0] in ("c", "r")
			        for x in I.parts(t))

	def on_store(self, I, st, b, name, val, node):
		if base(b) == self.data and name == "crc32":
			st.mon["stored"] = True

	def merge_key(self, st):
		e = self.e(st)
		return (st.mon.get("any"), tuple((k, repr(v)) for k, v in sorted(e.items())),
		        "E" in st.mon, st.mon.get("sized"), st.mon.get("end"))


def profile(p, res, fi, cases):
	"""structure of the code; where byte layouts of samples show that every
	byte counts, that counts"""
	lay = Result(res.rule)
	for c in srs.kind_of(cases, fi):
		srs.profiled(p, lay, c, whole=True)
	found, ends = Result(res.rule), Result(res.rule)
	try:
		structure(p, found, ends, fi)
	except AnalysisError as ex:
		if lay.incomplete or not lay.obligations:
			raise
		res.notes.append("structure not followed: %s" % ex)
	finally:
		srs.settled(res, found, lay, "every-byte")
		srs.settled(res, ends, Result(res.rule), "complete")


def structure(p, res, ends, fi):
	ps = fi.params()
	data = ("param", ps[1])
	m = Profile(p, data)
	I, outs = analyse(p, res, m, fi, LIMIT=8, MAX_STEPS=400000)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	for site in sorted(set(m.unhashed) & m.partsites, key=repr):
		_, node, f = m.unhashed[site]
		res.bad("every-byte", "%s:%d" % (f.mod.rel, node.lineno), f.full,
		        "a part of an element is not always hashed")
	fmt = fi.name.split("_")[0]
	where = "%s:%d" % (fi.mod.rel, fi.node.lineno)
	n = 0
	for kind, st, v in outs:
		if kind != "return":
			continue
		n += 1
		if not st.mon.get("hashed") and not st.mon.get("end"):
			res.bad("every-byte", where, fi.full,
			        "the sample is never hashed")
		c = st.heap.get((data, "crc32"))
		if c is None or not m.final(I, st, c):
			res.bad("every-byte", where, fi.full, "the checksum of the sample "
			        "that is kept misses data that was hashed last")
		if fmt in SIZED and not st.mon.get("sized"):
			ends.bad("complete", where, fi.full, "profiling ends normally "
			        "although the parsed size may differ from the file size")
	if outs and not n:
		raise AnalysisError("%s never returns" % fi.full)
	if outs and not m.whole and not (m.readers and m.elements and m.hashed):
		raise AnalysisError("%s: no elements are hashed" % fi.full)
	res.ok("%s: %d normal ends, %d element loops, %d checksum calls" % (
		fi.full, n, len(m.elements), len(m.hashed)))


class Create(FSMonitor):
	"""an SRS file is only made from a completely profiled sample"""
	raise_mode = "none"
	phi_by_key = True
	inline_small = 12
	events = (".profile_sample", ".create_srs", ".exit", "parser.exit")
	opaque = ("rescene.utility:replace_result",
	          "rescene.utility:create_temp_file_name",
	          "resample.srs:verify_main")

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.profiles = self.creates = 0

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short == "profile_sample" and not name.startswith("P:"):
			self.profiles += 1
			y = st.copy()
			y.mon["incomplete"] = True
			t = st.fresh(("r", I.site(st, node), short, ()))
			st.mon["profiled"] = base(args[0]) if args else None
			return [("ok", st, ("tup", ("sub", t, K(0)), ("sub", t, K(1)))),
			        ("raise", y, ("exc", "resample.main:IncompleteSample"))]
		if short == "create_srs" and not name.startswith("P:"):
			self.creates += 1
			if st.mon.get("incomplete"):
				self.report(I, st, node, "complete", "an SRS file is created "
				            "from an incomplete sample")
			elif not st.mon.get("profiled"):
				self.report(I, st, node, "complete", "an SRS file is created "
				            "without profiling the sample")
			elif not any(base(a) == st.mon["profiled"] for a in args):
				self.report(I, st, node, "complete", "the SRS file is created "
				            "from other data than what was profiled")
			return [("ok", st, NONE)]
		return None

	def merge_key(self, st):
		return (st.mon.get("incomplete"), repr(st.mon.get("profiled")))


def create(p, res, fi):
	m = Create(p)
	I, outs = analyse(p, res, m, fi, LIMIT=6, MAX_STEPS=400000)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	for kind, st, v in outs:
		if kind == "return" and st.mon.get("incomplete") and \
				any(is_k(x) and not x[2] for x in I.parts(v)):
			res.bad("complete", "%s:%d" % (fi.mod.rel, fi.node.lineno),
			        fi.full, "success is reported for an incomplete sample")
	if outs and not (m.profiles and m.creates):
		raise AnalysisError("%s: no sample is profiled" % fi.full)
	res.ok("%s: %d profilings, %d creations" % (fi.full, m.profiles,
	                                            m.creates))


def run(p, tier):
	res = Result(
		"typestate of the parsed element in every profiling function: header, "
		"block header, contents or parts and padding byte are each hashed "
		"once, in file order, into one linear checksum chain that is stored; "
		"normal return only after the parsed size equalled the file size; the "
		"SRS tool creates an SRS file only after profiling without "
		"IncompleteSample")
	fns = srs.handlers(p, "profile_sample")
	cases = srs.samples(srs.cases())
	jobs = [lambda r, f=f: profile(p, r, f, cases) for f in fns]
	jobs.append(lambda r: create(p, r, p.func("resample.srs", "main")))
	for c in cases:
		if c.kind in CUT:
			jobs.append(lambda r, c=c: [srs.truncated(p, r, c, n)
			                            for n in srs.cuts(c)])
	parallel(res, jobs)
	res.need(8, "profiling functions")
	return res
