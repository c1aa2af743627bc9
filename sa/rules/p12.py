"""P12: reconstruction checks the CRCs of what it packs and reports
mismatches; source files of the wrong size are rejected."""
import ast

from ..absint import FALSE, K, NONE, is_k, mentions, show
from .. import rarsets
from ..core import Result, analyse, parallel
from ..crc import ZERO, crc_call, root, unmask
from ..fs import FSMonitor, base
from ..project import AnalysisError, helpers
from ..rarsets import Member, Set, volume
from ..srs import lay, raw, settled, size

ID = "P12"
SPLIT_AFTER = K(0x02)
STORING = K(0x30)
UNKNOWN_SIZES = (K(0xFFFFFFFF), K(0xFFFFFFFFFFFFFFFF))
MOD = "rescene.main"


def is_attr(t, name):
	t = base(t)
	return t[0] == "attr" and t[2] == name


class Packer(FSMonitor):
	"""mon: ('W', data) -> n, ('D', data, root) -> n, ('S', data) -> 'short',
	'pad', 'match' -> roots, 'end' -> bool, 'comp' -> bool, 'fired'"""
	raise_mode = "none"
	events = FSMonitor.events + (".write", ".read", "zlib.crc32",
	                             "binascii.crc32", "_fire")
	inline_small = 12

	def __init__(self, p, roles):
		FSMonitor.__init__(self, p)
		self.roles = roles
		self.compares = 0
		self.copies = 0

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "packed-crc", msg)

	def is_src(self, t):
		return base(t) == ("param", self.roles["src"])

	def is_out(self, t):
		return base(t) == ("param", self.roles["out"])

	def is_data(self, t):
		b = base(t)
		return b[0] == "r" and b[2] == "read" and b[3] and self.is_src(b[3][0])

	def other(self, I, st, name, recv, args, kw, node):
		r = crc_call(I, st, name, args, kw, node)
		if r is not None:
			return r
		if name == "P:rescene.main:_fire" and args:
			if self.is_crc_code(I, args[0]):
				if st.mon.get("match"):
					self.rep(I, st, node, "a CRC mismatch is reported for "
					         "data whose CRC is right")
				st.mon["fired"] = True
			return [("ok", st, NONE)]
		if name == ".write" and recv is not None and self.is_out(recv) and args:
			for d in self.pieces(args[0]):
				if self.is_data(d):
					st.mon[("W", d)] = min(st.mon.get(("W", d), 0) + 1, 2)
				else:
					st.mon["pad"] = True
			return [("ok", st, NONE)]
		return None

	def pieces(self, t):
		b = base(t)
		if b[0] == "op" and b[1] == "Add":
			return self.pieces(b[2]) + self.pieces(b[3])
		return [t]

	def is_crc_code(self, I, t):
		code = I._static_attr(("C", MOD + ":MsgCode"), "CRC")
		if code is not None:
			return t == code
		return mentions(t, "CRC")

	# -- what the branches say -------------------------------------------------
	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		if t[0] == "cmp":
			for a, b in ((t[2], t[3]), (t[3], t[2])):
				if is_attr(unmask(a), "file_crc") and t[1] == "==":
					self.compares += 1
					if val:
						st.mon["match"] = st.mon.get(
							"match", frozenset()) | {root(I, b)}
				if t[1] == "==" and b == STORING and \
						is_attr(a, "compression_method"):
					st.mon["comp"] = not val
				if t[1] == "==" and self.split_after(a):
					if b == ZERO:
						st.mon["end"] = val
					elif b == SPLIT_AFTER:
						st.mon["end"] = not val
				# length of the data against what was asked for
				x = base(a)
				if x[0] == "c" and x[1] == "len" and self.is_data(x[2][0]):
					d = x[2][0]
					full = None
					if base(b) in [base(z) for z in base(d)[3][1:]]:
						full = val if t[1] == "==" else \
							(not val if (t[2] == a) else None)
					if full is not None:
						st.mon[("S", d)] = "full" if full else "short"
		elif self.split_after(t):
			st.mon["end"] = not val

	def split_after(self, t):
		b = base(t)
		return b[0] == "op" and b[1] == "BitAnd" and \
			SPLIT_AFTER in b[2:4] and any(is_attr(x, "flags") for x in b[2:4])

	# -- one piece of data -------------------------------------------------------
	def settle(self, I, st, node):
		data = {k[1] for k in st.mon if isinstance(k, tuple) and
		        k[0] in ("W", "D") and self.is_data(k[1])}
		data |= {k[1] for k in st.mon if isinstance(k, tuple) and k[0] == "S"}
		run = ("param", self.roles["run"])
		for d in sorted(data, key=repr):
			self.copies += 1
			w = st.mon.pop(("W", d), 0)
			if w != 1:
				self.rep(I, st, node, "data read from the source file is "
				         "written %s times to the archive" % w)
			for r, what in ((run, "the CRC of the whole file"),
			                (ZERO, "the CRC of the part in this volume")):
				n = st.mon.pop(("D", d, r), 0)
				if n != 1 and not self.skip:
					self.rep(I, st, node, "written data goes %s into %s" % (
						"not" if n == 0 else "twice", what))
			if st.mon.pop(("S", d), "short") == "short" and \
					not st.mon.get("pad"):
				self.rep(I, st, node, "a short read is not padded to the "
				         "length the archive needs")
		for k in list(st.mon):
			if isinstance(k, tuple) and k[0] == "CS" and st.mon[k] > 1:
				self.rep(I, st, node, "the CRC starts anew for each piece of "
				         "data")
			if isinstance(k, tuple) and k[0] == "D":
				self.rep(I, st, node, "something else than the data written "
				         "goes into a CRC")
				del st.mon[k]
		st.mon.pop("pad", None)

	def loop_back(self, I, st, node):
		if len(st.frames) >= 1:
			self.settle(I, st, node)

	def on_return(self, I, st, val, node):
		if len(st.frames) > 1:
			return
		self.settle(I, st, node)
		run = ("param", self.roles["run"])
		if self.skip:
			return
		if root(I, val) != run:
			self.rep(I, st, node, "the CRC of the whole file is not handed on "
			         "to the next volume")
		if st.mon.get("fired"):
			return
		end = st.mon.get("end")
		m = st.mon.get("match", frozenset())
		if end is None:
			self.rep(I, st, node, "the CRC is not checked depending on "
			         "whether the file ends in this volume")
		elif end and not st.mon.get("comp") and run not in m:
			self.rep(I, st, node, "the CRC of a whole file can mismatch "
			         "unreported")
		elif not end and ZERO not in m:
			self.rep(I, st, node, "the CRC of the file part in a volume can "
			         "mismatch unreported")

	def merge_key(self, st):
		return tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr))


class Locate(FSMonitor):
	"""the file that is packed has the size the archive needs"""
	raise_mode = "none"
	events = ("os.path.getsize", "os.stat", "_fire")

	def __init__(self, p, kind):
		FSMonitor.__init__(self, p)
		self.kind = kind
		self.returns = 0

	def other(self, I, st, name, recv, args, kw, node):
		if name == "os.path.getsize" and args:
			return [("ok", st, ("c", "getsize", (args[0],)))]
		if name == "os.stat" and args:
			return [("ok", st, ("c", "stat", (args[0],)))]
		if name == "os.path.isfile" and args:
			return [("ok", st, ("c", "isfile", (args[0],)))]
		if name == "P:rescene.main:_fire":
			return [("ok", st, NONE)]
		return None

	def size_of(self, t):
		b = base(t)
		if b[0] == "c" and b[1] == "getsize":
			return b[2][0]
		if b[0] == "attr" and b[2] == "st_size" and base(b[1])[0] == "c" and \
				base(b[1])[1] == "stat":
			return base(b[1])[2][0]
		return None

	def wanted(self, t):
		if self.kind == "locate":
			return is_attr(t, "unpacked_size")
		return base(t) == ("param", self.size)

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		if t[0] == "c" and t[1] == "isfile":
			if val:
				st.mon[("file", t[2][0])] = True
			return
		if t[0] != "cmp":
			return
		if t[1] == "in" and self.wanted(t[2]) and t[3][0] == "tup" and val and \
				all(x in UNKNOWN_SIZES for x in t[3][1:]):
			st.mon["unknown"] = True
		if t[1] != "==":
			return
		for a, b in ((t[2], t[3]), (t[3], t[2])):
			if not self.wanted(a):
				continue
			if b in UNKNOWN_SIZES and val:
				st.mon["unknown"] = True
			p = self.size_of(b)
			if p is not None:
				st.mon[("size", p)] = val

	def on_return(self, I, st, val, node):
		if len(st.frames) > 1 or val in (NONE, K(""), FALSE):
			return
		self.returns += 1
		if st.mon.get(("size", val)) is not True and \
				not (self.kind == "locate" and st.mon.get("unknown")):
			self.report(I, st, node, "source-size", "a source file can be "
			            "accepted without having the size of the archived "
			            "file")
		if self.kind == "locate" and not st.mon.get(("file", val)):
			self.report(I, st, node, "source-size", "a source file can be "
			            "accepted that does not exist")

	def on_raise(self, I, st, exc, node):
		if self.kind == "locate" and mentions(exc, "InvalidFileSize") and (
				st.mon.get("unknown") or not any(
					isinstance(k, tuple) and k[0] == "size" and v is False
					for k, v in st.mon.items())):
			self.report(I, st, node, "source-size", "a source file of the "
			            "right size is rejected")

	def merge_key(self, st):
		return tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr))


class Chain(FSMonitor):
	"""reconstruct(): what the packer gets"""
	raise_mode = "none"
	events = ("open:w",)
	assertions_hold = True

	def __init__(self, p, packer, skip_i, run_i, out_i, src_i):
		FSMonitor.__init__(self, p)
		self.packer = packer
		self.run_i, self.src_i, self.skip_i = run_i, src_i, skip_i
		self.calls = 0
		self.opaque = ("rescene.main:_locate_file", "rescene.main:_opath",
		               "rescene.main:get_rar_data_object",
		               "rescene.main:initialize_rar_repository",
		               "rescene.main:_write_recovery_record",
		               "rescene.main:_flag_check_srr", "rescene.main:_extract",
		               "rescene.main:_fire", "rescene.rar:RarReader.read_all",
		               packer.full)

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if name in ("P:rescene.main:_locate_file",
		            "P:rescene.main:get_rar_data_object"):
			t = st.fresh(("r", I.site(st, node), short, tuple(args)))
			s2 = st.copy()
			st.mon["fresh"] = True
			return [("ok", st, t), ("raise", s2,
			        ("exc", MOD + ":FileNotFound"))]
		if name in ("N:rescene.utility:FakeFile", "N:rescene.main:FakeFile",
		            "N:rescene.rarstream:FakeFile") or short == "FakeFile":
			st.mon["fresh"] = True
			if not (st.facts.get(("param", "empty")) or any(
					v and "'flags'" in repr(f) and
				("'DIRECTORY'" in repr(f) or "0xE0" in repr(f) or
				 " 224)" in repr(f)) for f, v in st.facts.items())):
				self.report(I, st, node, "source-size", "zeros are packed "
				            "although the user did not ask for that")
			return [("ok", st, st.fresh(("new", I.site(st, node), name[2:])))]
		if name == "P:" + self.packer.full:
			b = dict(zip(self.packer.params(), args))
			b.update(kw)
			ps = self.packer.params()
			self.calls += 1
			run = b.get(ps[self.run_i], NONE)
			if self.skip_i is not None and \
					b.get(ps[self.skip_i]) != ("param", "skip_rar_crc"):
				self.report(I, st, node, "packed-crc", "the packer is not "
				            "told whether CRCs must be checked")
			parts = I.parts(run)
			for x in parts:
				x = base(x)
				if x != ZERO and not (x[0] == "r" and
				                      x[2] == self.packer.name):
					self.report(I, st, node, "packed-crc", "the running CRC "
					            "of a file is %s" % show(x))
			for x in I.parts(b.get(ps[self.src_i], NONE)):
				x = base(x)
				if x[0] == "h" and not all(
						base(y)[0] == "r" and base(y)[2] == "_locate_file"
						for y in I.parts(base(x[2]))):
					self.report(I, st, node, "source-size", "a file is packed "
					            "whose size was not checked")
			if st.mon.get("fresh"):
				if run != ZERO:
					self.report(I, st, node, "packed-crc", "the running CRC "
					            "is not reset for the next file")
			elif run == ZERO and st.mon.get("packed"):
				self.report(I, st, node, "packed-crc", "the running CRC of a "
				            "file does not continue over its volumes")
			st.mon.pop("fresh", None)
			st.mon["packed"] = True
			t = st.fresh(("r", I.site(st, node), self.packer.name, ()))
			return [("ok", st, t)]
		return None

	def merge_key(self, st):
		return (st.mon.get("fresh"), st.mon.get("packed"))


def find_packer(p, rec):
	"""the function reconstruct() calls that reads, writes and checks CRCs"""
	best = []
	for n in ast.walk(rec.node):
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
			g = p.member(rec.mod, n.func.id)
			if g and g[0] == "fn":
				src = "".join(ast.unparse(f.node)
				              for f in [g[1]] + helpers(g[1]))
				if "crc32" in src and ".read(" in src and ".write(" in src \
						and "file_crc" in src:
					best.append((g[1], n))
	return best


def cases():
	"""RAR sets whose files are, or are not, what they were"""
	for part in (-1, 0, 1, 2):
		m = Member(b"movie.bin", [[raw("g%d" % (part + 1), 70000)],
		                          [raw("h%d" % (part + 1), 900)],
		                          [raw("i%d" % (part + 1), 40)]])
		e = Member(b"end.bin", [[raw("j%d" % (part + 1), 30)]])
		vol = {"a.rar": volume(0, 1, *m.part(0)),
		       "a.r00": volume(1, 1, *m.part(1)),
		       "a.r01": volume(2, 1, *(m.part(2) + e.part(0)))}
		ps = [list(x) for x in m.parts]
		if part >= 0:
			ps[part] = [raw("wrong%d" % part, size(*ps[part])[2])]
		src = {"movie.bin": lay(*[x for y in ps for x in y]),
		       "end.bin": e.all()}
		kw = dict(expect=(), others={"/out/" + n: None for n in vol})
		yield Set("a file in three volumes, %s" % (
			"as it was" if part < 0 else "part %d changed" % (part + 1)),
			vol, src, ["a.rar"], warn=() if part < 0 else ("CRC",), **kw)
		yield Set("a file in three volumes, part %d changed, no checks"
		          % (part + 1), vol, src, ["a.rar"],
		          rebuild=", skip_rar_crc=True", **kw)
		src = {"movie.bin": m.all(), "end.bin": lay(
			raw("wrongend%d" % part, 30)) if part >= 0 else e.all()}
		if part == 0:
			yield Set("a second file that changed", vol, src, ["a.rar"],
			          warn=("CRC",), **kw)
			yield Set("one volume of a file that changed", vol, src,
			          ["a.rar"], rebuild=", srr_part='a.r01'",
			          warn=("CRC",), expect=(), others={"/out/a.r01": None})
			src = {"end.bin": src["end.bin"]}
			yield Set("no file, zeros wanted", vol, src, ["a.rar"],
			          rebuild=", empty=True", warn=("CRC",), **kw)
			yield Set("no file", vol, src, ["a.rar"], fails=(
				"FileNotFound", "FileNotFoundError"))
			for n in (70939, 70941):
				src = dict(src, **{"movie.bin": lay(raw("sh%d" % n, n))})
				yield Set("a file of %d instead of 70940 bytes" % n, vol, src,
				          ["a.rar"], fails=("InvalidFileSize",))


def run(p, tier):
	res = Result(
		"CRC chains: on every path of the packer, with CRC checks on, each "
		"piece of data read from the source file is written once to the "
		"archive and goes once into the CRC of the file and of its part in "
		"the volume; on return the CRC in the archive was found equal to the "
		"right one (whole file at its end, unless compressed; part "
		"otherwise) or the mismatch was reported. reconstruct() hands the "
		"running CRC on and resets it for each file. _locate_file() returns "
		"only files of the archived size (or the two unknown-size marks)")
	rec = p.func(MOD, "reconstruct")
	found = find_packer(p, rec)
	if not found:
		raise AnalysisError("the function that packs file data was not found")
	fi, call = found[0]
	names = fi.params()
	roles = {}
	for n in ast.walk(fi.node):
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
				isinstance(n.func.value, ast.Name) and \
				n.func.value.id in names:
			if n.func.attr == "write":
				roles["out"] = n.func.value.id
			if n.func.attr == "read":
				roles["src"] = n.func.value.id
	argn = [a.id if isinstance(a, ast.Name) else None for a in call.args]
	skip = argn.index("skip_rar_crc") if "skip_rar_crc" in argn else None
	roles["skip"] = names[skip] if skip is not None else None
	# the accumulator that is a parameter
	run_i = None
	for n in ast.walk(fi.node):
		if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("crc32") \
				and len(n.args) == 2 and isinstance(n.args[1], ast.Name) and \
				n.args[1].id in names:
			run_i = names.index(n.args[1].id)
	if run_i is None and "running_crc" in names:
		run_i = names.index("running_crc")
	if run_i is None or "out" not in roles or "src" not in roles:
		for k, d in (("out", "rarfs"), ("src", "srcfs")):
			if k not in roles and d in names:
				roles[k] = d
		if run_i is None or "out" not in roles or "src" not in roles:
			raise AnalysisError("roles of the packer's parameters unclear")
	roles["run"] = names[run_i]
	types = {names[0]: "rescene.rar:RarPackedFileBlock",
	         "block": "rescene.rar:RarPackedFileBlock"}
	for sk in ((False, True) if roles["skip"] else (False,)):
		m = Packer(p, roles)
		m.skip = sk
		args = {roles["skip"]: K(sk)} if roles["skip"] else {}
		I, outs = analyse(p, res, m, fi, args=args, types=types, LIMIT=60)
		if outs and not m.copies:
			res.bad("packed-crc", "%s:%d" % (fi.mod.rel, fi.node.lineno),
			        fi.full, "no file data is copied")
		res.ok("%s, skip=%s: %d paths, %d copies, %d CRC comparisons" % (
			fi.full, sk, len(outs), m.copies, m.compares))
	found, exact = Result("x"), Result("x")
	m = Chain(p, fi, skip, run_i, names.index(roles["out"]),
	          names.index(roles["src"]))
	a = {n: v for n, v in (("srr_part", K("")), ("rar_executable_dir", NONE),
	                       ("rar_mt", NONE)) if n in rec.params()}
	I, outs = analyse(p, found, m, rec, args=a, LIMIT=4)
	if outs and not m.calls:
		raise AnalysisError("reconstruct() does not reach the packer")
	found.ok("reconstruct: %d paths, %d packer calls" % (len(outs), m.calls))

	def job(c):
		return lambda r: rarsets.rebuilt(p, r, c, "packed-crc")
	parallel(exact, [job(c) for c in cases()])
	settled(res, found, exact, "the CRC of files in several volumes")
	for name, kind in (("_locate_file", "locate"),
	                   ("_auto_locate_renamed", "auto")):
		f = p.func(MOD, name)
		m = Locate(p, kind)
		m.opaque = ("rescene.main:_auto_locate_renamed",)
		m.size = f.params()[1] if kind == "auto" else None
		I, outs = analyse(p, res, m, f, LIMIT=40, types={
			f.params()[0]: "rescene.rar:RarPackedFileBlock"}
			if kind == "locate" else None)
		res.ok("%s: %d paths, %d accepting returns" % (f.full, len(outs),
		                                               m.returns))
		if outs and not m.returns:
			raise AnalysisError("%s never returns a file" % name)
	res.need(5, "packer obligations")
	return res
