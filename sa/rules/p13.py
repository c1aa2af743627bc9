"""P13: verification of extracted files never passes a corrupt or missing
file."""
from ..absint import FALSE, K, NONE, TRUE, is_k, mentions, show
from ..core import Result, analyse
from ..crc import ZERO, crc_call, root
from ..fs import FSMonitor, base
from ..project import AnalysisError

ID = "P13"
ZEROS = (K("00000000"), K("0"))


class Verify(FSMonitor):
	raise_mode = "none"
	phi_by_key = True
	events = ("calculate_crc32", "rescene.utility:calculate_crc32")
	opaque = ("rescene.main:info", "rescene.utility:calculate_crc32")
	inline_small = 12

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.files = 0
		self.matches = 0

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "verify-status", msg)

	def other(self, I, st, name, recv, args, kw, node):
		if name.endswith("calculate_crc32") and args:
			return [("ok", st, ("c", "crc-of", (args[0],)))]
		if name == ".append" and recv is not None:
			st.mon[("nonempty", recv)] = True
		if name in ("max", "min") and len(args) == 2:
			# a status that only grows
			ps = [I.parts(a) for a in args]
			if name == "max" and any(all(is_k(x) and x[2] > 0 for x in s)
			                         for s in ps):
				return [("ok", st, ("c", "max", tuple(args)))]
		return None

	def truth(self, I, st, t):
		if ("nonempty", t) in st.mon:
			return True
		if t[0] == "op" and t[1] == "Add" and is_k(t[3]) and \
				isinstance(t[3][2], int) and t[3][2] > 0:
			return True
		if t[0] == "cmp" and t[1] == "==" and t[3] == ZERO and \
				t[2][0] == "op" and self.truth(I, st, t[2]):
			return False
		return None

	def iterate(self, I, st, itv, elem, node):
		if "archived_files" not in repr(itv) or mentions(itv, ("x",)) or \
				itv[0] == "elem":
			return
		self.settle(I, st)
		st.mon["cur"] = elem
		st.mon["seen"] = True
		self.files += 1

	def iter_end(self, I, st, itv, node):
		if "archived_files" in repr(itv):
			self.settle(I, st)

	def settle(self, I, st):
		if st.mon.pop("cur", None) is None:
			return
		if not st.mon.pop("good", False):
			st.mon["bad"] = True

	def is_crc(self, t, cur):
		b = base(t)
		return b[0] == "attr" and b[2] == "crc32" and base(b[1]) == base(cur)

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		cur = st.mon.get("cur")
		if cur is None or t[0] != "cmp" or not val:
			return
		if t[1] == "in" and self.is_crc(t[2], cur) and t[3][0] == "tup" and \
				all(x in ZEROS for x in t[3][1:]):
			st.mon["good"] = True
		if t[1] != "==":
			return
		for a, b in ((t[2], t[3]), (t[3], t[2])):
			if not ("'crc32'" in repr(a) and self.mentions_crc(a, cur)):
				continue
			if b in ZEROS:
				st.mon["good"] = True
			elif "crc-of" in repr(b):
				fm = self.fmt(b)
				if fm is not None and fm != "00000ABC":
					self.rep(I, st, node, "the CRC of a file is formatted in "
					         "a way that never equals the archived one")
				self.matches += 1
				st.mon["good"] = True

	def mentions_crc(self, t, cur):
		if self.is_crc(t, cur):
			return True
		return isinstance(t, tuple) and any(
			isinstance(x, tuple) and x and self.mentions_crc(x, cur)
			for x in t)

	def fmt(self, t):
		b = base(t)
		if b[0] == "op" and b[1] == "Mod" and is_k(b[2]):
			try:
				return b[2][2] % 0xabc
			except (TypeError, ValueError):
				return "?"
		return None

	def on_return(self, I, st, val, node):
		if len(st.frames) > 1:
			return
		if st.mon.get("cur") is not None and not st.mon.get("good"):
			st.mon["bad"] = True
		ps = I.parts(val)
		if st.mon.get("bad"):
			for x in ps:
				if is_k(x) and (not x[2] or x == K(10)):
					self.rep(I, st, node, "a file that is missing or has "
					         "another CRC can end with status %s" % show(x))
		elif st.mon.get("seen"):
			for x in ps:
				if is_k(x) and x[2] in (1, 2):
					self.rep(I, st, node, "status %s is possible although "
					         "every file has the right CRC" % show(x))

	def merge_key(self, st):
		return (st.mon.get("bad"), st.mon.get("good"), st.mon.get("seen"))


class FileCrc(FSMonitor):
	"""the CRC covers the whole file"""
	raise_mode = "none"
	inline_small = 12
	events = FSMonitor.events + ("zlib.crc32", "binascii.crc32", ".read")

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.reads = 0

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "file-crc", msg)

	def other(self, I, st, name, recv, args, kw, node):
		if name.startswith("P:") and "spinner" in name:
			return [("ok", st, NONE)]
		if name == ".read" and recv is not None and base(recv)[0] == "h":
			self.reads += 1
			self.settle(I, st, node)
			t = st.fresh(("r", I.site(st, node), "read", (recv,)))
			st.mon["last"] = t
			if not args or args[0] in (NONE, K(-1)):
				st.mon["eof"] = True
			return [("ok", st, t)]
		r = crc_call(I, st, name, args, kw, node)
		return r

	def settle(self, I, st, node):
		t = st.mon.pop("last", None)
		if t is None:
			return
		n = 0
		for k in list(st.mon):
			if isinstance(k, tuple) and k[0] == "CS" and st.mon[k] > 1:
				self.rep(I, st, node, "the CRC starts anew for each piece of "
				         "data")
			if isinstance(k, tuple) and k[0] == "D":
				if base(k[1]) == base(t):
					n += st.mon[k]
				else:
					self.rep(I, st, node, "something else than the file's "
					         "data goes into its CRC")
				del st.mon[k]
		if n != 1 and not (n == 0 and st.mon.get("empty")):
			self.rep(I, st, node, "data of the file goes %s into its CRC" % (
				"not" if not n else "more than once"))
		st.mon.pop("eof", None)
		st.mon.pop("empty", None)

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		last = st.mon.get("last")
		if last is None:
			return
		empty = None
		if t == last:
			empty = not val
		elif t[0] == "cmp" and t[1] == "==" and (
				t[2] == ("c", "len", (last,)) and t[3] == ZERO or
				t[2] == last and t[3] == K(b"")):
			empty = val
		elif t == ("c", "len", (last,)):
			empty = not val
		elif t[0] == "cmp" and t[1] == "<" and t[2] == ZERO and \
				t[3] == ("c", "len", (last,)):
			empty = not val
		if empty:
			st.mon["empty"] = True
			st.mon["eof"] = True

	def on_return(self, I, st, val, node):
		if len(st.frames) > 1:
			return
		eof = st.mon.get("eof")
		self.settle(I, st, node)
		if not eof:
			self.rep(I, st, node, "the CRC can be returned before the end of "
			         "the file was reached")
		if root(I, val) != ZERO:
			self.rep(I, st, node, "the value returned is not the CRC that "
			         "was calculated")

	def merge_key(self, st):
		return tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr))


def run(p, tier):
	res = Result(
		"verification status: on every path of verify_extracted_files(), each "
		"archived file was skipped for having no CRC, or its CRC compared "
		"equal to the CRC of a file on disk, or the status returned can not "
		"be success; CRC chain: calculate_crc32() feeds everything it reads "
		"once into the CRC up to the end of the file")
	fi = p.func("rescene.srr", "verify_extracted_files")
	m = Verify(p)
	I, outs = analyse(p, res, m, fi, LIMIT=20)
	if outs and not (m.files and m.matches):
		raise AnalysisError("verify_extracted_files() compares no CRCs")
	res.ok("%s: %d paths, %d CRC comparisons" % (fi.full, len(outs),
	                                             m.matches))
	fi = p.func("rescene.utility", "calculate_crc32")
	m = FileCrc(p)
	I, outs = analyse(p, res, m, fi, LIMIT=20)
	if outs and not m.reads:
		raise AnalysisError("calculate_crc32() reads nothing")
	res.ok("%s: %d paths, %d reads" % (fi.full, len(outs), m.reads))
	res.need(2, "verification functions")
	return res
