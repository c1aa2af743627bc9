"""P10: a rebuilt sample is only accepted when its checksum is right."""
from .. import srs
from ..absint import FALSE, K, NONE, TRUE, is_k, mentions, show
from ..core import Result, analyse, parallel
from ..crcflow import Written
from ..crc import unmask
from ..fs import FSMonitor, base
from ..project import AnalysisError

ID = "P10"


class Rebuild(Written):
	opaque = ("resample.main:show_spinner", "resample.main:remove_spinner")

	def __init__(self, p, out):
		Written.__init__(self, p)
		self.out = out
		self.checked = 0

	def fs_open(self, I, st, path, mode, h, node):
		from ..fs import writes
		if writes(mode) and base(path) == self.out:
			st.mon["opened"] = True

	def other(self, I, st, name, recv, args, kw, node):
		if name.startswith("N:") and name.endswith(":FileData"):
			t = st.fresh(("new", I.site(st, node), name[2:]))
			f = kw.get("file_name", args[1] if len(args) > 1 else NONE)
			if base(f) != self.out:
				self.rep(I, st, node, "result", "the reported file is not "
				         "the one that was written")
			return [("ok", st, t)]
		return Written.other(self, I, st, name, recv, args, kw, node)

	def on_store(self, I, st, b, name, val, node):
		if name == "crc32":
			self.settle(I, st, node, "before the checksum is handed over")
			if not self.final(I, st, val):
				self.rep(I, st, node, "result", "the reported checksum is not "
				         "the one over everything that was written")
			st.mon[("crc", b)] = True
			st.mon["published"] = True

	def on_return(self, I, st, val, node):
		if len(st.frames) > 1:
			return
		self.settle(I, st, node, "before the end")
		if st.mon.get("opened"):
			self.checked += 1
			if ("crc", val) not in st.mon:
				self.rep(I, st, node, "result", "the rebuilt file is reported "
				         "without the checksum of what was written")


def rebuild(p, res, fi, cases):
	"""structure of the code; where byte layouts of samples show that the CRC
	is right that counts"""
	lay = Result(res.rule)
	for c in srs.kind_of(cases, fi):
		if c.rebuild:
			srs.rebuilt(p, lay, c, result=True)
	found = Result(res.rule)
	try:
		return structure(p, found, fi)
	except AnalysisError as ex:
		if lay.incomplete or not lay.obligations:
			raise
		res.notes.append("structure not followed: %s" % ex)
	finally:
		srs.settled(res, found, lay, "rebuild")


def structure(p, res, fi):
	ps = fi.params()
	out = ("param", ps[-1])
	m = Rebuild(p, out)
	I, outs = analyse(p, res, m, fi, LIMIT=6)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	if outs and any(o[0] == "return" for o in outs):
		if not m.written or not m.hashed:
			raise AnalysisError("%s: no output is written or hashed" % fi.full)
	res.ok("%s: %d paths, %d writes and %d checksum calls paired" % (
		fi.full, len(outs), len(m.written), len(m.hashed)))
	return len(m.written)


class Publish(FSMonitor):
	"""which result gets the final name, with which exit status"""
	raise_mode = "none"
	phi_by_key = True
	inline_small = 12
	events = (".rebuild_sample", "replace_result", ".exit", "parser.exit",
	          "os.unlink", "os.remove")
	opaque = ("rescene.utility:replace_result",
	          "rescene.utility:create_temp_file_name")

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.rebuilds = 0
		self.published = 0
		self.compared = 0

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short == "load_srs":
			return [("ok", st, ("tup", ("srs_data",), ("srs_tracks",)))]
		if short == "rebuild_sample" and not (
				name.startswith("P:") and "resample.main" not in name):
			self.rebuilds += 1
			t = st.fresh(("r", I.site(st, node), short, ()))
			for k in ("good", "bad"):
				st.mon.pop(k, None)
			st.mon["rebuilt"] = True
			st.mon["last"] = t
			if args:
				st.mon["file"] = args[-1]
			if args and base(args[0]) != ("srs_data",):
				self.report(I, st, node, "publish", "a sample is rebuilt with "
				            "other data than that of the SRS")
			return [("ok", st, t)]
		if short == "create_temp_file_name":
			t = st.fresh(("r", I.site(st, node), short, tuple(args)))
			return [("ok", st, t)]
		if short == "replace_result" and args:
			if st.mon.get("rebuilt"):
				self.published += 1
				keep = st.mon.get("keep")
				if not keep and not st.mon.get("good"):
					self.report(I, st, node, "publish", "a rebuilt sample gets "
					            "its final name although its CRC may differ "
					            "from the expected one")
				f = st.mon.get("file")
				if f is not None and base(args[0])[0] == "r" and \
						base(f)[0] == "r" and base(args[0]) != base(f):
					self.report(I, st, node, "publish", "another file than the "
					            "rebuilt one gets the final name")
			return [("ok", st, NONE)]
		return None

	def is_crc(self, t, who):
		b = base(unmask(t))
		if not (b[0] == "attr" and b[2] == "crc32"):
			return False
		o = base(b[1])
		if who == "srs":
			return o == ("srs_data",)
		return o != ("srs_data",)

	def is_rebuilt(self, I, st, t):
		"""the last result, or the one an object carries out of a callback"""
		b = base(unmask(t))
		o = base(b[1])
		last = st.mon.get("last")
		ps = [base(x) for x in I.parts(o)]
		return any(x == base(last) or x[0] in ("attr", "r", "phi")
		           for x in ps)

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		b = base(t)
		if b[0] == "attr" and b[2] == "keep_reconstruction_failure":
			st.mon["keep"] = val
		if t[0] == "cmp" and t[1] == "==" and st.mon.get("rebuilt"):
			for x, y in ((t[2], t[3]), (t[3], t[2])):
				if self.is_crc(x, "srs") and self.is_crc(y, "new"):
					self.compared += 1
					if self.is_rebuilt(I, st, y):
						st.mon["good" if val else "bad"] = True
						st.mon.pop("bad" if val else "good", None)

	def merge_key(self, st):
		return tuple((k, repr(st.mon.get(k))) for k in
		             ("good", "bad", "rebuilt", "keep", "file"))


def success(I, v):
	return any(is_k(x) and (x[2] is None or x[2] is False or x[2] == 0)
	           for x in I.parts(v))


def publish(p, res, fi):
	m = Publish(p)
	args = {"no_exit": FALSE} if "no_exit" in fi.params() else {}
	I, outs = analyse(p, res, m, fi, LIMIT=6, args=args, MAX_STEPS=400000)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	n = 0
	for kind, st, v in outs:
		if not st.mon.get("rebuilt"):
			continue
		n += 1
		if kind == "raise":
			if v[1] != "SystemExit":
				continue
			v = v[2] if len(v) > 2 else NONE
		elif v != NONE:
			pass
		if success(I, v) and not st.mon.get("good"):
			res.bad("publish", "%s:%d" % (fi.mod.rel, fi.node.lineno), fi.full,
			        "the tool can end with success although the CRC of the "
			        "rebuilt sample differs")
	if outs and (not m.rebuilds or not n):
		raise AnalysisError("%s never rebuilds a sample" % fi.full)
	if outs and not m.compared:
		res.bad("publish", "%s:%d" % (fi.mod.rel, fi.node.lineno), fi.full,
		        "the CRC of the rebuilt sample is never compared with the one "
		        "of the SRS")
	res.ok("%s: %d ends after a rebuild, %d comparisons, %d publications" % (
		fi.full, n, m.compared, m.published))


def run(p, tier):
	res = Result(
		"checksum chains: in every rebuild function each piece of data written "
		"to the output is hashed once, in writing order, into one chain whose "
		"end value is reported for that file; the SRS tool gives a rebuilt "
		"file its final name and exits with success only after that checksum "
		"equalled the one in the SRS (or on request of the user, with a "
		"failure status)")
	fns = srs.handlers(p, "rebuild_sample")
	cases = srs.cases()
	jobs = [lambda r, f=f: rebuild(p, r, f, cases) for f in fns]
	jobs.insert(0, lambda r: publish(p, r, p.func("resample.srs", "main")))
	parallel(res, jobs)
	res.need(8, "rebuild functions")
	return res
