"""P02: failed or declined creation leaves existing output alone and no
partial file behind."""
from ..absint import K, NONE, TRUE, FALSE, is_k, show
from ..core import Result, analyse, parallel
from ..fs import FSMonitor, base, writes

ID = "P02"


class Api(FSMonitor):
	"""The creation functions: whatever they opened for writing is removed
	again on every exceptional exit; nothing is touched when the user
	declines."""
	events = ("open:w", "os.unlink", "os.remove", "os.rename", "os.replace",
	          "tempfile.mkstemp")
	single_fault = True
	keyboard_interrupt = True
	opaque = ("rescene.main:_fire", "rescene.main:_rarreader_usenet")

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "creation-cleanup", msg)

	def exists(self, I, st, path):
		v = st.mon.get(("F", path))
		return None if v is None else v == "part"

	def is_open(self, st, h):
		return ("h", h) in st.mon

	def fs_open(self, I, st, path, mode, h, node):
		if writes(mode):
			st.mon[("F", path)] = "part"
			st.mon[("h", h)] = "open"

	def fs_close(self, I, st, h, node):
		st.mon.pop(("h", h), None)

	def fs_remove(self, I, st, path, node):
		if st.mon.get(("F", path)) != "part":
			self.rep(I, st, node, "a file is removed that this call did not "
			         "create: %s" % show(path))
		st.mon[("F", path)] = "gone"

	def fs_rename(self, I, st, src, dst, node, name):
		v = st.mon.pop(("F", src), None)
		st.mon[("F", dst)] = v or "part"

	def _raise(self, st, exc="OSError"):
		r = FSMonitor._raise(self, st, exc)
		if r:
			r.append(("raise", st.copy(), ("exc", "KeyboardInterrupt")))
		return r


class Tool(FSMonitor):
	"""The command line tools: the final name only ever receives a complete
	result; an existing file under that name is not lost."""
	events = ("os.unlink", "os.remove", "os.rename", "os.replace",
	          "shutil.move", "tempfile.mktemp", "replace_result", "create_srr", "create_srr_single_volume", "create_srs",
	          "rebuild_sample")
	opaque = ("rescene.main:_fire", "resample.main:file_type_info")
	single_fault = True
	assertions_hold = True

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.created = 0
		self.published = set()

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "output-replacement", msg)

	def exists(self, I, st, path):
		v = st.mon.get(("F", path))
		return None if v is None else v in ("new", "part", "rebuilt")

	def other(self, I, st, name, recv, args, kw, node):
		n = name.split(":")[-1].split(".")[-1]
		if name in ("P:rescene.main:create_srr",
		            "P:rescene.main:create_srr_single_volume"):
			f = I._fn(name[2:])
			ps = f.params()
			b = dict(zip(ps, args))
			b.update(kw)
			tmp = b.get("tmp_srr_name")
			dst = args[0] if args else b.get(ps[0])
			self.created += 1
			if tmp is None or tmp == NONE:
				self.rep(I, st, node, "the SRR is created directly under its "
				         "final name: a failure destroys an existing file")
				tmp = dst
			res = []
			s2 = st.copy()
			# creation-cleanup: nothing stays behind when it fails
			s2.mon[("F", tmp)] = "gone"
			res.append(("raise", s2, ("exc", "Any")))
			s3 = st.copy()
			s3.mon[("F", tmp)] = "gone"
			res.append(("ok", s3, FALSE))
			st.mon[("F", tmp)] = "new"
			st.mon[("D", dst)] = tmp
			res.append(("ok", st, TRUE))
			return res
		if n == "create_srs" and len(args) >= 4:
			self.created += 1
			s2 = st.copy()
			s2.mon[("F", args[3])] = "part"
			st.mon[("F", args[3])] = "new"
			return [("raise", s2, ("exc", "Any")), ("ok", st, NONE)]
		if n == "rebuild_sample" and len(args) >= 5:
			self.created += 1
			s2 = st.copy()
			s2.mon[("F", args[4])] = "part"
			st.mon[("F", args[4])] = "rebuilt"
			t = st.fresh(("r", I.site(st, node), n, ()))
			return [("raise", s2, ("exc", "Any")), ("ok", st, t)]
		return None

	def fs_open(self, I, st, path, mode, h, node):
		if writes(mode):
			st.mon[("F", path)] = "part"

	def fs_remove(self, I, st, path, node):
		v = st.mon.get(("F", path))
		if v is None and base(path)[0] == "phi" and all(
				base(x)[0] in ("tmp", "tmpname", "k")
				for x in I.parts(path)):
			return        # one of the temporary files
		if v is None:
			comp = [k for k, x in st.mon.items() if isinstance(k, tuple) and
			        k[0] == "F" and x in ("new", "rebuilt")]
			if not comp and base(path)[0] not in ("tmp", "tmpname"):
				self.rep(I, st, node, "an existing output file is removed "
				         "although no complete replacement exists: %s" %
				         show(path))
			elif base(path)[0] not in ("tmp", "tmpname"):
				st.mon["lost"] = path
			st.mon[("F", path)] = "gone"
		else:
			st.mon[("F", path)] = "gone"

	def fs_rename_failed(self, I, st, src, dst):
		st.mon["norename"] = True

	def fs_rename(self, I, st, src, dst, node, name):
		if src == NONE:
			return          # fails
		v = st.mon.get(("F", src))
		self.published.add(getattr(node, "lineno", 0))
		if v == "part" or v == "gone" or (v is None and
		                                  base(src)[0] != "phi"):
			self.rep(I, st, node, "a file that was not written completely "
			         "gets the final name (%s)" % show(dst))
		st.mon[("F", src)] = "gone"
		st.mon[("F", dst)] = "final"
		st.mon.pop("lost", None)


def run(p, tier):
	res = Result(
		"typestate of output files over every normal and exceptional path "
		"(including interruption by Ctrl+C) of the creation functions and of "
		"the tools that call them: opened-for-writing files are removed on "
		"failure, existing files are only given up for a complete result")
	def api(res, name):
		fi = p.func("rescene.main", name)
		m = Api(p)
		I, outs = analyse(p, res, m, fi, LIMIT=4)
		opened = 0
		for kind, st, v in outs:
			part = [k[1] for k, x in st.mon.items()
			        if isinstance(k, tuple) and k[0] == "F" and x == "part"]
			opn = [k for k in st.mon if isinstance(k, tuple) and k[0] == "h"]
			opened += bool(part)
			w = "%s:%d" % (fi.mod.rel, fi.node.lineno)
			if kind == "raise" and part:
				res.bad("creation-cleanup", w, fi.full, "%s() can fail with "
				        "%s leaving a partial SRR file behind" %
				        (name, v[1]))
			elif kind == "raise" and opn:
				res.bad("creation-cleanup", w, fi.full, "%s() can fail with "
				        "the output file still open" % name)
			elif kind == "return" and v == FALSE and part:
				res.bad("creation-cleanup", w, fi.full, "%s() can report "
				        "'not created' although it wrote the file" % name)
			elif kind == "return" and opn:
				res.bad("creation-cleanup", w, fi.full, "%s() can return "
				        "before the output file is closed" % name)
			elif kind == "return" and v == TRUE and not part:
				res.bad("creation-cleanup", w, fi.full, "%s() can report "
				        "success without a result file" % name)
			else:
				res.ok()
		if not opened:
			res.notes.append("%s never opens an output" % name)
		res.ok("%s: %d outcomes" % (name, len(outs)))
	def tool(res, mod, name):
		fi = p.func(mod, name)
		m = Tool(p)
		mon = {}
		if name == "replace_result":
			mon = {("F", ("param", fi.params()[0])): "new"}
		if mod == "bin.pyrescene":
			m.raise_mode = "none"
			# the library calls are decided on their own; here only the
			# order in which this tool publishes and removes counts
			m.opaque = m.opaque + tuple(
				f.full for mm in p.modules.values()
				if mm.name.startswith(("rescene.", "resample."))
				for f in mm.all_funcs.values()
				if f.qual != "replace_result")
		I, outs = analyse(p, res, m, fi, mon=mon, LIMIT=4)
		for kind, st, v in outs:
			w = "%s:%d" % (fi.mod.rel, fi.node.lineno)
			whole = [k for k, x in st.mon.items() if isinstance(k, tuple)
			         and k[0] == "F" and x in ("new", "rebuilt")]
			tmpleft = [k for k, x in st.mon.items() if isinstance(k, tuple)
			           and k[0] == "F" and (x == "part" or x == "new" and
			                                "norename" not in st.mon)]
			if "lost" in st.mon and not whole:
				res.bad("output-replacement", w, fi.full, "an existing output "
				        "file can be lost together with its replacement")
			elif mod == "rescene.srr" and tmpleft:
				res.bad("output-replacement", w, fi.full, "a temporary file "
				        "can stay behind when %s() ends" % name)
			else:
				res.ok()
		res.ok("%s.%s: %d creations analysed, publishing lines %s" % (
			mod, name, m.created, sorted(m.published)))
	jobs = [lambda r, n=n: api(r, n) for n in (
		"create_srr", "create_srr_single_volume", "create_srr_fh")]
	jobs += [lambda r, a=a: tool(r, *a) for a in (
		("rescene.srr", "create_srr"), ("rescene.utility", "replace_result"),
		("resample.srs", "main"), ("bin.pyrescene", "create_srr_for_subs"))]
	parallel(res, jobs)
	res.need(30, "creation outcomes")
	res.assumptions = [
		"at most one operation fails per call; cleanup operations succeed",
		"files are not changed by other processes meanwhile"]
	return res
