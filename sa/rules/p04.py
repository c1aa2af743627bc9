"""P04: names recorded in a file never lead outside the chosen folder."""
import ast

from ..absint import FALSE, K, NONE, TRUE, is_k, kval, show
from ..core import Result, analyse, parallel
from ..fs import FSMonitor, base, writes
from ..absint import Monitor
from ..project import AnalysisError, helpers

ID = "P04"

#: attributes that hold a name read from an SRR, SRS or RAR file
NAMES = {"file_name", "unicode_filename", "orig_filename", "appname"}
LOADED = ("load_srs", "_load_srs")
ILLEGAL = ("", ".", "..", "/dev/null")


def flat(I, t):
	return [base(x) for x in I.parts(t)]


def loaded(I, t, d=0):
	"""stems from reading an SRS file"""
	for x in flat(I, t):
		if x[0] == "r" and len(x) > 2 and isinstance(x[2], str) and \
				x[2].split(":")[-1].split(".")[-1] in LOADED:
			return True
		if x[0] in ("attr", "sub") and d < 8 and loaded(I, x[1], d + 1):
			return True
		if x[0] in ("c", "r") and d < 8 and len(x) > 2 and any(
				isinstance(a, tuple) and loaded(I, a, d + 1)
				for a in x[-1] if isinstance(x[-1], tuple)):
			return True
	return False


def short_tail(t):
	"""at most the last three characters"""
	t = base(t)
	if t[0] == "sub":
		s = base(t[2])
		if s[0] == "slice" and is_k(s[1]) and isinstance(kval(s[1]), int) \
				and -3 <= kval(s[1]) < 0:
			return True
	return False


CONVERT = ("os_file_name",)


class Names(FSMonitor):
	"""the taint rule"""
	raise_mode = "none"
	inline_small = 8
	events = FSMonitor.events + (
		"replace_result", ".create_srs", ".rebuild_sample", "copy_data",
		"joinpath", "create_srr", "create_srr_single_volume")
	opaque = ("rescene.utility:joinpath", "rescene.utility:replace_result",
	          "rescene.utility:create_temp_file_name",
	          "rescene.main:_fire", "rescene.utility:empty_folder",
	          "rescene.main:copy_data", "bin.retag:fix_tagging",
	          "resample.srs:main", "rescene.main:custom_popen",
	          "rescene.main:create_srr", "rescene.main:RarStream.__init__",
	          "rescene.rarstream:RarStream.__init__",
	          "rescene.main:create_srr_single_volume",
	          "resample.fpcalc:fingerprint", "resample.main:fingerprint",
	          "rescene.main:initialize_rar_repository",
	          "rescene.main:_auto_locate_renamed",
	          "rescene.main:compressed_rar_file_factory")

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.sinks = set()
		self.clean = set()

	def taint(self, I, t, d=0):
		"""the part of a path that may select any file, or None"""
		if not isinstance(t, tuple) or not t or d > 30:
			return None
		t = base(t)
		k = t[0]
		if k in ("k", "param", "tmp", "tmpname", "ext", "F", "C", "M"):
			return None
		if k == "phi":
			for x in I.parts(t):
				if x != t:
					r = self.taint(I, x, d + 1)
					if r:
						return r
			return None
		if k == "attr":
			if t[2] in NAMES:
				return t
			if t[2] in ("name", "sample_name") and loaded(I, t[1]):
				return t
			return None
		if k == "c":
			if t[1] == "os.path.basename":
				return None
			if t[1] == ".get":
				return self.any(I, t[2][:1] + t[2][2:], d)
			return self.any(I, t[2], d)
		if k == "r":
			n = t[2].split(":")[-1].split(".")[-1] if len(t) > 2 and \
				isinstance(t[2], str) else ""
			if n in CONVERT:
				return None         # each of them is judged on its own
			if n == "joinpath":
				# judged on its own; its start is part of the result
				self.clean.add(show(t))
				return self.any(I, t[3][1:], d) if len(t) > 3 else None
			if n in ("get", "pop", "setdefault") and len(t) > 3 and t[3]:
				# what the name stands for, not the name
				return self.any(I, t[3][:1] + t[3][2:], d)
			return self.any(I, t[3], d) if len(t) > 3 and \
				isinstance(t[3], tuple) else None
		if k == "op" and t[1] == "Add":
			a, b = base(t[2]), base(t[3])
			pre = a
			while pre[0] == "op" and pre[1] == "Add":
				pre = base(pre[3])
			if is_k(pre) and isinstance(kval(pre), str) and kval(pre) and \
					not kval(pre).endswith(("/", "\\")) and short_tail(b):
				return self.taint(I, a, d + 1)
			return self.taint(I, a, d + 1) or self.taint(I, b, d + 1)
		if k == "sub":
			i = base(t[2])
			b = base(t[1])
			if b[0] == "c" and b[1] == "os.path.split" and i == K(1):
				return None
			return self.taint(I, t[1], d + 1)
		return self.any(I, t[1:], d)

	def any(self, I, ts, d):
		for x in ts:
			if isinstance(x, tuple):
				r = self.taint(I, x, d + 1)
				if r:
					return r
		return None

	def sink(self, I, st, path, node, what):
		self.sinks.add((I.site(st, node), what))
		r = self.taint(I, path)
		if r:
			self.report(I, st, node, "contain", "%s %s: %s, read from the "
			            "file, can lead outside the chosen folder" % (
				show(path), what, show(r)))

	def fs_open(self, I, st, path, mode, h, node):
		self.sink(I, st, path, node, "is opened")

	def fs_rename(self, I, st, src, dst, node, name):
		self.sink(I, st, dst, node, "is replaced")

	def fs_remove(self, I, st, path, node):
		self.sink(I, st, path, node, "is removed")

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if name in ("os.makedirs", "os.mkdir", "os.rmdir", "shutil.rmtree",
		            "os.removedirs") and args:
			self.sink(I, st, args[0], node, "is made or removed")
			return [("ok", st, NONE)]
		if name in ("shutil.copy", "shutil.copyfile", "shutil.copy2",
		            "shutil.move") or short == "copy_data":
			for a in args[:2]:
				self.sink(I, st, a, node, "is copied")
			return [("ok", st, NONE)]
		if short == "replace_result" and len(args) > 1:
			self.sink(I, st, args[1], node, "is replaced")
			return [("ok", st, NONE)]
		if short == "create_srs" and recv is not None and len(args) > 3:
			self.sink(I, st, args[3], node, "is written")
			return [("ok", st, NONE)]
		if short == "rebuild_sample" and recv is not None and len(args) > 4:
			self.sink(I, st, args[4], node, "is written")
			return [("ok", st, st.fresh(("r", I.site(st, node), short, ())))]
		if short in ("create_srr", "create_srr_single_volume") and args:
			self.sink(I, st, args[0], node, "is created")
			return [("ok", st, TRUE)]
		if short == "main" and "srs" in name or short == "srsmain":
			# the output folder given to the tool for samples
			it = st.heap.get((base(args[0]), "$items")) if args else None
			it = it[1:] if it else ()
			for a, b in zip(it, it[1:]):
				if a == K("-o"):
					self.sink(I, st, b, node, "is used for output")
			return [("ok", st, NONE)]
		if short == "_load_srs" or short == "load_srs":
			return [("ok", st, st.fresh(
				("r", I.site(st, node), short, tuple(args))))]
		return None


def operation(p, res, fi, LIM=4, args=()):
	m = Names(p)
	I, outs = analyse(p, res, m, fi, LIMIT=LIM, MAX_STEPS=600000,
	                  args=dict(args))
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	if outs and not m.sinks:
		raise AnalysisError("%s uses no file" % fi.full)
	for w in m.sinks:
		res.ok("%s: %s" % (fi.full, w[1]))


# ------------------------------------------------------- the sanitizer
class Elements(Monitor):
	raise_mode = "none"
	inline_small = 8

	def __init__(self, p):
		Monitor.__init__(self, p)
		self.iters = 0

	def verified(self, I, st, e):
		"""neither a path of several elements nor a special name"""
		facts = {}
		for f, w in st.facts.items():
			while f[0] == "c" and f[1] == "bool" and len(f[2]) == 1:
				f = f[2][0]
			facts[f] = w
		one = any(w is False and f[0] == "c" and f[1] == "os.path.dirname"
		          and f[2] == (e,) for f, w in facts.items()) or \
			facts.get(("cmp", "==", ("c", "os.path.dirname", (e,)),
			           K(""))) is True or \
			facts.get(("cmp", "==", ("c", "os.path.basename", (e,)),
			           e)) is True
		bad = set()
		for f, w in facts.items():
			if w is False and f[0] == "cmp" and f[2] == e:
				if f[1] == "in":
					bad |= set(self.consts(f[3]))
				elif f[1] == "==" and is_k(f[3]):
					bad.add(kval(f[3]))
			if f == e and w is True:
				bad.add("")
		return one, [x for x in ILLEGAL if x not in bad]

	def consts(self, t):
		t = base(t)
		if t[0] == "c" and t[1] in ("frozenset", "set", "tuple", "list"):
			return self.consts(t[2][0]) if t[2] else []
		if t[0] == "tup":
			return [kval(x) for x in t[1:] if is_k(x)]
		return []

	def iterate(self, I, st, itval, elem, node):
		if base(itval) == ("param", "path"):
			st.mon["elem"] = elem
			st.mon.pop("done", None)

	def check(self, I, st, node):
		e = st.mon.get("elem")
		if e is None:
			return
		one, miss = self.verified(I, st, e)
		if not isinstance(node, (ast.For, ast.While)):
			# any() and all() stop at the first bad element; what a plain
			# comprehension does isn't a check
			if miss or not one:
				st.mon["plain"] = True
			return
		self.iters += 1
		if not one:
			self.report(I, st, node, "sanitizer", "a path element with a "
			            "separator in it is let through")
		if miss:
			self.report(I, st, node, "sanitizer", "the path element %s is "
			            "let through" % ", ".join(repr(x) for x in miss))

	def loop_back(self, I, st, node):
		self.check(I, st, node)

	def iter_end(self, I, st, itval, node):
		if base(itval) == ("param", "path") and (
				isinstance(node, (ast.For, ast.While)) or
				"plain" not in st.mon):
			st.mon["done"] = True

	def merge_key(self, st):
		return frozenset(k for k in st.mon if k in ("done", "plain"))



def sanitizer(p, res):
	fi = p.func("rescene.utility", "joinpath")
	m = Elements(p)
	m.force_inline = tuple(f.full for f in helpers(fi))
	I, outs = analyse(p, res, m, fi, LIMIT=12)
	where = "%s:%d" % (fi.mod.rel, fi.node.lineno)
	n = 0
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	for kind, st, v in outs:
		if kind != "return":
			continue
		n += 1
		if not st.mon.get("done"):
			res.bad("sanitizer", where, fi.full, "a path is returned before "
			        "all its elements are checked")
		res.ok("%s: result" % fi.full)
	if not n:
		raise AnalysisError("joinpath returns nothing")


# ------------------------------------------------------- the stored names
class Stored(FSMonitor):
	"""the name under which a file on disk is stored"""
	raise_mode = "none"
	inline_small = 8
	events = ("SrrStoredFileBlock",)
	opaque = ("rescene.main:_fire", "rescene.utility:fsunicode")

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.names = 0

	def relative(self, I, t, d=0):
		"""the relpath() calls that make up a name"""
		out = []
		if not isinstance(t, tuple) or d > 20:
			return out
		t = base(t)
		if t[0] == "phi":
			for x in I.parts(t):
				if x != t:
					out += self.relative(I, x, d + 1)
			return out
		if t[0] == "c" and t[1] == "os.path.basename":
			return out
		if t[0] == "c" and t[1] == "os.path.relpath":
			return [t]
		for x in t[1:]:
			if isinstance(x, tuple):
				out += self.relative(I, x, d + 1) if x and \
					isinstance(x[0], str) else \
					[z for y in x for z in self.relative(I, y, d + 1)]
		return out

	def inside(self, st, r):
		for f, w in st.facts.items():
			if w is False and f[0] == "cmp" and f[1] == "==" and \
					K("..") in f[2:4]:
				o = base(f[3] if f[2] == K("..") else f[2])
				if o[0] == "sub" and base(o[1]) == r:
					return True
				if o[0] == "sub" and base(o[1])[0] == "c" and \
						base(o[1])[1] == ".split" and \
						base(o[1])[2][0] == r and o[2] == K(0):
					return True
			if w is False and f[0] == "c" and f[1] == ".startswith" and \
					f[2][0] == r and f[2][1] == K(".."):
				return True
		return False

	def call(self, I, st, name, recv, args, kw, node):
		if name.endswith(":SrrStoredFileBlock") and name.startswith("N:"):
			v = kw.get("file_name")
			if v is not None:
				self.names += 1
				for r in self.relative(I, v):
					if not self.inside(st, r) and \
							not st.mon.get(("in", r)):
						self.report(I, st, node, "stored", "a file outside "
						            "the base folder is stored as %s" %
						            show(v))
			return [("ok", st, st.fresh(("r", I.site(st, node), "block",
			                             ())))]
		return FSMonitor.call(self, I, st, name, recv, args, kw, node)

	def on_branch(self, I, st, t, val, node):
		x = st.copy()
		while t[0] == "not":
			t, val = t[1], not val
		x.facts = {t: val}
		for f in (t,):
			for r in self.relative(I, f):
				if self.inside(x, r):
					st.mon[("in", r)] = True


def stored(p, res):
	fi = p.func("rescene.main", "_store")
	m = Stored(p)
	I, outs = analyse(p, res, m, fi, LIMIT=12)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	if not m.names:
		raise AnalysisError("_store stores nothing")
	res.ok("%s: %d names" % (fi.full, m.names))


def run(p, tier):
	res = Result(
		"taint: on every path, a name read from an SRR, SRS or RAR file only "
		"becomes part of a path that is opened, created, replaced or removed "
		"after os.path.basename() or the element check of joinpath(); that "
		"check raises for every element that is empty, '.', '..', the null "
		"device or has a directory part; and files stored with their path "
		"are stored by bare name when they are outside the base folder")
	M = "rescene.main"
	ops = [(M, "extract_files"), (M, "reconstruct"),
	       ("resample.srs", "main"), ("bin.retag", "fix_tracks"),
	       ("bin.retag", "fix_tagging")]
	jobs = [lambda r, a=a, b=b: operation(
		p, r, p.func(a, b), args={"no_exit": FALSE}
		if (a, b) == ("resample.srs", "main") else {}) for a, b in ops]
	for mod in p.modules.values():
		if mod.name != M:
			continue
		for f in mod.all_funcs.values():
			if f.cls is not None and f.parent is None and \
					f.cls.name == "CompressedRarFile" and \
					any(isinstance(n, ast.Call) and "temp_dir" in
					    ast.dump(n) for n in ast.walk(f.node)):
				jobs.append(lambda r, f=f: method(p, r, f))
	conv = [f for m in p.modules.values() for f in m.all_funcs.values()
	        if f.name in CONVERT]
	if len(conv) < 2:
		raise AnalysisError("os_file_name not found")
	jobs += [lambda r, f=f: converter(p, r, f) for f in conv]
	jobs += [lambda r: sanitizer(p, r), lambda r: stored(p, r)]
	parallel(res, jobs)
	res.need(12, "paths")
	return res


def method(p, res, fi):
	m = Names(p)
	I, outs = analyse(p, res, m, fi, LIMIT=2, MAX_STEPS=300000)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	for w in m.sinks:
		res.ok("%s: %s" % (fi.full, w[1]))


def converter(p, res, fi):
	m = Names(p)
	I, outs = analyse(p, res, m, fi, LIMIT=6)
	n = 0
	for kind, st, v in outs:
		if kind != "return":
			continue
		n += 1
		r = m.taint(I, v)
		if r:
			res.bad("sanitizer", "%s:%d" % (fi.mod.rel, fi.node.lineno),
			        fi.full, "%s is returned as a path: %s is not checked" %
			        (show(v), show(r)))
		res.ok("%s: result" % fi.full)
	if not n and not res.incomplete:
		raise AnalysisError("%s returns nothing" % fi.full)
