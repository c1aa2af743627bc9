"""P03: existing files are never overwritten without consent."""
import ast

from ..absint import FALSE, K, NONE, TRUE, is_k, mentions, show
from ..core import Result, analyse, parallel
from ..fs import FSMonitor, base, writes
from ..project import AnalysisError, helpers

ID = "P03"

NORMAL = ("os.path.abspath", "os.path.normpath", "os.path.realpath", "str",
          "os.path.expanduser")
EXISTS = ("os.path.isfile", "os.path.exists", "os.path.lexists")
TEMP = ("create_temp_file_name",)
#: operations of the library that write the file named by their first
#: argument (through the temporary name, if given)
CREATORS = ("create_srr", "create_srr_single_volume")
#: methods that write to the path in their last positional argument
WRITERS = {"create_srs": 3, "rebuild_sample": 4}


def canon(t):
	b = base(t)
	while b[0] == "c" and b[1] in NORMAL and b[2]:
		b = base(b[2][0])
	return b


def has(t, pred):
	if not isinstance(t, tuple) or not t:
		return False
	if pred(t):
		return True
	return any(has(x, pred) for x in t if isinstance(x, tuple))


class Consent(FSMonitor):
	raise_mode = "handled"
	inline_small = 8
	single_fault = True
	events = FSMonitor.events + (
		"can_overwrite", ".create_srs", ".rebuild_sample", "replace_result",
		"create_srr", "create_srr_single_volume")
	opaque = ("rescene.utility:create_temp_file_name",
	          "rescene.utility:replace_result",
	          "rescene.main:_fire", "rescene.utility:empty_folder",
	          "bin.pyrescene:copy_to_working_dir",
	          "bin.pyrescene:extract_rar",
	          "bin.pyrescene:generate_srr", "bin.pyrescene:create_srr_for_subs",
	          "bin.pyrescene:unrar_is_available", "resample.srs:main",
	          "bin.pyrescene:get_files_list",
	          "resample.main:fingerprint", "resample.fpcalc:fingerprint",
	          "rescene.main:add_stored_files",
	          "rescene.main:remove_stored_files",
	          "rescene.main:extract_files", "rescene.main:info",
	          "rescene.main:compressed_rar_file_factory",
	          "rescene.main:_auto_locate_renamed", "rescene.main:_locate_file",
	          "rescene.main:CompressedRarFile.__init__",
	          "rescene.main:initialize_rar_repository",
	          "rescene.main:RarRepository.__init__")

	def __init__(self, p, fi):
		FSMonitor.__init__(self, p)
		self.fi = fi
		if fi.mod.name == "bin.pyrescene":
			# what it calls elsewhere is judged on its own
			self.opaque = self.opaque + tuple(
				f.full for m in p.modules.values() if m is not fi.mod
				for f in m.all_funcs.values())
			self.inline_small = 0
		self.asked = set()
		self.writes = set()
		self.deleg = set()

	def merge_key(self, st):
		return frozenset(k for k in st.mon
		                 if isinstance(k, tuple) and k[0] in ("ok", "no", "via"))

	def temp(self, t):
		return has(t, lambda x: x[0] in ("tmp", "tmpname") or
		           x[0] == "r" and len(x) > 2 and x[2] in TEMP + ("tempdir",))

	def scratch(self, I, t):
		"""inside the working directory of the run"""
		t = base(t)
		if t[0] == "c" and t[1] in ("os.path.join", "os.path.dirname",
		                            "os.path.normpath") and t[2]:
			return self.scratch(I, t[2][0])
		if t[0] == "op" and t[1] == "Add":
			a = base(t[2])
			return self.scratch(I, t[3] if is_k(a) else a)
		if t[0] == "phi":
			ps = I.parts(t)
			return all(x != t and self.scratch(I, x) for x in ps)
		return t == ("param", "working_dir") or \
			t[0] == "r" and len(t) > 2 and t[2].endswith("mkdtemp") or \
			t[0] == "tmp"

	def consented(self, st, t):
		return ("ok", canon(t)) in st.mon

	def need(self, I, st, path, node, what):
		self.writes.add((I.site(st, node), what))
		if self.fi.name in CREATORS and self.fi.mod.name == "rescene.main":
			q = ("param", self.fi.params()[0])
			if ("ok", q) not in st.mon:
				self.report(I, st, node, "consent", "%s %s although the user "
				            "was not asked for %s" % (
					show(path), what, show(q)))
		if self.consented(st, path):
			return
		for x in I.parts(path):
			c = canon(x)
			if self.temp(x) or self.scratch(I, x) or self.consented(st, x):
				continue
			if is_k(c):
				continue        # a name of the program itself
			if c[0] == "param" and any(
					isinstance(k, tuple) and k[0] == "ok" and
					k[1][0] == "param" for k in st.mon):
				# a second name for the same result: judged at the callers
				self.deleg.add(c[1])
				continue
			self.report(I, st, node, "consent", "%s %s although the user was "
			            "not asked when it exists already" % (
				show(path), what))
			return

	# -- file system ------------------------------------------------------
	def fs_open(self, I, st, path, mode, h, node):
		if writes(mode) and "x" not in mode:
			self.need(I, st, path, node, "is opened for writing")
			st.mon[("ok", canon(path))] = True

	def fs_rename(self, I, st, src, dst, node, name):
		self.need(I, st, dst, node, "is replaced")

	def fs_remove(self, I, st, path, node):
		for x in set(I.parts(path)) | {path}:
			if ("no", canon(x)) in st.mon:
				self.report(I, st, node, "consent", "%s is removed although "
				            "the user refused to replace it" % show(path))

	def ask(self, I, st, node, path, name="can_overwrite"):
		t = st.fresh(("r", I.site(st, node), "can_overwrite", (path,)))
		self.asked.add(I.site(st, node))
		return t

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short == "can_overwrite":
			p = args[0] if args else kw.get("file_path", NONE)
			for y in list(args[1:]) + list(kw.values()):
				b = base(y)
				if y != p and not (b == FALSE or b[0] == "attr" and
				                   "yes" in b[2] or
				                   b[0] == "param" and "yes" in b[1]):
					self.report(I, st, node, "consent", "the question about "
					            "%s is answered by %s and not by the always-"
					            "yes option" % (show(p), show(y)))
			y = st.copy()
			out = [("ok", st, self.ask(I, st, node, p))]
			if I.trydepth:
				out.append(("raise", y, ("exc", "KeyboardInterrupt")))
			return out
		if short in TEMP:
			return [("ok", st, st.fresh(
				("r", I.site(st, node), short, tuple(args))))]
		if short == "replace_result" and len(args) > 1:
			d = [k[1:] for k in st.mon if isinstance(k, tuple)
			     and k[0] == "via" and k[1] == canon(args[0])]
			if d:
				# made by a creator which asked for the final name
				self.writes.add((I.site(st, node), "published"))
				if canon(args[1]) not in [x[1] for x in d]:
					self.report(I, st, node, "consent", "%s gets a name for "
					            "which the user was not asked" % show(args[0]))
			else:
				self.need(I, st, args[1], node, "is replaced")
			return [("ok", st, NONE)]
		if short in CREATORS and self.fi.mod.name != "rescene.main" and (
				not name.startswith("P:") or name.startswith("P:rescene.main")
				or name.startswith("P:rescene:")):
			return self.creator(I, st, args, kw, node, short)
		if short in WRITERS and recv is not None and \
				not name.startswith("P:"):
			i = WRITERS[short]
			if len(args) > i:
				self.need(I, st, args[i], node, "is written")
			t = st.fresh(("r", I.site(st, node), short, ()))
			return [("ok", st, t)]
		if name in ("shutil.copy", "shutil.copyfile", "shutil.copy2",
		            "shutil.move") and len(args) > 1:
			self.need(I, st, args[1], node, "is replaced")
			return [("ok", st, NONE)]
		return None

	def creator(self, I, st, args, kw, node, short):
		f = self.p.func("rescene.main", short)
		b = dict(zip(f.params(), args))
		b.update(kw)
		dst, tmp = b.get(f.params()[0], NONE), b.get("tmp_srr_name", NONE)
		self.writes.add((I.site(st, node), "is created"))
		t = st.fresh(("r", I.site(st, node), short, (dst,)))
		if tmp != NONE and canon(tmp) != canon(dst):
			ok = all(self.temp(x) for x in I.parts(tmp))
			if not ok:
				self.report(I, st, node, "consent", "%s is written although "
				            "the user was only asked for %s" % (
					show(tmp), show(dst)))
			st.mon[("via", canon(tmp), canon(dst))] = True
		return [("ok", st, t)]

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		# a condition kept in a variable may stand for the same question about
		# differently merged paths
		qs = []
		for x in I.parts(t):
			v = val
			while x[0] == "not":
				x, v = x[1], not v
			x = base(x)
			if is_k(x) and bool(x[2]) != v:
				continue
			if x[0] not in ("r", "c"):
				return
			qs.append((x, v))
		for x, v in qs:
			self.known(st, x, v)

	def known(self, st, b, val):
		if b[0] == "r" and b[2] == "can_overwrite" and b[3]:
			st.mon[("ok" if val else "no", canon(b[3][0]))] = True
			if not val:
				st.mon.pop(("ok", canon(b[3][0])), None)
		if b[0] == "r" and b[2] in CREATORS and b[3] and not val:
			st.mon[("no", canon(b[3][0]))] = True
		if b[0] == "c" and b[1] in EXISTS and b[2] and not val:
			st.mon[("ok", canon(b[2][0]))] = True


def operation(p, res, fi, LIM=6, args=(), least=1):
	m = Consent(p, fi)
	I, outs = analyse(p, res, m, fi, LIMIT=LIM, MAX_STEPS=600000,
	                  args=dict(args))
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	if outs and len(m.writes) < least:
		raise AnalysisError("%s writes nothing" % fi.full)
	if m.deleg and m.deleg - {"tmp_srr_name"}:
		res.bad("consent", "%s:%d" % (fi.mod.rel, fi.node.lineno), fi.full,
		        "writes to %s, for which the user is not asked" %
		        ", ".join(sorted(m.deleg)))
	for w in m.writes:
		res.ok("%s: %s" % (fi.full, w[1]))



class Ask(FSMonitor):
	"""a function that asks: yes only for a free name, on request or after
	the answer y"""
	raise_mode = "none"
	inline_small = 12

	def other(self, I, st, name, recv, args, kw, node):
		if name.split(".")[-1].split(":")[-1].lstrip("?") in (
				"raw_input", "input"):
			return [("ok", st, st.fresh(
				("r", I.site(st, node), "answer", ())))]
		return None


	def on_branch(self, I, st, t, val, node):
		# every test of the function keeps its paths apart
		while t[0] == "not":
			t, val = t[1], not val
		st.mon[t] = val


def is_answer(I, t):
	return any(has(x, lambda y: y[0] == "r" and len(y) > 2 and
	               y[2] == "answer") for x in I.parts(t))


def ask_function(p, res, fi):
	m = Ask(p)
	m.force_inline = tuple(f.full for f in helpers(fi))
	ps = fi.params()
	path = ("param", ps[0])
	I, outs = analyse(p, res, m, fi, LIMIT=12)
	where = "%s:%d" % (fi.mod.rel, fi.node.lineno)
	n = 0
	for kind, st, v in outs:
		if kind != "return":
			continue
		n += 1
		for val in ([True, False] if I.decide(v, st) is None else
		            [I.decide(v, st)]):
			s = st.copy()
			if I.decide(v, s) is None:
				I.assume(s, v if v[0] != "not" else v[1],
				         val if v[0] != "not" else not val)
			facts = dict(s.mon)
			facts.update(s.facts)
			free = any(f[0] == "c" and f[1] in EXISTS and
			           canon(f[2][0]) == path and not w
			           for f, w in facts.items())
			taken = any(f[0] == "c" and f[1] in EXISTS and
			           canon(f[2][0]) == path and w
			            for f, w in facts.items())
			opt = [f for f, w in facts.items() if w and (
				f[0] == "attr" and "yes" in f[2] or
				f[0] == "param" and "yes" in f[1])]
			no = [f for f, w in facts.items() if w and
			      f[0] == "attr" and f[2] == "always_no"]
			yes = any(f[0] == "cmp" and f[1] == "==" and w and
			          is_answer(I, f[2]) and f[3] == K("y")
			          for f, w in facts.items())
			two = any(f[0] == "cmp" and f[1] == "in" and w and
			          is_answer(I, f[2]) and
			          sorted(x[2] for x in f[3][1:] if is_k(x)) == ["n", "y"]
			          and len(f[3]) == 3 for f, w in facts.items())
			notn = any(f[0] == "cmp" and f[1] == "==" and not w and
			           is_answer(I, f[2]) and f[3] == K("n")
			           for f, w in facts.items())
			asked = yes or two and notn
			if val and not (free or opt or asked):
				res.bad("ask", where, fi.full, "an existing file may be "
				        "replaced without the answer y or the option for it")
			if val and no and taken and not opt:
				res.bad("ask", where, fi.full,
				        "an existing file is replaced although the answer "
				        "is always no")
	if outs and not n:
		raise AnalysisError("%s never answers" % fi.full)
	res.ok("%s: %d answers" % (fi.full, n))


def run(p, tier):
	res = Result(
		"consent typestate: in every operation that writes results, on every "
		"path (exceptions included) a file is only opened for writing, "
		"replaced or moved over when it is a temporary name, or the very same "
		"path was found free or allowed by the overwrite question; each "
		"overwrite question answers yes only for a free name, with the "
		"always-yes option or after the answer y")
	ops = [("rescene.main", "extract_files"), ("rescene.main", "reconstruct"),
	       ("rescene.main", "create_srr"),
	       ("rescene.main", "create_srr_single_volume"),
	       ("rescene.srr", "create_srr"), ("resample.srs", "main"),
	       ("bin.pyrescene", "generate_srr"), ("bin.pyrescene", "main")]
	ops.sort(key=lambda o: o[1] != "generate_srr")     # the longest first
	jobs = [lambda r, a=a, b=b: operation(p, r, p.func(a, b),
	                                      2 if b == "generate_srr" else 6,
	                                      {"no_exit": FALSE}
	                                      if a == "resample.srs" else {})
	        for a, b in ops]
	jobs.append(lambda r: operation(p, r, p.func("resample.srs", "main"),
	                                args={"no_exit": TRUE}))
	asks = []
	for mod in p.modules.values():
		if not mod.rel.startswith(("rescene/", "resample/", "bin/")) or \
				"/test/" in mod.rel:
			continue
		fs = list(mod.all_funcs.values())
		asks += [f for f in fs if f.name == "can_overwrite" and f.params()]
		for n in ast.walk(mod.tree):
			# the questions that are installed
			if isinstance(n, ast.Assign) and any(
					isinstance(t, ast.Attribute) and
					t.attr == "can_overwrite" for t in n.targets):
				v = n.value
				c = [f for f in fs if isinstance(v, ast.Name) and
				     f.name == v.id or f.node is v]
				if not c:
					res.bad("ask", "%s:%d" % (mod.rel, n.lineno), mod.name,
					        "the overwrite question is replaced by something "
					        "that isn't a function of the tool")
				asks += [f for f in c if f not in asks]
	if len(asks) < 4:
		raise AnalysisError("overwrite questions not found")
	jobs += [lambda r, f=f: ask_function(p, r, f) for f in asks]
	parallel(res, jobs)
	res.need(15, "writes")
	return res
