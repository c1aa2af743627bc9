"""Project loader: parses every shipped (non-test) Python file of /repo and
offers name, import, class and method resolution for the analyses.

Nothing of the analysed project is ever imported or executed.
"""
import ast
import builtins
import os
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)
warnings.filterwarnings("ignore", category=DeprecationWarning)

REPO = os.environ.get("SA_REPO", "/repo")

#: packages / script folders that ship with the tool set
ROOTS = ("rescene", "resample", "bin", "usenet", "rerar", "scripts")
PKG_ALIAS_ROOTS = ("", "bin", "usenet", "rerar", "scripts")


class AnalysisError(Exception):
	"""The checker cannot decide: an anchor vanished or a file can't be
	parsed.  Never reported as a violation of the property."""


class FuncInfo(object):
	def __init__(self, mod, node, qual, cls=None, parent=None):
		self.mod, self.node, self.qual = mod, node, qual
		self.cls, self.parent = cls, parent
		self.full = "%s:%s" % (mod.name, qual)
		self.name = getattr(node, "name", "<lambda>")
		self._calls = None
		self.nested = {}
		self._gen = None

	@property
	def is_generator(self):
		if self._gen is None:
			self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
			                for n in walk_own(self.node))
		return self._gen

	def params(self):
		a = self.node.args
		return [x.arg for x in a.posonlyargs + a.args]

	def called_names(self):
		"""Simple names this function (incl. nested functions) mentions as a
		call target or as a bare function reference."""
		if self._calls is None:
			s = set()
			for n in ast.walk(self.node):
				if isinstance(n, ast.Call):
					if isinstance(n.func, ast.Name):
						s.add(n.func.id)
					elif isinstance(n.func, ast.Attribute):
						s.add(n.func.attr)
					if (n.func.id if isinstance(n.func, ast.Name) else
							getattr(n.func, "attr", "")) in (
							"open", "fdopen", "TarFile", "ZipFile"):
						md = n.args[1] if len(n.args) > 1 else None
						for k in n.keywords:
							if k.arg == "mode":
								md = k.value
						if md is not None and not (
								isinstance(md, ast.Constant) and
								isinstance(md.value, str) and
								not set(md.value) & set("wax+")):
							s.add("open:w")
					for a in n.args:
						if isinstance(a, ast.Name):
							s.add(a.id)
				elif isinstance(n, ast.Attribute):
					s.add(n.attr)
			self._calls = s
		return self._calls

	def __repr__(self):
		return "<F %s>" % self.full


class ClassInfo(object):
	def __init__(self, mod, node, qual):
		self.mod, self.node, self.qual = mod, node, qual
		self.full = "%s:%s" % (mod.name, qual)
		self.name = node.name
		self.methods = {}
		self.attrs = {}   # class level assignment: name -> value AST
		self._bases = None

	def __repr__(self):
		return "<C %s>" % self.full


class Module(object):
	def __init__(self, name, path, tree, source):
		self.name, self.path, self.tree, self.source = name, path, tree, source
		self.funcs = {}     # module level functions
		self.classes = {}
		self.imports = {}   # local name -> ('mod', dotted) | ('from', dotted, n)
		self.assigns = {}   # name -> list of value AST
		self.mutable_globals = set()
		self.all_funcs = {}   # qual -> FuncInfo (incl. methods and nested)
		self.all_classes = {}

	@property
	def rel(self):
		return os.path.relpath(self.path, REPO)


def walk_own(node):
	"""Nodes of a function without those of functions nested in it."""
	stack = list(ast.iter_child_nodes(node))
	while stack:
		n = stack.pop()
		yield n
		if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
		                      ast.Lambda, ast.ClassDef)):
			stack.extend(ast.iter_child_nodes(n))


def is_test_file(rel):
	parts = rel.replace("\\", "/").split("/")
	if any(p in ("test", "tests", "__pycache__") for p in parts):
		return True
	b = parts[-1]
	return (b.startswith("test_") or b.endswith("_test.py")
	        or b in ("tests.py", "conftest.py"))


class Project(object):
	def __init__(self, repo=REPO, roots=ROOTS):
		self.repo = repo
		self.modules = {}
		for root in roots:
			top = os.path.join(repo, root)
			for d, dirs, files in os.walk(top):
				dirs[:] = sorted(x for x in dirs if x not in (
					"test", "tests", "__pycache__", "test_files"))
				for f in sorted(files):
					p = os.path.join(d, f)
					rel = os.path.relpath(p, repo)
					if f.endswith(".py") and not is_test_file(rel):
						self._load(p, rel)
		self.method_index = {}
		self.func_index = {}
		for m in self.modules.values():
			for c in m.all_classes.values():
				for n, f in c.methods.items():
					self.method_index.setdefault(n, []).append(f)
			for f in m.all_funcs.values():
				self.func_index.setdefault(f.name, []).append(f)
		self._reach = {}

	# -- loading ----------------------------------------------------------
	def _load(self, path, rel):
		with open(path, "rb") as fh:
			src = fh.read()
		name = rel[:-3].replace(os.sep, ".")
		if name.endswith(".__init__"):
			name = name[:-9]
		try:
			tree = ast.parse(src, path)
		except SyntaxError as ex:
			raise AnalysisError("cannot parse %s: %s" % (rel, ex))
		m = Module(name, path, tree, src.decode("utf-8", "replace"))
		self.modules[name] = m
		self._collect(m, tree.body)
		for n in ast.walk(tree):
			if isinstance(n, ast.Global):
				m.mutable_globals.update(n.names)

	def _py2_only(self, test):
		"""`if sys.hexversion < 0x3000000` style tests"""
		t = ast.dump(test)
		if isinstance(test, ast.Compare) and len(test.ops) == 1:
			if "hexversion" in t or "version_info" in t:
				if isinstance(test.ops[0], (ast.Lt, ast.LtE)):
					return True
				if isinstance(test.ops[0], (ast.Gt, ast.GtE)):
					return False
		return None

	def _collect(self, m, body):
		for s in body:
			if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
				if s.name not in m.funcs:
					m.funcs[s.name] = self._func(m, s, s.name)
			elif isinstance(s, ast.ClassDef):
				if s.name not in m.classes:
					m.classes[s.name] = self._cls(m, s, s.name)
			elif isinstance(s, ast.Import):
				for a in s.names:
					if a.asname:
						m.imports.setdefault(a.asname, ("mod", a.name))
					else:
						top = a.name.split(".")[0]
						m.imports.setdefault(top, ("mod", top))
			elif isinstance(s, ast.ImportFrom):
				base = s.module or ""
				if s.level:
					pk = m.name.split(".")
					if not m.path.endswith("__init__.py"):
						pk = pk[:-1]
					pk = pk[:len(pk) - (s.level - 1)]
					base = ".".join(pk + ([base] if base else []))
				for a in s.names:
					m.imports.setdefault(a.asname or a.name,
					                     ("from", base, a.name))
			elif isinstance(s, (ast.Assign, ast.AnnAssign)):
				tg = s.targets if isinstance(s, ast.Assign) else [s.target]
				for t in tg:
					if isinstance(t, ast.Name):
						m.assigns.setdefault(t.id, []).append(s.value)
					elif isinstance(t, (ast.Tuple, ast.List)):
						for i, e in enumerate(t.elts):
							if isinstance(e, ast.Name):
								m.assigns.setdefault(e.id, []).append(
									("unpack", s.value, i))
			elif isinstance(s, ast.AugAssign):
				if isinstance(s.target, ast.Name):
					m.mutable_globals.add(s.target.id)
			elif isinstance(s, ast.If):
				py2 = self._py2_only(s.test)
				if py2 is True:
					self._collect(m, s.orelse)
				elif py2 is False:
					self._collect(m, s.body)
				else:
					self._collect(m, s.body)
					self._collect(m, s.orelse)
			elif isinstance(s, ast.Try):
				self._collect(m, s.body)
				for h in s.handlers:
					self._collect(m, h.body)
				self._collect(m, s.orelse)
				self._collect(m, s.finalbody)
			elif isinstance(s, (ast.With, ast.For, ast.While)):
				self._collect(m, s.body)

	def _func(self, m, node, qual, cls=None, parent=None):
		f = FuncInfo(m, node, qual, cls, parent)
		m.all_funcs[qual] = f
		for n in walk_own(node):
			if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
				f.nested[n.name] = self._func(
					m, n, qual + "." + n.name, None, f)
			elif isinstance(n, ast.ClassDef):
				self._cls(m, n, qual + "." + n.name)
		return f

	def _cls(self, m, node, qual):
		c = ClassInfo(m, node, qual)
		m.all_classes[qual] = c
		for s in node.body:
			if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
				fi = self._func(m, s, qual + "." + s.name, c)
				c.methods[s.name] = fi
			elif isinstance(s, ast.Assign):
				for t in s.targets:
					if isinstance(t, ast.Name):
						c.attrs[t.id] = s.value
					elif isinstance(t, (ast.Tuple, ast.List)):
						for i, e in enumerate(t.elts):
							if isinstance(e, ast.Name):
								c.attrs[e.id] = ("unpack", s.value, i)
			elif isinstance(s, ast.ClassDef):
				self._cls(m, s, qual + "." + s.name)
		return c

	# -- resolution -------------------------------------------------------
	def find_module(self, dotted, frm=None):
		if dotted in self.modules:
			return self.modules[dotted]
		for r in PKG_ALIAS_ROOTS:
			k = (r + "." + dotted) if r else dotted
			if k in self.modules:
				return self.modules[k]
		return None

	def member(self, mod, name, seen=None):
		"""Resolve attribute `name` of a project module to
		('fn',FuncInfo)|('cls',ClassInfo)|('mod',Module)|('ext',dotted)|
		('const', mod, name)|None"""
		seen = seen or set()
		if (mod.name, name) in seen:
			return None
		seen.add((mod.name, name))
		if name in mod.funcs:
			return ("fn", mod.funcs[name])
		if name in mod.classes:
			return ("cls", mod.classes[name])
		if name in mod.imports:
			imp = mod.imports[name]
			if imp[0] == "mod":
				pm = self.find_module(imp[1])
				return ("mod", pm) if pm else ("ext", imp[1])
			sub = self.find_module(imp[1] + "." + imp[2])
			if sub and not (self.find_module(imp[1]) and imp[2] in
			                self.find_module(imp[1]).funcs):
				return ("mod", sub)
			pm = self.find_module(imp[1])
			if pm:
				if imp[2] == "*":
					return None
				r = self.member(pm, imp[2], seen)
				if r:
					return r
				return ("ext", imp[1] + "." + imp[2])
			if imp[1] == "__future__":
				return None
			return ("ext", imp[1] + "." + imp[2])
		if name in mod.assigns:
			return ("const", mod, name)
		sub = self.modules.get(mod.name + "." + name)
		if sub:
			return ("mod", sub)
		# star imports
		for k, imp in mod.imports.items():
			if imp[0] == "from" and imp[2] == "*":
				pm = self.find_module(imp[1])
				if pm:
					r = self.member(pm, name, seen)
					if r:
						return r
		return None

	def star_imports(self, mod):
		return mod.imports.get("*")

	def bases(self, cls):
		if cls._bases is None:
			out = []
			for b in cls.node.bases:
				r = None
				if isinstance(b, ast.Name):
					r = self.member(cls.mod, b.id)
					if r is None and "." in cls.qual:
						pq = cls.qual.rsplit(".", 1)[0] + "." + b.id
						if pq in cls.mod.all_classes:
							r = ("cls", cls.mod.all_classes[pq])
					if r is None and hasattr(builtins, b.id):
						r = ("ext", b.id)
				elif isinstance(b, ast.Attribute) and \
						isinstance(b.value, ast.Name):
					mr = self.member(cls.mod, b.value.id)
					if mr and mr[0] == "mod":
						r = self.member(mr[1], b.attr)
					elif mr and mr[0] == "ext":
						r = ("ext", mr[1] + "." + b.attr)
				out.append(r or ("ext", "?"))
			cls._bases = out
		return cls._bases

	def mro(self, cls, _d=0):
		out = [cls]
		if _d > 20:
			return out
		for b in self.bases(cls):
			if b[0] == "cls":
				for c in self.mro(b[1], _d + 1):
					if c not in out:
						out.append(c)
		return out

	def ext_bases(self, cls):
		out = set()
		for c in self.mro(cls):
			for b in self.bases(c):
				if b[0] == "ext":
					out.add(b[1])
		return out

	def find_method(self, cls, name):
		for c in self.mro(cls):
			if name in c.methods:
				return c.methods[name]
		return None

	def find_class_attr(self, cls, name):
		for c in self.mro(cls):
			if name in c.attrs:
				return c, c.attrs[name]
		return None

	def subclasses(self, cls):
		return [c for m in self.modules.values()
		        for c in m.all_classes.values() if cls in self.mro(c)]

	# -- anchors ----------------------------------------------------------
	def func(self, mod, qual, required=True):
		m = self.modules.get(mod)
		f = m.all_funcs.get(qual) if m else None
		if f is None and m and "." not in qual:
			r = self.member(m, qual)
			if r and r[0] == "fn":
				f = r[1]
		if f is None and m and "." in qual:
			cn, mn = qual.rsplit(".", 1)
			c = m.all_classes.get(cn)
			if c is None:
				r = self.member(m, cn)
				c = r[1] if r and r[0] == "cls" else None
			if c:
				f = self.find_method(c, mn)
		if f is None and required:
			raise AnalysisError("anchor vanished: function %s.%s" % (mod, qual))
		return f

	def cls(self, mod, qual, required=True):
		m = self.modules.get(mod)
		c = m.all_classes.get(qual) if m else None
		if c is None and m:
			r = self.member(m, qual)
			if r and r[0] == "cls":
				c = r[1]
		if c is None and required:
			raise AnalysisError("anchor vanished: class %s.%s" % (mod, qual))
		return c

	def all_functions(self, prefix=None):
		for m in sorted(self.modules.values(), key=lambda m: m.name):
			if prefix and not m.name.startswith(prefix):
				continue
			for f in m.all_funcs.values():
				yield f

	def import_closure(self, mod):
		"""names of the project modules `mod` (transitively) imports"""
		ck = self.__dict__.setdefault("_ic", {})
		if mod.name in ck:
			return ck[mod.name]
		out, work = set(), [mod]
		while work:
			m = work.pop()
			if m.name in out:
				continue
			out.add(m.name)
			for n in ast.walk(m.tree):
				names = []
				if isinstance(n, ast.Import):
					names = [a.name for a in n.names]
				elif isinstance(n, ast.ImportFrom):
					b = n.module or ""
					if n.level:
						pk = m.name.split(".")
						if not m.path.endswith("__init__.py"):
							pk = pk[:-1]
						pk = pk[:len(pk) - (n.level - 1)]
						b = ".".join(pk + ([b] if b else []))
					names = [b] + [b + "." + a.name for a in n.names]
				for d in names:
					parts = d.split(".")
					for i in range(1, len(parts) + 1):
						pm = self.find_module(".".join(parts[:i]))
						if pm:
							work.append(pm)
		ck[mod.name] = out
		return out

	def _resolve_calls(self, f):
		"""(tokens, callees) of a function incl. the functions nested in it:
		tokens are dotted external names ('os.remove'), '.name' for methods
		of unknown objects, and simple names."""
		got = getattr(f, "_res", None)
		if got is not None:
			return got
		tokens, callees = set(), set()

		def add_ref(n, call):
			if isinstance(n, ast.Name):
				g = f
				while g is not None:
					if n.id in g.nested:
						callees.add(g.nested[n.id].full)
						tokens.add(n.id)
						return
					g = g.parent
				r = self.member(f.mod, n.id)
				if r is None:
					for im in local_imports(f):
						if (im.asname or im.name) == n.id:
							tokens.add(im.name)
				add_member(r, n.id)
			elif isinstance(n, ast.Attribute):
				b = n.value
				r = None
				if isinstance(b, ast.Name):
					r = self.member(f.mod, b.id)
					if b.id in ("self", "cls") and f_cls(f) is not None:
						c = f_cls(f)
						fam = [c] + self.subclasses(c)
						hit = False
						for k in fam:
							m = self.find_method(k, n.attr)
							if m:
								callees.add(m.full)
								hit = True
						tokens.add("." + n.attr)
						tokens.add(n.attr)
						if hit:
							return
						return
				if r and r[0] == "mod":
					tokens.add(n.attr)
					add_member(self.member(r[1], n.attr), n.attr)
					return
				if r and r[0] == "cls":
					m = self.find_method(r[1], n.attr)
					if m:
						callees.add(m.full)
					tokens.add(n.attr)
					return
				d = dotted(self, f.mod, n)
				if d:
					tokens.add(d)
					tokens.add(d.split(".")[-1] if False else d)
					return
				tokens.add("." + n.attr)
				tokens.add(n.attr)
				if n.attr not in CHA_SKIP:
					for m in self.method_index.get(n.attr, ()):
						callees.add(m.full)

		def add_member(r, name):
			if r is None:
				tokens.add(name)
			elif r[0] == "fn":
				callees.add(r[1].full)
				tokens.add(r[1].name)
			elif r[0] == "cls":
				tokens.add(r[1].name)
				m = self.find_method(r[1], "__init__")
				if m:
					callees.add(m.full)
			elif r[0] == "ext":
				tokens.add(r[1])

		for n in ast.walk(f.node):
			if isinstance(n, ast.Call):
				add_ref(n.func, True)
				for a in list(n.args) + [k.value for k in n.keywords]:
					if isinstance(a, (ast.Name, ast.Attribute)):
						add_ref(a, False)
		tokens |= {t for t in f.called_names() if t == "open:w"}
		f._res = (tokens, callees)
		return f._res

	def reaches(self, names):
		"""Functions that (transitively) may perform a call named in `names`
		(dotted external names, '.method' on unknown objects, or simple
		names of project functions).  Used to decide which callees must be
		inlined."""
		key = frozenset(names)
		if key in self._reach:
			return self._reach[key]
		funcs = {f.full: f for m in self.modules.values()
		         for f in m.all_funcs.values()}
		rev = {}
		hit = set()
		for f in funcs.values():
			t, c = self._resolve_calls(f)
			if t & key:
				hit.add(f.full)
			for x in c:
				rev.setdefault(x, set()).add(f.full)
			if f.parent is not None:
				pass
		work = list(hit)
		while work:
			x = work.pop()
			for y in rev.get(x, ()):
				if y not in hit:
					hit.add(y)
					work.append(y)
		self._reach[key] = hit
		return hit


def helpers(fi):
	"""functions of the same module that it calls by name, and theirs"""
	out, todo = [], [fi]
	while todo:
		f = todo.pop()
		for n in ast.walk(f.node):
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
				g = fi.mod.funcs.get(n.func.id)
				if g is not None and g is not fi and g not in out:
					out.append(g)
					todo.append(g)
	return out


#: method names too common to be resolved by name alone
CHA_SKIP = set("""read write close seek tell open get append extend keys
values items update add remove pop sort format join split strip index
length name next find count insert copy flush readline readinto exit error
start run group match search encode decode lower upper replace print_help
set clear wait kill send communicate poll stat parse delete move
""".split())


def f_cls(f):
	while f is not None:
		if f.cls is not None:
			return f.cls
		f = f.parent
	return None


def local_imports(f):
	got = getattr(f, "_limp", None)
	if got is None:
		got = f._limp = [
			a for n in ast.walk(f.node)
			if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names]
	return got


def dotted(p, mod, n):
	"""dotted external name of an attribute chain, or None"""
	parts = []
	while isinstance(n, ast.Attribute):
		parts.append(n.attr)
		n = n.value
	if not isinstance(n, ast.Name):
		return None
	r = p.member(mod, n.id)
	if r and r[0] == "ext":
		return ".".join([r[1]] + parts[::-1])
	return None


_cache = {}


def load(repo=REPO):
	if repo not in _cache:
		_cache[repo] = Project(repo)
	return _cache[repo]


def loc(fi_or_mod, node):
	m = fi_or_mod.mod if isinstance(fi_or_mod, FuncInfo) else fi_or_mod
	return "%s:%d" % (m.rel, getattr(node, "lineno", 0))
