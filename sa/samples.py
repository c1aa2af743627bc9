"""Files as byte layouts: what the code under analysis writes to a file it
opens by name is what it, or other code, reads from it later."""
import ast
import re

from . import layout
from .absint import BOTTOM, FALSE, K, NONE, TRUE, is_k
from .layout import LayoutMonitor, add, isbytes, isint, length, mklay, norm, \
	pieces, sign


BUILTINS = ("str", "bytes", "int", "long", "bytearray", "unicode", "float",
            "list", "tuple", "dict", "basestring")


class FilesMonitor(LayoutMonitor):
	assertions_hold = True
	asserts_decided = True
	inline_generators = True
	seq_limit = 40
	unroll_lists = True
	exact_objects = True
	exact_loops = True
	inline_modules = ("resample.",)
	inline_small = 60
	eof = True
	max_depth = 16
	events = LayoutMonitor.events + (".read", ".seek", ".tell", "open",
	                                 "io.open")
	quiet = ("show_spinner", "remove_spinner")

	# -- files ------------------------------------------------------------
	def content(self, st, path):
		t = st.heap.get((path, "$file"))
		return None if t is None else st.heap[(t, "$lay")]

	def put(self, heap, path, lay):
		t = ("file", path)
		heap[(path, "$file")] = t
		heap[(t, "$lay")] = lay
		heap[(t, "$pos")] = NONE

	def opened(self, I, st, args, kw, node):
		mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
		path = args[0]
		if not is_k(mode):
			return None
		if "w" in mode[2]:
			t = st.fresh(("r", I.site(st, node), "open", ()))
			st.heap[(t, "$lay")] = K(b"")
			st.heap[(t, "$pos")] = NONE
			st.heap[(path, "$file")] = t
			return [("ok", st, t)]
		lay = self.content(st, path)
		if lay is None:
			return None
		t = st.fresh(("r", I.site(st, node), "open", ()))
		st.heap[(t, "$lay")] = lay
		st.heap[(t, "$pos")] = K(0)
		return [("ok", st, t)]

	no_rars = True          # samples are not RAR files

	def rule_call(self, I, st, name, recv, args, kw, node):
		"""hook for rules"""
		return None

	def foreign(self, I, st, name, recv, args, kw, node):
		r = self.rule_call(I, st, name, recv, args, kw, node)
		if r is not None:
			return r
		short = name.split(":")[-1].split(".")[-1]
		if name in ("open", "io.open") and args:
			return self.opened(I, st, args, kw, node)
		if short in self.quiet or name in ("print", "logging.debug"):
			return [("ok", st, NONE)]
		if short == "is_rar" and self.no_rars:
			return [("ok", st, FALSE)]
		if short == "fsunicode" and args:
			return [("ok", st, args[0])]
		if short == "getsize" and args:
			lay = self.content(st, args[0])
			return [("ok", st, length(lay) if lay is not None else
			         ("nat", "filesize"))]
		if short == "crc32" and args and name in ("zlib.crc32", "crc32"):
			start = args[1] if len(args) > 1 else K(0)
			if start == K(0):
				return [("ok", st, ("crcof", mklay(pieces(args[0]))))]
			if start[0] == "crcof":
				return [("ok", st, ("crcof", mklay(
					tuple(pieces(start[1])) + tuple(pieces(args[0])))))]
		if name in ("range", "xrange") and args and \
				all(isint(norm(a)) for a in args) and len(args) < 4:
			seq = list(range(*[norm(a)[2] for a in args]))
			if len(seq) <= self.seq_limit:
				return [("ok", st, ("tup",) + tuple(K(i) for i in seq))]
		if name == "bytearray" and len(args) == 1 and isint(norm(args[0])):
			t = st.fresh(("bytearr", I.site(st, node)))
			st.heap[(t, "$bytes")] = ("tup",) + (K(0),) * norm(args[0])[2]
			return [("ok", st, t)]
		if name == ".match" and recv is not None and args:
			return self.regex(st, recv, args[0])
		if name in (".encode", ".decode") and recv is not None and \
				not is_k(recv) and layout._enc(args) == "utf8" and (
					not args or args[0] != K("utf-8")) and not kw:
			return self.call(I, st, name, recv, (K("utf-8"),), kw, node) or \
				[("ok", st, ("c", name, (recv, K("utf-8"))))]
		if name in ("os.path.split",) and args and not is_k(args[0]):
			return [("ok", st, ("tup", ("c", "os.path.dirname", (args[0],)),
			                    ("c", "os.path.basename", (args[0],))))]
		if name in ("collections.OrderedDict", "OrderedDict") and not args:
			t = st.fresh(("dict", I.site(st, node)))
			return [("ok", st, t)]
		if name == "len" and len(args) == 1 and args[0][0] == "dict":
			es = self.entries(st, args[0])
			if es is not None and (args[0], "$open") not in st.heap:
				return [("ok", st, K(len(es)))]
		if name == ".decode" and tuple(args) == (K("ascii"),) and not kw \
				and isbytes(recv) and not is_k(recv):
			# unknown contents are not all ASCII
			I.throw(st, ("exc", "UnicodeDecodeError"), node)
			return []
		if recv is not None and recv[0] == "dict":
			return self.dict_call(I, st, name, recv, args)
		if name == ".sort" and recv is not None and recv[0] == "list":
			r = self.sort(I, st, recv, kw, node)
			if r is None:
				return None
			st, items = r
			st.heap[(recv, "$items")] = items
			return [("ok", st, NONE)]
		if name == "sorted" and args:
			r = self.sort(I, st, args[0], kw, node)
			if r is None:
				return None
			st, items = r
			t = st.fresh(("list", I.site(st, node)))
			st.heap[(t, "$items")] = items
			return [("ok", st, t)]
		if name in ("copy.copy", "copy.deepcopy", "copy", "deepcopy") and \
				len(args) == 1 and args[0][0] in ("new", "list", "dict"):
			return [("ok", st, self.clone(I, st, args[0], "deep" in name,
			                              node))]
		if name == "enumerate" and len(args) == 1:
			it = args[0] if args[0][0] == "tup" else \
				I.items_of(args[0], st)
			if it is not None and it[0] == "tup":
				return [("ok", st, ("tup",) + tuple(
					("tup", K(i), v) for i, v in enumerate(it[1:])))]
		if name in ("sum", "min", "max") and len(args) == 1:
			it = args[0] if args[0][0] == "tup" else \
				I.items_of(args[0], st)
			if it is not None and it[0] == "tup" and name == "sum":
				v = K(0)
				for x in it[1:]:
					v = add(v, x)
				return [("ok", st, v)]
		if name in ("min", "max") and len(args) == 2:
			s = sign(add(args[0], args[1], -1))
			if s is not None:
				big = s >= 0
				return [("ok", st, args[0] if big == (name == "max")
				         else args[1])]
		if name == ".find" and recv is not None and len(args) == 1 and \
				isbytes(recv) and is_k(args[0]):
			n = K(0)
			for x in pieces(recv):
				if x[0] == "kb" and args[0][2] in x[1]:
					return [("ok", st, add(n, K(x[1].index(args[0][2]))))]
				n = add(n, length(mklay([x])))
			return [("ok", st, K(-1))]
		if short == "reduce" and len(args) in (2, 3):
			it = args[1] if args[1][0] == "tup" else \
				I.items_of(args[1], st)
			if it is not None and it[0] == "tup":
				xs = list(args[2:]) + list(it[1:])
				if not xs:
					return None
				cur = [(st, xs[0])]
				for x in xs[1:]:
					cur = [r for y, v in cur for r in I.call_value(
						args[0], [v, x], {}, node, y)]
				return [("ok", y, v) for y, v in cur]
		if name in (".close", ".flush") and (recv, "$lay") in st.heap:
			return [("ok", st, NONE)]
		return None

	def clone(self, I, st, t, deep, node):
		"""a copy of an object"""
		n = st.fresh((t[0], I.site(st, node)) + t[2:])
		for (b, k), v in list(st.heap.items()):
			if b == t:
				if deep and v[0] in ("new", "list", "dict"):
					v = self.clone(I, st, v, deep, node)
				elif deep and v[0] == "tup":
					v = ("tup",) + tuple(
						self.clone(I, st, x, deep, node)
						if x[0] in ("new", "list", "dict") else x
						for x in v[1:])
				st.heap[(n, k)] = v
		return n

	def regex(self, st, recv, arg):
		n = None
		if recv[0] == "glob":
			mod = self.p.modules.get(recv[1])
			n = mod.assigns.get(recv[2], [None])[0] if mod else None
		if not (isinstance(n, ast.Call) and n.args and
		        isinstance(n.args[0], ast.Constant)):
			return None
		if not is_k(arg):
			return None
		try:
			hit = re.compile(n.args[0].value).match(arg[2])
		except (re.error, TypeError):
			return None
		return [("ok", st, TRUE if hit else NONE)]

	def entries(self, st, t):
		"""[(key, value)] of a dict with constant keys only"""
		out = [(k[1][1], v) for k, v in st.heap.items()
		       if k[0] == t and isinstance(k[1], tuple) and k[1][0] == "[]"]
		if not all(is_k(k) for k, _v in out):
			return None
		order = st.heap.get((t, "$order"), ("tup",))[1:]
		pos = {k: i for i, k in enumerate(order)}
		return sorted(out, key=lambda e: (pos.get(e[0], 99), repr(e[0])))

	def clamped(self, base, idx):
		"""a slice that reaches over the end"""
		n = length(base) if isbytes(base) else None
		ks = [x if x == NONE else norm(x) for x in idx[1:4]]
		if n is None or not isint(n) or ks[2] not in (NONE, K(1)) or \
				[x for x in ks if x != NONE and not isint(x)]:
			return idx
		a, b, _c = slice(*[x[2] for x in ks]).indices(n[2])
		return ("slice", K(a), K(max(a, b)), NONE)

	def frozen(self, st, t):
		"""the bytes a bytearray holds now"""
		if t[0] != "bytearr" or (t, "$bytes") not in st.heap:
			return t
		return mklay([("kb", bytes([v[2]])) if isint(v) and
		              0 <= v[2] < 256 else ("f", "<B", v)
		              for v in st.heap[(t, "$bytes")][1:]])

	def call(self, I, st, name, recv, args, kw, node):
		args = [self.frozen(st, a) for a in args]
		if recv is not None:
			recv = self.frozen(st, recv)
		return LayoutMonitor.call(self, I, st, name, recv, args, kw, node)

	def on_subscript(self, I, st, base, idx, node):
		it = base if base[0] == "tup" else I.items_of(base, st)
		if it is not None and it[0] == "tup" and idx:
			if isint(norm(idx)):
				try:
					return it[1:][norm(idx)[2]]
				except IndexError:
					I.throw(st, ("exc", "IndexError"), node)
					return BOTTOM
			if idx[0] == "slice":
				ks = [x if x == NONE else norm(x) for x in idx[1:4]]
				if all(x == NONE or isint(x) for x in ks):
					t = st.fresh(("list", I.site(st, node)))
					st.heap[(t, "$items")] = ("tup",) + it[1:][slice(
						*[x[2] for x in ks])]
					return t
		if base[0] == "dict" and is_k(norm(idx)) and \
				isinstance(getattr(node, "ctx", None), ast.Load):
			es = self.entries(st, base)
			if es is not None and (base, "$open") not in st.heap:
				for k, v in es:
					if k == norm(idx):
						return v
				I.throw(st, ("exc", "KeyError"), node)
				return BOTTOM
		if idx and idx[0] == "slice":
			idx = self.clamped(self.frozen(st, base), idx)
		return LayoutMonitor.on_subscript(self, I, st, self.frozen(st, base),
		                                  idx, node)

	def attr_load(self, I, st, base, name, node):
		r = LayoutMonitor.attr_load(self, I, st, base, name, node)
		if r is not None or base[0] != "new" or (base, name) in st.heap:
			return r
		c = I._class_of(st, base)
		if c is None or I.p.ext_bases(c) - {"object"} or \
				I.p.find_class_attr(c, name) or \
				I.p.find_method(c, name) or name.startswith("__"):
			return None
		# every attribute these objects have was set under our eyes
		I.throw(st, ("exc", "AttributeError"), node)
		return BOTTOM

	def on_compare(self, I, st, op, a, b, node):
		if isinstance(op, (ast.In, ast.NotIn)) and is_k(a) and \
				isinstance(a[2], str) and isbytes(self.frozen(st, b)):
			# "x" in b"y"
			I.throw(st, ("exc", "TypeError"), node)
			return BOTTOM
		if isinstance(op, (ast.Eq, ast.NotEq)) and "bytearr" in (a[0], b[0]):
			a, b = self.frozen(st, a), self.frozen(st, b)
			r = a == b or I.decide(("cmp", "==", a, b), st)
			if r is not None and "bytearr" not in (a[0], b[0]):
				return K(r == isinstance(op, ast.Eq))
		return None

	def rep(self, I, st, node, msg):
		if not st.mon.get("vague"):
			LayoutMonitor.rep(self, I, st, node, msg)

	def on_store(self, I, st, base, name, val, node):
		if base[0] == "bytearr" and isinstance(name, tuple):
			b = st.heap.get((base, "$bytes"))
			i = norm(name[1])
			if b is not None and isint(i) and -len(b) < i[2] < len(b) - 1:
				i = i[2] % (len(b) - 1) + 1
				st.heap[(base, "$bytes")] = b[:i] + (norm(val),) + b[i + 1:]
			else:
				st.heap.pop((base, "$bytes"), None)
		if base[0] == "dict" and isinstance(name, tuple) and \
				name[0] == "[]":
			o = st.heap.get((base, "$order"), ("tup",))
			if not is_k(name[1]):
				st.heap[(base, "$open")] = TRUE
			elif name[1] not in o:
				st.heap[(base, "$order")] = o + (name[1],)

	def keys_of(self, st, t):
		es = self.entries(st, t)
		if es is None or (t, "$open") in st.heap:
			return None
		return ("tup",) + tuple(k for k, _v in es)

	def dict_call(self, I, st, name, recv, args):
		es = self.entries(st, recv)
		if es is None or (recv, "$open") in st.heap:
			return None
		if name == ".values":
			return [("ok", st, ("tup",) + tuple(v for _k, v in es))]
		if name == ".keys":
			return [("ok", st, ("tup",) + tuple(k for k, _v in es))]
		if name == ".items":
			return [("ok", st, ("tup",) + tuple(("tup", k, v)
			                                    for k, v in es))]
		if name in (".get", ".setdefault") and args and is_k(args[0]):
			for k, v in es:
				if k == args[0]:
					return [("ok", st, v)]
			v = args[1] if len(args) > 1 else NONE
			if name == ".setdefault":
				st.heap[(recv, ("[]", args[0]))] = v
				self.on_store(I, st, recv, ("[]", args[0]), v, None)
			return [("ok", st, v)]
		if name in (".pop", ".popitem", ".clear", ".update"):
			st.heap[(recv, "$open")] = TRUE
		return None

	def sort(self, I, st, recv, kw, node):
		it = recv if recv[0] == "tup" else I.items_of(recv, st)
		if it is None or it[0] != "tup" or set(kw) - {"key"}:
			return None
		ks = []
		for x in it[1:]:
			k = x
			if "key" in kw:
				r = I.call_value(kw["key"], [x], {}, node, st)
				if len(r) != 1:
					return None
				st, k = r[0]
			ks.append((norm(k), x))
		out = []
		for k, x in ks:
			i = len(out)
			while i:
				s = sign(add(k, out[i - 1][0], -1))
				if s is None or s == -2:
					return None
				if s >= 0:
					break
				i -= 1
			out.insert(i, (k, x))
		return st, ("tup",) + tuple(x for _k, x in out)

	# -- values -----------------------------------------------------------
	def stream(self, I, st, op, t, args, node):
		whence = args[1] if len(args) > 1 else K(0)
		base = {K(0): K(0), K(2): length(st.heap[(t, "$lay")])}.get(whence)
		if op == "seek" and base and sign(add(base, args[0])) == -1:
			# before the beginning
			I.throw(st, ("exc", "OSError"), node)
			return []
		r = LayoutMonitor.stream(self, I, st, op, t, args, node)
		st.mon["pos"] = tuple(sorted(
			(repr(k[0]), v) for k, v in st.heap.items() if k[1] == "$pos"))
		return r

	def on_binop(self, I, st, op, a, b, node):
		a, b = self.frozen(st, a), self.frozen(st, b)
		if op == "Mod" and isint(b) and b[2] == 2 and not is_k(a):
			return parity(a)
		if op == "BitAnd" and b == K(0xFFFFFFFF) and a[0] == "crcof":
			return a
		if op == "Mult" and isint(a) and is_k(b):
			a, b = b, a
		if op == "Mult" and is_k(a) and isinstance(a[2], bytes) and isint(b):
			return K(a[2] * b[2])
		if op == "Mult" and a[0] == "list" and isint(b) and \
				0 <= b[2] <= 1000 and I.items_of(a, st):
			t = st.fresh(("list", I.site(st, node)))
			st.heap[(t, "$items")] = ("tup",) + I.items_of(a, st)[1:] * b[2]
			return t
		if op == "FloorDiv" and not is_k(a) and isint(b) and b[2]:
			c, at = layout.lin(a)
			if c % b[2] == 0 and all(v % b[2] == 0 for v in at.values()):
				return layout.mklin(c // b[2], {x: v // b[2]
				                                for x, v in at.items()})
		return LayoutMonitor.on_binop(self, I, st, op, a, b, node)

	def truth(self, I, st, t):
		if t[0] == "cmp" and t[1] == "==":
			for a, b in ((t[2], t[3]), (t[3], t[2])):
				if a[0] == "nat" and a[1][:1] == "%" and isint(b):
					if b[2] not in (0, 1):
						return False
					f = st.facts.get(("cmp", "==", a, K(1 - b[2])))
					if f is not None:
						return not f
				if a[0] == "lin" and isint(b) and a[1] == 1 and \
						len(a[2]) == 1 and a[2][0][0][0] == "nat" and \
						a[2][0][0][1][:1] == "%" and a[2][0][1] == -1:
					return I.decide(("cmp", "==", a[2][0][0],
					                 K(1 - b[2])), st)
		if t[0] == "cmp" and t[1] == "in" and is_k(t[2]):
			if t[3][0] == "dict":
				es = self.entries(st, t[3])
				if es is not None:
					return t[2] in [k for k, _v in es]
			if is_k(t[3]) and isinstance(t[3][2], bytes):
				if isinstance(t[2][2], str):
					return None
				return t[2][2] in t[3][2]
		if t[0] == "c" and t[1] == "isinstance" and len(t[2]) == 2:
			ts = t[2][1][1:] if t[2][1][0] == "tup" else (t[2][1],)
			names = [x[1] if x[0] == "ext" else "?" for x in ts]
			k = self.kind_of(self.frozen(st, t[2][0]))
			if k and not [x for x in names if x not in BUILTINS]:
				return k in names or k == "int" and "long" in names
		r = LayoutMonitor.truth(self, I, st, t)
		if r is None and (t, "$lay") in st.heap:
			return True
		if r is None and t[0] == "cmp" and t[1] == "==" and self.differ(t):
			return False
		if r is None and t[0] == "cmp" and t[1] == "==":
			ks = [self.kind_of(x) for x in t[2:4]]
			if None not in ks and ks[0] != ks[1]:
				return False
		return r

	def kind_of(self, t):
		"""name of the type of a value, if known"""
		if is_k(t):
			return "int" if t[1] == "bool" else t[1]
		if isbytes(t) or t in layout.KNOWN_LEN:
			return "bytes"
		if t[0] in ("lin", "lo", "hi", "nat", "crcof"):
			return "int"
		return None

	def differ(self, t):
		"""contents nobody knows are not some constant the code looks for"""
		for a, b in ((t[2], t[3]), (t[3], t[2])):
			if is_k(b) and isinstance(b[2], bytes) and b[2] and (
					a[0] == "lay" or (a in layout.KNOWN_LEN)):
				return True
		return False

	def merge_key(self, st):
		return frozenset(st.mon.items())


def parity(a):
	"""a % 2 of a sum, as an atom for the odd part"""
	c, at = layout.lin(a)
	odd = tuple(sorted(repr(x) for x, v in at.items() if v % 2))
	if not odd:
		return K(c % 2)
	p = ("nat", "%" + "+".join(odd))
	return p if c % 2 == 0 else layout.mklin(1, {p: -1})
