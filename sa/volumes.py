"""RAR sets and SRR files as byte layouts: the functions of rescene run on
files whose names are known and whose contents are fields and raw parts."""
import ast
import fnmatch
import os.path
import posixpath
import re

from . import layout
from .absint import BOTTOM, FALSE, K, NONE, TRUE, is_k
from .layout import add, flat, isbytes, isint, length, mklay, norm, pieces, \
	unmodelled
from .samples import BUILTINS, FilesMonitor

PATHS = {"os.path." + f: getattr(posixpath, f) for f in (
	"join", "basename", "dirname", "normpath", "splitext", "split", "isabs",
	"relpath", "commonprefix")}
PATHS["os.path.abspath"] = PATHS["os.path.realpath"] = \
	lambda p: posixpath.normpath(posixpath.join("/cwd", p))
PATHS["os.path.relpath"] = lambda p, start=".": posixpath.relpath(
	posixpath.join("/cwd", p), posixpath.join("/cwd", start))
PATHS["os.fspath"] = lambda x: x
APPNAME = b"pyReScene Auto 0.7"         # any name will do
RE = {"re.match": re.match, "re.search": re.search, "re.findall": re.findall,
      "re.sub": re.sub, "re.escape": re.escape, "re.fullmatch": re.fullmatch}


def pyval(t):
	"""the python value of a term"""
	if is_k(t):
		return t[2]
	if t[0] == "tup":
		return tuple(pyval(x) for x in t[1:])
	if t[0] == "ext" and t[1].startswith("re."):
		return getattr(re, t[1][3:])
	raise ValueError(t)


def term(v):
	if isinstance(v, (tuple, list)):
		return ("tup",) + tuple(term(x) for x in v)
	return K(v)


def xored(t):
	"""the byte strings a number is the XOR of"""
	if t == K(0):
		return frozenset()
	return frozenset(t[1:]) if t[0] == "xor" else None


def inverted(t):
	"""~crc32(L) >> s & (1 << n) - 1 as ("ncrc", L, s, n)"""
	if t[0] == "ncrc":
		return t
	if t[0] == "op1" and t[1] == "Invert" and t[2][0] == "crcof":
		return ("ncrc", t[2][1], 0, 99)
	return None


def strip(x):
	return x[0] != "kb" or any(x[1])


def parity(lays, n):
	"""n bytes, the XOR of these strings of n bytes"""
	t = ("parity", n) + tuple(sorted(lays, key=repr))
	layout.KNOWN_LEN[t] = n
	return mklay((("raw", t),))


class Volumes(FilesMonitor):
	inline_modules = ("rescene.main", "rescene.rar", "rescene.utility",
	                  "rescene.rarstream", "rescene.osohash")
	inline_small = 400
	eager_generators = True
	opaque = ("rescene.rar:_parse_ext_time", "rescene.rar:_parse_dos_time",
	          "rescene.osohash:_osorg_hash", "rescene.main:can_overwrite",
	          "rescene.main:_fire",
	          "rescene.main:temp_folder_cleanup")
	no_rars = False
	dirs = ("/", "/in", "/data", "/out", "/srr")

	def names(self, st):
		return [k[0][2] for k, v in st.heap.items()
		        if k[1] == "$file" and is_k(k[0]) and v != NONE]

	def exists(self, st, path):
		return st.heap.get((path, "$file"), NONE) != NONE

	def content(self, st, path):
		t = st.heap.get((path, "$file"), NONE)
		return None if t == NONE else st.heap[(t, "$lay")]

	def move(self, I, st, a, b, node):
		if not self.exists(st, a):
			I.throw(st, ("exc", "OSError"), node)
			return False
		st.heap[(b, "$file")] = st.heap[(a, "$file")]
		return True

	def rule_call(self, I, st, name, recv, args, kw, node):
		if any(a[0] == "star" for a in args):
			xs = ()
			for a in args:
				it = (a[1] if a[1][0] == "tup" else I.items_of(a[1], st)) \
					if a[0] == "star" else ("tup", a)
				if it is None or it[0] != "tup":
					return None
				xs += it[1:]
			return self.foreign(I, st, name, recv, xs, kw, node)
		args = tuple(args)
		short = name.split(":")[-1].split(".")[-1]
		const = args and not kw and all(map(is_k, args))
		if name == "P:rescene.main:_fire":
			code = args[0] if args else kw.get("code", NONE)
			st.mon["fired"] = st.mon.get("fired", ()) + (
				(code, st.mon.get("vague") or False),)
			return [("ok", st, NONE)]
		if name == "P:rescene.main:can_overwrite":
			return [("ok", st, TRUE)]
		if name == "P:rescene.osohash:_osorg_hash":
			return [("ok", st, ("tup", ("param", "H"), ("nat", "osize")))]
		if name in ("isinstance", "hasattr") and args and \
				(args[0], "$lay") in st.heap:
			return [("ok", st, TRUE)]
		if name in ("hashlib.new", "hashlib.sha1", "hashlib.md5",
		            "hashlib.sha256"):
			data = args[1:] if short == "new" else args
			t = st.fresh(("r", I.site(st, node), "hashlib", ()))
			st.heap[(t, "$hashed")] = mklay(pieces(data[0])) if data and \
				isbytes(data[0]) else mklay(())
			st.heap[(t, "$algorithm")] = args[0] if short == "new" else K(short)
			return [("ok", st, t)]
		if recv is not None and (recv, "$hashed") in st.heap:
			if name == ".update" and args and isbytes(args[0]):
				st.heap[(recv, "$hashed")] = mklay(
					pieces(st.heap[(recv, "$hashed")]) + pieces(args[0]))
				return [("ok", st, NONE)]
			if name in (".hexdigest", ".digest"):
				return [("ok", st, (
					"digestof" if name == ".hexdigest" else "rawdigestof",
					st.heap[(recv, "$algorithm")],
					st.heap[(recv, "$hashed")]))]
			if name == ".update":
				del st.heap[(recv, "$hashed")]
		if name == "hasattr" and const and len(args) == 2 and \
				isinstance(args[1][2], str):
			return [("ok", st, K(hasattr(args[0][2], args[1][2])))]
		if name == "hasattr" and args and args[0][0] == "new" and \
				is_k(args[1]):
			c = I._class_of(st, args[0])
			if (args[0], args[1][2]) in st.heap or c is not None and \
					I.p.find_method(c, args[1][2]):
				return [("ok", st, TRUE)]
			if self.lacks(I, st, args[0], args[1][2]):
				return [("ok", st, FALSE)]
		if name == "isinstance" and len(args) == 2 and \
				self.kind_of(args[0]) and args[1][0] in ("ext", "C") and \
				args[1][1] not in BUILTINS:
			return [("ok", st, FALSE)]
		if name in ("list", "tuple", "sorted", "iter") and len(args) == 1 \
				and I._is_iterator(args[0], st):
			return [r for y, v in I.drain(args[0], st, node)
			        for r in (self.call(I, y, name, None, (v,), kw, node) or
			                  [("ok", y, v)])]
		if name in (".sort", ".reverse") and recv and recv[0] == "list" and \
				not args:
			r = self.copied(I, st, "sorted" if short == "sort" else "list",
			                recv, kw, node)
			if r is not None:
				_k, y, v = r[0]
				it = y.heap[(v, "$items")]
				y.heap[(recv, "$items")] = it if short == "sort" else \
					("tup",) + it[:0:-1]
				return [("ok", y, NONE)]
		if name in ("list", "tuple", "sorted", "reversed", "iter") and \
				len(args) == 1:
			r = self.copied(I, st, name, args[0], kw, node)
			if r is not None:
				return r
		if name == "bool" and len(args) == 1 and args[0][0] == "match":
			return [("ok", st, TRUE)]
		if short in ("int_from_bytes_big", "from_bytes", "int_to_bytes_big",
		             "to_bytes"):
			r = self.bignum(I, st, name, recv, args, kw, node)
			if r is not None:
				return r
		if name == "bytearray" and const and isbytes(args[0]):
			return [("ok", st, args[0])]
		if name == "bytearray" and not args:
			t = st.fresh(("list", I.site(st, node)))
			st.heap[(t, "$items")] = ("tup",)
			return [("ok", st, t)]
		if name in ("bytearray", "bytes") and len(args) == 1:
			it = args[0] if args[0][0] == "tup" else I.items_of(args[0], st)
			if it is not None and it[0] == "tup" and (
					args[0][0] in ("tup", "list")):
				return [("ok", st, mklay([("f", "<B", norm(x))
				                          for x in it[1:]]))]
		if name == "frozenset" and const is not None and not kw and \
				len(args) == 1 and args[0][0] == "tup":
			return [("ok", st, ("tup",) + tuple(dict.fromkeys(args[0][1:])))]
		if name in (".ljust", ".rjust") and recv is not None and \
				isbytes(recv) and not is_k(recv) and isint(length(recv)) and \
				is_k(args[0]):
			pad = ("kb", (args[1][2] if args[1:] else b" ") * (
				args[0][2] - length(recv)[2]))
			ps = tuple(pieces(recv))
			return [("ok", st, mklay(ps + (pad,) if name == ".ljust" else
			                         (pad,) + ps))]
		if is_k(recv) and isinstance(recv[2], (str, bytes)) and name[0] == ".":
			r = self.textual(I, st, name[1:], recv[2], args, kw, node)
			if r is not None:
				return r
		if name == "repr" and args and args[0][0] == "c" and \
				args[0][1] == "type" and is_k(args[0][2][0]):
			return [("ok", st, K(repr(type(args[0][2][0][2]))))]
		if name == "repr" and const:
			return [("ok", st, K(repr(args[0][2])))]
		if name == "type" and len(args) == 1 and args[0][0] == "new":
			return [("ok", st, ("C", args[0][2]))]
		if recv is not None and recv[0] == "list":
			r = self.listed(I, st, name, recv, args, node)
			if r is not None:
				return r
		if name == ".encode" and recv == ("glob", "rescene", "APPNAME"):
			return [("ok", st, K(APPNAME))]
		if name == "len" and args == (("glob", "rescene", "APPNAME"),):
			return [("ok", st, K(len(APPNAME)))]
		if name in ("map", "filter") and len(args) == 2:
			return self.each(I, st, name, args, node)
		if name == "dir" and args and args[0][0] == "C":
			c = I._cls(args[0][1])
			if c is not None:
				return [("ok", st, term(sorted(
					t.id for s in c.node.body if isinstance(s, ast.Assign)
					for t in s.targets if isinstance(t, ast.Name)) + [
						"__doc__"]))]
		if name in PATHS and const:
			try:
				return [("ok", st, term(PATHS[name](*map(pyval, args))))]
			except (TypeError, ValueError):
				return None
		if name == "os.path.expanduser":
			return [("ok", st, args[0])]
		if name in ("os.path.isfile", "os.path.exists", "os.path.lexists") \
				and args and is_k(args[0]):
			return [("ok", st, K(self.exists(st, args[0]) or (
				not name.endswith("file") and self.isdir(st, args[0]))))]
		if name == "os.path.isdir" and args and is_k(args[0]):
			return [("ok", st, K(self.isdir(st, args[0])))]
		if name in ("os.makedirs", "os.mkdir") and args and is_k(args[0]):
			if self.isdir(st, args[0]):
				I.throw(st, ("exc", "OSError"), node)
				return []
			st.heap[(args[0], "$dir")] = TRUE
			return [("ok", st, NONE)]
		if name == "os.listdir" and args and is_k(args[0]):
			d = posixpath.normpath(args[0][2])
			return [("ok", st, term(sorted(
				posixpath.basename(n) for n in self.names(st)
				if posixpath.dirname(n) == d)))]
		if name in ("glob.glob", "glob.iglob", "glob") and const:
			return [("ok", st, term(sorted(
				n for n in self.names(st) if fnmatch.fnmatchcase(
					n, args[0][2]))))]
		if name == "os.walk" and args and is_k(args[0]) and not kw:
			return [("ok", st, self.walk(I, st, posixpath.normpath(
				args[0][2]), node))]
		if name == "fnmatch.filter" and len(args) == 2:
			it = args[0] if args[0][0] == "tup" else I.items_of(args[0], st)
			try:
				return [("ok", st, term(fnmatch.filter(pyval(it), pyval(
					args[1]))))] if it is not None else None
			except (TypeError, ValueError):
				return None
		if name in ("fnmatch.fnmatch", "fnmatch.fnmatchcase") and const:
			return [("ok", st, K(fnmatch.fnmatchcase(*map(pyval, args))))]
		if name in ("os.remove", "os.unlink") and args and is_k(args[0]):
			if not self.exists(st, args[0]):
				I.throw(st, ("exc", "OSError"), node)
				return []
			st.heap[(args[0], "$file")] = NONE
			return [("ok", st, NONE)]
		if name in ("os.rename", "os.replace") and const and len(args) == 2:
			if not self.move(I, st, args[0], args[1], node):
				return []
			st.heap[(args[0], "$file")] = NONE
			return [("ok", st, NONE)]
		if name == "tempfile.mkstemp":
			n = K("%s/%stmp%s" % tuple(
				kw[k][2] if k in kw and is_k(kw[k]) else d for k, d in (
					("dir", "/tmp"), ("prefix", ""), ("suffix", ""))))
			t = st.fresh(("r", I.site(st, node), "open", ()))
			st.heap[(t, "$lay")] = K(b"")
			st.heap[(t, "$pos")] = NONE
			st.heap[(t, "name")] = n
			st.heap[(n, "$file")] = t
			return [("ok", st, ("tup", t, n))]
		if name == "os.fdopen" and args and (args[0], "$lay") in st.heap:
			return [("ok", st, args[0])]
		if name in ("ord", "chr") and const:
			try:
				return [("ok", st, K((ord if name == "ord" else chr)(
					args[0][2])))]
			except (TypeError, ValueError):
				return None
		if name in RE and args and (const or "flags" in kw or all(
				is_k(a) or a[0] == "ext" for a in args)):
			try:
				r = RE[name](*[pyval(a) for a in args],
				             **{k: pyval(v) for k, v in kw.items()})
			except (TypeError, ValueError, re.error):
				return None
			return [("ok", st, self.hit(st, r, node, I))]
		if name == "re.compile" and const:
			return [("ok", st, ("regex", args[0][2], args[1][2] if
			                    len(args) > 1 else 0))]
		if name in (".join",) and is_k(recv) and len(args) == 1:
			it = args[0] if args[0][0] == "tup" else I.items_of(args[0], st)
			try:
				if it is not None:
					return [("ok", st, K(recv[2].join(pyval(it))))]
			except (TypeError, ValueError):
				pass
		if recv is not None and recv[0] == "regex" and args and \
				is_k(args[-1]) and name in (".sub", ".match", ".search",
				                            ".findall"):
			try:
				r = getattr(re, name[1:])(recv[1], *[
					(lambda m: "") if a[0] in ("clo", "F") else pyval(a)
					for a in args], flags=recv[2])
			except (TypeError, ValueError, re.error):
				return None
			if args[0][0] in ("clo", "F") and r != args[-1][2]:
				return self.replaced(I, st, recv, args[0], args[-1][2], node)
			return [("ok", st, self.hit(st, r, node, I))]
		if recv is not None and recv[0] == "match":
			m = recv[1]
			if name in (".group", ".groups", ".start", ".end", ".span") and \
					(const or not args):
				return [("ok", st, term(getattr(re.search(
					*m), name[1:])(*map(pyval, args))))]
		return None

	def replaced(self, I, st, rx, fn, text, node):
		"""what re.sub() makes of a constant string with a function"""
		out, pos = "", 0
		for m in re.finditer(rx[1], text, flags=rx[2]):
			r = I.call_value(fn, [("match", (
				rx[1], m.group(), rx[2]))], {}, node, st)
			if len(r) != 1 or r[0][0] is not st or not is_k(r[0][1]):
				return None
			out += text[pos:m.start()] + r[0][1][2]
			pos = m.end()
		return [("ok", st, K(out + text[pos:]))]

	def walk(self, I, st, top, node):
		"""what os.walk() yields, from the top down"""
		fs, ds = [], set()
		for n in self.names(st):
			if posixpath.dirname(n) == top:
				fs.append(posixpath.basename(n))
			elif n.startswith(top.rstrip("/") + "/"):
				ds.add(n[len(top.rstrip("/")) + 1:].split("/")[0])
		out = []
		for xs in (sorted(ds), sorted(fs)):
			t = st.fresh(("list", I.site(st, node)))
			st.heap[(t, "$items")] = term(xs)
			out.append(t)
		r = (("tup", K(top)) + tuple(out),)
		for d in sorted(ds):
			r += self.walk(I, st, posixpath.join(top, d), node)[1:]
		return ("tup",) + r

	def textual(self, I, st, name, text, args, kw, node):
		"""methods of constant strings"""
		f = getattr(text, name, None)
		if f is None:
			I.throw(st, ("exc", "AttributeError"), node)
			return []
		try:
			r = f(*map(pyval, args), **{k: pyval(v) for k, v in kw.items()})
		except ValueError as ex:
			if ex.args and isinstance(ex.args[0], tuple):
				return None             # not a constant
			I.throw(st, ("exc", type(ex).__name__), node)
			return []
		except (TypeError, IndexError, LookupError, AttributeError):
			return None
		if isinstance(r, list):
			t = st.fresh(("list", I.site(st, node)))
			st.heap[(t, "$items")] = term(r)
			return [("ok", st, t)]
		if isinstance(r, tuple) or is_k(K(r)) and isinstance(
				r, (str, bytes, bool, int)):
			return [("ok", st, term(r))]
		return None

	def ordered(self, I, st, xs, node):
		"""sorted(xs) of objects that define __lt__"""
		out = []
		for x in xs:
			i = 0
			for y in out:
				c = I._class_of(st, x)
				lt = c and I.p.find_method(c, "__lt__")
				if not lt:
					return None
				r = I.call_project(lt, x, [y], {}, node, st)
				if len(r) != 1 or not is_k(r[0][1]) or r[0][0] is not st:
					return None
				if r[0][1][2]:
					break
				i += 1
			out.insert(i, x)
		return out

	def copied(self, I, st, name, src, kw, node):
		"""list(x), tuple(x), sorted(x) of known items"""
		it = src if src[0] == "tup" else I.items_of(src, st)
		if src[0] == "dict":
			es = self.entries(st, src)
			it = es and ("tup",) + tuple(k for k, _v in es)
		if is_k(src) and isinstance(src[2], str):
			it = term(list(src[2]))
		if it is None or it[0] != "tup":
			return None
		xs = list(it[1:])
		if name == "sorted":
			try:
				if set(kw) - {"reverse", "key"}:
					return None
				if kw.get("reverse", FALSE) not in (TRUE, FALSE):
					return None
				key = kw.get("key", NONE)
				if key != NONE:
					ks = []
					for x in xs:
						r = I.call_value(key, [x], {}, node, st)
						if len(r) != 1:
							return None
						st, k = r[0]
						ks.append(pyval(k))
					order = sorted(range(len(xs)), key=lambda i: ks[i],
					               reverse=kw.get("reverse") == TRUE)
					return self.copied(I, st, "list", ("tup",) + tuple(
						xs[i] for i in order), {}, node)
				if xs and all(x[0] == "new" for x in xs):
					xs = self.ordered(I, st, xs, node)
					if xs is None or kw:
						return None
					return self.copied(I, st, "list", ("tup",) + tuple(xs),
					                   {}, node)
				xs = [x for _v, _i, x in sorted(
					(pyval(x), i, x) for i, x in enumerate(xs))]
				if kw.get("reverse") == TRUE:
					xs.reverse()
			except (TypeError, ValueError):
				return None
		elif name == "reversed":
			xs.reverse()
		if name in ("tuple", "iter", "reversed"):
			return [("ok", st, ("tup",) + tuple(xs))]
		t = st.fresh(("list", I.site(st, node)))
		st.heap[(t, "$items")] = ("tup",) + tuple(xs)
		return [("ok", st, t)]

	def each(self, I, st, name, args, node):
		it = args[1] if args[1][0] == "tup" else I.items_of(args[1], st)
		if args[1][0] == "dict":
			es = self.entries(st, args[1])
			it = es and ("tup",) + tuple(k for k, _v in es)
		if it is None or it[0] != "tup":
			return None
		cur = [(st, ())]
		for x in it[1:]:
			nxt = []
			for y, vs in cur:
				for z, v in I.call_value(args[0], [x], {}, node, y):
					if name == "map":
						nxt.append((z, vs + (v,)))
						continue
					for w, b in I.split(v, z, node):
						nxt.append((w, vs + (x,) if b else vs))
			cur = nxt
		return [("ok", y, ("tup",) + vs) for y, vs in cur]

	def kind_of(self, t):
		return {"list": "list", "tup": "tuple", "dict": "dict"}.get(t[0]) or \
			FilesMonitor.kind_of(self, t)

	def on_subscript(self, I, st, base, idx, node):
		if is_k(base) and isinstance(base[2], (str, bytes)):
			try:
				if is_k(idx):
					return K(base[2][idx[2]])
				if idx[0] == "slice" and all(map(is_k, idx[1:4])):
					return K(base[2][slice(*[x[2] for x in idx[1:4]])])
			except IndexError:
				I.throw(st, ("exc", "IndexError"), node)
				return BOTTOM
			except TypeError:
				pass
			return None
		return FilesMonitor.on_subscript(self, I, st, base, idx, node)

	def on_compare(self, I, st, op, a, b, node):
		if isinstance(op, (ast.Eq, ast.NotEq)) and a[0] == b[0] and \
				a[0] in ("list", "tup") and a != b:
			x = a if a[0] == "tup" else I.items_of(a, st)
			y = b if b[0] == "tup" else I.items_of(b, st)
			if x is not None and y is not None and x[0] == y[0] == "tup":
				r = len(x) == len(y)
				for u, w in zip(x[1:], y[1:]) if r else ():
					e = u == w or I.decide(("cmp", "==", u, w), st)
					r = False if e is False else r if e else \
						None if r else r
				if r is not None:
					return K(r == isinstance(op, ast.Eq))
		return FilesMonitor.on_compare(self, I, st, op, a, b, node)

	def listed(self, I, st, name, recv, args, node):
		"""methods of a list with known items"""
		it = I.items_of(recv, st)
		if it is None:
			return None
		xs = list(it[1:])
		v = NONE
		try:
			if name == ".pop":
				v = xs.pop(*[pyval(a) for a in args])
			elif name == ".insert":
				xs.insert(pyval(args[0]), args[1])
			elif name == ".reverse":
				xs.reverse()
			elif name == ".clear":
				xs = []
			elif name == ".decode" and all(map(isint, xs)):
				return self.textual(I, st, "decode", bytes(
					x[2] for x in xs), args, {}, node)
			elif name in (".remove", ".index", ".count"):
				same = []
				for i, x in enumerate(xs):
					r = True if x == args[0] else I.decide(
						("cmp", "==", x, args[0]), st)
					if r is None:
						return None
					if r:
						same.append(i)
				if name == ".count":
					return [("ok", st, K(len(same)))]
				if not same:
					raise ValueError
				if name == ".index":
					return [("ok", st, K(same[0]))]
				del xs[same[0]]
			else:
				return None
		except (IndexError, ValueError) as ex:
			I.throw(st, ("exc", type(ex).__name__), node)
			return []
		st.heap[(recv, "$items")] = ("tup",) + tuple(xs)
		return [("ok", st, v)]

	def on_store(self, I, st, base, name, val, node):
		if base[0] == "list" and isinstance(name, tuple):
			it = I.items_of(base, st)
			i = norm(name[1])
			if it is not None and it[0] == "tup" and isint(i) and \
					1 - len(it) <= i[2] < len(it) - 1:
				i = i[2] % (len(it) - 1) + 1
				st.heap[(base, "$items")] = it[:i] + (val,) + it[i + 1:]
				st.heap.pop((base, name), None)
				return
			st.heap.pop((base, "$items"), None)
		FilesMonitor.on_store(self, I, st, base, name, val, node)

	def on_binop(self, I, st, op, a, b, node):
		if op == "Mult" and "list" in (a[0], b[0]):
			x, n = (a, norm(b)) if a[0] == "list" else (b, norm(a))
			it = I.items_of(x, st)
			if it is not None and it[0] == "tup" and isint(n) and \
					n[2] < 4096:
				t = st.fresh(("list", I.site(st, node)))
				st.heap[(t, "$items")] = ("tup",) + it[1:] * n[2]
				return t
		if op == "BitXor":
			x, y = xored(a), xored(b)
			if x is not None and y is not None:
				return ("xor",) + tuple(sorted(x ^ y, key=repr))
		for x, y in ((a, b), (b, a)):
			c = inverted(x)
			if op == "BitXor" and x[0] == "crcof" and y == K(0xFFFFFFFF):
				return ("ncrc", x[1], 0, 32)
			if c is None or not isint(y):
				continue
			if op == "BitAnd" and bin(y[2] + 1).count("1") == 1:
				n = y[2].bit_length()
				return ("ncrc", c[1], c[2], min(n, c[3]))
			if op == "RShift" and x is a:
				return ("ncrc", c[1], c[2] + y[2], c[3] - y[2])
			if op == "Mod" and x is a and y[2] in (1 << 8, 1 << 16):
				return ("ncrc", c[1], c[2], min(
					y[2].bit_length() - 1, c[3]))
			if op == "FloorDiv" and x is a and y[2] == 256:
				return ("ncrc", c[1], c[2] + 8, c[3] - 8)
		return FilesMonitor.on_binop(self, I, st, op, a, b, node)

	def bignum(self, I, st, name, recv, args, kw, node):
		"""sectors as numbers, and back"""
		short = name.split(":")[-1].split(".")[-1]
		big = kw.get("byteorder", args[-1] if args else NONE) == K("big") or \
			short.endswith("_big")
		if not big:
			return None
		if short in ("int_from_bytes_big", "from_bytes") and args and \
				isbytes(args[0]):
			if not any(strip(x) for x in pieces(args[0])):
				return [("ok", st, K(0))]
			return [("ok", st, ("xor", args[0]))]
		if short in ("int_to_bytes_big", "to_bytes"):
			v, n = (recv, args[0]) if short == "to_bytes" and \
				recv is not None and recv[0] == "xor" else args[:2]
			if v[0] == "xor" and isint(norm(n)):
				return [("ok", st, parity(v[1:], norm(n)[2]))]
			if v == K(0) and isint(norm(n)):
				return [("ok", st, K(bytes(norm(n)[2])))]
		return None

	def hit(self, st, r, node, I):
		if r is None:
			return NONE
		if isinstance(r, re.Match):
			return ("match", (r.re.pattern, r.string, r.re.flags))
		return term(r)

	def isdir(self, st, path):
		d = posixpath.normpath(path[2])
		return d in self.dirs or (path, "$dir") in st.heap or \
			(K(d), "$dir") in st.heap or any(
				n.startswith(d + "/") for n in self.names(st))

	def lacks(self, I, st, base, name):
		"""an object made here has no such attribute"""
		if base[0] != "new" or (base, name) in st.heap:
			return False
		c = I._class_of(st, base)
		return c is not None and I.p.ext_bases(c) <= {"object"} and \
			not hasattr(object, name) and not I.p.find_method(c, name) and \
			not I._nested_class(c, name) and not any(name in x.attrs or x.methods.keys() & {
				"__getattr__", "__getattribute__", "__setattr__"} or
				any(w in x.mod.source for w in ("setattr(", "__dict__", "vars("))
				for x in I.p.mro(c))

	def attr_load(self, I, st, base, name, node):
		if self.lacks(I, st, base, name):
			I.throw(st, ("exc", "AttributeError"), node)
			return BOTTOM
		if (base, "$lay") in st.heap:
			if name == "closed":
				return st.heap.get((base, "closed"), FALSE)
			if name == "name":
				return st.heap.get((base, "name"), ("unk", "name"))
		if is_k(base) and not hasattr(base[2], name):
			I.throw(st, ("exc", "AttributeError"), node)
			return BOTTOM
		return FilesMonitor.attr_load(self, I, st, base, name, node)

	def opened(self, I, st, args, kw, node):
		r = FilesMonitor.opened(self, I, st, args, kw, node)
		if r is None and is_k(args[0]) and isinstance(args[0][2], str):
			I.throw(st, ("exc", "FileNotFoundError"), node)
			return []
		for kind, s, t in r or ():
			s.heap[(t, "name")] = args[0]
		return r

	def truth(self, I, st, t):
		if t[0] == "cmp" and t[1] == "==" and t[2][0] == t[3][0] == "crcof" \
				and flat(t[2][1]) != flat(t[3][1]):
			return False            # no collisions
		if t[0] == "match" or t == ("glob", "rescene", "APPNAME") or \
				(t, "$pos") in st.heap:
			return True
		if t[0] == "cmp" and t[1] in ("==", "is") and t[3] == NONE and (
				(t[2], "$pos") in st.heap or t[2][0] == "new"):
			return False
		return FilesMonitor.truth(self, I, st, t)
