"""Byte layout domain: what a piece of code writes as fields, and which of
those fields another piece of code reads.  Values are terms; bytes are
("lay", piece...) with pieces ("f", fmt, term), ("raw", term), ("kb", bytes);
offsets are kept in a linear normal form ("lin", c, ((atom, k), ...))."""
import ast
import re
import struct

from .absint import FALSE, K, NONE, TRUE, Interp, Monitor, is_k, show
from .project import AnalysisError, FuncInfo


#: length of byte strings of unknown content
KNOWN_LEN = {}


# -- linear arithmetic ---------------------------------------------------------
def isint(t):
	return is_k(t) and isinstance(t[2], int) and not isinstance(t[2], bool)


def lin(t):
	"""(constant, {atom: factor})"""
	if isint(t):
		return t[2], {}
	if t[0] == "lin":
		return t[1], dict(t[2])
	if t[0] == "op" and t[1] in ("Add", "Sub"):
		c1, a1 = lin(t[2])
		c2, a2 = lin(t[3])
		s = 1 if t[1] == "Add" else -1
		a = dict(a1)
		for k, v in a2.items():
			a[k] = a.get(k, 0) + s * v
		return c1 + s * c2, {k: v for k, v in a.items() if v}
	if t[0] == "op" and t[1] == "Mult" and (isint(t[2]) or isint(t[3])):
		k, x = (t[2], t[3]) if isint(t[2]) else (t[3], t[2])
		c, a = lin(x)
		return c * k[2], {y: v * k[2] for y, v in a.items() if v * k[2]}
	if t[0] == "op" and t[1] == "LShift" and isint(t[3]):
		return lin(("op", "Mult", t[2], K(1 << t[3][2])))
	if t[0] == "c" and t[1] == "len" and t[2] and t[2][0][0] == "lay":
		return lin(length(t[2][0]))
	if t[0] == "c" and t[1] == "len" and t[2] and t[2][0] in KNOWN_LEN:
		return KNOWN_LEN[t[2][0]], {}
	if t[0] == "c" and t[1] == "int" and len(t[2]) == 1 and \
			t[2][0][0] in ("lin", "nat", "c") and nonneg(norm(t[2][0])):
		return lin(t[2][0])
	return 0, {t: 1}


def mklin(c, a):
	a = {k: v for k, v in a.items() if v}
	for k in [x for x in a if x[0] == "hi"]:
		# low and high half of a number
		lo = ("lo", k[1])
		if a.get(k) == 1 << 32 and a.get(lo) == 1:
			del a[k], a[lo]
			a[k[1]] = a.get(k[1], 0) + 1
	if not a:
		return K(c)
	if c == 0 and len(a) == 1 and list(a.values()) == [1]:
		return list(a)[0]
	return ("lin", c, tuple(sorted(a.items(), key=repr)))


def norm(t):
	return mklin(*lin(t))


def nonneg(t):
	return t[0] in ("lo", "hi", "nat") or t[0] == "c" and t[1] == "len"


def sign(t):
	"""1, 0, -1 when known: (>0, ==0, <0); 2: >= 0, -2: <= 0"""
	c, a = lin(t)
	if not a:
		return (c > 0) - (c < 0)
	if all(nonneg(k) for k in a):
		if all(v > 0 for v in a.values()) and c >= 0:
			return 1 if c > 0 else 2
		if all(v < 0 for v in a.values()) and c <= 0:
			return -1 if c < 0 else -2
	return None


def add(a, b, s=1):
	return norm(("op", "Add" if s == 1 else "Sub", a, b))


# -- bytes ------------------------------------------------------------------------
def pieces(t):
	if t[0] == "lay":
		return t[1:]
	if is_k(t) and isinstance(t[2], bytes):
		return (("kb", t[2]),) if t[2] else ()
	return (("raw", t),)


def mklay(ps):
	out = []
	for x in ps:
		if x[0] == "f" and KNOWN_LEN and x[2][0] in ("c", "lin", "op"):
			x = ("f", x[1], norm(x[2]))
		if x[0] == "f" and is_k(x[2]) and x[1][-1] in "BHILQbhilq":
			try:
				x = ("kb", struct.pack(x[1], x[2][2]))
			except struct.error:
				pass
		elif x[0] == "cut" and x[1][0] == "kb":
			x = ("kb", x[1][1][x[2]:x[3]])
		if x[0] == "cut" and out and out[-1][0] == "cut" and \
				out[-1][1] == x[1] and out[-1][3] == x[2]:
			# two halves of the same thing
			x = ("cut", x[1], out[-1][2], x[3])
			out.pop()
			if (x[2], K(x[3])) == (0, psize(x[1])):
				x = x[1]
		if x[0] == "kb" and out and out[-1][0] == "kb":
			out[-1] = ("kb", out[-1][1] + x[1])
		elif x[0] != "kb" or x[1]:
			out.append(x)
	if not out:
		return K(b"")
	if len(out) == 1:
		if out[0][0] == "raw":
			return out[0][1]
		if out[0][0] == "kb":
			return K(out[0][1])
	return ("lay",) + tuple(out)


def isbytes(t):
	return t[0] == "lay" or is_k(t) and isinstance(t[2], bytes) or \
		t in KNOWN_LEN


def psize(x):
	if x[0] == "f":
		return K(struct.calcsize(x[1]))
	if x[0] == "kb":
		return K(len(x[1]))
	if x[0] == "cut":
		return K(x[3] - x[2])
	return norm(("c", "len", (x[1],)))


def length(t):
	r = K(0)
	for x in pieces(t):
		r = add(r, psize(x))
	return r


def fields(fmt):
	"""'<HBHH' -> ['<H', '<B', '<H', '<H']"""
	m = re.match(r"^([@=<>!]?)((?:\d*[a-zA-Z?])*)$", fmt.replace(" ", ""))
	if not m:
		return None
	e = m.group(1) or "@"
	e = {"!": ">", "=": "<"}.get(e, e)
	out = []
	for n, c in re.findall(r"(\d*)([a-zA-Z?])", m.group(2)):
		if c in "sx":
			out.append("%s%s" % (n or 1, c))
		else:
			out += [e + {"I": "L", "i": "l"}.get(c, c)] * int(n or 1)
	return out


def same_field(a, b):
	"""one byte values have no byte order"""
	if struct.calcsize(a) == struct.calcsize(b) == 1:
		return a[-1] == b[-1]
	return a == b


class Mismatch(Exception):
	pass


def subcut(x, lo, hi):
	"""a part of a piece"""
	if x[0] == "kb":
		return ("kb", x[1][lo:hi])
	if x[0] == "cut":
		return ("cut", x[1], x[2] + lo, x[2] + hi)
	return ("cut", x, lo, hi)


def cut(lay, lo, hi):
	"""lay[lo:hi] with lo/hi terms; None when not on field boundaries"""
	ps = pieces(lay)
	total = length(lay)

	def fix(x, dflt):
		if x == NONE:
			return dflt
		x = norm(x)
		if isint(x) and x[2] < 0:
			return add(total, x)
		return x
	lo, hi = fix(lo, K(0)), fix(hi, total)
	if lo == hi:
		return K(b"")
	pos, out, started = K(0), [], False
	for x in ps:
		if not started and pos == lo:
			started = True
		if started and pos == hi:
			return mklay(out)
		nxt = add(pos, psize(x))
		inside = None
		if isint(psize(x)) and isint(add(lo, pos, -1)) and \
				isint(add(hi, pos, -1)):
			a, b = add(lo, pos, -1)[2], add(hi, pos, -1)[2]
			size = psize(x)[2]
			inside = (max(0, a), min(size, b))
			if inside[0] >= inside[1]:
				inside = None
			elif inside != (0, size):
				started = True
				out.append(subcut(x, *inside))
				pos = nxt
				if b <= size:
					return mklay(out)
				continue
		elif x[0] == "kb" and not started and isint(add(lo, pos, -1)) and \
				0 < add(lo, pos, -1)[2] < len(x[1]):
			started = True
			out.append(("kb", x[1][add(lo, pos, -1)[2]:]))
			pos = nxt
			continue
		if started:
			out.append(x)
		pos = nxt
	if started and pos == hi:
		return mklay(out)
	return None


def astray(lay, off):
	"""an offset that is not a constant distance away from any field"""
	if unmodelled(off):
		return False
	pos = K(0)
	for x in pieces(lay):
		if isint(add(off, pos, -1)):
			return False
		pos = add(pos, psize(x))
	return not isint(add(off, pos, -1))


def read(lay, off, fmt):
	"""values of the fields fmt at offset off of the written bytes"""
	fs = fields(fmt)
	if fs is None:
		return None
	pos, vals = K(0), []
	off = norm(off)
	ps = list(pieces(lay))
	i = 0
	while i < len(ps) and pos != off:
		x = ps[i]
		d = add(off, pos, -1)
		if x[0] == "kb" and isint(d) and 0 < d[2] < len(x[1]):
			ps[i:i + 1] = [("kb", x[1][:d[2]]), ("kb", x[1][d[2]:])]
			continue
		pos = add(pos, psize(x))
		i += 1
	if pos != off:
		raise Mismatch("a field is read at an offset where none is written")
	for f in fs:
		n = struct.calcsize(f if f[0] in "<>@" else f)
		if i >= len(ps):
			raise Mismatch("a field is read behind the last written one")
		x = ps[i]
		if x[0] == "kb" and len(x[1]) < n and f[0] == ">" and \
				i + 1 < len(ps):
			# leading bytes of a big endian number written separately
			y = ps[i + 1]
			if y[0] == "cut" and y[1][0] == "f" and y[1][1] == f and \
					(y[2], y[3]) == (len(x[1]), n) and not any(x[1]):
				vals.append(y[1][2])
				i += 2
				continue
		if x[0] == "kb":
			if len(x[1]) < n:
				raise Mismatch("a %d byte field is read over constant bytes"
				               % n)
			v = struct.unpack(f, x[1][:n])
			vals += [K(a) for a in v]
			if len(x[1]) > n:
				ps[i] = ("kb", x[1][n:])
			else:
				i += 1
			continue
		if x[0] == "f" and f[0] in "<>@":
			if not same_field(x[1], f):
				raise Mismatch("a field written as %s is read as %s" %
				               (x[1], f))
			vals.append(x[2])
			i += 1
			continue
		if f[-1] == "s":
			c = cut(("lay",) + tuple(ps[i:]), K(0), K(n))
			if c is None:
				raise Mismatch("%d bytes are read over other fields" % n)
			vals.append(c)
			rest = cut(("lay",) + tuple(ps[i:]), K(n), NONE)
			ps[i:] = list(pieces(rest)) if rest is not None else []
			continue
		raise Mismatch("a number (%s) is read where bytes are written" % f)
	return vals


# -- what is known about the bits of a value ----------------------------------------
def bits(t):
	"""(ones, zeros) masks"""
	if isint(t):
		return t[2], ~t[2]
	if t[0] == "op" and t[1] in ("BitOr", "BitAnd"):
		o1, z1 = bits(t[2])
		o2, z2 = bits(t[3])
		if t[1] == "BitOr":
			return o1 | o2, z1 & z2
		return o1 & o2, z1 | z2
	return 0, 0


def mask(op, a, b):
	"""simplified a & b, a | b"""
	if isint(a) and not isint(b):
		a, b = b, a
	if not isint(b):
		return None
	if isint(a):
		return K(a[2] & b[2] if op == "BitAnd" else a[2] | b[2])
	if op == "BitAnd":
		o, z = bits(a)
		m = b[2]
		if a[0] in ("lo", "hi") and m == 0xFFFFFFFF:
			return a
		if m & ~z == 0:
			return K(0)
		if m & ~o == 0 and m >= 0:
			return K(m)
		if a[0] == "op" and a[1] == "BitOr":
			for x, k in ((a[2], a[3]), (a[3], a[2])):
				if isint(k) and k[2] & m == 0:
					return mask(op, x, b) or ("op", "BitAnd", x, b)
		if a[0] == "op" and a[1] == "BitAnd":
			for x, k in ((a[2], a[3]), (a[3], a[2])):
				if isint(k):
					return mask(op, x, K(k[2] & m)) or \
						("op", "BitAnd", x, K(k[2] & m))
		return ("op", "BitAnd", a, b)
	if a[0] == "op" and a[1] == "BitOr":
		for x, k in ((a[2], a[3]), (a[3], a[2])):
			if isint(k):
				return ("op", "BitOr", x, K(k[2] | b[2]))
	o, _z = bits(a)
	if b[2] & ~o == 0:
		return a
	return ("op", "BitOr", a, b)


class LayoutMonitor(Monitor):
	raise_mode = "none"
	inline_small = 40
	max_depth = 14
	events = ("struct.pack", "struct.unpack", "struct.unpack_from", ".pack",
	          ".unpack", ".unpack_from", ".write", "io.BytesIO")
	reads = 0
	writes = 0
	#: reading behind the end gives less
	eof = False

	def struct_fmt(self, t):
		"""format of a Struct object kept in a module or class constant"""
		if t[0] == "c" and t[1] == "struct.Struct" and is_k(t[2][0]):
			f = t[2][0][2]
			return f.decode() if isinstance(f, bytes) else f
		n = mod = None
		if t[0] == "glob":
			mod = self.p.modules.get(t[1])
			n = mod.assigns.get(t[2], [None])[0] if mod else None
		elif t[0] == "cattr":
			m, q = t[1].split(":")
			mod = self.p.modules[m]
			c = mod.all_classes.get(q)
			n = c.attrs.get(t[2]) if c else None
		if isinstance(n, ast.Call) and n.args and \
				isinstance(n.args[0], ast.Constant):
			nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
				getattr(n.func, "id", "")
			if nm == "Struct":
				f = n.args[0].value
				return f.decode() if isinstance(f, bytes) else f
		return None

	def attr_load(self, I, st, base, name, node):
		if name == "size":
			f = self.struct_fmt(base)
			if f is not None:
				return K(struct.calcsize(f))
		return None

	def table(self, I, t, key):
		"""look a constant key up in a constant table; NONE: not in it"""
		mod = cls = n = None
		if t[0] == "glob":
			mod = self.p.modules.get(t[1])
			n = mod.assigns.get(t[2], [None])[0] if mod else None
		elif t[0] == "cattr":
			m, q = t[1].split(":")
			mod = self.p.modules[m]
			cls = mod.all_classes.get(q)
			n = cls.attrs.get(t[2]) if cls else None
		if not isinstance(n, ast.Dict):
			return None
		hit = NONE
		for k, v in zip(n.keys, n.values):
			kv = I.const_eval(k, mod, cls) if k is not None else None
			if kv is None or not is_k(kv):
				return None
			if kv == key:
				hit = I.const_eval(v, mod, cls)
		return hit

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "layout", msg)

	def foreign(self, I, st, name, recv, args, kw, node):
		"""hook for rules"""
		return None

	def call(self, I, st, name, recv, args, kw, node):
		r = self.foreign(I, st, name, recv, args, kw, node)
		if r is not None:
			return r
		if name == ".get" and recv is not None and args and is_k(args[0]):
			v = self.table(I, recv, args[0])
			if v is not None:
				return [("ok", st, v if v != NONE or len(args) < 2
				         else args[1])]
		short = name.split(".")[-1]
		if name in ("io.BytesIO", "BytesIO", "?BytesIO", "StringIO.StringIO"):
			t = st.fresh(("r", I.site(st, node), "BytesIO", ()))
			st.heap[(t, "$lay")] = mklay(pieces(args[0])) if args else K(b"")
			st.heap[(t, "$pos")] = K(0) if args else NONE
			return [("ok", st, t)]
		if recv is not None and (recv, "$lay") in st.heap and \
				name.startswith("."):
			return self.stream(I, st, short, recv, args, node)
		fmt = None
		if name in ("struct.pack", "struct.unpack", "struct.unpack_from",
		            "struct.calcsize") and args:
			if is_k(args[0]):
				fmt = args[0][2]
				fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
				args = args[1:]
		elif name in (".pack", ".unpack", ".unpack_from") and \
				recv is not None:
			fmt = self.struct_fmt(recv)
		if fmt is not None and fields(fmt) is not None:
			if short == "pack":
				fs = fields(fmt)
				self.writes += len(fs)
				if len(fs) != len(args):
					self.rep(I, st, node, "wrong number of values packed")
					return None
				ps = []
				for f, v in zip(fs, args):
					ps += [("f", f, v)] if f[0] in "<>@" else pieces(v)
				return [("ok", st, mklay(ps))]
			if short == "calcsize":
				return [("ok", st, K(struct.calcsize(fmt)))]
			if args and args[0] == NONE:
				return []
			if args and isbytes(args[0]):
				off = K(0)
				if short == "unpack_from":
					off = args[1] if len(args) > 1 else kw.get("offset", off)
				else:
					n = length(args[0])
					if n != K(struct.calcsize(fmt)):
						self.rep(I, st, node, "unpacking needs %d bytes, %s "
						         "are given" % (struct.calcsize(fmt),
						                        _n(n)))
						return []
				self.reads += 1
				try:
					vs = read(args[0], off, fmt)
				except Mismatch as ex:
					self.rep(I, st, node, str(ex))
					return []
				return [("ok", st, ("tup",) + tuple(vs))]
		if name == "int.from_bytes" and args and isbytes(args[0]):
			order = args[1] if len(args) > 1 else kw.get("byteorder",
			                                             K("big"))
			n = length(args[0])
			if isint(n) and is_k(order) and kw.get("signed",
			                                       FALSE) == FALSE:
				e = "<" if order[2] == "little" else ">"
				f = {1: "B", 2: "H", 4: "L", 8: "Q"}.get(n[2])
				try:
					if f:
						return [("ok", st, read(args[0], K(0), e + f)[0])]
					if n[2] == 3 and e == ">":
						return [("ok", st, read(mklay(
							(("kb", b"\0"),) + tuple(pieces(args[0]))),
							K(0), ">L")[0])]
				except Mismatch:
					pass
		if name == ".to_bytes" and recv is not None and args and \
				isint(args[0]):
			order = args[1] if len(args) > 1 else kw.get("byteorder",
			                                             K("big"))
			f = {1: "B", 2: "H", 4: "L", 8: "Q"}.get(args[0][2])
			if is_k(order) and f and kw.get("signed", FALSE) == FALSE:
				return [("ok", st, mklay([("f", (
					"<" if order[2] == "little" else ">") + f, recv)]))]
			if is_k(order) and args[0][2] == 3 and order[2] == "big":
				return [("ok", st, mklay([("cut", ("f", ">L", recv),
				                           1, 4)]))]
		if name == "len" and args and (isbytes(args[0])):
			return [("ok", st, length(args[0]))]
		if name in ("bytes", "bytearray", "memoryview") and len(args) == 1 \
				and isbytes(args[0]):
			return [("ok", st, args[0])]
		if name in (".decode", "str", "unicode") and (recv or args):
			src = recv if name == ".decode" else args[0]
			enc = args if name == ".decode" else args[1:]
			if src is not None and src[0] == "c" and src[1] == ".encode":
				a = [x for x in src[2][1:] if is_k(x)]
				if _enc(a) == _enc(enc):
					return [("ok", st, src[2][0])]
		if name == ".join" and recv is not None and isbytes(recv) and args:
			it = args[0] if args[0][0] == "tup" else I.items_of(args[0], st)
			if it is not None and it[0] == "tup":
				ps = []
				for i, x in enumerate(it[1:]):
					if i:
						ps += pieces(recv)
					ps += pieces(x)
				return [("ok", st, mklay(ps))]
		if name in ("int", "long") and args and len(args) == 1 and (
				args[0][0] == "lin" or nonneg(args[0])):
			return [("ok", st, args[0])]
		if name == "ord" and args and isbytes(args[0]):
			v = self.byte(args[0])
			if v is not None:
				return [("ok", st, v)]
		if name in (".startswith", ".endswith") and recv is not None and \
				recv[0] == "lay" and args and isbytes(args[0]):
			n = length(args[0])
			lo = args[1] if len(args) > 1 else K(0)
			if name == ".startswith" and isint(n):
				c = cut(recv, lo, add(lo, n))
				if c is not None and is_k(c):
					return [("ok", st, K(c == args[0]))]
				if c is not None and same_start(c, args[0]) is False:
					return [("ok", st, FALSE)]
		if name == ".format" and is_k(recv) and len(args) == 1 and \
				args[0][0] == "c" and args[0][1] == "int" and \
				len(args[0][2]) == 2 and \
				re.match(r"^\{0?:016x\}$", str(recv[2])):
			return [("ok", st, args[0][2][0])]
		return None

	def stream(self, I, st, op, t, args, node):
		lay, pos = st.heap[(t, "$lay")], st.heap[(t, "$pos")]
		if op == "write" and args:
			self.writes += 1
			if pos != NONE and pos != length(lay):
				end = add(pos, length(args[0]))
				a, b = cut(lay, K(0), pos), cut(lay, end, NONE)
				if a is None or b is None:
					self.rep(I, st, node, "written over earlier bytes")
				else:
					st.heap[(t, "$lay")] = mklay(
						tuple(pieces(a)) + tuple(pieces(args[0])) +
						tuple(pieces(b)))
					st.heap[(t, "$pos")] = end
					return [("ok", st, length(args[0]))]
			st.heap[(t, "$lay")] = mklay(pieces(lay) + tuple(pieces(args[0])))
			return [("ok", st, length(args[0]))]
		if op == "tell":
			return [("ok", st, length(lay) if pos == NONE else pos)]
		if op == "seek" and args:
			if len(args) > 1 and args[1] != K(0):
				if args[1] == K(2) and args[0] == K(0):
					st.heap[(t, "$pos")] = NONE
				else:
					base = length(lay) if args[1] == K(2) or pos == NONE \
						else pos
					st.heap[(t, "$pos")] = add(base, args[0])
			else:
				st.heap[(t, "$pos")] = norm(args[0])
			return [("ok", st, NONE)]
		if op in ("read", "getvalue", "getbuffer"):
			if op != "read":
				return [("ok", st, lay)]
			lo = length(lay) if pos == NONE else pos
			hi = NONE
			if args and args[0] not in (NONE, K(-1)):
				hi = add(lo, args[0])
				if self.eof and sign(add(hi, length(lay), -1)) == 1:
					hi = length(lay)
			if self.eof and sign(add(lo, length(lay), -1)) in (0, 1, 2):
				return [("ok", st, K(b""))]
			st.heap[(t, "$pos")] = hi
			c = cut(lay, lo, hi)
			if c is None:
				c = ("misread", lo, hi) if astray(lay, lo) and \
					not unmodelled(hi) else ("unk", I.site(st, node))
			return [("ok", st, c)]
		return [("ok", st, NONE)]

	def on_binop(self, I, st, op, a, b, node):
		if op == "Add" and (isbytes(a) or isbytes(b)):
			return mklay(tuple(pieces(a)) + tuple(pieces(b)))
		if op in ("Add", "Sub") and not (is_k(a) and is_k(b)) and (
				isint(a) or isint(b) or a[0] == "lin" or b[0] == "lin"):
			return norm(("op", op, a, b))
		if op in ("Mult", "LShift") and (isint(a) or isint(b)) and not (
				is_k(a) and is_k(b)):
			c, at = lin(("op", op, a, b))
			if ("op", op, a, b) not in at:
				return mklin(c, at)
		if op in ("BitAnd", "BitOr"):
			if op == "BitOr":
				r = norm(("op", "Add", a, b))
				if {a[0], b[0]} == {"lo", "lin"} and r[0] != "lin":
					return r
			return mask(op, a, b)
		if op == "Mod" and is_k(a) and a[2] == "%016x":
			v = b[1] if b[0] == "tup" and len(b) == 2 else b
			if v[0] == "c" and v[1] == "int" and len(v[2]) == 2 and \
					v[2][1] == K(16):
				return v[2][0]
		return None

	def on_subscript(self, I, st, base, idx, node):
		if idx and is_k(idx) and base[0] in ("glob", "cattr"):
			v = self.table(I, base, idx)
			if v is not None and v != NONE:
				return v
		if idx and idx[0] == "slice" and isbytes(base) and \
				idx[3] in (NONE, K(1)):
			if is_k(base) and all(x == NONE or isint(x) for x in idx[1:3]):
				lo, hi = [None if x == NONE else x[2] for x in idx[1:3]]
				return K(base[2][lo:hi])
			if idx[1] == NONE and idx[2] == NONE:
				return base
			self.reads += 1
			c = cut(base, idx[1], idx[2])
			if c is None:
				return ("unk", I.site(st, node))
			return c
		if base[0] == "lay" and isint(idx):
			return self.byte(cut(base, idx, K(idx[2] + 1))) or \
				("unk", I.site(st, node))
		return None

	def byte(self, c):
		"""value of a single byte"""
		if c is None:
			return None
		ps = pieces(c)
		if len(ps) == 1 and ps[0][0] == "f" and ps[0][1][-1] == "B":
			return ps[0][2]
		if len(ps) == 1 and ps[0][0] == "kb" and len(ps[0][1]) == 1:
			return K(ps[0][1][0])
		return None

	def truth(self, I, st, t):
		if t[0] == "cmp" and t[1] == "in" and is_k(t[2]) and \
				t[3][0] in ("glob", "cattr"):
			v = self.table(I, t[3], t[2])
			if v is not None:
				return v != NONE
		if t[0] == "cmp" and t[1] == "==" and t[3] == NONE and (
				isbytes(t[2]) or t[2][0] == "lin" or nonneg(t[2])):
			return False
		if t[0] == "lay" or t in KNOWN_LEN:
			n, a = lin(length(t))
			if n > 0 and all(v > 0 for v in a.values()):
				return True
		if t[0] == "cmp" and t[1] in ("==", "<") and not (
				isbytes(t[2]) or isbytes(t[3])) and not any(
					is_k(x) and not isint(x) for x in t[2:4]):
			s = sign(add(t[3], t[2], -1))
			if t[1] == "==":
				if s in (0, 1, -1):
					return s == 0
			elif s in (0, 1, -1, -2):
				return s == 1
		if t[0] == "cmp" and t[1] == "==":
			if isbytes(t[2]) and isbytes(t[3]) and t[2] != t[3]:
				n = sign(add(length(t[2]), length(t[3]), -1))
				if n in (1, -1):
					return False
				if same_start(t[2], t[3]) is False:
					return False
			for a, b in ((t[2], t[3]), (t[3], t[2])):
				# x & m == 0  <->  not x & m
				if b == K(0) and a[0] == "op" and a[1] == "BitAnd":
					r = I.decide(a, st)
					if r is not None:
						return not r
				if isint(b) and b[2] and a[0] == "op" and \
						a[1] == "BitAnd" and a[3] == b and \
						b[2] & (b[2] - 1) == 0:
					r = I.decide(a, st)
					if r is not None:
						return r
		if t[0] == "op" and t[1] == "BitAnd":
			f = st.facts.get(("cmp", "==", t, K(0)))
			if f is not None:
				return not f
			if isint(t[3]) and t[3][2] & (t[3][2] - 1) == 0:
				f = st.facts.get(("cmp", "==", t, t[3]))
				if f is not None:
					return f
		return None

	def on_branch(self, I, st, t, val, node):
		if I.forked and unmodelled(t):
			# which of the values it is in a loop: not all paths are known
			if has(t, ("phi", "elem", "prev")):
				st.mon["vague"] = "loop"
			else:
				st.mon.setdefault("vague", True)
		# paths with different conditions stay apart
		n = st.mon.get("path", ())
		if len(n) < 40 and not is_k(t) and ("param" in repr(t) or
		                                    "'nat'" in repr(t)):
			st.mon["path"] = n + ((t, val),)


def vague(t):
	"""does the value come from something the analysis does not model?"""
	if not isinstance(t, tuple):
		return False
	if t and t[0] in ("unk", "r", "prev", "elem", "gen"):
		return True
	if t and t[0] == "k":
		return False
	return any(vague(x) for x in t[1:] if isinstance(x, tuple))


#: functions of their arguments that are compared as they stand
PURE = ("len", "int", ".encode", ".decode", ".lower", ".upper", ".strip",
        ".lstrip", ".rstrip", ".replace", ".startswith", ".endswith",
        "os.path.basename",
        "os.path.dirname", "os.path.splitext", "os.path.join")


def unmodelled(t):
	"""is the meaning of the value not known to the analysis?"""
	if not isinstance(t, tuple) or not t or t[0] == "k":
		return False
	if t[0] in ("unk", "r", "prev", "elem", "gen", "phi"):
		return True
	if t[0] == "c" and t[1] not in PURE:
		return True
	if t[0] in ("sub", "slice"):
		return True
	return any(unmodelled(x) for x in t[1:] if isinstance(x, tuple))


def has(t, kinds):
	return isinstance(t, tuple) and len(t) > 0 and (
		t[0] in kinds or any(has(x, kinds) for x in t[1:]))


def flat(t):
	"""fields, one byte fields without byte order; constants as bytes"""
	out = []
	for x in pieces(t):
		if x[0] == "f" and is_k(x[2]):
			try:
				x = ("kb", struct.pack(x[1], x[2][2]))
			except struct.error:
				pass
		if x[0] == "f":
			x = ("f", x[1].replace("I", "L"), norm(x[2]))
		if x[0] == "kb" and out and out[-1][0] == "kb":
			out[-1] = ("kb", out[-1][1] + x[1])
		elif x[0] != "kb" or x[1]:
			out.append(x)
	return tuple(out)


def layout_show(t):
	if t[0] == "lay":
		return "<" + " ".join(
			"%s:%s" % (x[1], show(x[2], 2)) if x[0] == "f" else
			show(x[1], 2) if x[0] == "raw" else
			x[1].hex() if x[0] == "kb" else "?" for x in t[1:]) + ">"
	if t[0] == "lin":
		return " + ".join([str(t[1])] + ["%d*%s" % (k, show(a, 2))
		                                 for a, k in t[2]])
	return show(t, 3)


def same_start(a, b):
	"""False when two byte strings differ in a known byte"""
	def known(t):
		out = []
		for x in pieces(t):
			if x[0] == "kb":
				out += list(x[1])
			elif x[0] == "f" and is_k(x[2]):
				try:
					out += list(struct.pack(x[1], x[2][2]))
				except struct.error:
					break
			elif x[0] == "cut" and x[1][0] == "f" and is_k(x[1][2]):
				out += list(struct.pack(x[1][1], x[1][2][2]))[x[2]:x[3]]
			elif isint(psize(x)):
				out += [None] * psize(x)[2]
			else:
				break
		return out
	if any(x is not None and y is not None and x != y
	       for x, y in zip(known(a), known(b))):
		return False
	return None


def _n(t):
	c, a = lin(t)
	return str(c) + (" + a variable number" if a else "")


def _enc(args):
	e = args[0][2] if args and is_k(args[0]) else "utf-8"
	return str(e).lower().replace("-", "").replace("_", "")


def driver(p, modname, source):
	"""a FuncInfo for a few lines of code in the scope of a module: the rule's
	way to say 'first this is written, then that is read'"""
	mod = p.modules.get(modname)
	if mod is None:
		raise AnalysisError("anchor vanished: module %s" % modname)
	tree = ast.parse(source)
	node = tree.body[0]
	return FuncInfo(mod, node, "<%s>" % node.name)
