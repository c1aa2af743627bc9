"""Linear checksum chains: every crc32() result replaces the value it was
computed from; a value that was already extended ("stale") must not be used
again.  Written or read data is compared with the data that is hashed."""
import ast

from .absint import FALSE, K, NONE, TRUE, is_k, show
from .blockflow import pieces
from .crc import CRC_FUNCS, ZERO, unmask
from .fs import FSMonitor, base

CUR = ("crc", ZERO)
READER_CALLS = ("read", "read_contents", "read_part", "read_data_part",
                "read_contents_chunks", "skip_contents", "move_to_child")


class Linear(FSMonitor):
	raise_mode = "none"
	phi_by_key = True
	inline_small = 12
	single_fault = True
	assertions_hold = True

	def __init__(self, p):
		FSMonitor.__init__(self, p)
		self.hashed = set()
		self.optional, self._tries = {}, {}

	def rep(self, I, st, node, rule, msg):
		self.report(I, st, node, rule, msg)

	def chain_values(self, I, t, seen=()):
		"""the values a checksum term may stand for: 'zero', 'cur', 'stale',
		'other'"""
		b = base(unmask(t))
		if is_k(b):
			return {"zero"} if b == ZERO else {"other"}
		if b == CUR:
			return {"cur"}
		if b[0] == "stale":
			return {"stale"}
		if b[0] == "phi" and b in I.phi_parts:
			if b in seen:
				return set()
			out = set()
			for x in I.phi_parts[b]:
				out |= self.chain_values(I, x, seen + (b,))
			return out
		return {"other"}

	def crc(self, I, st, name, args, kw, node):
		if name not in CRC_FUNCS or not args:
			return None
		acc = args[1] if len(args) > 1 else kw.get("value", ZERO)
		vs = self.chain_values(I, acc)
		if "stale" in vs:
			self.rep(I, st, node, "crc-chain", "the checksum continues from a "
			         "value that misses data hashed before")
		elif vs == {"zero"} and st.mon.get("hashing"):
			self.rep(I, st, node, "crc-chain",
			         "the checksum is started again halfway")
		elif "other" in vs:
			self.rep(I, st, node, "crc-chain", "the checksum continues from "
			         "something else than the checksum so far")
		self.hashed.add(I.site(st, node))
		st.mon["hashing"] = True
		b = base(unmask(acc))
		if not is_k(b):
			st.rename(b, ("stale", I.site(st, node)))
		if b != CUR:
			st.rename(CUR, ("stale", I.site(st, node)))
		for d in pieces(args[0]):
			self.on_hash(I, st, d, node)
		return [("ok", st, CUR)]

	def attr_load(self, I, st, b, name, node):
		"""an attribute that may be missing, where the code expects that"""
		k = id(node)
		if k not in self.optional:
			self.optional[k] = any(
				isinstance(h.type, ast.Name) and h.type.id == "AttributeError"
				for t in self.tries(st.frames[-1].fi)
				if t.body[0].lineno <= node.lineno <= t.body[-1].end_lineno
				for h in t.handlers)
		if self.optional[k] and b[0] not in ("M", "ext", "C") and \
				(b, name) not in st.heap:
			I.throw(st.copy(), ("exc", "AttributeError"), node)
		return None

	def tries(self, fi):
		if fi not in self._tries:
			self._tries[fi] = [n for n in ast.walk(fi.node)
			                   if isinstance(n, ast.Try)]
		return self._tries[fi]

	def final(self, I, st, t):
		"""is the term the checksum over everything so far"""
		vs = self.chain_values(I, t)
		return bool(vs) and vs <= {"zero", "cur"}

	def on_hash(self, I, st, d, node):
		pass


def empty(d):
	return is_k(d) and not d[2]


class Written(Linear):
	"""what is written to the output is what is hashed, in the same order"""
	events = ("open:w", "zlib.crc32", "binascii.crc32", ".write", "FileData",
	          ".writelines")

	def __init__(self, p):
		Linear.__init__(self, p)
		self.outs = set()
		self.written = set()

	def canon(self, I, st, d):
		return st.mon.get(("whole", d), d)

	def match(self, I, st, kind, d, node):
		d = self.canon(I, st, d)
		if empty(d):
			return
		side, q = st.mon.get("Q", ("", ()))
		if q and side != kind:
			if q[0] == d:
				q = q[1:]
			else:
				self.rep(I, st, node, "hash-what-is-written", "%s is %s where "
				         "%s is %s" % (
					show(d), "written" if kind == "w" else "hashed",
					show(q[0]), "hashed" if kind == "w" else "written"))
				q = ()
		else:
			side, q = kind, q + (d,)
			if len(q) > 6:
				self.rep(I, st, node, "hash-what-is-written", "data is %s "
				         "without being %s" % (
					("written", "hashed") if kind == "w" else
					("hashed", "written")))
				q = ()
		if q:
			st.mon["Q"] = (side, q)
		else:
			st.mon.pop("Q", None)

	def settle(self, I, st, node, what):
		side, q = st.mon.pop("Q", ("", ()))
		if q:
			self.rep(I, st, node, "hash-what-is-written", "%s is %s but not %s "
			         "%s" % (show(q[0]), "written" if side == "w" else "hashed",
			                 "hashed" if side == "w" else "written", what))

	def loop_back(self, I, st, node):
		self.settle(I, st, node, "in the same pass of the loop")

	def on_hash(self, I, st, d, node):
		self.match(I, st, "c", d, node)

	def fs_write(self, I, st, h, data, node):
		self.written.add(I.site(st, node))
		if st.mon.get("published"):
			self.rep(I, st, node, "hash-what-is-written", "data is written "
			         "after the checksum was handed over")
		for d in pieces(data):
			self.match(I, st, "w", d, node)

	def other(self, I, st, name, recv, args, kw, node):
		r = self.crc(I, st, name, args, kw, node)
		if r is not None:
			return r
		if recv is not None and name in (".read", ".seek") and \
				base(recv)[0] != "h":
			if name == ".seek":
				st.mon[("pos", recv)] = "start" if args and args[0] == ZERO \
					and len(args) == 1 else "?"
				return [("ok", st, NONE)]
			if not args:
				# the rest of a file: the same bytes whenever it is read
				# again from the start
				t = st.fresh(("r", I.site(st, node), "read", (recv,)))
				pos = st.mon.get(("pos", recv), "start")
				st.mon[("pos", recv)] = "end"
				if pos == "start":
					st.mon[("whole", t)] = ("c", "contents", (recv,))
				elif pos == "end":
					st.mon[("whole", t)] = K(b"")
				return [("ok", st, t)]
		return None

	def merge_key(self, st):
		return (st.mon.get("Q"), tuple(sorted(
			repr((k, v)) for k, v in st.mon.items()
			if isinstance(k, tuple) and k[0] == "pos")))
