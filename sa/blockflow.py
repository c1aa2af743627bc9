"""Flow of SRR/RAR blocks: every block a reader yields must reach the output
exactly once.  One analysis per block type (the type of the current element
is fixed, so that type tests decide)."""
from .absint import K, NONE, is_k, kval, show, mentions
from .fs import FSMonitor, base, handle_path, writes
from . import absint


def type_table(p):
	"""type number -> (member name, class full name), from the reader's own
	table: a module level dict from type constants to block classes"""
	m = p.modules.get("rescene.rar")
	best = {}
	import ast
	I = absint.Interp(p, absint.Monitor(p))
	for name, vals in m.assigns.items():
		for v in vals:
			if not isinstance(v, ast.Dict):
				continue
			d = {}
			for k, c in zip(v.keys, v.values):
				kk = I.const_eval(k, m, None)
				if kk is None or not is_k(kk) or not isinstance(c, ast.Name):
					continue
				r = p.member(m, c.id)
				if r and r[0] == "cls" and p.find_method(r[1], "block_bytes"):
					d[kk[2]] = (ast.unparse(k), r[1].full)
			if len(d) > len(best):
				best = d
	return best


def is_reader(t):
	t = base(t)
	return t[0] == "new" and t[2].endswith(":RarReader")


#: calls that hand out the elements of their (reader) argument unchanged
ITER_FUNCS = ("read_all", "__iter__", "iter", "list", "tuple", "__next__")


def reader_of(p, t):
	"""the reader a term iterates over (all its blocks, in order)"""
	t = base(t)
	if is_reader(t):
		return t
	if t[0] in ("r", "c") and isinstance(t[-1], tuple) and t[-1]:
		nm = (t[2] if t[0] == "r" else t[1]).split(".")[-1]
		if nm in ITER_FUNCS or any(f.is_generator for f in
		                           p.func_index.get(nm, [])) or \
				nm == "_rarreader_usenet":
			for a in t[-1]:
				if isinstance(a, tuple) and a:
					r = reader_of(p, a)
					if r is not None:
						return r
			if nm == "_rarreader_usenet":
				return t
	return None


def pieces(t):
	"""flatten a concatenation of bytes"""
	b = base(t)
	if b[0] == "op" and b[1] == "Add":
		return pieces(b[2]) + pieces(b[3])
	if b[0] == "c" and b[1] in ("bytes", "bytearray", "memoryview") and b[2]:
		return pieces(b[2][0])
	if b[0] == "tup":
		return [x for e in b[1:] for x in pieces(e)]
	if b[0] == "c" and b[1] == ".join" and len(b[2]) == 2:
		return pieces(b[2][1])
	return [t]


def classify(t):
	"""('whole', block) | ('data', block) | ('part', block, slice) |
	('other', t)"""
	b = base(t)
	if b[0] == "c" and b[1] == "block_bytes":
		return ("whole", b[2][0])
	if b[0] in ("c", "r") and (b[1] if b[0] == "c" else b[2]) == "srr_data":
		return ("data", b[-1][0])
	if b[0] == "attr" and b[2] == "_rawdata":
		return ("whole", b[1])
	if b[0] == "sub" and classify(b[1])[0] == "whole":
		sl = b[2]
		if sl[0] == "slice" and sl[1] in (NONE, K(0)) and sl[2] == NONE and \
				sl[3] in (NONE, K(1)):
			return ("whole", classify(b[1])[1])
		return ("part", classify(b[1])[1], sl)
	return ("other", t)


class Flow(FSMonitor):
	"""mon keys
	('E', elem) -> (whole, data, part)  counts of the writes of a block
	('V', elem) -> False/True  volume elements: a copy loop was completed
	('IT', itv) -> 'open'      a reader loop that is not exhausted
	('B', list) -> 'full'      blocks were put aside in this list
	'vol' -> True              the volume block was written
	'hdr' -> True              the SRR header was written"""
	events = ("open:w", "tempfile.mkstemp", "os.fdopen", ".write",
	          ".writelines", ".block_bytes", "RarReader", "read_all")
	raise_mode = "handled"
	single_fault = True
	assertions_hold = True
	opaque = ("rescene.main:_fire", "rescene.rar:RarReader.read_all",
	          "rescene.main:_rarreader_usenet", "rescene.main:temp_folder_cleanup")

	def __init__(self, p, kind, cls, policy):
		FSMonitor.__init__(self, p)
		self.kind, self.cls, self.policy = kind, cls, policy
		self.copy_loops = {}     # loop site -> number of writes seen
		self.volume_loops = {}   # loop -> the copy loops in it
		self.store_loops = set()
		self.cand = []           # (loop site, rule, where, function, msg)
		self.writes_seen = 0

	# -- helpers ------------------------------------------------------------
	def note(self, I, st, node, loop, rule, msg):
		fi = st.frames[-1].fi
		where = "%s:%d" % (fi.mod.rel, getattr(node, "lineno", 0))
		self.cand.append((loop, rule, where, fi.full, msg))

	def findings(self):
		"""violations of loops that are copy (or volume) loops"""
		seen, out = set(), []
		for loop, rule, where, fn, msg in self.cand:
			if loop is not None and loop[0] == "store":
				if loop[1:] not in self.store_loops:
					continue
			elif loop is not None and loop not in self.copy_loops and \
					not self.volume_loops.get(loop, set()) & set(
						self.copy_loops):
				continue
			if (rule, where, msg) not in seen:
				seen.add((rule, where, msg))
				out.append((rule, where, fn, msg))
		return out

	# -- construction / calls ----------------------------------------------------
	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if name == "N:rescene.rar:RarReader":
			t = st.fresh(("new", I.site(st, node), "rescene.rar:RarReader"))
			st.heap[(t, "$src")] = args[0] if args else NONE
			return self._raise(st, "Any") + [("ok", st, t)]
		if name.startswith("N:rescene.rar:") and name.endswith("Block"):
			t = st.fresh(("new", I.site(st, node), name[2:]))
			return [("ok", st, t)]
		if short == "block_bytes" and recv is not None:
			return [("ok", st, ("c", "block_bytes", (recv,)))]
		if short == "srr_data" and recv is not None:
			return self._raise(st, "Any") + [
				("ok", st, ("c", "srr_data", (recv,)))]
		if name in (".append", ".insert", ".extend", ".appendleft", ".add") \
				and recv is not None and args:
			self._stash(I, st, recv, args[-1], node)
		if name in (".setdefault",) and recv is not None and len(args) == 2:
			pass
		r = self.policy.call(self, I, st, name, recv, args, kw, node)
		if r is not None:
			return r
		return None

	def _stash(self, I, st, lst, val, node):
		for k in list(st.mon):
			if isinstance(k, tuple) and k[0] == "E" and k[1] == val:
				w, d, pt, loop = st.mon[k]
				st.mon[k] = (w + 1, d + 1, pt, loop)
				st.mon[("B", lst)] = "full"
				self.copy_loops[loop] = self.copy_loops.get(loop, 0) + 1
		# the bytes of a block are put aside
		for x in pieces(val):
			c = classify(x)
			k = ("E", c[1])
			if c[0] in ("whole", "data") and k in st.mon:
				w, d, pt, loop = st.mon[k]
				if c[0] == "whole":
					w = min(w + 1, 3)
				else:
					d = min(d + 1, 3)
				st.mon[k] = (w, d, pt, loop)
				st.mon[("B", lst)] = "bytes"
				self.copy_loops[loop] = self.copy_loops.get(loop, 0) + 1
		# names of volumes gathered for a later volume loop
		if val[0] != "k":
			for k in list(st.mon):
				if isinstance(k, tuple) and k[0] == "V" and \
						(mentions(val, k[1]) or k[1] == val):
					st.mon[k] = "list"

	def comp_elem(self, I, st, coll, val, node):
		self._stash(I, st, coll, val, node)

	# -- iteration ----------------------------------------------------------------
	def iterate(self, I, st, itv, elem, node):
		rd = reader_of(self.p, itv)
		loop = (st.frames[-1].fi.full, getattr(node, "lineno", 0))
		if rd is not None:
			self._elem(I, st, elem, itv, loop, node)
		elif st.mon.get(("B", itv), "bytes") != "bytes":
			v = st.mon[("B", itv)]
			again = isinstance(v, tuple) and v[1] in self.copy_loops
			self._elem(I, st, elem, itv, loop, node, again)
		else:
			st.mon[("V", elem)] = "todo"
			st.heap[(elem, "$loop")] = K(loop[1])

	def _elem(self, I, st, elem, itv, loop, node, again=False):
		kind, cls = self.policy.kind_for(self, I, st, elem)
		st.heap[(elem, "rawtype")] = K(kind)
		if cls:
			st.heap[(elem, "$type")] = ("C", cls)
		for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "E"]:
			del st.mon[k]
		st.mon[("E", elem)] = (1, 1, 0, loop) if again else (0, 0, 0, loop)
		st.mon[("IT", itv)] = loop
		self.policy.on_elem(self, I, st, elem, loop, node)

	def iter_end(self, I, st, itv, node):
		if reader_of(self.p, itv) is not None or \
				st.mon.get(("B", itv), "bytes") != "bytes":
			loop = (st.frames[-1].fi.full, getattr(node, "lineno", 0))
			st.mon.pop(("IT", itv), None)
			b = st.mon.get(("B", itv))
			if b == "full" or isinstance(b, tuple) and \
					b[1] not in self.copy_loops:
				st.mon[("B", itv)] = ("ended", loop)
			for k in list(st.mon):
				if isinstance(k, tuple) and k[0] == "V":
					if st.mon[k] == "todo" or loop in self.copy_loops:
						st.mon[k] = loop
			for k in [k for k in st.mon if isinstance(k, tuple) and
			          k[0] == "E"]:
				del st.mon[k]
			self.policy.on_end(self, I, st, itv, node)
		else:
			self.policy.on_vend(self, st, (st.frames[-1].fi.full,
			                               getattr(node, "lineno", 0)))
			for k in [k for k in st.mon if isinstance(k, tuple) and
			          k[0] == "V" and base(k[1])[-1] == itv]:
				del st.mon[k]

	def on_raise(self, I, st, exc, node):
		# a file that can't be read is skipped with a message
		for k in list(st.mon):
			if isinstance(k, tuple) and k[0] == "V" and st.mon[k] == "todo":
				st.mon[k] = "failed"

	def loop_back(self, I, st, node):
		line = getattr(node, "lineno", 0)
		fn = st.frames[-1].fi.full
		for k in list(st.mon):
			if not isinstance(k, tuple):
				continue
			if k[0] == "E" and st.mon[k][3] == (fn, line):
				self._judge(I, st, k[1], st.mon[k], node)
				del st.mon[k]
			elif k[0] == "V" and st.heap.get((k[1], "$loop")) == K(line):
				loop = (fn, line)
				if st.mon[k] == "stored":
					self.store_loops.add(loop)
				elif isinstance(st.mon[k], tuple):
					self.volume_loops.setdefault(loop, set()).add(st.mon[k])
				elif st.mon[k] == "todo":
					self.note(I, st, node, loop, "volume-complete",
					          "an iteration over the volumes can end without "
					          "processing the blocks of its volume")
					self.note(I, st, node, ("store",) + loop, "store-complete",
					          "an iteration over the files to store can end "
					          "without storing its file")
				del st.mon[k]

	def _judge(self, I, st, elem, v, node):
		w, d, pt, loop = v
		kind = st.heap.get((elem, "rawtype"), NONE)
		what = "type 0x%02X" % kind[2] if is_k(kind) and \
			isinstance(kind[2], int) else "type ?"
		for msg in self.policy.judge(self, I, st, elem, w, d, pt, kind):
			self.note(I, st, node, loop, "block-flow",
			          "%s (block %s)" % (msg, what))

	# -- writes -----------------------------------------------------------------------
	def fs_write(self, I, st, h, data, node):
		if not self.policy.is_output(self, I, st, h):
			return
		self.writes_seen += 1
		for x in pieces(data):
			c = classify(x)
			if ("B", x) in st.mon:
				loop = (st.frames[-1].fi.full, getattr(node, "lineno", 0))
				if st.mon[("B", x)] != "bytes":
					self.note(I, st, node, None, "block-flow",
					          "the gathered blocks are written twice")
				self.copy_loops[loop] = 1
				st.mon[("B", x)] = ("ended", loop)
				continue
			if ("V", x) in st.mon and \
					st.mon.get(("B", base(x)[-1])) == "bytes":
				loop = (st.frames[-1].fi.full, st.heap[(x, "$loop")][2])
				self.copy_loops[loop] = 1
				st.mon[("B", base(x)[-1])] = ("ended", loop)
				st.mon[("V", x)] = "block"
				continue
			if c[0] == "other":
				st.mon.pop("sd", None)
				self.policy.on_other(self, I, st, x, node)
				continue
			b = c[1]
			bb = base(b)
			if bb[0] == "new":
				cls = bb[2].split(":")[-1]
				if st.mon.pop("sd", None):
					self.note(I, st, node, None, "stored-data",
					          "a stored file header is not followed by the "
					          "contents of the file")
				if c[0] == "whole":
					self.policy.on_new(self, I, st, cls, b, node)
					if cls == "SrrStoredFileBlock":
						st.mon["sd"] = True
						for k in list(st.mon):
							if isinstance(k, tuple) and k[0] == "V" and \
									st.mon[k] == "todo":
								st.mon[k] = "stored"
				continue
			if st.mon.pop("sd", None):
				self.note(I, st, node, None, "stored-data", "a stored file "
				          "header is not followed by the contents of the file")
			k = ("E", b)
			if k in st.mon:
				w, d, pt, loop = st.mon[k]
				self.copy_loops[loop] = self.copy_loops.get(loop, 0) + 1
				if c[0] == "whole":
					if d and not w:
						self.note(I, st, node, loop, "block-flow", "the data "
						          "of a block is written before its header")
					w = min(w + 1, 3)
				elif c[0] == "data":
					d = min(d + 1, 3)
				else:
					pt = min(pt + 1, 3)
					self.policy.on_part(self, I, st, b, c[2], node)
				st.mon[k] = (w, d, pt, loop)
				self.policy.on_block(self, I, st, b, c, node)
			elif ("V", b) in st.mon:
				st.mon[("V", b)] = "block"     # list without such blocks
			elif bb[0] == "elem" and reader_of(self.p, bb[-1]) is not None:
				self.note(I, st, node, None, "block-flow",
				          "a block is written outside the iteration that "
				          "reads it: %s" % show(x))

	def close_out(self, outs, fi):
		"""obligations at normal returns"""
		w = "%s:%d" % (fi.mod.rel, fi.node.lineno)
		for kind, st, v in outs:
			if kind != "return" or not self.policy.success(st, v):
				continue
			for k, x in st.mon.items():
				if isinstance(k, tuple) and k[0] == "B" and not (
						isinstance(x, tuple) and x[1] in self.copy_loops):
					self.cand.append((None, "block-flow", w, fi.full,
					                  "blocks are gathered but not written "
					                  "before %s() returns" % fi.name))
				if isinstance(k, tuple) and k[0] == "IT":
					self.cand.append((x,
					                  "block-flow", w, fi.full,
					                  "%s() can return before all blocks of "
					                  "the source were processed" % fi.name))
			if st.mon.get("sd"):
				self.cand.append((None, "stored-data", w, fi.full, "%s() can "
				                  "return after writing a stored file header "
				                  "without its contents" % fi.name))
			self.policy.at_return(self, st, v, w, fi)


class Policy(object):
	def call(self, m, I, st, name, recv, args, kw, node):
		return None

	def kind_for(self, m, I, st, elem):
		return m.kind, m.cls

	def on_elem(self, m, I, st, elem, loop, node):
		pass

	def on_end(self, m, I, st, itv, node):
		pass

	def is_output(self, m, I, st, h):
		return True

	def on_other(self, m, I, st, x, node):
		pass

	def on_new(self, m, I, st, cls, b, node):
		pass

	def on_part(self, m, I, st, b, sl, node):
		pass

	def on_block(self, m, I, st, b, c, node):
		pass

	def success(self, st, v):
		return True

	def at_return(self, m, st, v, w, fi):
		pass

	def judge(self, m, I, st, elem, w, d, pt, kind):
		return []

	def finish(self, m, res, fi, kn):
		pass

	def on_vend(self, m, st, loop):
		"""a loop over something else than blocks came to its end"""
