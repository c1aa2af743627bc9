"""P01: editing the stored files of an SRR never loses the SRR."""
from ..absint import show
from ..core import Result, analyse
from ..fs import FSMonitor, base, handle_path, writes

ID = "P01"


class Edit(FSMonitor):
	"""Typestate of the edited SRR (O) and its replacement (T).

	mon: ('F', path) -> 'orig' | 'new' | 'gone'      file content by path
	     ('h', handle) -> 'open'                     unflushed write handles
	     'fault'    copying was interrupted by an exception
	     'swapped'  the new content carries the original name"""
	events = FSMonitor.events + (".srr_data", ".block_bytes")
	single_fault = True
	opaque = ("rescene.main:_fire",)

	def __init__(self, p, orig):
		FSMonitor.__init__(self, p)
		self.orig = orig
		self.swaps = set()

	def rep(self, I, st, node, msg):
		self.report(I, st, node, "stored-edit-atomicity", msg)

	def temps(self, st, kind=("new",)):
		return [k[1] for k, v in st.mon.items()
		        if isinstance(k, tuple) and k[0] == "F" and v in kind
		        and k[1] != self.orig]

	def is_orig(self, path):
		return base(path) == self.orig

	def fs_temp(self, I, st, path, kind, node):
		if kind == "file":
			st.mon[("F", path)] = "new"

	def fs_open(self, I, st, path, mode, h, node):
		if not writes(mode):
			return
		if self.is_orig(path):
			self.rep(I, st, node, "the SRR being edited is opened for "
			         "writing in place (mode %r)" % mode)
		st.mon[("F", path)] = "new"
		st.mon[("h", h)] = "open"

	def fs_close(self, I, st, h, node):
		if base(h)[0] == "h":
			st.mon.pop(("h", h), None)

	def lost(self, I, st, node):
		if st.mon.get(("F", self.orig)) == "gone" and not self.temps(st):
			self.rep(I, st, node, "both the original SRR and its "
			         "replacement are removed")

	def fs_remove(self, I, st, path, node):
		if self.is_orig(path):
			if not self.temps(st):
				self.rep(I, st, node, "the original SRR is removed while no "
				         "replacement exists")
			self.before_swap(I, st, node)
			st.mon[("F", self.orig)] = "gone"
		elif ("F", path) in st.mon:
			st.mon.pop(("F", path))
			self.lost(I, st, node)

	def before_swap(self, I, st, node):
		self.swaps.add(getattr(node, "lineno", 0))
		for k in st.mon:
			if isinstance(k, tuple) and k[0] == "h":
				self.rep(I, st, node, "the original SRR is given up while "
				         "the replacement is still being written (not "
				         "closed)")
				break
		if st.mon.get("fault"):
			self.rep(I, st, node, "the original SRR is replaced although "
			         "copying its blocks was interrupted by an exception")

	def fs_rename(self, I, st, src, dst, node, name):
		if self.is_orig(src):
			# moving the original aside keeps a complete copy
			st.mon[("F", dst)] = "new"
			st.mon[("F", self.orig)] = "gone"
			return
		if self.is_orig(dst):
			self.before_swap(I, st, node)
			if st.mon.get(("F", src)) is None:
				self.rep(I, st, node, "a file that is not the written "
				         "replacement takes the place of the SRR")
			st.mon.pop(("F", src), None)
			st.mon[("F", self.orig)] = "orig"
			st.mon["swapped"] = True

	def _mark(self, st):
		if not st.mon.get("swapped") and self.temps(st):
			st.mon["fault"] = True

	def on_raise(self, I, st, exc, node):
		import ast
		if isinstance(node, (ast.For, ast.comprehension)):
			self._mark(st)

	def fs_write(self, I, st, h, data, node):
		p = handle_path(h)
		if self.is_orig(p):
			self.rep(I, st, node, "the SRR being edited is overwritten in "
			         "place")

	def _raise(self, st, exc="OSError"):
		r = FSMonitor._raise(self, st, exc)
		return r

	def other(self, I, st, name, recv, args, kw, node):
		if name.endswith((".srr_data", ".block_bytes")) and \
				recv is not None and self.raise_mode != "none":
			if any(f.exc is not None for f in st.frames):
				return None
			s2 = st.copy()
			self._mark(s2)
			t = st.fresh(("r", I.site(st, node), name.split(".")[-1],
			              (recv,)))
			return [("raise", s2, ("exc", "Any")), ("ok", st, t)]
		if name == ".write" and recv is not None and base(recv)[0] == "h":
			if any(f.exc is not None for f in st.frames):
				return [("ok", st, ("k", "NoneType", None))]
			s2 = st.copy()
			self._mark(s2)
			self.fs_write(I, st, recv, args[0] if args else None, node)
			return [("raise", s2, ("exc", "OSError")),
			        ("ok", st, ("k", "NoneType", None))]
		return None


def run(p, tier):
	res = Result(
		"typestate over every normal and exceptional path of the stored-file "
		"editing entry points: the original SRR may only be removed/replaced "
		"by a completely written and closed replacement; no path removes "
		"both; a failure before the swap leaves the original and no "
		"temporary file; a normal return leaves no temporary file")
	for name in ("add_stored_files", "remove_stored_files",
	             "rename_stored_file"):
		fi = p.func("rescene.main", name)
		orig = ("param", fi.params()[0])
		m = Edit(p, orig)
		# the path that a block remembers is the SRR it was read from
		I, outs = None, None
		mon = {("F", orig): "orig"}
		m.fname_alias = orig
		I, outs = analyse(p, res, AliasEdit.wrap(m), fi, mon=mon)
		n_norm = 0
		for kind, st, v in outs:
			left = m.temps(st)
			f = st.mon.get(("F", orig))
			if kind == "return":
				n_norm += 1
				if f == "gone":
					res.bad("stored-edit-atomicity", fi.mod.rel + ":%d" %
					        fi.node.lineno, fi.full, "%s() can return without "
					        "an SRR under the original name" % name)
				if left:
					res.bad("stored-edit-atomicity", fi.mod.rel + ":%d" %
					        fi.node.lineno, fi.full, "%s() can return "
					        "leaving a temporary file behind" % name)
				res.ok()
			else:
				if f == "orig" and left and not st.mon.get("swapped"):
					res.bad("stored-edit-cleanup", fi.mod.rel + ":%d" %
					        fi.node.lineno, fi.full, "a failure in %s() before "
					        "the swap leaves a temporary file behind" % name)
				res.ok()
		for r in m.reports:
			res.bad(r["rule"], r["where"], r["function"], r["message"],
			        r["via"])
		res.ok("%s: %d swap point(s), %d outcome path(s)" %
		       (name, len(m.swaps), len(outs)))
		if not m.swaps:
			res.notes.append("%s has no swap point" % name)
	res.need(10, "edit outcomes")
	res.assumptions = [
		"at most one operation fails per call (no second failure while the "
		"first one is cleaned up)",
		"os.close/os.fdopen/os.path queries do not fail",
		"mkstemp/open/remove/rename/write/close fail without partial effect"]
	return res


class AliasEdit(object):
	@staticmethod
	def wrap(m):
		import types

		def attr_load(self, I, st, b, name, node):
			# a block read from the SRR keeps the path it was read from
			if name == "fname" and ("F", ("attr", b, name)) not in st.mon \
					and (b, name) not in st.heap:
				return self.orig
			return None
		m.attr_load = types.MethodType(attr_load, m)
		return m
