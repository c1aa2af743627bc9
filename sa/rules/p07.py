"""P07: edits and merges keep every block they are not asked to change."""
import ast

from ..absint import FALSE, K, NONE, is_k, mentions
from ..core import Result, analyse, parallel
from ..fs import FSMonitor, base
from ..blockflow import Policy, type_table
from .p05 import flow_jobs

ID = "P07"
STORED = 0x6A


class Edit(Policy):
	targets = None

	def judge(self, m, I, st, elem, w, d, pt, kind):
		k = kind[2] if is_k(kind) else None
		if w == 0 and d == 0 and not pt:
			if not self.dropped_ok(st, elem, k):
				yield "a block of the SRR is not copied"
			return
		if w == 0:
			yield "a block of the SRR is copied without its header"
		if w > 1:
			yield "a block of the SRR is copied more than once"
		if k == STORED and d == 0:
			yield "a stored file is copied without its contents"
		if d > 1:
			yield "the contents of a block are copied more than once"
		if pt:
			yield "a block of the SRR is copied incompletely"

	def dropped_ok(self, st, elem, k):
		return False

	def on_block(self, m, I, st, b, c, node):
		if c[0] == "data" and st.mon.get("last") != ("whole", b):
			m.note(I, st, node, None, "block-flow", "the contents of a stored "
			       "file do not directly follow its header")
		st.mon["last"] = (c[0], b)

	def on_new(self, m, I, st, cls, b, node):
		st.mon["last"] = "new"


class Add(Edit):
	"""the new files go in once, whatever the SRR holds"""

	def __init__(self):
		self.added = False

	def on_new(self, m, I, st, cls, b, node):
		Edit.on_new(self, m, I, st, cls, b, node)
		if cls != "SrrStoredFileBlock":
			return
		self.added = True
		if st.mon.get("added") == "before":
			m.note(I, st, node, None, "block-flow",
			       "the new files can be added more than once")
		st.mon["added"] = "now"

	def on_vend(self, m, st, loop):
		st.mon["vends"] = st.mon.get("vends", frozenset()) | {loop}

	def at_return(self, m, st, v, w, fi):
		if m.store_loops and not st.mon.get("added") and \
				not st.mon.get("vends", frozenset()) & m.store_loops:
			m.cand.append((None, "block-flow", w, fi.full, "%s() can succeed "
			               "without adding the new files" % fi.name))

	def judge(self, m, I, st, elem, w, d, pt, kind):
		if st.mon.get("added"):
			st.mon["added"] = "before"
		return list(Edit.judge(self, m, I, st, elem, w, d, pt, kind))

	def finish(self, m, res, fi, kn):
		if not self.added:
			res.bad("block-flow", "%s:%d" % (fi.mod.rel, fi.node.lineno),
			        fi.full, "%s() never adds the new files when the SRR "
			        "holds only a %s block" % (fi.name, kn))


class Remove(Edit):
	"""only the files that were asked for may go"""

	def dropped_ok(self, st, elem, k):
		if k != STORED:
			return False
		names = ("param", self.target_param)
		for f, v in st.facts.items():
			if v and f[0] == "cmp" and f[1] in ("in", "==") and \
					mentions(f, elem) and mentions(f, names):
				return True
		return False


class Merge(Edit):
	def judge(self, m, I, st, elem, w, d, pt, kind):
		if kind == K(0x69):
			if w:
				yield "more than one SRR header is copied"
			return
		for x in Edit.judge(self, m, I, st, elem, w, d, pt, kind):
			yield x

	def on_new(self, m, I, st, cls, b, node):
		if cls == "SrrHeaderBlock":
			if st.mon.get("hdr"):
				m.note(I, st, node, None, "srr-header",
				       "the SRR header is written twice")
			st.mon["hdr"] = True

	def on_block(self, m, I, st, b, c, node):
		if not st.mon.get("hdr"):
			m.note(I, st, node, None, "srr-header",
			       "a block is written before the SRR header")
		Edit.on_block(self, m, I, st, b, c, node)

	def may_drop(self, kind):
		return kind == 0x69

	def at_return(self, m, st, v, w, fi):
		if not st.mon.get("hdr"):
			m.cand.append((None, "srr-header", w, fi.full, "%s() can succeed "
			               "without an SRR header" % fi.name))


class Rename(FSMonitor):
	"""replacing one stored file block inside its SRR: everything before the
	block, the new header, everything after the old header"""
	events = ("open:w", "tempfile.mkstemp", "os.fdopen", "os.rename",
	          "os.replace", ".write", ".seek", "_write_rawdata")
	raise_mode = "none"
	force_inline = ()

	def __init__(self, p, slf):
		FSMonitor.__init__(self, p)
		self.slf = slf
		self.seq = []

	def other(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short == "block_bytes" and recv == self.slf:
			new = (recv, "header_size") in st.heap or \
				(recv, "_rawdata") in st.heap
			st.mon[("log", len(st.mon))] = "new" if new else "old"
			return [("ok", st, ("c", "block_bytes", (recv, K(new))))]
		return None


def in_loop(fi, node):
	ids = getattr(fi, "_inloop", None)
	if ids is None:
		ids = fi._inloop = set()
		for lp in ast.walk(fi.node):
			if isinstance(lp, (ast.While, ast.For, ast.comprehension)):
				ids.update(id(x) for x in ast.walk(lp))
	return id(node) in ids


def check_rename(p, res):
	"""positions come from the attributes the block had before its header
	was rebuilt"""
	fi = None
	for c in p.modules["rescene.rar"].all_classes.values():
		if "renameto" in c.methods:
			fi = c.methods["renameto"]
	if fi is None:
		return
	slf = ("self", fi.cls.full)
	pos, old_hs = ("attr", slf, "block_position"), ("attr", slf, "header_size")

	class M(Rename):
		def fs_write(self, I, st, h, data, node):
			log = st.mon.get("log", ())
			b = base(data)
			if b[0] == "c" and b[1] == "block_bytes":
				item = ("header", b[2][1] == K(True))
			elif b[0] == "r" and b[2] in ("read", ".read") and \
					st.heap.get((b, "$at")) is not None:
				at = st.heap.get((b, "$at"))
				item = ("copy", at, b[3][1:] if len(b[3]) > 1 else ())
			else:
				item = ("other", data)
			st.mon["log"] = log + (item,)

		def other(self, I, st, name, recv, args, kw, node):
			r = Rename.other(self, I, st, name, recv, args, kw, node)
			if r is not None:
				return r
			if recv is not None and base(recv)[0] == "h":
				k = (recv, "$pos")
				if name == ".seek" and args:
					st.heap[k] = args[0]
					return [("ok", st, NONE)]
				if name == ".read":
					at = st.heap.get(k, K(0))
					if in_loop(st.frames[-1].fi, node):
						at = None
					t = st.fresh(("r", I.site(st, node), "read",
					              (recv,) + tuple(args)))
					st.heap[(t, "$at")] = at
					if args:
						st.heap[k] = ("op", "Add", at, args[0])
					else:
						st.heap[k] = ("eof",)
					return [("ok", st, t)]
			return None
	m = M(p, slf)
	# the helpers that rebuild the header
	m.force_inline = tuple(
		f.full for c in p.mro(fi.cls) for f in c.methods.values()
		if any(isinstance(n, ast.Attribute) and n.attr == "_rawdata" and
		       isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)))
	I, outs = analyse(p, res, m, fi)
	good_after = (("op", "Add", pos, old_hs), ("op", "Add", old_hs, pos))
	w = "%s:%d" % (fi.mod.rel, fi.node.lineno)
	decided = 0
	for kind, st, v in outs:
		log = st.mon.get("log", ())
		if kind != "return" or not log or \
				any(x[0] == "other" for x in log):
			continue
		decided += 1
		heads = [i for i, x in enumerate(log) if x[0] == "header"]
		if len(heads) != 1:
			res.bad("rename-flow", w, fi.full, "the renamed block is written "
			        "%d times" % len(heads))
			continue
		i = heads[0]
		if not log[i][1]:
			res.bad("rename-flow", w, fi.full,
			        "the old header is written again instead of the new one")
		before, after = log[:i], log[i + 1:]
		if len(before) == 1 and before[0][2]:
			if before[0][1] not in (K(0), None) or before[0][2] != (pos,):
				res.bad("rename-flow", w, fi.full, "the data before the "
				        "renamed block is not copied exactly up to the block")
		elif not before:
			res.bad("rename-flow", w, fi.full, "the blocks before the renamed "
			        "one are not copied")
		if len(after) == 1 and not after[0][2]:
			if after[0][1] not in good_after:
				res.bad("rename-flow", w, fi.full, "the data after the "
				        "renamed block is not copied from the end of its old "
				        "header")
		elif not after:
			res.bad("rename-flow", w, fi.full, "the contents of the renamed "
			        "file and the blocks after it are not copied")
		elif len(after) == 1:
			res.bad("rename-flow", w, fi.full, "the data after the renamed "
			        "header is copied only up to a limit")
	res.ok("%s: %d path(s) decided" % (fi.full, decided))
	res.notes.append("rename sequence decided on %d of %d paths" %
	                 (decided, len(outs)))


def run(p, tier):
	res = Result(
		"block flow over every path and every block type: stored file edits "
		"and merges write each block of their source exactly once (header "
		"and, for stored files, directly followed contents); only the blocks "
		"the caller asked for may be left out or changed")
	kinds = type_table(p)
	kinds[0] = ("cleared block", "rescene.rar:RarBlock")
	jobs = flow_jobs(p, "rescene.main", "add_stored_files", Add, kinds)
	fi = p.func("rescene.main", "remove_stored_files")
	Remove.target_param = fi.params()[1]
	jobs += flow_jobs(p, "rescene.main", "remove_stored_files", Remove, kinds)
	jobs += flow_jobs(p, "rescene.main", "merge_srrs", Merge, kinds)
	parallel(res, jobs)
	check_rename(p, res)
	res.need(40, "block flows")
	return res
