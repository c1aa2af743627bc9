"""P06: reconstruction emits every block of every volume."""
from ..absint import FALSE, NONE, K, is_k, mentions
from ..core import Result, analyse, parallel
from ..fs import base, writes
from ..blockflow import Flow, Policy, type_table

ID = "P06"
VOLUME, PACKED, PADDING, STORED = 0x71, 0x74, 0x6C, 0x6A
RECOVERY = (0x78, 0x7A)
PACKER = "_repack"
RECOVER = "_write_recovery_record"


class Rebuild(Policy):
	def __init__(self, partial):
		self.partial = partial
		self.opened = 0
		self.extracted = 0

	# the first block is a volume: it opens the output, then all blocks are
	# of the analysed type
	def kind_for(self, m, I, st, elem):
		if not st.mon.get("opened"):
			return VOLUME, m.types[VOLUME][1]
		if m.kind == 0:
			st.heap[(elem, "header_size")] = K(20)
		return m.kind, m.cls

	def call(self, m, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short in (PACKER, RECOVER) and name.startswith("P:"):
			fi = I._fn(name[2:])
			b = dict(zip(fi.params(), args))
			b.update(kw)
			ks = [("E", v) for v in b.values() if ("E", v) in st.mon]
			out = [v for v in b.values() if base(v)[0] == "h"
			       and writes(base(v)[3])]
			if ks and out:
				w, d, pt, loop = st.mon[ks[0]]
				m.copy_loops[loop] = 1
				if short == RECOVER:
					w = min(w + 1, 3)
				else:
					if not w:
						m.note(I, st, node, loop, "block-flow", "the file data "
						       "is written before its RAR block header")
					d = min(d + 1, 3)
				st.mon[ks[0]] = (w, d, pt, loop)
			t = st.fresh(("r", I.site(st, node), short, ()))
			return m._raise(st, "Any") + [("ok", st, t)]
		if short == "_extract" and args and m.kind == STORED:
			for k in list(st.mon):
				if isinstance(k, tuple) and k[0] == "E" and k[1] == args[0]:
					st.mon[("X", args[0])] = True
					self.extracted += 1
					m.copy_loops[st.mon[k][3]] = 1
			return [("ok", st, K(True))]
		return None

	def judge(self, m, I, st, elem, w, d, pt, kind):
		k = kind[2] if is_k(kind) else None
		x = st.mon.pop(("X", elem), None)
		if k == VOLUME:
			if w or d or pt:
				yield "an SRR block is written to the archive"
			return
		if k in (0x69, STORED, 0x6B):
			if w or d or pt:
				yield "an SRR block is written to the archive"
			if k == STORED and not x and not self.partial:
				yield "a stored file is not extracted"
			return
		if k == PADDING:
			if w:
				yield "an SRR block is written to the archive"
			if pt != 1:
				yield "the padding bytes of the volume are not written once"
			return
		if w == 0:
			yield "a RAR block is not written to the archive"
		if w > 1:
			yield "a RAR block is written more than once"
		if pt:
			yield "a RAR block is written incompletely"
		if k == PACKED and d != 1:
			yield "the packed data of a file is not written once"

	def on_part(self, m, I, st, b, sl, node):
		hs = ("attr", b, "header_size")
		if st.heap.get((b, "rawtype")) == K(PADDING) and not (
				sl[0] == "slice" and sl[1] == hs and sl[2] == NONE):
			m.note(I, st, node, None, "block-flow", "the padding is not "
			       "everything after the SRR header of its block")

	def success(self, st, v):
		return v not in (FALSE, K(-1))

	def may_drop(self, kind):
		return kind in (0x69, STORED, 0x6B, VOLUME)

	def at_return(self, m, st, v, w, fi):
		for k in st.mon:
			if isinstance(k, tuple) and k[0] == "open":
				m.cand.append((None, "output-closed", w, fi.full, "%s() can "
				               "return without closing the archive it wrote"
				               % fi.name))


class RFlow(Flow):
	opaque = Flow.opaque + (
		"rescene.main:initialize_rar_repository", "rescene.main:_locate_file",
		"rescene.main:get_rar_data_object", "rescene.main:_flag_check_srr",
		"rescene.main:_opath")

	def fs_open(self, I, st, path, mode, h, node):
		if writes(mode):
			self.policy.opened += 1
			for k in [k for k in st.mon if isinstance(k, tuple) and
			          k[0] == "open"]:
				del st.mon[k]
			st.mon["opened"] = True
			st.mon[("open", h)] = True

	def fs_close(self, I, st, h, node):
		st.mon.pop(("open", h), None)


def run(p, tier):
	res = Result(
		"block flow: on every path of reconstruct(), for every block type of "
		"an SRR, the RAR blocks are written to the volume that is open "
		"exactly once and whole, file data directly through the packer after "
		"its header, padding without its SRR header; SRR blocks never reach "
		"the archive; stored files are extracted")
	fi = p.func("rescene.main", "reconstruct")
	t = type_table(p)
	t[0] = ("cleared end block", "rescene.rar:RarBlock")
	ps = fi.params()
	def one(r, kind, kn, cls, partial):
		pol = Rebuild(partial)
		m = RFlow(p, kind, cls, pol)
		m.types = t
		args = {}
		for n, v in (("srr_part", K("")), ("extract_files", K(True)),
		             ("rar_executable_dir", NONE), ("rar_mt", NONE)):
			if n in ps and not (partial and n == "srr_part"):
				args[n] = K(False) if partial and n == "extract_files" else v
		I, outs = analyse(p, r, m, fi, LIMIT=4, args=args)
		m.close_out(outs, fi)
		for rule, where, fn, msg in m.findings():
			r.bad(rule, where, fn, msg)
		w = "%s:%d" % (fi.mod.rel, fi.node.lineno)
		if outs and not pol.opened:
			r.bad("block-flow", w, fi.full,
			      "no archive is opened for a volume block")
		if outs and kind == STORED and not pol.extracted and not partial:
			r.bad("block-flow", w, fi.full, "stored files are not extracted")
		if outs and not m.copy_loops and not pol.may_drop(kind):
			r.bad("block-flow", w, fi.full, "%s() does not write the "
			      "blocks it reads (block type 0x%02X)" % (fi.name, kind))
		r.notes.append("copy loops for type 0x%02X: %s" % (
			kind, sorted(m.copy_loops)))
		r.ok("reconstruct (%s), block type 0x%02X (%s): %d paths" % (
			"selected volumes" if partial else "everything", kind, kn,
			len(outs)))

	jobs = []
	for kind, (kn, cls) in sorted(t.items()):
		for partial in (False, True):
			jobs.append(lambda r, a=(kind, kn, cls, partial): one(r, *a))
	parallel(res, jobs)
	res.need(24, "block flows")
	return res
