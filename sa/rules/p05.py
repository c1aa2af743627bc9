"""P05: a created SRR holds every block of every volume."""
from ..absint import FALSE, NONE, TRUE, K, is_k
from ..core import Result, analyse, parallel
from ..fs import base
from ..blockflow import Flow, Policy, type_table

ID = "P05"


class Create(Policy):
	def judge(self, m, I, st, elem, w, d, pt, kind):
		if w == 0:
			yield "a block of the archive is not written to the SRR"
		elif w > 1:
			yield "a block of the archive is written more than once"
		if pt:
			yield "a block of the archive is written incompletely"

	def on_elem(self, m, I, st, elem, loop, node):
		if not st.mon.get("vol"):
			m.note(I, st, node, loop, "volume-header", "the blocks of a "
			       "volume are written without its RAR file block")
		st.mon["vol"] = "used"

	def on_end(self, m, I, st, itv, node):
		st.mon.pop("vol", None)

	def on_new(self, m, I, st, cls, b, node):
		if cls == "SrrHeaderBlock":
			if st.mon.get("hdr"):
				m.note(I, st, node, None, "srr-header",
				       "the SRR header is written twice")
			st.mon["hdr"] = True
			return
		if not st.mon.get("hdr"):
			m.note(I, st, node, None, "srr-header",
			       "a block is written before the SRR header")
		if cls == "SrrRarFileBlock":
			if st.mon.get("vol"):
				m.note(I, st, node, None, "volume-header", "two RAR file "
				       "blocks are written for one volume")
			st.mon["vol"] = "yes"

	def success(self, st, v):
		return v != FALSE

	def at_return(self, m, st, v, w, fi):
		if not st.mon.get("hdr"):
			m.cand.append((None, "srr-header", w, fi.full, "%s() can succeed "
			               "without an SRR header" % fi.name))


def run_flow(p, res, mod, name, policy, kinds, mon=None, LIMIT=4, params=None):
	parallel(res, flow_jobs(p, mod, name, policy, kinds, mon, LIMIT, params))


def flow_jobs(p, mod, name, policy, kinds, mon=None, LIMIT=4, params=None):
	"""one job per block type"""
	fi = p.func(mod, name)

	def one(res, kind, kn, cls):
		m = Flow(p, kind, cls, policy())
		kw = {"args": params} if params else {}
		I, outs = analyse(p, res, m, fi, mon=dict(mon or {}), LIMIT=LIMIT,
		                  **kw)
		m.close_out(outs, fi)
		if outs:
			m.policy.finish(m, res, fi, kn)
		for rule, where, fn, msg in m.findings():
			res.bad(rule, where, fn, msg)
		if not m.copy_loops and outs and not m.policy.may_drop(kind):
			res.bad("block-flow", "%s:%d" % (fi.mod.rel, fi.node.lineno),
			        fi.full, "%s() does not write the blocks it reads "
			        "(block type 0x%02X)" % (name, kind))
		res.ok("%s, block type 0x%02X (%s): %d paths, copy loops at %s" % (
			name, kind, kn, len(outs), sorted(m.copy_loops)))
	return [lambda r, a=(k, kn, c): one(r, *a)
	        for k, (kn, c) in sorted(kinds.items())]


Policy.may_drop = lambda self, kind: False


def rar_kinds(p):
	t = type_table(p)
	r = {k: v for k, v in t.items() if 0x72 <= k <= 0x7B}
	r[0x6C] = t.get(0x6C, ("padding", None))
	r[0] = ("cleared block", "rescene.rar:RarBlock")
	return r


def run(p, tier):
	res = Result(
		"block flow: on every path of the creation functions, for every "
		"block type the reader can yield, each block of each volume is "
		"written to the SRR exactly once and whole, in reading order, after "
		"the RAR file block of its volume; the SRR header comes first; no "
		"volume of the list is skipped silently")
	jobs = []
	for name in ("create_srr", "create_srr_single_volume", "create_srr_fh"):
		jobs += flow_jobs(p, "rescene.main", name, Create, rar_kinds(p))
	parallel(res, jobs)
	res.need(30, "block flows")
	return res
