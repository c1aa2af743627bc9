"""P14: the tools exit with a failure status when the operation failed."""
import ast

from ..absint import FALSE, K, NONE, TRUE, is_k, mentions, show
from ..core import Result, analyse, parallel
from ..crc import ZERO
from ..fs import FSMonitor, base
from ..project import AnalysisError, loc

ID = "P14"
GENERIC = ("OSError", "ValueError", "AttributeError", "RuntimeError",
           "KeyboardInterrupt")
FNF = "rescene.main:FileNotFound"
RNF = "rescene.main:RarNotFound"

#: operation -> (extra exceptions, outcomes [(value, failed)])
SRR_OPS = {
	"rescene.main:create_srr": ((FNF,), [(TRUE, 0), (FALSE, 0)]),
	"rescene.main:reconstruct": ((FNF, RNF, "rescene.main:EmptyRepository"),
	                             [(NONE, 0), (K(-1), 0), (FALSE, 1)]),
	"rescene.main:add_stored_files": ((FNF,), [(NONE, 0)]),
	"rescene.main:extract_files": ((), ["list"]),
	"rescene.srr:verify_extracted_files": (
		(), [(K(0), 0), (K(10), 0), (K(1), 1), (K(2), 1)]),
	"rescene.srr:display_info": ((), [(NONE, 0)]),
	"rescene.main:print_details": ((), [(NONE, 0)]),
	"rescene.utility:replace_result": ((), [(NONE, 0)]),
	"rescene.utility:create_temp_file_name": ((), ["value"]),
}
INCOMPLETE = "resample.main:IncompleteSample"
SRS_OPS = {
	".profile_sample": ((INCOMPLETE,), ["pair"]),
	".create_srs": ((), [(NONE, 0)]),
	".load_srs": ((), ["pair"]),
	".find_sample_streams": ((), ["value"]),
	".extract_sample_streams": (("resample.main:InvalidMatchOffset",),
	                            ["pair"]),
	".rebuild_sample": ((), ["value"]),
	"rescene.utility:replace_result": ((), [(NONE, 0)]),
	"rescene.utility:create_temp_file_name": ((), ["value"]),
	"resample.main:file_type_info": (
		("resample.main:InvalidPathValue",), ["value"]),
	"resample.main:sample_class_factory": ((), ["value"]),
}
AUTO_OPS = {
	":generate_srr": ((FNF, "AssertionError",
	                   "resample.fpcalc:ExecutableNotFound"),
	                  [(TRUE, 0), (FALSE, 1)]),
	":create_srr_for_subs": ((), ["value"]),
	"shutil.copy": ((), [(NONE, 0)]),
}
RETAG_OPS = {
	":fix_tagging": ((), [(TRUE, 0), (FALSE, 0)]),
	"rescene.main:info": ((), ["value"]),
	"rescene.main:extract_files": ((), ["value"]),
}


class Exit(FSMonitor):
	raise_mode = "none"
	phi_by_key = True
	inline_small = 12

	def __init__(self, p, ops, entry_modules):
		FSMonitor.__init__(self, p)
		self.ops = ops
		self.done = {}
		self.events = tuple(k if ":" in k and not k.startswith(":") else
		                    k.lstrip(":") for k in ops) + \
			("parser.exit", ".exit", "os.path.exists")
		self.opaque = tuple(k for k in ops) + (
			"rescene.srr:MessageThread.run",)

	def rep(self, where, fn, msg):
		k = (where, msg)
		if k in self._seen:
			return
		self._seen.add(k)
		self.reports.append({"rule": "exit-status", "where": where,
		                     "function": fn, "message": msg, "via": [],
		                     "extra": None})

	def op_of(self, name):
		full = name[2:] if name[:2] in ("P:", "N:") else name
		short = full.split(":")[-1].split(".")[-1]
		for k in self.ops:
			if k == full or (k[0] in ".:" and k[1:] == short):
				return k
		return None

	def other(self, I, st, name, recv, args, kw, node):
		if ":" not in name and name.split(".")[-1] in (
				"print", "print_exc", "join", "start", "sleep", "format_help",
				"print_help"):
			return None
		k = self.op_of(name)
		if k is None:
			if name.startswith("P:") and "MessageThread" in name:
				return [("ok", st, NONE)]
			return None
		short = k.split(":")[-1].lstrip(".")
		self.done[short] = self.done.get(short, 0) + 1
		out = []
		extra, vals = self.ops[k]
		for e in tuple(extra) + GENERIC:
			s2 = st.copy()
			s2.mon["failed"] = short
			out.append(("raise", s2, ("exc", e)))
		for i, v in enumerate(vals):
			s2 = st.copy() if i < len(vals) - 1 else st
			if v == "list":
				# all files extracted / some not: loops over the list agree
				t = s2.fresh(("r", I.site(s2, node), short, ()))
				s3 = s2.copy()
				s2.mon[("L", t)] = "good"
				out.append(("ok", s2, t))
				s3.mon[("L", t)] = "bad"
				s3.mon["failed"] = short
				out.append(("ok", s3, t))
			elif v in ("pair", "value"):
				out.append(("ok", s2, s2.fresh(
					("r", I.site(s2, node), short, ()))))
			else:
				if v[1]:
					s2.mon["failed"] = short
				out.append(("ok", s2, v[0]))
		return out

	def iterate(self, I, st, itv, elem, node):
		if ("L", itv) in st.mon:
			st.mon[("LE", elem)] = itv

	def iter_end(self, I, st, itv, node):
		if st.mon.get(("L", itv)) == "bad" and not st.mon.pop(
				("saw", itv), None):
			st.mon["dead"] = True

	def on_branch(self, I, st, t, val, node):
		while t[0] == "not":
			t, val = t[1], not val
		if not val:
			b = base(t)
			# (name, success) of an extracted file
			if b[0] == "sub" and b[2] == K(1) and ("LE", b[1]) in st.mon:
				l = st.mon[("LE", b[1])]
				if st.mon.get(("L", l)) == "good":
					st.mon["dead"] = True
				st.mon[("saw", l)] = True
			# an input named on the command line does not exist
			if b[0] == "c" and b[1] in ("os.path.exists", "os.path.isfile") \
					and self.is_input(b[2][0]):
				st.mon["failed"] = "input file missing"

	def is_input(self, t):
		b = base(t)
		return b[0] == "elem" and "parse_args" in repr(b)

	def truth(self, I, st, t):
		if t[0] == "c" and t[1] == "len" and ("nonempty", t[2][0]) in st.mon:
			return True
		if ("nonempty", t) in st.mon:
			return True
		if t[0] == "op" and t[1] == "Add" and is_k(t[3]) and \
				isinstance(t[3][2], int) and t[3][2] > 0:
			return True
		if t[0] == "cmp" and t[1] == "==" and t[3] == ZERO:
			r = self.truth(I, st, t[2])
			return None if r is None else not r
		if t[0] == "phi":
			ps = I.parts(t)
			if len(ps) > 1 and all(x[0] != "phi" for x in ps):
				ds = {I.decide(x, st) for x in ps}
				if len(ds) == 1:
					return ds.pop()
		return None

	def call(self, I, st, name, recv, args, kw, node):
		if name in (".append", ".add") and recv is not None:
			st.mon[("nonempty", recv)] = True
		return FSMonitor.call(self, I, st, name, recv, args, kw, node)

	def merge_key(self, st):
		return (st.mon.get("failed"),
		        tuple(sorted((repr((k, v)) for k, v in st.mon.items()
		                      if k != "failed"))) if len(st.mon) > 1 else ())


def success(I, v):
	"""may the process end with status 0 for this exit argument"""
	for x in I.parts(v):
		if is_k(x):
			if x[2] is None or x[2] is False or x[2] == 0:
				return True
		elif x[0] == "not" or x[0] == "cmp":
			return True
	return False


def wrapped(p, rel, default):
	"""does the script hand main()'s result to sys.exit"""
	for m in p.modules.values():
		if m.rel == rel:
			return hands_on(m.tree)
	return default


def hands_on(tree):
	names = {"main"}           # what holds or gives main()'s result

	def given(n):
		return any(isinstance(x, ast.Call) and (
			isinstance(x.func, ast.Name) and x.func.id in names or
			isinstance(x.func, ast.Attribute) and x.func.attr in names) or
			isinstance(x, ast.Name) and x.id in names - {"main"}
			for x in ast.walk(n))
	for _ in range(4):
		for n in ast.walk(tree):
			if isinstance(n, ast.Assign) and given(n.value):
				names |= {x.id for t in n.targets for x in ast.walk(t)
				          if isinstance(x, ast.Name)}
			elif isinstance(n, ast.FunctionDef) and any(
					isinstance(x, ast.Return) and x.value is not None and
					given(x.value) for x in ast.walk(n)):
				names.add(n.name)
	return any(isinstance(n, ast.Call) and ast.unparse(n.func) in (
		"sys.exit", "exit", "SystemExit") and any(given(a) for a in n.args)
		for n in ast.walk(tree))


def tool(p, res, fi, ops, args, returns_count, label, need, opts=None):
	m = Exit(p, ops, ())
	I, outs = analyse(
		p, res, m, fi, LIMIT=8, args=args, MAX_STEPS=400000)
	n = 0
	for kind, st, v in outs:
		failed = st.mon.get("failed")
		if "dead" in st.mon:
			continue
		if kind == "raise":
			if v[0] == "exc" and v[1] == "SystemExit":
				code = v[2] if len(v) > 2 else NONE
			else:
				n += 1
				continue          # a traceback: not a success
		else:
			code = v if returns_count else NONE
			if returns_count == "returns-ok":
				code = NONE
		n += 1
		if failed and success(I, code):
			m.rep("%s:%d" % (fi.mod.rel, fi.node.lineno), fi.full,
			      "the tool can exit with success although %s failed" %
			      failed)
	for r in m.reports:
		res.bad(r["rule"], r["where"], r["function"], r["message"])
	if outs and len(m.done) < need:
		raise AnalysisError("%s: only the operations %s were reached" %
		                    (label, sorted(m.done)))
	res.ok("%s: %d ends, operations %s" % (label, n, m.done))
	return I, outs, m


def run(p, tier):
	res = Result(
		"exit status: in the entry points of the tools, with each operation "
		"(create, reconstruct, extract, verify, store, profile, rebuild, ...) "
		"failing in turn by exception, Ctrl+C or result, no path ends with "
		"exit status 0; the SRS tool called as a function raises instead")
	jobs = []

	def job(*a):
		jobs.append(lambda r: tool(p, r, *a) and None)

	fi = p.func("resample.srs", "main")
	if "no_exit" in fi.params():
		job(fi, SRS_OPS, {"no_exit": FALSE}, wrapped(p, "bin/srs.py", False),
		    "srs", 8)
		job(fi, SRS_OPS, {"no_exit": TRUE}, "returns-ok",
		    "srs (called from other tools)", 8)
	else:
		job(fi, SRS_OPS, {}, False, "srs", 8)
	job(p.func("rescene.srr", "main"), SRR_OPS, {},
	    wrapped(p, "bin/srr.py", False), "srr", 7)
	for rel, ops, need in (("bin/pyrescene.py", AUTO_OPS, 2),
	                       ("bin/retag.py", RETAG_OPS, 3)):
		for mod in p.modules.values():
			if mod.rel == rel:
				f = p.func(mod.name, "main")
				job(f, ops, {}, wrapped(p, rel, False), rel, need)
	parallel(res, jobs)
	res.need(5, "tools")
	return res
