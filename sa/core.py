"""Result object shared by the rule modules."""
import os
import signal
import time

from . import project, absint

END = time.time() + 660         # of the whole check


class Result(object):
	def __init__(self, rule):
		self.rule = rule            # one paragraph: the rule applied
		self.violations = []        # dicts: rule, where, function, message
		self.obligations = 0        # proof obligations / sites decided
		self.failed = 0
		self.functions = set()
		self.sites = []             # samples of what was decided
		self.paths = 0
		self.steps = 0
		self.notes = []
		self.assumptions = []
		self.incomplete = False     # some function exceeded the budget
		self._seen = set()

	def ok(self, what=None):
		self.obligations += 1
		if what is not None and len(self.sites) < 400:
			self.sites.append(what)

	def bad(self, rule, where, function, message, via=None):
		k = (rule, where, message)
		if k in self._seen:
			return
		self._seen.add(k)
		self.obligations += 1
		self.failed += 1
		self.violations.append({"rule": rule, "where": where,
		                        "function": function, "message": message,
		                        "via": via or []})

	def absorb(self, interp, monitor, outs=()):
		"""take over the findings of one abstract interpretation"""
		for r in monitor.reports:
			self.bad(r["rule"], r["where"], r["function"], r["message"],
			         r["via"])
		self.paths += len(outs)
		self.steps += interp.steps
		for f in interp.stats["inlined"]:
			self.functions.add(f)

	def need(self, n, what):
		"""non vacuity: the rule must have found at least n things"""
		if self.obligations < n and not self.incomplete and \
				not self.violations:
			raise project.AnalysisError(
				"%s: only %d found, expected at least %d" %
				(what, self.obligations, n))


def _job(fn, rule):
	r = Result(rule)
	try:
		return r, fn(r), None
	except project.AnalysisError as ex:
		return r, None, str(ex)
	except Exception:
		import traceback
		return r, None, "internal error: " + traceback.format_exc()[-800:]


_FNS = []


def _call(i):
	fn, rule = _FNS[i]
	return _job(fn, rule)


def parallel(res, fns):
	"""run the jobs fn(result) in worker processes and take over what they
	found; returns their return values in order"""
	import multiprocessing
	global _FNS
	_FNS = [(f, res.rule) for f in fns]
	n = min(8, len(fns), os.cpu_count() or 1)
	if n > 1:
		first = _call(0)       # fills the caches the workers inherit
		with multiprocessing.get_context("fork").Pool(n) as pool:
			outs = [first] + pool.map(_call, range(1, len(fns)), chunksize=1)
	else:
		outs = [_call(i) for i in range(len(fns))]
	vals = []
	for r, v, e in outs:
		vals.append(v)
		res.obligations += r.obligations - r.failed
		for x in r.violations:
			res.bad(x["rule"], x["where"], x["function"], x["message"],
			        x["via"])
		res.functions |= r.functions
		res.sites += r.sites
		res.paths += r.paths
		res.steps += r.steps
		res.notes += r.notes
		for a in r.assumptions:
			if a not in res.assumptions:
				res.assumptions.append(a)
		res.incomplete = res.incomplete or r.incomplete
	errs = [e for _r, _v, e in outs if e]
	if len(errs) == len(outs) and not res.violations:
		raise project.AnalysisError(errs[0])
	for e in errs:
		# one of the parts is not decided: said in the evidence
		res.incomplete = True
		res.notes.append("NOT DECIDED: %s" % e)
	return vals


def analyse(p, res, monitor, fi, **kw):
	types = kw.pop("types", None)
	seconds = kw.pop("seconds", 300)
	I = absint.Interp(p, monitor, types)
	for k in ("LIMIT", "MAX_STEPS"):
		if k in kw:
			setattr(I, k, kw.pop(k))

	def late(_sig, _frame):
		raise absint.Budget("out of time in %s" % fi.full)
	held = signal.signal(signal.SIGALRM, late)
	try:
		signal.setitimer(signal.ITIMER_REAL,
		                 max(1, min(seconds, END - time.time())))
		try:
			outs = I.run(fi, **kw)
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)
			signal.signal(signal.SIGALRM, held)
	except absint.Budget as ex:
		# not decided: said in the evidence, never an alarm
		res.incomplete = True
		res.notes.append("NOT DECIDED: %s" % ex)
		return I, []
	res.functions.add(fi.full)
	res.absorb(I, monitor, outs)
	return I, outs
