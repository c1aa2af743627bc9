"""P18: profiling a sample records its size, CRC and tracks."""
from .. import srs
from ..core import Result, parallel
from ..project import AnalysisError

ID = "P18"


def run(p, tier="quick"):
	res = Result(
		"Byte layout analysis of the sample profilers: a sample of every "
		"kind is given as a layout of constant bytes, fields of unknown "
		"value and unknown strings and the profiler is interpreted on it. "
		"On every path the recorded CRC must be that of all bytes of the "
		"sample, in order, and every track must be recorded with the number "
		"of its bytes and the first of them as signature.")
	cases = srs.samples(srs.cases())

	def job(c):
		return lambda r: srs.profiled(p, r, c)
	ns = parallel(res, [job(c) for c in cases])
	for c, n in zip(cases, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing is recorded" % c.title)
	res.need(50, "recorded values")
	res.assumptions += srs.ASSUME
	return res
