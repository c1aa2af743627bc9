"""P15: a sample rebuilt from its SRS and its track data is the sample."""
from .. import srs
from ..core import Result, parallel
from ..project import AnalysisError

ID = "P15"


def run(p, tier="quick"):
	res = Result(
		"Byte layout analysis of the sample rebuilders: a sample of every "
		"kind is given as a layout of constant bytes, fields of unknown "
		"value and unknown strings; the lines that write the SRS, load it "
		"and rebuild the sample from it and files with the track data are "
		"interpreted on it. On every path the rebuilt file must be the "
		"sample, and the CRC returned must be that of all its bytes.")
	cases = [c for c in srs.cases() if c.rebuild]

	def job(c):
		return lambda r: srs.rebuilt(p, r, c)
	ns = parallel(res, [job(c) for c in cases])
	for c, n in zip(cases, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing is rebuilt" % c.title)
	res.need(2 * len(cases), "rebuilt samples")
	res.assumptions += srs.ASSUME
	return res
