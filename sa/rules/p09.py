"""P09: what an SRS file stores is what is read back from it."""
from .. import srs
from ..core import Result, parallel
from ..project import AnalysisError

ID = "P09"


def run(p, tier="quick"):
	res = Result(
		"Byte layout analysis of the SRS writers and loaders: a sample of "
		"every kind is given as a layout of constant bytes, fields of "
		"unknown value and unknown strings; the lines that write the SRS "
		"and load it again are interpreted on it. On every path the SRS "
		"must be exactly the sample without its track data, with the file, "
		"track, fingerprint and padding records framed as the container "
		"needs it, and the loaded records must have the values written.")
	cases = srs.cases()

	def job(c):
		return lambda r: srs.stored(p, r, c)
	ns = parallel(res, [job(c) for c in cases])
	for c, n in zip(cases, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s: nothing is written" % c.title)
	res.need(100, "records read back")
	res.assumptions += srs.ASSUME
	return res
