"""P24: track data is taken out of the main file from the found place on."""
from .. import srs
from ..absint import K
from ..core import Result, parallel
from ..layout import cut, length, pieces
from ..project import AnalysisError
from ..srs import Wanted, lay, num

ID = "P24"
STRIP = b"\x0b\x77"


def mains():
	"""the main files, each of a kind once"""
	cs = srs.cases()
	seen = set()
	for c in srs.samples(cs) + [c for c in cs if c.big]:
		if repr((c.kind, c.opts)) in seen:
			continue
		seen.add(repr((c.kind, c.opts)))
		if c.kind == "m2ts" or c.opts.get("late"):
			continue
		if c.kind == "mkv":
			c.opts = dict(c.opts, early=True)
		yield c


def named(ps, start):
	"""the number of the first piece of that name"""
	return [x[0] == "raw" and x[1][1].startswith(start)
	        for x in ps].index(True)


def frames(ps, laces):
	"""the frames of the blocks"""
	out = []
	for x in ps:
		at = 0
		for n in laces.get(x[1][1] if x[0] == "raw" else "", [0]):
			end = at + n if n else length(lay(x))[2]
			out.append(cut(lay(x), K(at), K(end)))
			at = end
	return out


LACES = {"a2": [3, 6], "a3": [4, 4], "v2": [4, 5, 4]}


def starts(k):
	"""track number -> where to start and how much to take"""
	yield "from the start", {}
	if k == "avi":
		yield "from the second frame", {0: dict(first=1)}
		yield "a part of the track", {0: dict(n=100), 1: dict(n=2)}
		yield "from inside of a frame", {1: dict(skip=1)}
		yield "little of one track", {1: dict(n=1)}
	elif k == "mkv":
		yield "from the second block", {1: dict(first=1), 2: dict(first=1)}
		yield "a part of the tracks", {1: dict(n=300), 2: dict(n=7)}
		yield "from different blocks", {2: dict(first=2)}
		yield "little of one track", {1: dict(n=1)}
		yield "little of the other track", {2: dict(n=3)}
		yield "from the second frame of a block", {
			2: dict(first=1, skip=3)}
		yield "from the last frame of a cluster", {
			1: dict(name="v3"), 2: dict(first=2, skip=4)}
	elif k == "mp4":
		yield "from the second sample", {1: dict(first=1)}
		yield "from the third sample", {1: dict(first=2, n=9), 2: dict(n=4)}
		yield "a part of the track", {1: dict(n=8)}
	elif k == "wmv":
		yield "from the second packet", {
			1: dict(name="v2", packet=2), 2: dict(name="a2", packet=2)}
		yield "a part of the tracks", {1: dict(n=130), 2: dict(n=50)}
		yield "little of one track", {1: dict(n=130)}
		yield "little of the other track", {2: dict(n=3)}
		yield "from different packets", {2: dict(name="a2", packet=3)}
	elif k == "mp3":
		yield "a part", {1: dict(n=40)}
		yield "from inside of the data", {1: dict(skip=10, n=30)}
	elif k == "stream":
		yield "a part", {1: dict(skip=100, n=50)}


def cases(tier):
	for c in mains():
		strip = c.kind == "mkv" and c.opts.get("algo", 3) == 3
		for what, how in starts(c.kind):
			if c.opts.get("text") and "second" in what:
				continue
			def tracks(c=c, how=how, strip=strip):
				out = []
				for t in c.found:
					h = dict(how.get(t[0], {}))
					if "name" in h:
						h["first"] = named(t[1], h.pop("name"))
					if c.kind == "wmv":
						h["at"] = srs.packet_start(
							c, h.pop("packet", 1)) + 1
					if strip and t[0] == 2:
						h["comp"] = STRIP
					out.append(Wanted(t[0], t[1], **h))
				return out
			yield c, what, tracks
		if not strip or c.opts.get("text") or c.big:
			continue
		# the start of each frame is stripped in the main file (track 2), in
		# the sample or in both
		for what, one, two in (
				("sample not stripped", (b"", b"", 0), (b"", STRIP, 0)),
				("sample stripped", (b"ab", b"", 2), (STRIP, b"", 0)),
				("sample stripped more", (b"", b"", 0), (STRIP + b"\1", b"", 1)),
				("sample stripped less", (b"", b"", 0), (
					STRIP[:1], STRIP[1:], 0))):
			def tracks(c=c, both=(one, two)):
				out = []
				for t, (comp, pre, n) in zip(c.found, both):
					fs = [pieces(cut(f, K(n), length(f)))
					      for f in frames(t[1], LACES)]
					w = Wanted(t[0], t[1], comp=comp)
					w.of(lay(*[x for f in fs for x in (num(pre),) * bool(
						pre) + tuple(f)]))
					out.append(w)
				return out
			yield c, what, tracks


def run(p, tier="quick"):
	cs = list(cases(tier))
	res = Result(
		"Byte layout analysis of the extraction of track data: a main file "
		"of every kind is given as a layout of constant bytes, fields of "
		"unknown value and unknown strings, the tracks with the places where "
		"they were found. On every path what is kept for a track must begin "
		"with exactly the wanted bytes of the track.")

	def job(c):
		return lambda r: srs.extracted(p, r, *c)
	ns = parallel(res, [job(c) for c in cs])
	for c, n in zip(cs, ns):
		if not n and not res.violations and not res.incomplete:
			raise AnalysisError("%s, %s: nothing is extracted" % (
				c[0].title, c[1]))
	res.need(len(cs), "extracted tracks")
	res.assumptions += srs.ASSUME
	return res
