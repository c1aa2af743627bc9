"""RAR sets as byte layouts, and the SRR files made of them."""
from . import layout
from .absint import K, NONE, is_k, mentions, show
from .core import analyse
from .layout import driver, flat, length, pieces
from .project import AnalysisError, loc
from .rules.p08 import RAR_MARK, hdr
from .srs import Verdict, lay, raw, size
from .volumes import APPNAME, Volumes, parity

MOD = "rescene.main"


def P(n):
	return ("param", n)


def fixed(crc, typ, flags, *body):
	return hdr(P(crc), K(typ), K(flags), *body)


def arc(n, flags=0):
	return fixed("acrc%d" % n, 0x73, flags, ("f", "<H", K(0)),
	             ("f", "<L", K(0)))


def end(n, flags=0x4000, *body):
	return fixed("ecrc%d" % n, 0x7B, flags, *body)


BEFORE, AFTER, DIR = 1, 2, 0xE0


class Member(object):
	"""one file in a RAR set, the parts of it in the volumes"""

	def __init__(self, name, parts, split=(), method=0x30, flags=0,
	             large=False, tail=(), told=None):
		"""told: what the header in the i-th volume says is the full size"""
		self.told = told
		self.name, self.parts, self.method = name, parts, method
		self.flags, self.large, self.tail = flags, large, tail

	def all(self):
		return lay(*[x for ps in self.parts for x in ps])

	def part(self, i):
		"""header and data in the i-th volume the file is in"""
		ps, last = self.parts[i], i + 1 == len(self.parts)
		fl = 0x8000 | self.flags | (BEFORE if i else 0) | (
			0 if last else AFTER)
		crc = ("crcof", self.all() if last else lay(*ps))
		lo, hi = length(lay(*ps)), length(self.all())
		if self.told:
			hi = K(self.told[i])
		big = ()
		if self.large:
			fl |= 0x100
			n = hi[2]
			big = (("f", "<L", K(lo[2] >> 32)), ("f", "<L", K(n >> 32)))
			lo, hi = K(lo[2] & 0xFFFFFFFF), K(n & 0xFFFFFFFF)
		h = fixed("fcrc%s%d" % (self.name.decode("latin-1"), i), 0x74, fl,
		          ("f", "<L", lo), ("f", "<L", hi), ("f", "<B", K(2)),
		          ("f", "<L", K(0) if not pieces(self.all()) else crc),
		          ("f", "<L", P("ft" + self.name.decode("latin-1"))),
		          ("f", "<B", K(20)), ("f", "<B", K(self.method)),
		          ("f", "<H", K(len(self.name))), ("f", "<L", K(32)),
		          *(big + (("kb", self.name),) + tuple(self.tail)))
		return tuple(pieces(h)) + tuple(ps)

	def kept(self, i):
		"""what the SRR keeps of it"""
		n = len(pieces(lay(*self.part(i))))
		return self.part(i)[:n - len(self.parts[i])]


def volume(n, flags, *body, **kw):
	return lay(RAR_MARK, arc(n, flags), *(tuple(body) + (
		kw.get("end", end(n)),) + tuple(kw.get("pad", ()))))


def record(before, sectors, old=False):
	"""(what is kept, the rest) of a recovery record for these bytes"""
	full = lay(*before)
	n = size(full)[2]
	data = [layout.cut(full, K(i), K(min(i + 512, n)))
	        for i in range(0, n, 512)]
	data[-1] = lay(data[-1], ("kb", bytes(512 - size(data[-1])[2])))
	body = []
	for d in data:
		body += [("f", "<B", ("ncrc", d, s, 8)) for s in (0, 8)]
	for i in range(sectors):
		body += pieces(parity(data[i::sectors], 512))
	add = ("f", "<L", size(*body))
	if old:
		h = fixed("rcrc", 0x78, 0x8000, add, ("f", "<B", K(20)),
		          ("f", "<H", K(sectors)), ("f", "<L", K(len(data))),
		          ("kb", b"Protect!"))
	else:
		h = fixed("rcrc", 0x7A, 0x8000, add, add, ("f", "<B", K(2)),
		          ("f", "<L", P("rr1")), ("f", "<L", P("rr2")),
		          ("f", "<B", K(29)), ("f", "<B", K(0x30)),
		          ("f", "<H", K(2)), ("f", "<L", K(0)),
		          ("kb", b"RRProtect+"), ("f", "<L", K(sectors)),
		          ("f", "<Q", K(len(data))))
	return tuple(pieces(h)), tuple(body)


DRIVER = """def roundtrip(a):
	got = None
%s	return (got, %s)
"""
CREATE = '\tcreate_srr("/srr/x.srr", %s, "/in", %r%s)\n'
REBUILD = '\treconstruct("/srr/x.srr", "/data", "/out"%s)\n'
ALARMS = ("CRC", "UNKNOWN", "UNSUPPORTED_FLAG", "FILE_NOT_FOUND")
DIRS = ("/in/", "/data/", "/in/")


def raw_name(n):
	return n if isinstance(n, bytes) else n.encode("utf-8")


def stored(name, *body):
	"""a file stored in an SRR"""
	n = raw_name(name)
	return lay(*(pieces(hdr(K(0x6A6A), K(0x6A), K(0x8000),
	                        ("f", "<L", size(*body)),
	                        ("f", "<H", K(len(n))), ("kb", n))) +
	             tuple(body)))


def volumes(*kept):
	out = []
	for n, b in kept:
		n = raw_name(n)
		out += [hdr(K(0x7171), K(0x71), K(1), ("f", "<H", K(len(n))),
		            ("kb", n)), lay(*b)]
	return lay(*out)


def srr(files, *kept, **kw):
	"""files: [(name, contents)]; kept: (name, what is kept of the volume)"""
	app = kw.get("app", APPNAME)
	out = [hdr(K(0x6969), K(0x69), K(1), ("f", "<H", K(len(app))),
	           ("kb", app)) if app else hdr(K(0x6969), K(0x69), K(0))]
	out += [stored(n, *pieces(b)) for n, b in files]
	out.append(volumes(*kept))
	return lay(*(out + list(kw.get("more", ()))))


def padding(*body):
	return lay(*(pieces(hdr(K(0x6C6C), K(0x6C), K(0x8000),
	                        ("f", "<L", size(*body)))) + tuple(body)))


class Set(object):
	"""volumes: {name: layout}; sources: {name: layout} of the files found in
	/data; stored: {name: layout} of files to keep in the SRR; infiles: the
	first volumes; steps: what is done with them; fails: the exceptions, one
	of which must be raised"""

	def __init__(self, title, volumes, sources, infiles, stored=None,
	             create="", rebuild="", expect=None, warn=(), steps=None,
	             fails=None, flat=False, others=None, files=None,
	             value=None):
		self.title, self.volumes, self.sources = title, volumes, sources
		self.stored, self.warn, self.fails = stored or {}, warn, fails
		self.steps = steps or CREATE % (
			repr(["/in/" + n for n in infiles]),
			["/in/" + n for n in sorted(self.stored)], create) + \
			REBUILD % rebuild
		self.expect = {n.split("/")[-1] if flat else n: l
		               for n, l in volumes.items()
		               if expect is None or n in expect}
		if expect is None:
			self.expect.update(self.stored)
		self.others = others or {}      # other files there will be
		self.files = files or {}        # other files there are
		self.value = value
		self.kind = "srr"

	def inputs(self):
		for d, fs in zip(DIRS, (self.volumes, self.sources, self.stored)):
			for n, l in fs.items():
				yield d + n, l
		for n, l in self.files.items():
			yield n, l

	def monitor(self, p):
		return Volumes(p)

	def limits(self, m):
		m.seq_limit = m.max_rounds = max(40, 8 * len(self.volumes))
		return {"LIMIT": 200, "MAX_STEPS": 150000 + 4000 * len(self.volumes),
		        "seconds": 60 + 5 * len(self.volumes)}

	def run(self, p, res):
		m = self.monitor(p)
		limits = self.limits(m)
		heap = {}
		for n, l in self.inputs():
			m.put(heap, K(n), l)
		src = DRIVER % (self.steps, "".join("MsgCode.%s, " % a
		                                    for a in ALARMS))
		I, outs = analyse(p, res, m, driver(p, MOD, src), heap=heap,
		                  **limits)
		return I, outs, m


class SetVerdict(Verdict):
	def __init__(self, p, res, case, rule, anchor):
		self.p, self.res, self.case, self.rule = p, res, case, rule
		mod, _, name = anchor.rpartition(":")
		self.fi = p.modules[mod or MOD].all_funcs.get(name)
		if self.fi is None:
			raise AnalysisError("anchor vanished: " + anchor)
		self.st = None
		self.done = self.fine = self.doubts = 0
		self.vague = []
		self.lenient = False


	def fired(self, st, codes, wanted):
		"""the messages that something is wrong"""
		seen = [c for c, _v in st.mon.get("fired", ())]
		for name, c in zip(ALARMS, codes):
			if (c in seen) == (name in wanted):
				self.res.ok("%s: message %s" % (self.case.title, name))
			elif name in wanted:
				self.bad("no %s message" % name)
			else:
				self.bad("a %s message" % name)


	def refused(self, kind, st, val):
		"""the work is not done, with one of these exceptions"""
		self.st = st
		self.clean = True
		if kind == "raise" and val[0] == "exc" and \
				val[1].split(":")[-1] in self.case.fails:
			self.res.ok("%s: refused" % self.case.title)
			self.done += 1
		elif kind == "raise" and val[0] == "exc":
			self.bad("fails with %s" % val[1].split(":")[-1])
		elif kind == "raise":
			self.unsure("an exception of unknown type")
		else:
			self.bad("is not refused")


def rebuilt(p, res, case, rule="round-trip", anchor="reconstruct"):
	"""the files made are those expected, and no other"""
	I, outs, m = case.run(p, res)
	v = SetVerdict(p, res, case, rule, anchor)
	if case.fails:
		for kind, st, val in outs:
			v.refused(kind, st, val)
			check(v, m, st, case, {})
		v.finish()
		return v.done
	for st, val in v.outcomes(outs):
		want = {"/out/" + n: l for n, l in case.expect.items()}
		want.update(case.others)
		check(v, m, st, case, want)
		v.fired(st, val[2:], case.warn)
		if case.value is not None:
			got = plain(I, st, val[1])
			same = alike(got, case.value)
			if same:
				v.res.ok("%s: the result" % case.title)
			elif same is None:
				v.unsure("the result is not modelled")
			else:
				v.bad("the result is %r instead of %r" % (got, case.value))
	return v.done


class Text(object):
	"""a text that is made of this value"""

	def __init__(self, term):
		self.term = term

	def __repr__(self):
		return "<%s>" % show(self.term, 3)


def plain(I, st, t):
	"""the Python value of a term"""
	if is_k(t):
		return t[2]
	it = t if t[0] == "tup" else I.items_of(t, st)
	if it is None or it[0] != "tup":
		return Text(t)
	xs = [plain(I, st, x) for x in it[1:]]
	return tuple(xs) if t[0] == "tup" else xs


def alike(got, want):
	"""None: can not be told"""
	if isinstance(got, Text):
		if not isinstance(want, Text):
			return None
		if mentions(got.term, want.term):
			return True
		return False if want.term[0] in repr(got.term) else None
	if isinstance(want, Text) or type(got) is not type(want):
		return False
	if not isinstance(got, (list, tuple)):
		return got == want
	if len(got) != len(want):
		return False
	rs = [alike(g, w) for g, w in zip(got, want)]
	return False if False in rs else None if None in rs else True


def check(v, m, st, case, want):
	for n in sorted(want):
		if want[n] is None:     # whatever is in it
			continue
		v.same(n, m.content(st, K(n)), want[n])
	ins = dict(case.inputs())
	for n in sorted(ins):
		if n not in want:
			v.same("%s, an input" % n, m.content(st, K(n)), ins[n])
	for n in m.names(st):
		if n not in want and n not in ins and n != "/srr/x.srr" and \
				(not case.fails or not n.startswith("/out/")):
			v.bad("a file nobody asked for is left: %s" % n)
