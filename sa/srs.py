"""Samples of every kind as byte layouts (fields, unknown strings), what the
SRS format keeps of them, and the lines of code that write, load and rebuild
them."""
import ast

from . import layout
from .absint import K, NONE, show
from .core import analyse
from .layout import driver, flat, layout_show, length, mklay, norm, pieces, \
	unmodelled
from .project import AnalysisError, loc
from .samples import FilesMonitor

MOD = "resample.main"


def P(n):
	return ("param", n)


def raw(name, size=None):
	"""bytes nobody knows, of this length"""
	if size is not None:
		layout.KNOWN_LEN[P(name)] = size
	return ("raw", P(name))


def kb(b):
	return ("kb", b)


def lay(*xs):
	out = []
	for x in xs:
		if isinstance(x, bytes):
			out.append(("kb", x))
		elif x[0] in ("kb", "raw", "f", "cut"):
			out.append(x)
		else:
			out += pieces(x)
	return mklay(out)


def size(*xs):
	return length(lay(*xs))


def num(b):
	"""constant bytes"""
	return ("kb", bytes(b))


# -- sample files: as they are (data=True), or as the SRS keeps them with its
# -- own records (srs) put in -------------------------------------------------
def riff(tag, *body):
	return lay(tag, ("f", "<L", size(*body)), *body)


def rlist(tag, kind, *body):
	return riff(tag, kind, *body)


MOVI = [(b"00dc", "v1", 7), (b"01wb", "a1", 4), (b"00dc", "v2", 70000),
        (b"00dc", "v3", 0)]


def chunk(tag, name, n, data):
	body = (raw(name, n),) if data and n else ()
	if n % 2:
		body += (("f", "<B", P(name + "pad")),)
	return lay(tag, ("f", "<L", K(n)), *body)


def avi(data=True, srs=()):
	hdrl = rlist(b"LIST", b"hdrl", riff(b"avih", raw("avih", 56)),
	             riff(b"JUNK", raw("junk", 9)), ("f", "<B", P("junkpad")))
	idx = riff(b"idx1", raw("idx1", 32))
	full = [chunk(t, n, s, True) for t, n, s in MOVI]
	kept = [chunk(t, n, s, data) for t, n, s in MOVI]
	movi = size(b"movi", *full)
	return lay(b"RIFF", ("f", "<L", size(b"AVI ", hdrl, b"LIST    movi",
	                                     idx, *full)),
	           b"AVI ", hdrl, b"LIST", ("f", "<L", movi), b"movi",
	           *(tuple(srs) + tuple(kept) + (idx,)))


def vint(n, w=None):
	w = w or next(i for i in range(1, 9) if n < (1 << 7 * i) - 1)
	return num(((1 << 7 * w) | n).to_bytes(w, "big"))


def ebml(eid, *body, **kw):
	return lay(eid, vint(size(*body)[2], kw.get("w")), *body)


def mblock(eid, track, head, name, n, data):
	h = (num([0x80 | track]), ("f", "<B", P(name + "t1")),
	     ("f", "<B", P(name + "t2")), num(head))
	full = (num(b"x" * n[0]), raw(name, n[1])) if isinstance(n, tuple) \
		else (raw(name, n),)
	return lay(eid, vint(size(*(h + full))[2]), *(h + (full if data else ())))


HUGE = 3000000000


def mkv(data=True, srs=(), big=False, text=False, algo=3, late=False,
        att=True, keep=False, early=False):
	tracks = ebml(b"\x16\x54\xae\x6b", ebml(
		b"\xae", b"\xd7\x81\x01", ebml(b"\x86", b"V_MPEG4"),
		ebml(b"\x73\xc5", raw("uid1", 4))), ebml(
		b"\xae", b"\xd7\x81\x02", ebml(b"\x86", b"A_AC3"), ebml(
			b"\x6d\x80", ebml(b"\x62\x40", ebml(
				b"\x50\x34", b"\x42\x54\x81" + bytes([algo]),
				ebml(b"\x42\x55", b"\x0b\x77"))))))
	if late:
		tracks = ebml(b"\x16\x54\xae\x6b", ebml(
			b"\xae", b"\xd7\x81\x01", ebml(b"\x86", b"V_MPEG4")))

	def groups(d):
		c1 = [ebml(b"\xbf", raw("check", 4)), ebml(b"\xe7", raw("t1", 2)),
		      mblock(b"\xa3", 1, [0x80], "v1",
		             (400, 300) if text else 300, d),
		      mblock(b"\xa3", 2, [0], "a1", 5, d),
		      # two frames, Xiph lacing
		      mblock(b"\xa3", 2, [2, 1, 3], "a2", 9, d),
		      # three frames, EBML lacing
		      mblock(b"\xa3", 1, [6, 2, 0x84, 0xc0], "v2",
		             2 * HUGE if big else 13, d),
		      # two frames, same size
		      mblock(b"\xa3", 2, [4, 1], "a3", 8, d)]
		c2 = [ebml(b"\xe7", raw("t2", 2)), None]
		g = [mblock(b"\xa1", 1, [0], "v3", 20, d),
		     ebml(b"\x9b", raw("dur", 1))]
		att = [ebml(b"\x46\x6e", b"font.ttf"),
		       ebml(b"\x46\x60", raw("mime", 6)), None]
		return c1, c2, g, att

	def parent(eid, full, kept, w=None):
		return lay(eid, vint(size(*full)[2], w), *kept)
	f1, f2, fg, fa = groups(True)
	k1, k2, kg, ka = groups(data)
	f2[1] = parent(b"\xa0", fg, fg)
	k2[1] = parent(b"\xa0", fg, kg)
	fa[2] = ebml(b"\x46\x5c", raw("att", 40))
	ka[2] = fa[2] if data or keep else lay(b"\x46\x5c", vint(40))
	fb = parent(b"\x61\xa7", fa, fa)
	bb = parent(b"\x61\xa7", fa, ka)
	info = ebml(b"\x15\x49\xa9\x66", ebml(b"\x2a\xd7\xb1", raw("scale", 3)))
	void = ebml(b"\xec", raw("void", 3), w=4)
	cues = ebml(b"\x1c\x53\xbb\x6b", raw("cues", 7))
	w = 8 if big else 4
	a1 = [parent(b"\x19\x41\xa4\x69", [fb], [fb])] if att else []
	a2 = [parent(b"\x19\x41\xa4\x69", [fb], [bb])] if att else []
	if early:
		info = lay(info, *a1)
		a1 = a2 = []
	full = [info, tracks, void, parent(b"\x1f\x43\xb6\x75", f1, f1, w),
	        parent(b"\x1f\x43\xb6\x75", f2, f2)] + a1 + [cues]
	kept = [info, tracks, void, parent(b"\x1f\x43\xb6\x75", f1, k1, w),
	        parent(b"\x1f\x43\xb6\x75", f2, k2)] + a2 + [cues]
	return lay(ebml(b"\x1a\x45\xdf\xa3", raw("doctype", 8)),
	           parent(b"\x18\x53\x80\x67", full, list(srs) + kept, 8))


def atom(tag, *body):
	return lay(("f", ">L", layout.add(K(8), size(*body))), tag, *body)


def longs(*v):
	return lay(*[("f", ">L", x if isinstance(x, tuple) else K(x)) for x in v])


def mp4(data=True, srs=(), spec=(), compact=False, w=4):
	"""spec: chunks of the tracks, in file order"""
	ftyp = atom(b"ftyp", raw("ftyp", 12))
	free = atom(b"free", raw("free", 5))
	at = size(ftyp, free)[2] + 16
	body, offs, tables, sizes = [], {}, {}, {}
	for nr, smp in chunks(*spec):
		offs.setdefault(nr, []).append(at)
		t = tables.setdefault(nr, [])
		sizes.setdefault(nr, []).extend(size(*x)[2] for x in smp)
		if not compact or not t or t[-1][1] != len(smp):
			t.append((len(offs[nr]), len(smp), 1))
		for x in smp:
			body += x
			at += size(*x)[2]
	head = lay(num([0, 0, 0, 1]), b"mdat", ("f", ">Q", layout.add(
		K(16), size(*body))))
	moov = atom(b"moov", atom(b"mvhd", raw("mvhd", 20)), *[trak(
		nr, offs[nr], tables[nr], sizes[nr], w if nr == 1 else 8, compact)
		for nr in sorted(offs)])
	return lay(ftyp, free, *(tuple(srs) + (head,) + (
		tuple(body) if data else ()) + (moov,)))


def parts(chunks):
	"""[(track number, pieces)] of the chunks of an MP4"""
	out = {}
	for nr, smp in chunks:
		for x in smp:
			out.setdefault(nr, []).extend(x)
	return sorted(out.items())


def chunks(*cs):
	"""(track, name, sample sizes)... -> chunks"""
	return [(nr, [[raw("%s%d" % (name, i), n)] for i, n in enumerate(ns)])
	        for nr, name, ns in cs]


def trak(nr, offsets, chunks, sizes, w, compact=False):
	same = compact and len(set(sizes)) == 1
	return atom(b"trak", atom(b"tkhd", ("f", ">L", P("tv%d" % nr)),
	                          raw("tkhd%d" % nr, 8), ("f", ">L", K(nr)),
	                          raw("tkhdr%d" % nr, 6)),
	            atom(b"mdia", atom(b"minf", atom(
	            	b"stbl",
	            	atom(b"stsc", ("f", ">L", P("v")), longs(
	            		len(chunks), *[x for c in chunks for x in c])),
	            	atom(b"stsz", ("f", ">L", P("v")), longs(
	            		*([sizes[0], len(sizes)] if same
	            		  else [0, len(sizes)] + sizes))),
	            	atom(b"stco" if w == 4 else b"co64", ("f", ">L", P("v")),
	            	     longs(len(offsets)), *[
	            		("f", ">L" if w == 4 else ">Q", K(o))
	            		for o in offsets])))))


def flac(data=True, srs=(), tag=False, id3=False, big=False, n=70000):
	raw("frames", 2 * HUGE if big else n)
	pre = lay(b"ID3\x04\0\0\0\0\x01\x02", raw("id3", 130)) if id3 else K(b"")
	return lay(pre, b"fLaC", *(tuple(srs) + (
		num([0, 0, 0, 34]), raw("info", 34), num([4, 0, 1, 1]),
		raw("comment", 257), num([0x81, 0, 0, 6]), raw("pad", 6)) + (
		tuple(FRAMES) if data else ()) + (
		(b"TAG", raw("id3v1", 125)) if tag else ())))


FRAMES = [num([0xff, 0xf8, 0xc9, 0x18]), raw("frames", 1000),
          num(b"end of the frames"), raw("last", 111)]


def mp3(data=True, srs=(), id3=True, end=(), big=False, n=140000, short=False):
	raw("more", 2 * HUGE if big else n)
	raw("frames", 50 if short else 1000)
	pre = lay(b"ID3\x03\0\0\0\0\x01\x02", raw("id3", 130)) if id3 else K(b"")
	return lay(pre, *((tuple(srs) if not data else tuple(
		MAIN[:3] if short else MAIN)) + tuple(end)))


MAIN = [num([0xff, 0xfb, 0x90, 0x44]), raw("frames", 1000),
        num(b"no end tag in here."), raw("more", 5000), num(b"no tag" * 40)]
PAY = [raw("pay%d" % i, 184) for i in range(3)]
TAG = (num(b"TAG"), raw("id3v1", 125))
APE = (num(b"APETAGEX"), ("f", "<L", K(2000)), ("f", "<L", K(32 + 50)),
       raw("apehead", 16), raw("apebody", 50), num(b"APETAGEX"),
       ("f", "<L", K(2000)), ("f", "<L", K(32 + 50)), raw("apefoot", 16))
APE1 = (raw("apebody", 50), num(b"APETAGEX"), ("f", "<L", K(1000)),
        ("f", "<L", K(32 + 50)), raw("apefoot", 16))
LYR = (num(b"LYRICSBEGIN"), raw("lyr", 20), num(b"000031LYRICS200"))

LYR1 = (num(b"LYRICSBEGIN"), raw("lyr", 20), num(b"LYRICSEND"))


def stream(data=True, srs=(), big=False):
	return lay(raw("all", 2 * HUGE if big else 4000)) if data else lay(
		b"STRM", ("f", "<L", K(8)), *srs)


def m2ts(data=True, srs=()):
	def packets(d):
		out = []
		for i in range(3):
			out.append(num([0, 0, 1, i, 0x47, 0x10, 0x11 + i % 2, 0x10 | i]))
			if d:
				out.append(raw("pay%d" % i, 184))
		return out
	return lay(*packets(True)) if data else lay(
		b"M2TS", ("f", "<L", K(8)), *(tuple(srs) + (
			num(b"HDRS"), ("f", "<L", K(8 + 24))) + tuple(packets(False))))


GUID_DATA = bytes.fromhex("3626B2758E66CF11A6D900AA0062CE6C")
GUID_FILE = bytes.fromhex("A1DCAB8C47A9CF118EE400C00C205365")
GUID_STREAM = bytes.fromhex("9107DCB7B7A9CF118EE600C00C205365")
GUID_HEAD = bytes.fromhex("3026B2758E66CF11A6D900AA0062CE6C")


def asf(guid, *body):
	return lay(guid, ("f", "<Q", layout.add(K(24), size(*body))), *body)


def packed(track, name, ns, multi, data):
	"""compressed payload: several of one length byte and data each"""
	h = (num([track]), ("f", "<B", P(name + "no")), ("f", "<L", P(name + "of")),
	     num([1]), ("f", "<B", P(name + "dt")))
	if multi:
		h += (("f", "<H", K(sum(ns) + len(ns))),)
	for i, n in enumerate(ns):
		h += (num([n]),) + ((raw("%s_%d" % (name, i), n),) if data else ())
	return h, ()


def payload(track, name, n, multi, data):
	if isinstance(n, tuple):
		return packed(track, name, n, multi, data)
	# object number byte, offset dword, replicated data length byte
	h = (num([track]), ("f", "<B", P(name + "no")), ("f", "<L", P(name + "of")),
	     num([8]), ("f", "<L", P(name + "sz")), ("f", "<L", P(name + "pt")))
	if multi:
		h += (("f", "<H", K(n)),)
	return h, (raw(name, n),) if data else ()


def wmv(data=True, srs=(), odd=False, comp=False, late=False):
	def packet(nr, parts, n, d):
		multi = len(parts) > 1
		ps = [payload(t, nm, k, multi, d) for t, nm, k in parts]
		fs = [payload(t, nm, k, multi, True) for t, nm, k in parts]
		head = (num([0x82, 0, 0, 0x09 if multi else 0x08, 0x5d]),)
		body = (("f", "<L", P("send%d" % nr)), ("f", "<H", P("dur%d" % nr)))
		if multi:
			body += (num([0x80 | len(parts)]),)
		used = size(*(head + (num([0]),) + body))[2] + sum(
			size(*(a + b))[2] for a, b in fs)
		pad = n - used
		hd = head + (num([pad]),) + body
		if d:
			return hd + tuple(x for a, b in ps for x in a + b) + (
				pads(nr, pad, odd),)
		return hd + tuple(x for a, b in ps for x in a)

	def pads(nr, n, odd):
		return raw("pad%d" % nr, n) if odd else num(bytes(n))
	P1 = [(1, "v1", 130), (2, "a1", 109)]
	P2 = [(1, "v2", 300)]
	P3 = [(1, "v3", 130), (2, "a2", 111)]
	if comp:
		P1[1] = (2, "a1", (40, 60, 1))
		P2 = [(1, "v2", (200, 33))]
	objs = lay(asf(GUID_FILE, raw("fileid0", 16), ("f", "<Q", P("fsize")),
	               raw("fprops", 40)), *[
		asf(GUID_STREAM, raw("sty%d" % i, 48), ("f", "<H", K(i)),
		    raw("sprops%d" % i, 14)) for i in ((1,) if late else (1, 2))])
	head = lay(GUID_HEAD, ("f", "<Q", layout.add(K(30), size(objs))),
	           raw("nobj", 6), objs)
	dh = (num(GUID_DATA), ("f", "<Q", K(50 + 1200)), raw("fileid", 16),
	      ("f", "<Q", K(3)), raw("res", 2))
	index = asf(bytes(range(16)), raw("index", 30))
	body = packet(1, P1, 400, data) + packet(2, P2, 400, data) + packet(
		3, P3, 400, data)
	return lay(head, *(dh + body + tuple(srs) + (index,)))


# -- what the tool writes, loads and rebuilds ----------------------------------
CREATE = "%(kind)s_create_srs(self, {%(dict)s}, f, sample, srs, big)"
DRIVER = """def chain(self, sample, srs, out, big, crc):
	f = FileData(file_name=sample)
	f.crc32 = crc
	f.padding_bytes = PADDING
	f.padding_amount = %(padding)d
%(tracks)s	""" + CREATE + """
	o = None
%(load)s%(rebuild)s	return (got, loaded, o)
"""
LOAD = """	got, loaded = %(kind)s_load_srs(self, srs)
"""
LOADER = """def chain(self, srs):
	got, loaded = %(kind)s_load_srs(self, srs)
	return (got, loaded)
"""
TRACK = """	t%(i)d = TrackData()
	t%(i)d.track_number = %(nr)d
	t%(i)d.flags = %(flags)d
	t%(i)d.data_length = LENGTH%(i)d
	t%(i)d.match_offset = OFFSET%(i)d
	t%(i)d.signature_bytes = SIGNATURE%(i)d
"""
PRINT = """	t%(i)d.fingerprint = FINGERPRINT
	t%(i)d.duration = DURATION
"""
ATTACH = """	att = {b'font.ttf': AttachmentData('font.ttf')}
	att[b'font.ttf'].attachment_file = open('att', 'rb')
"""
REBUILD = """	o = %(kind)s_rebuild_sample(self, got, loaded, %(att)s, srs, out)
"""
PROFILE = """def chain(self, sample):
	f = FileData(file_name=sample)
	r = %(kind)s_profile_sample(self, f)
	return (f, r)
"""
EXTRACT = """def chain(self, sample):
	tracks = {}
%(tracks)s	tracks, att = %(kind)s_extract_sample_streams(self, tracks, sample)
	got = []
%(read)s	return (got, files)
"""
WANTED = """	t = TrackData()
	t.track_number = %(nr)d
	t.data_length = %(n)d
	t.match_offset = %(at)d
	t.match_length = %(n)d
	t.signature_bytes = args.SIGNATURE%(i)d
	t.compression_settings = %(comp)r
	tracks[%(nr)d] = t
"""
READ = """	h = tracks[%d].track_file
	if h is None:
		got.append(b'')
	else:
		h.seek(0)
		got.append(h.read())
"""
UTF8 = K("utf-8")
APP = ("c", ".encode", (("glob", "resample", "APPNAME"), UTF8))
NAME = ("c", "os.path.basename", (P("sample"),))
BNAME = ("c", ".encode", (NAME, UTF8))
CRC = ("lo", P("crc"))


def sig(i):
	return ("param", "SIGNATURE%d" % i)


class Samples(FilesMonitor):
	def rule_call(self, I, st, name, recv, args, kw, node):
		short = name.split(":")[-1].split(".")[-1]
		if short == "fingerprint":
			return [("ok", st, ("tup", P("SECS"), P("PRINT")))]
		if short == "calc_crc32" and args:
			t = self.content(st, args[0])
			return None if t is None else [("ok", st, ("crcof", t))]
		if short == "sep":
			return [("ok", st, ("fmt",))]
		if name in ("tempfile.TemporaryFile", "TemporaryFile"):
			return self.opened(I, st, [st.fresh(("tempname", I.site(
				st, node))), K("w+b")], {}, node)
		return None

	def truth(self, I, st, t):
		if t in (P("sample"), P("srs"), P("out")) or (t, "$pos") in st.heap:
			return True
		if t[0] == "cmp" and t[1] in ("==", "is") and t[3] == NONE and \
				(t[2], "$pos") in st.heap:
			return False
		return FilesMonitor.truth(self, I, st, t)


class Case(object):
	"""one sample, written as SRS, loaded and rebuilt"""

	def __init__(self, kind, what, build, tracks, big=False, att=False,
	             fp=False, padding=(b"", 0), lens=(20, 10, 256, 19),
	             rebuild=True, opts=None, found=None,
	             sigs=None, flags=3):
		self.kind, self.what, self.build = kind, what, build
		self.tracks, self.big, self.att, self.fp = tracks, big, att, fp
		self.padding, self.lens, self.rebuild = padding, lens, rebuild
		self.opts = opts or {}
		self.sigs = sigs or {}
		self.flags = flags             # of the file record
		self.found = found or tracks       # by the profiler
		self.title = "%s sample, %s" % (kind, what)

	def data(self, i):
		return self.tracks[i][1]

	def records(self):
		"""[file record] + [track record], as the format has them"""
		full = self.build(True, **self.opts)
		out = [("F", lay(("f", "<H", K(self.flags)), ("f", "<H", length(("raw", APP)
		       and lay(("raw", APP)))), ("raw", APP),
		       ("f", "<H", length(lay(("raw", BNAME)))), ("raw", BNAME),
		       ("f", "<Q", length(full)), ("f", "<L", CRC)))]
		for i, t in enumerate(self.tracks, 1):
			nr = t[0]
			fl = (4 if self.big else 0) | (8 if nr > 0xffff else 0)
			out.append(("T", lay(
				("f", "<H", K(fl)), ("f", "<L" if fl & 8 else "<H", K(nr)),
				("f", "<Q" if fl & 4 else "<L", self.tlen(i)),
				("f", "<Q", P("OFFSET%d" % i)),
				("f", "<H", K(self.lens[1 + i])), ("raw", sig(i)))))
			if self.fp:
				out.append(("P", lay(
					("f", "<L", ("lo", P("DURATION"))),
					("f", "<L", K(70)), raw("FINGERPRINT", 70))))
		return out

	def tlen(self, i):
		return P("LENGTH%d" % i) if self.big else ("lo", P("LENGTH%d" % i))

	def framed(self):
		k = self.kind
		out = []
		for kind, r in self.records():
			n = length(r)
			if k == "avi":
				x = lay(b"SRSF" if kind == "F" else b"SRST", ("f", "<L", n), r,
				        *([b"\0"] if n[2] % 2 else []))
			elif k == "mkv":
				x = ebml(b"\x6a\x75" if kind == "F" else b"\x6b\x75", r)
			elif k == "mp4":
				x = lay(("f", ">L", layout.add(n, K(8))),
				        b"SRSF" if kind == "F" else b"SRST", r)
			elif k == "wmv":
				x = lay((b"SRSF" if kind == "F" else b"SRST") * 4,
				        ("f", "<Q", layout.add(n, K(24))), r)
			elif k == "flac":
				x = lay({"F": b"s", "T": b"t", "P": b"u"}[kind],
				        num(n[2].to_bytes(3, "big")), r)
			else:
				x = lay({"F": b"SRSF", "T": b"SRST", "P": b"SRSP"}[kind],
				        ("f", "<L", layout.add(n, K(8))), r)
			out.append(x)
		if k == "mkv":
			out = [ebml(b"\x1f\x69\x75\x76", *out)]
		if self.irregular():
			n = sum(x[2] for x in [size(*self.padding[0])])
			out.append(lay(b"PADDINGBYTESDATA", ("f", "<Q", K(24 + n)),
			               *self.padding[0]))
		return out

	def irregular(self):
		"""padding that is not all zero"""
		return self.kind == "wmv" and self.padding[1] and \
			self.padding[0][0] != bytes(self.padding[1])

	def known(self):
		L = layout.KNOWN_LEN
		L[BNAME], L[APP] = self.lens[:2]
		for i, n in enumerate(self.lens[2:], 1):
			L[sig(i)] = n
		for x in (P("FINGERPRINT"),):
			L[x] = 70

	def load(self, p, res):
		"""(engine, outcomes, monitor) of loading the SRS as it should be"""
		self.known()
		m = Samples(p)
		heap = {}
		m.put(heap, P("srs"), self.build(
			False, srs=self.framed(), **self.opts))
		I, outs = analyse(p, res, m, driver(p, MOD, LOADER % dict(
			kind=self.kind)), LIMIT=200, MAX_STEPS=60000, heap=heap)
		return I, outs, m

	def run(self, p, res, rebuild=False):
		"""(engine, outcomes, monitor); the sample is a layout of fields and
		unknown strings, the SRS and the rebuilt file are what the code
		writes"""
		self.known()
		m = Samples(p)
		heap = {}
		m.put(heap, P("sample"), self.build(True, **self.opts))
		tr, rb = "", ""
		for i, t in enumerate(self.tracks, 1):
			nr, ps = t[:2]
			v = dict(i=i, nr=nr, flags=t[2] if len(t) > 2 else 0)
			tr += TRACK % v + (PRINT % v if self.fp else "")
			m.put(heap, K("trk%d" % i), lay(*ps))
			rb += "\tloaded[%d].track_file = open('trk%d', 'rb')\n" % (nr, i)
			# where extracting them leaves the file
			rb += "\tloaded[%d].track_file.read()\n" % nr
		if self.att:
			m.put(heap, K("att"), lay(raw("att", 40)))
			rb += ATTACH
		rb = rb + REBUILD % dict(kind=self.kind, att="att" if self.att
		                         else "None") if rebuild else ""
		src = DRIVER
		if self.flags != 3:
			src = src.replace(CREATE, "")
			m.put(heap, P("srs"), self.build(
				False, srs=self.framed(), **self.opts))
		src = src % dict(
			kind=self.kind, tracks=tr, dict=", ".join(
				"%d: t%d" % (t[0], i) for i, t in enumerate(self.tracks, 1)),
			padding=self.padding[1], rebuild=rb, load=LOAD % dict(
				kind=self.kind) if rebuild else "\tgot = loaded = None\n")
		for n in ("LENGTH", "OFFSET", "SIGNATURE"):
			for i in (1, 2):
				src = src.replace("%s%d" % (n, i), "args.%s%d" % (n, i))
		for n in ("FINGERPRINT", "DURATION", "PADDING"):
			src = src.replace("= " + n, "= args." + n)
		src = src.replace("big, crc):", "big, crc, args):")
		A = P("args")
		for i in (1, 2):
			heap[(A, "LENGTH%d" % i)] = self.tlen(i)
			heap[(A, "OFFSET%d" % i)] = P("OFFSET%d" % i)
			heap[(A, "SIGNATURE%d" % i)] = sig(i)
		heap[(A, "FINGERPRINT")] = P("FINGERPRINT")
		heap[(A, "DURATION")] = ("lo", P("DURATION"))
		heap[(A, "PADDING")] = lay(*self.padding[0]) if self.padding[0] \
			else K(b"")
		I, outs = analyse(p, res, m, driver(p, MOD, src), LIMIT=200,
		                  MAX_STEPS=60000, heap=heap,
		                  args={"big": K(self.big), "crc": CRC})
		return I, outs, m


def cases():
	out = []
	L2 = (33, 11, 8, 255)
	V, A = "v", "a"
	for big in (False, True):
		lens = L2 if big else (20, 10, 256, 19)

		def case(*a, **kw):
			if len(a[3]) > 1:
				kw.setdefault("lens", lens)
			if big and a[0] in ("mkv", "flac", "mp3", "stream"):
				kw.setdefault("opts", {})["big"] = True
			out.append(Case(*a, big=big, **kw))
		case("avi", "two streams, odd and even chunks", avi, [
			(0, [raw("v1", 7), raw("v2", 70000)]), (1, [raw("a1", 4)])])
		case("mkv", "blocks with every lacing", mkv, [
			(1, [raw("v1", 300), raw("v2", 13), raw("v3", 20)]),
			(2, [raw("a1", 5), raw("a2", 9), raw("a3", 8)])], att=True)
		if not big:
			case("mkv", "text in the first frame", mkv, [
				(1, [num(b"x" * 400), raw("v1", 300), raw("v2", 13),
				     raw("v3", 20)]),
				(2, [raw("a1", 5), raw("a2", 9), raw("a3", 8)])], att=True,
				opts=dict(text=True), sigs={1: 512})
			case("mkv", "an SRS that has the attachments", mkv, [
				(1, [raw("v1", 300), raw("v2", 13), raw("v3", 20)]),
				(2, [raw("a1", 5), raw("a2", 9), raw("a3", 8)])], att=True,
				opts=dict(keep=True), flags=1)
			case("mkv", "another compression algorithm", mkv, [
				(1, [raw("v1", 300), raw("v2", 13), raw("v3", 20)]),
				(2, [raw("a1", 5), raw("a2", 9), raw("a3", 8)])], att=True,
				opts=dict(algo=1))
			case("mkv", "a track that is not announced", mkv, [
				(1, [raw("v1", 300), raw("v2", 13), raw("v3", 20)]),
				(2, [raw("a1", 5), raw("a2", 9), raw("a3", 8)])],
				opts=dict(late=True, att=False))
		def movie(what, cs, **kw):
			if not (big and kw.get("compact")):
				case("mp4", what, mp4, parts(chunks(*cs)),
				     opts=dict(spec=cs, **kw))
		n = HUGE if big else 0
		movie("interleaved chunks", [
			(1, "v", [7 + n, 3 + n]), (2, "a", [5]), (1, "w", [9, 300])],
			w=8 if big else 4)
		movie("a large track number, samples of one size", [
			(1, "v", [7]), (70000, "a", [5, 5]), (1, "w", [9, 300])],
			compact=True)
		movie("compact tables", [
			(1, "u", [7]), (1, "v", [8]), (2, "a", [5]), (1, "w", [9, 300]),
			(2, "b", [4]), (1, "x", [2, 3]), (2, "c", [6]),
			(2, "d", [1, 1])], compact=True)
		movie("compact tables, one run at the end", [
			(1, "u", [7]), (2, "a", [5]), (1, "w", [9, 30]), (2, "b", [4]),
			(1, "x", [2, 3]), (1, "y", [11, 6])], compact=True)
		case("wmv", "zero padding", wmv, [
			(1, [raw("v1", 130), raw("v2", 300), raw("v3", 130)]),
			(2, [raw("a1", 109), raw("a2", 111)])],
			padding=((b"\0" * 299,), 299))
		case("wmv", "irregular padding", wmv, [
			(1, [raw("v1", 130), raw("v2", 300), raw("v3", 130)]),
			(2, [raw("a1", 109), raw("a2", 111)])],
			padding=((raw("pad1", 114), raw("pad2", 73),
			          raw("pad3", 112)), 299),
			opts=dict(odd=True))
		case("wmv", "compressed payloads", wmv, [
			(1, [raw("v1", 130), raw("v2_0", 200), raw("v2_1", 33),
			     raw("v3", 130)]),
			(2, [raw("a1_0", 40), raw("a1_1", 60), raw("a1_2", 1),
			     raw("a2", 111)])], padding=((b"\0" * 383,), 383),
			opts=dict(comp=True))
		case("wmv", "a stream that is not announced", wmv, [
			(1, [raw("v1", 130), raw("v2", 300), raw("v3", 130)]),
			(2, [raw("a1", 109), raw("a2", 111)])],
			padding=((b"\0" * 299,), 299), opts=dict(late=True))
		if not big:
			case("flac", "as long as two blocks", flac, [(1, FRAMES)],
			     opts=dict(n=131072 - 132))
			case("flac", "a few bytes", flac, [(1, FRAMES)],
			     opts=dict(n=7))
			case("mp3", "as long as two blocks", mp3, [(1, MAIN)],
			     opts=dict(n=131072 - 1261))
			case("mp3", "a few bytes", mp3, [(1, MAIN[:3])],
			     opts=dict(short=True))
		for fp in (False, True):
			w = ", fingerprint" if fp else ""
			case("flac", "without tags" + w, flac, [(1, FRAMES)], fp=fp)
			case("flac", "ID3v2 and ID3v1 tag" + w, flac, [(1, FRAMES)],
			     fp=fp, opts=dict(id3=True, tag=True))
			case("mp3", "ID3v2 tag" + w, mp3, [(1, MAIN)], fp=fp)
			case("mp3", "no tags" + w, mp3, [(1, MAIN)], fp=fp,
			     opts=dict(id3=False))
			for n, end in (("ID3v1", TAG), ("Lyrics3", LYR + TAG),
			               ("APEv2", APE), ("APEv1", APE1),
			               ("APEv2, ID3v1", APE + TAG),
			               ("Lyrics3 version 1", LYR1),
			               ("APEv2, Lyrics3, ID3v1", APE + LYR + TAG)):
				case("mp3", n + " at the end" + w, mp3, [(1, MAIN)], fp=fp,
				     opts=dict(end=end))
		case("stream", "VOB", stream, [(1, [raw("all", 4000)])])
		case("m2ts", "three packets", m2ts, [(1, PAY)], rebuild=False,
		     found=[(0x1011, PAY[::2]), (0x1012, PAY[1:2])])
	return out


def samples(cs):
	"""one case for each sample"""
	out, seen = [], set()
	for c in cs:
		k = (c.kind, repr(c.opts))
		if k not in seen and not c.big and c.flags == 3:
			seen.add(k)
			out.append(c)
	return out


def handlers(p, name):
	"""the functions behind a method of the classes for kinds of samples"""
	mod = p.modules[MOD]
	out = []
	for c in mod.classes.values():
		for f in c.methods.values():
			if f.name != name:
				continue
			for n in ast.walk(f.node):
				g = mod.all_funcs.get(n.func.id) if isinstance(
					n, ast.Call) and isinstance(n.func, ast.Name) else None
				if g is not None and g.cls is None and g not in out:
					out.append(g)
	if not out:
		raise AnalysisError("anchor vanished: %s of the sample kinds" % name)
	return out


# -- verdicts --------------------------------------------------------------------
class Verdict(object):
	"""compares what the code made of a case with what it should be"""

	def __init__(self, p, res, case, rule, anchor):
		self.p, self.res, self.case, self.rule = p, res, case, rule
		self.fi = p.modules[MOD].all_funcs.get("%s_%s" % (case.kind, anchor))
		if self.fi is None:
			raise AnalysisError("anchor vanished: %s_%s" % (case.kind, anchor))
		self.st = None
		self.done = 0
		self.fine = self.doubts = 0
		self.vague = []
		self.lenient = False        # exceptions are somebody else's

	def bad(self, msg):
		self.clean = False
		if self.st is not None and self.st.mon.get("vague"):
			if self.st.mon["vague"] == "loop":
				self.doubts += 1
			self.vague.append((self.fi, msg))
			return
		self.report(msg)

	def report(self, msg):
		self.res.bad(self.rule, loc(self.fi, self.fi.node), self.fi.full,
		             "%s: %s" % (self.case.title, msg))

	def finish(self):
		"""paths behind a condition that is not modelled: one of them is
		taken, so they are wrong when all are"""
		if self.vague and not self.fine and not self.doubts:
			for self.fi, msg in self.vague:
				self.report(msg)
		elif self.vague:
			self.unsure("a condition on a value that is not modelled")
		self.vague, self.fine, self.doubts = [], 0, 0

	def unsure(self, why):
		self.doubts += 1
		self.clean = False
		self.res.incomplete = True
		self.res.notes.append("NOT DECIDED: %s: %s" % (self.case.title, why))

	def same(self, what, got, want):
		if got is None:
			return self.bad("%s is missing" % what)
		if layout.isbytes(got) or layout.isbytes(want):
			eq = flat(got) == flat(want)
		else:
			eq = norm(got) == norm(want)
		if eq:
			self.done += 1
			self.res.ok("%s: %s" % (self.case.title, what))
		elif unmodelled(got):
			self.unsure("%s comes from something that is not modelled" % what)
		else:
			self.bad("%s: %s" % (what, differ(got, want)))

	def outcomes(self, outs):
		for kind, st, v in outs:
			self.st = st
			self.clean = True
			if kind == "raise" and self.lenient:
				continue
			if kind == "raise":
				if v[0] == "exc":
					self.bad("fails with %s" % v[1].split(":")[-1])
				else:
					self.unsure("an exception of unknown type")
				continue
			yield st, v
			self.fine += self.clean
		self.finish()


def differ(got, want):
	"""the first place where two values differ"""
	if not (layout.isbytes(got) or layout.isbytes(want)):
		return "%s instead of %s" % (layout_show(norm(got)),
		                             layout_show(norm(want)))
	a, b = flat(got), flat(want)
	i = 0
	while i < len(a) and i < len(b) and a[i] == b[i]:
		i += 1
	pos = length(mklay(b[:i]))
	if i < len(a) and i < len(b) and a[i][0] == b[i][0] == "kb":
		x, y = a[i][1], b[i][1]
		n = 0
		while n < min(len(x), len(y)) and x[n] == y[n]:
			n += 1
		pos = layout.add(pos, K(n))
		a = a[:i] + (("kb", x[n:n + 12]),) + a[i + 1:]
		b = b[:i] + (("kb", y[n:n + 12]),) + b[i + 1:]
	return "at %s: %s instead of %s" % (
		layout_show(pos), layout_show(mklay(a[i:i + 3])) if i < len(a)
		else "nothing more", layout_show(mklay(b[i:i + 3]))
		if i < len(b) else "nothing more")


def stored(p, res, case):
	"""what is written to the SRS and what is loaded from it"""
	v = Verdict(p, res, case, "srs-records", "create_srs")
	outs = []
	if case.flags == 3:        # the way they are written now
		I, outs, m = case.run(p, res)
	for st, val in v.outcomes(outs):
		srs = m.content(st, P("srs"))
		if srs is None:
			v.bad("no SRS file is written")
			continue
		v.same("the SRS file", srs, case.build(
			False, srs=case.framed(), **case.opts))
	I, outs, m = case.load(p, res)
	v.fi = p.modules[MOD].all_funcs.get("%s_load_srs" % case.kind, v.fi)
	for st, val in v.outcomes(outs):
		got, tracks = val[1:3]
		full = case.build(True, **case.opts)
		for a, w in (("appname", ("glob", "resample", "APPNAME")),
		             ("sample_name", NAME), ("size", length(full)),
		             ("crc32", CRC)):
			v.same("the loaded %s" % a, st.heap.get((got, a)), w)
		es = dict(m.entries(st, tracks) or ()) if tracks[0] == "dict" else {}
		if set(es) != set(K(t[0]) for t in case.tracks):
			v.bad("the loaded tracks are %s" % ", ".join(
				sorted(layout_show(k) for k in es)))
			continue
		for i, t in enumerate(case.tracks, 1):
			o = es[K(t[0])]
			want = [("track_number", K(t[0])), ("data_length", case.tlen(i)),
			        ("match_offset", P("OFFSET%d" % i)),
			        ("signature_bytes", sig(i))]
			if case.fp:
				want += [("fingerprint", P("FINGERPRINT")),
				         ("duration", ("lo", P("DURATION")))]
			for a, w in want:
				v.same("the loaded %s of track %d" % (a, i),
				       st.heap.get((o, a)), w)
		if case.irregular():
			v.same("the loaded padding", st.heap.get((got, "padding_bytes")),
			       lay(*case.padding[0]))
	return v.done


def rebuilt(p, res, case, result=False):
	"""the sample made from the SRS and the track data (result: only that what
	is reported is the file that was made and its CRC)"""
	I, outs, m = case.run(p, res, rebuild=True)
	v = Verdict(p, res, case, "result" if result else "rebuild",
	            "rebuild_sample")
	v.lenient = result
	for st, val in v.outcomes(outs):
		full = case.build(True, **case.opts)
		out = m.content(st, P("out"))
		if out is None:
			v.bad("no sample is written")
			continue
		o = val[3]
		if result:
			full = out
			v.same("the reported file", st.heap.get((o, "name")), P("out"))
		else:
			v.same("the rebuilt sample", out, full)
		crc = st.heap.get((o, "crc32"))
		if crc is not None and crc[0] == "crcof":
			v.same("the bytes the CRC is taken of", crc[1], full)
		else:
			v.same("the CRC", crc, ("crcof", full))
	return v.done


class Wanted(object):
	"""a track to take out of a main file: from the piece of that number on
	(and so many bytes further), so many bytes"""

	def __init__(self, nr, ps, first=0, skip=0, n=None, comp=b"", at=None):
		self.nr, self.comp, self.at = nr, comp, at
		self.first, self.skip = ps[first], skip
		if self.first[0] == "kb" and len(ps) > first + 1:
			# constant bytes in front of it
			self.first = ps[first + 1]
			self.skip -= size(ps[first])[2]
		rest = lay(*ps[first:])
		n = length(rest)[2] - skip if n is None else n
		self.of(layout.cut(rest, K(skip), K(skip + n)))

	def of(self, data):
		self.n, self.data = length(data)[2], data

	def position(self, full):
		if self.at is not None:
			return self.at
		first = lay(self.first)
		n = 0
		for x in pieces(full):
			if (x,) == tuple(pieces(first)):
				return n + self.skip
			n += size(x)[2]
		raise AnalysisError("no such piece")


def packet_start(case, nr):
	"""where a data packet of a WMV file starts"""
	full = pieces(case.build(True, **case.opts))
	n = 0
	for x in full:
		if x == ("f", "<L", P("send%d" % nr)):
			return n - 6
		n += size(x)[2]
	raise AnalysisError("no such packet")


def extracted(p, res, case, what, wanted):
	"""the data of the tracks, taken out of the main file"""
	case.known()
	full = case.build(True, **case.opts)
	wanted = wanted()
	m = Samples(p)
	heap = {}
	m.put(heap, P("sample"), full)
	heap[(P("self"), "archived_file_name")] = K("")
	tr = rd = ""
	for i, w in enumerate(wanted, 1):
		tr += WANTED % dict(nr=w.nr, n=w.n, at=w.position(full), i=i,
		                    comp=w.comp)
		rd += READ % w.nr
		heap[(P("args"), "SIGNATURE%d" % i)] = cuthead(
			[w.data], case.sigs.get(i, 256))
	rd += "\tfiles = []\n"
	if case.att:
		rd += ("\tatt[b'font.ttf'].attachment_file.seek(0)\n"
		       "\tfiles.append(att[b'font.ttf'].attachment_file.read())\n")
	src = EXTRACT % dict(kind=case.kind, tracks=tr, read=rd)
	src = src.replace("(self, sample):", "(self, sample, args):")
	I, outs = analyse(p, res, m, driver(p, MOD, src), LIMIT=200,
	                  MAX_STEPS=60000, heap=heap)
	v = Verdict(p, res, case, "extract", "extract_sample_streams")

	def items(st, t):
		t = I.items_of(t, st) or t
		return t[1:] if t[0] == "tup" else None
	v.case = type("Title", (), {"title": "%s, %s" % (case.title, what)})
	for st, val in v.outcomes(outs):
		got = items(st, val[1])
		files = items(st, val[2])
		if got is None or len(got) != len(wanted) or files is None:
			v.unsure("the result")
			continue
		for w, g in zip(wanted, got):
			if not layout.isbytes(g):
				v.unsure("the data of track %d" % w.nr)
				continue
			n = length(g)
			if n[0] == "k" and n[2] > w.n:
				g = layout.cut(g, K(0), K(w.n))
			v.same("the data of track %d" % w.nr, g, w.data)
		if case.att:
			v.same("the attachment", files[0] if files else None,
			       lay(raw("att", 40)))
	return v.done


def cuthead(ps, n):
	"""the first n bytes"""
	full = lay(*ps)
	if length(full)[2] <= n:
		return full
	return layout.cut(full, K(0), K(n))


def profiled(p, res, case, whole=False):
	"""what is recorded of a sample (whole: only the CRC of all its bytes)"""
	case.known()
	full = case.build(True, **case.opts)
	m, outs = profiling(p, res, case, full)
	v = Verdict(p, res, case, "every-byte" if whole else "profile",
	            "profile_sample")
	v.lenient = whole
	for st, val in v.outcomes(outs):
		f, r = val[1:3]
		if r[0] != "tup" or len(r) < 3:
			v.unsure("the result")
			continue
		tracks = r[1]
		v.same("the size", st.heap.get((f, "size")), length(full))
		crc = st.heap.get((f, "crc32"))
		if crc is not None and crc[0] == "crcof":
			v.same("the bytes the CRC is taken of", crc[1], full)
		else:
			v.same("the CRC", crc, ("crcof", full))
		if whole:
			continue
		es = dict(m.entries(st, tracks) or ()) if tracks[0] == "dict" else {}
		if set(es) != set(K(t[0]) for t in case.found):
			v.bad("the tracks found are %s" % ", ".join(
				sorted(layout_show(k) for k in es)))
			continue
		for i, t in enumerate(case.found, 1):
			o = es[K(t[0])]
			want = [("track_number", K(t[0])), ("data_length", size(*t[1])),
			        ("signature_bytes", cuthead(t[1], case.sigs.get(
				        i, 256)))]
			if case.kind in ("flac", "mp3"):
				want += [("fingerprint", P("PRINT")), ("duration", P("SECS"))]
			for a, w in want:
				v.same("the %s of track %d" % (a, i),
				       st.heap.get((o, a)), w)
		if case.irregular() or case.kind == "wmv":
			v.same("the padding", st.heap.get((f, "padding_bytes")),
			       lay(*case.padding[0]))
			v.same("the amount of padding",
			       st.heap.get((f, "padding_amount")), K(case.padding[1]))
	return v.done


def profiling(p, res, case, full):
	"""outcomes of profiling this layout"""
	m = Samples(p)
	m.fingerprint = True
	heap = {}
	m.put(heap, P("sample"), full)
	heap[(P("self"), "archived_file_name")] = K("")
	I, outs = analyse(p, res, m, driver(p, MOD, PROFILE % dict(
		kind=case.kind)), LIMIT=200, MAX_STEPS=60000, heap=heap)
	return m, outs


def truncated(p, res, case, n):
	"""a sample of which only the first n bytes are there"""
	case.known()
	full = case.build(True, **case.opts)
	# what else goes wrong with half a sample does not matter
	tmp = type(res)(res.rule)
	m, outs = profiling(p, tmp, case, layout.cut(full, K(0), K(n)))
	tmp.violations, tmp.obligations, tmp.failed = [], 0, 0
	settled(res, tmp, type(res)(res.rule), "complete")
	if not tmp.incomplete:
		res.ok("%s: cut off at %d" % (case.title, n))
	v = Verdict(p, res, case, "complete", "profile_sample")
	v.lenient = True
	for st, val in v.outcomes(outs):
		v.bad("accepted although only %d of the %d bytes are there" % (
			n, length(full)[2]))
	return len(outs)


def cuts(case):
	"""where to cut off a sample: inside of its parts"""
	case.known()
	at, out = 0, []
	for x in flat(case.build(True, **case.opts)):
		n = length(mklay([x]))[2]
		if x[0] == "raw" and n > 1:
			out.append(at + n // 2)
		at += n
	return out + [at - 1]


def settled(res, found, layouts, what):
	"""what a rule on the structure of the code found counts where layouts
	do not decide the matter"""
	clean = not layouts.incomplete and not layouts.violations and \
		layouts.obligations
	if clean and found.violations:
		res.notes.append("advisory, the layouts are right: %s" % "; ".join(
			"%s %s" % (v["where"], v["message"]) for v in found.violations))
	for r in (layouts, found):
		res.obligations += r.obligations - r.failed
		res.functions |= r.functions
		res.sites += r.sites
		res.paths += r.paths
		res.steps += r.steps
		res.notes += r.notes
		res.incomplete = res.incomplete or (r.incomplete and not clean)
		if r is layouts or not clean:
			for v in r.violations:
				res.bad(v["rule"], v["where"], v["function"], v["message"],
				        v["via"])


def kind_of(cs, fi):
	"""the cases of the kind of sample a function is for"""
	return [c for c in cs if fi.name.split("_")[0] == c.kind]


ASSUME = [
	"the layouts stand for samples of these shapes with any values in their "
	"fields; other shapes (nesting, block sizes, lacing) are not covered",
	"unknown contents are not by chance equal to a constant the code looks "
	"for",
	"struct packs and unpacks as documented; files return what was written "
	"to them"]
