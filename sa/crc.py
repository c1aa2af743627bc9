"""CRC chains: which data a running checksum has consumed, from which start.

The value of crc32(data, acc) is abstracted to ("crc", R) where R is the start
value of the chain; that `data` was consumed is recorded in the typestate as
("D", data, R) -> number of times."""
from .absint import K, is_k
from .fs import base

MASK = K(0xFFFFFFFF)
CRC_FUNCS = ("zlib.crc32", "binascii.crc32")
ZERO = K(0)


def unmask(t):
	while True:
		b = base(t)
		if b[0] == "op" and b[1] == "BitAnd" and MASK in b[2:4]:
			t = b[3] if b[2] == MASK else b[2]
		elif b[0] == "op" and b[1] == "Mod" and b[3] == K(1 << 32):
			t = b[2]
		else:
			return t


def root(I, t, seen=()):
	"""start value of the chain a term belongs to"""
	t = unmask(t)
	b = base(t)
	if b[0] == "crc":
		return b[1]
	if b[0] == "phi" and b in I.phi_parts and b not in seen:
		rs = {root(I, x, seen + (b,)) for x in I.phi_parts[b]} - {b}
		if len(rs) == 1:
			return rs.pop()
	return b


def is_chain(I, t, seen=()):
	"""the term may be a checksum (or the start of one)"""
	b = base(unmask(t))
	if b[0] == "crc" or is_k(b) and b == ZERO:
		return True
	if b[0] == "phi" and b in I.phi_parts and b not in seen:
		return any(is_chain(I, x, seen + (b,)) for x in I.phi_parts[b])
	return False


def crc_call(I, st, name, args, kw, node=None):
	"""-> outcome of a crc32 call or None.  ("CS", site) -> 2 says that a
	chain was started again at the same place"""
	if name not in CRC_FUNCS or not args:
		return None
	acc = args[1] if len(args) > 1 else kw.get("value", ZERO)
	r = root(I, acc)
	if node is not None and base(unmask(acc)) == ZERO:
		k = ("CS", I.site(st, node))
		st.mon[k] = min(st.mon.get(k, 0) + 1, 2)
	k = ("D", args[0], r)
	st.mon[k] = min(st.mon.get(k, 0) + 1, 2)
	return [("ok", st, ("crc", r))]
