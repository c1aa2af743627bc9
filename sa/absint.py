"""Path-sensitive abstract interpreter over Python syntax trees.

This is property simulation in the style of ESP: the abstract state is a
typestate ("monitor" state) plus an environment of value numbers (Herbrand
terms), explored along every structured control flow path including the
exceptional ones.  States that agree on the typestate are joined when there
are too many of them; loops are run to a fixpoint with widening.  Branch
conditions are only correlated syntactically (a condition over the same value
numbers has the same outcome); no solver is involved and nothing is executed.

Callees inside the project are analysed in place when they may perform an
event the property's monitor is interested in, so extracting a helper or
inlining one does not change a verdict.
"""
import ast
import builtins
import os
import re
import string

from . import live
from .project import (AnalysisError, FuncInfo, ClassInfo, Module, loc,
                      CHA_SKIP)


def K(v):
	return ("k", type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def is_k(t):
	return isinstance(t, tuple) and len(t) == 3 and t[0] == "k"


def kval(t, default=None):
	return t[2] if is_k(t) else default


def mentions(t, x):
	if t is x:
		return True
	c = t.__class__
	if c is tuple:
		if t == x:
			return True
		for e in t:
			c = e.__class__
			if (c is tuple or c is frozenset) and mentions(e, x):
				return True
		return False
	if c is frozenset:
		for e in t:
			if mentions(e, x):
				return True
		return False
	return t == x


def subst(t, old, new, memo=None):
	if t == old:
		return new
	if isinstance(t, tuple):
		if t and (t[0] == "k" or t[0] == "prev" and t[1] == old):
			return t
		ch = False
		out = []
		for e in t:
			if isinstance(e, (tuple, frozenset)):
				e2 = subst(e, old, new)
				if e2 is not e:
					ch = True
				out.append(e2)
			else:
				out.append(e)
		return tuple(out) if ch else t
	if isinstance(t, frozenset):
		return frozenset(subst(e, old, new) for e in t)
	return t


def depth(t, lim=40):
	if not isinstance(t, tuple) or lim <= 0:
		return 0
	m = 0
	for e in t:
		if isinstance(e, tuple):
			d = depth(e, lim - 1)
			if d > m:
				m = d
	return m + 1


def show(t, n=0):
	"""Readable rendering of a term for reports."""
	if not isinstance(t, tuple) or not t:
		return str(t)
	k = t[0]
	try:
		if k == "k":
			return repr(t[2])
		if k == "param":
			return t[1]
		if k == "attr":
			return "%s.%s" % (show(t[1]), t[2])
		if k == "c":
			return "%s(%s)" % (t[1], ", ".join(show(a) for a in t[2]))
		if k == "r":
			return "%s()@%s" % (t[2], t[1][1])
		if k == "elem":
			return "element of %s" % show(t[2])
		if k == "op":
			return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
		if k == "cmp":
			return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
		if k == "not":
			return "not %s" % show(t[1])
		if k == "new":
			return "<%s object>" % t[2]
		if k == "tup":
			return "(%s)" % ", ".join(show(x) for x in t[1:])
		if k == "sub":
			return "%s[%s]" % (show(t[1]), show(t[2]))
		if k == "ext":
			return t[1]
		if k == "self":
			return "self"
		if k == "phi":
			return "phi:%s" % t[2]
	except Exception:
		pass
	return "<%s>" % k


class Budget(BaseException):
	"""too much to look at (not an Exception: raised at any point when the
	time is up)"""


class Site(object):
	"""Interned program point (with its inlining context).  Not a tuple, so
	that term traversals stop here."""
	__slots__ = ("key", "n")
	_tab = {}

	def __new__(cls, key):
		s = cls._tab.get(key)
		if s is None:
			s = object.__new__(cls)
			s.key, s.n = key, len(cls._tab)
			cls._tab[key] = s
		return s

	def __init__(self, key):
		pass

	def __add__(self, more):
		return Site((self,) + tuple(more))

	def __getitem__(self, i):
		k = self.key
		while k and isinstance(k[0], Site):
			k = k[0].key
		return k[i] if i < len(k) else None

	def __repr__(self):
		return "@%d" % self.n

	def __copy__(self):
		return self

	def __deepcopy__(self, memo):
		return self


ROOT = Site(("root",))

#: what has no value: evaluating it raised (the hook has thrown it)
BOTTOM = ("bottom",)


class Frame(object):
	__slots__ = ("fid", "fi", "env", "parent", "exc", "globs", "site", "at")

	def __init__(self, fid, fi, env, parent=None, exc=None, site=None):
		self.fid, self.fi, self.env, self.parent = fid, fi, env, parent
		self.exc, self.site = exc, site or ROOT
		self.at = None      # the statement that was executed last

	def copy(self):
		f = Frame(self.fid, self.fi, dict(self.env), self.parent, self.exc,
		          self.site)
		f.at = self.at
		return f


class State(object):
	__slots__ = ("frames", "heap", "facts", "mon", "created")
	#: objects made at the same place are all told apart
	exact = False

	def __init__(self):
		self.frames, self.heap, self.facts = [], {}, {}
		self.mon, self.created = {}, frozenset()

	def copy(self):
		s = State()
		s.frames = [f.copy() for f in self.frames]
		s.heap = dict(self.heap)
		s.facts = dict(self.facts)
		s.mon = dict(self.mon)
		s.created = self.created
		return s

	@property
	def env(self):
		return self.frames[-1].env

	def ekey(self):
		return (tuple((f.fid, frozenset(f.env.items())) for f in self.frames),
		        frozenset(self.heap.items()), frozenset(self.mon.items()))

	def key(self):
		return self.ekey() + (frozenset(self.facts.items()),)

	def rename(self, old, new):
		for f in self.frames:
			for k, v in f.env.items():
				if isinstance(v, tuple):
					f.env[k] = subst(v, old, new)
			if f.exc is not None:
				f.exc = subst(f.exc, old, new)
		self.heap = {subst(k, old, new): subst(v, old, new)
		             for k, v in self.heap.items()}
		self.facts = {k: v for k, v in self.facts.items()
		              if not mentions(k, old)}
		self.mon = {subst(k, old, new) if isinstance(k, tuple) else k:
		            subst(v, old, new) for k, v in self.mon.items()}

	def has(self, term):
		for f in self.frames:
			for v in f.env.values():
				if isinstance(v, tuple) and mentions(v, term):
					return True
		for k, v in self.heap.items():
			if mentions(k, term) or mentions(v, term):
				return True
		for k in self.facts:
			if mentions(k, term):
				return True
		for k, v in self.mon.items():
			if mentions(k, term) or mentions(v, term):
				return True
		return False

	def fresh(self, term):
		"""Use `term` as a new value; an older value of the same program
		point becomes its 'prev' generation."""
		if term in self.created:
			if not self.has(term):
				return term
			if self.exact and term[0] in ("new", "list", "dict", "bytearr",
			                              "r"):
				# a name of its own
				i = 1
				n = 1
				while True:
					t = term[:i] + (Site((term[i], n)),) + term[i + 1:]
					if t not in self.created:
						break
					n += 1
				self.created = self.created | {t}
				return t
			p = ("prev", term)
			self.facts = {k: v for k, v in self.facts.items()
			              if not mentions(k, p)}
			self.rename(term, p)
		else:
			self.created = self.created | {term}
		return term


ENV_CONST = {
	"os.name": "posix", "os.sep": "/", "os.path.sep": "/",
	"os.curdir": ".", "os.path.curdir": ".", "os.pardir": "..",
	"os.path.pardir": "..", "os.devnull": "/dev/null",
	"os.path.devnull": "/dev/null", "os.linesep": "\n",
	"sys.hexversion": 0x030c03f0, "sys.platform": "linux",
	"os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2,
	"io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2,
	"os.altsep": None,
}

PURE = set("""
len str int float bool repr abs min max sum ord chr hex bin bytes bytearray
isinstance issubclass type tuple range enumerate zip iter
hasattr callable round divmod unicode basestring frozenset
os.path.join os.path.basename os.path.dirname os.path.normpath
os.path.splitext os.path.abspath os.path.realpath os.path.relpath
os.path.split os.path.isabs os.path.commonprefix os.path.expanduser
struct.pack struct.calcsize struct.unpack struct.unpack_from struct.Struct
zlib.crc32 binascii.crc32 binascii.hexlify binascii.unhexlify
re.escape operator.itemgetter
""".split())

PURE_METHODS = set("""
lower upper strip lstrip rstrip replace encode decode startswith endswith
split rsplit splitlines partition rpartition join format find rfind index
rindex rjust ljust zfill title count isdigit
fileno group groups unpack unpack_from pack hexdigest digest isoformat
""".split())

NORAISE = set("""
len isinstance issubclass type print repr str bool id callable hasattr
list dict set tuple frozenset bytearray enumerate zip iter map filter sorted
reversed sum any all range object super property
os.path.join os.path.basename os.path.dirname os.path.normpath
os.path.splitext os.path.split os.path.isabs os.path.exists os.path.isfile
os.path.isdir os.path.lexists os.path.abspath os.path.realpath
os.path.islink os.fdopen
time.time time.sleep traceback.print_exc traceback.format_exc
sys.stdout.write sys.stderr.write sys.stdout.flush sys.stderr.flush
sys.exc_info re.compile re.escape re.match re.search zlib.crc32
threading.Lock collections.OrderedDict collections.namedtuple
warnings.warn binascii.hexlify io.BytesIO BytesIO StringIO
""".split())

NORAISE_METHODS = set("""
lower upper strip lstrip rstrip replace startswith endswith append extend
insert setdefault keys values items update add discard join format
copy clear reverse sort splitlines partition rpartition find rfind
hexdigest digest flush
rjust ljust zfill title count isdigit split rsplit get
set_messages set_all print_help format_help
""".split())

# names as in .exit()/.error() of an option parser
EXITS = {"sys.exit", "exit", "quit", "os._exit"}


BUILTIN_EXC = {n: o for n, o in vars(builtins).items()
               if isinstance(o, type) and issubclass(o, BaseException)}
NOT_EXCEPTION = {"KeyboardInterrupt", "SystemExit", "GeneratorExit",
                 "BaseException"}


class Monitor(object):
	"""Base class of property automata.  All state lives in st.mon."""
	#: exceptions of calls: "all" (every call may raise), "handled" (only
	#: where an enclosing handler/finally of the analysed code sees it),
	#: "none"
	raise_mode = "all"
	keyboard_interrupt = False
	#: assert statements of the analysed code are taken as true
	assertions_hold = False
	#: ... but one that is known to be wrong fails
	asserts_decided = False
	#: no second failure while a first one is being handled
	single_fault = False
	#: simple names of operations the monitor observes; callees that may
	#: reach one are inlined, others are treated as opaque
	events = ()
	opaque = ()
	force_inline = ()
	#: phis of different typestates are different values
	phi_by_key = False
	#: states with different counters are never merged
	exact_loops = False
	inline_small = 6
	max_depth = 10
	#: "for x in generator()" runs the generator's body
	inline_generators = False
	#: prefixes of modules whose functions are all inlined
	inline_modules = ()
	#: how many items of a sequence are told apart
	seq_limit = 8
	max_rounds = 40
	unroll_lists = False
	exact_objects = False
	eager_generators = False  # a call of one gives the list of its items

	def __init__(self, project):
		self.p = project
		self.reports = []
		self._seen = set()

	def report(self, I, st, node, rule, msg, extra=None):
		fi = st.frames[-1].fi
		where = loc(fi, node) if node is not None else fi.mod.rel
		k = (rule, where, msg)
		if k in self._seen:
			return
		self._seen.add(k)
		self.reports.append({
			"rule": rule, "where": where, "function": fi.full, "message": msg,
			"via": [loc(f.fi, f.fi.node) + " " + f.fi.qual
			        for f in st.frames], "extra": extra})

	# hooks -----------------------------------------------------------
	def call(self, I, st, name, recv, args, kw, node):
		"""Return None for default treatment or a list of
		('ok', state, value) / ('raise', state, exc)."""
		return None

	def enter_with(self, I, st, val, node):
		return val

	def exit_with(self, I, st, val, node):
		pass

	def iterate(self, I, st, itval, elem, node):
		pass

	def keys_of(self, st, t):
		"""the keys of a dict, as ('tup', ...), when all are known"""
		return None

	def iter_end(self, I, st, itval, node):
		pass

	def loop_back(self, I, st, node):
		pass

	def loop_exit(self, I, st, node):
		"""the loop ends because of its condition"""

	def comp_elem(self, I, st, coll, val, node):
		"""`val` becomes an element of the collection `coll`"""

	def truth(self, I, st, term):
		return None

	def on_raise(self, I, st, exc, node):
		pass

	def on_branch(self, I, st, term, value, node):
		pass

	def attr_load(self, I, st, base, name, node):
		return None

	def on_store(self, I, st, base, name, val, node):
		pass

	def on_subscript(self, I, st, base, idx, node):
		return None

	def on_binop(self, I, st, op, a, b, node):
		return None

	def on_compare(self, I, st, op, a, b, node):
		"""BOTTOM when comparing raises"""
		return None

	def on_yield(self, I, st, val, node):
		pass

	def on_return(self, I, st, val, node):
		pass

	def merge_key(self, st):
		return frozenset(st.mon.items())

	def join_mon(self, a, b):
		return None


_WHILES = {}


def _plain_while(s):
	"""while True: if end: break; ...  as  while not end: ..."""
	if id(s) in _WHILES:
		return _WHILES[id(s)][1]
	r = s
	if isinstance(s.test, ast.Constant) and s.test.value and \
			len(s.body) > 1 and not s.orelse:
		b = s.body[0]
		if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and \
				isinstance(b.body[0], ast.Break):
			t = b.test
			t = t.operand if isinstance(t, ast.UnaryOp) and \
				isinstance(t.op, ast.Not) else ast.copy_location(
					ast.UnaryOp(ast.Not(), t), t)
			r = ast.copy_location(ast.While(t, s.body[1:], []), s)
	_WHILES[id(s)] = (s, r)
	return r


class Interp(object):
	LIMIT = 5
	MAX_STEPS = 150000

	def __init__(self, project, monitor, types=None):
		self.p, self.m = project, monitor
		self.types = types or {}     # hints: param name -> class full
		self.sinks = []
		self.trydepth = 0
		self.fidn = 0
		self.lambdas = {}
		self.gens = []
		self.steps = 0
		State.exact = monitor.exact_objects
		self.rewritten = {}
		self.phi_parts = {}    # phi -> values it may stand for
		self.stats = {"steps": 0, "inlined": set(), "opaque": set(),
		              "calls": 0, "joins": 0, "loops": 0}
		self.loopdepth = 0
		self._relevant = (project.reaches(frozenset(monitor.events))
		                  if monitor.events else set())

	# ------------------------------------------------------------ utils
	def site(self, st, node):
		f = st.frames[-1]
		return Site((f.fi.mod.name, getattr(node, "lineno", 0),
		             getattr(node, "col_offset", 0), f.site))

	def mk(self, t, st, node):
		if depth(t) > 16:
			return st.fresh(("unk", self.site(st, node)))
		return t

	def throw(self, st, exc, node=None):
		"""Record an exceptional outcome with (a private copy of) st."""
		self.m.on_raise(self, st, exc, node)
		self.sinks[-1].append((st, exc))

	def maybe_throw(self, st, exc, node):
		mode = self.m.raise_mode
		if mode == "none":
			return
		if self.m.single_fault and any(f.exc is not None
		                               for f in st.frames):
			return
		if mode == "handled" and not self.trydepth:
			return
		self.throw(st.copy(), exc, node)
		if self.m.keyboard_interrupt:
			self.throw(st.copy(), ("exc", "KeyboardInterrupt"), node)

	# ------------------------------------------------------ entry point
	def run(self, fi, args=None, selfval=None, mon=None, heap=None):
		"""Analyse function `fi` from its entry. Returns list of outcomes
		(kind, state, value); kind in 'return', 'raise'."""
		st = State()
		st.mon = dict(mon or {})
		st.heap = dict(heap or {})
		env = {}
		a = fi.node.args
		names = fi.params()
		args = args or {}
		for i, n in enumerate(names):
			if n in args:
				env[n] = args[n]
			elif i == 0 and fi.cls is not None:
				env[n] = selfval or ("self", fi.cls.full)
			else:
				env[n] = ("param", n)
		for x in a.kwonlyargs:
			env[x.arg] = args.get(x.arg, ("param", x.arg))
		if a.vararg:
			env[a.vararg.arg] = ("param", a.vararg.arg)
		if a.kwarg:
			env[a.kwarg.arg] = ("param", a.kwarg.arg)
		self.fidn += 1
		self.scope = self.p.import_closure(fi.mod)
		st.frames = [Frame(self.fidn, fi, env)]
		self.sinks = [[]]
		outs = self.exec_body(fi.node.body, [st])
		res = []
		for kind, s, v in outs:
			if kind == "n":
				self.m.on_return(self, s, NONE, fi.node)
				res.append(("return", s, NONE))
			elif kind == "r":
				res.append(("return", s, v))
			elif kind == "x":
				res.append(("raise", s, v))
		self.stats["steps"] = self.steps
		return res

	# -------------------------------------------------------- merging
	def reduce(self, states, force=False, site=None):
		if len(states) <= 1:
			return states
		g = {}
		order = []
		for s in states:
			k = s.ekey()
			if k in g:
				self._meet_facts(g[k], s)
			else:
				g[k] = s
				order.append(k)
		states = [g[k] for k in order]
		if len(states) > self.LIMIT or force:
			states = self.join(states, site)
		return states

	def parts(self, t, seen=None):
		"""the values a term may stand for (phis expanded)"""
		seen = seen or set()
		if t in seen:
			return set()
		seen.add(t)
		if t[0] != "phi" or t not in self.phi_parts:
			return {t}
		r = set()
		for x in self.phi_parts[t]:
			r |= self.parts(x, seen)
		return r

	def _meet_facts(self, a, s):
		a.facts = {f: v for f, v in a.facts.items()
		           if s.facts.get(f) == v}
		a.created = a.created | s.created

	def _flags(self, s):
		out = []
		for f in s.frames[-1:]:
			for n, v in f.env.items():
				if is_k(v) and v[1] in ("bool", "NoneType") and \
						not (f.at and live.dead(f.fi, f.at, n)):
					out.append((n, v[2]))
		if self.m.exact_loops:
			# counters are not merged
			for f in s.frames:
				out += [(f.fid, n, v) for n, v in f.env.items()
				        if is_k(v) and (v[1] == "int" or v[1] == "str" and
				                        self.m.eager_generators)]
			# neither are lengths of lists
			out += [(t[0], len(v)) for t, v in s.heap.items()
			        if t[1] == "$items" and v[0] == "tup"]
		return frozenset(out)

	def join(self, states, site=None, flags=True):
		self.stats["joins"] += 1
		g, order = {}, []
		for s in states:
			k = (self.m.merge_key(s), self._flags(s) if flags else None,
			     tuple(f.fid for f in s.frames))
			if k in g:
				g[k] = self._join2(g[k], s, site)
			else:
				g[k] = s.copy()
				order.append(k)
		res = [g[k] for k in order]
		if len(res) > self.LIMIT * 2 and flags:
			return self.join(res, site, flags=False)
		return res

	def _join2(self, a, b, site):
		if self.m.phi_by_key:
			# values merged in different typestates stay apart
			site = (site or "j", self.m.merge_key(a))
		known = {}
		for fa, fb in zip(a.frames, b.frames):
			names = set(fa.env) | set(fb.env)
			for n in names:
				va, vb = fa.env.get(n), fb.env.get(n)
				if va != vb:
					if va is None or vb is None:
						# bound on one path only: its value when bound
						fa.env[n] = va or vb
						continue
					ph = ("phi", (site or "j", fa.fid), n)
					d = self._known_truth(va, a)
					if d is not None and d == self._known_truth(vb, b):
						known[ph] = d
					self.phi_parts.setdefault(ph, set()).update(
						x for x in (va, vb) if x != ph)
					fa.env[n] = ph
		h = {}
		for k in set(a.heap) | set(b.heap):
			va, vb = a.heap.get(k), b.heap.get(k)
			if va == vb:
				h[k] = va
			else:
				h[k] = ph = ("phi", (site or "j", "heap"), k)
				self.phi_parts.setdefault(ph, set()).update(
					x for x in (va or NONE, vb or NONE) if x != ph)
		a.heap = h
		self._meet_facts(a, b)
		# facts about freshly made phis are stale
		a.facts = {f: v for f, v in a.facts.items()
		           if not _has_phi(f, site)}
		a.facts.update(known)
		if a.mon != b.mon:
			jm = self.m.join_mon(a.mon, b.mon)
			if jm is not None:
				a.mon = jm
		return a

	def _known_truth(self, v, st):
		"""truth of a condition kept in a variable"""
		if is_k(v):
			return bool(v[2]) if v[1] in ("bool", "NoneType") else None
		if v[0] == "not":
			d = self._known_truth(v[1], st)
			return None if d is None else not d
		return st.facts.get(v)

	def _cap(self, pairs, site=None):
		"""reduce list of (state, value) pairs"""
		if len(pairs) <= 1:
			return pairs
		g, order = {}, []
		for s, v in pairs:
			k = (s.ekey(), v)
			if k in g:
				self._meet_facts(g[k][0], s)
			else:
				g[k] = (s, v)
				order.append(k)
		pairs = [g[k] for k in order]
		if len(pairs) > self.LIMIT:
			h, order = {}, []
			for s, v in pairs:
				k = (self.m.merge_key(s), v, tuple(f.fid for f in s.frames))
				if k in h:
					h[k] = (self._join2(h[k][0], s, site), v)
				else:
					h[k] = (s.copy(), v)
					order.append(k)
			pairs = [h[k] for k in order]
		return pairs

	# ------------------------------------------------------- statements
	def exec_body(self, stmts, states):
		"""-> list of (kind, state, value)"""
		done = []
		for s in stmts:
			if not states:
				break
			nxt = []
			for st in states:
				self.steps += 1
				if self.steps > self.MAX_STEPS:
					raise Budget(
						"analysis budget exceeded in %s" %
						st.frames[0].fi.full)
				sink = []
				self.sinks.append(sink)
				try:
					outs = self.exec_stmt(s, st)
				finally:
					self.sinks.pop()
				for kind, s2, v in outs:
					if kind == "n":
						s2.frames[-1].at = id(s)
						nxt.append(s2)
					else:
						done.append((kind, s2, v))
				for s2, e in sink:
					done.append(("x", s2, e))
			states = self.reduce(nxt, site=("s", getattr(s, "lineno", 0)))
			if len(done) > 12:
				done = self.reduce_outs(done)
		return [("n", s, None) for s in states] + done

	def reduce_outs(self, outs):
		by = {}
		order = []
		for kind, s, v in outs:
			k = (kind, v)
			if k not in by:
				by[k] = []
				order.append(k)
			by[k].append(s)
		res = []
		for k in order:
			for s in self.reduce(by[k], site=("o", k[0])):
				res.append((k[0], s, k[1]))
		return res

	def exec_stmt(self, s, st):
		m = getattr(self, "st_" + type(s).__name__, None)
		if m is None:
			return [("n", st, None)]
		return m(s, st)

	def st_Expr(self, s, st):
		if isinstance(s.value, ast.Constant):
			return [("n", st, None)]
		return [("n", x, None) for x, _v in self.eval(s.value, st)]

	def st_Pass(self, s, st):
		return [("n", st, None)]

	st_Global = st_Nonlocal = st_Pass

	def st_Import(self, s, st):
		if self.trydepth:
			self.maybe_throw(st, ("exc", "ImportError"), s)
		for a in s.names:
			dotted = a.name if a.asname else a.name.split(".")[0]
			pm = self.p.find_module(dotted)
			st.env[a.asname or dotted] = (("M", pm.name) if pm
			                              else ("ext", dotted))
		return [("n", st, None)]

	def st_ImportFrom(self, s, st):
		if self.trydepth:
			self.maybe_throw(st, ("exc", "ImportError"), s)
		for a in s.names:
			pm = self.p.find_module(s.module or "")
			v = None
			if pm:
				v = self._member_val(pm, a.name, st)
			st.env[a.asname or a.name] = v or ("ext", "%s.%s" % (
				s.module, a.name))
		return [("n", st, None)]

	def st_FunctionDef(self, s, st):
		f = st.frames[-1]
		fi = f.fi.nested.get(s.name)
		if fi is None:
			fi = FuncInfo(f.fi.mod, s, f.fi.qual + "." + s.name, None, f.fi)
		key = fi.full
		self.lambdas[key] = fi
		st.env[s.name] = ("clo", key, f.fid)
		return [("n", st, None)]

	def st_ClassDef(self, s, st):
		f = st.frames[-1]
		q = f.fi.qual + "." + s.name
		st.env[s.name] = ("C", "%s:%s" % (f.fi.mod.name, q))
		return [("n", st, None)]

	def st_Return(self, s, st):
		if s.value is None:
			self.m.on_return(self, st, NONE, s)
			return [("r", st, NONE)]
		out = []
		for x, v in self.eval(s.value, st):
			self.m.on_return(self, x, v, s)
			out.append(("r", x, v))
		return out

	def st_Break(self, s, st):
		return [("b", st, None)]

	def st_Continue(self, s, st):
		return [("c", st, None)]

	def st_Raise(self, s, st):
		if s.exc is None:
			e = None
			for f in reversed(st.frames):
				if f.exc is not None:
					e = f.exc
					break
			self.throw(st, e or ("exc", "Any"), s)
			return []
		for x, v in self.eval(s.exc, st):
			self.throw(x, self.exc_of(v), s)
		return []

	def exc_of(self, v):
		if isinstance(v, tuple) and v:
			if v[0] == "exc":
				return v
			if v[0] == "new":
				return ("exc", v[2])
			if v[0] == "C":
				return ("exc", v[1])
			if v[0] == "ext":
				return ("exc", v[1].split(".")[-1]
				        if v[1].split(".")[-1] in BUILTIN_EXC else v[1])
			if v[0] in ("r", "c") and v[0] == "r":
				n = v[2].split(".")[-1]
				return ("exc", n if n in BUILTIN_EXC else v[2])
			if v[0] == "c":
				n = v[1].split(".")[-1]
				return ("exc", n if n in BUILTIN_EXC else v[1])
		return ("exc", "Any")

	def st_Assert(self, s, st):
		out = []
		res = self.cond(s.test, st)
		fails = self.m.asserts_decided and res and \
			not any(b for x, b in res)
		for x, b in res:
			if b:
				out.append(("n", x, None))
			elif fails or not self.m.assertions_hold:
				self.throw(x, ("exc", "AssertionError"), s)
		return out

	def st_Delete(self, s, st):
		for t in s.targets:
			if isinstance(t, ast.Name):
				st.env.pop(t.id, None)
			elif isinstance(t, ast.Subscript):
				r = self.eval(t.value, st)
				if not r:
					return []
				ix = self.eval(t.slice, r[0][0])
				if not ix:
					return []
				(st, i), b = ix[0], r[0][1]
				if self.items_of(b, st) is not None and \
						not self._set_items(b, i, None, st):
					st.heap[(b, "$items")] = ("unk", "items")
				o = st.heap.get((b, "$order"))
				if o is not None:
					st.heap[(b, "$order")] = tuple(x for x in o if x != i)
				for k in [k for k in st.heap if k[0] == b and
				          isinstance(k[1], tuple) and k[1][0] == "[]" and (
					          k[1][1] == i or not is_k(i) or
					          b[0] == "list")]:
					del st.heap[k]
		return [("n", st, None)]

	def st_If(self, s, st):
		t, f = [], []
		for x, b in self.cond(s.test, st):
			(t if b else f).append(x)
		t = self.reduce(t, site=("if", s.lineno, 1))
		f = self.reduce(f, site=("if", s.lineno, 0))
		outs = []
		if t:
			outs += self.exec_body(s.body, t)
		if f:
			outs += self.exec_body(s.orelse, f)
		return outs

	def st_Assign(self, s, st):
		out = []
		for x, v in self.eval(s.value, st):
			for t in s.targets:
				self.assign(t, v, x, s)
			out.append(("n", x, None))
		return out

	def st_AnnAssign(self, s, st):
		if s.value is None:
			return [("n", st, None)]
		out = []
		for x, v in self.eval(s.value, st):
			self.assign(s.target, v, x, s)
			out.append(("n", x, None))
		return out

	def st_AugAssign(self, s, st):
		out = []
		load = _as_load(s.target)
		for x, cur in self.eval(load, st):
			for y, v in self.eval(s.value, x):
				r = self.binop(type(s.op).__name__, cur, v, y, s)
				self.assign(s.target, r, y, s)
				out.append(("n", y, None))
		return out

	def assign(self, t, v, st, node):
		if isinstance(t, ast.Name):
			fi = st.frames[-1].fi
			if t.id in _globals_of(fi):
				st.heap[(("M", fi.mod.name), t.id)] = v
				self.m.on_store(self, st, ("M", fi.mod.name), t.id, v, node)
			elif t.id in _nonlocals_of(fi):
				fr = self._closure_frame(st, t.id)
				if fr is not None:
					fr.env[t.id] = v
			else:
				st.env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			n = len(t.elts)
			starred = any(isinstance(e, ast.Starred) for e in t.elts)
			for i, e in enumerate(t.elts):
				if isinstance(e, ast.Starred):
					self.assign(e.value, st.fresh(
						("unk", self.site(st, e))), st, node)
				elif (isinstance(v, tuple) and v and v[0] == "tup"
						and len(v) == n + 1 and not starred):
					self.assign(e, v[i + 1], st, node)
				else:
					self.assign(e, self.mk(("sub", v, K(i)), st, e), st, node)
		elif isinstance(t, ast.Attribute):
			for x, b in self.eval(t.value, st)[:1]:
				st.heap[(b, t.attr)] = v
				st.facts = {k: w for k, w in st.facts.items()
				            if not mentions(k, ("attr", b, t.attr))}
				self.m.on_store(self, st, b, t.attr, v, node)
		elif isinstance(t, ast.Subscript):
			r = self.eval(t.value, st)
			if r:
				b = r[0][1]
				ix = self.eval(t.slice, st)
				if ix:
					i = ix[0][1]
					old = self.items_of(b, st)
					if old is not None and self._set_items(b, i, v, st):
						if i[0] != "slice":
							self.m.on_store(self, st, b, ("[]", i), v, node)
						return
					for k in [k for k in st.heap if k[0] == b and
					          isinstance(k[1], tuple) and k[1][0] == "[]"]:
						if not (is_k(k[1][1]) and is_k(i)):
							del st.heap[k]
					st.heap[(b, ("[]", i))] = v
					self.m.on_store(self, st, b, ("[]", i), v, node)
					if old is not None and self.items_of(b, st) is old:
						st.heap[(b, "$items")] = ("unk", "items")

	def _set_items(self, b, i, v, st):
		"""xs[i] = v, del xs[i] (v is None), also of slices; true when
		nothing else is to be kept of it"""
		it = list(self.items_of(b, st)[1:])
		i = self._const_index(i)
		w = v
		if isinstance(i, slice) and v is not None:
			w = v if v[0] == "tup" else self.items_of(v, st)
		if i is None or w is None and v is not None:
			return False
		try:
			if v is None:
				del it[i]
			elif isinstance(i, slice):
				it[i] = w[1:]
			else:
				it[i] = v
		except (IndexError, ValueError):
			return False
		st.heap[(b, "$items")] = ("tup",) + tuple(it)
		st.facts = {f: x for f, x in st.facts.items() if not mentions(f, b)}
		return True

	def _const_index(self, i):
		if is_k(i) and isinstance(i[2], int):
			return i[2]
		if i[0] == "slice" and all(is_k(x) and (
				x[2] is None or isinstance(x[2], int)) for x in i[1:]):
			return slice(*[x[2] for x in i[1:]])
		return None

	# ---- loops --------------------------------------------------------
	def st_While(self, s, st):
		s = _plain_while(s)

		def test(x):
			t, f = [], []
			for y, b in self.cond(s.test, x):
				(t if b else f).append(y)
			return t, f
		return self.loop(s, [st], test)

	def _iter_src(self, v):
		while isinstance(v, tuple) and v and v[0] in ("c", "r") and \
				isinstance(v[-1], tuple) and v[-1]:
			nm = v[1] if v[0] == "c" else v[2]
			if nm in ("list", "iter", "reversed", "sorted", "tuple") and \
					len(v[-1]) < 2:
				v = v[-1][0] if v[0] == "c" else v[3][0]
			else:
				break
		return v

	def st_For(self, s, st):
		out = []
		if self.m.inline_generators and isinstance(s.iter, ast.Call):
			r = self.for_generator(s, st)
			if r is not None:
				return r
		for x, itv in self.eval(s.iter, st):
			out += self.for_over(s, s.target, itv, x,
			                     s.body, s.orelse)
		return out

	def for_generator(self, s, st):
		"""for v in generator(...): the generator's body is executed with the
		loop body in place of its yields"""
		n = s.iter
		f = n.func
		todo = []
		if isinstance(f, ast.Attribute):
			for x, b in self.eval(f.value, st.copy()):
				c = self._class_of(x, b)
				fi = self.p.find_method(c, f.attr) if c is not None else None
				fv = self._static_attr(b, f.attr, x) if b[0] == "M" else None
				if fi is None and fv is not None and fv[0] == "F":
					fi, b = self._fn(fv[1]), None
				todo.append((x, fi, b))
		elif isinstance(f, ast.Name):
			fv = self.lookup(f.id, st)
			if fv[0] == "F":
				todo.append((st.copy(), self._fn(fv[1]), None))
		if not todo or any(fi is None or not fi.is_generator or
		                   _is_static(fi) or _is_classmethod(fi) or
		                   any(isinstance(w, (ast.YieldFrom, ast.Try, ast.With))
		                       for w in ast.walk(fi.node)) or
		                   any(g.fi.node is fi.node for g in st.frames)
		                   for _x, fi, _b in todo):
			return None
		out = []
		for x0, fi, b in todo:
			for x, args, kw in self.eval_args(n, x0):
				env = self.bind(fi, b, args, kw, x, n)
				fr = x.frames[-1]
				site = fr.site + (fr.fi.mod.name, n.lineno, n.col_offset,
				                  fi.full)
				fid = Site(("f", fi.full, site))
				x.frames.append(Frame(fid, fi, env, None, None, site))
				esc = []
				self.gens.append((fid, s, esc))
				sink = []
				self.sinks.append(sink)
				try:
					outs = self.exec_body(fi.node.body, [x])
				finally:
					self.sinks.pop()
					self.gens.pop()
				for kind, y, v in self.reduce_outs(
						outs + [("x", a, e) for a, e in sink]):
					y.frames.pop()
					if kind == "x":
						self.sinks[-1].append((y, v))
					elif s.orelse:
						out += self.exec_body(s.orelse, [y])
					else:
						out.append(("n", y, None))
				out += esc
		return self.reduce_outs(out)

	def yielded(self, st, val, n):
		"""run the body of the loop over the generator that yields"""
		fid, s, esc = self.gens[-1]
		if esc is None:
			self._container("append", s, [val], st)
			return [(st, NONE)]
		st.frames.insert(0, st.frames.pop())
		self.assign(s.target, val, st, s)
		out = []
		held = self.gens.pop()
		sink = []
		self.sinks.append(sink)
		try:
			outs = self.exec_body(s.body, [st])
		finally:
			self.sinks.pop()
			self.gens.append(held)
		for kind, y, v in outs + [("x", a, e) for a, e in sink]:
			if kind in ("n", "c"):
				y.frames.append(y.frames.pop(0))
				out.append((y, NONE))
			else:
				y.frames.pop(0)
				if kind == "x":
					esc.append(("x", y, v))
				else:
					esc.append(("n" if kind == "b" else kind, y, v))
		return out

	def for_over(self, s, target, itv, st, body, orelse):
		src = self._iter_src(itv)
		if src[0] == "list" and self.m.unroll_lists:
			src = self.items_of(src, st) or src
		if src[0] == "dict":
			src = self.m.keys_of(st, src) or src
		if is_k(src) and self.m.exact_objects and isinstance(src[2], str):
			src = ("tup",) + tuple(map(K, src[2]))
		if src[0] == "tup" and len(src) <= self.m.seq_limit + 1:
			# known short sequence: unrolled
			outs = []
			states = [st]
			for item in src[1:]:
				nxt = []
				for x in states:
					self.assign(target, item, x, s)
					for kind, y, v in self.exec_body(body, [x]):
						if kind in ("n", "c"):
							nxt.append(y)
						elif kind == "b":
							outs.append(("n", y, None))
						else:
							outs.append((kind, y, v))
				states = self.reduce(nxt, site=("u", s.lineno))
			if orelse:
				outs += self.exec_body(orelse, states)
			else:
				outs += [("n", x, None) for x in states]
			return outs
		if self._is_iterator(src, st):
			def more(x):
				go, end = self.nexts(src, x, s)
				t = []
				for y, v in go:
					self.assign(target, v, y, s)
					t.append(y)
				return t, end
			return self.loop(s, [st], more, body, orelse)
		site = self.site(st, s)
		pair = None
		if src[0] == "c" and src[1] == "enumerate" and src[2]:
			pair = "enumerate"
			inner = self._iter_src(src[2][0])
		elif src[0] == "c" and src[1] == "zip":
			pair = "zip"
			inner = src
		else:
			inner = src
		st.env["$it%d" % s.lineno] = itv

		def until(x):
			# for v in iter(callable, sentinel)
			fn, stop = inner[2]
			t, f = [], []
			for y, v in self.call_value(fn, [], {}, s, x):
				c, neg = (v, True) if stop in (K(b""), K("")) else \
					self.cmp_term(ast.Eq(), v, stop, y)
				for z, b in self.split(c, y, s):
					if b != neg:
						f.append(z)
					else:
						self.assign(target, v, z, s)
						t.append(z)
			return t, f

		if inner[0] == "c" and inner[1] == "iter" and len(inner[2]) == 2 and \
				pair is None:
			return self.loop(s, [st], until, body, orelse)

		def test(x):
			cont = x
			end = x.copy()
			self.m.iter_end(self, end, inner, s)
			if self._iter_may_raise(inner):
				self.maybe_throw(cont, ("exc", "Any"), s)
			elem = cont.fresh(("elem", site, inner))
			if pair == "enumerate":
				idx = cont.fresh(("unk", site + ("i",)))
				self.assign(target, ("tup", idx, elem), cont, s)
			elif pair == "zip":
				self.assign(target, ("tup",) + tuple(
					("elem", site, self._iter_src(a)) for a in src[2]),
					cont, s)
			else:
				self.assign(target, elem, cont, s)
			self.m.iterate(self, cont, inner, elem, s)
			return [cont], [end]
		return self.loop(s, [st], test, body, orelse)

	def _is_iterator(self, t, st):
		"""an object of a class of the project that is its own iterator"""
		if not self.m.exact_objects or t[0] != "new":
			return False
		c = self._class_of(st, t)
		return c is not None and \
			self.p.find_method(c, "__next__") is not None

	def nexts(self, t, st, n):
		"""the next item of an iterator: [(state, item)], [state at its end]"""
		sink = []
		self.sinks.append(sink)
		self.trydepth += 1
		try:
			got = self.call_method(t, "__next__", [], {}, n, st)
		finally:
			self.sinks.pop()
			self.trydepth -= 1
		end = []
		for y, e in sink:
			if self.exc_match(e, "StopIteration") == "yes":
				end.append(y)
			else:
				self.sinks[-1].append((y, e))
		return got, end

	def drain(self, t, st, n):
		"""all the items of an iterator: [(state, items)]"""
		out, work = [], [(st, ())]
		while work:
			nxt = []
			for x, vs in work:
				if len(vs) > self.m.seq_limit:
					raise Budget("an iterator without end")
				go, end = self.nexts(t, x, n)
				out += [(y, ("tup",) + vs) for y in end]
				nxt += [(y, vs + (v,)) for y, v in go]
			work = nxt
		return out

	def _iter_may_raise(self, v):
		return v[0] in ("r", "new", "phi", "unk", "attr", "gen")

	def loop(self, s, states, test, body=None, orelse=None):
		body = s.body if body is None else body
		orelse = s.orelse if orelse is None else orelse
		self.stats["loops"] += 1
		seen = set()
		outs, exits = [], []
		heads = []
		work = states
		rnd = 0
		while work:
			rnd += 1
			if rnd > self.m.max_rounds:
				if self.m.exact_loops:
					raise Budget("loop bound exceeded at line %d" % s.lineno)
				break
			cont = []
			for x in work:
				t, f = test(x)
				for y in f:
					self.m.loop_exit(self, y, s)
				exits += f
				cont += t
			exits = self.reduce(exits, site=("lx", s.lineno))
			cont = self.reduce(cont, site=("lc", s.lineno))
			back = []
			for kind, y, v in self.exec_body(body, cont):
				if kind in ("n", "c"):
					self.m.loop_back(self, y, s)
					back.append(y)
				elif kind == "b":
					outs.append(("n", y, None))
				else:
					outs.append((kind, y, v))
			outs = self.reduce_outs(outs)
			back = self.reduce(back, site=("lb", s.lineno))
			if rnd >= 2:
				# widen against what was seen at the loop head
				back = self._widen(heads, back, ("w", s.lineno))
			new = []
			for y in back:
				k = y.key()
				if k not in seen:
					seen.add(k)
					new.append(y)
			if self.m.exact_loops:
				heads = heads or {}
				for y in new:
					k = (self.m.merge_key(y), self._flags(y),
					     tuple(f.fid for f in y.frames))
					heads[k] = self._join2(heads[k], y, (
						"w", s.lineno)) if k in heads else y.copy()
			elif new:
				heads = self.join(heads + [b.copy() for b in new],
				                  ("w", s.lineno))
			work = new
		if orelse:
			outs += self.exec_body(orelse, exits)
		else:
			outs += [("n", x, None) for x in exits]
		return outs

	def _widen(self, heads, back, site):
		if not heads:
			return back
		by = {}
		if isinstance(heads, dict):
			for k, h in heads.items():
				by.setdefault(k[:2], h)
		else:
			for h in heads:
				by.setdefault((self.m.merge_key(h), self._flags(h)), h)
		res = []
		for b in back:
			h = by.get((self.m.merge_key(b), self._flags(b)))
			if h is None:
				res.append(b)
			else:
				res.append(self._join2(h.copy(), b, site))
		return self.reduce(res, site=site)

	# ---- try / with -----------------------------------------------------
	def st_Try(self, s, st):
		has = bool(s.handlers) or bool(s.finalbody)
		self.trydepth += 1 if has else 0
		try:
			outs = self.exec_body(s.body, [st])
		finally:
			self.trydepth -= 1 if has else 0
		res = []
		raised = []
		norm = []
		for kind, x, v in outs:
			if kind == "x":
				raised.append((x, v))
			elif kind == "n":
				norm.append(x)
			else:
				res.append((kind, x, v))
		if s.finalbody:
			self.trydepth += 1
		if norm:
			if s.orelse:
				res += self.exec_body(s.orelse, norm)
			else:
				res += [("n", x, None) for x in norm]
		raised = self._cap(raised, ("h", s.lineno))
		for x, exc in raised:
			res += self.handle(s, x, exc)
		if s.finalbody:
			self.trydepth -= 1
			res = self.reduce_outs(res)
			fin = []
			for kind, x, v in res:
				old = x.frames[-1].exc
				fid = x.frames[-1].fid
				if kind == "x" and old is None:
					x.frames[-1].exc = v
				for k2, y, v2 in self.exec_body(s.finalbody, [x]):
					if y.frames and y.frames[-1].fid == fid:
						y.frames[-1].exc = old
					if k2 == "n":
						fin.append((kind, y, v))
					else:
						fin.append((k2, y, v2))
			res = fin
		return self.reduce_outs(res)

	st_TryStar = st_Try

	def handle(self, s, st, exc):
		out = []
		cur = [st]
		for h in s.handlers:
			if not cur:
				break
			if h.type is None:
				m = "yes"
			else:
				m = "no"
				names = self.handler_names(h.type, st)
				for n in names:
					r = self.exc_match(exc, n)
					if r == "yes":
						m = "yes"
						break
					if r == "maybe":
						m = "maybe"
			if m == "no":
				continue
			x = st if m == "yes" else st.copy()
			e2 = exc
			if m == "maybe" and exc == ("exc", "Any") and h.type is not None:
				names = self.handler_names(h.type, st)
				if len(names) == 1 and names[0]:
					e2 = ("exc", names[0])
			old = x.frames[-1].exc
			x.frames[-1].exc = e2
			if h.name:
				x.env[h.name] = e2
			fid = x.frames[-1].fid
			for kind, y, v in self.exec_body(h.body, [x]):
				if y.frames and y.frames[-1].fid == fid:
					y.frames[-1].exc = old
				out.append((kind, y, v))
			if m == "yes":
				cur = []
		if cur:
			out.append(("x", st, exc))
		return out

	def handler_names(self, t, st):
		if isinstance(t, ast.Tuple):
			r = []
			for e in t.elts:
				r += self.handler_names(e, st)
			return r
		vals = self.eval(t, st.copy())
		v = vals[0][1] if vals else ("unk",)
		if v[0] == "C":
			return [v[1]]
		if v[0] == "ext":
			n = v[1].split(".")[-1]
			return [n if n in BUILTIN_EXC else v[1]]
		if v[0] == "tup":
			return [x[1] for x in v[1:] if x[0] in ("C", "ext")]
		return [None]

	def _exc_bases(self, n):
		"""set of ancestor names (incl. itself, canonical builtin names)"""
		if n in BUILTIN_EXC:
			return {c.__name__ for c in BUILTIN_EXC[n].__mro__}
		if ":" in n:
			mod, q = n.split(":", 1)
			m = self.p.modules.get(mod)
			c = m.all_classes.get(q) if m else None
			if c:
				out = {x.full for x in self.p.mro(c)}
				for b in self.p.ext_bases(c):
					out |= self._exc_bases(b.split(".")[-1])
				return out
		if n in ("struct.error", "zlib.error", "socket.error"):
			return {n, "Exception", "BaseException"} | (
				{"OSError"} if n == "socket.error" else set())
		return {n, "Exception", "BaseException"}

	def exc_match(self, exc, h):
		name = exc[1]
		if h is None:
			return "maybe"
		if h == "BaseException":
			return "yes"
		if h in BUILTIN_EXC:
			h = BUILTIN_EXC[h].__name__
		if name == "Any":
			if h == "Exception":
				return "yes"
			return "no" if h in NOT_EXCEPTION else "maybe"
		if name in BUILTIN_EXC:
			name = BUILTIN_EXC[name].__name__
		if h in self._exc_bases(name):
			return "yes"
		if name in self._exc_bases(h):
			return "maybe"
		return "no"

	def st_With(self, s, st):
		return self._with(s, s.items, st)

	st_AsyncWith = st_With

	def _with(self, s, items, st):
		if not items:
			return self.exec_body(s.body, [st])
		it = items[0]
		res = []
		for x, v in self.eval(it.context_expr, st):
			w = self.m.enter_with(self, x, v, s)
			cm = self._class_of(x, v)
			if cm is not None and self.p.find_method(cm, "__enter__"):
				f = self.p.find_method(cm, "__enter__")
				pairs = self.call_project(f, v, [], {}, it.context_expr, x)
			else:
				pairs = [(x, w)]
			for y, ev in pairs:
				if it.optional_vars is not None:
					self.assign(it.optional_vars, ev, y, s)
				self.trydepth += 1
				try:
					sink = []
					self.sinks.append(sink)
					try:
						outs = self._with(s, items[1:], y)
					finally:
						self.sinks.pop()
					outs += [("x", a, b) for a, b in sink]
				finally:
					self.trydepth -= 1
				for kind, z, rv in self.reduce_outs(outs):
					if cm is not None and self.p.find_method(cm, "__exit__"):
						f = self.p.find_method(cm, "__exit__")
						a3 = [("unk", ("wx",))] * 3
						for q, _ in self.call_project(f, v, a3, {}, s, z):
							res.append((kind, q, rv))
					else:
						self.m.exit_with(self, z, v, s)
						res.append((kind, z, rv))
		return res

	# ------------------------------------------------------ expressions
	def eval(self, n, st):
		"""-> list of (state, value); exceptional outcomes go to the sink"""
		m = getattr(self, "ex_" + type(n).__name__, None)
		if m is None:
			return [(st, st.fresh(("unk", self.site(st, n))))]
		return m(n, st)

	def eval_list(self, nodes, st):
		"""-> list of (state, [values])"""
		res = [(st, [])]
		for n in nodes:
			nxt = []
			for x, vs in res:
				e = n.value if isinstance(n, ast.Starred) else n
				for y, v in self.eval(e, x):
					if isinstance(n, ast.Starred):
						if v[0] == "tup":
							nxt.append((y, vs + list(v[1:])))
						else:
							nxt.append((y, vs + [("star", v)]))
					else:
						nxt.append((y, vs + [v]))
			res = nxt
		return res

	def ex_Constant(self, n, st):
		return [(st, K(n.value))]

	def ex_Name(self, n, st):
		return [(st, self.lookup(n.id, st, n))]

	def _closure_frame(self, st, name):
		f = st.frames[-1]
		seen = 0
		while f is not None and seen < 20:
			seen += 1
			par = f.parent
			f = None
			if par is not None:
				for g in st.frames:
					if g.fid == par:
						f = g
						break
			if f is not None and name in f.env:
				return f
		return None

	def lookup(self, name, st, node=None):
		f = st.frames[-1]
		if name in f.env and name not in _globals_of(f.fi):
			return f.env[name]
		if name in ("True", "False", "None"):
			return K({"True": True, "False": False, "None": None}[name])
		g = self._closure_frame(st, name)
		if g is not None:
			return g.env[name]
		mod = f.fi.mod
		if name in _locals_of(f.fi) and name not in _globals_of(f.fi):
			return ("unbound", name)
		# functions / classes of the enclosing function (not yet executed)
		par = f.fi.parent
		while par is not None:
			if name in par.nested:
				fi = par.nested[name]
				self.lambdas[fi.full] = fi
				return ("clo", fi.full, f.parent)
			q = par.qual + "." + name
			if q in mod.all_classes:
				return ("C", mod.all_classes[q].full)
			par = par.parent
		return self.global_val(mod, name, st)

	def global_val(self, mod, name, st):
		h = st.heap.get((("M", mod.name), name))
		if h is not None:
			return h
		v = self._member_val(mod, name, st)
		if v is not None:
			return v
		if hasattr(builtins, name) or name in (
				"unicode", "basestring", "xrange", "raw_input", "long"):
			return ("ext", name)
		return ("glob", mod.name, name)

	def _member_val(self, mod, name, st=None):
		r = self.p.member(mod, name)
		if r is None:
			return None
		if r[0] == "fn":
			return ("F", r[1].full)
		if r[0] == "cls":
			return ("C", r[1].full)
		if r[0] == "mod":
			return ("M", r[1].name)
		if r[0] == "ext":
			if r[1] in ENV_CONST:
				return K(ENV_CONST[r[1]])
			return ("ext", r[1])
		if r[0] == "const":
			m2, nm = r[1], r[2]
			if st is not None:
				h = st.heap.get((("M", m2.name), nm))
				if h is not None:
					return h
			if nm in m2.mutable_globals:
				return ("glob", m2.name, nm)
			v = self.const_eval(m2.assigns[nm][0], m2, None)
			return v if v is not None else ("glob", m2.name, nm)
		return None

	def const_eval(self, n, mod, cls, d=0):
		"""constant folding of module / class level initialisers"""
		if d > 20:
			return None
		ck = ("ce", id(n) if not isinstance(n, tuple) else (id(n[1]), n[2]))
		cache = self.p.__dict__.setdefault("_ce", {})
		if ck in cache:
			return cache[ck]
		cache[ck] = None        # a name defined in terms of itself
		v = self._const_eval(n, mod, cls, d)
		cache[ck] = v
		return v

	def _const_eval(self, n, mod, cls, d):
		ce = lambda x: self.const_eval(x, mod, cls, d + 1)
		if isinstance(n, tuple) and n[0] == "unpack":
			v = ce(n[1])
			if v and v[0] == "tup" and n[2] + 1 < len(v):
				return v[n[2] + 1]
			return None
		if isinstance(n, ast.Constant):
			return K(n.value)
		if isinstance(n, (ast.Tuple, ast.List)):
			vs = [ce(e) for e in n.elts]
			if all(v is not None for v in vs):
				return ("tup",) + tuple(vs)
			return None
		if isinstance(n, ast.Set):
			vs = [ce(e) for e in n.elts]
			if all(v is not None for v in vs):
				return ("tup",) + tuple(vs)
			return None
		if isinstance(n, ast.Name):
			if cls is not None:
				r = self.p.find_class_attr(cls, n.id)
				if r:
					return self.const_eval(r[1], r[0].mod, r[0], d + 1)
			return self._member_val(mod, n.id)
		if isinstance(n, ast.Attribute):
			if n.attr == "size" and isinstance(n.value, ast.Name):
				c = mod.assigns.get(n.value.id, [None])[0]
				if isinstance(c, ast.Call) and c.args and \
						ast.unparse(c.func) in ("struct.Struct", "Struct"):
					f = ce(c.args[0])
					if f is not None and is_k(f):
						import struct
						try:
							return K(struct.calcsize(f[2]))
						except struct.error:
							return None
			b = ce(n.value)
			if b is None:
				return None
			return self._static_attr(b, n.attr)
		if isinstance(n, ast.UnaryOp):
			v = ce(n.operand)
			if v is not None and is_k(v):
				try:
					if isinstance(n.op, ast.USub):
						return K(-v[2])
					if isinstance(n.op, ast.Invert):
						return K(~v[2])
					if isinstance(n.op, ast.Not):
						return K(not v[2])
				except Exception:
					return None
			return None
		if isinstance(n, ast.BinOp):
			a, b = ce(n.left), ce(n.right)
			if a is not None and b is not None:
				return _fold(type(n.op).__name__, a, b)
			return None
		if isinstance(n, ast.Call) and not n.keywords:
			f = n.func
			if isinstance(f, ast.Name) and f.id in ("list", "tuple", "range",
			                                        "frozenset", "set") \
					and len(n.args) >= 1:
				vs = [ce(a) for a in n.args]
				if f.id == "range":
					if all(v is not None and is_k(v) for v in vs):
						r = range(*[v[2] for v in vs])
						if len(r) < 200:
							return ("tup",) + tuple(K(i) for i in r)
				elif vs[0] is not None and vs[0][0] == "tup":
					return vs[0]
			if isinstance(f, ast.Attribute) and \
					isinstance(f.value, ast.Constant) and \
					isinstance(f.value.value, str) and f.attr == "split" \
					and not n.args:
				return ("tup",) + tuple(K(x) for x in f.value.value.split())
		return None

	def _cls(self, full):
		mod, q = full.split(":", 1)
		m = self.p.modules.get(mod)
		return m.all_classes.get(q) if m else None

	def _fn(self, full):
		if full in self.lambdas:
			return self.lambdas[full]
		mod, q = full.split(":", 1)
		m = self.p.modules.get(mod)
		return m.all_funcs.get(q) if m else None

	def _static_attr(self, b, name, st=None):
		if b[0] == "M":
			return (self.global_val(self.p.modules[b[1]], name, st)
			        if st is not None else
			        self._member_val(self.p.modules[b[1]], name))
		if b[0] == "ext":
			d = b[1] + "." + name
			if d in ENV_CONST:
				return K(ENV_CONST[d])
			pm = self.p.find_module(d)
			return ("M", pm.name) if pm else ("ext", d)
		if b[0] == "C":
			c = self._cls(b[1])
			if c is not None:
				r = self.p.find_class_attr(c, name)
				if r:
					if st is not None and (b, name) in st.heap:
						return st.heap[(b, name)]
					v = self.const_eval(r[1], r[0].mod, r[0])
					if v is not None:
						return v
					return ("cattr", r[0].full, name)
				m = self.p.find_method(c, name)
				if m:
					return ("F", m.full)
				return self._nested_class(c, name)
		return None

	def _nested_class(self, cls, name):
		for c in self.p.mro(cls):
			n = c.mod.all_classes.get(c.qual + "." + name)
			if n is not None:
				return ("C", n.full)
		return None

	def _instance_assigned(self, cls):
		"""attribute names assigned through `self.X = ` anywhere in the
		class family"""
		ck = "_ia"
		if not hasattr(cls, ck):
			s = set()
			fam = set(self.p.mro(cls)) | set(self.p.subclasses(cls))
			for c in fam:
				for f in c.methods.values():
					for n in ast.walk(f.node):
						if isinstance(n, ast.Attribute) and \
								isinstance(n.ctx, ast.Store):
							s.add(n.attr)
			setattr(cls, ck, s)
		return getattr(cls, ck)

	def _class_of(self, st, v):
		if not isinstance(v, tuple) or not v:
			return None
		if v[0] == "new":
			return self._cls(v[2])
		if v[0] == "self":
			return self._cls(v[1])
		if v[0] == "prev":
			return self._class_of(st, v[1])
		t = st.heap.get((v, "$type"))
		if t is not None:
			return self._cls(t[1])
		if v[0] == "param" and v[1] in self.types:
			return self._cls(self.types[v[1]])
		if v[0] == "attr" and v[2] in self.types:
			return self._cls(self.types[v[2]])
		return None

	def attr_of(self, b, name, st, node):
		r = self.m.attr_load(self, st, b, name, node)
		if r is not None:
			return r
		if (b, name) in st.heap:
			return st.heap[(b, name)]
		v = self._static_attr(b, name, st)
		if v is not None:
			return v
		c = self._class_of(st, b)
		if c is not None:
			r = self.p.find_class_attr(c, name)
			if r and name not in self._instance_assigned(c):
				v = self.const_eval(r[1], r[0].mod, r[0])
				if v is not None:
					return v
			v = self._nested_class(c, name)
			if v is not None and name not in self._instance_assigned(c):
				return v
		return self.mk(("attr", b, name), st, node)

	def ex_Attribute(self, n, st):
		out = []
		for x, b in self.eval(n.value, st):
			v = self.attr_of(b, n.attr, x, n)
			if v is not BOTTOM:
				out.append((x, v))
		return out

	def ex_Subscript(self, n, st):
		out = []
		for x, b in self.eval(n.value, st):
			for y, i in self.eval(n.slice, x):
				v = self.subscript(b, i, y, n)
				if v is not BOTTOM:
					out.append((y, v))
		return out

	def subscript(self, b, i, st, n):
		r = self.m.on_subscript(self, st, b, i, n)
		if r is not None:
			return r
		if (b, ("[]", i)) in st.heap:
			return st.heap[(b, ("[]", i))]
		if b[0] == "tup" and is_k(i) and isinstance(i[2], int):
			try:
				return b[1:][i[2]]
			except IndexError:
				pass
		if is_k(b) and is_k(i) and isinstance(b[2], (str, bytes)):
			try:
				return K(b[2][i[2]])
			except Exception:
				pass
		return self.mk(("sub", b, i), st, n)

	def ex_Slice(self, n, st):
		parts = [n.lower, n.upper, n.step]
		res = [(st, [])]
		for p in parts:
			nxt = []
			for x, vs in res:
				if p is None:
					nxt.append((x, vs + [NONE]))
				else:
					for y, v in self.eval(p, x):
						nxt.append((y, vs + [v]))
			res = nxt
		return [(x, ("slice",) + tuple(vs)) for x, vs in res]

	def ex_Tuple(self, n, st):
		return [(x, ("tup",) + tuple(vs))
		        for x, vs in self.eval_list(n.elts, st)]

	def ex_List(self, n, st):
		out = []
		for x, vs in self.eval_list(n.elts, st):
			t = x.fresh(("list", self.site(x, n)))
			x.heap[(t, "$items")] = ("tup",) + tuple(vs)
			out.append((x, t))
		return out

	def ex_Set(self, n, st):
		return [(x, ("tup",) + tuple(vs))
		        for x, vs in self.eval_list(n.elts, st)]

	def ex_Dict(self, n, st):
		nodes = [k for k in n.keys if k is not None] + list(n.values)
		out = []
		nk = len([k for k in n.keys if k is not None])
		for x, vs in self.eval_list(nodes, st):
			t = x.fresh(("dict", self.site(x, n)))
			if nk == len(n.values):
				for k, v in zip(vs[:nk], vs[nk:]):
					x.heap[(t, ("[]", k))] = v
			out.append((x, t))
		return out

	def ex_JoinedStr(self, n, st):
		vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
		f = ""
		for v in n.values:
			if isinstance(v, ast.Constant):
				f += str(v.value).replace("%", "%%")
				continue
			c = _conversion(v.conversion, v.format_spec)
			f = f + c if c and f is not None else None
			if f is None:
				break
		out = []
		for x, vs in self.eval_list(vals, st):
			out.append((x, self.mk(("c", "fstr", tuple(vs)), x, n)
			            if f is None else self.text(f, vs, x, n)))
		return out

	def text(self, f, vs, st, n):
		"""f % vs, however it is spelled"""
		if not vs:
			return K(f.replace("%%", "%"))
		b = vs[0] if len(vs) == 1 and vs[0][0] != "tup" else \
			("tup",) + tuple(vs)
		if all(is_k(v) for v in vs):
			try:
				return K(f % tuple(v[2] for v in vs))
			except Exception:
				pass
		return self.binop("Mod", K(f), b, st, n)

	def ex_UnaryOp(self, n, st):
		if isinstance(n.op, ast.Not):
			return [(x, K(not b)) for x, b in self.cond(n.operand, st)]
		out = []
		for x, v in self.eval(n.operand, st):
			r = None
			if is_k(v):
				try:
					r = K({"USub": lambda a: -a, "UAdd": lambda a: +a,
					       "Invert": lambda a: ~a}[type(n.op).__name__](v[2]))
				except Exception:
					r = None
			out.append((x, r or self.mk(
				("op1", type(n.op).__name__, v), x, n)))
		return out

	def ex_BinOp(self, n, st):
		out = []
		for x, a in self.eval(n.left, st):
			for y, b in self.eval(n.right, x):
				out.append((y, self.binop(type(n.op).__name__, a, b, y, n)))
		return out

	def binop(self, op, a, b, st, n):
		if op == "Mod" and is_k(a) and a[1] == "str" and b[0] == "tup" and \
				len(b) == 2 and b[1][0] != "tup":
			b = b[1]
		r = self.m.on_binop(self, st, op, a, b, n)
		if r is not None:
			return r
		a2, b2 = self.items_of(a, st), self.items_of(b, st)
		r = _fold(op, a2 or a, b2 or b)
		if r is not None:
			return r
		return self.mk(("op", op, a, b), st, n)

	def items_of(self, v, st):
		if v and v[0] == "list":
			it = st.heap.get((v, "$items"))
			if it is not None and it[0] == "tup":
				return it
		return None

	def ex_BoolOp(self, n, st):
		# value semantics: last evaluated operand
		is_and = isinstance(n.op, ast.And)
		out = []
		cur = [st]
		for i, e in enumerate(n.values):
			nxt = []
			last = i == len(n.values) - 1
			for x in cur:
				for y, v in self.eval(e, x):
					if last:
						out.append((y, v))
						continue
					for z, b in self.split(v, y, e):
						if b == is_and:
							nxt.append(z)
						else:
							out.append((z, v if not (
								v[0] == "cmp" or v[0] == "not") else K(b)))
			cur = nxt
		return self._cap(out)

	def ex_IfExp(self, n, st):
		out = []
		for x, b in self.cond(n.test, st):
			out += self.eval(n.body if b else n.orelse, x)
		return self._cap(out)

	def ex_Compare(self, n, st):
		if len(n.ops) == 1:
			out = []
			for x, a in self.eval(n.left, st):
				for y, b in self.eval(n.comparators[0], x):
					r = self.m.on_compare(self, y, n.ops[0], a, b, n)
					if r is not None:
						if r is not BOTTOM:
							out.append((y, r))
						continue
					t, neg = self.cmp_term(n.ops[0], a, b, y)
					k = self.decide(t, y)
					if k is not None:
						out.append((y, K(k != neg)))
					else:
						out.append((y, ("not", t) if neg else t))
			return out
		return [(x, K(b)) for x, b in self.cond(n, st)]

	def ex_Lambda(self, n, st):
		f = st.frames[-1]
		key = "%s:%s.<lambda@%d:%d>" % (f.fi.mod.name, f.fi.qual, n.lineno,
		                                n.col_offset)
		if key not in self.lambdas:
			fn = ast.FunctionDef(name="<lambda>", args=n.args, body=[
				ast.copy_location(ast.Return(value=n.body), n)],
				decorator_list=[], lineno=n.lineno, col_offset=n.col_offset)
			self.lambdas[key] = FuncInfo(
				f.fi.mod, fn, f.fi.qual + ".<lambda@%d>" % n.lineno, None,
				f.fi)
		return [(st, ("clo", key, f.fid))]

	def ex_Yield(self, n, st):
		out = []
		pairs = self.eval(n.value, st) if n.value else [(st, NONE)]
		for x, v in pairs:
			self.m.on_yield(self, x, v, n)
			if self.gens and x.frames[-1].fid == self.gens[-1][0]:
				out += self.yielded(x, v, n)
				continue
			out.append((x, x.fresh(("unk", self.site(x, n)))))
		return out

	def ex_YieldFrom(self, n, st):
		out = []
		for x, v in self.eval(n.value, st):
			self.m.on_yield(self, x, ("elem", self.site(x, n), v), n)
			out.append((x, x.fresh(("unk", self.site(x, n)))))
		return out

	def ex_Await(self, n, st):
		return self.eval(n.value, st)

	def ex_Starred(self, n, st):
		return self.eval(n.value, st)

	def ex_NamedExpr(self, n, st):
		out = []
		for x, v in self.eval(n.value, st):
			self.assign(n.target, v, x, n)
			out.append((x, v))
		return out

	def _comp(self, n, st, elts, coll=None):
		"""comprehension / generator expression: treated as a loop whose
		element expressions are evaluated for their effects"""
		gens = n.generators
		results = []
		collected = []

		def level(i, x):
			if i == len(gens):
				outs = []
				for y, vs in self.eval_list(elts, x):
					collected.append(tuple(vs))
					if coll is not None:
						self.m.comp_elem(self, y, coll, vs[0], n)
					outs.append(("n", y, None))
				return outs
			g = gens[i]
			outs = []
			for y, itv in self.eval(g.iter, x):
				outs += self._comp_loop(g, itv, y, lambda z: level(i + 1, z))
			return outs
		for kind, x, v in level(0, st):
			if kind == "n":
				results.append(x)
		results = self.reduce(results, site=("cp", n.lineno))
		return results, collected

	def _comp_loop(self, g, itv, st, inner):
		src = self._iter_src(itv)
		site = self.site(st, g.target)
		seen = set()
		exits = []
		work = [st]
		rnd = 0
		unroll = None
		if src[0] == "list" and self.m.unroll_lists:
			src = self.items_of(src, st) or src
		if src[0] == "dict":
			src = self.m.keys_of(st, src) or src
		if is_k(src) and self.m.exact_objects and isinstance(src[2], str):
			src = ("tup",) + tuple(map(K, src[2]))
		if src[0] == "tup" and len(src) <= self.m.seq_limit + 1:
			unroll = list(src[1:])
		while work and (rnd < 6 or unroll is not None):
			rnd += 1
			back = []
			for x in work:
				if unroll is None:
					e = x.copy()
					self.m.iter_end(self, e, src, g.target)
					exits.append(e)
					el = x.fresh(("elem", site, src))
					if src[0] == "c" and src[1] == "enumerate" and src[2]:
						el = x.fresh(("elem", site, self._iter_src(src[2][0])))
						self.assign(g.target, ("tup", ("unk", site), el), x,
						            g.target)
					else:
						self.assign(g.target, el, x, g.target)
					self.m.iterate(self, x, src, el, g.target)
				else:
					if not unroll:
						exits.append(x)
						continue
					self.assign(g.target, unroll[0], x, g.target)
				states = [x]
				for c in g.ifs:
					nx = []
					for y in states:
						for z, b in self.cond(c, y):
							if b:
								nx.append(z)
							else:
								back.append(z)
					states = nx
				for y in states:
					for kind, z, v in inner(y):
						if kind == "n":
							back.append(z)
				for y in back:
					self.m.loop_back(self, y, g.target)
			if unroll:
				unroll = unroll[1:]
			back = self.reduce(back, site=("cb", g.target.lineno))
			if rnd >= 2 and unroll is None:
				back = self.join(back, ("cw", g.target.lineno))
			work = []
			for y in back:
				k = y.key()
				if k not in seen or unroll is not None:
					seen.add(k)
					work.append(y)
			if unroll == [] :
				exits += work
				work = []
		return [("n", x, None) for x in self.reduce(
			exits, site=("ce", g.target.lineno))]

	def _exact_comp(self, n, st):
		"""a comprehension over known sequences: all its items"""
		cur = [(st.copy(), ())]

		def level(i, x, vals):
			if i == len(n.generators):
				return [(y, vals + (v,)) for y, v in self.eval(n.elt, x)]
			g = n.generators[i]
			out = []
			todo = []
			for y, itv in self.eval(g.iter, x):
				src = self._iter_src(itv)
				todo += self.drain(src, y, g.iter) \
					if self._is_iterator(src, y) else [(y, src)]
			for y, src in todo:
				if src[0] == "list":
					src = self.items_of(src, y) or src
				if src[0] == "dict":
					src = self.m.keys_of(y, src) or src
				if src[0] != "tup" or len(src) > self.m.seq_limit + 1:
					return None
				cur = [(y, vals)]
				for item in src[1:]:
					nxt = []
					for z, vs in cur:
						self.assign(g.target, item, z, g.target)
						todo = [z]
						for c in g.ifs:
							more = []
							for w in todo:
								for w2, b in self.cond(c, w):
									if b:
										more.append(w2)
									else:
										nxt.append((w2, vs))
							todo = more
						for w in todo:
							r = level(i + 1, w, vs)
							if r is None:
								return None
							nxt += r
					cur = nxt
				out += cur
			return out
		r = level(0, cur[0][0], ())
		if r is None:
			return None
		out = []
		for x, vals in r:
			t = x.fresh(("list", self.site(x, n)))
			x.heap[(t, "$items")] = ("tup",) + vals
			out.append((x, t))
		return out

	def _ex_comp(self, n, st):
		g = n.generators[0]
		if len(n.generators) == 1 and not g.ifs and \
				isinstance(n.elt, ast.Name) and \
				isinstance(g.target, ast.Name) and n.elt.id == g.target.id:
			out = []
			for x, itv in self.eval(g.iter, st):
				out += self.call_ext("list", None, [itv], {}, n, x)
			return out
		if self.m.unroll_lists:
			r = self._exact_comp(n, st)
			if r is not None:
				return r
		t = st.fresh(("r", self.site(st, n), "comp", ()))
		sts, coll = self._comp(n, st, [n.elt], t)
		out = []
		for x in sts:
			out.append((x, t))
			if coll:
				x.heap[(t, "$elems")] = frozenset(c[0] for c in coll)
		return out

	ex_ListComp = ex_GeneratorExp = ex_SetComp = _ex_comp

	def _as_generator(self, n):
		"""any(map(f, xs)) stops early, as any(f(x) for x in xs) does"""
		if n not in self.rewritten:
			m = n.args[0]
			x = ast.copy_location(ast.Name("$x", ast.Load()), m)
			g = ast.GeneratorExp(
				ast.Call(m.args[0], [x], []),
				[ast.comprehension(ast.Name("$x", ast.Store()), m.args[1],
				                   [], 0)])
			self.rewritten[n] = ast.fix_missing_locations(ast.copy_location(
				ast.Call(n.func, [ast.copy_location(g, m)], []), n))
		return self.rewritten[n]

	def _any_all(self, n, st, stop):
		"""any()/all() over a generator: a loop with an early exit"""
		g = n.args[0]
		stops = []

		def level(i, x):
			outs = []
			if i == len(g.generators):
				for y, b in self.cond(g.elt, x):
					if b == stop:
						stops.append(y)
					else:
						outs.append(("n", y, None))
				return outs
			for y, itv in self.eval(g.generators[i].iter, x):
				outs += self._comp_loop(g.generators[i], itv, y,
				                        lambda z: level(i + 1, z))
			return outs
		ends = [y for kind, y, v in level(0, st)]
		return [(y, TRUE if stop else FALSE) for y in
		        self.reduce(stops, site=("as", n.lineno))] + \
			[(y, FALSE if stop else TRUE) for y in
			 self.reduce(ends, site=("ae", n.lineno))]

	def _first_of(self, n, st):
		"""next() of a generator expression: a loop with an early exit"""
		g = n.args[0]
		found = []

		def level(i, x):
			outs = []
			if i == len(g.generators):
				found.extend(self.eval(g.elt, x))
				return outs
			for y, itv in self.eval(g.generators[i].iter, x):
				outs += self._comp_loop(g.generators[i], itv, y,
				                        lambda z: level(i + 1, z))
			return outs
		out = []
		todo = [(st, NONE)] if len(n.args) < 2 else self.eval(n.args[1], st)
		for x, dflt in todo:
			for kind, y, v in level(0, x):
				if len(n.args) > 1:
					out.append((y, dflt))
				else:
					self.throw(y, ("exc", "StopIteration"), n)
		return out + found

	def ex_DictComp(self, n, st):
		sts, _ = self._comp(n, st, [n.key, n.value])
		return [(x, x.fresh(("r", self.site(x, n), "comp", ())))
		        for x in sts]

	# ------------------------------------------------------- conditions
	def cmp_term(self, op, a, b, st):
		"""canonical comparison term and whether it is negated"""
		o = type(op).__name__
		if o == "NotEq":
			t, neg = ("==", a, b), True
		elif o == "IsNot":
			t, neg = ("is", a, b), True
		elif o == "NotIn":
			t, neg = ("in", a, b), True
		elif o == "Gt":
			t, neg = ("<", b, a), False
		elif o == "GtE":
			t, neg = ("<", a, b), True
		elif o == "LtE":
			t, neg = ("<", b, a), True
		elif o == "Lt":
			t, neg = ("<", a, b), False
		elif o == "Eq":
			t, neg = ("==", a, b), False
		elif o == "Is":
			t, neg = ("is", a, b), False
		else:
			t, neg = ("in", a, b), False
		if t[0] in ("==", "is") and is_k(t[1]) and not is_k(t[2]):
			t = (t[0], t[2], t[1])
		elif t[0] == "==" and not is_k(t[2]) and repr(t[2]) < repr(t[1]):
			t = (t[0], t[2], t[1])
		if t[0] == "in":
			it = self.items_of(t[2], st)
			if it is not None and all(is_k(e) for e in it[1:]) and \
					len(it) > 1:
				t = ("in", t[1], it)
		return ("cmp",) + t, neg

	def known_const(self, t, st):
		if is_k(t):
			return t
		for f, v in st.facts.items():
			if v and f[0] == "cmp" and f[1] == "==" and f[2] == t and \
					is_k(f[3]):
				return f[3]
			if v and f[0] == "cmp" and f[1] == "is" and f[2] == t and \
					is_k(f[3]):
				return f[3]
		return None

	def decide(self, t, st):
		"""True / False / None"""
		if is_k(t):
			return bool(t[2])
		if t in st.facts:
			return st.facts[t]
		k = t[0]
		if k == "not":
			r = self.decide(t[1], st)
			return None if r is None else not r
		r = self.m.truth(self, st, t)
		if r is not None:
			return r
		if k == "cmp":
			op, a, b = t[1], t[2], t[3]
			if op in ("==", "is") and a == b and a[0] not in ("unk", "phi"):
				return True
			ka = self.known_const(a, st)
			kb = self.known_const(b, st)
			if op == "in" and b[0] == "tup":
				if ka is not None and all(is_k(e) for e in b[1:]):
					return any(_same(ka[2], e[2]) for e in b[1:])
				ds = [self.decide(self.cmp_term(ast.Eq(), a, e, st)[0], st)
				      for e in b[1:]]
				if any(d for d in ds):
					return True
				if all(d is False for d in ds):
					return False
				return None
			if ka is not None and kb is not None:
				try:
					if op == "==":
						return ka[2] == kb[2]
					if op == "<":
						return ka[2] < kb[2]
					if op == "is":
						return ka[2] is kb[2] or (
							ka[2] == kb[2] and
							type(ka[2]) is type(kb[2]))
					if op == "in":
						return ka[2] in kb[2]
				except TypeError:
					return None
			if op == "is" and is_k(b) and b[2] is None:
				if a[0] in ("new", "F", "C", "M", "clo", "tup", "list",
				            "dict", "op", "cmp", "self", "h", "exc"):
					return False
				if st.facts.get(a) is True:
					return False
			if op == "==" and is_k(b):
				if b[2] is None and (a[0] in ("new", "tup", "list", "dict",
				                              "op", "h")
				                     or st.facts.get(a) is True):
					return False
				d = st.facts.get(("cmp", "is", a, b))
				if d:
					return True
				# a is one of other constants?
				for f, v in st.facts.items():
					if v and f[0] == "cmp" and f[1] == "in" and f[2] == a \
							and f[3][0] == "tup" and \
							all(is_k(e) for e in f[3][1:]):
						if not any(_same(e[2], b[2]) for e in f[3][1:]):
							return False
			return None
		if k in ("new", "F", "C", "M", "clo", "exc", "self", "ext", "h"):
			return True
		if k == "prev" and t[1][0] in ("new", "h"):
			return True
		if k == "phi":
			ps = self.parts(t)
			if ps and all(x[0] in ("new", "h", "prev", "k") for x in ps):
				ds = {self.decide(x, st) for x in ps}
				if len(ds) == 1:
					return ds.pop()
		if k == "op" and t[1] == "Mod" and is_k(t[2]) and \
				isinstance(t[2][2], str):
			# formatted text with literal parts is not empty
			if re.sub(r"%[-+ #0-9.]*[a-zA-Z%]", "", t[2][2]):
				return True
		if k == "op" and t[1] == "Add":
			for x in t[2:4]:
				if is_k(x) and isinstance(x[2], (str, bytes)) and x[2] or \
						x[0] == "op" and x[1] in ("Mod", "Add") and \
						self.decide(x, st):
					return True
		if k == "tup":
			return len(t) > 1
		if k == "list":
			it = st.heap.get((t, "$items"))
			if it is not None and it[0] == "tup":
				return len(it) > 1
			return None
		if st.facts.get(("cmp", "is", t, NONE)):
			return False
		kc = self.known_const(t, st)
		if kc is not None:
			return bool(kc[2])
		if k == "c" and t[1] == "len" and t[2]:
			it = self.items_of(t[2][0], st)
			if it:
				return len(it) > 1
		return None

	def split(self, v, st, node):
		"""branch on the truth of value v -> [(state, bool)]"""
		r = self.decide(v, st)
		self.forked = r is None
		if r is not None:
			self.m.on_branch(self, st, v, r, node)
			return [(st, r)]
		neg = False
		t = v
		while t[0] == "not":
			t = t[1]
			neg = not neg
		a, b = st, st.copy()
		self.assume(a, t, True)
		self.assume(b, t, False)
		self.m.on_branch(self, a, t, True, node)
		self.m.on_branch(self, b, t, False, node)
		return [(a, not neg), (b, neg)]

	def assume(self, st, t, val):
		if t[0] in ("unk",):
			return
		st.facts[t] = val
		if t[0] == "cmp" and t[1] == "in" and t[3][0] == "tup" and not val:
			for e in t[3][1:]:
				st.facts[self.cmp_term(ast.Eq(), t[2], e, st)[0]] = False

	def cond(self, n, st):
		if isinstance(n, ast.BoolOp):
			is_and = isinstance(n.op, ast.And)
			out = []
			cur = [st]
			for i, e in enumerate(n.values):
				nxt = []
				for x in cur:
					for y, b in self.cond(e, x):
						if b == is_and:
							nxt.append(y)
						else:
							out.append((y, b))
				cur = nxt
			out += [(x, is_and) for x in cur]
			return self._cap(out)
		if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
			return [(x, not b) for x, b in self.cond(n.operand, st)]
		if isinstance(n, ast.Compare) and len(n.ops) > 1:
			# a op b op c  ->  a op b and b op c
			out = []
			for x, vs in self.eval_list([n.left] + n.comparators, st):
				cur = [x]
				for i, op in enumerate(n.ops):
					nxt = []
					for y in cur:
						t, neg = self.cmp_term(op, vs[i], vs[i + 1], y)
						for z, b in self.split(t, y, n):
							if b != neg:
								nxt.append(z)
							else:
								out.append((z, False))
					cur = nxt
				out += [(y, True) for y in cur]
			return self._cap(out)
		out = []
		for x, v in self.eval(n, st):
			out += self.split(v, x, n)
		return self._cap(out)

	# ------------------------------------------------------------ calls
	def ex_Call(self, n, st):
		self.stats["calls"] += 1
		f = n.func
		# super(X, self).m(...)
		if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
				and isinstance(f.value.func, ast.Name) \
				and f.value.func.id == "super":
			return self._super_call(n, f.attr, st)
		if isinstance(f, ast.Name) and f.id in ("any", "all") and \
				len(n.args) == 1 and isinstance(
					n.args[0], (ast.GeneratorExp, ast.ListComp)) and \
				self.lookup(f.id, st)[0] == "ext":
			return self._any_all(n, st, f.id == "any")
		if isinstance(f, ast.Name) and f.id in ("any", "all") and \
				len(n.args) == 1 and isinstance(n.args[0], ast.Call) and \
				isinstance(n.args[0].func, ast.Name) and \
				n.args[0].func.id == "map" and len(n.args[0].args) == 2 and \
				self.lookup(f.id, st)[0] == "ext" and self.m.exact_objects:
			return self._any_all(self._as_generator(n), st, f.id == "any")
		if isinstance(f, ast.Name) and f.id == "next" and n.args and \
				isinstance(n.args[0], ast.GeneratorExp) and \
				not n.keywords and self.lookup("next", st)[0] == "ext" and \
				self.m.exact_objects:
			return self._first_of(n, st)
		res = []
		if isinstance(f, ast.Attribute):
			for x, b in self.eval(f.value, st):
				for y, args, kw in self.eval_args(n, x):
					if b[0] in ("M", "ext", "C"):
						fv = self._static_attr(b, f.attr, y)
						if (b, f.attr) in y.heap:
							fv = y.heap[(b, f.attr)]
						if fv is None:
							fv = ("attr", b, f.attr)
						res += self.call_value(fv, args, kw, n, y)
					else:
						res += self.call_method(b, f.attr, args, kw, n, y)
		else:
			for x, fv in self.eval(f, st):
				for y, args, kw in self.eval_args(n, x):
					res += self.call_value(fv, args, kw, n, y)
		return self._cap(res, ("call", n.lineno))

	def eval_args(self, n, st):
		out = []
		kws = [k for k in n.keywords]
		for x, vs in self.eval_list(list(n.args) + [k.value for k in kws],
		                            st):
			na = len(vs) - len(kws)
			kw = {}
			for k, v in zip(kws, vs[na:]):
				kw[k.arg or "**"] = v
			out.append((x, vs[:na], kw))
		return out

	def _super_call(self, n, name, st):
		res = []
		fi = st.frames[-1].fi
		selfv = st.env.get(fi.params()[0]) if fi.params() else None
		a = n.func.value.args
		cls = fi.cls
		if a:
			for x, cv in self.eval(a[0], st)[:1]:
				if cv[0] == "C":
					cls = self._cls(cv[1])
		if len(a) > 1:
			for x, v in self.eval(a[1], st)[:1]:
				selfv = v
		dyn = self._class_of(st, selfv) if selfv else None
		for x, args, kw in self.eval_args(n, st):
			target = None
			if cls is not None:
				mro = self.p.mro(dyn if dyn is not None else cls)
				if cls in mro:
					mro = mro[mro.index(cls) + 1:]
				else:
					mro = self.p.mro(cls)[1:]
				for c in mro:
					if name in c.methods:
						target = c.methods[name]
						break
			if target is not None:
				res += self.call_project(target, selfv, args, kw, n, x)
			else:
				res += self.call_ext("super." + name, selfv, args, kw, n, x)
		return res

	def call_value(self, fv, args, kw, n, st):
		k = fv[0]
		if k == "F":
			fi = self._fn(fv[1])
			if fi is None:
				return self.call_ext(fv[1], None, args, kw, n, st)
			if fi.cls is not None and not _is_static(fi):
				if _is_classmethod(fi):
					return self.call_project(fi, ("C", fi.cls.full), args, kw,
					                         n, st)
				if args:   # Class.method(obj, ...)
					return self.call_project(fi, args[0], args[1:], kw, n, st)
			return self.call_project(fi, None, args, kw, n, st)
		if k == "clo":
			return self.call_project(self.lambdas[fv[1]], None, args, kw, n,
			                         st, fv[2])
		if k == "C":
			return self.construct(fv, args, kw, n, st)
		if k == "ext":
			return self.call_ext(fv[1], None, args, kw, n, st)
		if k == "attr":
			return self.call_method(fv[1], fv[2], args, kw, n, st)
		if k == "cattr":
			return self.call_ext("." + fv[2], fv, args, kw, n, st)
		if k == "phi" or k == "glob" or k == "param":
			return self.call_ext("?" + str(fv[-1]), fv, args, kw, n, st)
		return self.call_ext("?", fv, args, kw, n, st)

	def construct(self, cv, args, kw, n, st):
		c = self._cls(cv[1])
		r = self.m.call(self, st, "N:" + cv[1], None, args, kw, n)
		if r is not None:
			return self._finish(r, n)
		t = st.fresh(("new", self.site(st, n), cv[1]))
		if c is not None:
			eb = self.p.ext_bases(c)
			if any(e.split(".")[-1] in BUILTIN_EXC for e in eb):
				return [(st, t)]
			init = self.p.find_method(c, "__init__")
			if init is not None:
				res = []
				for x, _v in self.call_project(init, t, args, kw, n, st):
					res.append((x, t))
				return res
		return [(st, t)]

	def call_method(self, b, name, args, kw, n, st):
		# stored function value (heap) as attribute
		if (b, name) in st.heap:
			fv = st.heap[(b, name)]
			if fv[0] in ("F", "clo", "C"):
				return self.call_value(fv, args, kw, n, st)
		c = self._class_of(st, b)
		if c is not None:
			fi = self.p.find_method(c, name)
			if fi is not None:
				if _is_static(fi):
					return self.call_project(fi, None, args, kw, n, st)
				if _is_classmethod(fi):
					return self.call_project(fi, ("C", c.full), args, kw, n,
					                         st)
				return self.call_project(fi, b, args, kw, n, st)
			v = self._nested_class(c, name)
			if v is not None and name not in self._instance_assigned(c):
				return self.construct(v, args, kw, n, st)
		elif name not in CHA_SKIP and b[0] not in ("k", "tup", "list",
		                                                "dict"):
			cands = [c for c in self.p.method_index.get(name, [])
			         if c.mod.name in self.scope]
			if len(cands) == 1:
				return self.call_project(cands[0], b, args, kw, n, st)
			if len(cands) > 1:
				r = self.m.call(self, st, "M:" + name, b, args, kw, n)
				if r is not None:
					return self._finish(r, n)
		return self.call_ext("." + name, b, args, kw, n, st)

	def _should_inline(self, fi, st):
		if fi.full in self.m.opaque or fi.qual in self.m.opaque:
			return False
		if len(st.frames) >= self.m.max_depth:
			return False
		if any(f.fi.node is fi.node for f in st.frames):
			return False
		if fi.full in self.m.force_inline or fi.mod.name.startswith(
				self.m.inline_modules):
			return not fi.is_generator
		if fi.is_generator:
			return False
		if fi.full in self._relevant:
			return True
		sz = getattr(fi, "_small", None)
		if sz is None:
			body = list(walk_stmts(fi.node))
			sz = fi._small = (99 if any(isinstance(
				b, (ast.For, ast.While, ast.With, ast.Try)) for b in body)
				else len(body))
		return sz <= (max(self.m.inline_small, 24) if fi.parent is not None
		              and self.m.inline_small else self.m.inline_small)

	def call_project(self, fi, recv, args, kw, n, st, closure=None):
		r = self.m.call(self, st, "P:" + fi.full, recv, args, kw, n)
		if r is not None:
			return self._finish(r, n)
		eager = fi.is_generator and self.m.eager_generators and \
			fi.mod.name.startswith(self.m.inline_modules) and \
			len(st.frames) < self.m.max_depth and \
			not any(f.fi.node is fi.node for f in st.frames)
		if not eager and not self._should_inline(fi, st):
			self.stats["opaque"].add(fi.full)
			return self.opaque_call("P:" + fi.full, recv, args, kw, n, st)
		self.stats["inlined"].add(fi.full)
		env = self.bind(fi, recv, args, kw, st, n)
		self.fidn += 1
		fr = st.frames[-1]
		site = fr.site + (fr.fi.mod.name, getattr(n, "lineno", 0),
		                  getattr(n, "col_offset", 0), fi.full)
		# stable frame id per call site so that states can be merged
		fid = Site(("f", fi.full, site))
		lst = None
		if eager:
			# its items, computed at once
			lst = st.fresh(("list", site))
			st.heap[(lst, "$items")] = ("tup",)
			self.gens.append((fid, lst, None))
		st.frames.append(Frame(fid, fi, env, closure, None, site))
		sink = []
		self.sinks.append(sink)
		try:
			outs = self.exec_body(fi.node.body, [st])
		finally:
			self.sinks.pop()
			if eager:
				self.gens.pop()
		res = []
		for kind, x, v in self.reduce_outs(
				outs + [("x", a, b) for a, b in sink]):
			if kind not in ("x", "r"):
				self.m.on_return(self, x, NONE, fi.node)
			x.frames.pop()
			if kind == "x":
				self.sinks[-1].append((x, v))
			elif eager:
				res.append((x, lst))
			elif kind == "r":
				res.append((x, v))
			else:
				res.append((x, NONE))
		return self._cap(res, ("ret", getattr(n, "lineno", 0)))

	def bind(self, fi, recv, args, kw, st, n):
		env = {}
		a = fi.node.args
		names = [x.arg for x in a.posonlyargs + a.args]
		vals = list(args)
		if recv is not None and (fi.cls is not None):
			vals = [recv] + vals
		if any(v[0] == "star" for v in vals):
			k = [i for i, v in enumerate(vals) if v[0] == "star"][0]
			vals = vals[:k] + [("sub", vals[k][1], K(i))
			                   for i in range(max(0, len(names) - k))]
		for nme, v in zip(names, vals):
			env[nme] = v
		extra = vals[len(names):]
		defaults = a.defaults
		for nme, d in zip(names[len(names) - len(defaults):], defaults):
			if nme not in env and nme not in kw:
				dv = self.const_eval(d, fi.mod, fi.cls)
				if dv is None and isinstance(d, (ast.List, ast.Dict)) and \
						not getattr(d, "elts", getattr(d, "keys", None)):
					dv = ("param", nme)
					if self.m.eager_generators:
						# one object, made with the function
						dv = ("list" if isinstance(d, ast.List) else "dict",
						      ("default", fi.full, nme))
						if dv[0] == "list":
							st.heap.setdefault((dv, "$items"), ("tup",))
				env[nme] = dv if dv is not None else ("param", nme)
		for x, d in zip(a.kwonlyargs, a.kw_defaults):
			if x.arg not in kw:
				dv = self.const_eval(d, fi.mod, fi.cls) if d else None
				env[x.arg] = dv if dv is not None else ("param", x.arg)
		for k, v in kw.items():
			if k in names or k in [x.arg for x in a.kwonlyargs]:
				env[k] = v
		if a.vararg:
			env[a.vararg.arg] = ("tup",) + tuple(extra)
		if a.kwarg:
			env[a.kwarg.arg] = ("unk", self.site(st, n) + ("kw",))
		for nme in names:
			if nme not in env:
				env[nme] = ("unk", self.site(st, n) + (nme,))
		return env

	def _finish(self, r, n):
		out = []
		for kind, x, v in r:
			if kind == "ok":
				out.append((x, v))
			else:
				self.throw(x, v, n)
		return out

	def opaque_call(self, name, recv, args, kw, n, st):
		self.maybe_throw(st, ("exc", "Any"), n)
		short = name.split(":")[-1].split(".")[-1]
		t = st.fresh(("r", self.site(st, n), short,
		              (() if recv is None else (recv,)) + tuple(args)))
		return [(st, t)]

	def call_ext(self, name, recv, args, kw, n, st):
		r = self.m.call(self, st, name, recv, args, kw, n)
		if r is not None:
			return self._finish(r, n)
		if name in EXITS or name in (".exit", ".error") and (
				recv is None or recv[0] != "k"):
			a = args[0] if args else NONE
			self.throw(st, ("exc", "SystemExit", a), n)
			return []
		short = name.split(".")[-1]
		if name == ".format" and is_k(recv) and isinstance(recv[2], str) and \
				not kw:
			f, order = _percent(recv[2])
			if f is not None and all(i < len(args) for i in order):
				return [(st, self.text(f, [args[i] for i in order], st, n))]
		if name.startswith("."):
			# higher order / containers
			if short in ("append", "insert", "extend", "remove", "pop",
			             "sort", "reverse", "clear") and recv is not None:
				self._container(short, recv, args, st)
			noraise = short in NORAISE_METHODS
			if short == "pop" and False:
				noraise = True
			exc = ("exc", "Any")
			if short in ("write", "read", "seek", "tell", "readline",
			             "flush", "truncate", "close", "readinto"):
				exc = ("exc", "Any")
			if not noraise:
				self.maybe_throw(st, exc, n)
			if short in PURE_METHODS and recv is not None:
				t = self._fold_method(short, recv, args, kw)
				if t is not None:
					return [(st, t)]
				return [(st, self.mk(("c", name, (recv,) + tuple(args)), st,
				                     n))]
		else:
			if name in ("map", "filter") and args and \
					args[0][0] in ("F", "clo"):
				return self._hof(name, args, n, st)
			if name in ("any", "all", "sum", "list", "sorted", "tuple",
			            "reversed", "set") and args:
				el = st.heap.get((args[0], "$elems"))
			if short in BUILTIN_EXC:
				return [(st, ("exc", short))]
			noraise = name in NORAISE or name in PURE and name not in (
				"int", "float", "ord", "chr", "struct.unpack",
				"struct.unpack_from", "struct.pack", "os.path.relpath",
				"min", "max", "bytes", "unicode", "round", "binascii.unhexlify")
			if not noraise:
				exc = ("exc", "Any")
				if name in ("open", "io.open") or name.startswith("os."):
					exc = ("exc", "OSError")
				elif name in ("int", "float", "ord", "chr"):
					exc = ("exc", "ValueError")
				elif name.startswith("struct."):
					exc = ("exc", "struct.error")
				self.maybe_throw(st, exc, n)
			if name in PURE:
				t = self._fold_call(name, args, kw, st)
				if t is not None:
					return [(st, t)]
				ar = tuple(args)
				if kw:
					ar += tuple(("kw", k, v) for k, v in sorted(kw.items()))
				return [(st, self.mk(("c", name, ar), st, n))]
			if name in ("list", "sorted", "reversed", "dict", "set",
			            "frozenset"):
				if not args:
					t = st.fresh(("list", self.site(st, n)))
					st.heap[(t, "$items")] = ("tup",)
					return [(st, t)]
				it = self.items_of(args[0], st)
				t = st.fresh(("r", self.site(st, n), name, tuple(args)))
				if it is not None and name == "list":
					t = st.fresh(("list", self.site(st, n)))
					st.heap[(t, "$items")] = it
				return [(st, t)]
		nm = name.lstrip(".") if name.startswith(".") else name
		t = ("r", self.site(st, n), nm,
		     (() if recv is None else (recv,)) + tuple(args))
		if depth(t) > 16:
			t = ("r", self.site(st, n), nm, ())
		return [(st, st.fresh(t))]

	def _container(self, op, recv, args, st):
		key = (recv, "$items")
		it = st.heap.get(key)
		ek = (recv, "$elems")
		if op == "append" and args:
			if it is not None and it[0] == "tup" and \
					len(it) < self.m.seq_limit and recv[0] == "list":
				st.heap[key] = it + (args[0],)
			elif it is not None:
				st.heap[key] = ("unk", "items")
			old = st.heap.get(ek)
			if not isinstance(old, frozenset):
				old = frozenset()
			if len(old) < 16:
				st.heap[ek] = old | {args[0]}
		elif op == "extend" and args:
			o = args[0] if args[0][0] == "tup" else \
				self.items_of(args[0], st)
			if it is not None and it[0] == "tup" and o is not None and \
					len(it) + len(o) < (
						self.m.seq_limit if self.m.exact_objects else 10):
				st.heap[key] = it + o[1:]
			elif it is not None:
				st.heap[key] = ("unk", "items")
		elif it is not None:
			st.heap[key] = ("unk", "items")
		# facts about the mutated container are stale
		st.facts = {f: v for f, v in st.facts.items()
		            if not mentions(f, recv)}

	def _hof(self, name, args, n, st):
		"""map(f, xs) / filter(f, xs): run f on elements as a loop"""
		src = self._iter_src(args[1]) if len(args) > 1 else ("unk", "hof")
		g = ast.comprehension(target=ast.copy_location(
			ast.Name(id="$hof", ctx=ast.Store()), n), iter=n, ifs=[],
			is_async=0)
		rets = []

		ft = ("c", "filter", tuple(args))

		def inner(x):
			outs = []
			for y, v in self.call_value(args[0], [x.env["$hof"]], {}, n, x):
				rets.append(v)
				if name == "filter":
					for z, b in self.split(v, y, n):
						if b:
							self.m.comp_elem(self, z, ft, z.env["$hof"], n)
						outs.append(("n", z, None))
					continue
				outs.append(("n", y, None))
			return outs
		out = []
		for kind, x, _ in self._comp_loop(g, args[1] if len(args) > 1
		                                  else ("unk", "h"), st, inner):
			if name == "filter":
				t = ("c", "filter", tuple(args))
			else:
				t = x.fresh(("r", self.site(x, n), name, ()))
			out.append((x, t))
		return out

	def _fold_call(self, name, args, kw, st):
		if kw:
			return None
		if name == "len" and len(args) == 1:
			it = self.items_of(args[0], st)
			if it is not None:
				return K(len(it) - 1)
			if args[0][0] == "tup":
				return K(len(args[0]) - 1)
			if is_k(args[0]) and isinstance(args[0][2], (str, bytes)):
				return K(len(args[0][2]))
		if name in ("min", "max") and len(args) == 1:
			it = self.items_of(args[0], st) or args[0]
			if it[0] == "tup" and len(it) > 1 and all(
					is_k(x) and isinstance(x[2], int) for x in it[1:]):
				return K({"min": min, "max": max}[name](
					x[2] for x in it[1:]))
		if name == "tuple" and len(args) == 1:
			it = self.items_of(args[0], st)
			if it is not None:
				return it
		if all(is_k(a) for a in args) and args:
			try:
				if name == "struct.calcsize":
					import struct
					return K(struct.calcsize(args[0][2]))
				if name in ("int", "str", "len", "min", "max", "abs", "ord",
				            "chr", "bool", "float", "hex"):
					return K(getattr(builtins, name)(*[a[2] for a in args]))
				if name.startswith("os.path.") and name not in (
						"os.path.abspath", "os.path.realpath",
						"os.path.relpath", "os.path.expanduser"):
					r = getattr(os.path, name.split(".")[-1])(
						*[a[2] for a in args])
					if isinstance(r, (str, bytes, bool)):
						return K(r)
			except Exception:
				return None
		return None

	def _fold_method(self, name, recv, args, kw):
		if is_k(recv) and isinstance(recv[2], (str, bytes)) and \
				all(is_k(a) for a in args) and not kw:
			try:
				r = getattr(recv[2], name)(*[a[2] for a in args])
				if isinstance(r, (str, bytes, bool, int)):
					return K(r)
				if isinstance(r, list):
					return ("tup",) + tuple(K(x) for x in r)
			except Exception:
				return None
		return None


# ---------------------------------------------------------------- helpers
def _spec(s):
	"""a format() specification as one of the % operator"""
	m = re.match(r"^(>?)([-+ #0]*)(\d*)(\.\d+)?([sdxXofeg]?)$", s)
	if not m or (m.group(1) and m.group(2)):
		return None
	return "%" + m.group(2) + m.group(3) + (m.group(4) or "") + (
		m.group(5) or "s")


def _conversion(c, spec):
	if spec is None:
		return {-1: "%s", 115: "%s", 114: "%r"}.get(c)
	if c in (-1, 115) and len(spec.values) == 1 and isinstance(
			spec.values[0], ast.Constant):
		return _spec(spec.values[0].value)
	return None


def _percent(text):
	"""(text for the % operator, argument numbers) of a str.format() text"""
	out, order = "", []
	try:
		for lit, field, spec, conv in string.Formatter().parse(text):
			out += lit.replace("%", "%%")
			if field is None:
				continue
			if field and not field.isdigit() or conv not in (None, "s", "r"):
				return None, ()
			c = _spec(spec) if spec else "%r" if conv == "r" else "%s"
			if c is None:
				return None, ()
			out += c
			order.append(int(field) if field else len(order))
	except ValueError:
		return None, ()
	return out, order


def walk_stmts(node):
	for n in ast.walk(node):
		if isinstance(n, ast.stmt):
			yield n


def _has_phi(t, site):
	if isinstance(t, tuple):
		if len(t) == 3 and t[0] == "phi" and isinstance(t[1], tuple) and \
				t[1] and t[1][0] == site:
			return True
		return any(_has_phi(e, site) for e in t)
	return False


def _same(a, b):
	return type(a) is type(b) and a == b or (
		isinstance(a, (int, float)) and isinstance(b, (int, float))
		and a == b)


_OPS = {
	"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
	"Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b,
	"Mod": lambda a, b: a % b, "BitOr": lambda a, b: a | b,
	"BitAnd": lambda a, b: a & b, "BitXor": lambda a, b: a ^ b,
	"LShift": lambda a, b: a << b if b < 4096 else None,
	"RShift": lambda a, b: a >> b,
	"Pow": lambda a, b: a ** b if abs(b) <= 256 else None,
	"Div": lambda a, b: a / b,
}


def _fold(op, a, b):
	if is_k(a) and is_k(b):
		try:
			r = _OPS[op](a[2], b[2])
		except Exception:
			return None
		if isinstance(r, (int, float, str, bytes, bool)) and not (
				isinstance(r, (str, bytes)) and len(r) > 4096):
			return K(r)
		return None
	if op == "Add" and a[0] == "tup" and b[0] == "tup":
		return a + b[1:]
	if op == "Add":
		if is_k(a) and a[2] == 0 and a[1] == "int":
			return b
		if is_k(b) and b[2] == 0 and b[1] == "int":
			return a
		if is_k(a) and a[2] in (b"", "") and a[1] in ("bytes", "str"):
			return b
		if is_k(b) and b[2] in (b"", "") and b[1] in ("bytes", "str"):
			return a
	return None


def _as_load(t):
	import copy
	t2 = copy.copy(t)
	t2.ctx = ast.Load()
	return t2


def _globals_of(fi):
	g = getattr(fi, "_globs", None)
	if g is None:
		g = set()
		from .project import walk_own
		for n in walk_own(fi.node):
			if isinstance(n, ast.Global):
				g.update(n.names)
		fi._globs = g
	return g


def _nonlocals_of(fi):
	g = getattr(fi, "_nonl", None)
	if g is None:
		g = set()
		from .project import walk_own
		for n in walk_own(fi.node):
			if isinstance(n, ast.Nonlocal):
				g.update(n.names)
		fi._nonl = g
	return g


def _locals_of(fi):
	g = getattr(fi, "_locs", None)
	if g is None:
		g = set(fi.params())
		from .project import walk_own
		for n in walk_own(fi.node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
				g.add(n.id)
			elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
				g.add(n.name)
			elif isinstance(n, (ast.Import, ast.ImportFrom)):
				for a in n.names:
					g.add(a.asname or a.name.split(".")[0])
			elif isinstance(n, ast.ExceptHandler) and n.name:
				g.add(n.name)
		fi._locs = g
	return g


def _decos(fi):
	return [d.id for d in getattr(fi.node, "decorator_list", [])
	        if isinstance(d, ast.Name)]


def _is_static(fi):
	return "staticmethod" in _decos(fi)


def _is_classmethod(fi):
	return "classmethod" in _decos(fi)
