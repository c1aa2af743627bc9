"""Live variables of a function: what is still read after each statement.
Names that nested functions use count as live everywhere."""
import ast

NESTED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def names(n, ctx):
	if n is None:
		return set()
	return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
	        and isinstance(x.ctx, ctx)}


class Live(object):
	def __init__(self, fn):
		self.after = {}
		self.always = set()
		for n in ast.walk(fn):
			if n is not fn and isinstance(n, NESTED):
				self.always |= {x.id for x in ast.walk(n)
				                if isinstance(x, ast.Name)}
			elif isinstance(n, (ast.Global, ast.Nonlocal)):
				self.always |= set(n.names)
		self.block(fn.body, set(), set(), set(), set())

	def block(self, body, out, brk, cont, exc):
		for s in reversed(body):
			out = out | exc
			a = self.after.setdefault(id(s), set())
			a |= out
			out = self.stmt(s, out, brk, cont, exc) | exc
		return out

	def stmt(self, s, out, brk, cont, exc):
		L, S = ast.Load, (ast.Store, ast.Del)
		if isinstance(s, ast.If):
			return names(s.test, L) | self.block(
				s.body, out, brk, cont, exc) | self.block(
				s.orelse, out, brk, cont, exc)
		if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
			loop = isinstance(s, ast.While)
			end = self.block(s.orelse, out, brk, cont, exc) | out
			head = end | (names(s.test, L) if loop else set())
			while True:
				new = head | self.block(s.body, head, out, head, exc)
				if new == head:
					break
				head = new
			return head if loop else head | names(s.iter, L) | \
				names(s.target, L)
		if isinstance(s, (ast.With, ast.AsyncWith)):
			r = self.block(s.body, out, brk, cont, exc)
			for i in s.items:
				r |= names(i.context_expr, L)
			return r
		if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
			every = out | brk | cont | exc
			fin = self.block(s.finalbody, every if s.finalbody else out, brk,
			                 cont, exc) if s.finalbody else out
			e2 = exc | (fin if s.finalbody else set())
			b2 = brk | (fin if s.finalbody else set())
			c2 = cont | (fin if s.finalbody else set())
			h = set()
			for x in s.handlers:
				h |= self.block(x.body, fin, b2, c2, e2) | names(x.type, L)
			o = self.block(s.orelse, fin, b2, c2, e2)
			return self.block(s.body, o, b2, c2, e2 | h)
		if isinstance(s, ast.Break):
			return set(brk) | exc
		if isinstance(s, ast.Continue):
			return set(cont) | exc
		if isinstance(s, (ast.Return, ast.Raise)):
			return names(s, L) | exc
		if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
			return out | names(s, L)
		if type(s).__name__ == "Match":
			return out | {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
		if isinstance(s, ast.AugAssign):
			return out | names(s, L) | names(s.target, S)
		st = set()
		if isinstance(s, ast.Assign):
			for t in s.targets:
				st |= names(t, S)
		return (out - st) | names(s, L)


def dead(fi, stmt, name):
	"""is the value of the variable not read any more after the statement"""
	lv = getattr(fi, "_live", None)
	if lv is None:
		lv = fi._live = Live(fi.node)
	a = lv.after.get(stmt)
	return a is not None and name not in a and name not in lv.always
