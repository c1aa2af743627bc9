#!/usr/bin/env python3
"""Development helper: rewrites a copy of the repository in a way that keeps
its behaviour, to see that the checks stay quiet on it.
usage: refactor.py TRANSFORM DIR [P01 P02 ...]     (TRANSFORM "list": names)"""
import ast
import copy
import os
import shutil
import subprocess
import sys

PKGS = ("rescene", "resample", "bin", "usenet")
T = {}


def tr(f):
	T[f.__name__] = f
	return f


class Stmts(ast.NodeTransformer):
	"""calls self.block(list of statements) on every block"""
	def generic_visit(self, n):
		super().generic_visit(n)
		for a in ("body", "orelse", "finalbody"):
			b = getattr(n, a, None)
			if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
				setattr(n, a, self.block(b, n))
		return n


def name(i, ctx=None):
	return ast.Name(i, ctx or ast.Load())


def neg(t):
	if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
		return t.operand
	return ast.UnaryOp(ast.Not(), t)


@tr
def plain(t):
	return t


@tr
def invert(t):
	"""if c: A else: B -> if not c: B else: A"""
	class V(ast.NodeTransformer):
		def visit_If(self, n):
			self.generic_visit(n)
			if n.orelse:
				return ast.If(neg(n.test), n.orelse, n.body)
			return n
	return V().visit(t)


@tr
def early(t):
	"""a trailing if in a loop -> if not c: continue"""
	class V(ast.NodeTransformer):
		def loop(self, n):
			self.generic_visit(n)
			l = n.body[-1]
			if isinstance(l, ast.If) and not l.orelse:
				n.body = n.body[:-1] + [ast.If(neg(l.test), [
					ast.Continue()], [])] + l.body
			return n
		visit_For = visit_While = loop
	return V().visit(t)


@tr
def augment(t):
	"""x += y -> x = x + y for plain names"""
	class V(ast.NodeTransformer):
		def visit_AugAssign(self, n):
			if isinstance(n.target, ast.Name):
				return ast.Assign([n.target], ast.BinOp(
					name(n.target.id), n.op, n.value))
			return n
	return V().visit(t)


@tr
def result(t):
	"""return f(x) -> result = f(x); return result; conditions in a name"""
	class V(Stmts):
		def visit_Lambda(self, n):
			return n

		def block(self, b, o):
			out = []
			for s in b:
				if isinstance(s, ast.Return) and s.value is not None and \
						not isinstance(s.value, (ast.Constant, ast.Name)):
					out += [ast.Assign([name("result_", ast.Store())], s.value),
					        ast.Return(name("result_"))]
				elif isinstance(s, ast.If):
					out += [ast.Assign([name("cond_", ast.Store())], s.test),
					        ast.If(name("cond_"), s.body, s.orelse)]
				else:
					out.append(s)
			return out
	return V().visit(t)


@tr
def arguments(t):
	"""arguments that are calls or operations go into names first"""
	class V(Stmts):
		def block(self, b, o):
			out = []
			for s in b:
				c = getattr(s, "value", None)
				if isinstance(s, (ast.Assign, ast.Expr)) and \
						isinstance(c, ast.Call) and isinstance(
							c.func, (ast.Name, ast.Attribute)) and not any(
							isinstance(a, ast.Starred) for a in c.args) and (
							isinstance(c.func, ast.Name) or isinstance(
								c.func.value, ast.Name)):
					for i, a in enumerate(c.args):
						if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript,
						                  ast.Compare)):
							v = "arg%d_" % i
							out.append(ast.Assign([name(v, ast.Store())], a))
							c.args[i] = name(v)
						elif not isinstance(a, (ast.Name, ast.Constant)):
							break
				out.append(s)
			return out
	return V().visit(t)


@tr
def whiles(t):
	"""for i in range(n) -> while loops, where the body allows"""
	class V(Stmts):
		def block(self, b, o):
			out = []
			for s in b:
				if isinstance(s, ast.For) and not s.orelse and isinstance(
						s.iter, ast.Call) and isinstance(
						s.iter.func, ast.Name) and s.iter.func.id == "range" \
						and isinstance(s.target, ast.Name) and len(
							s.iter.args) in (1, 2):
					has = any(isinstance(x, ast.Continue) or (
						isinstance(x, ast.Name) and x.id == s.target.id and
						isinstance(x.ctx, ast.Store))
						for y in s.body for x in ast.walk(y))
					if not has:
						lo = s.iter.args[0] if len(s.iter.args) == 2 else \
							ast.Constant(0)
						hi = s.iter.args[-1]
						k = "next%d_" % s.lineno
						out += [
							ast.Assign([name(k, ast.Store())], lo),
							ast.Assign([name("stop%d_" % s.lineno,
							                 ast.Store())], hi),
							ast.While(ast.Compare(name(k), [ast.Lt()], [
								name("stop%d_" % s.lineno)]), [
								ast.Assign([name(s.target.id, ast.Store())],
								           name(k))] + s.body + [
								ast.AugAssign(name(k, ast.Store()), ast.Add(),
								              ast.Constant(1))], [])]
						continue
				out.append(s)
			return out
	return V().visit(t)


@tr
def nested(t):
	"""if a and b: X -> if a: if b: X"""
	class V(ast.NodeTransformer):
		def visit_If(self, n):
			self.generic_visit(n)
			if not n.orelse and isinstance(n.test, ast.BoolOp) and \
					isinstance(n.test.op, ast.And):
				b = n.body
				for v in reversed(n.test.values):
					b = [ast.If(v, b, [])]
				return b[0]
			return n
	return V().visit(t)


@tr
def rename(t):
	"""local names get a suffix"""
	class V(ast.NodeTransformer):
		def visit_FunctionDef(self, n):
			args = {a.arg for a in n.args.args + n.args.kwonlyargs}
			if n.args.vararg:
				args.add(n.args.vararg.arg)
			if n.args.kwarg:
				args.add(n.args.kwarg.arg)
			glob = set()
			st = set()
			for x in ast.walk(n):
				if isinstance(x, (ast.Global, ast.Nonlocal)):
					glob |= set(x.names)
				elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
					st.add(x.id)
				elif isinstance(x, ast.ExceptHandler) and x.name:
					glob.add(x.name)
				elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) \
						and x is not n:
					glob |= {y.id for y in ast.walk(x)
					         if isinstance(y, ast.Name)}
					glob |= {y.arg for y in ast.walk(x)
					         if isinstance(y, ast.arg)}
				elif isinstance(x, (ast.Import, ast.ImportFrom)):
					glob |= {(a.asname or a.name) for a in x.names}
			loc = st - args - glob
			for x in ast.walk(n):
				if isinstance(x, ast.Name) and x.id in loc:
					x.id += "_v"
			return n
	return V().visit(t)


@tr
def wrap(t):
	"""every function does its work in a helper"""
	def wrapped(n, cls):
		a = n.args
		if n.name.startswith("__") or n.decorator_list or a.vararg or \
				a.kwarg or a.kwonlyargs or (cls and not a.args) or any(
				isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global))
				or isinstance(x, ast.Name) and x.id in (
					"super", "locals", "__class__")
				for x in ast.walk(n)) or (cls and any(
				isinstance(x, ast.Attribute) and x.attr.startswith("__")
				and not x.attr.endswith("__") for x in ast.walk(n))):
			return [n]
		h = copy.deepcopy(n)
		h.name = "_do_" + n.name
		h.args.defaults = []
		f = name(h.name) if not cls else ast.Attribute(
			name(a.args[0].arg), h.name, ast.Load())
		n.body = [ast.Return(ast.Call(f, [
			name(x.arg) for x in a.args[1 if cls else 0:]], []))]
		return [h, n]
	new = []
	for n in t.body:
		if isinstance(n, ast.FunctionDef):
			new += wrapped(n, False)
		else:
			if isinstance(n, ast.ClassDef):
				b = []
				for x in n.body:
					b += wrapped(x, True) if isinstance(
						x, ast.FunctionDef) else [x]
				n.body = b
			new.append(n)
	t.body = new
	return t


@tr
def helpers(t):
	"""the longest loop or if body without control flow out of it becomes a
	local function"""
	class V(ast.NodeTransformer):
		def visit_FunctionDef(self, n):
			if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp,
			                      ast.GeneratorExp, ast.SetComp, ast.DictComp,
			                      ast.Global, ast.ClassDef))
			       for x in ast.walk(n) if x is not n):
				return n
			best = None
			for x in ast.walk(n):
				for a in ("body", "orelse"):
					b = getattr(x, a, None)
					if x is n or not isinstance(b, list) or not b or not \
							isinstance(b[0], ast.stmt) or isinstance(
								x, ast.ExceptHandler):
						continue
					bad = False
					for s in b:
						for y in ast.walk(s):
							if isinstance(y, (ast.Return, ast.Break,
							                  ast.Continue, ast.Yield,
							                  ast.Name, ast.Import,
							                  ast.ImportFrom, ast.Raise,
							                  ast.ExceptHandler)):
								if isinstance(y, ast.Name) and not isinstance(
										y.ctx, (ast.Store, ast.Del)):
									continue
								bad = True
					if not bad and (best is None or len(b) > len(best[2])):
						best = (x, a, b)
			if best:
				x, a, b = best
				h = ast.FunctionDef("step_", ast.arguments(
					[], [], None, [], [], None, []), b, [])
				setattr(x, a, [ast.Expr(ast.Call(name("step_"), [], []))])
				i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(
					n.body[0].value, ast.Constant) else 0
				n.body.insert(i, h)
			return n
	return V().visit(t)


@tr
def extract(t):
	"""a run of plain statements becomes a module function: inputs are passed,
	outputs returned"""
	new = []

	class V(ast.NodeTransformer):
		def __init__(self):
			self.n = 0

		def visit_ClassDef(self, n):
			if any(isinstance(x, ast.Attribute) and x.attr.startswith("__")
			       and not x.attr.endswith("__") for x in ast.walk(n)):
				return n
			return self.generic_visit(n)

		def visit_FunctionDef(self, n):
			if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global,
			                      ast.ClassDef, ast.ListComp, ast.GeneratorExp,
			                      ast.SetComp, ast.DictComp))
			       for x in ast.walk(n) if x is not n) or any(
					isinstance(x, ast.Name) and x.id in (
						"super", "locals", "__class__") for x in ast.walk(n)):
				return n
			local = {a.arg for a in n.args.args} | {
				x.id for x in ast.walk(n) if isinstance(x, ast.Name)
				and isinstance(x.ctx, ast.Store)} | {
				x.name for x in ast.walk(n) if isinstance(
					x, ast.ExceptHandler)}
			if n.args.vararg or n.args.kwarg:
				return n
			cands = []
			sure = {a.arg for a in n.args.args}

			def walk(b, bound):
				# bound: names certainly assigned here
				bound = set(bound)
				run = []
				for i, s in enumerate(b):
					stores = {x.id for x in ast.walk(s) if isinstance(
						x, ast.Name) and isinstance(x.ctx, ast.Store)}
					loads = {x.id for x in ast.walk(s) if isinstance(
						x, ast.Name) and not isinstance(x.ctx, ast.Store)}
					simple = isinstance(s, (ast.Assign, ast.Expr)) and not any(
						isinstance(x, (ast.Yield, ast.Await, ast.Starred))
						for x in ast.walk(s))
					if simple:
						if not run:
							start = set(bound)
						need = (loads & local) - {
							y for z in run for y in z[1]}
						if need <= start:
							run.append((s, stores, need))
						else:
							cands.append((b, run, start))
							run, start = [], set(bound)
					else:
						cands.append((b, run, None))
						run = []
						inner = set(bound)
						if isinstance(s, ast.For):
							inner |= stores & {
								x.id for x in ast.walk(s.target)
								if isinstance(x, ast.Name)}
						for a in ("body", "orelse", "finalbody"):
							if isinstance(getattr(s, a, None), list):
								walk(getattr(s, a), inner)
					if simple:
						bound |= stores
				cands.append((b, run, None))
			body = n.body
			walk(body, sure)
			cands = [c for c in cands if len(c[1]) >= 2]
			if not cands:
				return n
			b, run, _ = max(cands, key=lambda c: len(c[1]))
			ss = [r[0] for r in run]
			ins = sorted(set().union(*[r[2] for r in run]))
			outs = sorted(set().union(*[r[1] for r in run]))
			self.n += 1
			hn = "part%d_%s" % (self.n, n.name.strip("_"))
			ret = ast.Return(ast.Tuple([name(o) for o in outs], ast.Load())
			                 if len(outs) != 1 else name(outs[0]))
			h = ast.FunctionDef(hn, ast.arguments(
				[], [ast.arg(i) for i in ins], None, [], [], None, []),
				ss + ([ret] if outs else []), [])
			call = ast.Call(name(hn), [name(i) for i in ins], [])
			if outs:
				tg = ast.Tuple([name(o, ast.Store()) for o in outs],
				               ast.Store()) if len(outs) != 1 else name(
					outs[0], ast.Store())
				c = ast.Assign([tg], call)
			else:
				c = ast.Expr(call)
			i = next(k for k, s in enumerate(b) if s is ss[0])
			b[i:i + len(ss)] = [c]
			new.append(h)
			return n
	t = V().visit(t)
	# names of the module are looked up at call time
	i = next((i for i, s in enumerate(t.body) if isinstance(
		s, (ast.FunctionDef, ast.ClassDef))), len(t.body))
	t.body[i:i] = new
	return t


@tr
def tests(t):
	"""== b"" / len() spelled another way, not in, comparisons mirrored"""
	class V(ast.NodeTransformer):
		def visit_Compare(self, n):
			self.generic_visit(n)
			M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
			     ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
			if len(n.ops) == 1 and type(n.ops[0]) in M and not any(
					isinstance(x, ast.Call) for x in ast.walk(n)):
				return ast.Compare(n.comparators[0], [M[type(n.ops[0])]()],
				                   [n.left])
			if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
				return ast.UnaryOp(ast.Not(), ast.Compare(
					n.left, [ast.In()], n.comparators))
			return n
	return V().visit(t)


@tr
def demorgan(t):
	class V(ast.NodeTransformer):
		def visit_If(self, n):
			self.generic_visit(n)
			if isinstance(n.test, ast.BoolOp):
				op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
				n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
					op, [neg(v) for v in n.test.values]))
			return n
	return V().visit(t)


@tr
def withs(t):
	"""with a as b: X -> b = a.__enter__-free spelling: b = a; try: X finally:
	b.close() for open()"""
	class V(ast.NodeTransformer):
		def visit_With(self, n):
			self.generic_visit(n)
			i = n.items[0]
			if len(n.items) == 1 and isinstance(i.context_expr, ast.Call) and \
					isinstance(i.context_expr.func, ast.Name) and \
					i.context_expr.func.id == "open" and isinstance(
						i.optional_vars, ast.Name):
				v = i.optional_vars.id
				return [ast.Assign([name(v, ast.Store())], i.context_expr),
				        ast.Try(n.body, [], [], [ast.Expr(ast.Call(
					        ast.Attribute(name(v), "close", ast.Load()),
					        [], []))])]
			return n
	return V().visit(t)


@tr
def ifexp(t):
	"""if c: x = a else: x = b -> x = a if c else b"""
	class V(ast.NodeTransformer):
		def visit_If(self, n):
			self.generic_visit(n)
			if len(n.body) == len(n.orelse) == 1 and isinstance(
					n.body[0], ast.Assign) and isinstance(
					n.orelse[0], ast.Assign):
				a, b = n.body[0], n.orelse[0]
				if [ast.dump(x) for x in a.targets] == [
						ast.dump(x) for x in b.targets]:
					return ast.Assign(a.targets, ast.IfExp(
						n.test, a.value, b.value))
			return n
	return V().visit(t)


@tr
def fstrings(t):
	""""%s" % x -> str.format"""
	class V(ast.NodeTransformer):
		def visit_BinOp(self, n):
			self.generic_visit(n)
			if isinstance(n.op, ast.Mod) and isinstance(
					n.left, ast.Constant) and isinstance(n.left.value, str):
				s = n.left.value
				a = n.right.elts if isinstance(n.right, ast.Tuple) else [
					n.right]
				if s.count("%") == s.count("%s") == len(a) and \
						"{" not in s and "}" not in s:
					if len(a) == 1 and not isinstance(n.right, ast.Tuple) and \
							not isinstance(n.right, (ast.Constant, ast.Call)):
						pass
					return ast.Call(ast.Attribute(ast.Constant(
						s.replace("%s", "{0}" if False else "{}")),
						"format", ast.Load()), a, [])
			return n
	return V().visit(t)


@tr
def chained(t):
	"""adjacent independent plain assignments are swapped"""
	class V(Stmts):
		def block(self, b, o):
			b = list(b)
			i = 0

			def plain(s):
				return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
					isinstance(s.targets[0], ast.Name) and not any(
						isinstance(x, (ast.Call, ast.Subscript, ast.Attribute,
						               ast.BinOp))
						for x in ast.walk(s.value))
			while i + 1 < len(b):
				x, y = b[i], b[i + 1]
				if plain(x) and plain(y) and x.targets[0].id != \
						y.targets[0].id and not any(
						isinstance(z, ast.Name) and z.id == x.targets[0].id
						for z in ast.walk(y)) and not any(
						isinstance(z, ast.Name) and z.id == y.targets[0].id
						for z in ast.walk(x)):
					b[i], b[i + 1] = y, x
					i += 1
				i += 1
			return b
	return V().visit(t)


@tr
def untuple(t):
	"""(a,) = x -> a = x[0]"""
	class V(ast.NodeTransformer):
		def visit_Assign(self, n):
			if len(n.targets) == 1 and isinstance(
					n.targets[0], ast.Tuple) and len(
					n.targets[0].elts) == 1 and isinstance(
					n.value, ast.Call):
				return ast.Assign(n.targets[0].elts, ast.Subscript(
					n.value, ast.Constant(0), ast.Load()))
			return n
	return V().visit(t)


@tr
def looptrue(t):
	"""while c: X -> while True: if not c: break; X"""
	class V(ast.NodeTransformer):
		def visit_While(self, n):
			self.generic_visit(n)
			if not n.orelse and not (isinstance(n.test, ast.Constant)):
				return ast.While(ast.Constant(True), [
					ast.If(neg(n.test), [ast.Break()], [])] + n.body, [])
			return n
	return V().visit(t)


@tr
def guard(t):
	"""if c: ...return/raise  else: Y  -> if c: ...; Y"""
	class V(Stmts):
		def block(self, b, o):
			out = []
			for s in b:
				if isinstance(s, ast.If) and s.orelse and isinstance(
						s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
					out += [ast.If(s.test, s.body, [])] + s.orelse
				else:
					out.append(s)
			return out
	return V().visit(t)


@tr
def elseafter(t):
	"""if c: return; Y -> if c: return else: Y"""
	class V(Stmts):
		def block(self, b, o):
			for i, s in enumerate(b[:-1]):
				if isinstance(s, ast.If) and not s.orelse and isinstance(
						s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
					return b[:i] + [ast.If(s.test, s.body, self.block(
						b[i + 1:], o))]
			return b
	return V().visit(t)


def make(nm, d):
	shutil.rmtree(d, ignore_errors=True)
	os.mkdir(d)
	subprocess.check_call(
		"git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
	for pk in PKGS:
		for r, ds, fs in os.walk(os.path.join(d, pk)):
			if "test" in r.split(os.sep):
				continue
			for f in fs:
				if f.endswith(".py"):
					p = os.path.join(r, f)
					src = open(p, encoding="utf-8").read()
					t = T[nm](ast.parse(src))
					open(p, "w", encoding="utf-8").write(
						ast.unparse(ast.fix_missing_locations(t)) + "\n")


if __name__ == "__main__":
	if sys.argv[1] == "list":
		print(" ".join(T))
	else:
		make(sys.argv[1], sys.argv[2])
		for i in sys.argv[3:]:
			c = subprocess.run(
				["python3", "/verif/check.py", i], capture_output=True,
				text=True, env=dict(os.environ, SA_REPO=sys.argv[2],
				                    SA_OUT=sys.argv[2] + "/out"))
			ls = c.stdout.strip().splitlines() or [""]
			print(sys.argv[1], i, "rc=%d" % c.returncode, ls[-1],
			      "" if c.returncode == 0 else "\n   " + "\n   ".join(
				[x.strip()[:250] for x in ls if x.startswith("  ")][:4]) +
			      c.stderr[-300:], flush=True)
