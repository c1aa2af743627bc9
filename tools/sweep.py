#!/usr/bin/env python3
"""Development helper: small mechanical mutations of the analysed code; those
that pass the stable tests are given to the checks.
usage: sweep.py OUT SEED COUNT WORKERS [FILE...]
One line per surviving mutant: file:line, the edit, the checks that alarm."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

FILES = ["rescene/main.py", "rescene/rar.py", "rescene/rarstream.py",
         "rescene/utility.py", "rescene/srr.py", "resample/main.py",
         "resample/ebml.py", "resample/mov.py", "resample/riff.py",
         "resample/asf.py", "resample/flac.py", "resample/mp3.py",
         "resample/stream.py", "resample/m2ts.py", "resample/srs.py"]
CHECKS = "16 17 08 12 05 06 07 09 15 18 11 01 13 04 14 10".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
       ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.BitAnd: ("&", "|"),
       ast.Mult: ("*", "+"), ast.LShift: ("<<", ">>"), ast.Mod: ("%", "//")}
SKIP = ("explain", "print", "__repr__", "__str__", "flag_format", "debug",
        "usage", "main", "hex", "show")


def mutants(path):
	text = open(path, newline="").read()
	nl = "\r\n" if "\r\n" in text else "\n"
	lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
	tree = ast.parse("\n".join(lines))
	out = []

	def sub(a, b, old, new):
		"""replace in the text between two nodes"""
		if a[0] != b[0]:
			return
		l = lines[a[0] - 1].encode("utf-8")
		s = l[a[1]:b[1]].decode("utf-8")
		if s.count(old) == 1:
			t = l[:a[1]] + s.replace(old, new).encode("utf-8") + l[b[1]:]
			out.append((a[0], t.decode("utf-8")))

	def start(n):
		return n.lineno, n.col_offset

	def stop(n):
		return n.end_lineno, n.end_col_offset

	def walk(n, fn):
		for c in ast.iter_child_nodes(n):
			if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
				if not any(s in c.name.lower() for s in SKIP):
					walk(c, fn or isinstance(c, ast.FunctionDef))
				continue
			if isinstance(c, ast.If) and "_DEBUG" in ast.dump(c.test) or \
					isinstance(c, ast.Raise) or isinstance(c, ast.Assert):
				continue
			if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and \
					getattr(c.value.func, "id", "") in ("_fire", "print"):
				continue
			if fn:
				one(c)
			walk(c, fn)

	def one(c):
		if isinstance(c, ast.Compare) and len(c.ops) == 1 and \
				type(c.ops[0]) in CMP:
			sub(stop(c.left), start(c.comparators[0]), SYM[type(c.ops[0])],
			    CMP[type(c.ops[0])])
		elif isinstance(c, ast.BoolOp):
			for x, y in zip(c.values, c.values[1:]):
				a = isinstance(c.op, ast.And)
				sub(stop(x), start(y), "and" if a else "or",
				    "or" if a else "and")
		elif isinstance(c, ast.BinOp) and type(c.op) in BIN and not isinstance(
				c.left, ast.Constant):
			sub(stop(c.left), start(c.right), *BIN[type(c.op)])
		elif isinstance(c, ast.Constant) and type(c.value) is int:
			s = ast.get_source_segment("\n".join(lines), c)
			sub(start(c), stop(c), s, str(c.value + 1))
			if c.value:
				sub(start(c), stop(c), s, str(c.value - 1))
		elif isinstance(c, ast.Constant) and type(c.value) is bool:
			sub(start(c), stop(c), str(c.value), str(not c.value))
		elif isinstance(c, ast.Break):
			sub(start(c), stop(c), "break", "continue")
		elif isinstance(c, (ast.AugAssign, ast.Expr)) and \
				c.lineno == c.end_lineno and not (
					isinstance(c, ast.Expr) and isinstance(
						c.value, ast.Constant)):
			l = lines[c.lineno - 1]
			out.append((c.lineno, l[:len(l) - len(l.lstrip())] + "pass"))
		elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
			sub(start(c), stop(c), "not ", "")
	walk(tree, False)
	res = []
	for ln, t in out:
		if t != lines[ln - 1]:
			res.append((ln, lines[ln - 1], t, nl))
	return res


def sh(c, **k):
	return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def job(arg):
	i, f, ln, old, new, nl, stable = arg
	d = "/tmp/mw/%d" % i
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)
	try:
		sh("git -C /repo archive --prefix=repo/ HEAD | tar x -C %s" % d)
		p = d + "/repo/" + f
		ls = open(p, newline="").read().replace("\r\n", "\n").replace(
			"\r", "\n").split("\n")
		ls[ln - 1] = new
		open(p, "w", newline="").write(nl.join(ls))
		try:
			ast.parse(nl.join(ls))
		except SyntaxError:
			return None
		sh("sed 's#/repo#%s/repo#g' /opt/vp/test.sh > %s/test.sh" % (d, d))
		sh("timeout 120 bash %s/test.sh %s/o.json" % (d, d))
		try:
			o = set(json.load(open(d + "/o.json"))["passed"])
		except (OSError, ValueError):
			return None
		if stable - o:
			return None
		rs = []
		for c in CHECKS:
			r = sh("SA_REPO=%s/repo SA_OUT=%s/ev timeout 600 python3 -W ignore "
			       "/verif/check.py P%s" % (d, d, c))
			if r.returncode:
				rs.append("P%s:%d" % (c, r.returncode))
				break
		return "%s:%d [%s] -> [%s] %s" % (f, ln, old.strip(), new.strip(),
		                                  " ".join(rs) or "MISSED")
	finally:
		shutil.rmtree(d, ignore_errors=True)


def main():
	out, seed, count, workers = sys.argv[1:5]
	ms = []
	stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
	for f in sys.argv[5:] or FILES:
		ms += [(f,) + m for m in mutants("/repo/" + f)]
	random.Random(int(seed)).shuffle(ms)
	ms = [(i,) + m + (stable,) for i, m in enumerate(ms[:int(count)])]
	with ThreadPoolExecutor(int(workers)) as ex, open(out, "w") as o:
		n = 0
		for r in ex.map(job, ms):
			n += 1
			if r:
				o.write(r + "\n")
				o.flush()
		o.write("%d mutants tried\n" % n)


main()
